package controller

import (
	"errors"
	"strconv"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/tools/cache"
	"k8s.io/client-go/util/workqueue"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzKube stands for the informer, its cache, the queue and the handler.
type zzKube struct {
	workqueue.RateLimitingInterface
	stop     chan struct{}
	pending  []string
	requeues map[string]int
	max      int // items taken
	crd      v1.CrdType

	taken   int
	key     string // being processed
	outcome int    // of the cache read: 0 error, 1 there, 2 gone
	version string
	reads   int
	applied []string
	removed []string
	added   int
	forgot  int
	done    int
	open    bool
	again   map[string]int
	gaveUp  bool
}

func (k *zzKube) Get() (interface{}, bool) {
	k.settle()
	if len(k.pending) == 0 || k.taken == k.max {
		close(k.stop)
		return nil, true
	}
	k.taken++
	k.key, k.pending = k.pending[0], k.pending[1:]
	k.open = true
	k.reads, k.added, k.forgot, k.done = 0, 0, 0, 0
	k.applied, k.removed = nil, nil
	return k.key, false
}

func (k *zzKube) ShutDown()          {}
func (k *zzKube) ShuttingDown() bool { return false }
func (k *zzKube) Len() int           { return len(k.pending) }

func (k *zzKube) Done(item interface{}) {
	k.done++
	zz.Assert(item.(string) == k.key, "another key is marked done")
}

func (k *zzKube) NumRequeues(item interface{}) int { return k.requeues[item.(string)] }

func (k *zzKube) requeue(item interface{}) {
	key := item.(string)
	k.added++
	zz.Assert(key == k.key, "another key is queued again")
	k.pending = append(k.pending, key)
	k.again[key]++
}

func (k *zzKube) AddRateLimited(item interface{}) {
	k.requeue(item)
	k.requeues[item.(string)]++
}

func (k *zzKube) Add(item interface{}) { k.requeue(item) }

func (k *zzKube) Forget(item interface{}) {
	key := item.(string)
	zz.Assert(key == k.key, "the history of another key is cleared")
	k.forgot++
	delete(k.requeues, key)
}

// settle judges the item just processed.
func (k *zzKube) settle() {
	if !k.open {
		return
	}
	k.open = false
	zz.Assert(k.done == 1, "a key taken is not marked done exactly once")
	zz.Assert(k.reads > 0, "the cache was not read")
	switch k.outcome {
	case 0:
		zz.Reach("cache cannot be read")
		zz.Assert(len(k.applied) == 0 && len(k.removed) == 0, "something was applied or removed although the cache could not be read")
		if k.forgot > 0 && k.added == 0 {
			zz.Reach("given up")
			zz.Assert(k.again[k.key] == 5, "a key is given up before it was queued again five times")
			k.again[k.key] = 0
		} else {
			zz.Assert(k.added == 1, "a key whose object could not be read is not queued again")
			zz.Assert(k.again[k.key] <= 5, "a key is queued again more than five times")
		}
	case 1:
		zz.Reach("applied")
		zz.Assert(len(k.applied) == 1 && k.applied[0] == k.key+"@"+k.version, "the current object was not applied")
		zz.Assert(len(k.removed) == 0, "an existing object was removed")
	case 2:
		zz.Reach("removed")
		zz.Assert(len(k.removed) == 1 && k.removed[0] == k.key, "a deleted object was not removed")
		zz.Assert(len(k.applied) == 0, "a deleted object was applied")
	}
	if k.outcome > 0 {
		zz.Assert(k.added == 0, "a key is queued again after success")
		zz.Assert(k.forgot > 0 && k.requeues[k.key] == 0, "the retry history is not cleared after success")
		k.again[k.key] = 0
	}
}

func (k *zzKube) HandleAddUpdateEvent(obj interface{}) {
	p, ok := obj.(*v1.Policy)
	zz.Assert(ok && p != nil, "not the object of the cache")
	k.applied = append(k.applied, p.Namespace+"/"+p.Name+"@"+p.ResourceVersion)
}

func (k *zzKube) HandleDeleteEvent(obj interface{}) {
	c, ok := obj.(policy.CrdKey)
	zz.Assert(ok, "not an object key")
	zz.Assert(c.CrdType == k.crd, "an object of another kind is removed")
	k.removed = append(k.removed, c.Id)
}

type zzInformer struct {
	cache.SharedIndexInformer
	k *zzKube
}

func (i zzInformer) Run(stop <-chan struct{})  {}
func (i zzInformer) HasSynced() bool           { return true }
func (i zzInformer) GetIndexer() cache.Indexer { return zzIndexer{k: i.k} }
func (i zzInformer) GetStore() cache.Store     { return zzIndexer{k: i.k} }

type zzIndexer struct {
	cache.Indexer
	k *zzKube
}

func (i zzIndexer) GetByKey(key string) (interface{}, bool, error) {
	k := i.k
	zz.Assert(key == k.key, "the object of another key is read")
	if k.reads == 0 {
		k.outcome = zz.Int("read"+strconv.Itoa(k.taken), 0, 2)
		k.version = zz.StringIn("version"+strconv.Itoa(k.taken), "0123456789", 1, 8)
	}
	k.reads++
	switch k.outcome {
	case 0:
		// whatever comes along with the error
		if zz.Bool("stale" + strconv.Itoa(k.taken)) {
			return &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: "stale"}}, true, errors.New("cache unavailable")
		}
		return nil, false, errors.New("cache unavailable")
	case 1:
		return &v1.Policy{ObjectMeta: metav1.ObjectMeta{Namespace: "ns", Name: key[3:], ResourceVersion: k.version}}, true, nil
	}
	return nil, false, nil
}

func zzProcess(max int, keys ...string) {
	k := &zzKube{stop: make(chan struct{}), pending: keys, requeues: map[string]int{}, again: map[string]int{}, max: max}
	k.crd = v1.CrdType(zz.Int("kind", int(v1.JWTCONFIG), int(v1.POLICY)))
	c := &Controller{CrdType: k.crd, Queue: k, Informer: zzInformer{k: k}, Handler: k}
	c.Run(k.stop)
	zz.Observe("taken", k.taken)
}

const zzName = "abcdefghijklmnopqrstuvwxyz0123456789-"

// A key whose object cannot be read, again and again.
//
//verif:bound=1_key_of_any_name_of_at_most_12_characters_taken_at_most_8_(16)_times,_any_outcome_of_each_cache_read budget=60 tbudget=200 wit=4
func Verif_C20_retries() {
	n := 8
	if zz.Thorough() {
		n = 16
	}
	zzProcess(n, "ns/"+zz.StringIn("a", zzName, 1, 12))
}

// Several keys, taken again after a new event.
//
//verif:bound=2_keys_(3)_of_any_names_of_at_most_12_characters,_one_with_2_events,_taken_at_most_6_(8)_times,_any_outcome_of_each_cache_read budget=60 tbudget=300 wit=4
func Verif_C20_keys() {
	a, b := "ns/"+zz.StringIn("a", zzName, 1, 12), "ns/"+zz.StringIn("b", zzName, 1, 12)
	if zz.Thorough() {
		c := "ns/" + zz.StringIn("c", zzName, 1, 12)
		zz.Assume(zz.And(a != b, b != c, a != c))
		zzProcess(8, a, b, a, c)
		return
	}
	zz.Assume(a != b)
	zzProcess(6, a, b, a)
}

// Many keys, each with one event.
//
//verif:bound=6_keys_of_any_names_of_at_most_12_characters_taken_at_most_7_(9)_times_together,_any_outcome_of_each_cache_read budget=60 tbudget=300 wit=4
func Verif_C20_many() {
	var keys []string
	for i := 0; i < 6; i++ {
		keys = append(keys, "ns/"+strconv.Itoa(i)+zz.StringIn("key"+strconv.Itoa(i), zzName, 0, 11))
	}
	n := 7
	if zz.Thorough() {
		n = 9
	}
	zzProcess(n, keys...)
}
