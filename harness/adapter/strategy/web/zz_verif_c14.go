package webstrategy

import (
	"errors"
	"strconv"

	"github.com/gorilla/securecookie"
	k8sv1 "k8s.io/api/core/v1"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// zzMadeWith tells whether a cookie was made with the keys of a secret.
func zzMadeWith(set string, s *k8sv1.Secret) bool {
	c, _ := zz.SetCookie(set)
	if c == nil || s == nil {
		return false
	}
	return securecookie.New(s.Data["HASH_KEY"], s.Data["BLOCK_KEY"]).Decode(c.Name, c.Value, &[]byte{}) == nil
}

func zzConfig(hash, block int) *config.Config {
	cfg := config.NewConfig()
	cfg.HashKeySize.Value, cfg.BlockKeySize.Value = hash, block
	return cfg
}

// The start of the process and the logins after it.
//
//verif:bound=3_(4)_logins,_a_secret_that_is_absent,_good_or_unusable_in_four_ways_and_repaired_later,_reads_and_creations_that_fail_for_any_number_of_calls,_the_random_source_failing_at_first,_all_key_sizes budget=150 tbudget=600
func Verif_C14_keys() {
	hash, block := 32, 16
	if zz.Choose("hash size", 2) == 1 {
		hash = 64
	}
	if zz.Thorough() {
		block = 16 + 8*zz.Choose("block size", 3)
	} else if hash == 64 {
		block = 24
	}
	cluster := &zzCluster{}
	usable := true
	h := zz.StringIn("hash key", zzSeg, 32, 32)
	b := zz.StringIn("block key", zzSeg, 16, 16)
	repaired := zzKeySecret(h, b)
	kind := zz.Choose("secret", 6)
	if kind > 0 {
		cluster.secret = zzKeySecret(h, b)
		usable = kind == 1
	}
	switch kind {
	case 2:
		delete(cluster.secret.Data, "HASH_KEY")
	case 3:
		delete(cluster.secret.Data, "BLOCK_KEY")
	case 4:
		cluster.secret.Data["HASH_KEY"] = []byte{}
	case 5:
		cluster.secret.Data["BLOCK_KEY"] = []byte("short")
	}
	getFails := zz.Int("failing reads", 0, 8)
	createFails := zz.Int("failing creations", 0, 8)
	bad, good := 0, 0 // calls in the current step
	cluster.get = func(n int) error {
		if zz.Fork(n <= getFails) {
			bad++
			return errors.New("cluster unreachable")
		}
		good++
		return nil
	}
	cluster.create = func(n int) error {
		if zz.Fork(n <= createFails) {
			bad++
			return errors.New("cluster unreachable")
		}
		return nil
	}
	random := zz.Choose("random source fails", 2) == 1
	zz.FailRandom(random)
	w := New(zzConfig(hash, block), cluster).(*WebStrategy)
	w.tokenUtil = &zzJudge{}
	zz.FailRandom(false)
	c := zzNewClient("c")
	n := 3
	if zz.Thorough() {
		n = 4
	}
	var inUse *k8sv1.Secret
	for i := 0; i < n; i++ {
		bad, good = 0, 0
		if !usable && i == 1+zz.Choose("repaired after"+strconv.Itoa(i), 2) {
			cluster.secret, usable = repaired, true
		}
		resp, err := w.HandleAuthnZRequest(zzRequest("/", ""), zzAction(c, nil))
		zz.Assert(!cluster.other, "another secret is read or created than the cookie key secret")
		zz.Assert(!zzPassed(resp), "a request without a session passes")
		if zzRefused(resp, err) {
			zz.Assert(inUse == nil, "keys that are in use are lost")
			zz.Assert(bad > 0 || !usable, "no login is started although the keys can be read or created")
			zz.Reach("no keys")
			continue
		}
		_, set := zzRedirect(resp, err)
		if inUse == nil {
			zz.Assert(cluster.secret != nil && usable, "a login is started with keys that are absent or not saved")
			if cluster.secret == nil {
				return
			}
			inUse = cluster.secret.DeepCopy()
			if kind == 0 {
				zz.Assert(len(inUse.Data["HASH_KEY"]) == hash && len(inUse.Data["BLOCK_KEY"]) == block, "the created keys do not have the configured sizes")
				zz.Assert(string(inUse.Data["HASH_KEY"][:16]) != string(inUse.Data["BLOCK_KEY"][:16]), "the created keys are not independent")
				zz.Reach("created")
			}
			if i > 0 {
				zz.Reach("keys found later")
			}
			zz.Assert(zzMadeWith(set, inUse), "a state cookie is not made with the keys of the secret")
			// the secret is replaced and the cluster goes away
			if zz.Choose("replaced", 2) == 1 {
				cluster.secret = zzKeySecret("another key another key another k", "another key, too")
			} else {
				cluster.secret = nil
				getFails, createFails = 1000, 1000
			}
			continue
		}
		zz.Assert(zzMadeWith(set, inUse), "the keys change while they are in use")
		zz.Reach("keys kept")
	}
}

// Several logins at once while the keys are not there yet.
//
//verif:bound=2_(3)_concurrent_first_logins,_secret_present_or_absent,_preemptions_at_every_call_of_the_cluster_and_every_lock budget=100 tbudget=400 preempt=2 tpreempt=3 replay=200
func Verif_C14_concurrent() {
	cluster := &zzCluster{}
	if zz.Choose("secret", 2) == 1 {
		cluster.secret = zzKeySecret(zzHash, zzBlock)
	}
	down := true
	fail := func(int) error {
		if down {
			return errors.New("cluster unreachable")
		}
		return nil
	}
	cluster.get, cluster.create = fail, fail
	w := New(config.NewConfig(), cluster).(*WebStrategy)
	w.tokenUtil = &zzJudge{}
	c := zzNewClient("c")
	down = false
	n := 2
	if zz.Thorough() {
		n = 3
	}
	resps := make([]*authnz.HandleAuthnZResponse, n)
	errs := make([]error, n)
	for i := 0; i < n; i++ {
		i := i
		zz.Go(func() {
			resps[i], errs[i] = w.HandleAuthnZRequest(zzRequest("/", ""), zzAction(c, nil))
		})
	}
	zz.Join()
	for i := 0; i < n; i++ {
		zz.Assert(!zzRefused(resps[i], errs[i]), "a login fails although the keys can be read or created")
		_, set := zzRedirect(resps[i], errs[i])
		zz.Assert(zzMadeWith(set, cluster.secret), "concurrent logins use other keys than those of the secret")
	}
	_, set := zzRedirect(w.HandleAuthnZRequest(zzRequest("/", ""), zzAction(c, nil)))
	zz.Assert(zzMadeWith(set, cluster.secret), "the keys change while they are in use")
	zz.Reach("all logged in")
}
