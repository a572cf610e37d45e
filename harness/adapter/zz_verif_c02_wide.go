package adapter

import (
	"strconv"
	"strings"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzChain makes entries along one deep path: at each depth there may be a
// prefix or an exact entry.
func zzChain(label string, deep int, some func(i int) int) (segs []string, es []zzEntry) {
	for i := 0; i < deep; i++ {
		s := "segment-number-" + strconv.Itoa(i)
		if !strings.HasPrefix(label, "long") {
			s = zz.StringIn(label+".seg"+strconv.Itoa(i), zzSegChars, 1, 60)
			zz.Assume(s != "*")
		}
		segs = append(segs, s)
	}
	path := ""
	for i := 0; i <= deep; i++ {
		if i > 0 {
			path += "/" + segs[i-1]
		}
		k := some(i)
		if k == 0 {
			continue
		}
		e := zzEntry{ns: "ns", svc: "svc", cfg: label + strconv.Itoa(i), segs: segs[:i], exact: k == 2}
		e.conf.Policies = []v1.PathPolicy{{PolicyType: "jwt", Config: e.cfg}}
		p := path
		if i == 0 {
			p = "/"
		}
		if e.exact {
			e.conf.Exact = p
		} else {
			e.conf.Prefix = p
		}
		es = append(es, e)
	}
	return
}

// zzAlong makes a request along the chain that may leave it somewhere.
func zzAlong(chain []string, max int) (segs []string, path string) {
	n := zz.Choose("r.segs", max+1)
	off := n
	if n > 0 && zz.Choose("r.leaves", 2) == 1 {
		off = zz.Choose("r.at", n)
	}
	for i := 0; i < n; i++ {
		s := ""
		if i < len(chain) && i != off {
			s = chain[i]
		} else {
			s = zz.StringIn("r.seg"+strconv.Itoa(i), zzSegChars, 1, 60)
		}
		segs = append(segs, s)
		path += "/" + s
	}
	if n == 0 {
		path = "/"
	}
	if n >= 2 {
		last := segs[n-2] + "/" + segs[n-1]
		zz.Assume(zz.And(last != "oidc/callback", last != "oidc/logout"))
	}
	return
}

// Verif_C02_deep: many policies along one deep path.
//
//verif:bound=any_set_of_prefix_policies_along_a_path_of_5_(6)_segments,_one_of_them_exact_or_not,_requests_of_up_to_6_(7)_segments_that_may_leave_the_path_anywhere budget=100 tbudget=300
func Verif_C02_deep() {
	w := zzNewWorld()
	deep := 5
	if zz.Thorough() {
		deep = 6
	}
	exact := []int{0, 3, deep + 1}[zz.Choose("exact", 3)]
	if zz.Thorough() {
		exact = zz.Choose("exact at", deep+2)
	}
	chain, es := zzChain("p", deep, func(i int) int {
		if i == exact {
			return 2
		}
		return zz.Choose("p"+strconv.Itoa(i), 2)
	})
	var paths []v1.PathConfig
	for _, e := range es {
		w.store.AddKeySet("ns/"+e.cfg, &zzKeySet{name: e.cfg})
		paths = append(paths, e.conf)
	}
	w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol", v1.TargetElement{ServiceName: "svc", Paths: paths}))
	segs, path := zzAlong(chain, deep+1)
	zzDecide(w, es, "ns", "svc", segs, path, "GET")
}

// Verif_C02_long: a path of many segments.
//
//verif:bound=a_prefix_policy_at_any_depth_of_a_path_of_20_(40)_segments_of_given_names,_another_prefix_or_exact_policy_at_its_end_or_none,_requests_for_the_path_or_below_it_that_may_leave_it_anywhere_with_a_segment_of_up_to_60_characters budget=60 tbudget=200
func Verif_C02_long() {
	w := zzNewWorld()
	deep := 20
	if zz.Thorough() {
		deep = 40
	}
	at, end := zz.Choose("at", deep+1), zz.Choose("end", 3)
	chain, es := zzChain("long", deep, func(i int) int {
		if i == deep && end > 0 {
			return end
		}
		if i == at {
			return 1
		}
		return 0
	})
	var paths []v1.PathConfig
	for _, e := range es {
		w.store.AddKeySet("ns/"+e.cfg, &zzKeySet{name: e.cfg})
		paths = append(paths, e.conf)
	}
	w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol", v1.TargetElement{ServiceName: "svc", Paths: paths}))
	n := deep + zz.Choose("below", 2)
	off := zz.Choose("leaves at", deep+1)
	var segs []string
	path := ""
	for i := 0; i < n; i++ {
		s := ""
		if i < deep && i != off {
			s = chain[i]
		} else {
			s = zz.StringIn("r.seg"+strconv.Itoa(i), zzSegChars, 1, 60)
		}
		segs = append(segs, s)
		path += "/" + s
	}
	last := segs[n-2] + "/" + segs[n-1]
	zz.Assume(zz.And(last != "oidc/callback", last != "oidc/logout"))
	zzDecide(w, es, "ns", "svc", segs, path, "GET")
}
