package adapter

import (
	"strconv"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

var zzMethods = []string{"", "GET", "POST"}

// zzDecide checks the decision for one request against the entries.
func zzDecide(w *zzWorld, es []zzEntry, ns, svc string, segs []string, path, method string) {
	got := w.chosen(ns, svc, path, method)
	zz.Observe("chosen", got)
	best := 0
	ok := make([]bool, len(es))
	score := make([]int, len(es))
	for i := range es {
		m, s := es[i].match(segs)
		if es[i].specific() && es[i].method != method {
			m = false
		}
		ok[i] = zz.And(m, es[i].ns == ns, es[i].svc == svc)
		score[i] = s
		best = zz.IteInt(zz.And(ok[i], s > best), s, best)
	}
	if got == "" {
		zz.Assert(best == 0, "a request is without a policy only if no configured policy covers it")
		zz.Reach("no policy")
		return
	}
	known := false
	for i := range es {
		if es[i].cfg == got {
			known = true
			zz.Assert(ok[i], "the enforced policy covers the request")
			zz.Assert(score[i] == best, "the enforced policy is the most specific one covering the request")
			if es[i].exact {
				zz.Reach("exact policy")
			} else if es[i].specific() {
				zz.Reach("prefix policy for the method")
			} else {
				zz.Reach("prefix policy for all methods")
			}
		}
	}
	zz.Assert(known, "the enforced policy is a configured one")
}

// Verif_C02_two: two policies of one service, every overlap.
//
//verif:bound=2_policies,paths_of_up_to_2_segments,requests_of_up_to_2_segments(3_thorough)
func Verif_C02_two() {
	w := zzNewWorld()
	var es []zzEntry
	for i := 0; i < 2; i++ {
		c := "c" + strconv.Itoa(i)
		w.store.AddKeySet("ns/"+c, &zzKeySet{name: c})
		e := zzMakeEntry("p"+strconv.Itoa(i), 2, zzMethods, c)
		e.ns, e.svc = "ns", "svc"
		w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol"+strconv.Itoa(i), v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{e.conf}}))
		es = append(es, e)
	}
	max := 2
	if zz.Thorough() {
		max = 3
	}
	segs, path := zzReqPath("r", max)
	method := []string{"GET", "POST", "HEAD"}[zz.Choose("r.method", 3)]
	zzDecide(w, es, "ns", "svc", segs, path, method)
}

// Verif_C02_three: three policies on paths of one segment or the root.
//
//verif:bound=3_policies,paths_of_up_to_1_segment,requests_of_up_to_2_segments budget=90
func Verif_C02_three() {
	w := zzNewWorld()
	var es []zzEntry
	var paths []v1.PathConfig
	for i := 0; i < 3; i++ {
		c := "c" + strconv.Itoa(i)
		w.store.AddKeySet("ns/"+c, &zzKeySet{name: c})
		e := zzMakeEntry("p"+strconv.Itoa(i), 1, []string{"", "GET"}, c)
		e.ns, e.svc = "ns", "svc"
		es = append(es, e)
		paths = append(paths, e.conf)
	}
	w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol", v1.TargetElement{ServiceName: "svc", Paths: paths}))
	segs, path := zzReqPath("r", 2)
	method := []string{"GET", "POST"}[zz.Choose("r.method", 2)]
	zzDecide(w, es, "ns", "svc", segs, path, method)
}

// Verif_C02_services: policies only apply to their own namespace and service.
//
//verif:bound=2_policies_with_arbitrary_namespaces_and_services_of_up_to_60_characters,root_prefix_or_1_segment
func Verif_C02_services() {
	w := zzNewWorld()
	var es []zzEntry
	for i := 0; i < 2; i++ {
		l := "p" + strconv.Itoa(i)
		e := zzEntry{cfg: "c" + strconv.Itoa(i)}
		e.ns = zz.StringIn(l+".ns", zzNameChars, 1, 60)
		e.svc = zz.StringIn(l+".svc", zzNameChars, 1, 60)
		if zz.Choose(l+".root", 2) == 0 {
			s := zz.StringIn(l+".seg", zzSegChars, 1, 60)
			zz.Assume(s != "*")
			e.segs = []string{s}
			e.conf.Prefix = "/" + s
		} else {
			e.conf.Prefix = "/*"
		}
		e.conf.Policies = []v1.PathPolicy{{PolicyType: "jwt", Config: e.cfg}}
		w.store.AddKeySet(e.ns+"/"+e.cfg, &zzKeySet{name: e.cfg})
		w.h.HandleAddUpdateEvent(zzPolicy(e.ns, "pol"+strconv.Itoa(i), v1.TargetElement{ServiceName: e.svc, Paths: []v1.PathConfig{e.conf}}))
		es = append(es, e)
	}
	ns := zz.StringIn("r.ns", zzNameChars, 1, 60)
	svc := zz.StringIn("r.svc", zzNameChars, 1, 60)
	segs, path := zzReqPath("r", 1)
	zzDecide(w, es, ns, svc, segs, path, "GET")
}

// Verif_C02_spelling: the accepted spellings of a configured path and the
// ignored endings of a requested one do not change the decision.
//
//verif:bound=1_policy_in_every_spelling_next_to_a_root_prefix,every_known_method_for_the_policy_and_any_of_up_to_8_characters_for_the_request,requests_with_every_ignored_ending budget=150 tbudget=150
func Verif_C02_spelling() {
	w := zzNewWorld()
	e := zzMakeEntry("p0", 2, []string{"", "ALL", "GET", "PUT", "POST", "DELETE", "PATCH"}, "c0")
	e.respell(zz.Choose("p0.form", 4))
	e.ns, e.svc = "ns", "svc"
	root := zzEntry{cfg: "c1", ns: "ns", svc: "svc", conf: v1.PathConfig{Prefix: "/", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "c1"}}}}
	w.store.AddKeySet("ns/c0", &zzKeySet{name: "c0"})
	w.store.AddKeySet("ns/c1", &zzKeySet{name: "c1"})
	es := []zzEntry{e}
	w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol0", v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{e.conf}}))
	if zz.Choose("root", 2) == 1 {
		es = append(es, root)
		w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol1", v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{root.conf}}))
	}
	segs, path := zzReqPath("r", 2)
	switch zz.Choose("r.ending", 5) {
	case 1:
		if len(segs) > 0 {
			path += "/"
		}
	case 2:
		if len(segs) > 0 {
			path += "/oidc/callback"
		} else {
			path += "oidc/callback"
		}
	case 3:
		if len(segs) > 0 {
			path += "/oidc/logout"
		} else {
			path += "oidc/logout"
		}
	case 4:
		// the ending also occurs inside the path
		if len(segs) == 0 {
			path = ""
		}
		segs = append(segs, "oidc", "callback")
		path += "/oidc/callback/oidc/callback"
	}
	known := []string{"GET", "PUT", "POST", "DELETE", "PATCH"}
	method := append(known, "")[zz.Choose("r.method", 6)]
	if method == "" {
		method = zz.String("r.method text", 8)
		for _, k := range known {
			zz.Assume(method != k)
		}
		zz.Reach("another method")
	}
	zzDecide(w, es, "ns", "svc", segs, path, method)
}
