package adapter

import (
	"strconv"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzExpect checks the decision for one request against what the existing
// policies declare, of which the last event wrote one (or none: -1).
func zzExpect(w *zzWorld, decl map[int][]zzEntry, last int, ns, svc string, segs []string, path, method string) {
	got := w.chosen(ns, svc, path, method)
	zz.Observe("chosen", got)
	best := 0
	ok := map[string]bool{}
	score := map[string]int{}
	for p := 0; p < len(decl); p++ {
		for i := range decl[p] {
			e := &decl[p][i]
			m, s := e.match(segs)
			if e.specific() && e.method != method {
				m = false
			}
			m = zz.And(m, e.ns == ns, e.svc == svc)
			ok[e.cfg], score[e.cfg] = m, s
			best = zz.IteInt(zz.And(m, s > best), s, best)
		}
	}
	for i := range decl[last] {
		e := &decl[last][i]
		written := false
		for j := range decl[last] {
			written = written || decl[last][j].cfg == got
		}
		zz.Assert(zz.Implies(zz.And(ok[e.cfg], score[e.cfg] == best), written), "a policy that is written is enforced on the endpoints it names")
	}
	if got == "" {
		zz.Assert(best == 0, "an endpoint is unprotected only if no existing policy declares it")
		zz.Reach("unprotected")
		return
	}
	m, known := ok[got]
	zz.Assert(known, "only the latest version of an existing policy is enforced")
	if known {
		zz.Assert(m, "the enforced policy declares the endpoint")
		zz.Assert(score[got] == best, "the most specific existing policy is enforced")
		zz.Reach("protected")
	}
}

// zzHistory applies n events over two policies whose versions have eps endpoints.
func zzHistory(w *zzWorld, n, eps, maxSeg int, methods []string) (decl map[int][]zzEntry, last int) {
	decl = map[int][]zzEntry{0: nil, 1: nil}
	for k := 0; k < n; k++ {
		l := "ev" + strconv.Itoa(k)
		p := 0
		if k > 0 {
			p = zz.Choose(l+".policy", 2)
		}
		name := "pol" + strconv.Itoa(p)
		if k > 0 && zz.Choose(l+".delete", 2) == 1 {
			w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/" + name, CrdType: v1.POLICY})
			decl[p], last = nil, -1
			continue
		}
		var es []zzEntry
		var paths []v1.PathConfig
		for i := 0; i < eps; i++ {
			c := l + "c" + strconv.Itoa(i)
			w.store.AddKeySet("ns/"+c, &zzKeySet{name: c})
			e := zzMakeEntry(l+"."+strconv.Itoa(i), maxSeg, methods, c)
			e.ns, e.svc = "ns", "svc"
			es = append(es, e)
			paths = append(paths, e.conf)
		}
		w.h.HandleAddUpdateEvent(zzPolicy("ns", name, v1.TargetElement{ServiceName: "svc", Paths: paths}))
		decl[p], last = es, p
	}
	return
}

// Verif_C03_three: three events over two policies with one endpoint each.
//
//verif:bound=3_events,2_policies_of_1_endpoint,paths_of_up_to_1_segment,requests_of_1_segment budget=100
func Verif_C03_three() {
	w := zzNewWorld()
	methods := []string{"", "GET"}
	decl, last := zzHistory(w, 3, 1, 1, methods)
	s := zz.StringIn("r.seg0", zzSegChars, 1, 60)
	method := []string{"GET", "POST"}[zz.Choose("r.method", 2)]
	zzExpect(w, decl, last, "ns", "svc", []string{s}, "/"+s, method)
}

// Verif_C03_endpoints: two events over policies with two endpoints.
//
//verif:bound=2_events(3_thorough),2_policies_of_2_endpoints,paths_of_up_to_1_segment,no_methods budget=100
func Verif_C03_endpoints() {
	w := zzNewWorld()
	n := 2
	if zz.Thorough() {
		n = 3
	}
	decl, last := zzHistory(w, n, 2, 1, []string{""})
	segs, path := zzReqPath("r", 1)
	zzExpect(w, decl, last, "ns", "svc", segs, path, "GET")
}

// Verif_C03_deep: nested paths of two segments, two events.
//
//verif:bound=2_events,2_policies_of_1_endpoint,paths_of_up_to_2_segments,requests_of_up_to_3_segments
func Verif_C03_deep() {
	w := zzNewWorld()
	decl, last := zzHistory(w, 2, 1, 2, []string{"", "GET"})
	segs, path := zzReqPath("r", 3)
	zzExpect(w, decl, last, "ns", "svc", segs, path, "GET")
}

// Verif_C03_names: policies are told apart by namespace and name, targets by
// namespace and service.
//
//verif:bound=2_policies_with_arbitrary_namespaces,names_and_services_of_up_to_60_characters,1_create_each_then_1_deletion
func Verif_C03_names() {
	w := zzNewWorld()
	decl := map[int][]zzEntry{0: nil, 1: nil}
	var ns, name [2]string
	for p := 0; p < 2; p++ {
		l := "p" + strconv.Itoa(p)
		ns[p] = zz.StringIn(l+".ns", zzNameChars, 1, 60)
		name[p] = zz.StringIn(l+".name", zzNameChars, 1, 60)
		e := zzEntry{cfg: l, ns: ns[p], svc: zz.StringIn(l+".svc", zzNameChars, 1, 60)}
		e.conf = v1.PathConfig{Prefix: "/", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: l}}}
		w.store.AddKeySet(ns[p]+"/"+l, &zzKeySet{name: l})
		w.h.HandleAddUpdateEvent(zzPolicy(ns[p], name[p], v1.TargetElement{ServiceName: e.svc, Paths: []v1.PathConfig{e.conf}}))
		decl[p] = []zzEntry{e}
	}
	same := zz.Fork(zz.And(ns[0] == ns[1], name[0] == name[1]))
	if same {
		decl[0] = nil // the second event is an update of the first policy
	}
	dns := zz.StringIn("del.ns", zzNameChars, 1, 60)
	dname := zz.StringIn("del.name", zzNameChars, 1, 60)
	w.h.HandleDeleteEvent(policy.CrdKey{Id: dns + "/" + dname, CrdType: v1.POLICY})
	for p := 0; p < 2; p++ {
		if zz.Fork(zz.And(dns == ns[p], dname == name[p])) {
			decl[p] = nil
		}
	}
	s := zz.StringIn("r.seg0", zzSegChars, 1, 60)
	zzExpect(w, decl, -1, zz.StringIn("r.ns", zzNameChars, 1, 60), zz.StringIn("r.svc", zzNameChars, 1, 60), []string{s}, "/"+s, "GET")
}
