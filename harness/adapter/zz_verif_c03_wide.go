package adapter

import (
	"strconv"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// Verif_C03_many: many policies along one path, of which several are deleted
// or written anew.
//
//verif:bound=5_policies_of_one_endpoint_each_along_one_path,_then_3_(4)_events_out_of_a_deletion_and_a_move_to_another_endpoint_of_the_path budget=100 tbudget=300
func Verif_C03_many() {
	w := zzNewWorld()
	const deep = 4
	var segs []string
	for i := 0; i < deep; i++ {
		s := zz.StringIn("seg"+strconv.Itoa(i), zzSegChars, 1, 60)
		zz.Assume(s != "*")
		segs = append(segs, s)
	}
	decl := map[int][]zzEntry{}
	last := -1
	write := func(cfg string, p, depth int) {
		e := zzEntry{ns: "ns", svc: "svc", cfg: cfg, segs: segs[:depth]}
		path := ""
		for _, s := range e.segs {
			path += "/" + s
		}
		e.conf = v1.PathConfig{Prefix: path + "/*", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: cfg}}}
		w.store.AddKeySet("ns/"+cfg, &zzKeySet{name: cfg})
		w.h.HandleAddUpdateEvent(zzPolicy("ns", "pol"+strconv.Itoa(p), v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{e.conf}}))
		decl[p], last = []zzEntry{e}, p
	}
	for p := 0; p <= deep; p++ {
		write("c"+strconv.Itoa(p), p, p)
	}
	n := 3
	if zz.Thorough() {
		n = 4
	}
	for k := 0; k < n; k++ {
		l := "ev" + strconv.Itoa(k)
		p := zz.Choose(l+".policy", deep+1)
		if zz.Choose(l+".delete", 2) == 1 {
			w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/pol" + strconv.Itoa(p), CrdType: v1.POLICY})
			decl[p], last = nil, -1
			continue
		}
		write(l, p, (p+1+k)%(deep+1))
	}
	path := ""
	for _, s := range segs {
		path += "/" + s
	}
	zz.Assume(zz.And(segs[2] != "oidc", segs[3] != "callback"))
	zzExpect(w, decl, last, "ns", "svc", segs, path, "GET")
}
