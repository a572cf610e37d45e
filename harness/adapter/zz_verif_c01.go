package adapter

import (
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

type zzClient struct {
	client.Client
	id string
}

func (c *zzClient) ID() string { return c.id }

func zzPassed(resp *authnz.HandleAuthnZResponse) bool {
	return resp != nil && resp.Result != nil && resp.Result.Status.Code == 0
}

// Verif_C01_shape: a request with a missing part is an error.
//
//verif:bound=every_combination_of_absent_parts,with_and_without_a_root_policy
func Verif_C01_shape() {
	w := zzNewWorld()
	if zz.Choose("policy", 2) == 1 {
		w.store.AddKeySet("ns/c", &zzKeySet{})
		w.h.HandleAddUpdateEvent(zzPolicy("ns", "p", v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{{Prefix: "/", Policies: []v1.PathPolicy{{PolicyType: "jwt", Config: "c"}}}}}))
	}
	req := zzRequest("ns", "svc", "/"+zz.StringIn("seg", zzSegChars, 0, 60), "GET")
	missing := true
	switch zz.Choose("absent", 7) {
	case 0:
		req = nil
	case 1:
		req.Instance = nil
	case 2:
		req.Instance.Target = nil
	case 3:
		req.Instance.Request = nil
	case 4:
		req.Instance.Request.Headers = nil
	case 5:
		req.Instance.Request.Params = nil
	default:
		missing = false
	}
	resp, err := w.a.HandleAuthnZ(nil, req)
	if missing {
		zz.Assert(err != nil, "a request with a missing part is an error")
		zz.Assert(!zzPassed(resp), "a request with a missing part is not passed")
		zz.Assert(w.api.calls+w.web.calls == 0, "a request with a missing part is not decided by a strategy")
		zz.Reach("missing part")
	} else {
		zz.Assert(err == nil && resp != nil, "a complete request is decided")
		zz.Reach("complete")
	}
}

// Verif_C01_dispatch: one policy of any type and configuration name decides the
// requests it covers and no others.
//
//verif:bound=1_policy_of_arbitrary_type_text_(up_to_20),names_and_segments_of_up_to_60_characters,1_key_set_and_1_client_in_the_namespace_and_1_of_each_in_another,requests_of_1_segment,rules_nil,empty_or_1
func Verif_C01_dispatch() {
	w := zzNewWorld()
	ks := &zzKeySet{name: "k"}
	cl := &zzClient{id: zz.String("client.id", 40)}
	ksName := zz.StringIn("keyset.name", zzNameChars, 1, 60)
	clName := zz.StringIn("client.name", zzNameChars, 1, 60)
	w.store.AddKeySet("ns/"+ksName, ks)
	w.store.AddClient("ns/"+clName, cl)
	// configurations of another namespace: never in reach
	other := zz.StringIn("other.ns", zzNameChars, 1, 20)
	zz.Assume(other != "ns")
	w.store.AddKeySet(other+"/"+zz.StringIn("other.keyset", zzNameChars, 1, 20), &zzKeySet{name: "other"})
	w.store.AddClient(other+"/"+zz.StringIn("other.client", zzNameChars, 1, 20), &zzClient{id: "other"})
	typ := []string{"jwt", "oidc", ""}[zz.Choose("type", 3)]
	if typ == "" {
		typ = zz.String("type.text", 20)
		zz.Assume(zz.And(typ != "jwt", typ != "oidc"))
	}
	cfg := zz.StringIn("config", zzNameChars+"/", 0, 60)
	pp := v1.PathPolicy{PolicyType: typ, Config: cfg, RedirectUri: zz.String("redirect", 60)}
	switch zz.Choose("rules", 3) {
	case 2:
		pp.Rules = []v1.Rule{}
	case 1:
		pp.Rules = []v1.Rule{{Claim: zz.String("claim", 2), Match: zz.String("match", 2), Source: zz.String("source", 2), Values: []string{zz.String("value", 2)}}}
	}
	exact := zz.Choose("exact", 2) == 1
	seg := zz.StringIn("p.seg", zzSegChars, 1, 60)
	zz.Assume(seg != "*")
	pc := v1.PathConfig{Prefix: "/" + seg, Policies: []v1.PathPolicy{pp}}
	if exact {
		pc.Prefix, pc.Exact = "", "/"+seg
	}
	ns, svc := zz.StringIn("p.ns", zzNameChars, 1, 60), zz.StringIn("p.svc", zzNameChars, 1, 60)
	zz.Assume(ns == "ns")
	w.h.HandleAddUpdateEvent(zzPolicy(ns, "p", v1.TargetElement{ServiceName: svc, Paths: []v1.PathConfig{pc}}))

	rseg := zz.StringIn("r.seg", zzSegChars, 1, 60)
	rns, rsvc := zz.StringIn("r.ns", zzNameChars, 1, 60), zz.StringIn("r.svc", zzNameChars, 1, 60)
	method := zz.String("r.method", 8)
	req := zzRequest(rns, rsvc, "/"+rseg, method)
	covered := zz.Fork(zz.And(rns == "ns", rsvc == svc, rseg == seg))
	resp, err := w.a.HandleAuthnZ(nil, req)
	zz.Observe("error", err != nil)
	if !covered {
		zz.Assert(err == nil && zzPassed(resp) && w.api.calls+w.web.calls == 0, "a request no policy applies to is passed")
		zz.Reach("not covered")
		return
	}
	zz.Assert(!zzPassed(resp), "a covered request is not passed without its check")
	switch typ {
	case "jwt":
		if zz.Fork(cfg == ksName) {
			a := w.api.action
			zz.Assert(err == nil && w.api.calls == 1 && w.web.calls == 0 && resp == w.api.resp && w.api.req == req, "a jwt policy is decided by the token check")
			zz.Assert(a != nil && a.KeySet == ks && a.Type == policy.JWT, "with that policy's key set")
			zz.Assert(a != nil && len(a.Rules) == len(pp.Rules) && (len(pp.Rules) == 0 || zz.DeepEqual(a.Rules, pp.Rules)), "and that policy's rules")
			zz.Reach("jwt")
			return
		}
	case "oidc":
		if zz.Fork(cfg == clName) {
			a := w.web.action
			zz.Assert(err == nil && w.web.calls == 1 && w.api.calls == 0 && resp == w.web.resp && w.web.req == req, "an oidc policy is decided by the OIDC flow")
			zz.Assert(a != nil && a.Client == cl && a.Type == policy.OIDC && a.RedirectUri == pp.RedirectUri, "with that policy's client and redirect URI")
			if pp.Rules != nil {
				zz.Assert(a != nil && zz.DeepEqual(a.Rules, pp.Rules), "and that policy's rules")
			} else {
				ok := a != nil && len(a.Rules) == 1
				zz.Assert(ok, "or the default rule")
				if ok {
					r := a.Rules[0]
					zz.Assert(zz.And(r.Claim == "aud", r.Match == "ANY", zz.DeepEqual(r.Values, []string{cl.id})), "that the audience names the client")
				}
			}
			zz.Reach("oidc")
			return
		}
	}
	zz.Assert(err != nil && w.api.calls+w.web.calls == 0, "a policy without a usable configuration is an error")
	zz.Reach("unusable configuration")
}

// Verif_C01_removed: configurations come and go; the decision follows.
//
//verif:bound=1_jwt_and_1_oidc_policy,key_set_and_client_each_present_or_deleted
func Verif_C01_removed() {
	w := zzNewWorld()
	ks := &zzKeySet{name: "k"}
	cl := &zzClient{id: "id"}
	w.store.AddKeySet("ns/c", ks)
	w.store.AddClient("ns/c", cl)
	typ := []string{"jwt", "oidc"}[zz.Choose("type", 2)]
	w.h.HandleAddUpdateEvent(zzPolicy("ns", "p", v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{{Prefix: "/", Policies: []v1.PathPolicy{{PolicyType: typ, Config: "c"}}}}}))
	delK, delC := zz.Choose("delete.keyset", 2) == 1, zz.Choose("delete.client", 2) == 1
	if delK {
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/c", CrdType: v1.JWTCONFIG})
	}
	if delC {
		w.h.HandleDeleteEvent(policy.CrdKey{Id: "ns/c", CrdType: v1.OIDCCONFIG})
	}
	resp, err := w.a.HandleAuthnZ(nil, zzRequest("ns", "svc", "/"+zz.StringIn("seg", zzSegChars, 0, 60), "GET"))
	zz.Assert(!zzPassed(resp), "a covered request is not passed without its check")
	gone := delK
	if typ == "oidc" {
		gone = delC
	}
	zz.Assert((err != nil) == gone, "the request is an error exactly while its configuration does not exist")
	zz.Assert(gone == (w.api.calls+w.web.calls == 0), "and decided otherwise")
}
