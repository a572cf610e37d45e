package adapter

import (
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// Verif_C01_history: two namespaces whose policies name configurations of the same
// name; configurations and policies come, change and go between the requests, and
// every request is decided with what its own namespace holds at that time.
//
//verif:bound=2_namespaces_using_the_same_names,histories_of_4_events_(thorough_5):a_request,_a_key_set,_client_or_policy_replaced,_a_configuration_deleted;client_ids_of_1_character,_1_or_2_policies_on_the_path_of_which_the_first_decides budget=120 tbudget=400
func Verif_C01_history() {
	type space struct {
		name   string
		keys   *zzKeySet
		client *zzClient
		pps    []v1.PathPolicy
	}
	w := zzNewWorld()
	spaces := []*space{{name: "a"}, {name: "b"}}
	setKeys := func(s *space) {
		s.keys = &zzKeySet{name: s.name}
		w.store.AddKeySet(s.name+"/c", s.keys)
	}
	setClient := func(s *space) {
		s.client = &zzClient{id: zz.StringIn("client.id", zzNameChars, 1, 1)}
		w.store.AddClient(s.name+"/c", s.client)
	}
	setPolicy := func(s *space) {
		pp := v1.PathPolicy{PolicyType: []string{"oidc", "jwt"}[zz.Choose("type", 2)], Config: "c"}
		if zz.Choose("rules", 2) == 1 {
			pp.Rules = []v1.Rule{{Claim: zz.StringIn("claim", zzNameChars, 1, 1), Values: []string{"v"}}}
		}
		s.pps = []v1.PathPolicy{pp}
		if s.name == "a" && zz.Choose("second", 2) == 1 {
			second := v1.PathPolicy{PolicyType: "jwt", Config: "c", Rules: []v1.Rule{{Claim: "second"}}}
			if pp.PolicyType == "jwt" {
				second.PolicyType = "oidc"
			}
			s.pps = append(s.pps, second)
		}
		w.h.HandleAddUpdateEvent(zzPolicy(s.name, "p", v1.TargetElement{ServiceName: "svc", Paths: []v1.PathConfig{{Prefix: "/", Policies: s.pps}}}))
	}
	for _, s := range spaces {
		setKeys(s)
		setClient(s)
		setPolicy(s)
	}
	n := 4
	if zz.Thorough() {
		n = 5
	}
	asked := 0
	for i := 0; i < n; i++ {
		s := spaces[0]
		if i > 0 {
			s = spaces[zz.Choose("space", 2)]
		}
		event := 0
		if i > 0 && i < n-1 {
			event = zz.Choose("event", 6)
		}
		switch event {
		case 1:
			setKeys(s)
			continue
		case 2:
			setClient(s)
			continue
		case 3:
			setPolicy(s)
			continue
		case 4:
			w.h.HandleDeleteEvent(policy.CrdKey{Id: s.name + "/c", CrdType: v1.JWTCONFIG})
			s.keys = nil
			continue
		case 5:
			w.h.HandleDeleteEvent(policy.CrdKey{Id: s.name + "/c", CrdType: v1.OIDCCONFIG})
			s.client = nil
			continue
		}
		w.api.calls, w.web.calls, w.api.action, w.web.action = 0, 0, nil, nil
		resp, err := w.a.HandleAuthnZ(nil, zzRequest(s.name, "svc", "/x", "GET"))
		zz.Assert(!zzPassed(resp), "a covered request is not passed without its check")
		pp := s.pps[0]
		if (pp.PolicyType == "jwt" && s.keys == nil) || (pp.PolicyType == "oidc" && s.client == nil) {
			zz.Assert(err != nil && w.api.calls+w.web.calls == 0, "a policy without a usable configuration is an error")
			zz.Reach("configuration gone")
			continue
		}
		if err != nil {
			zz.Assert(len(s.pps) == 2 && (s.keys == nil || s.client == nil), "a request fails although its configurations exist")
			zz.Assert(w.api.calls+w.web.calls == 0, "an error is decided by a strategy")
			continue
		}
		if len(s.pps) == 2 {
			zz.Reach("first listed")
		}
		if asked++; asked > 1 {
			zz.Reach("decided again")
		}
		if pp.PolicyType == "jwt" {
			a := w.api.action
			zz.Assert(err == nil && w.api.calls == 1 && w.web.calls == 0, "a jwt policy is decided by the token check")
			zz.Assert(a != nil && a.KeySet == s.keys, "with the key set its namespace holds at the time")
			zz.Assert(a != nil && len(a.Rules) == len(pp.Rules) && (len(pp.Rules) == 0 || zz.DeepEqual(a.Rules, pp.Rules)), "and that policy's rules")
			continue
		}
		a := w.web.action
		zz.Assert(err == nil && w.web.calls == 1 && w.api.calls == 0, "an oidc policy is decided by the OIDC flow")
		zz.Assert(a != nil && a.Client == s.client, "with the client its namespace holds at the time")
		if pp.Rules != nil {
			zz.Assert(a != nil && zz.DeepEqual(a.Rules, pp.Rules), "and that policy's rules")
			continue
		}
		ok := a != nil && len(a.Rules) == 1
		zz.Assert(ok, "or the default rule")
		if ok {
			r := a.Rules[0]
			zz.Assert(zz.And(r.Claim == "aud", r.Match == "ANY", zz.DeepEqual(r.Values, []string{s.client.id})), "that the audience names the client it holds at the time")
		}
	}
}
