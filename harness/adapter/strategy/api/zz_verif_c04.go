package apistrategy

import (
	"strconv"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

func zzOutcome(l string) *errors.OAuthError {
	if zz.Choose(l, 2) == 0 {
		return nil
	}
	return errors.UnauthorizedHTTPException("refused", nil)
}

// Any text as the header.
//
//verif:bound=any_header_of_up_to_30_(60)_printable_characters,_any_outcome_for_either_token budget=100 tbudget=400
func Verif_C04_text() {
	max := 30
	if zz.Thorough() {
		max = 60
	}
	header := zz.String("header", max)
	v := &zzValidator{access: zzOutcome("access"), id: zzOutcome("id")}
	ks := &zzKeys{}
	rules := []v1.Rule{{Claim: "a"}}
	resp, err := (&APIStrategy{tokenUtil: v}).HandleAuthnZRequest(zzRequest(header), zzAction(ks, rules))
	zz.Assert(err == nil && resp != nil && resp.Result != nil, "a request is decided")
	passed := zzPassed(resp)
	zz.Observe("passed", passed)
	if !passed {
		zz.Reach("refused")
		return
	}
	zz.Assert(len(v.asked) > 0 && len(v.asked) <= 2, "the tokens are validated")
	a := v.asked[0]
	zz.Assert(a.kind == validator.Access && v.access == nil && a.ks == ks && zz.DeepEqual(a.rules, rules), "the access token validates against the policy's key set and rules")
	rest := a.token
	if len(v.asked) == 2 {
		i := v.asked[1]
		zz.Assert(i.kind == validator.ID && v.id == nil && i.ks == ks && zz.DeepEqual(i.rules, rules), "the ID token validates against the policy's key set and rules")
		rest += " " + i.token
		zz.Reach("both tokens")
	} else {
		zz.Reach("access token")
	}
	ok := zz.Or(header == "Bearer "+rest, header == "bearer "+rest)
	if len(v.asked) == 1 {
		ok = zz.Or(ok, header == "Bearer "+rest+" ", header == "bearer "+rest+" ")
	}
	zz.Assert(ok, "the tokens that are validated are those of the header")
}

// A header of the right form is decided by the validation of its tokens.
//
//verif:bound=any_prefix_of_up_to_30_characters,_tokens_of_up_to_40_characters_without_spaces,_any_outcome_for_either_token,_a_further_part budget=60
func Verif_C04_form() {
	const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.-_~+/="
	prefix := "Bearer"
	switch zz.Choose("prefix", 3) {
	case 1:
		prefix = "bearer"
	case 2:
		prefix = zz.StringIn("prefix text", chars, 0, 30)
	}
	access := zz.StringIn("access token", chars, 0, 40)
	header := prefix + " " + access
	parts := zz.Choose("parts", 4)
	id := ""
	switch parts {
	case 1:
		header = prefix
	case 2:
		id = zz.StringIn("ID token", chars, 1, 40)
		header += " " + id
	case 3:
		header += " " + zz.StringIn("ID token", chars, 1, 40) + " " + zz.StringIn("rest", chars, 0, 3)
	}
	v := &zzValidator{access: zzOutcome("access"), id: zzOutcome("id")}
	ks := &zzKeys{}
	var rules []v1.Rule
	for i, n := 0, zz.Choose("rules", 3); i < n; i++ {
		rules = append(rules, v1.Rule{Claim: "c" + strconv.Itoa(i), Source: []string{"", "id_token"}[i]})
	}
	resp, err := (&APIStrategy{tokenUtil: v}).HandleAuthnZRequest(zzRequest(header), zzAction(ks, rules))
	zz.Assert(err == nil && resp != nil && resp.Result != nil, "a request is decided")
	due := zz.And(zz.Or(prefix == "Bearer", prefix == "bearer"), access != "", v.access == nil, parts == 0 || parts == 2 && v.id == nil)
	zz.Assert(zz.Iff(zzPassed(resp), due), "a header of the right form passes when its tokens validate, and no other does")
	if zzPassed(resp) {
		zz.Assert(len(v.asked) == 1+parts/2 && v.asked[0].token == access && v.asked[0].ks == ks && zz.DeepEqual(v.asked[0].rules, rules), "the access token is validated under the policy")
		if parts == 2 {
			zz.Assert(v.asked[1].token == id && v.asked[1].kind == validator.ID && v.asked[1].ks == ks && zz.DeepEqual(v.asked[1].rules, rules), "the ID token is validated under the policy")
			zz.Reach("passed with both")
		} else {
			zz.Reach("passed with an access token")
		}
	} else {
		zz.Reach("refused")
	}
}

// Real tokens under the real validator, request after request.
//
//verif:bound=2_requests_in_a_row_under_policies_with_different_key_sets_and_rules,_access_and_ID_tokens_signed_by_one_of_2_keys,_of_any_expiry,_rules_for_either_token_over_any_claim_value budget=60 tbudget=300
func Verif_C04_tokens() {
	s := New()
	now := int(time.Now().Unix())
	sets := []*zzKeys{{names: []string{"k0"}}, {names: []string{"other", "k0"}}}
	for step := 0; step < 2; step++ {
		l := "step" + strconv.Itoa(step)
		set := zz.Choose(l+".keyset", 2)
		mk := func(l string) (string, bool, string) {
			key := zz.Choose(l+".key", 2)
			role := zz.StringIn(l+".role", "abc", 1, 2)
			claims := zz.JO().With("role", zz.JS(role))
			timely := true
			if step == 0 {
				d := zz.Int(l+".exp", -1000000, 1000000)
				zz.Assume(zz.Or(d <= -60, d >= 60))
				claims.With("exp", zz.JN(now+d, false))
				timely = d > 0
			}
			return zz.Token(zz.Tok{Head: zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k0")), Claims: claims, Sign: "RS256", Key: key}), zz.And(key == set, timely), role
		}
		at, ok, role := mk(l + ".access")
		header := "Bearer " + at
		var rules []v1.Rule
		if src := zz.Choose(l+".access rule", 3); src > 0 {
			v := zz.StringIn(l+".access value", "abc", 1, 2)
			rules = append(rules, v1.Rule{Claim: "role", Values: []string{v}, Source: []string{"", "access_token"}[src-1]})
			ok = zz.And(ok, role == v)
		}
		idRule := ""
		if zz.Choose(l+".id rule", 2) == 1 {
			idRule = zz.StringIn(l+".id value", "abc", 1, 2)
			rules = append(rules, v1.Rule{Claim: "role", Match: "NOT", Values: []string{idRule}, Source: "id_token"})
		}
		switch zz.Choose(l+".id", 3) {
		case 1:
			it, iok, irole := mk(l + ".id")
			header += " " + it
			ok = zz.And(ok, iok, zz.Or(idRule == "", irole != idRule))
		case 2:
			header += " x"
			ok = false
		}
		a := zzAction(sets[set], rules)
		if step == 1 && zz.Choose(l+".no keyset", 2) == 1 {
			a.KeySet = nil
			ok = false
		}
		resp, err := s.HandleAuthnZRequest(zzRequest(header), a)
		zz.Assert(err == nil && resp != nil && resp.Result != nil, "a request is decided")
		zz.Observe("passed", zzPassed(resp))
		zz.Assert(zz.Iff(zzPassed(resp), ok), "a request passes when its tokens are good for its policy, and only then")
		if zzPassed(resp) {
			zz.Reach("passed")
		} else {
			zz.Reach("refused")
		}
	}
}
