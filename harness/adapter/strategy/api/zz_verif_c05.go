package apistrategy

import (
	"strconv"
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzScopeChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789.:/_-"

// zzRefusal judges a refusal for a cause.
func zzRefusal(d int, h string, status int, code string, scopes []string) {
	zz.Assert(d == status, "the status tells the cause")
	if code != "" {
		zz.Assert(strings.Contains(h, ", error=\""+code+"\""), "the challenge names the error code")
	}
	zz.Assert(strings.Contains(h, ", error_description=\"") && !strings.Contains(h, "error_description=\"\""), "the challenge carries a description")
	if len(scopes) > 0 {
		zz.Assert(strings.Contains(h, ", scope=\""+strings.Join(scopes, " ")+"\""), "the challenge names the required scopes")
	}
}

// A refusal of the validator for any cause.
//
//verif:bound=error_codes_of_RFC_6750,_none_or_any_other_text,_any_description,_up_to_5_(8)_scopes_of_1..60_characters,_either_token budget=60 tbudget=120
func Verif_C05_cause() {
	e := &errors.OAuthError{Msg: zz.String("message", 200)}
	status := 500
	switch zz.Choose("code", 5) {
	case 0:
		e.Code, status = "invalid_token", 401
	case 1:
		e.Code, status = "invalid_request", 400
	case 2:
		e.Code, status = "insufficient_scope", 403
	case 3:
		e.Code = zz.StringIn("code text", zzScopeChars, 1, 20)
		zz.Assume(zz.And(e.Code != "invalid_token", e.Code != "invalid_request", e.Code != "insufficient_scope"))
	}
	max := 5
	if zz.Thorough() {
		max = 40
	}
	n := zz.Choose("scopes", max+2)
	if n <= max {
		e.Scopes = []string{}
		for i := 0; i < n; i++ {
			e.Scopes = append(e.Scopes, zz.StringIn("scope"+strconv.Itoa(i), zzScopeChars, 1, 60))
		}
	}
	scopes := append([]string{}, e.Scopes...)
	code := e.Code
	v := &zzValidator{}
	header := "Bearer a i"
	if zz.Choose("token", 2) == 0 {
		v.access = e
	} else {
		v.id = e
	}
	resp, err := (&APIStrategy{tokenUtil: v}).HandleAuthnZRequest(zzRequest(header), zzAction(&zzKeys{}, nil))
	zz.Assert(err == nil, "a refusal is an answer")
	d, h := zzChallenge(resp)
	zz.Observe("challenge", h)
	zzRefusal(int(d.Code), h, status, code, scopes)
	if len(scopes) == 0 {
		zz.Assert(!strings.Contains(h, "scope=\""), "no scopes are required")
	}
	zz.Reach("refused")
}

// A header that is not of the right form.
//
//verif:bound=any_header_of_up_to_20_(40)_printable_characters budget=60 tbudget=120
func Verif_C05_header() {
	max := 20
	if zz.Thorough() {
		max = 40
	}
	v := &zzValidator{}
	resp, err := (&APIStrategy{tokenUtil: v}).HandleAuthnZRequest(zzRequest(zz.String("header", max)), zzAction(&zzKeys{}, nil))
	zz.Assert(err == nil, "a refusal is an answer")
	if zzPassed(resp) {
		zz.Reach("passed")
		return
	}
	d, h := zzChallenge(resp)
	zzRefusal(int(d.Code), h, 401, "invalid_token", nil)
	zz.Reach("refused")
}

// Tokens the real validator refuses.
//
//verif:bound=tokens_refused_for_their_form,_key,_rules_or_for_want_of_a_key_set,_up_to_2_rules_of_which_at_most_one_requires_scopes,_1,_2_or_5_scopes budget=60 tbudget=120
func Verif_C05_tokens() {
	good := zz.Token(zz.Tok{Head: zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")), Claims: zz.JO(), Sign: "RS256"})
	bad := "x"
	if zz.Choose("form", 2) == 1 {
		bad = zz.Token(zz.Tok{Head: zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")), Claims: zz.JO(), Sign: "RS256", Key: 1})
	}
	var scopes []string
	for i, n := 0, []int{0, 1, 2, 5}[zz.Choose("scopes", 4)]; i < n; i++ {
		scopes = append(scopes, zz.StringIn("scope"+strconv.Itoa(i), zzScopeChars, 1, 60))
	}
	token := zz.Choose("token", 2)
	source := []string{"access_token", "id_token"}[token]
	var rules []v1.Rule
	other := zz.Choose("other rule", 3)
	if other == 1 {
		rules = append(rules, v1.Rule{Claim: "role", Match: "NOT", Values: []string{"r"}, Source: source})
	}
	if len(scopes) > 0 {
		rules = append(rules, v1.Rule{Claim: "scope", Values: scopes, Source: source})
	}
	if other == 2 {
		rules = append(rules, v1.Rule{Claim: "role", Match: "NOT", Values: []string{"r"}, Source: source})
	}
	cause := zz.Choose("cause", 3)
	t, status, code := bad, 401, "invalid_token"
	a := zzAction(&zzKeys{names: []string{"k"}}, rules)
	switch cause {
	case 1:
		// only the rules can fail
		t = good
	case 2:
		t, status, code = good, 500, ""
		a.KeySet = nil
	}
	header := "Bearer " + t
	if token == 1 {
		header = "Bearer " + good + " " + t
	}
	resp, err := New().HandleAuthnZRequest(zzRequest(header), a)
	zz.Assert(err == nil, "a refusal is an answer")
	if cause == 1 && len(scopes) == 0 {
		zz.Assert(zzPassed(resp), "a good token is refused")
		return
	}
	d, h := zzChallenge(resp)
	zz.Observe("challenge", h)
	if cause == 2 {
		scopes = nil
	}
	zzRefusal(int(d.Code), h, status, code, scopes)
	zz.Reach([]string{"bad token", "missing scope", "no key set"}[cause])
}
