package webstrategy

import (
	"errors"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// zzURL is what a request asks for.
func zzURL(scheme, host, path string) string { return scheme + "://" + host + path }

// A login from the first request to the one after it.
//
//verif:bound=hosts_of_60_and_paths_of_at_most_54_(56)_characters,_a_path_that_holds_the_callback_suffix_in_its_middle,_any_redirect_URI_of_up_to_63_(65)_characters_or_one_that_continues_a_callback_URL,_tokens_of_up_to_5001_characters,_every_outcome_of_exchange_and_validation,_two_logins budget=100 tbudget=400
func Verif_C11_login() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	max := 3
	if zz.Thorough() {
		max = 5
	}
	c := zzNewClient("c")
	if zz.Choose("scopes", 2) == 1 {
		c.scope = zz.StringIn("scope", zzSeg+" ", 0, 3)
	}
	rules := []v1.Rule{{Claim: zz.StringIn("claim", zzSeg, 1, 60), Match: "ANY", Values: []string{"v"}}}
	act := zzAction(c, rules)
	switch zz.Choose("redirect", 3) {
	case 1:
		act.RedirectUri = zz.StringIn("to", zzPathish+":", 1, 60+max)
	case 2:
		act.RedirectUri = "https://x/oidc/callback/" + zz.StringIn("to", zzPathish, 0, 50+max)
	}
	scheme := "https"
	if zz.Fork(zz.Bool("plain")) {
		scheme = "http"
	}
	host := zz.StringIn("host", zzIDChars, 1, 60)
	path := "/" + zz.StringIn("path", zzPathish, 0, 50+max)
	if zz.Choose("inner", 2) == 1 {
		path = "/" + zz.StringIn("before", zzPathish, 0, 20) + "/oidc/callback" + "/" + zz.StringIn("after", zzPathish, 0, 20)
	}
	zz.Assume(zzOrdinary(path))
	ask := func(p, cookies string) (*authnz.HandleAuthnZRequest, string) {
		r := zzRequest(p, cookies)
		r.Instance.Request.Scheme, r.Instance.Request.Host = scheme, host
		return r, zzURL(scheme, host, p)
	}

	// the first request is sent to the provider
	r, original := ask(path, "")
	resp, err := w.HandleAuthnZRequest(r, act)
	state, cookie, q := zzLogin(resp, err, c)
	back := q.Get("redirect_uri")
	zz.Assert(back == original+"/oidc/callback", "the login does not come back to the request")

	// the provider answers the exchange as it likes
	tokens := &authserver.TokenResponse{AccessToken: "a" + zz.StringIn("access", zzSeg, 0, 5000), IdentityToken: "i" + zz.StringIn("id", zzSeg, 0, 5000), RefreshToken: zz.StringIn("refresh", zzSeg, 0, 1)}
	access := j.says(tokens.AccessToken, validator.Access, zz.Int("access outcome", zzOK, zzInvalid))
	id := j.says(tokens.IdentityToken, validator.ID, zz.Int("id outcome", zzOK, zzInvalid))
	switch zz.Choose("missing", 3) { // no token is not a good one
	case 1:
		tokens.AccessToken, access.token, access.outcome = "", "", zzInvalid
	case 2:
		tokens.IdentityToken, id.token, id.outcome = "", "", zzInvalid
	}
	grants := zz.Bool("grants")
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		if k.kind == "exchange" && zz.Fork(grants) {
			t := *tokens
			return &t, nil
		}
		return nil, errors.New("refused")
	}
	code := zz.String("code", 100)
	zz.Assume(code != "")
	r, _ = ask(path+"/oidc/callback", zzPair(cookie))
	r.Instance.Request.Params.Code = code
	r.Instance.Request.Params.State = state
	reported := ""
	if zz.Choose("error", 2) == 1 {
		reported = zz.String("error", 60)
		r.Instance.Request.Params.Error = reported
	}
	resp, err = w.HandleAuthnZRequest(r, act)
	zz.Assert(!zzPassed(resp), "a callback is passed to the application")
	if zz.Fork(reported != "") {
		zz.Assert(len(c.calls) == 0, "a code is exchanged although the provider reports an error")
		zz.Assert(zzSessions(w) == 0, "a session is stored although the provider reports an error")
		zz.Assert(zzRefused(resp, err), "an error of the provider is not refused")
		zz.Reach("provider error")
		return
	}
	zz.Assert(len(c.calls) == 1, "the code is not exchanged once")
	zz.Assert(zz.And(c.calls[0].kind == "exchange", c.calls[0].code == code), "another code is exchanged than the one received")
	zz.Assert(c.calls[0].uri == back, "the code is exchanged with another redirect URI than that of the login")
	good := zz.And(grants, access.outcome == zzOK, id.outcome == zzOK)
	zz.Assert(zz.Iff(good, zzSessions(w) == 1), "a session is created exactly when the tokens of the exchange validate")
	if zzSessions(w) == 0 {
		zz.Assert(zzRefused(resp, err), "a login that failed is not refused")
		zz.Reach("failed")
		return
	}
	zz.Reach("logged in")
	zz.Assert(j.validated(tokens.AccessToken, validator.Access, c, rules), "the access token is not validated against the policy")
	zz.Assert(j.validated(tokens.IdentityToken, validator.ID, c, rules), "the ID token is not validated against the policy")
	loc, set := zzRedirect(resp, err)
	if act.RedirectUri != "" {
		zz.Assert(loc == act.RedirectUri, "the browser is not sent to the policy's redirect URI")
	} else {
		zz.Assert(loc == original, "the browser is not sent to the URL it asked for")
	}
	k, life := zz.SetCookie(set)
	zz.Assert(k != nil, "no session cookie is set")
	zz.Assert(zz.And(k.Name == "oidc-cookie-c", k.Path == "/"), "the session cookie is not the client's")
	zz.Assert(life >= 0, "the session cookie has expired already")
	zz.Assert(k.Value != "" && k.Value != state, "the session id is not fresh")
	w.tokenCache.Range(func(key, v interface{}) bool {
		zz.Assert(key.(string) == k.Value, "the session is not stored under the id in the cookie")
		s := v.(*authserver.TokenResponse)
		zz.Assert(zz.And(s.AccessToken == tokens.AccessToken, s.IdentityToken == tokens.IdentityToken, s.RefreshToken == tokens.RefreshToken), "the session holds other tokens than those of the exchange")
		return true
	})
	// it is accepted afterwards
	r, _ = ask("/", k.Name+"="+k.Value)
	resp, err = w.HandleAuthnZRequest(r, act)
	zz.Assert(zzPassed(resp), "the session is not accepted after the login")
	zz.Assert(resp.Output.Authorization == zzAuthorization(tokens), "the session hands on other tokens than those of the exchange")

	// and a second login has a session of its own
	r, _ = ask(path, "")
	resp, err = w.HandleAuthnZRequest(r, act)
	state2, cookie2, _ := zzLogin(resp, err, c)
	r, _ = ask(path+"/oidc/callback", zzPair(cookie2))
	r.Instance.Request.Params.Code = code
	r.Instance.Request.Params.State = state2
	resp, err = w.HandleAuthnZRequest(r, act)
	_, set = zzRedirect(resp, err)
	k2, _ := zz.SetCookie(set)
	zz.Assert(k2 != nil && k2.Value != k.Value, "two logins share a session id")
	zz.Assert(zzSessions(w) == 2, "a login replaces the session of another")
	zz.Reach("two sessions")
}
