package webstrategy

import (
	"errors"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// A session opens what is protected by the client that it was created for, and
// nothing else, wherever the browser sends its identifier.
//
//verif:bound=2_clients_of_any_ids_of_at_most_41_(61)_characters,_a_login_at_one,_any_outcome_of_each_validation,_the_session_sent_to_the_other_under_either_cookie_name_before_and_after_a_refresh budget=60 tbudget=200
func Verif_C08_otherclient() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	max := 40
	if zz.Thorough() {
		max = 60
	}
	a := zzNewClient("c" + zz.StringIn("a", zzIDChars, 0, max))
	b := zzNewClient("c" + zz.StringIn("b", zzIDChars, 0, max))
	b.server = &zzServer{auth: "https://other/auth", info: "https://other/info", ks: &zzNoKeys{}}
	zz.Assume(a.id != b.id)
	issued := &authserver.TokenResponse{AccessToken: "A", IdentityToken: "I", RefreshToken: "R"}
	fresh := &authserver.TokenResponse{AccessToken: "B", IdentityToken: "J", RefreshToken: "Q"}
	a.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		r := *issued
		if k.kind == "refresh" {
			r = *fresh
		}
		return &r, nil
	}
	good := zz.Bool("the other accepts such tokens")
	b.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		if zz.Fork(good) {
			r := *fresh
			return &r, nil
		}
		return nil, errors.New("unknown token")
	}
	va := j.says("A", validator.Access, zzOK)
	vi := j.says("I", validator.ID, zzOK)
	j.says("B", validator.Access, zzOK)
	j.says("J", validator.ID, zzOK)

	// the login
	resp, err := w.HandleAuthnZRequest(zzRequest("/", ""), zzAction(a, nil))
	state, cookie, _ := zzLogin(resp, err, a)
	req := zzRequest("/oidc/callback", zzPair(cookie))
	req.Instance.Request.Params = &authnz.QueryParamsMsg{Code: "code", State: state}
	resp, err = w.HandleAuthnZRequest(req, zzAction(a, nil))
	_, cookie = zzRedirect(resp, err)
	set, _ := zz.SetCookie(cookie)
	zz.Assert(set != nil && set.Value != "", "a login does not give a session")
	id := set.Value

	if zz.Fork(zz.Bool("refreshed")) {
		va.outcome = zzExpired
		resp, err = w.HandleAuthnZRequest(zzRequest("/", "oidc-cookie-"+a.id+"="+id), zzAction(a, nil))
		zz.Assert(err == nil && zzPassed(resp), "a session is not refreshed")
		va.outcome = zzOK
		zz.Reach("refreshed")
	}
	va.outcome = zz.Int("access outcome", zzOK, zzInvalid)
	vi.outcome = zz.Int("id outcome", zzOK, zzInvalid)
	name := "oidc-cookie-" + b.id
	if zz.Fork(zz.Bool("own name")) {
		name = "oidc-cookie-" + a.id
	}
	j.asked = nil
	resp, err = w.HandleAuthnZRequest(zzRequest("/", name+"="+id), zzAction(b, nil))
	zz.Assert(!zzPassed(resp), "a session of one client opens what another protects")
	zzLogin(resp, err, b)
	zz.Assert(len(b.calls) == 0, "a token of one client is sent to the provider of another")
	zz.Assert(len(j.asked) == 0, "a token of one client is judged with the keys and the userinfo endpoint of another")
	zz.Reach("refused")

	va.outcome, vi.outcome = zzOK, zzOK
	resp, err = w.HandleAuthnZRequest(zzRequest("/", "oidc-cookie-"+a.id+"="+id), zzAction(a, nil))
	zz.Assert(err == nil && zzPassed(resp), "a session is lost when it is sent to another client")
	zz.Reach("still there")
}
