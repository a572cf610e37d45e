package webstrategy

import (
	"crypto"
	"errors"
	"net/http"
	"strconv"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

type zzSession struct {
	id          string
	tokens      *authserver.TokenResponse
	access, idt *zzVerdict
	fresh       *authserver.TokenResponse
	freshAccess *zzVerdict
	freshID     *zzVerdict
	refreshes   bool
}

func zzStored(w *WebStrategy, j *zzJudge, l, id string) *zzSession {
	s := &zzSession{id: id}
	s.tokens = &authserver.TokenResponse{AccessToken: l + "a" + zz.StringIn(l+".access", zzSeg, 0, 5000), IdentityToken: l + "i" + zz.StringIn(l+".id", zzSeg, 0, 5000)}
	if zz.Fork(zz.Bool(l + ".has refresh")) {
		s.tokens.RefreshToken = l + "r"
	}
	s.access = j.says(s.tokens.AccessToken, validator.Access, zz.Int(l+".access outcome", zzOK, zzInvalid))
	s.idt = j.says(s.tokens.IdentityToken, validator.ID, zz.Int(l+".id outcome", zzOK, zzInvalid))
	s.refreshes = zz.Bool(l + ".refreshes")
	s.fresh = &authserver.TokenResponse{AccessToken: l + "A", IdentityToken: l + "I", RefreshToken: l + "R"}
	s.freshAccess = j.says(l+"A", validator.Access, zz.Int(l+".new access outcome", zzOK, zzInvalid))
	s.freshID = j.says(l+"I", validator.ID, zz.Int(l+".new id outcome", zzOK, zzInvalid))
	stored := *s.tokens
	w.tokenCache.Store(id, &stored)
	return s
}

// A request that is neither a callback nor a logout.
//
//verif:bound=at_most_2_cookies_of_any_name_and_value_of_4_characters_besides_the_client's,_2_stored_sessions,_every_outcome_of_validation_and_refresh,_client_ids_of_at_most_41_(61)_characters,_tokens_of_up_to_5022_characters budget=120 tbudget=500
func Verif_C08_request() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	max := 40
	if zz.Thorough() {
		max = 60
	}
	c := zzNewClient("c" + zz.StringIn("client", zzIDChars, 0, max))
	rules := []v1.Rule{{Claim: zz.StringIn("claim", zzSeg, 1, 8), Match: "ANY", Values: []string{"v"}}}
	sessions := []*zzSession{zzStored(w, j, "0", "S0"), zzStored(w, j, "1", "S1")}
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		for _, s := range sessions {
			if k.kind == "refresh" && k.token != "" && k.token == s.tokens.RefreshToken {
				if zz.Fork(s.refreshes) {
					r := *s.fresh
					return &r, nil
				}
				return nil, errors.New("refresh refused")
			}
		}
		return nil, errors.New("unknown token")
	}
	n := zz.Choose("cookies", 3)
	header := ""
	names, values := []string{}, []string{}
	for i := 0; i < n; i++ {
		l := "cookie" + strconv.Itoa(i)
		name := buildTokenCookieName("oidc-cookie", c)
		switch zz.Choose(l+".name", 3) {
		case 1:
			name = "oidc-cookie-" + zz.StringIn(l+".name", zzIDChars, 0, 8)
		case 2:
			name = zz.StringIn(l+".name", zzIDChars, 1, 4)
		}
		value := zz.StringIn(l+".value", zzCookieCh, 0, 4)
		names, values = append(names, name), append(values, value)
		if i > 0 {
			header += "; "
		}
		header += name + "=" + value
	}
	own := 0
	for i := range names {
		own = own + zz.IteInt(names[i] == "oidc-cookie-"+c.id, 1, 0)
	}
	carries := func(s *zzSession) bool {
		r := false
		for i := range names {
			r = zz.Or(r, zz.And(names[i] == "oidc-cookie-"+c.id, values[i] == s.id))
		}
		return r
	}
	path := "/" + zz.StringIn("path", zzPathish, 0, 60)
	zz.Assume(zzOrdinary(path))
	resp, err := w.HandleAuthnZRequest(zzRequest(path, header), zzAction(c, rules))
	passed := zzPassed(resp)
	zz.Assert(!(passed && err != nil), "a request is passed on with an error")
	zz.Observe("passed", passed)

	because, live := false, false
	for _, s := range sessions {
		good := zz.And(s.access.outcome == zzOK, s.idt.outcome == zzOK)
		expired := zz.Or(s.access.outcome == zzExpired, s.idt.outcome == zzExpired)
		renewed := zz.And(expired, s.tokens.RefreshToken != "", s.refreshes, s.freshAccess.outcome == zzOK, s.freshID.outcome == zzOK)
		failing := zz.Or(s.access.outcome == zzInvalid, s.idt.outcome == zzInvalid)
		if passed {
			out := resp.Output.Authorization
			byOld := zz.And(good, out == zzAuthorization(s.tokens), j.validated(s.tokens.AccessToken, validator.Access, c, rules), j.validated(s.tokens.IdentityToken, validator.ID, c, rules))
			byNew := zz.And(renewed, out == zzAuthorization(s.fresh), j.validated(s.fresh.AccessToken, validator.Access, c, rules), j.validated(s.fresh.IdentityToken, validator.ID, c, rules))
			because = zz.Or(because, zz.And(carries(s), zz.Or(byOld, byNew)))
		}
		live = zz.Or(live, zz.And(own == 1, carries(s), zz.Or(good, zz.And(renewed, zz.Implies(failing, false)))))
	}
	if passed {
		zz.Reach("passed")
		if len(c.calls) > 0 {
			zz.Reach("passed after a refresh")
		}
		zz.Assert(because, "a request passes without a live session of the client, or with other tokens than those validated")
		return
	}
	zz.Assert(!live, "a request with a live session does not pass")
	zz.Reach("sent to log in")
	zzLogin(resp, err, c)
	for _, s := range sessions {
		// failed for a reason other than expiry, and nothing was expired
		dead := zz.And(own == 1, carries(s), zz.Or(s.access.outcome == zzInvalid, s.idt.outcome == zzInvalid), s.access.outcome != zzExpired, s.idt.outcome != zzExpired)
		if zz.Fork(dead) {
			for _, v := range j.verdicts {
				v.outcome = zzOK
			}
			resp, err = w.HandleAuthnZRequest(zzRequest(path, header), zzAction(c, rules))
			zz.Assert(!zzPassed(resp), "a session whose tokens failed is used again")
			zzLogin(resp, err, c)
			zz.Reach("forgotten")
		}
	}
}

// Without a client nothing passes. (The engine refuses such a policy before; see C01.)
//
//verif:bound=any_path_of_at_most_61_characters,_any_cookie_value_of_2_characters budget=20 tbudget=20
func Verif_C08_noclient() {
	w := zzWeb()
	w.tokenUtil = &zzJudge{}
	w.tokenCache.Store("S", &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i"})
	path := "/" + zz.StringIn("path", zzPathish, 0, 60)
	zz.Assume(zzOrdinary(path))
	r := zzRequest(path, "oidc-cookie-="+zz.StringIn("value", zzCookieCh, 0, 2))
	r.Instance.Request.Params.Code = zz.String("code", 1)
	r.Instance.Request.Params.State = zz.String("state", 1)
	resp, err := w.HandleAuthnZRequest(r, zzAction(nil, nil))
	zz.Assert(!zzPassed(resp), "a request passes without a client")
	zz.Assert(err != nil, "a policy without a client is not reported")
	zz.Reach("refused")
}

// zzKeys publishes one fixture key.
type zzKeys struct{ kid string }

func (k *zzKeys) PublicKeyURL() string { return "https://idp/keys" }
func (k *zzKeys) PublicKey(kid string) crypto.PublicKey {
	if zz.Fork(kid == k.kid) {
		return zz.PubKey(0)
	}
	return nil
}

// zzReal is a token with what is to be made of it.
type zzReal struct {
	text          string
	good, expired bool // decided by the keys and the clock alone
}

// zzRealToken makes a token: 0 opaque, 1 a JWT in or out of time, 2 one that is
// tampered with, 3 one under another key, 4 none at all.
func zzRealToken(l string, kinds int) *zzReal {
	now := int(time.Now().Unix())
	k := zz.Choose(l, kinds)
	if k == 0 {
		return &zzReal{text: l + zz.StringIn(l+".opaque", zzIDChars, 0, 2)}
	}
	if k == 4 {
		return &zzReal{}
	}
	d := zz.Int(l+".exp", -100000, 100000)
	zz.Assume(zz.Or(d <= -60, d >= 60))
	t := zz.Tok{
		Head:   zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")),
		Claims: zz.JO().With("sub", zz.JS(l)).With("exp", zz.JN(now+d, false)),
		Sign:   "RS256",
	}
	switch k {
	case 1:
		return &zzReal{text: zz.Token(t), good: d > 0, expired: d < 0}
	case 2:
		t.Tamper = 2
	case 3:
		t.Key = 1
	}
	return &zzReal{text: zz.Token(t)}
}

// With real tokens and the real validator.
//
//verif:bound=one_stored_session,_tokens_opaque,_in_or_out_of_time,_forged_or_missing,_any_userinfo_status,_one_refresh budget=120 tbudget=300
func Verif_C08_tokens() {
	w := zzWeb()
	status := zz.Int("userinfo", 200, 599)
	zz.Assume(zz.Or(status < 300, status >= 400))
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		return zz.Response(req, status, []byte("{}")), nil
	}})
	c := zzNewClient("c")
	c.server.(*zzServer).ks = &zzKeys{kid: "k"}
	access, id := zzRealToken("access", 5), zzRealToken("id", 5)
	var access2, id2 *zzReal
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		if k.kind != "refresh" || k.token != "r" || access2 != nil {
			return nil, errors.New("refused")
		}
		n := 3
		if zz.Thorough() {
			n = 5
		}
		access2, id2 = zzRealToken("new access", n), zzRealToken("new id", n)
		return &authserver.TokenResponse{AccessToken: access2.text, IdentityToken: id2.text, RefreshToken: "r2"}, nil
	}
	w.tokenCache.Store("S", &authserver.TokenResponse{AccessToken: access.text, IdentityToken: id.text, RefreshToken: "r"})
	resp, err := w.HandleAuthnZRequest(zzRequest("/", "oidc-cookie-c=S"), zzAction(c, nil))
	// the provider answers for an access token that the keys do not decide
	ok := func(t *zzReal) bool { return zz.And(t.text != "", zz.Or(t.good, status == 200)) }
	valid := zz.And(ok(access), id.good)
	expired := zz.Or(zz.And(access.expired, status != 200), zz.And(ok(access), id.expired))
	renewed := false
	if access2 != nil {
		renewed = zz.And(ok(access2), id2.good)
		zz.Assert(expired, "a session that has not expired is refreshed")
		zz.Reach("refresh attempted")
	} else {
		zz.Assert(!expired, "an expired session is not refreshed")
	}
	zz.Assert(zz.Iff(zzPassed(resp), zz.Or(valid, zz.And(expired, renewed))), "a session passes exactly when its tokens, or those of a refresh, are valid")
	if !zzPassed(resp) {
		zzLogin(resp, err, c)
		zz.Reach("refused")
		return
	}
	want := "Bearer " + access.text + " " + id.text
	if access2 != nil {
		want = "Bearer " + access2.text + " " + id2.text
		zz.Reach("passed after a refresh")
	}
	zz.Assert(resp.Output.Authorization == want, "other tokens are handed on than those validated")
	zz.Reach("passed")
}
