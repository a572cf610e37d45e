package webstrategy

import (
	"errors"
	"strconv"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// A session that is refreshed again and again.
//
//verif:bound=one_session,_6_(8)_expiries_each_followed_by_a_refresh_that_may_or_may_not_bring_a_new_refresh_token,_tokens_of_up_to_40_characters budget=60 tbudget=200
func Verif_C09_chain() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	c := zzNewClient("c")
	cur := authserver.TokenResponse{AccessToken: "a", IdentityToken: "i", RefreshToken: "r" + zz.StringIn("refresh", zzSeg, 0, 39)}
	stored := cur
	w.tokenCache.Store("S", &stored)
	access, id := j.says("a", validator.Access, zzOK), j.says("i", validator.ID, zzOK)
	label := ""
	asked := 0
	var fresh authserver.TokenResponse
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		asked++
		zz.Assert(k.kind == "refresh", "a code is exchanged without a callback")
		zz.Assert(k.token == cur.RefreshToken, "a refresh does not use the refresh token in force")
		if asked > 1 {
			return nil, errors.New("refused")
		}
		fresh = authserver.TokenResponse{AccessToken: "a" + label + zz.StringIn(label+".access", zzSeg, 0, 38), IdentityToken: "i" + label + zz.StringIn(label+".id", zzSeg, 0, 38)}
		if zz.Choose(label+".rotates", 2) == 1 {
			fresh.RefreshToken = "r" + label + zz.StringIn(label+".refresh", zzSeg, 0, 38)
		}
		access, id = j.says(fresh.AccessToken, validator.Access, zzOK), j.says(fresh.IdentityToken, validator.ID, zzOK)
		r := fresh
		return &r, nil
	}
	n := 6
	if zz.Thorough() {
		n = 8
	}
	for i := 0; i < n; i++ {
		label, asked = strconv.Itoa(i), 0
		resp, err := w.HandleAuthnZRequest(zzRequest("/p", "oidc-cookie-c=S"), zzAction(c, nil))
		zz.Assert(err == nil && zzPassed(resp) && asked == 0, "a live session does not pass")
		if zzPassed(resp) {
			zz.Assert(resp.Output.Authorization == zzAuthorization(&cur), "a session does not hold the tokens validated last")
		}
		if zz.Choose(label+".which", 2) == 0 {
			access.outcome = zzExpired
		} else {
			id.outcome = zzExpired
		}
		resp, err = w.HandleAuthnZRequest(zzRequest("/p", "oidc-cookie-c=S"), zzAction(c, nil))
		zz.Assert(err == nil && zzPassed(resp) && asked == 1, "an expired session is not refreshed")
		if asked == 0 {
			return
		}
		rt := cur.RefreshToken
		if cur = fresh; cur.RefreshToken == "" {
			cur.RefreshToken = rt
		}
	}
	zz.Reach("refreshed many times")
}
