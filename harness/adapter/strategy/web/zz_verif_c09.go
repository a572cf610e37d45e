package webstrategy

import (
	"errors"
	"strconv"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// A history of requests by one browser: before each of them the tokens of the
// session may have expired, and the provider answers refreshes as it likes.
//
//verif:bound=one_session,_3_(4)_requests,_tokens_of_up_to_5014_characters,_any_session_id_of_at_most_61_characters,_every_answer_to_a_refresh budget=120 tbudget=600
func Verif_C09_history() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	c := zzNewClient("c")
	sid := "S" + zz.StringIn("session", zzCookieCh, 0, 60)
	// what the session is known to hold
	cur := authserver.TokenResponse{AccessToken: "a-" + zz.StringIn("access", zzSeg, 0, 5000), IdentityToken: "i-" + zz.StringIn("id", zzSeg, 0, 5000), RefreshToken: zz.StringIn("refresh", zzSeg, 0, 5000)}
	access := j.says(cur.AccessToken, validator.Access, zzOK)
	id := j.says(cur.IdentityToken, validator.ID, zzOK)
	stored := cur
	w.tokenCache.Store(sid, &stored)

	var offered *authserver.TokenResponse
	var newAccess, newID *zzVerdict
	asked, label := 0, ""
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		asked++
		zz.Assert(k.kind == "refresh", "a code is exchanged without a callback")
		zz.Assert(zz.And(k.token == cur.RefreshToken, k.token != ""), "a refresh does not use the refresh token in force")
		if zz.Fork(!zz.Bool(label + ".refreshes")) {
			return nil, errors.New("refused")
		}
		offered = &authserver.TokenResponse{
			AccessToken:   "a" + label + zz.StringIn(label+".access", zzSeg, 0, 5000),
			IdentityToken: "i" + label + zz.StringIn(label+".id", zzSeg, 0, 5000),
		}
		if zz.Fork(zz.Bool(label + ".rotates")) {
			offered.RefreshToken = "r" + label + zz.StringIn(label+".refresh", zzSeg, 0, 5000)
		}
		// a token may be missing from the answer: no token is not a good one
		missing := zz.Choose(label+".missing", 3)
		if missing == 1 {
			offered.AccessToken = ""
		}
		if missing == 2 {
			offered.IdentityToken = ""
		}
		newAccess = j.says(offered.AccessToken, validator.Access, zz.Int(label+".access outcome", zzOK, zzInvalid))
		newID = j.says(offered.IdentityToken, validator.ID, zz.Int(label+".id outcome", zzOK, zzInvalid))
		if missing == 1 {
			newAccess.outcome, newID.outcome = zzInvalid, zzOK
		}
		if missing == 2 {
			newAccess.outcome, newID.outcome = zzOK, zzInvalid
		}
		r := *offered
		return &r, nil
	}
	failed := false // a refresh has failed: the session may be gone
	n := 3
	if zz.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		label = strconv.Itoa(i)
		offered, newAccess, newID, asked = nil, nil, nil, 0
		access.outcome = zz.Int(label+".access now", zzOK, zzExpired)
		id.outcome = zz.Int(label+".id now", zzOK, zzExpired)
		resp, err := w.HandleAuthnZRequest(zzRequest("/p", "oidc-cookie-c="+sid), zzAction(c, nil))
		passed := zzPassed(resp)
		zz.Observe("passed"+label, passed)
		live := zz.And(access.outcome == zzOK, id.outcome == zzOK)
		if asked == 0 {
			zz.Assert(zz.Implies(passed, live), "an expired session passes")
			zz.Assert(zz.Or(failed, passed == live), "a session that was refreshed is not kept")
			zz.Assert(zz.Or(failed, live, cur.RefreshToken == ""), "an expired session that has a refresh token is not refreshed")
			if passed {
				zz.Assert(resp.Output.Authorization == zzAuthorization(&cur), "a session does not hold the tokens validated last")
				zz.Assert(resp.Output.SessionCookie == "", "a session cookie is set although nothing was refreshed")
				zz.Reach("kept")
			}
			if !passed {
				zzLogin(resp, err, c)
				zz.Reach("no refresh token")
				return
			}
			continue
		}
		zz.Assert(asked == 1, "more than one refresh is attempted for a request")
		good := false
		if offered != nil {
			good = zz.And(newAccess.outcome == zzOK, newID.outcome == zzOK)
		}
		zz.Assert(zz.Iff(passed, good), "a refresh succeeds exactly when its tokens validate")
		if !passed {
			zzLogin(resp, err, c)
			zz.Reach("failed refresh")
			failed = true
			continue
		}
		zz.Reach("refreshed")
		zz.Assert(resp.Output.Authorization == zzAuthorization(offered), "other tokens are handed on than those validated")
		k, life := zz.SetCookie(resp.Output.SessionCookie)
		zz.Assert(k != nil, "the session cookie is not renewed")
		if k != nil {
			zz.Assert(zz.And(k.Name == "oidc-cookie-c", k.Value == sid, k.Path == "/"), "another cookie is set than that of the session")
			zz.Assert(life > 0, "the renewed session cookie does not last")
		}
		rt := cur.RefreshToken
		cur = *offered
		if cur.RefreshToken == "" {
			cur.RefreshToken = rt
			zz.Reach("refresh token kept")
		}
		access, id = newAccess, newID
		if i > 0 && i == n-1 {
			zz.Reach("refreshed again")
		}
	}
}
