package webstrategy

import (
	"strings"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// A logout and the requests after it.
//
//verif:bound=paths_of_60_(100)_characters_before_the_suffix,_also_with_the_suffix_in_the_middle,_3_sessions_of_which_any_may_be_named,_one_besides_the_client's_cookie,_client_ids_of_at_most_41_characters,_one_of_which_may_continue_the_other budget=100 tbudget=300
func Verif_C13_logout() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	max := 60
	if zz.Thorough() {
		max = 100
	}
	c := zzNewClient("c" + zz.StringIn("client", zzIDChars, 0, 40))
	other := zzNewClient("c" + zz.StringIn("other client", zzIDChars, 0, 40))
	zz.Assume(other.id != c.id)
	name, otherName := "oidc-cookie-"+c.id, "oidc-cookie-"+other.id
	ids := []string{"S0", "S1", "S2"}
	for _, id := range ids {
		w.tokenCache.Store(id, &authserver.TokenResponse{AccessToken: "a" + id, IdentityToken: "i" + id, RefreshToken: "r" + id})
		o := zzOK
		if zz.Choose(id+".expired", 2) == 1 {
			o = zzExpired
		}
		j.says("a"+id, validator.Access, o)
		j.says("i"+id, validator.ID, o)
	}
	own, theirs := "", ""
	header := ""
	if zz.Choose("own", 2) == 1 {
		own = "S" + zz.StringIn("own id", zzCookieCh, 0, 4)
		header = name + "=" + own
	}
	switch zz.Choose("theirs", 3) {
	case 1:
		theirs = "S" + zz.StringIn("their id", "0123", 1, 1)
		header = otherName + "=" + theirs + "; " + header
	case 2:
		theirs = "S" + zz.StringIn("their id", "0123", 1, 1)
		header += "; " + otherName + "=" + theirs
	}
	before, rest := "", ""
	switch shape := zz.Choose("shape", 5); shape {
	case 0:
	case 4: // several slashes at the start, which would name a host
		rest = zz.StringIn("host", zzSeg, 1, 1) + zz.StringIn("path", zzPathish, 0, max-1)
		before = strings.Repeat("/", 2+zz.Choose("slashes", 2)) + rest
	default:
		if rest = zz.StringIn("first", zzSeg, 0, 1); zz.Fork(rest != "") {
			rest += zz.StringIn("path", zzPathish, 0, max-2)
		}
		if shape > 1 {
			if rest != "" {
				rest += "/"
			}
			rest += []string{"oidc/logout/", "oidc/callback/"}[shape-2] + zz.StringIn("more", zzPathish, 0, max-1)
		}
		before = "/" + rest
	}
	r := zzRequest(before+"/oidc/logout", header)
	if zz.Choose("params", 2) == 1 {
		r.Instance.Request.Params.Code, r.Instance.Request.Params.State = zz.String("code", 1), zz.String("state", 1)
		r.Instance.Request.Params.Error = zz.String("error", 1)
	}
	resp, err := w.HandleAuthnZRequest(r, zzAction(c, nil))
	zz.Assert(!zzPassed(resp), "a logout reaches the application")
	zz.Assert(len(c.calls) == 0, "a logout uses a code or refreshes a session")
	loc, set := zzRedirect(resp, err)
	zz.Observe("location", loc)
	if strings.HasPrefix(before, "//") {
		zz.Assert(loc == "/"+rest, "the browser is sent to another host")
		zz.Reach("several slashes")
	} else {
		zz.Assert(loc == before || before == "" && loc == "/", "the browser is not sent to the path before the suffix")
	}
	k, life := zz.SetCookie(set)
	zz.Assert(k != nil && life < 0, "the cookie is not expired in the browser")
	zz.Assert(zz.And(k.Name == name, k.Path == "/"), "another cookie is expired than the client's")
	left := 0
	for _, id := range ids {
		_, ok := w.tokenCache.Load(id)
		if ok {
			left++
		}
		zz.Assert(zz.Iff(ok, own != id), "a logout forgets exactly the session that the client's cookie names")
	}
	if left == 3 {
		zz.Reach("nothing to forget")
	} else {
		zz.Reach("forgotten")
	}
	// the old cookie is good for nothing, also one that is kept by the browser
	if own != "" {
		resp, err = w.HandleAuthnZRequest(zzRequest("/", name+"="+own), zzAction(c, nil))
		zz.Assert(!zzPassed(resp), "a session is accepted after it was logged out")
		zz.Assert(len(c.calls) == 0 || left == 3, "a session is refreshed after it was logged out")
		zzLogin(resp, err, c)
		zz.Reach("refused afterwards")
	}
}
