package webstrategy

import (
	"net/url"
	"strconv"
	"strings"
	"time"

	"github.com/gorilla/securecookie"
	"gopkg.in/mgo.v2/bson"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zzOnly tells whether a parameter is given once and as expected.
func zzOnly(q url.Values, name, want string) bool {
	return len(q[name]) == 1 && zz.Fork(q[name][0] == want)
}

// Every way to be sent to log in, with the real client.
//
//verif:bound=client_ids_of_60_(100)_characters,_none,_1,_2_or_5_scopes_of_60_characters,_hosts_of_40_and_paths_of_60_(100)_characters,_an_endpoint_with_or_without_a_query,_no_cookie,_an_unknown_one,_an_expired_or_a_refused_session,_or_a_callback_without_a_code budget=100 tbudget=400
func Verif_C12_redirect() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	max := 60
	if zz.Thorough() {
		max = 100
	}
	server := &zzServer{auth: "https://idp/" + zz.StringIn("endpoint", zzSeg, 0, 60), info: "https://idp/info", ks: &zzNoKeys{}}
	base, extra := server.auth, ""
	if zz.Choose("query", 2) == 1 {
		extra = zz.StringIn("extra", zzSeg, 1, 60)
		server.auth += "?tenant=" + extra
	}
	spec := v1.OidcConfigSpec{ClientID: "c" + zz.StringIn("client", zzIDChars, 0, max-1)}
	scope := "openid profile email"
	if n := []int{0, 1, 2, 5}[zz.Choose("scopes", 4)]; n > 0 {
		scope = ""
		for i := 0; i < n; i++ {
			s := zz.StringIn("scope"+strconv.Itoa(i), "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'()*+,-./:;<=>?@[]^_`{|}~", 1, 60)
			spec.Scopes = append(spec.Scopes, s)
			if i > 0 {
				scope += " "
			}
			scope += s
		}
	}
	c := client.New(spec, server)
	name := "oidc-cookie-" + spec.ClientID
	path := "/" + zz.String("path", max)
	zz.Assume(zzOrdinary(path))
	host := zz.StringIn("host", zzIDChars+":", 1, 40)
	cookies := ""
	why := zz.Choose("why", 5)
	switch why {
	case 1:
		cookies = name + "=unknown"
	case 2, 3:
		cookies = name + "=S"
		w.tokenCache.Store("S", &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i"})
		j.says("a", validator.Access, zzOK)
		j.says("i", validator.ID, []int{zzExpired, zzInvalid}[why-2])
	case 4:
		path += "/oidc/callback"
	}
	ask := func() (string, string, url.Values) {
		r := zzRequest(path, cookies)
		r.Instance.Request.Host = host
		resp, err := w.HandleAuthnZRequest(r, zzAction(c, nil))
		loc, set := zzRedirect(resp, err)
		zz.Assert(strings.HasPrefix(loc, base+"?"), "the login does not go to the provider's authorization endpoint")
		q, e := url.ParseQuery(loc[len(base)+1:])
		zz.Assert(e == nil, "the query of the login cannot be read")
		return q.Get("state"), set, q
	}
	state, set, q := ask()
	zz.Assert(zzOnly(q, "client_id", spec.ClientID), "the login does not name the client")
	zz.Assert(zzOnly(q, "response_type", "code"), "the login does not ask for a code")
	zz.Assert(zzOnly(q, "redirect_uri", "https://"+host+path+"/oidc/callback"), "the login does not come back to the request")
	zz.Assert(zzOnly(q, "scope", scope), "the login does not ask for the client's scopes")
	zz.Assert(len(q["state"]) == 1 && state != "", "the login has no state")
	if extra != "" {
		zz.Assert(zzOnly(q, "tenant", extra), "the query of the endpoint is lost")
		zz.Assert(len(q) == 6, "the login has other parameters")
		zz.Reach("endpoint with a query")
	} else {
		zz.Assert(len(q) == 5, "the login has other parameters")
	}
	k, life := zz.SetCookie(set)
	zz.Assert(k != nil, "no state cookie is set")
	zz.Assert(zz.And(k.Name == name, k.Path == "/"), "the state cookie is not the client's")
	zz.Assert(life > 0 && life <= 24*3600, "the state cookie does not expire")
	zz.Assert(securecookie.New([]byte(zzHash), nil).Decode(k.Name, k.Value, &[]byte{}) != nil, "the state cookie is not encrypted")
	// what the cookie holds, provided that it is kept the way it is
	var b []byte
	held := &OidcCookie{}
	if w.encrpytor.Decode(k.Name, k.Value, &b) == nil && bson.Unmarshal(b, held) == nil {
		zz.Assert(held.Value == state, "the cookie holds another state")
		d := held.Expiration.Unix() - time.Now().Unix()
		zz.Assert(d > 0 && d <= 24*3600, "the state does not expire")
		zz.Reach("cookie read")
	}
	state2, set2, _ := ask()
	zz.Assert(state2 != state && set2 != set, "two logins share a state")
	zz.Reach("redirected")
}

// When the provider's endpoint is not known nobody is sent anywhere.
//
//verif:bound=any_path_of_2_characters budget=20 tbudget=20
func Verif_C12_unknown() {
	w := zzWeb()
	w.tokenUtil = &zzJudge{}
	c := client.New(v1.OidcConfigSpec{ClientID: "c"}, &zzServer{ks: &zzNoKeys{}})
	resp, err := w.HandleAuthnZRequest(zzRequest("/"+zz.StringIn("path", zzPathish, 0, 2), ""), zzAction(c, nil))
	zz.Assert(!zzPassed(resp), "a request passes without a provider")
	zz.Assert(zzRefused(resp, err), "a browser is sent to log in at no known endpoint")
	zz.Reach("refused")
}
