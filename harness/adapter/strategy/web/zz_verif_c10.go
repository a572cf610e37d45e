package webstrategy

import (
	"errors"
	"time"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/config"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

func zzCookieFor(w *WebStrategy, name, value string, expires time.Time) string {
	c, err := w.generateEncryptedCookie(name, &OidcCookie{Value: value, Expiration: expires})
	if err != nil || c == nil {
		panic("no cookie")
	}
	return c.Value
}

// A callback with an authorization code.
//
//verif:bound=state_cookie_absent,_genuine,_expired,_of_another_client,_under_other_keys,_forged_or_under_another_name,_states_and_client_ids_of_at_most_60_(100)_characters budget=60 tbudget=300
func Verif_C10_callback() {
	w := zzWeb()
	j := &zzJudge{}
	w.tokenUtil = j
	max := 60
	if zz.Thorough() {
		max = 100
	}
	c := zzNewClient("c" + zz.StringIn("client", zzIDChars, 0, max-1))
	other := zzNewClient("c" + zz.StringIn("other client", zzIDChars, 0, max-1))
	zz.Assume(c.id != other.id)
	j.says("a", validator.Access, zzOK)
	j.says("i", validator.ID, zzOK)
	c.answer = func(k zzCall) (*authserver.TokenResponse, error) {
		if k.kind != "exchange" {
			return nil, errors.New("refused")
		}
		return &authserver.TokenResponse{AccessToken: "a", IdentityToken: "i"}, nil
	}
	name := "oidc-cookie-" + c.id
	state := zz.String("state", max)
	param := zz.String("param", max)
	d := zz.Int("expires", -1000000, 1000000)
	zz.Assume(zz.Or(d <= -60, d >= 60))
	exp := time.Unix(time.Now().Unix()+int64(d), 0)
	sent, cookie, genuine := name, "", false
	switch zz.Choose("cookie", 7) {
	case 0: // none
		sent = ""
	case 1:
		cookie, genuine = zzCookieFor(w, name, state, exp), true
	case 2: // issued for another client
		cookie = zzCookieFor(w, "oidc-cookie-"+other.id, state, exp)
	case 3: // issued by someone who does not have the keys
		o := New(config.NewConfig(), &zzCluster{secret: zzKeySecret("other hash key of 32 characters!", "other key 16 ch.")}).(*WebStrategy)
		cookie = zzCookieFor(o, name, state, exp)
	case 4: // made up
		cookie = zz.StringIn("forged", zzCookieCh, 0, max)
	case 5: // sent under the name of another client
		sent, cookie = "oidc-cookie-"+other.id, zzCookieFor(w, name, state, exp)
	case 6: // under a name of its own
		sent, cookie = zz.StringIn("name", zzIDChars, 1, 14), zzCookieFor(w, name, state, exp)
		zz.Assume(sent != name)
	}
	header := ""
	if sent != "" {
		header = sent + "=" + cookie
	}
	switch zz.Choose("besides", 3) {
	case 1:
		header = "x=" + zz.StringIn("other", zzCookieCh, 0, 8) + "; " + header
	case 2:
		header += "; " + "oidc-cookie-" + other.id + "=" + zzCookieFor(w, "oidc-cookie-"+other.id, param, exp)
	}
	path := "/" + zz.StringIn("path", zzPathish, 0, 8) + "/oidc/callback"
	r := zzRequest(path, header)
	r.Instance.Request.Params.Code = "code"
	r.Instance.Request.Params.State = param
	resp, err := w.HandleAuthnZRequest(r, zzAction(c, nil))
	honoured := zz.And(genuine, d > 0, state == param, param != "")
	zz.Assert(!zzPassed(resp), "a callback is passed to the application")
	zz.Observe("exchanges", len(c.calls))
	zz.Assert(zz.Iff(honoured, len(c.calls) == 1), "the code is exchanged exactly when the callback belongs to a login of this browser")
	zz.Assert(zz.Iff(honoured, zzSessions(w) == 1), "a session is created exactly when the callback belongs to a login of this browser")
	if len(c.calls) == 0 {
		zz.Assert(zzRefused(resp, err), "a callback that does not belong to a login of this browser is not refused")
		zz.Reach("refused")
		return
	}
	zz.Reach("honoured")
}
