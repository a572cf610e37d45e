package adapter

import (
	"errors"
	"io/ioutil"
	"net/http"
	"net/url"
	"strconv"
	"strings"

	policyv1beta1 "istio.io/api/policy/v1beta1"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
)

// zz22User is a user at the client of /p<at>. The providers answer from these
// tables, which nothing changes while requests run.
type zz22User struct {
	n, at              int
	cookie             string
	access, id         string // issued for the code
	nextAccess, nextID string // issued for the refresh token
	state, uri         string
}

// zz22Provider is the transport: it keeps no state.
type zz22Provider struct{ users []*zz22User }

func (p *zz22Provider) RoundTrip(req *http.Request) (*http.Response, error) {
	zz.Yield()
	base := req.URL.Scheme + "://" + req.URL.Host
	switch req.URL.Path {
	case "/d":
		return zz.Response(req, 200, zz.Body(zz.JO().
			With("issuer", zz.JS(base)).
			With("authorization_endpoint", zz.JS(base+"/a")).
			With("token_endpoint", zz.JS(base+"/t")).
			With("jwks_uri", zz.JS(base+"/k")).
			With("userinfo_endpoint", zz.JS(base+"/u")))), nil
	case "/k":
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(
			zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE)))))), nil
	case "/u":
		for _, u := range p.users {
			if a := req.Header.Get("Authorization"); base == "https://idp"+strconv.Itoa(u.at) && (a == "Bearer "+u.access || a == "Bearer "+u.nextAccess) {
				return zz.Response(req, 200, zz.Body(zz.JO().With("sub", zz.JS("user")))), nil
			}
		}
		return zz.Response(req, 401, zz.Body(zz.JO())), nil
	case "/t":
		body, _ := ioutil.ReadAll(req.Body)
		f, _ := url.ParseQuery(string(body))
		for _, u := range p.users {
			if base != "https://idp"+strconv.Itoa(u.at) {
				continue
			}
			n := strconv.Itoa(u.n)
			if f.Get("grant_type") == "authorization_code" && f.Get("code") == "code"+n {
				return zz.Response(req, 200, zz.Body(zz.JO().With("access_token", zz.JS(u.access)).With("id_token", zz.JS(u.id)).With("refresh_token", zz.JS("refresh"+n)))), nil
			}
			if f.Get("grant_type") == "refresh_token" && f.Get("refresh_token") == "refresh"+n {
				return zz.Response(req, 200, zz.Body(zz.JO().With("access_token", zz.JS(u.nextAccess)).With("id_token", zz.JS(u.nextID)))), nil
			}
		}
		return zz.Response(req, 400, zz.Body(zz.JO().With("error", zz.JS("invalid_grant")))), nil
	}
	return nil, errors.New("no such host")
}

// zzMarkedFor makes a JWT for an hour or for ten.
func zzMarkedFor(name, aud string, short bool) string {
	d := 36000
	if short {
		d = 3600
	}
	return zz.Token(zz.Tok{
		Head:   zz.JO().With("alg", zz.JS("RS256")).With("kid", zz.JS("k")),
		Claims: zz.JO().With("sub", zz.JS(name)).With("aud", zz.JA(zz.JS("all"), zz.JS(aud))).With("exp", zz.JN(int(zz.Now().Unix())+d, false)),
		Sign:   "RS256",
	})
}

func zz22Ask(w *zzWhole, u *zz22User, path string, q *authnz.QueryParamsMsg) (*authnz.HandleAuthnZResponse, error) {
	if q == nil {
		q = &authnz.QueryParamsMsg{}
	}
	return w.a.HandleAuthnZ(nil, &authnz.HandleAuthnZRequest{Instance: &authnz.InstanceMsg{
		Target:  &authnz.TargetMsg{Namespace: "ns", Service: "svc", Path: path, Method: "GET"},
		Request: &authnz.RequestMsg{Scheme: "https", Host: "app", Path: path, Headers: &authnz.HeadersMsg{Cookies: u.cookie}, Params: q},
	}})
}

// take keeps the cookie of a redirect and gives its location.
func (u *zz22User) take(resp *authnz.HandleAuthnZResponse, err error) string {
	zz.Assert(err == nil && resp != nil && resp.Result != nil && len(resp.Result.Status.Details) == 1, "a login or callback is not answered")
	var r *policyv1beta1.DirectHttpResponse = zz.UnpackDetail(resp.Result.Status.Details[0])
	zz.Assert(r != nil, "the direct response cannot be read")
	location := ""
	for k, v := range r.Headers {
		switch strings.ToLower(k) {
		case "set-cookie":
			c, _ := zz.SetCookie(v)
			zz.Assert(c != nil, "a cookie that is set cannot be read")
			u.cookie = c.Name + "=" + c.Value
		case "location":
			location = v
		}
	}
	return location
}

// Two users at the same time, through the whole adapter.
//
//verif:bound=2_users_of_the_same_or_of_different_clients,_each_with_a_callback,_a_request_in_a_live_session,_one_in_an_expired_session_or_a_logout,_opaque_or_JWT_access_tokens,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=100 budget=100 tbudget=250
func Verif_C22_users() {
	w := zzNewWhole()
	p := &zz22Provider{}
	zz.SetTransport(p)
	opaque := zz.Choose("opaque", 2) == 1
	same := zz.Choose("same client", 2) == 1
	kinds := make([]int, 2)
	expired := false
	for i := range kinds {
		kinds[i] = zz.Choose("kind"+strconv.Itoa(i), 4)
		u := &zz22User{n: i}
		if !same {
			u.at = i
		}
		n := strconv.Itoa(i)
		aud := "client" + strconv.Itoa(u.at)
		short := kinds[i] == 2
		u.id = zzMarkedFor("i"+n, aud, short)
		u.nextID = zzMarkedFor("I"+n, aud, false)
		if opaque {
			u.access, u.nextAccess = "a"+n, "A"+n
		} else {
			u.access = zzMarkedFor("a"+n, aud, short)
			u.nextAccess = zzMarkedFor("A"+n, aud, false)
		}
		expired = expired || short
		p.users = append(p.users, u)
	}
	login := func(u *zz22User) {
		path := "/p" + strconv.Itoa(u.at)
		resp, err := zz22Ask(w, u, path, nil)
		l, perr := url.Parse(u.take(resp, err))
		zz.Assert(perr == nil, "the login location is not a URL")
		u.state = l.Query().Get("state")
	}
	callback := func(u *zz22User) (*authnz.HandleAuthnZResponse, error) {
		return zz22Ask(w, u, "/p"+strconv.Itoa(u.at)+"/oidc/callback", &authnz.QueryParamsMsg{Code: "code" + strconv.Itoa(u.n), State: u.state})
	}
	for i, u := range p.users {
		if kinds[i] > 0 {
			login(u)
			u.take(callback(u))
		}
	}
	if expired {
		zz.Advance(7200)
	}
	for i, u := range p.users {
		if kinds[i] == 0 {
			login(u)
		}
	}
	resps := make([]*authnz.HandleAuthnZResponse, 2)
	errs := make([]error, 2)
	for i := range kinds {
		i := i
		u := p.users[i]
		zz.Go(func() {
			switch kinds[i] {
			case 0:
				resps[i], errs[i] = callback(u)
			case 3:
				resps[i], errs[i] = zz22Ask(w, u, "/p"+strconv.Itoa(u.at)+"/oidc/logout", nil)
			default:
				resps[i], errs[i] = zz22Ask(w, u, "/p"+strconv.Itoa(u.at), nil)
			}
		})
	}
	zz.Join()
	passes := func(u *zz22User, resp *authnz.HandleAuthnZResponse, err error, access, id string) {
		zz.Assert(err == nil && resp != nil && resp.Result != nil && resp.Result.Status.Code == 0, "a user with a session is refused while another is served")
		zz.Assert(resp.Output != nil && resp.Output.Authorization == "Bearer "+access+" "+id, "a user is given other tokens than their own")
	}
	for i, u := range p.users {
		switch kinds[i] {
		case 0:
			zz.Assert(u.take(resps[i], errs[i]) == "https://app/p"+strconv.Itoa(u.at), "a concurrent login does not lead back")
			zz.Reach("logged in")
		case 1:
			passes(u, resps[i], errs[i], u.access, u.id)
			zz.Reach("passed")
		case 2:
			passes(u, resps[i], errs[i], u.nextAccess, u.nextID)
			zz.Reach("refreshed")
		case 3:
			zz.Reach("logged out")
		}
	}
	for i, u := range p.users {
		resp, err := zz22Ask(w, u, "/p"+strconv.Itoa(u.at), nil)
		switch kinds[i] {
		case 0, 1:
			passes(u, resp, err, u.access, u.id)
		case 2:
			passes(u, resp, err, u.nextAccess, u.nextID)
		case 3:
			zz.Assert(err == nil && resp.Result.Status.Code != 0, "a session survives a logout")
		}
	}
}
