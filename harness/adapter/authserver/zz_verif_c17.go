package authserver

import (
	"errors"
	"io/ioutil"
	"net/http"
	"net/url"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzUnreserved = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"

type zzSent struct {
	n       int
	method  string
	url     string
	form    url.Values
	query   string
	user    string
	pass    string
	basic   bool
	header  http.Header
	answer  func(req *http.Request) (*http.Response, error)
	partial bool
}

// zzProvider answers discovery and records what is sent to the token endpoint.
func zzProvider(s *zzSent, tokenURL string) *RemoteService {
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		if req.URL.String() == "https://idp.example/discovery" {
			return zz.Response(req, 200, zz.Body(zz.JO().
				With("issuer", zz.JS("https://idp.example")).
				With("authorization_endpoint", zz.JS("https://idp.example/authorization")).
				With("token_endpoint", zz.JS(tokenURL)).
				With("jwks_uri", zz.JS("https://idp.example/keys")).
				With("userinfo_endpoint", zz.JS("https://idp.example/userinfo")))), nil
		}
		s.n++
		s.method = req.Method
		s.url = req.URL.String()
		s.query = req.URL.RawQuery
		s.header = req.Header
		s.user, s.pass, s.basic = req.BasicAuth()
		if req.Body != nil {
			b, err := ioutil.ReadAll(req.Body)
			if err != nil {
				panic(err)
			}
			f, err := url.ParseQuery(string(b))
			zz.Assert(err == nil, "the body is not a form")
			s.form = f
		}
		return s.answer(req)
	}})
	return New("https://idp.example/discovery").(*RemoteService)
}

func zzOnly(f url.Values, want map[string]string) bool {
	if len(f) != len(want) {
		return false
	}
	ok := true
	for k, v := range want {
		if len(f[k]) != 1 {
			return false
		}
		ok = zz.And(ok, f[k][0] == v)
	}
	return ok
}

// What a token request says, for any client, code and refresh token.
//
//verif:bound=texts_of_at_most_40_(80)_printable_characters,_client_ids_and_secrets_of_at_most_5_unreserved_characters_with_Basic budget=60 tbudget=200
func Verif_C17_request() {
	max := 40
	if zz.Thorough() {
		max = 80
	}
	var s zzSent
	s.answer = func(req *http.Request) (*http.Response, error) {
		return zz.Response(req, 200, zz.Body(zz.JO().With("access_token", zz.JS("at")))), nil
	}
	tokenURL := "https://idp.example/" + zz.StringIn("tokenpath", zzUnreserved, 1, 40)
	zz.Assume(tokenURL != "https://idp.example/discovery")
	srv := zzProvider(&s, tokenURL)
	method := ""
	post := false
	switch zz.Choose("method", 4) {
	case 0:
		method, post = "client_secret_post", true
	case 1:
		method = "client_secret_basic"
	case 2:
		method = zz.String("other", 6)
	}
	var id, secret string
	if post {
		id, secret = zz.String("id", max), zz.String("secret", max)
	} else {
		id, secret = zz.StringIn("id", zzUnreserved, 1, 5), zz.StringIn("secret", zzUnreserved, 0, 5)
	}
	var code, redirect, refresh string
	want := map[string]string{}
	if zz.Choose("grant", 2) == 0 {
		code, redirect = zz.String("code", max), zz.String("redirect", max)
		want["grant_type"] = "authorization_code"
		want["code"] = code
		want["redirect_uri"] = redirect
	} else {
		refresh = zz.String("refresh", max)
		zz.Assume(refresh != "")
		if zz.Choose("extra", 2) == 1 {
			code, redirect = "unused", "https://app/cb"
		}
		want["grant_type"] = "refresh_token"
		want["refresh_token"] = refresh
	}
	if post {
		want["client_id"] = id
		want["client_secret"] = secret
	}
	t, err := srv.GetTokens(method, id, secret, code, redirect, refresh)
	zz.Assert(s.n == 1, "not exactly one token request")
	zz.Assert(s.method == "POST", "the token request is not a POST")
	zz.Assert(s.url == tokenURL, "the token request goes elsewhere than the discovered endpoint")
	zz.Assert(s.query == "", "the token request has a query")
	zz.Assert(zzOnly(s.form, want), "the form is not exactly that of the grant")
	zz.Assert(s.header.Get("Content-Type") == "application/x-www-form-urlencoded", "wrong content type")
	if post {
		zz.Reach("client_secret_post")
		_, has := s.header["Authorization"]
		zz.Assert(!has, "the secret is in a header although it belongs in the body")
	} else {
		zz.Reach("client_secret_basic")
		zz.Assert(zz.And(s.basic, s.user == id, s.pass == secret), "the Basic credentials are not those of the client")
	}
	zz.Assert(err == nil && t != nil && t.AccessToken == "at", "a successful exchange is lost")
}

// What an answer of the token endpoint yields.
//
//verif:bound=any_2xx,4xx_or_5xx_status,_any_presence_of_the_four_members,_tokens_of_at_most_5000_characters budget=60 tbudget=200
func Verif_C17_answer() {
	var s zzSent
	var at, it, rt string
	var exp int
	okDoc, fail := false, false
	status := 0
	s.answer = func(req *http.Request) (*http.Response, error) {
		if zz.Choose("reach", 2) == 0 {
			fail = true
			return nil, errors.New("connection refused")
		}
		status = zz.Int("status", 200, 599)
		zz.Assume(zz.Or(status < 300, status > 399))
		switch zz.Choose("body", 4) {
		case 0:
			return zz.Response(req, status, zz.Body(zz.JInvalid())), nil
		case 1:
			return zz.Response(req, status, zz.Body(zz.JO().With("error", zz.JS("invalid_grant")).With("error_description", zz.JS(zz.String("desc", 4))))), nil
		case 2:
			return zz.Response(req, status, zz.Body(zz.JO().With("access_token", zz.JO()).With("id_token", zz.JS("i")))), nil
		}
		okDoc = true
		j := zz.JO()
		if zz.Choose("at", 2) == 1 {
			at = zz.String("access", 5000)
			j.With("access_token", zz.JS(at))
		}
		if zz.Choose("it", 2) == 1 {
			it = zz.String("id", 5000)
			j.With("id_token", zz.JS(it))
		}
		if zz.Choose("rt", 2) == 1 {
			rt = zz.String("refresh", 5000)
			j.With("refresh_token", zz.JS(rt))
		}
		if zz.Choose("exp", 2) == 1 {
			exp = zz.Int("expires", -100000, 100000)
			j.With("expires_in", zz.JN(exp, false))
		}
		return zz.Response(req, status, zz.Body(j)), nil
	}
	srv := zzProvider(&s, "https://idp.example/token")
	refresh := ""
	if zz.Choose("grant", 2) == 1 {
		refresh = "r"
	}
	t, err := srv.GetTokens("client_secret_basic", "client", "secret", "code", "https://app/cb", refresh)
	good := !fail && okDoc && zz.Fork(zz.And(status == 200, at != ""))
	zz.Observe("err", err != nil)
	if good {
		zz.Reach("tokens")
		zz.Assert(err == nil && t != nil, "a successful exchange is refused")
		if t != nil {
			zz.Assert(zz.And(t.AccessToken == at, t.IdentityToken == it, t.RefreshToken == rt, t.ExpiresIn == exp), "the tokens are not those of the answer")
		}
	} else {
		zz.Reach("refused")
		zz.Assert(err != nil, "a failed exchange is reported as a success")
		zz.Assert(t == nil, "tokens from a failed exchange")
	}
}
