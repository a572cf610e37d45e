package adapter

import (
	"crypto"
	"errors"
	"net/http"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zz26Idp keeps what it was asked and what it answered.
type zz26Idp struct {
	asked  int
	bodies []*zz.Reader
	answer func(url string) (int, *zz.J)
}

func (p *zz26Idp) RoundTrip(req *http.Request) (*http.Response, error) {
	p.asked++
	zz.Assert(p.asked <= 8, "a provider is asked without bound")
	d := zz.Deadline(req)
	zz.Assert(d > 0, "a request to a provider may take for ever")
	zz.Assert(d <= 60, "a request to a provider may take more than a minute")
	status, body := p.answer(req.URL.String())
	if body == nil {
		return nil, errors.New("connection refused")
	}
	r := zz.Response(req, status, zz.Body(body))
	p.bodies = append(p.bodies, r.Body.(*zz.Reader))
	return r, nil
}

func (p *zz26Idp) check() {
	for _, b := range p.bodies {
		zz.Assert(b.Closed > 0, "the body of an answer is not closed")
	}
	zz.Assert(p.asked <= 8, "a provider is asked without bound")
}

func zz26Discovery() *zz.J {
	return zz.JO().
		With("issuer", zz.JS("https://idp")).
		With("authorization_endpoint", zz.JS("https://idp/a")).
		With("token_endpoint", zz.JS("https://idp/t")).
		With("jwks_uri", zz.JS("https://idp/k")).
		With("userinfo_endpoint", zz.JS("https://idp/u"))
}

func zz26Keys() *zz.J {
	return zz.JO().With("keys", zz.JA(
		zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE))))
}

// Every kind of request the adapter makes, whatever is answered.
//
//verif:bound=discovery,_code_exchange,_refresh,_key_download_and_userinfo,_each_answered_with_any_2xx,4xx_or_5xx_status_and_one_of_6_kinds_of_body_or_not_at_all,_used_once_or_twice budget=60 tbudget=120
func Verif_C26_requests() {
	site := zz.Choose("site", 5)
	good := []*zz.J{
		zz26Discovery(),
		zz.JO().With("access_token", zz.JS("at")).With("id_token", zz.JS("it")),
		zz.JO().With("access_token", zz.JS("at")).With("id_token", zz.JS("it")),
		zz26Keys(),
		zz.JO().With("sub", zz.JS("x")),
	}[site]
	status := zz.Int("status", 200, 599)
	zz.Assume(zz.Or(status < 300, status >= 400))
	var body *zz.J
	switch zz.Choose("body", 7) {
	case 0:
		body = good
	case 1:
		body = zz.JO()
	case 2:
		body = zz.JInvalid()
	case 3:
		body = zz.JEmpty()
	case 4:
		body = zz.JO().With("error", zz.JS("invalid_grant")).With("error_description", zz.JS("no"))
	case 5:
		body = zz.JNull()
	}
	url := []string{"https://idp/d", "https://idp/t", "https://idp/t", "https://idp/k", "https://idp/u"}[site]
	p := &zz26Idp{answer: func(u string) (int, *zz.J) {
		if u == url {
			return status, body
		}
		zz.Assert(u == "https://idp/d", "another document is asked for")
		return 200, zz26Discovery()
	}}
	zz.SetTransport(&zz.Transport{F: p.RoundTrip})
	cl := func() client.Client {
		return client.New(v1.OidcConfigSpec{ClientName: "n", ClientID: "id", ClientSecret: "s", AuthMethod: "client_secret_basic"}, authserver.New("https://idp/d"))
	}
	var use func()
	switch site {
	case 0:
		s := authserver.New("https://idp/d")
		use = func() { s.AuthorizationEndpoint() }
	case 1:
		c := cl()
		use = func() { _, _ = c.ExchangeGrantCode("code", "https://app/cb") }
	case 2:
		c := cl()
		use = func() { _, _ = c.RefreshToken("rt") }
	case 3:
		k := keyset.New("https://idp/k", nil)
		use = func() { k.PublicKey("other") }
	case 4:
		v := validator.NewTokenValidator(policy.OIDC)
		token := []string{"opaque", "a.b.c"}[zz.Choose("token", 2)]
		kind := []validator.Token{validator.Access, validator.ID}[zz.Choose("kind", 2)]
		use = func() { v.Validate(token, kind, zz26NoKeys{}, nil, "https://idp/u") }
	}
	p.check()
	p.asked, p.bodies = 0, nil
	use()
	p.check()
	if len(p.bodies) > 0 {
		zz.Reach("answered")
		if zz.Fork(status != 200) {
			zz.Reach("refused")
		}
	} else if body == nil && p.asked > 0 {
		zz.Reach("no answer")
	}
}

// zz26NoKeys is a key set without keys.
type zz26NoKeys struct{ keyset.KeySet }

func (zz26NoKeys) PublicKey(kid string) crypto.PublicKey { return nil }
