package authserver

import (
	"errors"
	"net/http"
	"strconv"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zz22Provider is a provider without a state of its own.
type zz22Provider struct{ down, partial bool }

func (p *zz22Provider) RoundTrip(req *http.Request) (*http.Response, error) {
	zz.Yield()
	if p.down {
		return nil, errors.New("connection refused")
	}
	switch req.URL.String() {
	case "https://idp/discovery":
		j := zz.JO().
			With("issuer", zz.JS("https://idp")).
			With("authorization_endpoint", zz.JS("https://idp/a")).
			With("jwks_uri", zz.JS("https://idp/k")).
			With("userinfo_endpoint", zz.JS("https://idp/u"))
		if !p.partial {
			j = j.With("token_endpoint", zz.JS("https://idp/t"))
		}
		return zz.Response(req, 200, zz.Body(j)), nil
	case "https://idp/k":
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(
			zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE)))))), nil
	case "https://idp/t":
		return zz.Response(req, 200, zz.Body(zz.JO().With("access_token", zz.JS("at")))), nil
	}
	return nil, errors.New("no such host")
}

// use asks for one of the things a provider gives and tells whether it was
// had completely, or not at all.
func zz22Use(s AuthorizationServerService, what int) (all, none bool) {
	switch what {
	case 0:
		k := s.KeySet()
		return k != nil && k.PublicKeyURL() == "https://idp/k" && zz.SameKey(k.PublicKey("k"), 0), k == nil
	case 1:
		u := s.TokenEndpoint()
		return u == "https://idp/t", u == ""
	case 2:
		u := s.AuthorizationEndpoint()
		return u == "https://idp/a", u == ""
	case 3:
		u := s.UserInfoEndpoint()
		return u == "https://idp/u", u == ""
	case 4:
		u := s.JwksEndpoint()
		return u == "https://idp/k", u == ""
	default:
		t, err := s.GetTokens("client_secret_basic", "id", "secret", "code", "https://app/cb", "")
		return err == nil && t != nil && t.AccessToken == "at", err != nil
	}
}

// Requests that use a provider while it is being discovered.
//
//verif:bound=2_(3)_concurrent_uses_out_of_6,_provider_known_before,_found_by_them_or_incomplete,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=200 budget=100 tbudget=120
func Verif_C22_discovery() {
	state := zz.Choose("provider", 3)
	p := &zz22Provider{down: state > 0}
	zz.SetTransport(&zz.Transport{F: p.RoundTrip})
	s := New("https://idp/discovery")
	p.down, p.partial = false, state == 2
	n := 2
	if zz.Thorough() {
		n = 3
	}
	ops := make([]int, n)
	for i := range ops {
		ops[i] = zz.Choose("use"+strconv.Itoa(i), 6)
		if i > 0 {
			zz.Assume(ops[i-1] <= ops[i])
		}
	}
	all, none := make([]bool, n), make([]bool, n)
	for i := range ops {
		i := i
		zz.Go(func() { all[i], none[i] = zz22Use(s, ops[i]) })
	}
	zz.Join()
	for i := range ops {
		if state == 2 {
			zz.Reach("incomplete")
			zz.Assert(none[i], "part of an incomplete discovery document is used")
		} else {
			zz.Reach("complete")
			zz.Assert(all[i], "a provider that is available is not seen completely")
		}
	}
	p.partial = false
	for i := range ops {
		ok, _ := zz22Use(s, ops[i])
		zz.Assert(ok, "a provider that is available is not seen after concurrent requests")
	}
}
