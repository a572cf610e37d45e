package adapter

import (
	"errors"
	"net/http"
	"strings"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zz18Chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"

type zz18Idp struct {
	down  int
	asked int
	up    bool
	after int // successful discovery answers
}

func (p *zz18Idp) RoundTrip(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	switch {
	case strings.HasPrefix(u, "https://idp/d/"):
		p.asked++
		if zz.Fork(p.asked <= p.down) {
			return nil, errors.New("connection refused")
		}
		p.up = true
		p.after++
		x := u[len("https://idp/d/"):]
		return zz.Response(req, 200, zz.Body(zz.JO().
			With("issuer", zz.JS("https://idp")).
			With("authorization_endpoint", zz.JS("https://idp/a/"+x)).
			With("token_endpoint", zz.JS("https://idp/t/"+x)).
			With("jwks_uri", zz.JS("https://idp/k/"+x)).
			With("userinfo_endpoint", zz.JS("https://idp/u/"+x)))), nil
	case strings.HasPrefix(u, "https://idp/k/"):
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(
			zz.JO().With("kid", zz.JS("k")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(0))).With("e", zz.JS(zz.KeyE)))))), nil
	}
	return nil, errors.New("no such host")
}
