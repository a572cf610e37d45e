package authserver

import (
	"errors"
	"net/http"
	"strconv"
	"strings"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzSeg = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-._~"

// zzDiscovery is a provider whose discovery document may be missing.
type zzDiscovery struct {
	fetched int // times discovery was asked for
	keys    int // times the keys were asked for
	tokens  int
	fails   int // kinds of failure
	doc     map[string]string
	keysURL string
	tokURL  string
	elsewhere,
	again bool

	scripted bool // the first down answers are all the failure fault
	down     int
	fault    int
	missing  int
	status   int // as answered before
}

var zzMembers = []string{"issuer", "authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint"}

func (d *zzDiscovery) RoundTrip(req *http.Request) (*http.Response, error) {
	u := req.URL.String()
	switch {
	case u == "https://idp.example/discovery":
		return d.discover(req)
	case strings.HasPrefix(u, "https://idp.example/k/"):
		d.keys++
		d.keysURL = u
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA()))), nil
	case strings.HasPrefix(u, "https://idp.example/t/"):
		d.tokens++
		d.tokURL = u
		return zz.Response(req, 200, zz.Body(zz.JO().With("access_token", zz.JS("a")))), nil
	}
	d.elsewhere = true
	return nil, errors.New("no such host")
}

func (d *zzDiscovery) discover(req *http.Request) (*http.Response, error) {
	if d.doc != nil {
		d.again = true
	}
	label := "d" + strconv.Itoa(d.fetched)
	d.fetched++
	kind := 0
	if d.scripted {
		if zz.Fork(d.fetched <= d.down) {
			kind = d.fault
		}
	} else {
		kind = zz.Choose(label, d.fails+1)
	}
	if kind == 1 {
		return nil, errors.New("connection refused")
	}
	prefix := []string{"i/", "a/", "t/", "k/", "u/"}
	doc := map[string]string{}
	j := zz.JO()
	missing := -1
	if kind == 3 {
		if !d.scripted {
			missing = zz.Choose(label+".missing", len(zzMembers))
		} else {
			if d.missing == 0 {
				d.missing = 1 + zz.Choose("missing", len(zzMembers))
			}
			missing = d.missing - 1
		}
	}
	for i, m := range zzMembers {
		v := "https://idp.example/" + prefix[i] + zz.StringIn(label+"."+m, zzSeg, 0, 60)
		if i == missing {
			if d.fetched%2 == 1 {
				continue
			}
			v = ""
		}
		doc[m] = v
		j.With(m, zz.JS(v))
	}
	switch kind {
	case 2:
		status := d.status
		if status == 0 {
			status = zz.Int(label+".status", 201, 599)
			zz.Assume(zz.Or(status < 300, status >= 400))
		}
		if d.scripted {
			d.status = status
		}
		return zz.Response(req, status, zz.Body(j)), nil
	case 3:
		return zz.Response(req, 200, zz.Body(j)), nil
	case 4:
		return zz.Response(req, 200, zz.Body(zz.JInvalid())), nil
	}
	d.doc = doc
	return zz.Response(req, 200, zz.Body(j)), nil
}

func zzUses(d *zzDiscovery, n int, uses ...int) {
	zz.SetTransport(&zz.Transport{F: d.RoundTrip})
	s := New("https://idp.example/discovery")
	used := false
	for i := 0; i < n; i++ {
		had, fetched := d.doc != nil, d.fetched
		check := func(got, member string) {
			if d.doc == nil {
				zz.Assert(got == "", "an endpoint is in use without a complete discovery document")
				return
			}
			zz.Reach("endpoint in use")
			zz.Assert(got == d.doc[member], "an endpoint is not the discovered one")
		}
		use := 0
		if d.scripted {
			use = (uses[i%2] + 6) % 6
		} else {
			use = zz.Choose("use"+strconv.Itoa(i), 6)
		}
		switch use {
		case 0:
			check(s.JwksEndpoint(), "jwks_uri")
		case 1:
			check(s.TokenEndpoint(), "token_endpoint")
		case 2:
			check(s.AuthorizationEndpoint(), "authorization_endpoint")
		case 3:
			check(s.UserInfoEndpoint(), "userinfo_endpoint")
		case 4:
			k := s.KeySet()
			if d.doc == nil {
				zz.Assert(k == nil, "keys are in use without a complete discovery document")
				break
			}
			zz.Assert(k != nil, "no keys although discovery succeeded")
			if k == nil {
				break
			}
			if !had || i > 0 && !used {
				zz.Reach("keys picked up")
			}
			used = true
			zz.Assert(k.PublicKeyURL() == d.doc["jwks_uri"], "keys come from another URL than the discovered one")
			if d.keys > 0 {
				zz.Assert(d.keysURL == d.doc["jwks_uri"], "keys were downloaded from another URL than the discovered one")
			}
		case 5:
			tokens := d.tokens
			t, err := s.GetTokens("client_secret_basic", "c", "s", "code", "https://app/cb", "")
			if d.doc == nil {
				zz.Assert(err != nil && t == nil, "tokens without a token endpoint")
				zz.Assert(d.tokens == tokens, "a token request without a complete discovery document")
				break
			}
			zz.Assert(d.tokens == tokens+1 && err == nil, "no token request although discovery succeeded")
			zz.Assert(d.tokURL == d.doc["token_endpoint"], "the token request goes elsewhere than the discovered endpoint")
		}
		if !had {
			zz.Assert(d.fetched > fetched, "discovery is not tried again")
			if d.doc != nil {
				zz.Reach("picked up later")
			}
		}
	}
	zz.Assert(!d.again, "discovery was fetched again after it succeeded")
	zz.Assert(!d.elsewhere, "a request went to an unknown endpoint")
}

// Every kind of failed discovery before every use.
//
//verif:bound=discovery_at_start,_2_uses_of_6_kinds,_4_kinds_of_failure,_any_endpoint_suffix_of_at_most_60_characters budget=60 tbudget=200
func Verif_C18_failures() { zzUses(&zzDiscovery{fails: 4}, 2) }

// Sequences of uses.
//
//verif:bound=discovery_at_start,_3_uses_of_6_kinds,_1_(2)_kinds_of_failure budget=80 tbudget=400
func Verif_C18_uses() {
	f := 1
	if zz.Thorough() {
		f = 2
	}
	zzUses(&zzDiscovery{fails: f}, 3)
}

// A provider that stays away for long, and is then used at once.
//
//verif:bound=provider_away_for_0..30_(60)_discovery_requests_after_the_start,_4_kinds_of_failure,_2_alternating_uses_of_6_kinds budget=80 tbudget=300
func Verif_C18_long() {
	most := 30
	if zz.Thorough() {
		most = 60
	}
	d := &zzDiscovery{scripted: true, down: zz.Int("down", 0, most), fault: 1 + zz.Choose("fault", 4)}
	if zz.Choose("varied", 2) == 0 {
		u := zz.Choose("use", 6)
		zzUses(d, most+2, u, u)
		return
	}
	u := zz.Choose("use", 6)
	zzUses(d, most+2, u, u+1)
}
