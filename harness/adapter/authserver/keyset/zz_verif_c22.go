package keyset

import (
	"errors"
	"net/http"
	"strconv"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// zz22Server publishes one of two key sets, or nothing.
type zz22Server struct {
	down    bool
	rotated bool
}

func (s *zz22Server) RoundTrip(req *http.Request) (*http.Response, error) {
	zz.Yield()
	if s.down {
		return nil, errors.New("connection refused")
	}
	kid, n := "old", 0
	if s.rotated {
		kid, n = "new", 1
	}
	return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(
		zz.JO().With("kid", zz.JS(kid)).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(n))).With("e", zz.JS(zz.KeyE)),
		zz.JO().With("kid", zz.JS("both")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(n))).With("e", zz.JS(zz.KeyE)))))), nil
}

// Requests that look keys up while the key set is downloaded again.
//
//verif:bound=2_(3)_concurrent_look-ups_of_a_key_that_stays,_goes,_comes_or_is_unknown,_key_set_downloaded_before_or_not,_keys_rotated_or_the_provider_down,_every_order_of_their_accesses race=1 preempt=1 tpreempt=2 replay=200 budget=100 tbudget=120
func Verif_C22_keys() {
	known := zz.Choose("known", 2) == 1
	server := &zz22Server{down: !known}
	zz.SetTransport(&zz.Transport{F: server.RoundTrip})
	ks := New("https://idp/keys", networking.New())
	server.rotated = true
	server.down = zz.Choose("down", 2) == 1
	kids := []string{"old", "new", "both", "none"}
	n := 2
	if zz.Thorough() {
		n = 3
	}
	ops := make([]int, n)
	for i := range ops {
		ops[i] = zz.Choose("kid"+strconv.Itoa(i), 4)
		if i > 0 {
			zz.Assume(ops[i-1] <= ops[i])
		}
	}
	got := make([]interface{}, n)
	for i := range ops {
		i := i
		zz.Go(func() { got[i] = ks.PublicKey(kids[ops[i]]) })
	}
	zz.Join()
	for i, op := range ops {
		before, after := false, false // the key is the one from before or after the rotation
		if got[i] != nil {
			before, after = zz.SameKey(got[i], 0), zz.SameKey(got[i], 1)
		}
		switch {
		case op == 3:
			zz.Assert(got[i] == nil, "a key is made up")
		case server.down:
			zz.Reach("provider down")
			zz.Assert(!after, "a key that was never published is used")
			zz.Assert(before == (known && op != 1), "the keys known are not kept while the provider is down")
		case op == 0:
			zz.Assert(got[i] == nil || known && before, "a key that was withdrawn is used")
			zz.Reach("withdrawn key")
		case op == 1:
			zz.Assert(after, "a published key is not found")
			zz.Reach("rotated key")
		case op == 2:
			zz.Assert(after || known && before, "a key that is published under the same name is not found")
		}
	}
}
