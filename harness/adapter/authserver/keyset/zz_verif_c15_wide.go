package keyset

import (
	"net/http"
	"strconv"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

// A document with many keys, some of which cannot be used.
//
//verif:bound=1_document_of_7_keys_of_which_any_2_neighbours_cannot_be_used,_key_ids_of_1..100_characters,_3_lookups budget=60 tbudget=100
func Verif_C15_many() {
	const n = 7
	bad := zz.Choose("bad", n+1)
	var kids []string
	var list []*zz.J
	for i := 0; i < n; i++ {
		kid := strconv.Itoa(i) + zz.StringIn("kid"+strconv.Itoa(i), zzKidChars, 0, 99)
		j := zz.JO().With("kid", zz.JS(kid)).With("use", zz.JS("sig")).With("alg", zz.JS("RS256")).With("e", zz.JS(zz.KeyE)).With("n", zz.JS(zz.KeyN(i%2)))
		if i == bad || i == bad+1 {
			j.With("kty", zz.JS("EC"))
			kid = ""
		} else {
			j.With("kty", zz.JS("RSA"))
		}
		kids = append(kids, kid)
		list = append(list, j)
	}
	down := false
	served := 0
	zz.SetTransport(&zz.Transport{F: func(req *http.Request) (*http.Response, error) {
		served++
		if down {
			return zz.Response(req, 503, nil), nil
		}
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(list...)))), nil
	}})
	ks := New("https://idp.example/keys", networking.New())
	down = true
	zz.Assert(served <= 1, "the document is downloaded more than once")
	for i := 0; i < 3; i++ {
		at := zz.Choose("ask"+strconv.Itoa(i), n)
		kid := kids[at]
		k := ks.PublicKey(strconv.Itoa(at) + "x")
		zz.Assert(zz.Or(kid == strconv.Itoa(at)+"x", k == nil), "an unknown key id resolves")
		if kid == "" {
			continue
		}
		k = ks.PublicKey(kid)
		zz.Assert(k != nil && zz.SameKey(k, at%2), "one of many published keys is not found or is another")
		zz.Reach("one of many keys")
	}
}
