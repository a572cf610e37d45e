package keyset

import (
	"errors"
	"net/http"
	"strconv"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzKidChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.:/"

// zzEntry is one key of a published document; fixture is -1 when it cannot be
// used.
type zzEntry struct {
	kid     string
	fixture int
}

// zzServer publishes a new document at every request.
type zzServer struct {
	url     string
	max     int // keys in a document
	kinds   int // kinds of keys: fixtures first
	fails   int // kinds of failed downloads
	last    int // downloads that may succeed
	served  int
	entries []zzEntry // of the last good document
	badReq  bool
}

func (s *zzServer) entry(label string) (zzEntry, *zz.J) {
	e := zzEntry{fixture: -1}
	j := zz.JO()
	min := 1
	if s.kinds == 5 {
		min = 0
	}
	e.kid = zz.StringIn(label+".kid", zzKidChars, min, 60)
	if e.kid != "" || s.kinds == 5 {
		j.With("kid", zz.JS(e.kid))
	}
	kty, n, x := "RSA", zz.KeyN(0), zz.KeyE
	switch zz.Choose(label+".kind", s.kinds) {
	case 0:
		e.fixture = 0
	case 1:
		e.fixture = 1
		n = zz.KeyN(1)
	case 2:
		kty = "EC"
	case 3:
		n = "!"
	case 4:
		x = ""
	}
	if e.kid == "" {
		e.fixture = -1
	}
	j.With("kty", zz.JS(kty)).With("use", zz.JS("sig")).With("n", zz.JS(n)).With("e", zz.JS(x))
	return e, j
}

func (s *zzServer) RoundTrip(req *http.Request) (*http.Response, error) {
	label := "d" + strconv.Itoa(s.served)
	s.served++
	if req.URL.String() != s.url || req.Method != "GET" {
		s.badReq = true
	}
	kind := 1
	if s.served <= s.last {
		kind = zz.Choose(label, s.fails+1)
	}
	switch kind {
	case 1:
		return nil, errors.New("connection refused")
	case 2:
		status := zz.Int(label+".status", 201, 599)
		zz.Assume(zz.Or(status < 300, status >= 400))
		return zz.Response(req, status, zz.Body(zz.JO().With("keys", zz.JA(zz.JO().With("kid", zz.JS("a")).With("kty", zz.JS("RSA")).With("n", zz.JS(zz.KeyN(1))).With("e", zz.JS(zz.KeyE)))))), nil
	case 3:
		return zz.Response(req, 200, zz.Body(zz.JO().With("keyss", zz.JA()))), nil
	case 4:
		return zz.Response(req, 200, zz.Body(zz.JInvalid())), nil
	case 5:
		return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JS("none")))), nil
	}
	var list []*zz.J
	s.entries = nil
	n := zz.Choose(label+".n", s.max+1)
	for i := 0; i < n; i++ {
		e, j := s.entry(label + "." + strconv.Itoa(i))
		for _, o := range s.entries {
			zz.Assume(o.kid != e.kid || e.kid == "")
		}
		s.entries = append(s.entries, e)
		list = append(list, j)
	}
	return zz.Response(req, 200, zz.Body(zz.JO().With("keys", zz.JA(list...)))), nil
}

// known is the fixture key the last good document has for the key id.
func (s *zzServer) known(kid string) int {
	r := -1
	for _, e := range s.entries {
		if e.fixture >= 0 {
			r = zz.IteInt(e.kid == kid, e.fixture, r)
		}
	}
	return r
}

func zzLookups(s *zzServer, n int) {
	zz.SetTransport(s)
	ks := New(s.url, networking.New())
	zz.Assert(ks.PublicKeyURL() == s.url, "key set reports another URL")
	for i := 0; i < n; i++ {
		kid := zz.StringIn("kid"+strconv.Itoa(i), zzKidChars, 0, 60)
		before, served := s.known(kid), s.served
		k := ks.PublicKey(kid)
		if zz.Fork(before >= 0) {
			zz.Reach("known key")
			zz.Assert(s.served == served, "a known key id was downloaded again")
		} else {
			zz.Assert(s.served == served+1, "an unknown key id did not trigger exactly one download")
		}
		want := s.known(kid)
		if zz.Fork(want < 0) {
			zz.Reach("no key")
			zz.Assert(k == nil, "a key id resolves although the last good document has no key for it")
			continue
		}
		zz.Assert(k != nil, "a published key is not found")
		zz.Assert(zz.Or(zz.And(want == 0, zz.SameKey(k, 0)), zz.And(want == 1, zz.SameKey(k, 1))), "a key id resolves to another key")
		if i > 0 && zz.Fork(before < 0) {
			zz.Reach("found after a new download")
		}
	}
	zz.Assert(!s.badReq, "keys were requested from elsewhere")
}

// One document with keys of every kind.
//
//verif:bound=1_document_of_at_most_3_keys_of_5_kinds,_1_lookup,_key_ids_of_at_most_60_characters budget=60 tbudget=100
func Verif_C15_document() {
	zzLookups(&zzServer{url: "https://idp.example/keys", max: 3, kinds: 5, fails: 5, last: 1}, 1)
}

// Lookups against a provider whose keys change.
//
//verif:bound=download_at_start,_2_lookups,_documents_of_at_most_2_keys_of_2_(3)_kinds,_key_ids_of_at_most_60_characters budget=80 tbudget=300
func Verif_C15_rollover() {
	k := 2
	if zz.Thorough() {
		k = 3
	}
	zzLookups(&zzServer{url: "https://idp.example/keys", max: 2, kinds: k, fails: 1, last: 3}, 2)
}

// Lookups against a provider whose answers fail in different ways.
//
//verif:bound=download_at_start,_3_lookups,_documents_of_at_most_1_key,_3_(5)_kinds_of_failure budget=80 tbudget=300
func Verif_C15_failures() {
	f := 3
	if zz.Thorough() {
		f = 5
	}
	zzLookups(&zzServer{url: "https://idp.example/keys", max: 1, kinds: 2, fails: f, last: 4}, 3)
}
