package keyset

import (
	"crypto/rsa"
	"math/big"
	"strconv"

	zz "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/zzverif"
)

const zzAlnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"

// zzNumber is base64 text of n characters over one of the alphabets, padded or
// not, and the bytes it stands for. bad: the text stands for nothing.
type zzNumber struct {
	text  string
	bytes []int
	bad   bool
}

func zzEncoded(label string, n int, std bool, pad bool) zzNumber {
	var r zzNumber
	var v []int
	for i := 0; i < n; i++ {
		ch, d := zz.Digit(label+strconv.Itoa(i), std)
		r.text += ch
		v = append(v, d)
	}
	if pad {
		for len(r.text)%4 != 0 {
			r.text += "="
		}
	}
	r.bad = n%4 == 1
	for i := 0; i < n; i += 4 {
		if i+1 < n {
			r.bytes = append(r.bytes, v[i]*4+v[i+1]/16)
		}
		if i+2 < n {
			r.bytes = append(r.bytes, v[i+1]%16*16+v[i+2]/4)
		}
		if i+3 < n {
			r.bytes = append(r.bytes, v[i+2]%4*64+v[i+3])
		}
	}
	return r
}

// integer is the number the bytes denote, if it is below 2^63.
func (n zzNumber) integer() (v int, fits bool) {
	fits = true
	over := len(n.bytes) - 8
	for i, b := range n.bytes {
		switch {
		case i < over:
			fits = zz.And(fits, b == 0)
		case i == over:
			fits = zz.And(fits, b < 128)
			v = zz.IteInt(b < 128, b, 0)
		default:
			v = v*256 + b
		}
	}
	return
}

// The exponent of a published key is decoded exactly or the key is refused.
//
//verif:bound=exponent_text_of_1..12_(16)_characters_of_either_base64_alphabet,_padded_or_not budget=60 tbudget=400
func Verif_C16_exponent() {
	max := 12
	if zz.Thorough() {
		max = 16
	}
	e := zzEncoded("e", 1+zz.Choose("n", max), zz.Choose("std", 2) == 1, zz.Choose("pad", 2) == 1)
	k := &key{Kty: "RSA", N: "AQAB", E: e.text}
	pk, err := k.decodePublicKey()
	want, fits := e.integer()
	if e.bad {
		zz.Reach("undecodable")
		zz.Assert(err != nil, "undecodable exponent accepted")
		return
	}
	if zz.Fork(!fits) {
		zz.Reach("too large")
		zz.Assert(err != nil, "an exponent that cannot be represented was accepted")
		return
	}
	if zz.Fork(want == 0) {
		return
	}
	zz.Assert(err == nil, "valid exponent refused")
	if err != nil {
		return
	}
	zz.Reach("decoded")
	p, ok := pk.(*rsa.PublicKey)
	zz.Assert(ok && p != nil, "not an RSA key")
	if !ok || p == nil {
		return
	}
	zz.Observe("e", p.E)
	zz.Assert(p.E == want, "decoded to another exponent")
	zz.Assert(p.N != nil && p.N.Cmp(big.NewInt(65537)) == 0, "decoded to another modulus")
}

// The modulus of a published key is decoded exactly or the key is refused.
//
//verif:bound=modulus_text_of_1..12_(20)_characters_of_either_base64_alphabet,_padded_or_not budget=60 tbudget=300
func Verif_C16_modulus() {
	max := 12
	if zz.Thorough() {
		max = 20
	}
	n := zzEncoded("n", 1+zz.Choose("n", max), zz.Choose("std", 2) == 1, zz.Choose("pad", 2) == 1)
	k := &key{Kty: "RSA", N: n.text, E: "AQAB", Kid: "kid"}
	pk, err := k.decodePublicKey()
	if n.bad {
		zz.Assert(err != nil, "undecodable modulus accepted")
		return
	}
	zero := true
	want := new(big.Int)
	bs := make([]byte, 0, len(n.bytes))
	for _, b := range n.bytes {
		zero = zz.And(zero, b == 0)
		bs = append(bs, byte(b))
	}
	want.SetBytes(bs)
	if zz.Fork(zero) {
		return
	}
	zz.Assert(err == nil, "valid modulus refused")
	if err != nil {
		return
	}
	p, ok := pk.(*rsa.PublicKey)
	zz.Assert(ok && p != nil && p.N != nil, "not an RSA key")
	if !ok || p == nil || p.N == nil {
		return
	}
	zz.Reach("decoded")
	zz.Assert(p.N.Cmp(want) == 0, "decoded to another modulus")
	zz.Assert(p.E == 65537, "decoded to another exponent")
}

// Keys of another type or with parts missing or undecodable are refused.
//
//verif:bound=key_type_of_at_most_4_characters,_parts_of_at_most_5_printable_characters budget=60 tbudget=200
func Verif_C16_refused() {
	kty := zz.String("kty", 4)
	n, e := "AQAB", "AQAB"
	const other = "!#$%&()*,.:;<>?@[]^{|}~ =\""
	switch zz.Choose("part", 4) {
	case 1:
		n = ""
	case 2:
		e = ""
	case 3:
		bad := zz.StringIn("pre", zzAlnum+"-_", 0, 2) + zz.StringIn("bad", other, 1, 1) + zz.StringIn("post", zzAlnum, 2, 4)
		if zz.Choose("which", 2) == 0 {
			n = bad
		} else {
			e = bad
		}
	default:
		zz.Assume(kty != "RSA")
	}
	k := &key{Kty: kty, N: n, E: e}
	_, err := k.decodePublicKey()
	zz.Observe("refused", err != nil)
	zz.Assert(err != nil, "a key that cannot be used was decoded")
	zz.Reach("refused")
}
