package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// ---- generated tokens -----------------------------------------------------------

// token is a token made by the harness: header.payload.signature, where only
// the content is known to the engine.
type genTok struct {
	h, p, s *Term
	sign    string // algorithm of the signature; "" when it verifies under no key
	key     int
	kbits   string // modulus of the signing key
	kexp    int64
}

// segments maps each token segment to the bytes it encodes.
func (in *Interp) segments() map[*Term]*symBytes {
	m, ok := in.side["segments"].(map[*Term]*symBytes)
	if !ok {
		m = map[*Term]*symBytes{}
		in.side["segments"] = m
	}
	return m
}

func (in *Interp) tokens() *[]*genTok {
	l, ok := in.side["tokens"].(*[]*genTok)
	if !ok {
		l = &[]*genTok{}
		in.side["tokens"] = l
	}
	return l
}

var segChars = setOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_")

func (in *Interp) segment(name string, d *doc, n int) *Term {
	c := in.c()
	v := c.Fresh("tok."+name, SStr)
	vi := c.info[v]
	vi.chars = segChars
	vi.minLen, vi.maxLen = n, n
	in.p.seed(v)
	if _, ok := in.p.raw[v.str]; !ok {
		in.p.model[v] = fmt.Sprintf("x%0*d", n-1, len(in.segments()))
	}
	for o := range in.segments() {
		in.p.Assume(c.Not(c.Eq(v, o)))
	}
	in.segments()[v] = &symBytes{t: in.opaque("seg"), aux: d}
	return v
}

func (in *Interp) newToken(t *genTok, head, claims *doc, n int) *Term {
	c := in.c()
	t.h = in.segment("h", head, 8)
	t.p = in.segment("p", claims, 8)
	if n < 0 {
		t.s = c.Str("")
	} else {
		t.s = in.segment("s", &doc{kind: "invalid"}, 8)
	}
	l := in.tokens()
	*l = append(*l, t)
	dot := c.Str(".")
	return c.Concat(t.h, dot, t.p, dot, t.s)
}

// verify decides an RSA signature: only the signature of a generated token
// verifies, and only over its own text under its own key.
func (in *Interp) verifyRSA(fr *frame, a []value, pss bool) value {
	c := in.c()
	bad := func() value { return in.globalVar("crypto/rsa", "ErrVerification") }
	text, sig := c.norm(in.term(a[1])), c.norm(in.term(a[2]))
	key, _ := a[3].(iface)
	kt := in.prog.typeOf("crypto/rsa", "PublicKey")
	if key.t == nil || !types.Identical(key.t, types.NewPointer(kt)) {
		return in.globalVar("github.com/dgrijalva/jwt-go/v4", "ErrInvalidKeyType")
	}
	kp, _ := key.v.(*value)
	if kp == nil {
		in.gopanic("invalid memory address or nil pointer dereference")
	}
	var name string
	mp := a[0].(*value)
	if pss {
		mt := in.prog.typeOf("github.com/dgrijalva/jwt-go/v4", "SigningMethodRSAPSS")
		mp = in.getField(mp, mt, "SigningMethodRSA").(*value)
	}
	mt := in.prog.typeOf("github.com/dgrijalva/jwt-go/v4", "SigningMethodRSA")
	name = in.concStr(in.getField(mp, mt, "Name"))
	for _, t := range *in.tokens() {
		if c.norm(t.s) != sig || t.s.isConst() {
			continue
		}
		want := c.norm(c.Concat(t.h, c.Str("."), t.p))
		if want != text || t.sign != name {
			return bad()
		}
		np, _ := in.getField(kp, kt, "N").(*value)
		if np == nil {
			return bad()
		}
		b, ok := bigKeyOf(in, np)
		if !ok {
			return bad()
		}
		if z, ok := b.(*Term); ok {
			if z = c.norm(z); !z.isConst() {
				return bad()
			}
			b = in.lowerBytes(string(z.c.Bytes()))
		}
		nt := c.norm(in.bytesTerm(b))
		if !nt.isConst() {
			return bad()
		}
		if trimZeros(nt.str) != t.kbits {
			return bad()
		}
		e := c.norm(in.term(in.getField(kp, kt, "E")))
		if !in.truth(in.lowerBool(c.Eq(e, c.Int(t.kexp)))) {
			return bad()
		}
		return nilErr
	}
	return bad()
}

func trimZeros(s string) string {
	for len(s) > 0 && s[0] == 0 {
		s = s[1:]
	}
	return s
}

// ---- secure cookies -----------------------------------------------------------------

type scEnt struct {
	enc         *Term
	name        *Term
	hash, block *Term
	hasBlock    bool
	vt          types.Type
	v           value
	at          int64
}

type scKey struct{ p *value }

const scPkg = "github.com/gorilla/securecookie"

func (in *Interp) cookies() *[]*scEnt {
	l, ok := in.side["cookies"].(*[]*scEnt)
	if !ok {
		l = &[]*scEnt{}
		in.side["cookies"] = l
	}
	return l
}

func (in *Interp) scErr(text string) value { return in.mkErr("securecookie: " + text) }

// scKeys reads hash and block key of a SecureCookie.
func (in *Interp) scKeys(p *value) (hash, block *Term, hasBlock bool, err value) {
	t := in.prog.typeOf(scPkg, "SecureCookie")
	if e, ok := in.getField(p, t, "err").(iface); ok && e.t != nil {
		return nil, nil, false, e
	}
	h := in.getField(p, t, "hashKey")
	if isNilSlice(h) {
		return nil, nil, false, in.scErr("hash key is not set")
	}
	b := in.getField(p, t, "blockKey")
	hash = in.bytesTerm(h)
	block = in.c().Str("")
	if !isNilSlice(b) {
		hasBlock = true
		block = in.bytesTerm(b)
	}
	return hash, block, hasBlock, nil
}

func nativesSec() {
	c0 := func(in *Interp, fr *frame, a []value) value { return in.verifyRSA(fr, a, false) }
	nat("(*github.com/dgrijalva/jwt-go/v4.SigningMethodRSA).Verify", c0)
	nat("(*github.com/dgrijalva/jwt-go/v4.SigningMethodRSAPSS).Verify", func(in *Interp, fr *frame, a []value) value { return in.verifyRSA(fr, a, true) })
	nat2("(*github.com/dgrijalva/jwt-go/v4.SigningMethodECDSA).Verify", nativeKeyType("crypto/ecdsa", "PublicKey"))
	notImpl("crypto/rsa.VerifyPKCS1v15", "crypto/rsa.VerifyPSS", "crypto/hmac.New")

	nat(scPkg+".New", func(in *Interp, fr *frame, a []value) value {
		p, t := in.newStruct(scPkg, "SecureCookie")
		in.setField(p, t, "hashKey", a[0])
		in.setField(p, t, "blockKey", a[1])
		in.setField(p, t, "maxAge", int64(86400*30))
		in.setField(p, t, "maxLength", int64(4096))
		if isNilSlice(a[0]) {
			in.setField(p, t, "err", in.scErr("hash key is not set"))
		}
		if !isNilSlice(a[1]) {
			switch n := in.concInt(in.lenOf(a[1])); n {
			case 16, 24, 32:
			default:
				in.setField(p, t, "err", in.mkErr("securecookie: error - caused by: crypto/aes: invalid key size"))
			}
		}
		return p
	})
	notImpl("(*"+scPkg+".SecureCookie).SetSerializer", "(*"+scPkg+".SecureCookie).BlockFunc", "(*"+scPkg+".SecureCookie).HashFunc", scPkg+".EncodeMulti", scPkg+".DecodeMulti", scPkg+".CodecsFromPairs")
	nat("(*"+scPkg+".SecureCookie).Encode", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		h, b, hb, err := in.scKeys(a[0].(*value))
		if err != nil {
			return tuple{"", err}
		}
		v := a[2].(iface)
		if v.t == nil {
			return tuple{"", in.scErr("error - caused by: gob")}
		}
		if hb && in.side["failrandom"] != nil {
			return tuple{"", in.scErr("could not generate an iv")}
		}
		enc := c.Fresh("cookie", SStr)
		vi := c.info[enc]
		vi.chars = setOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_=")
		vi.minLen, vi.maxLen = 40, 40
		in.p.seed(enc)
		in.serial++
		in.p.model[enc] = uniqueText(in.serial)
		for _, e := range *in.cookies() {
			in.p.Assume(c.Not(c.Eq(enc, e.enc)))
		}
		l := in.cookies()
		*l = append(*l, &scEnt{enc: enc, name: in.term(a[1]), hash: h, block: b, hasBlock: hb, vt: v.t, v: in.snapshot(v.v), at: in.advance})
		return tuple{enc, nilErr}
	})
	nat("(*"+scPkg+".SecureCookie).Decode", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		p := a[0].(*value)
		h, b, hb, err := in.scKeys(p)
		if err != nil {
			return err
		}
		bad := func() value { return in.scErr("the value is not valid") }
		t := c.norm(in.term(a[2]))
		for _, e := range *in.cookies() {
			enc := c.norm(e.enc)
			if enc != t {
				if !t.isConst() {
					// no one can make a valid cookie without the keys
					in.p.Assume(c.Not(c.Eq(enc, t)))
				}
				continue
			}
			same := c.And(c.Eq(in.term(a[1]), e.name), c.Eq(h, e.hash), c.Eq(b, e.block), c.Bool(hb == e.hasBlock))
			if !in.truth(in.lowerBool(same)) {
				return bad()
			}
			t := in.prog.typeOf(scPkg, "SecureCookie")
			if age, ok := in.getField(p, t, "maxAge").(int64); ok && age != 0 && in.advance-e.at > age {
				return in.scErr("expired timestamp")
			}
			dst := a[3].(iface)
			pt, ok := dst.t.Underlying().(*types.Pointer)
			if !ok || isNilPtr(dst.v) {
				return in.scErr("error - caused by: gob")
			}
			if !types.Identical(pt.Elem().Underlying(), e.vt.Underlying()) {
				return in.scErr("error - caused by: gob")
			}
			*dst.v.(*value) = in.snapshot(e.v)
			return nilErr
		}
		return bad()
	})

	// BSON
	nat("gopkg.in/mgo.v2/bson.Marshal", func(in *Interp, fr *frame, a []value) value {
		v := a[0].(iface)
		t, x := v.t, v.v
		for {
			pt, ok := t.Underlying().(*types.Pointer)
			if !ok {
				break
			}
			if isNilPtr(x) {
				return tuple{[]value(nil), in.mkErr("Can't marshal nil as a BSON document")}
			}
			t, x = pt.Elem(), *x.(*value)
		}
		if _, ok := t.Underlying().(*types.Struct); !ok {
			panic(unsupported("bson of %s", t))
		}
		return tuple{&symBytes{t: in.opaque("bson"), aux: &bsonDoc{t, in.snapshot(x).(structure)}}, nilErr}
	})
	nat("gopkg.in/mgo.v2/bson.Unmarshal", func(in *Interp, fr *frame, a []value) value {
		sb, ok := a[0].(*symBytes)
		var d *bsonDoc
		if ok {
			d, ok = sb.aux.(*bsonDoc)
		}
		if !ok {
			if isNilSlice(a[0]) || in.c().norm(in.bytesTerm(a[0])).isConst() {
				return in.mkErr("Document is corrupted")
			}
			panic(unsupported("bson of unknown bytes"))
		}
		dst := a[1].(iface)
		pt, ok := dst.t.Underlying().(*types.Pointer)
		if !ok || isNilPtr(dst.v) {
			panic(unsupported("bson destination"))
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			panic(unsupported("bson destination %s", dst.t))
		}
		out := (*dst.v.(*value)).(structure)
		src := d.t.Underlying().(*types.Struct)
		for i := 0; i < src.NumFields(); i++ {
			for j := 0; j < st.NumFields(); j++ {
				if lowerName(st.Field(j).Name()) == lowerName(src.Field(i).Name()) && types.Identical(st.Field(j).Type(), src.Field(i).Type()) {
					v := copyVal(d.v[i])
					if st.Field(j).Type().String() == "time.Time" {
						v = in.truncMs(v)
					}
					out[j] = v
				}
			}
		}
		return nilErr
	})

	nat("istio.io/istio/mixer/pkg/status.PackErrorDetail", func(in *Interp, fr *frame, a []value) value {
		v := a[0].(iface)
		if v.t == nil {
			panic(unsupported("nil detail"))
		}
		p, t := in.newStruct("github.com/gogo/protobuf/types", "Any")
		in.setField(p, t, "TypeUrl", "type.googleapis.com/"+types.TypeString(deref(v.t), func(*types.Package) string { return "" }))
		q := new(value)
		*q = in.snapshot(*v.v.(*value))
		in.setField(p, t, "Value", &symBytes{t: in.opaque("any"), aux: iface{v.t, q}})
		return p
	})
}

type bsonDoc struct {
	t types.Type
	v structure
}

func lowerName(s string) string {
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	return string(b)
}

// truncMs drops what BSON does not keep of a time (units below a millisecond,
// the location).
func (in *Interp) truncMs(v value) value {
	s := copyVal(v).(structure)
	if w, ok := s[0].(uint64); ok {
		s[0] = w - w%1000000
	} else {
		c := in.c()
		t := in.term(s[0])
		s[0] = in.lower(c.Sub(t, c.Mod(t, big.NewInt(1000000))), types.Typ[types.Uint64])
	}
	s[2] = (*value)(nil)
	return s
}

// snapshot copies a value deeply enough that later writes through the original
// are not seen (structs, slices, maps).
func (in *Interp) snapshot(v value) value {
	switch x := v.(type) {
	case structure:
		out := make(structure, len(x))
		for i := range x {
			out[i] = in.snapshot(x[i])
		}
		return out
	case array:
		out := make(array, len(x))
		for i := range x {
			out[i] = in.snapshot(x[i])
		}
		return out
	case []value:
		if x == nil {
			return x
		}
		out := make([]value, len(x))
		for i := range x {
			out[i] = in.snapshot(x[i])
		}
		return out
	case *hashmap:
		if x == nil {
			return x
		}
		m := newMap(x.kt)
		for _, e := range x.entries {
			in.mapSet(m, e.k, in.snapshot(e.v))
		}
		return m
	}
	return v
}

func uniqueText(n int) string {
	b := []byte("MTc5MDAwMDAwMHxBQUFBQUFBQUFBQUFBQUFBQUFBA")[:40]
	for i := 39; n > 0; i-- {
		b[i] = 'A' + byte(n%26)
		n /= 26
	}
	return string(b)
}

// nativeKeyType: the method refuses keys of other types; keys of its own type
// do not occur (only RSA keys are decoded).
func nativeKeyType(pkg, name string) nativeImpl {
	return func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		key, _ := a[3].(iface)
		if key.t != nil && types.TypeString(key.t, nil) == "*"+pkg+"."+name {
			panic(unsupported("%s key", pkg))
		}
		return in.globalVar("github.com/dgrijalva/jwt-go/v4", "ErrInvalidKeyType")
	}
}
