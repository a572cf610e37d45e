package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"go/types"
	"math/big"
	"net/textproto"
	"net/url"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// nat2 gives the native the SSA function so that it can fall back to it.
func nat2(name string, f nativeImpl) {
	if _, dup := natTab[name]; dup {
		panic("duplicate native " + name)
	}
	natTab[name] = f
}

func (in *Interp) interpret(fr *frame, fn *ssa.Function, a []value) value {
	return in.callSSA(fr, fn, a, nil, false)
}

// notImpl makes calls of a function an incomplete path instead of running code
// whose state the models do not keep.
func notImpl(names ...string) {
	for _, n := range names {
		n := n
		nat(n, func(in *Interp, fr *frame, a []value) value { panic(unsupported("call of %s", n)) })
	}
}

const unresChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~"

var (
	unreserved = setOf(unresChars)
	pathSafe   = setOf(unresChars + "/$&+,:=@")
	b64Std     = setOf("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=")
	tokenSet   = setOf("!#$%&'*+-.^_`|~0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ")
	cookieSet  = func() charset {
		var c charset
		for b := 0x20; b < 0x7f; b++ {
			if b != '"' && b != ';' && b != '\\' {
				c.add(byte(b))
			}
		}
		return c
	}()
)

func subset(a, b charset) bool { return a.inter(b) == a }

// allIn is the condition that every byte of t lies in cs.
func (in *Interp) allIn(t *Term, cs charset) *Term {
	c := in.c()
	var out []*Term
	for _, p := range c.pieces(c.norm(t)) {
		if subset(c.chars(p), cs) {
			continue
		}
		if p.op == OConst {
			return c.False
		}
		out = append(out, c.InRe(p, regRe("(re.* "+charsetRe(cs)+")", goCharset(cs)+"*")))
	}
	return c.And(out...)
}

// ---- URL escaping ---------------------------------------------------------------

type escEnt struct{ orig, enc *Term }

func (in *Interp) escapes() *[]*escEnt {
	l, ok := in.side["url.escape"].(*[]*escEnt)
	if !ok {
		l = &[]*escEnt{}
		in.side["url.escape"] = l
	}
	return l
}

func (in *Interp) escapeVar(v *Term) *Term {
	c := in.c()
	l := in.escapes()
	for _, e := range *l {
		if c.norm(e.orig) == v {
			return e.enc
		}
	}
	m := ""
	if !in.p.unk {
		s, _ := c.Eval(v, in.p.model).(string)
		m = url.QueryEscape(s)
	}
	enc := in.freshStr("qesc", setOf(unresChars+"%+"), m)
	if _, mx := c.lenBounds(v); mx >= 0 {
		c.info[enc].maxLen = 3 * mx
	}
	in.p.Assume(c.Eq(c.Eq(enc, c.Str("")), c.Eq(v, c.Str(""))))
	for _, e := range *l {
		in.p.Assume(c.Eq(c.Eq(enc, e.enc), c.Eq(v, e.orig)))
	}
	*l = append(*l, &escEnt{v, enc})
	return enc
}

const (
	modePath = 1 + iota
	modePathSegment
	modeHost
	modeZone
	modeUserPassword
	modeQueryComponent
	modeFragment
)

func modeSafe(mode int) charset {
	switch mode {
	case modePath:
		return pathSafe
	case modeFragment:
		return setOf(unresChars + "/$&+,:=@?;!()*")
	}
	return unreserved
}

func realEscape(s string, mode int) (string, bool) {
	switch mode {
	case modeQueryComponent:
		return url.QueryEscape(s), true
	case modePath:
		return (&url.URL{Path: s}).EscapedPath(), s != "*"
	}
	return "", false
}

// ---- URL parsing ------------------------------------------------------------------

// subst replaces placeholders by the terms they stand for.
func (in *Interp) subst(s string, ph []string, ts []*Term) value {
	c := in.c()
	var out []*Term
	for s != "" {
		best, at := -1, len(s)
		for i, p := range ph {
			if k := strings.Index(s, p); k >= 0 && k < at {
				best, at = i, k
			}
		}
		if at > 0 {
			out = append(out, c.Str(s[:at]))
		}
		if best < 0 {
			break
		}
		out = append(out, ts[best])
		s = s[at+len(ph[best]):]
	}
	return in.lowerStr(c.Concat(out...))
}

func (in *Interp) urlParse(fr *frame, fn *ssa.Function, a []value) value {
	raw := in.simp(a[0])
	if _, ok := raw.(string); ok {
		return in.interpret(fr, fn, a)
	}
	c := in.c()
	for _, p := range c.pieces(raw.(*Term)) {
		if p.op != OConst {
			in.truth(in.lowerBool(c.Eq(p, c.Str(""))))
		}
	}
	t := c.norm(raw.(*Term))
	if t.isConst() {
		return in.interpret(fr, fn, []value{t.str})
	}
	var ph []string
	var ts []*Term
	s := ""
	for i, p := range c.pieces(t) {
		if p.op == OConst {
			s += p.str
			continue
		}
		k := fmt.Sprintf("zq%dqz", i)
		ph, ts = append(ph, k), append(ts, p)
		s += k
	}
	u, err := url.Parse(s)
	if err != nil {
		// constant parts decide (placeholders are letters and digits)
		for _, p := range ts {
			if !subset(c.chars(p), unreserved) {
				panic(unsupported("url.Parse of %s", t))
			}
		}
		return tuple{(*value)(nil), in.mkErr(in.opaque("url"))}
	}
	find := func(field string, safe charset, what string) {
		for i, p := range ph {
			if strings.Contains(field, p) && !subset(c.chars(ts[i]), safe) {
				panic(unsupported("url.Parse: %s with characters of %s", what, ts[i]))
			}
		}
	}
	if u.User != nil || u.Opaque != "" {
		panic(unsupported("url.Parse of %s", t))
	}
	hostSafe := setOf("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.~")
	find(u.Scheme, charset{}, "scheme")
	if k := strings.LastIndex(u.Host, ":"); k >= 0 {
		find(u.Host[k:], setOf("0123456789"), "port")
	}
	find(u.Host, hostSafe, "host")
	q := unreserved
	if u.RawPath != "" {
		find(u.RawPath, charset{}, "escaped path")
	}
	pathOK := pathSafe
	if u.Scheme == "" || u.Host == "" {
		pathOK = q
		for _, b := range []byte("/") {
			pathOK.add(b)
		}
		if !strings.HasPrefix(u.Path, "/") || strings.HasPrefix(u.Path, "/zq") {
			pathOK.del('/')
		}
	}
	find(u.Path, pathOK, "path")
	qs := asciiSet
	for b := 0; b < 0x20; b++ {
		qs.del(byte(b))
	}
	qs.del(0x7f)
	qs.del('#')
	find(u.RawQuery, qs, "query")
	find(u.Fragment, modeSafe(modeFragment), "fragment")
	p, ut := in.newStruct("net/url", "URL")
	set := func(n, v string) { in.setField(p, ut, n, in.subst(v, ph, ts)) }
	set("Scheme", u.Scheme)
	set("Host", u.Host)
	set("Path", u.Path)
	set("RawPath", u.RawPath)
	set("RawQuery", u.RawQuery)
	set("Fragment", u.Fragment)
	set("RawFragment", u.RawFragment)
	in.setField(p, ut, "ForceQuery", u.ForceQuery)
	in.setField(p, ut, "OmitHost", u.OmitHost)
	return tuple{p, nilErr}
}

// ---- base64 ------------------------------------------------------------------------

type b64Ent struct {
	enc  *Term
	src  *symBytes
	alph string
}

func (in *Interp) b64() *[]*b64Ent {
	l, ok := in.side["base64"].(*[]*b64Ent)
	if !ok {
		l = &[]*b64Ent{}
		in.side["base64"] = l
	}
	return l
}

// encoding reads a *base64.Encoding value.
func (in *Interp) encoding(v value) (enc *base64.Encoding, alph string, pad rune, strict bool) {
	t := in.prog.typeOf("encoding/base64", "Encoding")
	p := v.(*value)
	var ab []byte
	switch x := in.getField(p, t, "encode").(type) {
	case array:
		for _, b := range x {
			z, _ := bigOf(b)
			ab = append(ab, byte(z.Int64()))
		}
	default:
		panic(unsupported("base64 encoding %T", x))
	}
	z, _ := bigOf(in.getField(p, t, "padChar"))
	pad = rune(z.Int64())
	strict, _ = in.getField(p, t, "strict").(bool)
	enc = base64.NewEncoding(string(ab)).WithPadding(pad)
	if strict {
		enc = enc.Strict()
	}
	return enc, string(ab), pad, strict
}

func bytesVal(s string) []value {
	out := make([]value, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = uint64(s[i])
	}
	return out
}

func (in *Interp) b64Encode(fr *frame, fn *ssa.Function, a []value) value {
	enc, alph, pad, _ := in.encoding(a[0])
	c := in.c()
	t := c.norm(in.bytesTerm(a[1]))
	if t.isConst() {
		return enc.EncodeToString([]byte(t.str))
	}
	for _, e := range *in.b64() {
		if e.alph == alph && c.norm(e.src.t) == t {
			return e.enc
		}
	}
	m := ""
	if !in.p.unk {
		s, _ := c.Eval(t, in.p.model).(string)
		m = enc.EncodeToString([]byte(s))
	}
	cs := setOf(alph)
	if pad > 0 {
		cs.add(byte(pad))
	}
	e := &b64Ent{enc: in.freshStr("b64", cs, m), alph: alph}
	if sb, ok := a[1].(*symBytes); ok {
		e.src = sb
	} else {
		e.src = &symBytes{t: t}
	}
	in.p.Assume(c.Eq(c.Eq(e.enc, c.Str("")), c.Eq(t, c.Str(""))))
	for _, o := range *in.b64() {
		if o.alph == alph {
			in.p.Assume(c.Eq(c.Eq(e.enc, o.enc), c.Eq(t, o.src.t)))
		}
	}
	l := in.b64()
	*l = append(*l, e)
	return e.enc
}

func (in *Interp) b64Corrupt(at int) value {
	return iface{in.prog.typeOf("encoding/base64", "CorruptInputError"), int64(at)}
}

func (in *Interp) b64Decode(fr *frame, fn *ssa.Function, a []value) value {
	enc, alph, pad, _ := in.encoding(a[0])
	c := in.c()
	t := c.norm(in.term(a[1]))
	if t.isConst() {
		b, err := enc.DecodeString(t.str)
		var e value = nilErr
		if err != nil {
			var ce base64.CorruptInputError
			if errors.As(err, &ce) {
				e = in.b64Corrupt(int(ce))
			} else {
				e = in.mkErr(err.Error())
			}
		}
		return tuple{bytesVal(string(b)), e}
	}
	// segments of generated tokens
	if d, ok := in.segments()[t]; ok {
		if pad == base64.NoPadding && alph[62] == '-' {
			return tuple{d, nilErr}
		}
		panic(unsupported("token segment decoded with another alphabet"))
	}
	for _, e := range *in.b64() {
		if c.norm(e.enc) == t {
			if e.alph == alph {
				return tuple{e.src, nilErr}
			}
			panic(unsupported("base64 decoded with another alphabet"))
		}
	}
	if pad == base64.NoPadding {
		// a token segment that no generated token has: never a JSON document
		return tuple{[]value(nil), in.b64Corrupt(0)}
	}
	// a text of unknown content: run the decoder over its characters
	var chars []*Term
	for _, p := range c.pieces(t) {
		if p.op != OConst && p.op != OFromCode {
			if _, mx := c.lenBounds(p); mx < 0 || mx > 24 {
				panic(unsupported("base64 of a long unknown text"))
			}
			in.p.Concrete(c.Len(p), 24)
		}
	}
	bs, ok := in.fixedBytes(in.explodeSmall(c.norm(t)))
	if !ok {
		panic(unsupported("base64 of %s", t))
	}
	for _, b := range bs {
		chars = append(chars, in.term(b))
	}
	return in.b64Chars(chars, alph, pad)
}

// b64Value is the value of a base64 digit, the same variable for every use of
// the digit.
func (in *Interp) b64Value(x *Term, last string) *Term {
	c := in.c()
	type key struct {
		x    *Term
		last string
	}
	is62, is63 := c.Eq(x, c.Int(int64(last[0]))), c.Eq(x, c.Int(int64(last[1])))
	if last == "-_" || last == "+/" {
		last = ""
		is62 = c.Or(c.Eq(x, c.Int('-')), c.Eq(x, c.Int('+')))
		is63 = c.Or(c.Eq(x, c.Int('_')), c.Eq(x, c.Int('/')))
	}
	if v, ok := in.side[key{x, last}].(*Term); ok {
		return v
	}
	inR := func(lo, hi byte) *Term { return c.And(c.Le(c.Int(int64(lo)), x), c.Le(x, c.Int(int64(hi)))) }
	r := c.Ite(inR('A', 'Z'), c.Add(x, c.Int(-int64('A'))),
		c.Ite(inR('a', 'z'), c.Add(x, c.Int(26-int64('a'))),
			c.Ite(inR('0', '9'), c.Add(x, c.Int(52-int64('0'))),
				c.Ite(is62, c.Int(62), c.Ite(is63, c.Int(63), c.Int(0))))))
	v := c.Fresh("b64v", SInt)
	c.info[v].lo, c.info[v].hi = big.NewInt(0), big.NewInt(63)
	if !in.p.unk {
		in.p.model[v] = c.Eval(r, in.p.model)
	}
	in.p.pc = append(in.p.pc, c.mk(&Term{op: OEq, sort: SBool, args: []*Term{v, r}}))
	in.side[key{x, last}] = v
	return v
}

// b64Chars is the decoder of encoding/base64 over symbolic characters.
func (in *Interp) b64Chars(chars []*Term, alph string, pad rune) value {
	c := in.c()
	memb := func(x *Term, set string) *Term {
		var or []*Term
		for i := 0; i < len(set); {
			j := i
			for j+1 < len(set) && set[j+1] == set[j]+1 {
				j++
			}
			or = append(or, c.And(c.Le(c.Int(int64(set[i])), x), c.Le(x, c.Int(int64(set[j])))))
			i = j + 1
		}
		return c.Or(or...)
	}
	val := func(x *Term) *Term { return in.b64Value(x, alph[62:]) }
	var out []value
	emit := func(t *Term) { out = append(out, in.lower(t, types.Typ[types.Uint8])) }
	fail := func(at int) value { return tuple{out, in.b64Corrupt(at)} }
	flush := func(q []*Term, n int) {
		if n >= 2 {
			emit(c.Add(c.MulC(q[0], big.NewInt(4)), c.Div(q[1], big.NewInt(16))))
		}
		if n >= 3 {
			emit(c.Add(c.MulC(c.Mod(q[1], big.NewInt(16)), big.NewInt(16)), c.Div(q[2], big.NewInt(4))))
		}
		if n >= 4 {
			emit(c.Add(c.MulC(c.Mod(q[2], big.NewInt(4)), big.NewInt(64)), q[3]))
		}
	}
	i := 0
	for i < len(chars) {
		var q []*Term
		for j := 0; j < 4; j++ {
			if i == len(chars) {
				switch {
				case j == 0:
					return tuple{out, nilErr}
				case j == 1 || pad > 0:
					return fail(i - j)
				}
				flush(q, j)
				return tuple{out, nilErr}
			}
			x := chars[i]
			i++
			if in.truth(in.lowerBool(memb(x, alph))) {
				q = append(q, val(x))
				continue
			}
			if in.truth(in.lowerBool(c.Or(c.Eq(x, c.Int('\n')), c.Eq(x, c.Int('\r'))))) {
				j--
				continue
			}
			if pad <= 0 || !in.truth(in.lowerBool(c.Eq(x, c.Int(int64(pad))))) {
				return fail(i - 1)
			}
			switch j {
			case 0, 1:
				return fail(i - 1)
			case 2:
				for i < len(chars) && in.truth(in.lowerBool(c.Or(c.Eq(chars[i], c.Int('\n')), c.Eq(chars[i], c.Int('\r'))))) {
					i++
				}
				if i == len(chars) {
					return fail(len(chars))
				}
				if !in.truth(in.lowerBool(c.Eq(chars[i], c.Int(int64(pad))))) {
					return fail(i - 1)
				}
				i++
			}
			for i < len(chars) && in.truth(in.lowerBool(c.Or(c.Eq(chars[i], c.Int('\n')), c.Eq(chars[i], c.Int('\r'))))) {
				i++
			}
			flush(q, j)
			if i < len(chars) {
				return fail(i)
			}
			return tuple{out, nilErr}
		}
		flush(q, 4)
	}
	return tuple{out, nilErr}
}

// ---- JSON ------------------------------------------------------------------------------

// doc is a JSON document.
type doc struct {
	kind string // null bool number string array object invalid
	s    value
	n    value // float64 or *symFloat
	b    value
	arr  []*doc
	keys []string
}

type decKey struct{ p *value }
type decState struct {
	r    value
	done bool
}

func parseDoc(b []byte) (*doc, error) {
	var x any
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.UseNumber()
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	return docTok(d, t, &x)
}

func docTok(d *json.Decoder, t json.Token, _ *any) (*doc, error) {
	switch x := t.(type) {
	case nil:
		return &doc{kind: "null"}, nil
	case bool:
		return &doc{kind: "bool", b: x}, nil
	case json.Number:
		f, err := x.Float64()
		if err != nil {
			return nil, err
		}
		return &doc{kind: "number", n: f}, nil
	case string:
		return &doc{kind: "string", s: x}, nil
	case json.Delim:
		r := &doc{kind: "array"}
		if x == '{' {
			r.kind = "object"
		}
		for d.More() {
			if x == '{' {
				k, err := d.Token()
				if err != nil {
					return nil, err
				}
				r.keys = append(r.keys, k.(string))
			}
			v, err := d.Token()
			if err != nil {
				return nil, err
			}
			e, err := docTok(d, v, nil)
			if err != nil {
				return nil, err
			}
			r.arr = append(r.arr, e)
		}
		_, err := d.Token()
		return r, err
	}
	return nil, errors.New("json")
}

// docOf gives the document of a byte slice value; empty reports no content.
func (in *Interp) docOf(b value) (d *doc, empty bool) {
	if sb, ok := b.(*symBytes); ok {
		if d, ok := sb.aux.(*doc); ok {
			return d, false
		}
	}
	if isNilSlice(b) {
		return nil, true
	}
	t := in.c().norm(in.bytesTerm(b))
	if !t.isConst() {
		panic(unsupported("JSON text %s", t))
	}
	if strings.TrimSpace(t.str) == "" {
		return nil, true
	}
	d, err := parseDoc([]byte(t.str))
	if err != nil {
		return &doc{kind: "invalid"}, false
	}
	return d, false
}

// errText is the message of a library's error: any text, or where the log is
// read (and the text cannot matter otherwise) one of the kind the library gives.
func (in *Interp) errText(name, like string) *Term {
	if in.side["log"] != nil {
		return in.c().Str(like)
	}
	return in.opaque(name)
}

func (in *Interp) syntaxErr(msg value) value {
	p, t := in.newStruct("encoding/json", "SyntaxError")
	in.setField(p, t, "msg", msg)
	return iface{types.NewPointer(t), p}
}

// jsonInto decodes d into the variable p of type t; the first type mismatch is
// returned after everything else has been decoded.
func (in *Interp) jsonInto(fr *frame, d *doc, t types.Type, p *value) (err value) {
	keep := func(e value) {
		if e != nil && err == nil {
			err = e
		}
	}
	mismatch := func() {
		keep(in.mkErr(in.errText("json.type", "json: cannot unmarshal "+d.kind+" into Go value of type "+t.String())))
	}
	if named, ok := types.Unalias(t).(*types.Named); ok {
		if in.prog.method(types.NewPointer(named), "UnmarshalJSON") != nil && d.kind != "null" {
			b := &symBytes{t: in.opaque("json"), aux: d}
			r := in.callMethod(fr, iface{types.NewPointer(named), p}, "UnmarshalJSON", b)
			if e := r.(iface); e.t != nil {
				keep(e)
			}
			return
		}
		if in.prog.method(types.NewPointer(named), "UnmarshalText") != nil {
			panic(unsupported("json: UnmarshalText of %s", t))
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if d.kind == "null" {
			*p = (*value)(nil)
			return
		}
		q, _ := (*p).(*value)
		if q == nil {
			q = new(value)
			*q = zero(u.Elem())
			*p = q
		}
		keep(in.jsonInto(fr, d, u.Elem(), q))
	case *types.Interface:
		if u.NumMethods() != 0 {
			mismatch()
			return
		}
		if f, ok := (*p).(iface); ok && f.t != nil && d.kind != "null" {
			if pt, ok := f.t.Underlying().(*types.Pointer); ok && !isNilPtr(f.v) {
				keep(in.jsonInto(fr, d, pt.Elem(), f.v.(*value)))
				return
			}
		}
		*p = in.jsonAny(d)
	case *types.Struct:
		switch d.kind {
		case "null":
		case "object":
			for i, k := range d.keys {
				fi := jsonField(u, k)
				if fi == nil {
					continue
				}
				q, ft := p, t
				for _, ix := range fi {
					st := ft.Underlying().(*types.Struct)
					q = &(*q).(structure)[ix]
					ft = st.Field(ix).Type()
				}
				keep(in.jsonInto(fr, d.arr[i], ft, q))
			}
		default:
			mismatch()
		}
	case *types.Map:
		switch d.kind {
		case "null":
			*p = zero(t)
		case "object":
			m, _ := (*p).(*hashmap)
			if m == nil {
				m = newMap(u.Key())
				*p = m
			}
			for i, k := range d.keys {
				q := new(value)
				*q = zero(u.Elem())
				keep(in.jsonInto(fr, d.arr[i], u.Elem(), q))
				in.mapSet(m, k, *q)
			}
		default:
			mismatch()
		}
	case *types.Slice:
		switch {
		case d.kind == "null":
			*p = zero(t)
		case d.kind == "array":
			out := make([]value, len(d.arr))
			for i, e := range d.arr {
				out[i] = zero(u.Elem())
				keep(in.jsonInto(fr, e, u.Elem(), &out[i]))
			}
			*p = out
		case d.kind == "string" && isByteSlice(t):
			panic(unsupported("json: []byte"))
		default:
			mismatch()
		}
	case *types.Basic:
		switch {
		case d.kind == "null":
		case u.Info()&types.IsString != 0 && d.kind == "string":
			*p = d.s
		case u.Info()&types.IsBoolean != 0 && d.kind == "bool":
			*p = d.b
		case u.Info()&types.IsFloat != 0 && d.kind == "number":
			*p = d.n
		case u.Info()&types.IsInteger != 0 && d.kind == "number":
			switch f := d.n.(type) {
			case float64:
				z, acc := big.NewFloat(f).Int(nil)
				bits, signed, _ := intInfo(t)
				lo, hi := intRange(bits, signed)
				if acc != big.Exact || z.Cmp(lo) < 0 || z.Cmp(hi) > 0 {
					mismatch()
				} else {
					*p = mkInt(z, t)
				}
			case *symFloat:
				if f.half != nil && in.truth(in.lowerBool(f.half)) {
					mismatch()
					return
				}
				bits, signed, _ := intInfo(t)
				lo, hi := intRange(bits, signed)
				c := in.c()
				if in.truth(in.lowerBool(c.And(c.Le(c.Big(lo), f.n), c.Le(f.n, c.Big(hi))))) {
					*p = in.lower(f.n, t)
				} else {
					mismatch()
				}
			}
		default:
			mismatch()
		}
	default:
		panic(unsupported("json into %s", t))
	}
	return
}

func (in *Interp) jsonAny(d *doc) value {
	switch d.kind {
	case "null":
		return iface{}
	case "bool":
		return iface{types.Typ[types.Bool], d.b}
	case "number":
		return iface{types.Typ[types.Float64], d.n}
	case "string":
		return iface{types.Typ[types.String], d.s}
	case "array":
		out := make([]value, len(d.arr))
		for i, e := range d.arr {
			out[i] = in.jsonAny(e)
		}
		return iface{types.NewSlice(types.NewInterfaceType(nil, nil)), out}
	case "object":
		m := newMap(types.Typ[types.String])
		for i, k := range d.keys {
			in.mapSet(m, k, in.jsonAny(d.arr[i]))
		}
		return iface{types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), m}
	}
	panic(unsupported("json %s", d.kind))
}

// jsonField finds the field a JSON key is decoded into.
func jsonField(st *types.Struct, key string) []int {
	var folded []int
	var walk func(st *types.Struct, pre []int, depth int) []int
	walk = func(st *types.Struct, pre []int, depth int) []int {
		var embedded [][]int
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("json")
			name, _, _ := strings.Cut(tag, ",")
			path := append(append([]int{}, pre...), i)
			if tag == "-" {
				continue
			}
			if f.Embedded() && name == "" {
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					embedded = append(embedded, path)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			if name == key {
				return path
			}
			if folded == nil && strings.EqualFold(name, key) {
				folded = path
			}
		}
		for _, e := range embedded {
			sub := st.Field(e[len(e)-1]).Type().Underlying().(*types.Struct)
			if r := walk(sub, e, depth+1); r != nil {
				return r
			}
		}
		return nil
	}
	if r := walk(st, nil, 0); r != nil {
		return r
	}
	return folded
}

// readerBytes unwraps the readers the code under analysis builds and takes
// what is left to read.
func (in *Interp) readerBytes(r value) value {
	f, ok := r.(iface)
	if !ok || f.t == nil {
		in.gopanic("invalid memory address or nil pointer dereference")
	}
	name := types.TypeString(f.t, nil)
	switch name {
	case "io.nopCloser", "io.nopCloserWriterTo":
		return in.readerBytes(f.v.(structure)[0])
	case "net/http.noBody":
		return []value{}
	case "*net/http.cancelTimerBody":
		return in.readerBytes(in.getField(f.v.(*value), deref(f.t), "rc"))
	case "*io.LimitedReader":
		return in.readerBytes(in.getField(f.v.(*value), deref(f.t), "R"))
	case "*strings.Reader", "*bytes.Reader":
		p, t := f.v.(*value), deref(f.t)
		s := in.getField(p, t, "s")
		if i, ok := in.getField(p, t, "i").(int64); !ok || i != 0 {
			return []value{}
		}
		in.setField(p, t, "i", in.lenOf(s))
		switch x := s.(type) {
		case string, *Term:
			return in.strToBytes(x)
		default:
			return x
		}
	case "*bytes.Buffer":
		p, t := f.v.(*value), deref(f.t)
		b := in.getField(p, t, "buf")
		in.setField(p, t, "buf", []value(nil))
		return b
	}
	if st, ok := deref(f.t).Underlying().(*types.Struct); ok && strings.HasSuffix(name, "zzverif.Reader") {
		_ = st
		p, t := f.v.(*value), deref(f.t)
		if in.truth(in.getField(p, t, "used")) {
			return []value{}
		}
		in.setField(p, t, "used", true)
		return in.getField(p, t, "B")
	}
	panic(unsupported("reader %s", name))
}

// ---- registration ------------------------------------------------------------------------

func nativesNet() {
	nat2("net/url.Parse", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value { return in.urlParse(fr, fn, a) })
	nat2("net/url.escape", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		s := in.simp(a[0])
		mode := in.concInt(a[1])
		if x, ok := s.(string); ok {
			if r, ok := realEscape(x, mode); ok {
				return r
			}
			return in.interpret(fr, fn, a)
		}
		c := in.c()
		var out []*Term
		for _, p := range c.pieces(s.(*Term)) {
			switch {
			case p.op == OConst:
				if r, ok := realEscape(p.str, mode); ok {
					out = append(out, c.Str(r))
				} else {
					out = append(out, in.term(in.interpret(fr, fn, []value{p.str, a[1]})))
				}
			case subset(c.chars(p), modeSafe(mode)):
				out = append(out, p)
			case mode == modeQueryComponent:
				if p.op != OVar {
					p = in.abstract(p)
				}
				out = append(out, in.escapeVar(p))
			default:
				panic(unsupported("url escape of %s", p))
			}
		}
		return in.lowerStr(c.Concat(out...))
	})
	nat2("net/url.unescape", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		s := in.simp(a[0])
		mode := in.concInt(a[1])
		if _, ok := s.(string); ok {
			return in.interpret(fr, fn, a)
		}
		c := in.c()
		special := setOf("%+")
		if mode != modeQueryComponent {
			special = setOf("%")
		}
		var out []*Term
	pieces:
		for _, p := range c.pieces(s.(*Term)) {
			if p.op == OConst {
				r := in.interpret(fr, fn, []value{p.str, a[1]}).(tuple)
				if r[1].(iface).t != nil {
					return r
				}
				out = append(out, in.term(r[0]))
				continue
			}
			if mode == modeQueryComponent {
				for _, e := range *in.escapes() {
					if c.norm(e.enc) == p {
						out = append(out, c.norm(e.orig))
						continue pieces
					}
				}
			}
			if c.chars(p).inter(special).count() == 0 && (mode != modeHost || subset(c.chars(p), unreserved)) {
				out = append(out, p)
				continue
			}
			panic(unsupported("url unescape of %s", p))
		}
		return tuple{in.lowerStr(c.Concat(out...)), nilErr}
	})
	nat2("(*encoding/base64.Encoding).EncodeToString", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		return in.b64Encode(fr, fn, a)
	})
	nat2("(*encoding/base64.Encoding).DecodeString", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		return in.b64Decode(fr, fn, a)
	})
	notImpl("(*encoding/base64.Encoding).Decode", "(*encoding/base64.Encoding).Encode", "encoding/base64.NewDecoder")

	nat("net/textproto.CanonicalMIMEHeaderKey", func(in *Interp, fr *frame, a []value) value {
		return textproto.CanonicalMIMEHeaderKey(in.concStr(a[0]))
	})

	// cookies
	tok := func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		s := in.simp(a[0])
		c := in.c()
		t := in.term(s)
		return in.lowerBool(c.And(c.Not(c.Eq(t, c.Str(""))), in.allIn(t, tokenSet)))
	}
	nat2("net/http.isCookieNameValid", tok)
	nat2("net/http.isToken", tok)
	nat2("net/http.parseCookieValue", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		c := in.c()
		t := in.term(in.simp(a[0]))
		quoted := false
		if in.truth(a[1]) && c.canContain(t, "\"") {
			q := c.Str("\"")
			long := c.Lt(c.Int(1), c.Len(t))
			if in.truth(in.lowerBool(c.And(long, c.Prefix(q, t), c.Suffix(q, t)))) {
				t = c.norm(t)
				t = c.Substr(t, c.Int(1), c.Sub(c.Len(t), c.Int(2)))
				quoted = true
			}
		}
		t = c.norm(t)
		if !in.truth(in.lowerBool(in.allIn(t, cookieSet))) {
			return tuple{"", quoted, false}
		}
		return tuple{in.lowerStr(c.norm(t)), quoted, true}
	})
	nat2("net/http.sanitizeCookieValue", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		s := in.simp(a[0])
		if _, ok := s.(string); ok {
			return in.interpret(fr, fn, a)
		}
		c := in.c()
		t := s.(*Term)
		cs := cookieSet
		cs.del(' ')
		cs.del(',')
		if q, ok := a[1].(bool); ok && !q && in.truth(in.lowerBool(in.allIn(t, cs))) {
			return t
		}
		_ = c
		panic(unsupported("cookie value %s", t))
	})
	nat2("net/http.sanitizeCookiePath", func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
		s := in.simp(a[0])
		if _, ok := s.(string); ok {
			return in.interpret(fr, fn, a)
		}
		cs := asciiSet
		for b := 0; b < 0x20; b++ {
			cs.del(byte(b))
		}
		cs.del(0x7f)
		cs.del(';')
		if in.truth(in.lowerBool(in.allIn(s.(*Term), cs))) {
			return in.simp(s)
		}
		panic(unsupported("cookie path"))
	})

	// io
	for _, n := range []string{"io.ReadAll", "io/ioutil.ReadAll"} {
		nat(n, func(in *Interp, fr *frame, a []value) value {
			return tuple{in.readerBytes(a[0]), nilErr}
		})
	}
	nat("io.Copy", func(in *Interp, fr *frame, a []value) value {
		b := in.readerBytes(a[1])
		d := a[0].(iface)
		if strings.HasPrefix(types.TypeString(d.t, nil), "io.discard") {
			return tuple{in.lenOf(b), nilErr}
		}
		panic(unsupported("io.Copy"))
	})

	// JSON
	nat("encoding/json.NewDecoder", func(in *Interp, fr *frame, a []value) value {
		p, _ := in.newStruct("encoding/json", "Decoder")
		in.side[decKey{p}] = &decState{r: a[0]}
		return p
	})
	notImpl("(*encoding/json.Decoder).UseNumber", "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Decoder).More",
		"(*encoding/json.Decoder).Token", "(*encoding/json.Decoder).Buffered", "(*encoding/json.Decoder).InputOffset",
		"encoding/json.Marshal", "encoding/json.MarshalIndent", "encoding/json.NewEncoder")
	decode := func(in *Interp, fr *frame, b value, v value, eof bool) value {
		d, empty := in.docOf(b)
		if empty {
			if eof {
				return in.globalVar("io", "EOF")
			}
			return in.syntaxErr("unexpected end of JSON input")
		}
		if d.kind == "invalid" {
			return in.syntaxErr(in.errText("json", "invalid character looking for beginning of value"))
		}
		f, ok := v.(iface)
		if !ok || f.t == nil {
			return in.mkErr("json: Unmarshal(nil)")
		}
		pt, ok := f.t.Underlying().(*types.Pointer)
		if !ok || isNilPtr(f.v) {
			return in.mkErr("json: Unmarshal(non-pointer)")
		}
		// a custom decoder of the destination
		if err := in.jsonInto(fr, d, pt.Elem(), f.v.(*value)); err != nil {
			return err
		}
		return nilErr
	}
	nat("(*encoding/json.Decoder).Decode", func(in *Interp, fr *frame, a []value) value {
		st, ok := in.side[decKey{a[0].(*value)}].(*decState)
		if !ok {
			panic(unsupported("json decoder"))
		}
		if st.done {
			return in.globalVar("io", "EOF")
		}
		st.done = true
		return decode(in, fr, in.readerBytes(st.r), a[1], true)
	})
	nat("encoding/json.Unmarshal", func(in *Interp, fr *frame, a []value) value { return decode(in, fr, a[0], a[1], false) })
	nat("encoding/json.Valid", func(in *Interp, fr *frame, a []value) value {
		d, empty := in.docOf(a[0])
		return !empty && d.kind != "invalid"
	})

	// HTTP
	nat("(*net/http.Client).Do", func(in *Interp, fr *frame, a []value) value {
		cp, _ := a[0].(*value)
		rp, _ := a[1].(*value)
		if cp == nil || rp == nil {
			in.gopanic("invalid memory address or nil pointer dereference")
		}
		rt := in.prog.typeOf("net/http", "Request")
		ut := in.prog.typeOf("net/url", "URL")
		up, _ := in.getField(rp, rt, "URL").(*value)
		if up == nil {
			return tuple{(*value)(nil), in.mkErr("http: nil Request.URL")}
		}
		if u, ok := in.getField(up, ut, "User").(*value); ok && u != nil {
			panic(unsupported("credentials in URL"))
		}
		ct := in.prog.typeOf("net/http", "Client")
		tr, _ := in.getField(cp, ct, "Transport").(iface)
		if tr.t == nil || types.TypeString(tr.t, nil) == "*net/http.Transport" {
			tr, _ = in.side["transport"].(iface)
			if tr.t == nil {
				panic(unsupported("HTTP request without a stub transport"))
			}
		}
		if d, ok := in.getField(cp, ct, "Timeout").(int64); ok && d > 0 {
			// the request is given a deadline
			q := new(value)
			*q = copyVal(*rp)
			parent, _ := in.getField(rp, rt, "ctx").(iface)
			if parent.t == nil {
				parent = in.call(fr, in.prog.fn("context", "Background"), nil, nil).(iface)
			}
			t := in.call(fr, in.prog.fn("context", "WithTimeout"), []value{parent, d}, nil).(tuple)
			in.setField(q, rt, "ctx", t[0])
			rp = q
		}
		in.httpSeq++
		in.yield("http request")
		r := in.callMethod(fr, tr, "RoundTrip", rp).(tuple)
		in.yield("http response")
		if e := r[1].(iface); e.t != nil {
			p, t := in.newStruct("net/url", "Error")
			m := in.getField(rp, rt, "Method")
			op := "Get"
			if s, ok := m.(string); ok && s != "" {
				op = s[:1] + strings.ToLower(s[1:])
			}
			in.setField(p, t, "Op", op)
			in.setField(p, t, "URL", in.call(fr, in.prog.method(types.NewPointer(ut), "String"), []value{up}, nil))
			in.setField(p, t, "Err", e)
			return tuple{(*value)(nil), iface{types.NewPointer(t), p}}
		}
		if isNilPtr(r[0]) {
			panic(unsupported("transport without response"))
		}
		return tuple{r[0], nilErr}
	})
	notImpl("(*net/http.Transport).RoundTrip")
	// a context with a deadline; it is never reached
	nat("context.WithDeadlineCause", func(in *Interp, fr *frame, a []value) value {
		p, t := in.newStruct("context", "timerCtx")
		in.setField(p, t, "deadline", copyVal(a[1]))
		parent := a[0].(iface)
		in.setField(p, t, "Context", parent)
		r := in.callMethod(fr, parent, "Deadline").(tuple)
		if has, _ := in.simp(r[1]).(bool); has {
			before := in.prog.method(in.prog.typeOf("time", "Time"), "Before")
			if b, _ := in.simp(in.call(fr, before, []value{copyVal(r[0]), copyVal(a[1])}, nil)).(bool); b {
				in.setField(p, t, "deadline", r[0])
			}
		}
		nop := &nativeFn{f: func(in *Interp, a []value) value { return nil }}
		return tuple{iface{types.NewPointer(t), p}, nop}
	})
}
