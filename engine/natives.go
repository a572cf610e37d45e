package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions. Everything not listed here is executed from its
// SSA like the code under analysis.

var natTab map[string]nativeImpl

func nat(name string, f func(in *Interp, fr *frame, a []value) value) {
	if _, dup := natTab[name]; dup {
		panic("duplicate native " + name)
	}
	natTab[name] = func(in *Interp, fr *frame, fn *ssa.Function, a []value) value { return f(in, fr, a) }
}

func buildNatives() map[string]nativeImpl {
	natTab = map[string]nativeImpl{}
	nativesStrings()
	nativesSync()
	nativesMisc()
	nativesNet()
	nativesSec()
	nativesZZ()
	nativesLog()
	return natTab
}

// ---- helpers -----------------------------------------------------------------

// newStruct allocates a zero value of a named struct type.
func (in *Interp) newStruct(pkg, name string) (*value, types.Type) {
	t := in.prog.typeOf(pkg, name)
	p := new(value)
	*p = zero(t)
	return p, t
}

func (in *Interp) setField(p *value, t types.Type, name string, v value) {
	*fieldPtr(*p, t, name) = v
}

func (in *Interp) getField(p *value, t types.Type, name string) value {
	return *fieldPtr(*p, t, name)
}

// mkErr is errors.New(msg).
func (in *Interp) mkErr(msg value) value {
	t := in.prog.typeOf("errors", "errorString")
	p := new(value)
	*p = structure{msg}
	return iface{types.NewPointer(t), p}
}

func (in *Interp) globalVar(pkg, name string) value {
	q := in.prog.pkgs[pkg]
	if q == nil {
		panic(unsupported("package %s", pkg))
	}
	g, ok := q.Members[name].(*ssa.Global)
	if !ok {
		panic(unsupported("global %s.%s", pkg, name))
	}
	v := *in.global(g)
	if p, ok := v.(poison); ok {
		panic(unsupported("%s", p.why))
	}
	return v
}

var nilErr = iface{}

// callMethod calls a method of an interface value by name.
func (in *Interp) callMethod(fr *frame, v iface, name string, args ...value) value {
	if o, ok := v.v.(*nativeObj); ok {
		m := o.methods[name]
		if m == nil {
			panic(unsupported("method %s of native %s", name, o.kind))
		}
		return m(in, args)
	}
	f := in.prog.method(v.t, name)
	if f == nil {
		panic(unsupported("no method %s on %s", name, v.t))
	}
	return in.call(fr, f, append([]value{copyVal(v.v)}, args...), nil)
}

func (in *Interp) hasMethod(v iface, name string) bool {
	if v.t == nil {
		return false
	}
	if o, ok := v.v.(*nativeObj); ok {
		return o.methods[name] != nil
	}
	return in.prog.method(v.t, name) != nil
}

// sliceTerm is the content of a []byte.
func (in *Interp) bytesTerm(v value) *Term {
	switch x := v.(type) {
	case []value:
		return in.term(in.bytesToStr(x))
	case *symBytes:
		return in.c().norm(x.t)
	}
	panic(unsupported("bytes %T", v))
}

// vargs are the arguments of a variadic call.
func vargs(v value) []value {
	s, _ := v.([]value)
	return s
}

func strSliceVal(ss []value) value { return []value(ss) }

func (in *Interp) strList(v value) []value {
	s, ok := v.([]value)
	if !ok {
		panic(unsupported("[]string %T", v))
	}
	return s
}

func concStrings(vs ...value) ([]string, bool) {
	out := make([]string, len(vs))
	for i, v := range vs {
		s, ok := v.(string)
		if !ok {
			return nil, false
		}
		out[i] = s
	}
	return out, true
}

func (in *Interp) simpAll(a []value) []value {
	out := make([]value, len(a))
	for i, v := range a {
		out[i] = in.simp(v)
	}
	return out
}

// ---- strings -------------------------------------------------------------------

// resolve makes the first occurrence of the separator sep in s structural: the
// result says whether there is one and gives the text before and after it.
func (in *Interp) cutFirst(s *Term, sep string) (before, after *Term, found bool) {
	c := in.c()
	for iter := 0; ; iter++ {
		if iter > 60 {
			panic(unsupported("cut: too many steps"))
		}
		s = c.norm(s)
		if !c.canContain(s, sep) {
			return s, c.Str(""), false
		}
		ps := c.pieces(s)
		if len(sep) == 1 {
			again := false
			for i, p := range ps {
				if p.op == OConst {
					if k := strings.Index(p.str, sep); k >= 0 {
						b := append(append([]*Term{}, ps[:i]...), c.Str(p.str[:k]))
						a := append([]*Term{c.Str(p.str[k+1:])}, ps[i+1:]...)
						return c.Concat(b...), c.Concat(a...), true
					}
					continue
				}
				if !c.canContain(p, sep) {
					continue
				}
				switch p.op {
				case OFromCode:
					if in.p.Branch(c.Eq(p.args[0], c.Int(int64(sep[0])))) {
						return c.Concat(ps[:i]...), c.Concat(ps[i+1:]...), true
					}
				default:
					in.p.Branch(c.Contains(p, c.Str(sep)))
					if p.op != OVar {
						p = in.abstract(p)
						ps = append(append(append([]*Term{}, ps[:i]...), p), ps[i+1:]...)
						s = c.Concat(ps...)
					}
				}
				again = true
				break
			}
			if !again {
				return s, c.Str(""), false
			}
			continue
		}
		// longer separators: structural when only literals can hold them
		if b, a, ok, known := in.cutLiteral(ps, sep); known {
			if !ok {
				return s, c.Str(""), false
			}
			return b, a, true
		}
		if !in.p.Branch(c.Contains(s, c.Str(sep))) {
			return s, c.Str(""), false
		}
		s = c.norm(s)
		if b, a, ok, known := in.cutLiteral(c.pieces(s), sep); known && ok {
			return b, a, true
		}
		cut := func(t *Term) (string, string) {
			if in.p.unk {
				return "", ""
			}
			m, _ := in.p.ctx.Eval(t, in.p.model).(string)
			x, y, _ := strings.Cut(m, sep)
			return x, y
		}
		x, y := cut(s)
		a := in.freshStr("cut.a", c.chars(s), x)
		b := in.freshStr("cut.b", c.chars(s), y)
		// a ++ sep[:len-1] does not contain sep: the occurrence is the first one
		in.p.assertCond(c.Not(c.Contains(c.Concat(a, c.Str(sep[:len(sep)-1])), c.Str(sep))))
		in.p.assertCond(c.Eq(s, c.Concat(a, c.Str(sep), b)))
		return c.norm(a), c.norm(b), true
	}
}

// cutLiteral looks for sep structurally; known is false when a variable piece
// may take part in an occurrence at or before the first literal one.
func (in *Interp) cutLiteral(ps []*Term, sep string) (b, a *Term, found, known bool) {
	c := in.c()
	// can an occurrence touch piece i (non literal)?
	touch := func(i int) bool {
		p := ps[i]
		cs := c.chars(p)
		any := false
		for k := 0; k < len(sep); k++ {
			if cs.has(sep[k]) {
				any = true
				break
			}
		}
		if !any {
			// only an empty piece lets an occurrence span it
			mn, _ := c.lenBounds(p)
			return mn == 0
		}
		return true
	}
	// refine: an occurrence through piece i must place i's characters on sep
	for i, p := range ps {
		if p.op == OConst {
			if k := strings.Index(p.str, sep); k >= 0 {
				bb := append(append([]*Term{}, ps[:i]...), c.Str(p.str[:k]))
				aa := append([]*Term{c.Str(p.str[k+len(sep):])}, ps[i+1:]...)
				return c.Concat(bb...), c.Concat(aa...), true, true
			}
			continue
		}
		if touch(i) && in.mayOccur(ps, i, sep) {
			return nil, nil, false, false
		}
	}
	return nil, nil, false, true
}

// mayOccur: may an occurrence of sep overlap variable piece i of ps (or, when
// i is empty, span it)? Tracks the set of automaton states over all pieces.
func (in *Interp) mayOccur(ps []*Term, i int, sep string) bool {
	c := in.c()
	n := len(sep)
	states := map[int]bool{0: true}
	for k, p := range ps {
		next := map[int]bool{}
		switch p.op {
		case OConst:
			for s := range states {
				// try all alignments: state s plus fresh starts
				cur := map[int]bool{s: true, 0: true}
				for j := 0; j < len(p.str); j++ {
					nc := map[int]bool{0: true}
					for x := range cur {
						if x < n && sep[x] == p.str[j] {
							if x+1 == n {
								if x+1 > j+1 { // started before this literal: crossed a variable
									return true
								}
								continue
							}
							nc[x+1] = true
						}
					}
					cur = nc
				}
				for x := range cur {
					next[x] = true
				}
			}
		default:
			mn, mx := c.lenBounds(p)
			cs := c.chars(p)
			if mx < 0 || mx > n {
				mx = n
			}
			cur := map[int]bool{0: true}
			for s := range states {
				cur[s] = true
			}
			if mn == 0 {
				for s := range cur {
					next[s] = true
				}
			}
			next[0] = true
			for j := 0; j < mx; j++ {
				nc := map[int]bool{0: true}
				for x := range cur {
					if cs.has(sep[x]) {
						if x+1 == n {
							return true
						}
						nc[x+1] = true
					}
				}
				cur = nc
				for x := range cur {
					next[x] = true
				}
			}
		}
		states = next
		_ = k
	}
	return false
}

// abstract replaces a complex string term by a fresh variable equal to it.
func (in *Interp) abstract(t *Term) *Term {
	c := in.c()
	m := ""
	if !in.p.unk {
		m, _ = c.Eval(t, in.p.model).(string)
	}
	v := in.freshStr("abs", c.chars(t), m)
	in.p.pc = append(in.p.pc, c.mk(&Term{op: OEq, sort: SBool, args: []*Term{v, t}}))
	return v
}

// freshStr makes an auxiliary string variable with the given model value.
// opaqueMax bounds the length of texts the engine makes up (not sent to the
// solver).
const opaqueMax = 1 << 24

func (in *Interp) freshStr(prefix string, cs charset, m string) *Term {
	p := in.p
	v := p.ctx.Fresh(prefix, SStr)
	p.ctx.info[v].chars = cs
	p.ctx.info[v].maxLen = opaqueMax
	if p.raw != nil {
		if x, ok := p.raw[v.str]; ok {
			p.model[v] = x
			return v
		}
	}
	p.model[v] = m
	return v
}

// cutLast makes the last occurrence of a one-character separator structural.
func (in *Interp) cutLast(s *Term, sep string) (before, after *Term, found bool) {
	c := in.c()
	if len(sep) != 1 {
		panic(unsupported("last index of a long separator"))
	}
	for iter := 0; iter < 60; iter++ {
		s = c.norm(s)
		ps := c.pieces(s)
		again := false
		for i := len(ps) - 1; i >= 0; i-- {
			p := ps[i]
			if p.op == OConst {
				if k := strings.LastIndex(p.str, sep); k >= 0 {
					return c.Concat(append(append([]*Term{}, ps[:i]...), c.Str(p.str[:k]))...), c.Concat(append([]*Term{c.Str(p.str[k+1:])}, ps[i+1:]...)...), true
				}
				continue
			}
			if !c.canContain(p, sep) {
				continue
			}
			if p.op == OFromCode {
				if in.p.Branch(c.Eq(p.args[0], c.Int(int64(sep[0])))) {
					return c.Concat(ps[:i]...), c.Concat(ps[i+1:]...), true
				}
				again = true
				break
			}
			if p.op != OVar {
				panic(unsupported("last index in %s", p))
			}
			// branch without the automatic first-occurrence split
			if in.p.branchRaw(c.mk(&Term{op: OContains, sort: SBool, args: []*Term{p, c.Str(sep)}}), func() { in.p.splitLast(p, sep) }) {
				again = true
				break
			}
			again = true
			break
		}
		if !again {
			return s, c.Str(""), false
		}
	}
	panic(unsupported("cutLast"))
}

// split is strings.SplitN with a concrete separator.
func (in *Interp) split(s value, sep string, n int, after bool) []value {
	if n == 0 {
		return nil
	}
	if str, ok := in.simp(s).(string); ok {
		var out []value
		var parts []string
		if after {
			parts = strings.SplitAfterN(str, sep, n)
		} else {
			parts = strings.SplitN(str, sep, n)
		}
		for _, x := range parts {
			out = append(out, x)
		}
		return out
	}
	if sep == "" {
		panic(unsupported("split by empty separator"))
	}
	var out []value
	rest := in.term(s)
	for n < 0 || len(out) < n-1 {
		if len(out) > 12 {
			panic(unsupported("more than 12 fields"))
		}
		b, a, ok := in.cutFirst(rest, sep)
		if !ok {
			rest = b
			break
		}
		if after {
			b = in.c().Concat(b, in.c().Str(sep))
		}
		out = append(out, b)
		rest = a
	}
	out = append(out, rest)
	for i := range out {
		out[i] = in.lowerStr(in.term(out[i]))
	}
	return out
}

// trim removes leading / trailing characters of cut.
func (in *Interp) trim(s value, cs charset, left, right bool) value {
	c := in.c()
	if str, ok := in.simp(s).(string); ok {
		l, r := 0, len(str)
		for left && l < r && cs.has(str[l]) {
			l++
		}
		for right && r > l && cs.has(str[r-1]) {
			r--
		}
		return str[l:r]
	}
	t := in.term(s)
	step := func(fromLeft bool) {
		for iter := 0; iter < 60; iter++ {
			t = c.norm(t)
			ps := append([]*Term{}, c.pieces(t)...)
			if len(ps) == 0 {
				return
			}
			k := len(ps) - 1
			if fromLeft {
				k = 0
			}
			p := ps[k]
			switch {
			case p.op == OConst:
				str := p.str
				if fromLeft {
					i := 0
					for i < len(str) && cs.has(str[i]) {
						i++
					}
					str = str[i:]
				} else {
					i := len(str)
					for i > 0 && cs.has(str[i-1]) {
						i--
					}
					str = str[:i]
				}
				ps[k] = c.Str(str)
				t = c.Concat(ps...)
				if str != "" {
					return
				}
				continue
			case p.op == OFromCode:
				var alts []*Term
				for b := 0; b < 256; b++ {
					if cs.has(byte(b)) {
						alts = append(alts, c.Eq(p.args[0], c.Int(int64(b))))
					}
				}
				if in.p.Branch(c.Or(alts...)) {
					ps = append(ps[:k], ps[k+1:]...)
					t = c.Concat(ps...)
					continue
				}
				return
			case p.op == OVar:
				pc := c.chars(p)
				mn, _ := c.lenBounds(p)
				if in0 := pc.inter(cs); in0.count() == 0 {
					if mn > 0 {
						return
					}
					if in.p.Branch(c.Eq(p, c.Str(""))) {
						continue
					}
					return
				}
				if pc.inter(cs) == pc { // all trimmed
					ps = append(ps[:k], ps[k+1:]...)
					t = c.Concat(ps...)
					continue
				}
				// p = a ++ r (or r ++ a): r in cs*, a has no cs char at that end
				str := func(m string) (string, string) {
					if fromLeft {
						x := strings.TrimLeftFunc(m, func(r rune) bool { return r < 256 && cs.has(byte(r)) })
						return x, m[:len(m)-len(x)]
					}
					x := strings.TrimRightFunc(m, func(r rune) bool { return r < 256 && cs.has(byte(r)) })
					return x, m[len(x):]
				}
				sfx := ".tr"
				if fromLeft {
					sfx = ".tl"
				}
				key := goCharset(cs)
				a := in.p.subVar(p, sfx+"a", key, func(m string) (string, bool) { x, _ := str(m); return x, true })
				r := in.p.subVar(p, sfx+"r", key, func(m string) (string, bool) { _, x := str(m); return x, true })
				c.info[r].chars = pc.inter(cs)
				re := "(re.++ re.all " + charsetRe(cs) + ")"
				gre := "(?s).*" + goCharset(cs)
				if fromLeft {
					re = "(re.++ " + charsetRe(cs) + " re.all)"
					gre = "(?s)" + goCharset(cs) + ".*"
				}
				c.info[a].extra = append(c.info[a].extra, c.Not(c.InRe(a, regRe(re, gre))))
				if fromLeft {
					in.p.bind(p, c.Concat(r, a))
				} else {
					in.p.bind(p, c.Concat(a, r))
				}
				ps[k] = a
				t = c.Concat(ps...)
				if len(ps) == 1 {
					return
				}
				if in.p.Branch(c.Eq(a, c.Str(""))) {
					continue
				}
				return
			default:
				panic(unsupported("trim %s", p))
			}
		}
	}
	if left {
		step(true)
	}
	if right {
		step(false)
	}
	return in.lowerStr(c.norm(t))
}

var spaceSet = setOf(" \t\n\v\f\r")

// mapChars applies a byte map to a string whose variable characters it leaves
// unchanged.
func (in *Interp) mapASCII(s value, f func(string) string, what string) value {
	c := in.c()
	if str, ok := in.simp(s).(string); ok {
		return f(str)
	}
	var out []*Term
	for _, p := range c.pieces(in.explodeSmall(in.term(s))) {
		switch {
		case p.op == OConst:
			out = append(out, c.Str(f(p.str)))
			continue
		case p.op == OFromCode:
			// ite over changed ranges
			x := p.args[0]
			cs := c.chars(p)
			r := x
			for b := 0; b < 256; b++ {
				if cs.has(byte(b)) {
					if m := f(string([]byte{byte(b)})); len(m) == 1 && m[0] != byte(b) {
						r = c.Ite(c.Eq(x, c.Int(int64(b))), c.Int(int64(m[0])), r)
					}
				}
			}
			out = append(out, c.FromCode(r))
			continue
		}
		cs := c.chars(p)
		same := true
		for b := 0; b < 128; b++ {
			if cs.has(byte(b)) && f(string([]byte{byte(b)})) != string([]byte{byte(b)}) {
				same = false
			}
		}
		if !same {
			// unknown length: fork on it
			in.p.Concrete(c.Len(p), 24)
			return in.mapASCII(s, f, what)
		}
		out = append(out, p)
	}
	return in.lowerStr(c.Concat(out...))
}

func (in *Interp) replaceAll(s value, old, new string) value {
	if str, ok := in.simp(s).(string); ok {
		return strings.ReplaceAll(str, old, new)
	}
	parts := in.split(s, old, -1, false)
	c := in.c()
	var out []*Term
	for i, p := range parts {
		if i > 0 {
			out = append(out, c.Str(new))
		}
		out = append(out, in.term(p))
	}
	return in.lowerStr(c.Concat(out...))
}

func nativesStrings() {
	// predicate and index functions on terms
	nat("strings.HasPrefix", func(in *Interp, fr *frame, a []value) value {
		return in.lowerBool(in.c().Prefix(in.term(a[1]), in.term(a[0])))
	})
	nat("strings.HasSuffix", func(in *Interp, fr *frame, a []value) value {
		return in.lowerBool(in.c().Suffix(in.term(a[1]), in.term(a[0])))
	})
	nat("strings.Contains", func(in *Interp, fr *frame, a []value) value {
		return in.lowerBool(in.c().Contains(in.term(a[0]), in.term(a[1])))
	})
	nat("strings.ContainsRune", func(in *Interp, fr *frame, a []value) value {
		r := in.concInt(a[1])
		return in.lowerBool(in.c().Contains(in.term(a[0]), in.c().Str(string(rune(r)))))
	})
	nat("strings.ContainsAny", func(in *Interp, fr *frame, a []value) value {
		cs := in.concStr(a[1])
		r := in.c().False
		for _, x := range cs {
			r = in.c().Or(r, in.c().Contains(in.term(a[0]), in.c().Str(string(x))))
		}
		return in.lowerBool(r)
	})
	index := func(in *Interp, s value, sep string) value {
		if str, ok := in.simp(s).(string); ok {
			return int64(strings.Index(str, sep))
		}
		if sep == "" {
			return int64(0)
		}
		b, _, ok := in.cutFirst(in.term(s), sep)
		if !ok {
			return int64(-1)
		}
		return in.lowerInt(in.c().Len(b))
	}
	nat("strings.Index", func(in *Interp, fr *frame, a []value) value {
		if sep, ok := in.simp(a[1]).(string); ok {
			return index(in, a[0], sep)
		}
		return in.lowerInt(in.c().IndexOf(in.term(a[0]), in.term(a[1]), in.c().Int(0)))
	})
	nat("strings.IndexByte", func(in *Interp, fr *frame, a []value) value {
		return index(in, a[0], string([]byte{byte(in.concInt(a[1]))}))
	})
	nat("internal/bytealg.IndexByteString", func(in *Interp, fr *frame, a []value) value {
		return index(in, a[0], string([]byte{byte(in.concInt(a[1]))}))
	})
	nat("internal/stringslite.IndexByte", func(in *Interp, fr *frame, a []value) value {
		return index(in, a[0], string([]byte{byte(in.concInt(a[1]))}))
	})
	nat("internal/stringslite.Index", func(in *Interp, fr *frame, a []value) value {
		return index(in, a[0], in.concStr(a[1]))
	})
	nat("strings.IndexRune", func(in *Interp, fr *frame, a []value) value {
		return index(in, a[0], string(rune(in.concInt(a[1]))))
	})
	nat("strings.IndexAny", func(in *Interp, fr *frame, a []value) value {
		if ss, ok := concStrings(in.simpAll(a)...); ok {
			return int64(strings.IndexAny(ss[0], ss[1]))
		}
		cs := in.concStr(a[1])
		if len(cs) == 1 {
			return index(in, a[0], cs)
		}
		r := in.c().False
		for _, x := range cs {
			r = in.c().Or(r, in.c().Contains(in.term(a[0]), in.c().Str(string(x))))
		}
		if !in.p.Branch(r) {
			return int64(-1)
		}
		panic(unsupported("IndexAny"))
	})
	lastIndex := func(in *Interp, s value, sep string) value {
		if str, ok := in.simp(s).(string); ok {
			return int64(strings.LastIndex(str, sep))
		}
		if len(sep) == 1 {
			b, _, ok := in.cutLast(in.term(s), sep)
			if !ok {
				return int64(-1)
			}
			return in.lowerInt(in.c().Len(b))
		}
		// last occurrence of a longer separator: s = a ++ sep ++ b with sep not
		// in sep[1:] ++ b
		c := in.c()
		t := in.term(s)
		if !in.p.Branch(c.Contains(t, c.Str(sep))) {
			return int64(-1)
		}
		t = c.norm(t)
		ps := c.pieces(t)
		if n := len(ps); n > 0 && ps[n-1].op == OConst {
			if k := strings.LastIndex(ps[n-1].str, sep); k >= 0 {
				return in.lowerInt(c.Len(c.Concat(append(append([]*Term{}, ps[:n-1]...), c.Str(ps[n-1].str[:k]))...)))
			}
		}
		x, y := "", ""
		if !in.p.unk {
			m, _ := c.Eval(t, in.p.model).(string)
			if k := strings.LastIndex(m, sep); k >= 0 {
				x, y = m[:k], m[k+len(sep):]
			}
		}
		av := in.freshStr("last.a", c.chars(t), x)
		bv := in.freshStr("last.b", c.chars(t), y)
		in.p.assertCond(c.Not(c.Contains(c.Concat(c.Str(sep[1:]), bv), c.Str(sep))))
		in.p.assertCond(c.Eq(t, c.Concat(av, c.Str(sep), bv)))
		return in.lowerInt(c.Len(c.norm(av)))
	}
	nat("strings.LastIndex", func(in *Interp, fr *frame, a []value) value { return lastIndex(in, a[0], in.concStr(a[1])) })
	nat("strings.LastIndexByte", func(in *Interp, fr *frame, a []value) value {
		return lastIndex(in, a[0], string([]byte{byte(in.concInt(a[1]))}))
	})
	nat("internal/bytealg.LastIndexByteString", func(in *Interp, fr *frame, a []value) value {
		return lastIndex(in, a[0], string([]byte{byte(in.concInt(a[1]))}))
	})
	nat("strings.Count", func(in *Interp, fr *frame, a []value) value {
		return int64(len(in.split(a[0], in.concStr(a[1]), -1, false)) - 1)
	})
	nat("strings.Split", func(in *Interp, fr *frame, a []value) value {
		return in.split(a[0], in.concStr(a[1]), -1, false)
	})
	nat("strings.SplitN", func(in *Interp, fr *frame, a []value) value {
		return in.split(a[0], in.concStr(a[1]), in.concInt(a[2]), false)
	})
	nat("strings.SplitAfter", func(in *Interp, fr *frame, a []value) value {
		return in.split(a[0], in.concStr(a[1]), -1, true)
	})
	cutFn := func(in *Interp, fr *frame, a []value) value {
		p := in.split(a[0], in.concStr(a[1]), 2, false)
		if len(p) == 1 {
			return tuple{p[0], "", false}
		}
		return tuple{p[0], p[1], true}
	}
	nat("strings.Cut", cutFn)
	nat("internal/stringslite.Cut", cutFn)
	trimPfx := func(in *Interp, s, p value) value {
		c := in.c()
		if in.truth(in.lowerBool(c.Prefix(in.term(p), in.term(s)))) {
			return in.strSlice(in.lowerStr(in.term(s)), in.lowerInt(c.Len(in.term(p))), nil)
		}
		return in.simp(s)
	}
	trimSfx := func(in *Interp, s, p value) value {
		c := in.c()
		if in.truth(in.lowerBool(c.Suffix(in.term(p), in.term(s)))) {
			t := in.term(s)
			return in.strSlice(in.lowerStr(t), nil, in.lowerInt(c.Sub(c.Len(t), c.Len(in.term(p)))))
		}
		return in.simp(s)
	}
	nat("strings.TrimPrefix", func(in *Interp, fr *frame, a []value) value { return trimPfx(in, a[0], a[1]) })
	nat("internal/stringslite.TrimPrefix", func(in *Interp, fr *frame, a []value) value { return trimPfx(in, a[0], a[1]) })
	nat("strings.TrimSuffix", func(in *Interp, fr *frame, a []value) value { return trimSfx(in, a[0], a[1]) })
	nat("internal/stringslite.TrimSuffix", func(in *Interp, fr *frame, a []value) value { return trimSfx(in, a[0], a[1]) })
	nat("strings.CutPrefix", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		if in.truth(in.lowerBool(c.Prefix(in.term(a[1]), in.term(a[0])))) {
			return tuple{in.strSlice(in.lowerStr(in.term(a[0])), in.lowerInt(c.Len(in.term(a[1]))), nil), true}
		}
		return tuple{in.simp(a[0]), false}
	})
	nat("strings.CutSuffix", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		if in.truth(in.lowerBool(c.Suffix(in.term(a[1]), in.term(a[0])))) {
			t := in.term(a[0])
			return tuple{in.strSlice(in.lowerStr(t), nil, in.lowerInt(c.Sub(c.Len(t), c.Len(in.term(a[1]))))), true}
		}
		return tuple{in.simp(a[0]), false}
	})
	nat("strings.Trim", func(in *Interp, fr *frame, a []value) value {
		return in.trim(a[0], setOf(in.concStr(a[1])), true, true)
	})
	nat("strings.TrimLeft", func(in *Interp, fr *frame, a []value) value {
		return in.trim(a[0], setOf(in.concStr(a[1])), true, false)
	})
	nat("strings.TrimRight", func(in *Interp, fr *frame, a []value) value {
		return in.trim(a[0], setOf(in.concStr(a[1])), false, true)
	})
	nat("strings.TrimSpace", func(in *Interp, fr *frame, a []value) value { return in.trim(a[0], spaceSet, true, true) })
	nat("net/textproto.TrimString", func(in *Interp, fr *frame, a []value) value {
		return in.trim(a[0], setOf(" \t\n\r"), true, true)
	})
	nat("strings.Fields", func(in *Interp, fr *frame, a []value) value {
		if str, ok := in.simp(a[0]).(string); ok {
			var out []value
			for _, f := range strings.Fields(str) {
				out = append(out, f)
			}
			return out
		}
		t := in.term(a[0])
		cs := in.c().chars(t)
		for _, b := range []byte("\t\n\v\f\r") {
			if cs.has(b) {
				panic(unsupported("Fields with other white space"))
			}
		}
		out := []value{}
		for _, x := range in.split(a[0], " ", -1, false) {
			if !in.truth(in.lowerBool(in.c().Eq(in.term(x), in.c().Str("")))) {
				out = append(out, x)
			}
		}
		return out
	})
	nat("strings.Join", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		var out []*Term
		for i, e := range in.strList(a[0]) {
			if i > 0 {
				out = append(out, in.term(a[1]))
			}
			out = append(out, in.term(e))
		}
		return in.lowerStr(c.Concat(out...))
	})
	nat("strings.Repeat", func(in *Interp, fr *frame, a []value) value {
		n := in.concInt(a[1])
		if n < 0 {
			in.gopanic("strings: negative Repeat count")
		}
		var out []*Term
		for i := 0; i < n; i++ {
			out = append(out, in.term(a[0]))
		}
		return in.lowerStr(in.c().Concat(out...))
	})
	repl := func(in *Interp, fr *frame, a []value) value {
		n := -1
		if len(a) > 3 {
			n = in.concInt(a[3])
		}
		if ss, ok := concStrings(in.simpAll(a[:3])...); ok {
			return strings.Replace(ss[0], ss[1], ss[2], n)
		}
		if n == 0 {
			return in.simp(a[0])
		}
		k := n
		if n > 0 {
			k = n + 1
		}
		parts := in.split(a[0], in.concStr(a[1]), k, false)
		c := in.c()
		var out []*Term
		for i, p := range parts {
			if i > 0 {
				out = append(out, in.term(a[2]))
			}
			out = append(out, in.term(p))
		}
		return in.lowerStr(c.Concat(out...))
	}
	nat("strings.Replace", repl)
	nat("strings.ReplaceAll", repl)
	nat("strings.ToLower", func(in *Interp, fr *frame, a []value) value { return in.mapASCII(a[0], strings.ToLower, "ToLower") })
	nat("strings.ToUpper", func(in *Interp, fr *frame, a []value) value { return in.mapASCII(a[0], strings.ToUpper, "ToUpper") })
	eqFold := func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		if ss, ok := concStrings(in.simpAll(a)...); ok {
			return strings.EqualFold(ss[0], ss[1])
		}
		x, y := a[0], a[1]
		if _, ok := in.simp(x).(string); ok {
			x, y = y, x
		}
		if lit, ok := in.simp(y).(string); ok {
			t := in.term(x)
			// same length first
			if !in.p.Branch(c.Eq(c.Len(t), c.Int(int64(len(lit))))) {
				return false
			}
			x = in.lowerStr(in.explodeSmall(c.norm(t)))
		}
		l := in.mapASCII(x, strings.ToLower, "fold")
		r := in.mapASCII(y, strings.ToLower, "fold")
		return in.lowerBool(c.Eq(in.term(l), in.term(r)))
	}
	nat("strings.EqualFold", eqFold)
	nat("net/http/internal/ascii.EqualFold", eqFold)
	nat("strings.Clone", func(in *Interp, fr *frame, a []value) value { return in.simp(a[0]) })
	nat("internal/stringslite.Clone", func(in *Interp, fr *frame, a []value) value { return in.simp(a[0]) })
	nat("strings.Compare", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		x, y := in.term(a[0]), in.term(a[1])
		return in.lowerInt(c.Ite(c.Eq(x, y), c.Int(0), c.Ite(c.StrLt(x, y), c.Int(-1), c.Int(1))))
	})
	nat("strings.Title", func(in *Interp, fr *frame, a []value) value { return strings.Title(in.concStr(a[0])) })

	// strings.Builder: content kept in a side table
	type bkey struct{ p *value }
	get := func(in *Interp, b value) *Term {
		if t, ok := in.side[bkey{b.(*value)}]; ok {
			return in.c().norm(t.(*Term))
		}
		return in.c().Str("")
	}
	put := func(in *Interp, b value, t *Term) { in.side[bkey{b.(*value)}] = t }
	nat("(*strings.Builder).String", func(in *Interp, fr *frame, a []value) value { return in.lowerStr(get(in, a[0])) })
	nat("(*strings.Builder).Len", func(in *Interp, fr *frame, a []value) value { return in.lowerInt(in.c().Len(get(in, a[0]))) })
	nat("(*strings.Builder).Cap", func(in *Interp, fr *frame, a []value) value { return in.lowerInt(in.c().Len(get(in, a[0]))) })
	nat("(*strings.Builder).Grow", func(in *Interp, fr *frame, a []value) value { return nil })
	nat("(*strings.Builder).Reset", func(in *Interp, fr *frame, a []value) value { put(in, a[0], in.c().Str("")); return nil })
	nat("(*strings.Builder).WriteString", func(in *Interp, fr *frame, a []value) value {
		in.access(a[0].(*value), true)
		t := in.term(a[1])
		put(in, a[0], in.c().Concat(get(in, a[0]), t))
		return tuple{in.lowerInt(in.c().Len(t)), nilErr}
	})
	nat("(*strings.Builder).Write", func(in *Interp, fr *frame, a []value) value {
		t := in.bytesTerm(a[1])
		put(in, a[0], in.c().Concat(get(in, a[0]), t))
		return tuple{in.lowerInt(in.c().Len(t)), nilErr}
	})
	nat("(*strings.Builder).WriteByte", func(in *Interp, fr *frame, a []value) value {
		put(in, a[0], in.c().Concat(get(in, a[0]), in.c().FromCode(in.term(a[1]))))
		return nilErr
	})
	nat("(*strings.Builder).WriteRune", func(in *Interp, fr *frame, a []value) value {
		var t *Term
		if r, ok := in.simp(a[1]).(int64); ok {
			t = in.c().Str(string(rune(r)))
		} else {
			t = in.c().FromCode(in.term(a[1]))
		}
		put(in, a[0], in.c().Concat(get(in, a[0]), t))
		return tuple{in.lowerInt(in.c().Len(t)), nilErr}
	})

	// bytes
	nat("bytes.Equal", func(in *Interp, fr *frame, a []value) value {
		return in.lowerBool(in.c().Eq(in.bytesTerm(a[0]), in.bytesTerm(a[1])))
	})
	nat("bytes.Compare", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		x, y := in.bytesTerm(a[0]), in.bytesTerm(a[1])
		return in.lowerInt(c.Ite(c.Eq(x, y), c.Int(0), c.Ite(c.StrLt(x, y), c.Int(-1), c.Int(1))))
	})
	nat("crypto/subtle.ConstantTimeCompare", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		return in.lowerInt(c.Ite(c.Eq(in.bytesTerm(a[0]), in.bytesTerm(a[1])), c.Int(1), c.Int(0)))
	})
	nat("internal/bytealg.IndexByte", func(in *Interp, fr *frame, a []value) value {
		return index(in, in.lowerStr(in.bytesTerm(a[0])), string([]byte{byte(in.concInt(a[1]))}))
	})
	nat("internal/bytealg.Count", func(in *Interp, fr *frame, a []value) value {
		return int64(len(in.split(in.lowerStr(in.bytesTerm(a[0])), string([]byte{byte(in.concInt(a[1]))}), -1, false)) - 1)
	})
	nat("internal/bytealg.CountString", func(in *Interp, fr *frame, a []value) value {
		return int64(len(in.split(a[0], string([]byte{byte(in.concInt(a[1]))}), -1, false)) - 1)
	})
	nat("internal/bytealg.MakeNoZero", func(in *Interp, fr *frame, a []value) value {
		n := in.concInt(a[0])
		s := make([]value, n)
		for i := range s {
			s[i] = uint64(0)
		}
		return []value(s)
	})

	// strconv
	nat("strconv.FormatBool", func(in *Interp, fr *frame, a []value) value {
		return in.lowerStr(in.c().Ite(in.term(a[0]), in.c().Str("true"), in.c().Str("false")))
	})
	itoa := func(in *Interp, v value) value {
		if z, ok := bigOf(in.lowerIdx(v)); ok {
			return z.String()
		}
		return in.lowerStr(in.intStr(in.term(v)))
	}
	nat("strconv.Itoa", func(in *Interp, fr *frame, a []value) value { return itoa(in, a[0]) })
	nat("strconv.FormatInt", func(in *Interp, fr *frame, a []value) value {
		if b := in.concInt(a[1]); b != 10 {
			z, ok := bigOf(in.lowerIdx(a[0]))
			if !ok {
				panic(unsupported("FormatInt base %d", b))
			}
			return z.Text(b)
		}
		return itoa(in, a[0])
	})
	nat("strconv.FormatUint", func(in *Interp, fr *frame, a []value) value {
		if b := in.concInt(a[1]); b != 10 {
			z, ok := bigOf(in.lowerIdx(a[0]))
			if !ok {
				panic(unsupported("FormatUint base %d", b))
			}
			return z.Text(b)
		}
		return itoa(in, a[0])
	})
	nat("strconv.FormatFloat", func(in *Interp, fr *frame, a []value) value {
		verb, prec, bits := byte(in.concInt(a[1])), in.concInt(a[2]), in.concInt(a[3])
		if f, ok := a[0].(float64); ok {
			return strconv.FormatFloat(f, verb, prec, bits)
		}
		f, ok := a[0].(*symFloat)
		if !ok {
			panic(unsupported("FormatFloat %T", a[0]))
		}
		return in.lowerStr(in.floatStr(f, verb, prec))
	})
	nat("strconv.Quote", func(in *Interp, fr *frame, a []value) value { return in.lowerStr(in.quote(a[0])) })
	nat("strconv.Atoi", func(in *Interp, fr *frame, a []value) value {
		if s, ok := in.simp(a[0]).(string); ok {
			n, err := strconv.Atoi(s)
			if err != nil {
				return tuple{int64(n), in.mkErr(err.Error())}
			}
			return tuple{int64(n), nilErr}
		}
		panic(unsupported("Atoi of symbolic string"))
	})
	nat("strconv.ParseFloat", func(in *Interp, fr *frame, a []value) value {
		n, err := strconv.ParseFloat(in.concStr(a[0]), in.concInt(a[1]))
		if err != nil {
			return tuple{n, in.mkErr(err.Error())}
		}
		return tuple{n, nilErr}
	})
	nat("strconv.ParseBool", func(in *Interp, fr *frame, a []value) value {
		n, err := strconv.ParseBool(in.concStr(a[0]))
		if err != nil {
			return tuple{n, in.mkErr(err.Error())}
		}
		return tuple{n, nilErr}
	})
	nat("unicode/utf8.RuneCountInString", func(in *Interp, fr *frame, a []value) value {
		return in.lowerInt(in.c().Len(in.ascii(a[0])))
	})
	nat("unicode/utf8.ValidString", func(in *Interp, fr *frame, a []value) value { in.ascii(a[0]); return true })
}

// ascii is the term of a string known to be ASCII.
func (in *Interp) ascii(v value) *Term {
	t := in.term(v)
	cs := in.c().chars(t)
	for b := 128; b < 256; b++ {
		if cs.has(byte(b)) {
			panic(unsupported("non-ASCII text"))
		}
	}
	return t
}

// intStr is decimal formatting of an integer term (forks on the sign).
func (in *Interp) intStr(t *Term) *Term {
	c := in.c()
	lo, _ := c.Bounds(t)
	if lo != nil && lo.Sign() >= 0 || in.p.Branch(c.Le(c.Int(0), t)) {
		return c.FromInt(c.norm(t))
	}
	return c.Concat(c.Str("-"), c.FromInt(c.MulC(c.norm(t), big.NewInt(-1))))
}

// floatStr formats n or n+1/2.
func (in *Interp) floatStr(f *symFloat, verb byte, prec int) *Term {
	c := in.c()
	half := in.p.Branch(f.half)
	n := c.norm(f.n)
	neg := false
	if lo, _ := c.Bounds(n); lo == nil || lo.Sign() < 0 {
		neg = !in.p.Branch(c.Le(c.Int(0), n))
	}
	if verb != 'f' && verb != 'g' && verb != 'G' {
		panic(unsupported("FormatFloat %c", verb))
	}
	if verb != 'f' && n.isConst() {
		v, _ := new(big.Float).SetInt(n.c).Float64()
		if half {
			v += 0.5
		}
		return c.Str(strconv.FormatFloat(v, verb, prec, 64))
	}
	if verb != 'f' {
		// 'g' uses an exponent from 1e6 on (shortest) or by precision
		if prec >= 0 || !in.smallInt(n) && !in.p.Branch(c.And(c.Lt(c.Int(-1000000), n), c.Lt(n, c.Int(999999)))) {
			panic(unsupported("FormatFloat %c/%d", verb, prec))
		}
	}
	if !half {
		s := in.intStr(n)
		if prec > 0 {
			s = c.Concat(s, c.Str("."+strings.Repeat("0", prec)))
		}
		return s
	}
	// value n + 1/2
	switch {
	case prec == 0: // round half to even
		odd := c.Eq(c.Mod(n, big.NewInt(2)), c.Int(1))
		r := n
		if in.p.Branch(odd) {
			r = c.Add(n, c.Int(1))
		}
		r = c.norm(r)
		if neg && r.isConst() && r.c.Sign() == 0 || neg && in.p.Branch(c.Eq(r, c.Int(0))) {
			return c.Str("-0")
		}
		return in.intStr(r)
	default:
		tail := ".5"
		if prec > 1 {
			tail += strings.Repeat("0", prec-1)
		}
		if !neg {
			return c.Concat(c.FromInt(n), c.Str(tail))
		}
		// -(k) + 1/2 = -((k-1) + 1/2)
		return c.Concat(c.Str("-"), c.FromInt(c.Sub(c.MulC(n, big.NewInt(-1)), c.Int(1))), c.Str(tail))
	}
}

func (in *Interp) smallInt(n *Term) bool {
	lo, hi := in.c().Bounds(n)
	return lo != nil && hi != nil && lo.CmpAbs(big.NewInt(1e6)) < 0 && hi.CmpAbs(big.NewInt(1e6)) < 0
}

// quote is strconv.Quote for text that needs no escapes in its variables.
func (in *Interp) quote(v value) *Term {
	c := in.c()
	out := []*Term{c.Str("\"")}
	for _, p := range c.pieces(in.term(v)) {
		if p.op == OConst {
			q := strconv.Quote(p.str)
			out = append(out, c.Str(q[1:len(q)-1]))
			continue
		}
		cs := c.chars(p)
		for b := 0; b < 256; b++ {
			if cs.has(byte(b)) && (b < 32 || b > 126 || b == '"' || b == '\\') {
				v := in.p.fresh("quoted", SStr)
				return v
			}
		}
		out = append(out, p)
	}
	return c.Concat(append(out, c.Str("\""))...)
}

// ---- fmt ----------------------------------------------------------------------

// anyStr formats v of dynamic type t with %v (or %s).
func (in *Interp) anyStr(fr *frame, t types.Type, v value, verb byte, depth int) *Term {
	c := in.c()
	if t == nil {
		if verb == 's' {
			return c.Str("%!s(<nil>)")
		}
		return c.Str("<nil>")
	}
	if depth > 4 {
		return in.opaque("fmt")
	}
	if depth == 0 || !isStruct(t) {
		iv := iface{t, v}
		if _, isI := t.Underlying().(*types.Interface); !isI && verb != 'd' {
			if in.hasMethod(iv, "Error") && in.sigStr(t, "Error") {
				if isNilPtr(v) {
					return c.Str("<nil>")
				}
				return in.term(in.callMethod(fr, iv, "Error"))
			}
			if in.hasMethod(iv, "String") && in.sigStr(t, "String") {
				if isNilPtr(v) {
					return c.Str("<nil>")
				}
				return in.term(in.callMethod(fr, iv, "String"))
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			if verb == 'q' {
				return in.quote(v)
			}
			if verb == 'd' {
				return c.Concat(c.Str("%!d(string="), in.term(v), c.Str(")"))
			}
			return in.term(v)
		case u.Info()&types.IsBoolean != 0:
			if verb == 's' {
				return c.Concat(c.Str("%!s(bool="), c.Ite(in.term(v), c.Str("true"), c.Str("false")), c.Str(")"))
			}
			return c.Ite(in.term(v), c.Str("true"), c.Str("false"))
		case u.Info()&types.IsInteger != 0:
			s := in.intStr(in.term(v))
			if verb == 's' {
				return c.Concat(c.Str("%!s("+t.String()+"="), s, c.Str(")"))
			}
			return s
		case u.Info()&types.IsFloat != 0:
			if f, ok := v.(float64); ok && !math.IsNaN(f) {
				s := fmt.Sprintf("%v", f)
				if verb == 's' {
					s = fmt.Sprintf("%s", any(f))
				}
				return c.Str(s)
			}
		}
		return in.opaque("fmt")
	case *types.Slice:
		switch x := v.(type) {
		case []value:
			if isByteSlice(t) {
				if verb == 's' {
					return in.bytesTerm(x)
				}
			}
			out := []*Term{c.Str("[")}
			for i, e := range x {
				if i > 0 {
					out = append(out, c.Str(" "))
				}
				out = append(out, in.elemStr(fr, u.Elem(), e, verb, depth))
			}
			return c.Concat(append(out, c.Str("]"))...)
		case *symBytes:
			if verb == 's' {
				return c.norm(x.t)
			}
		}
	case *types.Interface:
		if i, ok := v.(iface); ok {
			return in.anyStr(fr, i.t, i.v, verb, depth)
		}
	}
	if in.logging {
		return in.logDump(fr, t, v, depth)
	}
	return in.opaque("fmt")
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func (in *Interp) elemStr(fr *frame, t types.Type, v value, verb byte, depth int) *Term {
	if i, ok := v.(iface); ok {
		return in.anyStr(fr, i.t, i.v, verb, depth+1)
	}
	return in.anyStr(fr, t, v, verb, depth+1)
}

func (in *Interp) sigStr(t types.Type, name string) bool {
	f := in.prog.method(t, name)
	if f == nil {
		return false
	}
	s := f.Signature
	return s.Params().Len() == 0 && s.Results().Len() == 1 && isString(s.Results().At(0).Type())
}

// opaque is text whose content is not modelled.
func (in *Interp) opaque(why string) *Term { return in.p.fresh("opaque."+why, SStr) }

func (in *Interp) sprintf(fr *frame, format value, args []value) (*Term, iface) {
	c := in.c()
	f, ok := in.simp(format).(string)
	if !ok {
		return in.opaque("format"), iface{}
	}
	var out []*Term
	var wrapped iface
	ai := 0
	for i := 0; i < len(f); {
		k := strings.IndexByte(f[i:], '%')
		if k < 0 {
			out = append(out, c.Str(f[i:]))
			break
		}
		out = append(out, c.Str(f[i:i+k]))
		i += k + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		flags := f[st:i]
		if i >= len(f) {
			out = append(out, c.Str("%!(NOVERB)"))
			break
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = append(out, c.Str("%"))
			continue
		}
		if ai >= len(args) {
			out = append(out, c.Str("%!"+string(verb)+"(MISSING)"))
			continue
		}
		arg := args[ai].(iface)
		ai++
		if flags != "" && flags != "+" {
			if conc, ok := concArg(in, arg); ok {
				out = append(out, c.Str(fmt.Sprintf("%"+flags+string(verb), conc)))
				continue
			}
			out = append(out, in.opaque("flags"))
			continue
		}
		switch verb {
		case 'v', 's', 'd', 'q':
			out = append(out, in.anyStr(fr, arg.t, arg.v, verb, 0))
		case 'w':
			wrapped = arg
			out = append(out, in.anyStr(fr, arg.t, arg.v, 'v', 0))
		case 't':
			out = append(out, in.anyStr(fr, arg.t, arg.v, 'v', 0))
		case 'T':
			if arg.t == nil {
				out = append(out, c.Str("<nil>"))
			} else {
				out = append(out, c.Str(types.TypeString(arg.t, func(p *types.Package) string { return p.Name() })))
			}
		default:
			if conc, ok := concArg(in, arg); ok {
				out = append(out, c.Str(fmt.Sprintf("%"+string(verb), conc)))
			} else {
				out = append(out, in.opaque("verb"))
			}
		}
	}
	if ai < len(args) {
		out = append(out, c.Str("%!(EXTRA "), in.opaque("extra"), c.Str(")"))
	}
	return c.Concat(out...), wrapped
}

func concArg(in *Interp, a iface) (any, bool) {
	if a.t == nil {
		return nil, true
	}
	switch x := in.simp(a.v).(type) {
	case string:
		return x, true
	case int64:
		return x, true
	case uint64:
		return x, true
	case bool:
		return x, true
	case float64:
		return x, true
	}
	return nil, false
}

func (in *Interp) sprint(fr *frame, args []value, ln bool) *Term {
	c := in.c()
	var out []*Term
	prevStr := true
	for i, x := range args {
		a := x.(iface)
		isS := a.t != nil && isString(a.t)
		if i > 0 && (ln || !isS && !prevStr) {
			out = append(out, c.Str(" "))
		}
		out = append(out, in.anyStr(fr, a.t, a.v, 'v', 0))
		prevStr = isS
	}
	if ln {
		out = append(out, c.Str("\n"))
	}
	return c.Concat(out...)
}

// ---- errors, time, rand, misc ----------------------------------------------------

const epochShift = 62135596800 // seconds from year 1 to 1970

const baseNow = 1790000000 // the engine's clock at path start (unix seconds)

func (in *Interp) timeVal(sec, nsec value) value {
	t := in.prog.typeOf("time", "Time")
	s := zero(t).(structure)
	s[0] = nsec
	s[1] = sec
	return s
}

func nativesMisc() {
	nat("errors.New", func(in *Interp, fr *frame, a []value) value { return in.mkErr(in.simp(a[0])) })
	nat("errors.Is", func(in *Interp, fr *frame, a []value) value {
		e, target := a[0].(iface), a[1].(iface)
		for e.t != nil {
			if target.t != nil && types.Identical(e.t, target.t) && types.Comparable(e.t) {
				if in.truth(in.lowerBool(in.eq(e.t, target.t, e, target))) {
					return true
				}
			}
			if in.hasMethod(e, "Is") {
				if in.truth(in.callMethod(fr, e, "Is", target)) {
					return true
				}
			}
			if !in.hasMethod(e, "Unwrap") {
				return false
			}
			r, ok := in.callMethod(fr, e, "Unwrap").(iface)
			if !ok {
				return false
			}
			e = r
		}
		return target.t == nil
	})
	nat("errors.As", func(in *Interp, fr *frame, a []value) value {
		e, target := a[0].(iface), a[1].(iface)
		pt, ok := target.t.Underlying().(*types.Pointer)
		if !ok {
			panic(unsupported("errors.As target"))
		}
		dst := target.v.(*value)
		for e.t != nil {
			match := false
			if it, isI := pt.Elem().Underlying().(*types.Interface); isI {
				match = types.Implements(e.t, it)
				if match {
					*dst = e
				}
			} else if types.Identical(e.t, pt.Elem()) {
				match = true
				*dst = e.v
			}
			if match {
				return true
			}
			if !in.hasMethod(e, "Unwrap") {
				return false
			}
			r, ok := in.callMethod(fr, e, "Unwrap").(iface)
			if !ok {
				return false
			}
			e = r
		}
		return false
	})
	nat("errors.Unwrap", func(in *Interp, fr *frame, a []value) value {
		e := a[0].(iface)
		if !in.hasMethod(e, "Unwrap") {
			return iface{}
		}
		return in.callMethod(fr, e, "Unwrap")
	})
	nat("fmt.Sprintf", func(in *Interp, fr *frame, a []value) value {
		t, _ := in.sprintf(fr, a[0], vargs(a[1]))
		return in.lowerStr(t)
	})
	nat("fmt.Errorf", func(in *Interp, fr *frame, a []value) value {
		t, w := in.sprintf(fr, a[0], vargs(a[1]))
		if w.t != nil {
			wt := in.prog.typeOf("fmt", "wrapError")
			p := new(value)
			*p = structure{in.lowerStr(t), w}
			return iface{types.NewPointer(wt), p}
		}
		return in.mkErr(in.lowerStr(t))
	})
	nat("fmt.Sprint", func(in *Interp, fr *frame, a []value) value { return in.lowerStr(in.sprint(fr, vargs(a[0]), false)) })
	nat("fmt.Sprintln", func(in *Interp, fr *frame, a []value) value { return in.lowerStr(in.sprint(fr, vargs(a[0]), true)) })
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf"} {
		nat(n, func(in *Interp, fr *frame, a []value) value { return tuple{int64(0), nilErr} })
	}
	nat("fmt.Fprintf", func(in *Interp, fr *frame, a []value) value {
		t, _ := in.sprintf(fr, a[1], vargs(a[2]))
		in.callMethod(fr, a[0].(iface), "Write", in.strToBytes(in.lowerStr(t)))
		return tuple{in.lowerInt(in.c().Len(t)), nilErr}
	})
	for _, n := range []string{"log.Print", "log.Println", "log.Printf"} {
		nat(n, func(in *Interp, fr *frame, a []value) value { return nil })
	}

	// time
	nat("time.Now", func(in *Interp, fr *frame, a []value) value {
		return in.timeVal(int64(baseNow+epochShift)+in.advance, uint64(0))
	})
	nat("time.Sleep", func(in *Interp, fr *frame, a []value) value {
		in.yield("sleep")
		return nil
	})
	nat("time.runtimeNano", func(in *Interp, fr *frame, a []value) value { return (int64(baseNow) + in.advance) * 1e9 })
	nat("runtime.Gosched", func(in *Interp, fr *frame, a []value) value { in.yield("gosched"); return nil })
	nat("runtime.KeepAlive", func(in *Interp, fr *frame, a []value) value { return nil })
	nat("runtime.SetFinalizer", func(in *Interp, fr *frame, a []value) value { return nil })
	nat("runtime.GC", func(in *Interp, fr *frame, a []value) value { return nil })
	nat("runtime/debug.Stack", func(in *Interp, fr *frame, a []value) value { return []value{uint64('s')} })
	nat("internal/godebug.New", func(in *Interp, fr *frame, a []value) value {
		p := new(value)
		*p = zero(in.prog.typeOf("internal/godebug", "Setting"))
		return p
	})
	nat("(*internal/godebug.Setting).Value", func(in *Interp, fr *frame, a []value) value { return "" })
	nat("(*internal/godebug.Setting).IncNonDefault", func(in *Interp, fr *frame, a []value) value { return nil })
	nat("os.Getenv", func(in *Interp, fr *frame, a []value) value { return "" })
	nat("k8s.io/apimachinery/pkg/util/runtime.HandleError", func(in *Interp, fr *frame, a []value) value { return nil })

	// jwt time: seconds (and halves) only
	nat("github.com/dgrijalva/jwt-go/v4.NewTime", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		t := in.prog.typeOf("github.com/dgrijalva/jwt-go/v4", "Time")
		p := new(value)
		*p = zero(t)
		var sec, ns value
		switch f := a[0].(type) {
		case float64:
			fl := math.Floor(f)
			sec = int64(fl) + epochShift
			ns = uint64(math.Floor((f-fl)*1e6) * 1e3)
		case *symFloat:
			sec = in.lowerInt(c.Add(c.norm(f.n), c.Int(epochShift)))
			ns = in.lower(c.Ite(c.norm(f.half), c.Int(5e8), c.Int(0)), types.Typ[types.Uint64])
		}
		*fieldPtr(*p, t, "Time") = in.timeVal(sec, ns)
		return p
	})
	nat("(time.Time).Sub", func(in *Interp, fr *frame, a []value) value {
		x, y := a[0].(structure), a[1].(structure)
		if _, s1 := x[1].(*Term); !s1 {
			if _, s2 := y[1].(*Term); !s2 {
				d := new(big.Int).Sub(big.NewInt(x[1].(int64)), big.NewInt(y[1].(int64)))
				d.Mul(d, big.NewInt(1e9))
				return mkInt(d, types.Typ[types.Int64])
			}
		}
		// a duration that is only reported, never decided on
		return in.p.fresh("duration", SInt)
	})
	// texts of times: real (in UTC) when the time is known
	timeText := func(in *Interp, t value, layout value) string {
		s := t.(structure)
		w, ok1 := s[0].(uint64)
		e, ok2 := s[1].(int64)
		if !ok1 || !ok2 {
			return "Mon, 21 Sep 2026 00:00:00 GMT"
		}
		var r time.Time
		if w>>63 != 0 {
			panic(unsupported("time with a monotonic reading"))
		}
		r = time.Unix(e-epochShift, int64(w)).UTC()
		if layout == nil {
			return r.String()
		}
		return r.Format(in.concStr(layout))
	}
	nat("(time.Time).Format", func(in *Interp, fr *frame, a []value) value { return timeText(in, a[0], a[1]) })
	nat("(time.Time).String", func(in *Interp, fr *frame, a []value) value { return timeText(in, a[0], nil) })
	nat("(time.Time).AppendFormat", func(in *Interp, fr *frame, a []value) value {
		r := append([]value{}, a[1].([]value)...)
		for _, b := range []byte(timeText(in, a[0], a[2])) {
			r = append(r, uint64(b))
		}
		return []value(r)
	})

	nat("time.Parse", func(in *Interp, fr *frame, a []value) value {
		t, err := time.Parse(in.concStr(a[0]), in.concStr(a[1]))
		if err != nil {
			return tuple{zero(in.prog.typeOf("time", "Time")), in.mkErr(err.Error())}
		}
		return tuple{in.timeVal(t.Unix()+epochShift, uint64(t.Nanosecond())), nilErr}
	})

	// randomness: distinct concrete values
	nat("math/rand.NewSource", func(in *Interp, fr *frame, a []value) value {
		in.serial++
		seed := uint64(in.serial) * 0x9e3779b97f4a7c15
		n := uint64(0)
		o := &nativeObj{kind: "rand.Source"}
		cell := new(value)
		next := func(in *Interp) uint64 {
			if in.tracing {
				in.emit("w", cell, "rand.Source")
			}
			n++
			z := seed + n*0x9e3779b97f4a7c15
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			z = (z ^ z>>27) * 0x94d049bb133111eb
			return z ^ z>>31
		}
		o.methods = map[string]func(in *Interp, args []value) value{
			"Int63":  func(in *Interp, args []value) value { return int64(next(in) >> 1) },
			"Uint64": func(in *Interp, args []value) value { return next(in) },
			"Seed":   func(in *Interp, args []value) value { return nil },
		}
		return iface{types.NewPointer(in.prog.typeOf("math/rand", "rngSource")), o}
	})
	randBytes := func(in *Interp, n int) []value {
		out := make([]value, n)
		for i := range out {
			in.rndSeq++
			z := in.rndSeq * 0x9e3779b97f4a7c15
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			out[i] = (z >> 40) & 0xff
		}
		return out
	}
	readRandom := func(in *Interp, dst value) value {
		b := dst.([]value)
		if in.side["failrandom"] != nil {
			return tuple{int64(0), in.mkErr("random source failed")}
		}
		copy(b, randBytes(in, len(b)))
		return tuple{int64(len(b)), nilErr}
	}
	nat("crypto/rand.Read", func(in *Interp, fr *frame, a []value) value { return readRandom(in, a[0]) })
	nat("(*crypto/rand.reader).Read", func(in *Interp, fr *frame, a []value) value { return readRandom(in, a[1]) })
	nat("github.com/gorilla/securecookie.GenerateRandomKey", func(in *Interp, fr *frame, a []value) value {
		n := in.concInt(a[0])
		if n < 0 {
			in.gopanic("makeslice: len out of range")
		}
		if in.side["failrandom"] != nil {
			return []value(nil)
		}
		return randBytes(in, n)
	})
	for _, n := range []string{"math/rand.Intn", "math/rand.Int63n", "math/rand.Int31n"} {
		nat(n, func(in *Interp, fr *frame, a []value) value {
			in.mrSeq++
			return int64(in.mrSeq*7919) % int64(in.concInt(a[0]))
		})
	}
	for _, n := range []string{"math/rand.Int63", "math/rand.Int"} {
		nat(n, func(in *Interp, fr *frame, a []value) value {
			in.mrSeq++
			z := in.mrSeq * 0x9e3779b97f4a7c15
			z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
			return int64((z ^ z>>27) >> 1)
		})
	}

	// sorting through less functions
	sortFn := func(in *Interp, fr *frame, a []value) value {
		s, ok := a[0].(iface)
		if !ok {
			panic(unsupported("sort.Slice"))
		}
		sl, ok := s.v.([]value)
		if !ok {
			return nil
		}
		for i := 1; i < len(sl); i++ {
			for j := i; j > 0; j-- {
				if !in.truth(in.call(fr, a[1], []value{int64(j), int64(j - 1)}, nil)) {
					break
				}
				sl[j], sl[j-1] = sl[j-1], sl[j]
			}
		}
		return nil
	}
	nat("sort.Slice", sortFn)
	nat("sort.SliceStable", sortFn)
	sortStrs := func(in *Interp, fr *frame, a []value) value {
		sl, _ := a[0].([]value)
		for i := 1; i < len(sl); i++ {
			for j := i; j > 0; j-- {
				if !in.truth(in.lowerBool(in.c().StrLt(in.term(sl[j]), in.term(sl[j-1])))) {
					break
				}
				sl[j], sl[j-1] = sl[j-1], sl[j]
			}
		}
		return nil
	}
	nat("sort.Strings", sortStrs)
	nat("reflect.DeepEqual", func(in *Interp, fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		return in.lowerBool(in.deepEq(x.t, x, y, map[[2]*value]bool{}))
	})

	// math/big: only what building a public key needs
	type bigKey struct{ p *value }
	nat("(*math/big.Int).SetBytes", func(in *Interp, fr *frame, a []value) value {
		in.side[bigKey{a[0].(*value)}] = a[1]
		return a[0]
	})
	nat("(*math/big.Int).Bytes", func(in *Interp, fr *frame, a []value) value {
		v, ok := in.side[bigKey{a[0].(*value)}]
		if !ok {
			return []value{}
		}
		if t, ok := v.(*Term); ok {
			t = in.c().norm(t)
			if !t.isConst() {
				panic(unsupported("bytes of a symbolic integer"))
			}
			return in.lowerBytes(string(t.c.Bytes()))
		}
		b, ok := v.([]value)
		if !ok {
			b = in.explodeBytes(v.(*symBytes))
		}
		// leading zero bytes are dropped
		for len(b) > 0 && in.truth(in.lowerBool(in.c().Eq(in.term(b[0]), in.c().Int(0)))) {
			b = b[1:]
		}
		return append([]value{}, b...)
	})
	set := func(in *Interp, p value, t *Term) value {
		in.side[bigKey{p.(*value)}] = t
		return p
	}
	nat("(*math/big.Int).Cmp", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		x, y := in.bigTerm(a[0]), in.bigTerm(a[1])
		return in.lowerInt(c.Ite(c.Eq(x, y), c.Int(0), c.Ite(c.Lt(x, y), c.Int(-1), c.Int(1))))
	})
	nat("(*math/big.Int).Sign", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		x := in.bigTerm(a[0])
		return in.lowerInt(c.Ite(c.Eq(x, c.Int(0)), c.Int(0), c.Ite(c.Lt(x, c.Int(0)), c.Int(-1), c.Int(1))))
	})
	i64, u64 := types.Typ[types.Int64], types.Typ[types.Uint64]
	nat("(*math/big.Int).Int64", func(in *Interp, fr *frame, a []value) value { return in.wrap(in.bigTerm(a[0]), i64) })
	nat("(*math/big.Int).Uint64", func(in *Interp, fr *frame, a []value) value { return in.wrap(in.bigTerm(a[0]), u64) })
	inRange := func(in *Interp, t *Term, lo, hi *big.Int) value {
		c := in.c()
		return in.lowerBool(c.And(c.Le(c.Big(lo), t), c.Le(t, c.Big(hi))))
	}
	nat("(*math/big.Int).IsInt64", func(in *Interp, fr *frame, a []value) value {
		return inRange(in, in.bigTerm(a[0]), new(big.Int).Neg(pow2(63)), new(big.Int).Sub(pow2(63), big.NewInt(1)))
	})
	nat("(*math/big.Int).IsUint64", func(in *Interp, fr *frame, a []value) value {
		return inRange(in, in.bigTerm(a[0]), new(big.Int), new(big.Int).Sub(pow2(64), big.NewInt(1)))
	})
	nat("(*math/big.Int).BitLen", func(in *Interp, fr *frame, a []value) value {
		c := in.c()
		t := in.bigTerm(a[0])
		if t.isConst() {
			return int64(t.c.BitLen())
		}
		_, hi := c.Bounds(t)
		if hi == nil || hi.BitLen() > 128 {
			panic(unsupported("BitLen of an unbounded integer"))
		}
		r := c.Int(int64(hi.BitLen()))
		for n := hi.BitLen() - 1; n >= 0; n-- {
			r = c.Ite(c.Lt(t, c.Big(pow2(n))), c.Int(int64(n)), r)
		}
		return in.lowerInt(r)
	})
	nat("(*math/big.Int).SetInt64", func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.term(a[1])) })
	nat("(*math/big.Int).SetUint64", func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.term(a[1])) })
	nat("(*math/big.Int).Set", func(in *Interp, fr *frame, a []value) value { return set(in, a[0], in.bigTerm(a[1])) })
	nat("math/big.NewInt", func(in *Interp, fr *frame, a []value) value {
		p := new(value)
		*p = zero(in.prog.typeOf("math/big", "Int"))
		return set(in, p, in.term(a[0]))
	})
	bigKeyOf = func(in *Interp, p *value) (value, bool) { v, ok := in.side[bigKey{p}]; return v, ok }
}

var bigKeyOf = func(in *Interp, p *value) (value, bool) { return nil, false }

// bigTerm is the value of a big.Int.
func (in *Interp) bigTerm(v value) *Term {
	c := in.c()
	b, ok := bigKeyOf(in, v.(*value))
	if !ok {
		return c.Int(0)
	}
	if t, ok := b.(*Term); ok {
		return c.norm(t)
	}
	if t := c.norm(in.bytesTerm(b)); t.isConst() {
		return c.Big(new(big.Int).SetBytes([]byte(t.str)))
	}
	l, ok := b.([]value)
	if !ok {
		l = in.explodeBytes(b.(*symBytes))
	}
	if len(l) > 16 {
		panic(unsupported("symbolic integer of %d bytes", len(l)))
	}
	r := c.Int(0)
	for _, x := range l {
		r = c.Add(c.MulC(r, big.NewInt(256)), in.term(x))
	}
	return r
}

// ---- deep equality -------------------------------------------------------------------

func (in *Interp) deepEq(t types.Type, x, y value, seen map[[2]*value]bool) *Term {
	c := in.c()
	switch a := x.(type) {
	case iface:
		b, ok := y.(iface)
		if !ok {
			return c.False
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		return in.deepEq(a.t, a.v, b.v, seen)
	case structure:
		b := y.(structure)
		st, ok := t.Underlying().(*types.Struct)
		r := c.True
		for i := range a {
			var ft types.Type
			if ok {
				ft = st.Field(i).Type()
			}
			r = c.And(r, in.deepEq(ft, a[i], b[i], seen))
			if r.isFalse() {
				return r
			}
		}
		return r
	case array:
		b := y.(array)
		r := c.True
		var et types.Type
		if at, ok := t.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for i := range a {
			r = c.And(r, in.deepEq(et, a[i], b[i], seen))
		}
		return r
	case *value:
		b, ok := y.(*value)
		if !ok {
			return c.False
		}
		if a == b {
			return c.True
		}
		if a == nil || b == nil {
			return c.False
		}
		if seen[[2]*value{a, b}] {
			return c.True
		}
		seen[[2]*value{a, b}] = true
		return in.deepEq(deref(t), *a, *b, seen)
	case []value, *symBytes:
		an, bn := isNilSlice(x), isNilSlice(y)
		if an || bn {
			return c.Bool(an && bn)
		}
		if isByteSlice(t) {
			return c.Eq(in.bytesTerm(x), in.bytesTerm(y))
		}
		as, ok1 := x.([]value)
		bs, ok2 := y.([]value)
		if !ok1 || !ok2 || len(as) != len(bs) {
			return c.False
		}
		et := t.Underlying().(*types.Slice).Elem()
		r := c.True
		for i := range as {
			r = c.And(r, in.deepEq(et, as[i], bs[i], seen))
		}
		return r
	case *hashmap:
		b, ok := y.(*hashmap)
		if !ok {
			return c.False
		}
		if a == nil || b == nil {
			return c.Bool((a == nil) == (b == nil))
		}
		if len(a.entries) != len(b.entries) {
			return c.False
		}
		mt := t.Underlying().(*types.Map)
		r := c.True
		for _, e := range a.entries {
			f := in.mapFind(b, e.k)
			if f == nil {
				return c.False
			}
			r = c.And(r, in.deepEq(mt.Elem(), e.v, f.v, seen))
		}
		return r
	}
	return in.eq(t, t, x, y)
}

func isNilSlice(v value) bool {
	s, ok := v.([]value)
	return ok && s == nil
}

func sortedEntries(m *hashmap) []*mapEntry {
	es := append([]*mapEntry{}, m.entries...)
	sort.SliceStable(es, func(i, j int) bool {
		a, _ := keyStr(es[i].k)
		b, _ := keyStr(es[j].k)
		return a < b
	})
	return es
}
