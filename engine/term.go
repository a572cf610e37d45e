package main

// Terms: a small hash-consed term language (Bool, Int, String) with the
// simplifications that keep string-shaped code structural.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SStr
)

func (s Sort) String() string { return [...]string{"Bool", "Int", "String"}[s] }

type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLin // linear combination: c + sum coef_i * args_i
	OMul
	ODiv // euclidean, positive constant divisor
	OMod
	OLe // args[0] <= 0 (args[0] is an Int term)
	OConcat
	OLen
	OSubstr
	OIndexOf
	OPrefix // OPrefix(p, s)
	OSuffix
	OContains // OContains(s, sub)
	OFromCode
	OToCode
	OFromInt
	OToInt
	OReplaceAll
	OStrLt
	OInRe // str holds the SMT regex
	OLower
)

var opName = map[Op]string{OVar: "var", OConst: "const", ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OLin: "lin", OMul: "*", ODiv: "div", OMod: "mod", OLe: "le0", OConcat: "str.++", OLen: "str.len", OSubstr: "str.substr", OIndexOf: "str.indexof", OPrefix: "str.prefixof", OSuffix: "str.suffixof", OContains: "str.contains", OFromCode: "str.from_code", OToCode: "str.to_code", OFromInt: "str.from_int", OToInt: "str.to_int", OReplaceAll: "str.replace_all", OStrLt: "str.<", OInRe: "str.in_re"}

type Term struct {
	op   Op
	sort Sort
	args []*Term
	coef []*big.Int
	c    *big.Int // Int const / lin constant
	str  string   // string const, var name, regex
	b    bool
	id   int
	key  string
}

// charset is a set of bytes 0..255.
type charset [4]uint64

func (c *charset) has(b byte) bool { return c[b>>6]&(1<<(b&63)) != 0 }
func (c *charset) add(b byte)      { c[b>>6] |= 1 << (b & 63) }
func (c *charset) del(b byte)      { c[b>>6] &^= 1 << (b & 63) }
func (c charset) count() int {
	n := 0
	for i := 0; i < 256; i++ {
		if c.has(byte(i)) {
			n++
		}
	}
	return n
}
func (c charset) inter(d charset) charset {
	for i := range c {
		c[i] &= d[i]
	}
	return c
}
func (c charset) union(d charset) charset {
	for i := range c {
		c[i] |= d[i]
	}
	return c
}

var asciiSet = func() charset {
	var c charset
	for i := 0; i < 128; i++ {
		c.add(byte(i))
	}
	return c
}()

func setOf(s string) charset {
	var c charset
	for i := 0; i < len(s); i++ {
		c.add(s[i])
	}
	return c
}

type varInfo struct {
	chars  charset
	minLen int
	maxLen int // -1 none
	lo, hi *big.Int
	extra  []*Term // extra constraints added lazily to each query mentioning it
}

// Ctx is the term context of one path.
type Ctx struct {
	table   map[string]*Term
	terms   int
	info    map[*Term]*varInfo // per var
	lens    map[*Term]*varInfo
	subst   map[*Term]*Term
	epoch   int
	refined bool // variable domains were narrowed: terms may simplify further
	nmemo   map[*Term]*Term
	facts   map[*Term]bool
	bnds    map[*Term][2]*big.Int // refined bounds of int atoms
	fresh   int
	True    *Term
	False   *Term
}

func NewCtx() *Ctx {
	c := &Ctx{table: map[string]*Term{}, info: map[*Term]*varInfo{}, subst: map[*Term]*Term{}, nmemo: map[*Term]*Term{}, facts: map[*Term]bool{}, bnds: map[*Term][2]*big.Int{}}
	c.True = c.mk(&Term{op: OConst, sort: SBool, b: true})
	c.False = c.mk(&Term{op: OConst, sort: SBool, b: false})
	return c
}

func (c *Ctx) mk(t *Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|", t.op, t.sort)
	for i, a := range t.args {
		if t.coef != nil {
			sb.WriteString(t.coef[i].String())
			sb.WriteByte('*')
		}
		fmt.Fprintf(&sb, "%d,", a.id)
	}
	if t.c != nil {
		sb.WriteString("c" + t.c.String())
	}
	if t.b {
		sb.WriteString("T")
	}
	sb.WriteString("|" + t.str)
	k := sb.String()
	if o, ok := c.table[k]; ok {
		return o
	}
	c.terms++
	t.id = c.terms
	t.key = k
	c.table[k] = t
	return t
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Int(i int64) *Term { return c.Big(big.NewInt(i)) }
func (c *Ctx) Big(i *big.Int) *Term {
	return c.mk(&Term{op: OConst, sort: SInt, c: new(big.Int).Set(i)})
}
func (c *Ctx) Str(s string) *Term   { return c.mk(&Term{op: OConst, sort: SStr, str: s}) }
func (t *Term) isConst() bool       { return t.op == OConst }
func (t *Term) isTrue() bool        { return t.op == OConst && t.sort == SBool && t.b }
func (t *Term) isFalse() bool       { return t.op == OConst && t.sort == SBool && !t.b }
func (t *Term) isStr(s string) bool { return t.op == OConst && t.sort == SStr && t.str == s }
func (c *Ctx) Var(name string, s Sort) *Term {
	// not part of a quoted SMT-LIB symbol
	name = strings.NewReplacer("\\", "%", "|", "!").Replace(name)
	t := c.mk(&Term{op: OVar, sort: s, str: name})
	if c.info[t] == nil {
		vi := &varInfo{maxLen: -1}
		if s == SStr {
			vi.chars = asciiSet
		}
		c.info[t] = vi
	}
	return t
}
func (c *Ctx) Fresh(prefix string, s Sort) *Term {
	c.fresh++
	return c.Var(fmt.Sprintf("%s!%d", prefix, c.fresh), s)
}

// ---- normalisation under the current substitution -------------------------

// bump records that a variable's domain was narrowed.
func (c *Ctx) bump() {
	c.epoch++
	c.refined = true
	c.nmemo = map[*Term]*Term{}
}

func (c *Ctx) bind(v, t *Term) {
	c.subst[v] = t
	c.epoch++
	c.nmemo = map[*Term]*Term{}
}

func (c *Ctx) norm(t *Term) *Term {
	if c.epoch == 0 || t.op == OConst {
		return t
	}
	if n, ok := c.nmemo[t]; ok {
		return n
	}
	var r *Term
	if t.op == OVar {
		r = t
		if s, ok := c.subst[t]; ok {
			r = c.norm(s)
		}
	} else {
		changed := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = c.norm(a)
			if na[i] != a {
				changed = true
			}
		}
		if !changed && !c.refined {
			r = t
		} else {
			r = c.rebuild(t, na)
		}
	}
	c.nmemo[t] = r
	return r
}

func (c *Ctx) rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OEq:
		return c.Eq(a[0], a[1])
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OLin:
		r := c.Big(t.c)
		for i, x := range a {
			r = c.Add(r, c.MulC(x, t.coef[i]))
		}
		return r
	case OMul:
		return c.Mul(a[0], a[1])
	case ODiv:
		return c.Div(a[0], a[1].c)
	case OMod:
		return c.Mod(a[0], a[1].c)
	case OLe:
		return c.Le0(a[0])
	case OConcat:
		return c.Concat(a...)
	case OLen:
		return c.Len(a[0])
	case OSubstr:
		return c.Substr(a[0], a[1], a[2])
	case OIndexOf:
		return c.IndexOf(a[0], a[1], a[2])
	case OPrefix:
		return c.Prefix(a[0], a[1])
	case OSuffix:
		return c.Suffix(a[0], a[1])
	case OContains:
		return c.Contains(a[0], a[1])
	case OFromCode:
		return c.FromCode(a[0])
	case OToCode:
		return c.ToCode(a[0])
	case OFromInt:
		return c.FromInt(a[0])
	case OToInt:
		return c.ToInt(a[0])
	case OReplaceAll:
		return c.ReplaceAll(a[0], a[1], a[2])
	case OStrLt:
		return c.StrLt(a[0], a[1])
	case OInRe:
		return c.InRe(a[0], t.str)
	}
	panic("rebuild")
}

// ---- Bool ------------------------------------------------------------------

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(!a.b)
	}
	if a.op == ONot {
		return a.args[0]
	}
	if a.op == OLe { // not (x <= 0)  ==  -x + 1 <= 0
		return c.Le0(c.Add(c.Int(1), c.MulC(a.args[0], big.NewInt(-1))))
	}
	return c.mk(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (c *Ctx) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isTrue() || seen[a] {
			return true
		}
		if a.isFalse() || seen[c.Not(a)] {
			return false
		}
		if a.op == OAnd {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.False
		}
	}
	switch len(out) {
	case 0:
		return c.True
	case 1:
		return out[0]
	}
	return c.mk(&Term{op: OAnd, sort: SBool, args: out})
}

func (c *Ctx) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a.isFalse() || seen[a] {
			return true
		}
		if a.isTrue() || seen[c.Not(a)] {
			return false
		}
		if a.op == OOr {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return c.True
		}
	}
	switch len(out) {
	case 0:
		return c.False
	case 1:
		return out[0]
	}
	return c.mk(&Term{op: OOr, sort: SBool, args: out})
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.isTrue() || a == b {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a.sort == SBool {
		if a.isTrue() && b.isFalse() {
			return g
		}
		if a.isFalse() && b.isTrue() {
			return c.Not(g)
		}
		return c.And(c.Or(c.Not(g), a), c.Or(g, b))
	}
	return c.mk(&Term{op: OIte, sort: a.sort, args: []*Term{g, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.sort != b.sort {
		panic(unsupported("eq sorts %v %v", a.sort, b.sort))
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	case SInt:
		d := c.Sub(a, b)
		if d.isConst() {
			return c.Bool(d.c.Sign() == 0)
		}
		lo, hi := c.Bounds(d)
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return c.False
		}
		// from_code/to_code and ite pushing for constants
		if b.isConst() && a.op == OIte && a.args[1].isConst() && a.args[2].isConst() {
			return c.Ite(a.args[0], c.Eq(a.args[1], b), c.Eq(a.args[2], b))
		}
	case SStr:
		return c.eqStr(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

// ---- Int -------------------------------------------------------------------

func (c *Ctx) linParts(t *Term) (*big.Int, []*Term, []*big.Int) {
	switch t.op {
	case OConst:
		return t.c, nil, nil
	case OLin:
		return t.c, t.args, t.coef
	}
	return new(big.Int), []*Term{t}, []*big.Int{big.NewInt(1)}
}

func (c *Ctx) mkLin(k *big.Int, m map[*Term]*big.Int) *Term {
	var ts []*Term
	for t, co := range m {
		if co.Sign() != 0 {
			ts = append(ts, t)
		}
	}
	if len(ts) == 0 {
		return c.Big(k)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	if len(ts) == 1 && k.Sign() == 0 && m[ts[0]].Cmp(big.NewInt(1)) == 0 {
		return ts[0]
	}
	co := make([]*big.Int, len(ts))
	for i, t := range ts {
		co[i] = m[t]
	}
	return c.mk(&Term{op: OLin, sort: SInt, args: ts, coef: co, c: k})
}

func (c *Ctx) Add(a, b *Term) *Term {
	ka, ta, ca := c.linParts(a)
	kb, tb, cb := c.linParts(b)
	m := map[*Term]*big.Int{}
	for i, t := range ta {
		m[t] = new(big.Int).Set(ca[i])
	}
	for i, t := range tb {
		if m[t] == nil {
			m[t] = new(big.Int)
		}
		m[t].Add(m[t], cb[i])
	}
	return c.mkLin(new(big.Int).Add(ka, kb), m)
}
func (c *Ctx) MulC(a *Term, k *big.Int) *Term {
	ka, ta, ca := c.linParts(a)
	m := map[*Term]*big.Int{}
	for i, t := range ta {
		m[t] = new(big.Int).Mul(ca[i], k)
	}
	return c.mkLin(new(big.Int).Mul(ka, k), m)
}
func (c *Ctx) Sub(a, b *Term) *Term { return c.Add(a, c.MulC(b, big.NewInt(-1))) }
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.MulC(b, a.c)
	}
	if b.isConst() {
		return c.MulC(a, b.c)
	}
	return c.mk(&Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}

// Div and Mod: euclidean by a positive constant.
func (c *Ctx) Div(a *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.isConst() {
		q, _ := new(big.Int).DivMod(a.c, k, new(big.Int))
		return c.Big(q)
	}
	lo, hi := c.Bounds(a)
	if lo != nil && hi != nil {
		ql, _ := new(big.Int).DivMod(lo, k, new(big.Int))
		qh, _ := new(big.Int).DivMod(hi, k, new(big.Int))
		if ql.Cmp(qh) == 0 {
			return c.Big(ql)
		}
	}
	// split off multiples of k
	if a.op == OLin {
		q := map[*Term]*big.Int{}
		r := map[*Term]*big.Int{}
		for i, t := range a.args {
			if new(big.Int).Mod(a.coef[i], k).Sign() == 0 {
				q[t] = new(big.Int).Quo(a.coef[i], k)
			} else {
				r[t] = a.coef[i]
			}
		}
		kq, kr := new(big.Int).DivMod(a.c, k, new(big.Int))
		if len(q) > 0 || kq.Sign() != 0 {
			return c.Add(c.mkLin(kq, q), c.Div(c.mkLin(kr, r), k))
		}
	}
	if a.op == ODiv {
		return c.Div(a.args[0], new(big.Int).Mul(k, a.args[1].c))
	}
	return c.mk(&Term{op: ODiv, sort: SInt, args: []*Term{a, c.Big(k)}})
}

func (c *Ctx) Mod(a *Term, k *big.Int) *Term {
	if k.Cmp(big.NewInt(1)) == 0 {
		return c.Int(0)
	}
	if a.isConst() {
		return c.Big(new(big.Int).Mod(a.c, k))
	}
	lo, hi := c.Bounds(a)
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(k) < 0 {
		return a
	}
	if a.op == OLin {
		r := map[*Term]*big.Int{}
		ch := false
		for i, t := range a.args {
			m := new(big.Int).Mod(a.coef[i], k)
			if m.Cmp(a.coef[i]) != 0 {
				ch = true
			}
			// keep small negative coefficients as they are
			if m.Sign() != 0 {
				r[t] = m
			}
		}
		kr := new(big.Int).Mod(a.c, k)
		if kr.Cmp(a.c) != 0 {
			ch = true
		}
		if ch {
			return c.Mod(c.mkLin(kr, r), k)
		}
	}
	if a.op == OMod && new(big.Int).Mod(a.args[1].c, k).Sign() == 0 {
		return c.Mod(a.args[0], k)
	}
	return c.mk(&Term{op: OMod, sort: SInt, args: []*Term{a, c.Big(k)}})
}

// Bounds gives an interval of an Int term (nil: unbounded).
func (c *Ctx) Bounds(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.c, t.c
	case OVar:
		if vi := c.info[t]; vi != nil {
			lo, hi = vi.lo, vi.hi
		}
	case OLen:
		s := t.args[0]
		mn, mx := c.lenBounds(s)
		lo = big.NewInt(int64(mn))
		if mx >= 0 {
			hi = big.NewInt(int64(mx))
		}
	case OLin:
		lo, hi = new(big.Int).Set(t.c), new(big.Int).Set(t.c)
		for i, a := range t.args {
			l, h := c.Bounds(a)
			if t.coef[i].Sign() < 0 {
				l, h = h, l
			}
			if lo != nil {
				if l == nil {
					lo = nil
				} else {
					lo.Add(lo, new(big.Int).Mul(l, t.coef[i]))
				}
			}
			if hi != nil {
				if h == nil {
					hi = nil
				} else {
					hi.Add(hi, new(big.Int).Mul(h, t.coef[i]))
				}
			}
		}
	case OMod:
		lo, hi = big.NewInt(0), new(big.Int).Sub(t.args[1].c, big.NewInt(1))
	case ODiv:
		l, h := c.Bounds(t.args[0])
		if l != nil {
			lo, _ = new(big.Int).DivMod(l, t.args[1].c, new(big.Int))
		}
		if h != nil {
			hi, _ = new(big.Int).DivMod(h, t.args[1].c, new(big.Int))
		}
	case OIte:
		l1, h1 := c.Bounds(t.args[1])
		l2, h2 := c.Bounds(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
	case OToCode:
		lo, hi = big.NewInt(-1), big.NewInt(255)
	case OIndexOf, OToInt:
		lo = big.NewInt(-1)
	case OMul:
		l1, h1 := c.Bounds(t.args[0])
		l2, h2 := c.Bounds(t.args[1])
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			lo = new(big.Int).Mul(l1, l2)
			if h1 != nil && h2 != nil {
				hi = new(big.Int).Mul(h1, h2)
			}
		}
	}
	if b, ok := c.bnds[t]; ok {
		if b[0] != nil && (lo == nil || b[0].Cmp(lo) > 0) {
			lo = b[0]
		}
		if b[1] != nil && (hi == nil || b[1].Cmp(hi) < 0) {
			hi = b[1]
		}
	}
	return
}

func (c *Ctx) Le0(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.c.Sign() <= 0)
	}
	lo, hi := c.Bounds(a)
	if hi != nil && hi.Sign() <= 0 {
		return c.True
	}
	if lo != nil && lo.Sign() > 0 {
		return c.False
	}
	// single atom with unit coefficient over an ite of constants: push in
	if a.op == OLin && len(a.args) == 1 && a.args[0].op == OIte {
		it := a.args[0]
		if it.args[1].isConst() || it.args[2].isConst() {
			f := func(x *Term) *Term { return c.Le0(c.Add(c.MulC(x, a.coef[0]), c.Big(a.c))) }
			x, y := f(it.args[1]), f(it.args[2])
			if x.isConst() || y.isConst() {
				return c.Or(c.And(it.args[0], x), c.And(c.Not(it.args[0]), y))
			}
		}
	}
	return c.mk(&Term{op: OLe, sort: SBool, args: []*Term{a}})
}
func (c *Ctx) Le(a, b *Term) *Term { return c.Le0(c.Sub(a, b)) }
func (c *Ctx) Lt(a, b *Term) *Term { return c.Le0(c.Add(c.Sub(a, b), c.Int(1))) }

// ---- String ----------------------------------------------------------------

func (c *Ctx) lenBounds(t *Term) (mn, mx int) {
	switch t.op {
	case OConst:
		return len(t.str), len(t.str)
	case OVar:
		vi := c.info[t]
		return vi.minLen, vi.maxLen
	case OConcat:
		for _, a := range t.args {
			l, h := c.lenBounds(a)
			mn += l
			if h < 0 || mx < 0 {
				mx = -1
			} else {
				mx += h
			}
		}
		return
	case OFromCode:
		return 1, 1
	case OIte:
		l1, h1 := c.lenBounds(t.args[1])
		l2, h2 := c.lenBounds(t.args[2])
		mn = min(l1, l2)
		mx = max(h1, h2)
		if h1 < 0 || h2 < 0 {
			mx = -1
		}
		return
	case OSubstr:
		if _, h := c.lenBounds(t.args[0]); h >= 0 {
			mx = h
		} else {
			mx = -1
		}
		if t.args[2].isConst() && t.args[2].c.IsInt64() {
			n := int(t.args[2].c.Int64())
			if mx < 0 || n < mx {
				mx = n
			}
		}
		return 0, mx
	}
	return 0, -1
}

func (c *Ctx) chars(t *Term) charset {
	switch t.op {
	case OConst:
		return setOf(t.str)
	case OVar:
		return c.info[t].chars
	case OConcat:
		var r charset
		for _, a := range t.args {
			r = r.union(c.chars(a))
		}
		return r
	case OIte:
		return c.chars(t.args[1]).union(c.chars(t.args[2]))
	case OSubstr:
		return c.chars(t.args[0])
	case OFromInt:
		return setOf("0123456789")
	case OFromCode:
		lo, hi := c.Bounds(t.args[0])
		var r charset
		l, h := int64(0), int64(255)
		if lo != nil && lo.Sign() > 0 {
			l = lo.Int64()
		}
		if hi != nil && hi.Cmp(big.NewInt(255)) < 0 {
			h = hi.Int64()
		}
		for i := l; i <= h; i++ {
			r.add(byte(i))
		}
		return r
	}
	var r charset
	for i := range r {
		r[i] = ^uint64(0)
	}
	return r
}

func (c *Ctx) pieces(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t.isStr("") {
		return nil
	}
	return []*Term{t}
}

func (c *Ctx) Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		for _, p := range c.pieces(a) {
			if p.op == OConst && len(out) > 0 && out[len(out)-1].op == OConst {
				out[len(out)-1] = c.Str(out[len(out)-1].str + p.str)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return c.Str("")
	case 1:
		return out[0]
	}
	return c.mk(&Term{op: OConcat, sort: SStr, args: out})
}

func (c *Ctx) Len(s *Term) *Term {
	switch s.op {
	case OConst:
		return c.Int(int64(len(s.str)))
	case OConcat:
		r := c.Int(0)
		for _, p := range s.args {
			r = c.Add(r, c.Len(p))
		}
		return r
	case OFromCode:
		return c.Int(1)
	case OVar:
		vi := c.info[s]
		if vi.maxLen == vi.minLen {
			return c.Int(int64(vi.minLen))
		}
	}
	return c.mk(&Term{op: OLen, sort: SInt, args: []*Term{s}})
}

// cut finds the position off in the pieces: index i and constant offset k
// inside literal piece i (k==0 also for boundaries).
func (c *Ctx) cut(ps []*Term, off *Term) (int, int, bool) {
	pre := c.Int(0)
	for i := 0; ; i++ {
		d := c.Sub(off, pre)
		if d.isConst() {
			if d.c.Sign() == 0 {
				return i, 0, true
			}
			if d.c.Sign() < 0 {
				return 0, 0, false
			}
			if i < len(ps) {
				k := int(d.c.Int64())
				if ps[i].op == OConst && k < len(ps[i].str) {
					return i, k, true
				}
			}
		}
		if i >= len(ps) {
			return 0, 0, false
		}
		pre = c.Add(pre, c.Len(ps[i]))
	}
}

// Substr: Go slicing semantics is established by the caller (0<=off, off+n<=len).
func (c *Ctx) Substr(s, off, n *Term) *Term {
	if n.isConst() && n.c.Sign() <= 0 {
		return c.Str("")
	}
	if s.op == OConst && off.isConst() && n.isConst() {
		o, m := off.c.Int64(), n.c.Int64()
		if o < 0 || o >= int64(len(s.str)) {
			return c.Str("")
		}
		e := min(o+m, int64(len(s.str)))
		return c.Str(s.str[o:e])
	}
	ps := c.pieces(s)
	if i, k, ok := c.cut(ps, off); ok {
		end := c.Add(off, n)
		if j, l, ok := c.cut(ps, end); ok {
			var out []*Term
			for p := i; p < len(ps) && (p < j || p == j && l > 0); p++ {
				x := ps[p]
				if x.op == OConst {
					a, b := 0, len(x.str)
					if p == i {
						a = k
					}
					if p == j {
						b = l
					}
					x = c.Str(x.str[a:b])
				}
				out = append(out, x)
			}
			return c.Concat(out...)
		}
		if i > 0 || k > 0 { // drop the prefix
			rest := append([]*Term{}, ps[i:]...)
			if k > 0 {
				rest[0] = c.Str(rest[0].str[k:])
			}
			return c.Substr(c.Concat(rest...), c.Int(0), n)
		}
	}
	d := c.Sub(c.Add(off, n), c.Len(s))
	if off.isConst() && off.c.Sign() == 0 && d.isConst() && d.c.Sign() >= 0 {
		return s
	}
	return c.mk(&Term{op: OSubstr, sort: SStr, args: []*Term{s, off, n}})
}

func (c *Ctx) At(s, i *Term) *Term { // one-char string
	return c.Substr(s, i, c.Int(1))
}

func (c *Ctx) FromCode(i *Term) *Term {
	if i.isConst() {
		return c.Str(string([]byte{byte(i.c.Int64())}))
	}
	if i.op == OToCode {
		if mn, mx := c.lenBounds(i.args[0]); mn == 1 && mx == 1 {
			return i.args[0]
		}
	}
	return c.mk(&Term{op: OFromCode, sort: SStr, args: []*Term{i}})
}
func (c *Ctx) ToCode(s *Term) *Term {
	if s.op == OConst {
		if len(s.str) == 1 {
			return c.Int(int64(s.str[0]))
		}
		return c.Int(-1)
	}
	if s.op == OFromCode {
		return s.args[0]
	}
	return c.mk(&Term{op: OToCode, sort: SInt, args: []*Term{s}})
}
func (c *Ctx) FromInt(i *Term) *Term { // non-negative
	if i.isConst() && i.c.Sign() >= 0 {
		return c.Str(i.c.String())
	}
	return c.mk(&Term{op: OFromInt, sort: SStr, args: []*Term{i}})
}
func (c *Ctx) ToInt(s *Term) *Term {
	if s.op == OConst {
		if s.str == "" {
			return c.Int(-1)
		}
		for i := 0; i < len(s.str); i++ {
			if s.str[i] < '0' || s.str[i] > '9' {
				return c.Int(-1)
			}
		}
		z, _ := new(big.Int).SetString(s.str, 10)
		return c.Big(z)
	}
	if s.op == OFromInt {
		return s.args[0]
	}
	return c.mk(&Term{op: OToInt, sort: SInt, args: []*Term{s}})
}

func (c *Ctx) InRe(s *Term, re string) *Term {
	return c.mk(&Term{op: OInRe, sort: SBool, args: []*Term{s}, str: re})
}
func (c *Ctx) StrLt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.str < b.str)
	}
	return c.mk(&Term{op: OStrLt, sort: SBool, args: []*Term{a, b}})
}
func (c *Ctx) ReplaceAll(s, a, b *Term) *Term {
	if s.op == OConst && a.op == OConst && b.op == OConst {
		return c.Str(strings.ReplaceAll(s.str, a.str, b.str))
	}
	return c.mk(&Term{op: OReplaceAll, sort: SStr, args: []*Term{s, a, b}})
}

func (c *Ctx) canContain(s *Term, sub string) bool {
	if len(sub) == 0 {
		return true
	}
	cs := c.chars(s)
	for i := 0; i < len(sub); i++ {
		if !cs.has(sub[i]) {
			return false
		}
	}
	if s.op == OConcat && len(sub) > 1 {
		return c.mayEmbed(c.pieces(s), []*Term{c.Str(sub)})
	}
	return true
}

// mayEmbed tells whether the pieces of sub may occur one after the other in
// those of s, taking a piece that is not constant for any text over its
// alphabet. False is definite.
func (c *Ctx) mayEmbed(s, sub []*Term) bool {
	type pos struct{ k, o int }
	sets := make([]charset, len(s))
	cur := map[pos]bool{}
	for k, p := range s {
		if p.op == OConst {
			for o := 0; o < len(p.str); o++ {
				cur[pos{k, o}] = true
			}
		} else {
			sets[k] = c.chars(p)
			cur[pos{k, 0}] = true
		}
	}
	cur[pos{len(s), 0}] = true
	// closure: the end of a piece is the start of the next, and a piece that
	// is not constant may end anywhere
	var add func(m map[pos]bool, q pos)
	add = func(m map[pos]bool, q pos) {
		for q.k < len(s) && s[q.k].op == OConst && q.o >= len(s[q.k].str) {
			q = pos{q.k + 1, 0}
		}
		if m[q] {
			return
		}
		m[q] = true
		if q.k < len(s) && s[q.k].op != OConst {
			add(m, pos{q.k + 1, 0})
		}
	}
	step := func(ok func(charset) bool, is func(byte) bool) {
		next := map[pos]bool{}
		for q := range cur {
			if q.k >= len(s) {
				continue
			}
			if s[q.k].op == OConst {
				if is(s[q.k].str[q.o]) {
					add(next, pos{q.k, q.o + 1})
				}
			} else if ok(sets[q.k]) {
				add(next, q)
			}
		}
		cur = next
	}
	one := func(b byte) {
		step(func(cs charset) bool { return cs.has(b) }, func(x byte) bool { return x == b })
	}
	for _, p := range sub {
		if p.op == OConst {
			for i := 0; i < len(p.str) && len(cur) > 0; i++ {
				one(p.str[i])
			}
		} else {
			cs := c.chars(p)
			lo, _ := c.Bounds(c.Len(p))
			n := 0
			if lo != nil && lo.IsInt64() {
				n = int(lo.Int64())
			}
			any := func() {
				step(func(x charset) bool { return x.inter(cs).count() > 0 }, cs.has)
			}
			for i := 0; i < n && i < 200; i++ {
				any()
			}
			for { // any number more
				old := cur
				any()
				grown := false
				for q := range old {
					if !cur[q] {
						cur[q] = true
					}
				}
				for q := range cur {
					if !old[q] {
						grown = true
					}
				}
				if !grown {
					break
				}
			}
		}
		if len(cur) == 0 {
			return false
		}
	}
	return true
}

func (c *Ctx) Contains(s, sub *Term) *Term {
	if s == sub || sub.isStr("") {
		return c.True
	}
	if s.op == OConst && sub.op == OConst {
		return c.Bool(strings.Contains(s.str, sub.str))
	}
	if sub.op == OConst {
		if !c.canContain(s, sub.str) {
			return c.False
		}
		if len(sub.str) == 1 {
			var alts []*Term
			for _, p := range c.pieces(s) {
				if p.op == OConst {
					if strings.Contains(p.str, sub.str) {
						return c.True
					}
					continue
				}
				if p.op == OFromCode {
					alts = append(alts, c.Eq(p.args[0], c.Int(int64(sub.str[0]))))
					continue
				}
				if c.canContain(p, sub.str) {
					alts = append(alts, c.mk(&Term{op: OContains, sort: SBool, args: []*Term{p, sub}}))
				}
			}
			return c.Or(alts...)
		}
		for _, p := range c.pieces(s) {
			if p.op == OConst && strings.Contains(p.str, sub.str) {
				return c.True
			}
		}
	}
	if sub.op != OConst && !c.mayEmbed(c.pieces(s), c.pieces(sub)) {
		return c.False
	}
	if t := c.containsBySep(s, sub); t != nil {
		return t
	}
	return c.mk(&Term{op: OContains, sort: SBool, args: []*Term{s, sub}})
}

// containsBySep lines the text up at a separator that only constant pieces
// hold, as the dots of a token. Nil: there is none.
func (c *Ctx) containsBySep(s, sub *Term) *Term {
	if sub.op != OConcat {
		return nil
	}
	split := func(t *Term, sep string) []*Term {
		out := []*Term{c.Str("")}
		for _, p := range c.pieces(t) {
			if p.op != OConst {
				cs := c.chars(p)
				if cs.has(sep[0]) {
					return nil
				}
				out[len(out)-1] = c.Concat(out[len(out)-1], p)
				continue
			}
			for i, x := range strings.Split(p.str, sep) {
				if i > 0 {
					out = append(out, c.Str(""))
				}
				out[len(out)-1] = c.Concat(out[len(out)-1], c.Str(x))
			}
		}
		return out
	}
	tried := charset{}
	for _, p := range sub.args {
		if p.op != OConst {
			continue
		}
		for i := 0; i < len(p.str); i++ {
			b := p.str[i]
			if tried.has(b) {
				continue
			}
			tried.add(b)
			x := split(sub, string(rune(b)))
			if b >= 128 || x == nil || len(x) < 2 {
				continue
			}
			y := split(s, string(rune(b)))
			if y == nil {
				continue
			}
			n := len(x) - 1
			var alts []*Term
			for j := 0; j+n < len(y); j++ {
				cs := []*Term{c.Suffix(x[0], y[j]), c.Prefix(x[n], y[j+n])}
				for k := 1; k < n; k++ {
					cs = append(cs, c.Eq(y[j+k], x[k]))
				}
				alts = append(alts, c.And(cs...))
			}
			return c.Or(alts...)
		}
	}
	return nil
}

// IndexOf resolves structurally where it can.
func (c *Ctx) IndexOf(s, sub, from *Term) *Term {
	if s.op == OConst && sub.op == OConst && from.isConst() {
		f := from.c.Int64()
		if f < 0 || f > int64(len(s.str)) {
			return c.Int(-1)
		}
		i := strings.Index(s.str[f:], sub.str)
		if i < 0 {
			return c.Int(-1)
		}
		return c.Int(f + int64(i))
	}
	if sub.op == OConst && from.isConst() && from.c.Sign() == 0 {
		if !c.canContain(s, sub.str) {
			return c.Int(-1)
		}
		if len(sub.str) == 1 {
			pre := c.Int(0)
			ok := true
			for _, p := range c.pieces(s) {
				if p.op == OConst {
					if i := strings.Index(p.str, sub.str); i >= 0 {
						return c.Add(pre, c.Int(int64(i)))
					}
				} else if c.canContain(p, sub.str) {
					ok = false
					break
				}
				pre = c.Add(pre, c.Len(p))
			}
			if ok {
				return c.Int(-1)
			}
		}
	}
	return c.mk(&Term{op: OIndexOf, sort: SInt, args: []*Term{s, sub, from}})
}

func (c *Ctx) Prefix(p, s *Term) *Term {
	if p == s || p.isStr("") {
		return c.True
	}
	pp, ps := c.pieces(p), c.pieces(s)
	if len(pp) == 0 {
		return c.True
	}
	if len(ps) == 0 {
		return c.Eq(p, s)
	}
	if pp[0] == ps[0] {
		return c.Prefix(c.Concat(pp[1:]...), c.Concat(ps[1:]...))
	}
	if pp[0].op == OConst && ps[0].op == OConst {
		a, b := pp[0].str, ps[0].str
		n := min(len(a), len(b))
		if a[:n] != b[:n] {
			return c.False
		}
		return c.Prefix(c.Concat(append([]*Term{c.Str(a[n:])}, pp[1:]...)...), c.Concat(append([]*Term{c.Str(b[n:])}, ps[1:]...)...))
	}
	if p.op == OConst {
		// leading variable that excludes the first separator following it
		cs := c.chars(ps[0])
		for i := 0; i < len(p.str); i++ {
			if !cs.has(p.str[i]) { // ps[0] must end at or before i
				if len(ps) == 1 {
					return c.False
				}
				nx := ps[1]
				if nx.op == OConst && nx.str[0] == p.str[i] && !cs.has(nx.str[0]) {
					return c.And(c.Eq(ps[0], c.Str(p.str[:i])), c.Prefix(c.Str(p.str[i:]), c.Concat(ps[1:]...)))
				}
				break
			}
		}
	}
	_, h := c.lenBounds(s)
	l, _ := c.lenBounds(p)
	if h >= 0 && l > h {
		return c.False
	}
	return c.mk(&Term{op: OPrefix, sort: SBool, args: []*Term{p, s}})
}

func (c *Ctx) Suffix(p, s *Term) *Term {
	if p == s || p.isStr("") {
		return c.True
	}
	pp, ps := c.pieces(p), c.pieces(s)
	if len(pp) == 0 {
		return c.True
	}
	if len(ps) == 0 {
		return c.Eq(p, s)
	}
	lp, ls := pp[len(pp)-1], ps[len(ps)-1]
	rp, rs := pp[:len(pp)-1], ps[:len(ps)-1]
	if lp == ls {
		return c.Suffix(c.Concat(rp...), c.Concat(rs...))
	}
	if lp.op == OConst && ls.op == OConst {
		a, b := lp.str, ls.str
		n := min(len(a), len(b))
		if a[len(a)-n:] != b[len(b)-n:] {
			return c.False
		}
		return c.Suffix(c.Concat(c.Concat(rp...), c.Str(a[:len(a)-n])), c.Concat(c.Concat(rs...), c.Str(b[:len(b)-n])))
	}
	if p.op == OConst {
		cs := c.chars(ls)
		for i := len(p.str) - 1; i >= 0; i-- {
			if !cs.has(p.str[i]) {
				if len(rs) == 0 {
					return c.False
				}
				nx := rs[len(rs)-1]
				if nx.op == OConst {
					ch := nx.str[len(nx.str)-1]
					if ch == p.str[i] && !cs.has(ch) {
						return c.And(c.Eq(ls, c.Str(p.str[i+1:])), c.Suffix(c.Str(p.str[:i+1]), c.Concat(rs...)))
					}
				}
				break
			}
		}
	}
	_, h := c.lenBounds(s)
	l, _ := c.lenBounds(p)
	if h >= 0 && l > h {
		return c.False
	}
	return c.mk(&Term{op: OSuffix, sort: SBool, args: []*Term{p, s}})
}

func (c *Ctx) eqStr(a, b *Term) *Term {
	pa, pb := append([]*Term{}, c.pieces(a)...), append([]*Term{}, c.pieces(b)...)
	var conj []*Term
	for {
		changed := false
		// strip equal / literal prefixes
		if len(pa) > 0 && len(pb) > 0 {
			x, y := pa[0], pb[0]
			if x == y {
				pa, pb = pa[1:], pb[1:]
				changed = true
			} else if x.op == OConst && y.op == OConst {
				n := min(len(x.str), len(y.str))
				if x.str[:n] != y.str[:n] {
					return c.False
				}
				pa, pb = trimL(c, pa, n), trimL(c, pb, n)
				changed = true
			} else if x.op == OFromCode && y.op == OFromCode {
				conj = append(conj, c.Eq(x.args[0], y.args[0]))
				pa, pb = pa[1:], pb[1:]
				changed = true
			} else if x.op == OFromCode && y.op == OConst {
				conj = append(conj, c.Eq(x.args[0], c.Int(int64(y.str[0]))))
				pa, pb = pa[1:], trimL(c, pb, 1)
				changed = true
			} else if y.op == OFromCode && x.op == OConst {
				conj = append(conj, c.Eq(y.args[0], c.Int(int64(x.str[0]))))
				pb, pa = pb[1:], trimL(c, pa, 1)
				changed = true
			}
		}
		if !changed && len(pa) > 0 && len(pb) > 0 {
			x, y := pa[len(pa)-1], pb[len(pb)-1]
			if x == y {
				pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
				changed = true
			} else if x.op == OConst && y.op == OConst {
				n := min(len(x.str), len(y.str))
				if x.str[len(x.str)-n:] != y.str[len(y.str)-n:] {
					return c.False
				}
				pa, pb = trimR(c, pa, n), trimR(c, pb, n)
				changed = true
			}
		}
		if !changed {
			// separator rule
			for swap := 0; swap < 2 && !changed; swap++ {
				if len(pa) >= 2 && pa[0].op != OConst && pa[1].op == OConst {
					sep := pa[1].str[0]
					cs := c.chars(pa[0])
					if !cs.has(sep) && len(pb) > 0 {
						if pb[0].op == OConst {
							if i := strings.IndexByte(pb[0].str, sep); i >= 0 {
								conj = append(conj, c.Eq(pa[0], c.Str(pb[0].str[:i])))
								pa, pb = pa[1:], trimL(c, pb, i)
								changed = true
							}
						} else if len(pb) >= 2 && pb[1].op == OConst && pb[1].str[0] == sep {
							cs2 := c.chars(pb[0])
							if !cs2.has(sep) {
								conj = append(conj, c.Eq(pa[0], pb[0]))
								pa, pb = pa[1:], pb[1:]
								changed = true
							}
						}
					}
				}
				pa, pb = pb, pa
			}
			// the same from the right
			for swap := 0; swap < 2 && !changed; swap++ {
				if n := len(pa); n >= 2 && pa[n-1].op != OConst && pa[n-2].op == OConst && len(pb) > 0 {
					l := pa[n-2].str
					sep := l[len(l)-1]
					cs := c.chars(pa[n-1])
					if !cs.has(sep) {
						m := len(pb)
						if pb[m-1].op == OConst {
							if i := strings.LastIndexByte(pb[m-1].str, sep); i >= 0 {
								conj = append(conj, c.Eq(pa[n-1], c.Str(pb[m-1].str[i+1:])))
								pb = trimR(c, pb, len(pb[m-1].str)-i-1)
								pa = pa[:n-1]
								changed = true
							}
						} else if m >= 2 && pb[m-2].op == OConst && pb[m-2].str[len(pb[m-2].str)-1] == sep {
							cs2 := c.chars(pb[m-1])
							if !cs2.has(sep) {
								conj = append(conj, c.Eq(pa[n-1], pb[m-1]))
								pa, pb = pa[:n-1], pb[:m-1]
								changed = true
							}
						}
					}
				}
				pa, pb = pb, pa
			}
		}
		if !changed {
			break
		}
	}
	ra, rb := c.Concat(pa...), c.Concat(pb...)
	if ra == rb {
		return c.And(conj...)
	}
	if rb.isStr("") || ra.isStr("") {
		rest := pa
		if ra.isStr("") {
			rest = pb
		}
		for _, p := range rest {
			l, _ := c.lenBounds(p)
			if l > 0 {
				return c.False
			}
			if p.op == OConst {
				return c.False
			}
			conj = append(conj, c.mkEq(p, c.Str("")))
		}
		return c.And(conj...)
	}
	if len(pa) == 1 && len(pb) == 1 || len(pa) > 1 || len(pb) > 1 {
		la, ha := c.lenBounds(ra)
		lb, hb := c.lenBounds(rb)
		if ha >= 0 && lb > ha || hb >= 0 && la > hb {
			return c.False
		}
		if ra.op == OConst {
			ra, rb = rb, ra
			pa, pb = pb, pa
		}
		if rb.op == OConst {
			cs := c.chars(ra)
			for i := 0; i < len(rb.str); i++ {
				if !cs.has(rb.str[i]) {
					return c.False
				}
			}
			for _, p := range pa {
				if p.op == OConst && !strings.Contains(rb.str, p.str) {
					return c.False
				}
			}
			if ra.op == OIte && ra.args[1].isConst() && ra.args[2].isConst() {
				return c.And(append(conj, c.Ite(ra.args[0], c.Eq(ra.args[1], rb), c.Eq(ra.args[2], rb)))...)
			}
			if ra.op == OFromInt {
				ok := rb.str == "0" || (len(rb.str) > 0 && rb.str[0] != '0')
				z, good := new(big.Int).SetString(rb.str, 10)
				if !ok || !good || z.Sign() < 0 {
					return c.False
				}
				lo, _ := c.Bounds(ra.args[0])
				if lo != nil && lo.Sign() >= 0 {
					return c.And(append(conj, c.Eq(ra.args[0], c.Big(z)))...)
				}
			}
		}
		if ra.op == OFromInt && rb.op == OFromInt {
			l1, _ := c.Bounds(ra.args[0])
			l2, _ := c.Bounds(rb.args[0])
			if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
				return c.And(append(conj, c.Eq(ra.args[0], rb.args[0]))...)
			}
		}
	}
	conj = append(conj, c.mkEq(ra, rb))
	return c.And(conj...)
}

func (c *Ctx) mkEq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func trimL(c *Ctx, ps []*Term, n int) []*Term {
	if n == 0 {
		return ps
	}
	if n == len(ps[0].str) {
		return ps[1:]
	}
	return append([]*Term{c.Str(ps[0].str[n:])}, ps[1:]...)
}
func trimR(c *Ctx, ps []*Term, n int) []*Term {
	if n == 0 {
		return ps
	}
	l := ps[len(ps)-1]
	if n == len(l.str) {
		return ps[:len(ps)-1]
	}
	return append(append([]*Term{}, ps[:len(ps)-1]...), c.Str(l.str[:len(l.str)-n]))
}

func (t *Term) vars(out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OVar {
		out[t] = true
	}
	for _, a := range t.args {
		a.vars(out, seen)
	}
}

func (t *Term) occurs(v *Term) bool {
	m := map[*Term]bool{}
	t.vars(m, map[*Term]bool{})
	return m[v]
}

func (t *Term) String() string {
	switch t.op {
	case OVar:
		return t.str
	case OConst:
		switch t.sort {
		case SBool:
			return fmt.Sprint(t.b)
		case SInt:
			return t.c.String()
		}
		return fmt.Sprintf("%q", t.str)
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	if t.op == OLin {
		sb.WriteString(" " + t.c.String())
	}
	for i, a := range t.args {
		sb.WriteByte(' ')
		if t.coef != nil {
			sb.WriteString(t.coef[i].String() + "*")
		}
		sb.WriteString(a.String())
	}
	if t.op == OInRe {
		sb.WriteString(" " + t.str)
	}
	sb.WriteString(")")
	return sb.String()
}
