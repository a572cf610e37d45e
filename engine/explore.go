package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Dec is one decision of a path.
type Dec int

type Job struct {
	prefix []Dec
	model  map[string]any // satisfies the prefix (nil: unknown)
	unk    bool
	fixed  map[string]any // values of inputs: the continuation of a path the engine could not encode
}

type Input struct {
	Label string `json:"label"`
	Kind  string `json:"kind"`
	Val   any    `json:"val"`
	term  *Term
}

type Obs struct {
	Label string `json:"label"`
	Val   string `json:"val"`
	v     value
}

type Violation struct {
	Harness string  `json:"harness"`
	Label   string  `json:"label"`
	Where   string  `json:"where"`
	Inputs  []Input `json:"inputs"`
}

type Witness struct {
	Harness string   `json:"harness"`
	Inputs  []Input  `json:"inputs"`
	Obs     []Obs    `json:"obs"`
	Reached []string `json:"reached"`
}

// Explorer explores all paths of one harness.
type Explorer struct {
	prog     *Program
	harness  string
	opts     Opts
	solverMx sync.Mutex
	stats    SolverStats
	cache    *sync.Map

	mu        sync.Mutex
	cond      *sync.Cond
	jobs      []Job
	busy      int
	stop      bool
	deadline  time.Time
	paths     int64
	completed int64
	infeas    int64
	transit   int64
	decisions int64
	asserts   int64
	provedN   int64
	provedT   int64
	unkAssert map[string]int
	incompl   map[string]int
	fixedRuns map[string]int // continuations with the solver's values per reason
	viol      map[string][]Violation
	wit       []Witness
	witSeen   int
	reach     map[string]int
	reachWit  map[string]Witness
	rng       *rand.Rand
	funcs     map[string]bool
	fnSeen    sync.Map
	maxDepth  int
	branchUnk int64
	events    int64
	raceQ     int64
}

type Opts struct {
	MaxPaths   int
	MaxInstr   int
	MaxViol    int
	Workers    int
	Preempt    int
	Budget     time.Duration
	WitCap     int
	Seed       int64
	MapOrders  bool
	Race       bool
	ChanBlock  bool
	InstrPerPt bool
	Thorough   bool
}

func NewExplorer(p *Program, h string, o Opts) *Explorer {
	e := &Explorer{prog: p, harness: h, opts: o, cache: &sync.Map{}, unkAssert: map[string]int{}, incompl: map[string]int{}, fixedRuns: map[string]int{}, viol: map[string][]Violation{}, reach: map[string]int{}, reachWit: map[string]Witness{}, funcs: map[string]bool{}, rng: rand.New(rand.NewSource(o.Seed))}
	e.cond = sync.NewCond(&e.mu)
	return e
}

func (e *Explorer) push(j Job) {
	e.mu.Lock()
	e.jobs = append(e.jobs, j)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Explorer) Run() {
	e.deadline = time.Now().Add(e.opts.Budget)
	e.jobs = []Job{{model: map[string]any{}}}
	var wg sync.WaitGroup
	for w := 0; w < e.opts.Workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			solver := NewSolver(&e.stats, e.cache)
			defer solver.Close()
			in := NewInterp(e.prog, e, solver)
			for {
				e.mu.Lock()
				for len(e.jobs) == 0 && e.busy > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.jobs) == 0 {
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				if time.Until(e.deadline) < e.opts.Budget/2 {
					// not everything may fit: look everywhere instead of finishing one corner
					k := e.rng.Intn(len(e.jobs))
					e.jobs[k], e.jobs[len(e.jobs)-1] = e.jobs[len(e.jobs)-1], e.jobs[k]
				}
				j := e.jobs[len(e.jobs)-1]
				e.jobs = e.jobs[:len(e.jobs)-1]
				e.busy++
				e.paths++
				if e.opts.MaxPaths > 0 && int(e.paths) > e.opts.MaxPaths || time.Now().After(e.deadline) {
					e.stop = true
					e.incompl["path or time budget exhausted"] += len(e.jobs) + 1
					e.busy--
					e.mu.Unlock()
					e.cond.Broadcast()
					return
				}
				e.mu.Unlock()
				in.RunPath(j)
				e.mu.Lock()
				e.busy--
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
	wg.Wait()
}

func (e *Explorer) note(m map[string]int, k string) {
	e.mu.Lock()
	m[k]++
	e.mu.Unlock()
}

// Path is the state of one execution.
type Path struct {
	in      *Interp
	e       *Explorer
	ctx     *Ctx
	solver  *Solver
	job     Job
	pos     int
	decs    []Dec
	pc      []*Term
	model   Model
	raw     map[string]any
	modelOK bool
	unk     bool
	inputs  []Input
	obs     []Obs
	reached []string
	instrs  int
	labels  map[string]int
	viol    bool
	steps   int64
}

func (p *Path) newVar(name string, s Sort) *Term {
	v := p.ctx.Var(name, s)
	p.seed(v)
	return v
}

func (p *Path) seed(v *Term) {
	if _, ok := p.model[v]; ok {
		return
	}
	if p.raw != nil {
		if x, ok := p.raw[v.str]; ok {
			p.model[v] = x
			return
		}
	}
	p.model[v] = defaultVal(p.ctx, v)
}

func (p *Path) fresh(prefix string, s Sort) *Term {
	v := p.ctx.Fresh(prefix, s)
	p.seed(v)
	return v
}

// slice returns the path condition conjuncts connected to cond.
func (p *Path) slice(cond *Term) []*Term {
	c := p.ctx
	// renormalise the path condition
	var npc []*Term
	seen := map[*Term]bool{}
	for _, t := range p.pc {
		n := c.norm(t)
		if n.isTrue() || seen[n] {
			continue
		}
		seen[n] = true
		if n.op == OAnd {
			for _, a := range n.args {
				if !seen[a] {
					seen[a] = true
					npc = append(npc, a)
				}
			}
			continue
		}
		npc = append(npc, n)
	}
	p.pc = npc
	vs := map[*Term]bool{}
	varsOf := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		t.vars(m, map[*Term]bool{})
		for v := range m {
			for _, x := range c.info[v].extra {
				x.vars(m, map[*Term]bool{})
			}
		}
		return m
	}
	for v := range varsOf(cond) {
		vs[v] = true
	}
	used := make([]bool, len(npc))
	vv := make([]map[*Term]bool, len(npc))
	for i, t := range npc {
		vv[i] = varsOf(t)
	}
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, t := range npc {
			if used[i] {
				continue
			}
			hit := false
			for v := range vv[i] {
				if vs[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				out = append(out, t)
				for v := range vv[i] {
					vs[v] = true
				}
			}
		}
	}
	sortTerms(out)
	return out
}

func (p *Path) check(cond *Term) (Result, Model) {
	if cond.isFalse() {
		return Unsat, nil
	}
	if cond.isTrue() {
		return Sat, p.model
	}
	q := append(p.slice(cond), cond)
	for _, t := range q {
		if t.isFalse() {
			return Unsat, nil
		}
	}
	if p.pcFalse() {
		return Unsat, nil
	}
	r, m := p.solver.Check(p.ctx, q)
	if r != Sat {
		return r, nil
	}
	// merge over the current model
	nm := Model{}
	for k, v := range p.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return Sat, nm
}

func (p *Path) pcFalse() bool {
	for _, t := range p.pc {
		if t.isFalse() {
			return true
		}
	}
	return false
}

// rawOf evaluates every declared variable under m.
func (p *Path) rawOf(m Model) map[string]any {
	r := make(map[string]any, len(p.ctx.info))
	memo := map[*Term]any{}
	for k := range p.ctx.info {
		r[k.str] = p.ctx.eval(k, m, memo)
	}
	return r
}

// ready is called when the path leaves its prefix: the inherited model must
// satisfy everything asserted so far, otherwise it is solved for again.
func (p *Path) ready() {
	if p.modelOK || p.unk {
		return
	}
	p.modelOK = true
	p.slice(p.ctx.True)
	ok := true
	for _, t := range p.pc {
		if v, good := p.ctx.evalBool(t, p.model); !good || !v {
			ok = false
			break
		}
	}
	if ok {
		ok = p.infoOK()
	}
	if ok {
		return
	}
	q := append([]*Term{}, p.pc...)
	// mention every constrained variable so that its domain is respected
	for v := range p.ctx.info {
		if _, b := p.ctx.subst[v]; !b {
			q = append(q, p.ctx.mk(&Term{op: OEq, sort: SBool, args: []*Term{v, v}}))
		}
	}
	sortTerms(q)
	r, m := p.solver.Check(p.ctx, q)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible"})
	case Unknown:
		p.unk = true
	default:
		p.model = m
	}
}

func (p *Path) infoOK() bool {
	memo := map[*Term]any{}
	for v, vi := range p.ctx.info {
		switch x := p.ctx.eval(v, p.model, memo).(type) {
		case string:
			if len(x) < vi.minLen || vi.maxLen >= 0 && len(x) > vi.maxLen {
				return false
			}
			for i := 0; i < len(x); i++ {
				if !vi.chars.has(x[i]) {
					return false
				}
			}
		case *big.Int:
			if vi.lo != nil && x.Cmp(vi.lo) < 0 || vi.hi != nil && x.Cmp(vi.hi) > 0 {
				return false
			}
		}
		for _, e := range vi.extra {
			if b, ok := p.ctx.evalBool(e, p.model); !ok || !b {
				return false
			}
		}
	}
	return true
}

// assertCond adds cond to the path, recording bindings and facts.
func (p *Path) assertCond(cond *Term) {
	c := p.ctx
	cond = c.norm(cond)
	if cond.isTrue() {
		return
	}
	if cond.op == OAnd {
		for _, a := range cond.args {
			p.assertCond(a)
		}
		return
	}
	bump := c.bump
	switch cond.op {
	case OVar:
		p.bind(cond, c.True)
		return
	case ONot:
		a := cond.args[0]
		if a.op == OVar {
			p.bind(a, c.False)
			return
		}
		if a.op == OContains && a.args[0].op == OVar && a.args[1].op == OConst && len(a.args[1].str) == 1 {
			c.info[a.args[0]].chars.del(a.args[1].str[0])
			bump()
			return
		}
		if a.op == OEq && a.args[0].sort == SStr {
			for i := 0; i < 2; i++ {
				if a.args[i].op == OVar && a.args[1-i].isStr("") {
					c.info[a.args[i]].minLen = max(1, c.info[a.args[i]].minLen)
					bump()
					return
				}
			}
		}
		if a.op == OOr {
			for _, x := range a.args {
				p.assertCond(c.Not(x))
			}
			return
		}
	case OPrefix:
		if v, k := cond.args[1], cond.args[0]; v.op == OVar && k.op == OConst {
			r := p.subVar(v, ".sfx", k.str, func(m string) (string, bool) { return strings.CutPrefix(m, k.str) })
			p.bind(v, c.Concat(k, r))
			return
		}
	case OSuffix:
		if v, k := cond.args[1], cond.args[0]; v.op == OVar && k.op == OConst {
			r := p.subVar(v, ".pfx", k.str, func(m string) (string, bool) { return strings.CutSuffix(m, k.str) })
			p.bind(v, c.Concat(r, k))
			return
		}
	case OContains:
		if v, k := cond.args[0], cond.args[1]; v.op == OVar && k.op == OConst && len(k.str) == 1 {
			p.splitFirst(v, k.str)
			return
		}
	case OEq:
		for i := 0; i < 2; i++ {
			v, t := cond.args[i], cond.args[1-i]
			if v.op == OVar && !t.occurs(v) {
				// prefer eliminating the later variable
				if t.op == OVar && t.id > v.id {
					v, t = t, v
				}
				p.bind(v, t)
				return
			}
		}
		if cond.args[0].sort == SInt {
			// unit-coefficient variable in lin = const
			d := c.Sub(cond.args[0], cond.args[1])
			if d.op == OLin {
				for i, a := range d.args {
					if a.op == OVar && (d.coef[i].Cmp(big.NewInt(1)) == 0 || d.coef[i].Cmp(big.NewInt(-1)) == 0) {
						rest := c.Sub(d, c.MulC(a, d.coef[i]))
						rest = c.MulC(rest, new(big.Int).Neg(d.coef[i]))
						if !rest.occurs(a) {
							p.bind(a, rest)
							return
						}
					}
				}
				if len(d.args) == 1 && d.args[0].op == OLen && d.args[0].args[0].op == OVar {
					q := new(big.Int).Neg(d.c)
					q.Quo(q, d.coef[0])
					vi := c.info[d.args[0].args[0]]
					vi.minLen, vi.maxLen = int(q.Int64()), int(q.Int64())
					if vi.minLen == 0 {
						p.bind(d.args[0].args[0], c.Str(""))
					}
					bump()
					return
				}
			}
		}
	case OLe:
		d := cond.args[0]
		k, ts, co := c.linParts(d)
		if len(ts) == 1 {
			a := ts[0]
			// co*a + k <= 0
			nk := new(big.Int).Neg(k)
			var lo, hi *big.Int
			if co[0].Sign() > 0 {
				hi, _ = new(big.Int).DivMod(nk, co[0], new(big.Int))
			} else {
				q, m := new(big.Int).DivMod(k, new(big.Int).Neg(co[0]), new(big.Int))
				if m.Sign() > 0 {
					q.Add(q, big.NewInt(1))
				}
				lo = q
			}
			switch {
			case a.op == OVar:
				vi := c.info[a]
				if lo != nil && (vi.lo == nil || lo.Cmp(vi.lo) > 0) {
					vi.lo = lo
				}
				if hi != nil && (vi.hi == nil || hi.Cmp(vi.hi) < 0) {
					vi.hi = hi
				}
				if vi.lo != nil && vi.hi != nil && vi.lo.Cmp(vi.hi) == 0 {
					p.bind(a, c.Big(vi.lo))
				}
				bump()
				return
			case a.op == OLen && a.args[0].op == OVar:
				vi := c.info[a.args[0]]
				if lo != nil && int(lo.Int64()) > vi.minLen {
					vi.minLen = int(lo.Int64())
				}
				if hi != nil && (vi.maxLen < 0 || int(hi.Int64()) < vi.maxLen) {
					vi.maxLen = int(hi.Int64())
				}
				if vi.maxLen == 0 {
					p.bind(a.args[0], c.Str(""))
				}
				bump()
				return
			}
		}
	}
	p.pc = append(p.pc, cond)
}

// subVar makes a part of string variable v (deterministic name), seeded from
// the value v has in the current model.
func (p *Path) subVar(v *Term, suffix, key string, part func(string) (string, bool)) *Term {
	c := p.ctx
	vi := c.info[v]
	r := c.Var(v.str+suffix+"("+key+")", SStr)
	ri := c.info[r]
	ri.chars = vi.chars
	if vi.maxLen >= 0 {
		ri.maxLen = vi.maxLen
	}
	if p.raw != nil {
		if x, ok := p.raw[r.str]; ok {
			p.model[r] = x
			return r
		}
	}
	if m, ok := p.model[v].(string); ok {
		if x, ok := part(m); ok {
			p.model[r] = x
			return r
		}
	}
	p.seed(r)
	return r
}

// splitFirst rewrites v as a ++ sep ++ b with sep absent from a.
func (p *Path) splitFirst(v *Term, sep string) {
	c := p.ctx
	a := p.subVar(v, ".a", sep, func(m string) (string, bool) { x, _, ok := strings.Cut(m, sep); return x, ok })
	b := p.subVar(v, ".b", sep, func(m string) (string, bool) { _, x, ok := strings.Cut(m, sep); return x, ok })
	c.info[a].chars.del(sep[0])
	p.bind(v, c.Concat(a, c.Str(sep), b))
}

// splitLast rewrites v as a ++ sep ++ b with sep absent from b.
func (p *Path) splitLast(v *Term, sep string) {
	c := p.ctx
	cut := func(m string) (string, string, bool) {
		i := strings.LastIndex(m, sep)
		if i < 0 {
			return "", "", false
		}
		return m[:i], m[i+1:], true
	}
	a := p.subVar(v, ".la", sep, func(m string) (string, bool) { x, _, ok := cut(m); return x, ok })
	b := p.subVar(v, ".lb", sep, func(m string) (string, bool) { _, x, ok := cut(m); return x, ok })
	c.info[b].chars.del(sep[0])
	p.bind(v, c.Concat(a, c.Str(sep), b))
}

// bind eliminates variable v := t.
func (p *Path) bind(v, t *Term) {
	c := p.ctx
	vi := c.info[v]
	mv, had := p.model[v]
	_ = had
	c.bind(v, t)
	delete(p.model, v)
	switch v.sort {
	case SStr:
		if t.op == OVar {
			ti := c.info[t]
			ti.chars = ti.chars.inter(vi.chars)
			ti.minLen = max(ti.minLen, vi.minLen)
			if vi.maxLen >= 0 && (ti.maxLen < 0 || vi.maxLen < ti.maxLen) {
				ti.maxLen = vi.maxLen
			}
			p.model[t] = pick(p.model[t], mv)
		} else if !t.isConst() {
			for _, x := range c.pieces(t) {
				if x.op == OVar {
					c.info[x].chars = c.info[x].chars.inter(vi.chars)
				}
			}
			if vi.minLen > 0 {
				p.assertCond(c.Le(c.Int(int64(vi.minLen)), c.Len(t)))
			}
			if vi.maxLen >= 0 && vi.maxLen < opaqueMax {
				p.assertCond(c.Le(c.Len(t), c.Int(int64(vi.maxLen))))
			}
			cs := c.chars(t)
			if cs.inter(vi.chars) != cs {
				p.pc = append(p.pc, c.InRe(t, regRe("(re.* "+charsetRe(vi.chars)+")", goCharset(vi.chars)+"*")))
			}
		}
	case SInt:
		if !t.isConst() {
			if vi.lo != nil {
				p.assertCond(c.Le(c.Big(vi.lo), t))
			}
			if vi.hi != nil {
				p.assertCond(c.Le(t, c.Big(vi.hi)))
			}
		}
	}
	c.bump()
	for _, x := range vi.extra {
		p.assertCond(x)
	}
}

func goCharset(cs charset) string {
	s := "["
	for i := 0; i < 256; i++ {
		if cs.has(byte(i)) {
			s += fmt.Sprintf(`\x{%x}`, i)
		}
	}
	return s + "]"
}

func pick(a, b any) any {
	if a != nil {
		return a
	}
	return b
}

func (p *Path) evalCond(t *Term) (bool, bool) {
	if p.unk {
		return false, false
	}
	return p.ctx.evalBool(t, p.model)
}

func (p *Path) record(d Dec) {
	p.decs = append(p.decs, d)
	p.pos++
	atomic.AddInt64(&p.e.decisions, 1)
	if len(p.decs) > 4000 {
		panic(pathEnd{"decision limit"})
	}
}

// Branch forks on a symbolic condition.
func (p *Path) Branch(cond *Term) bool { return p.branchRaw(cond, nil) }

// branchRaw is Branch with another way of recording the positive outcome.
func (p *Path) branchRaw(cond *Term, onTrue func()) bool {
	c := p.ctx
	cond = c.norm(cond)
	if cond.isConst() {
		return cond.b
	}
	take := func(side bool) bool {
		switch {
		case !side:
			p.record(0)
			p.assertCond(c.Not(cond))
		default:
			p.record(1)
			if onTrue != nil {
				onTrue()
			} else {
				p.assertCond(cond)
			}
		}
		return side
	}
	if p.pos < len(p.job.prefix) {
		return take(p.job.prefix[p.pos] == 1)
	}
	p.ready()
	side, known := p.evalCond(cond)
	if !known {
		// no usable model: ask for both
		r1, m1 := p.check(cond)
		r0, m0 := p.check(c.Not(cond))
		if r1 == Unsat && r0 == Unsat {
			panic(pathEnd{"infeasible"})
		}
		if r1 != Unsat && r0 != Unsat {
			p.fork(0, m0, r0)
		}
		if r1 != Unsat {
			p.adopt(r1, m1)
			return take(true)
		}
		p.adopt(r0, m0)
		return take(false)
	}
	other := cond
	var od Dec = 1
	if side {
		other = c.Not(cond)
		od = 0
	}
	r, m := p.check(other)
	if r != Unsat {
		p.fork(od, m, r)
	}
	return take(side)
}

func (p *Path) fork(d Dec, m Model, r Result) {
	pre := make([]Dec, len(p.decs)+1)
	copy(pre, p.decs)
	pre[len(p.decs)] = d
	j := Job{prefix: pre, unk: p.unk, fixed: p.job.fixed}
	if r == Sat {
		j.model = p.rawOf(m)
		j.unk = false
	} else {
		j.unk = true
		atomic.AddInt64(&p.e.branchUnk, 1)
	}
	p.e.push(j)
}

func (p *Path) adopt(r Result, m Model) {
	if r == Sat {
		p.model = m
		p.unk = false
		p.modelOK = true
	} else {
		p.unk = true
	}
}

// Choose picks one of n alternatives, exploring all.
func (p *Path) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.job.prefix) {
		d := p.job.prefix[p.pos]
		p.record(d)
		return int(d)
	}
	p.ready()
	for i := n - 1; i >= 1; i-- {
		pre := make([]Dec, len(p.decs)+1)
		copy(pre, p.decs)
		pre[len(p.decs)] = Dec(i)
		p.e.push(Job{prefix: pre, model: p.rawOf(p.model), unk: p.unk, fixed: p.job.fixed})
	}
	p.record(0)
	return 0
}

// Assume restricts the path.
func (p *Path) Assume(cond *Term) {
	cond = p.ctx.norm(cond)
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(pathEnd{"assume"})
	}
	if p.pos < len(p.job.prefix) { // feasible: the parent path went through it
		p.assertCond(cond)
		return
	}
	p.ready()
	if v, ok := p.evalCond(cond); ok && v {
		p.assertCond(cond)
		return
	}
	r, m := p.check(cond)
	if r == Unsat {
		panic(pathEnd{"assume"})
	}
	p.adopt(r, m)
	p.assertCond(cond)
}

// Assert is the property.
func (p *Path) Assert(cond *Term, label string, where func() string) {
	cond = p.ctx.norm(cond)
	if p.pos >= len(p.job.prefix) || cond.isConst() {
		if p.pos >= len(p.job.prefix) {
			atomic.AddInt64(&p.e.asserts, 1)
		}
	}
	if cond.isTrue() {
		if p.pos >= len(p.job.prefix) {
			atomic.AddInt64(&p.e.provedT, 1)
		}
		return
	}
	if p.pos < len(p.job.prefix) {
		d := p.job.prefix[p.pos]
		p.record(d)
		if d == 1 {
			p.Assume(cond)
		}
		return
	}
	p.ready()
	if os.Getenv("SYMASSERT") != "" {
		fmt.Fprintf(os.Stderr, "ASSERT %s: %.600s\n", label, cond.String())
	}
	r, m := p.check(p.ctx.Not(cond))
	switch r {
	case Unsat:
		atomic.AddInt64(&p.e.provedN, 1)
		p.record(0)
		return
	case Unknown:
		p.e.note(p.e.unkAssert, label)
		p.record(0)
		return
	}
	p.viol = true
	p.report(label, where(), m)
	p.record(1)
	p.Assume(cond)
}

func (p *Path) report(label, where string, m Model) {
	v := Violation{Harness: p.e.harness, Label: label, Where: where, Inputs: p.concretise(m)}
	p.e.mu.Lock()
	if len(p.e.viol[label]) < p.e.opts.MaxViol {
		p.e.viol[label] = append(p.e.viol[label], v)
	}
	tot := 0
	for _, x := range p.e.viol {
		tot += len(x)
	}
	if tot >= 40 {
		p.e.stop = true
		p.e.incompl["stopped after 40 candidate violations"]++
	}
	p.e.mu.Unlock()
}

func (p *Path) concretise(m Model) []Input {
	out := make([]Input, len(p.inputs))
	memo := map[*Term]any{}
	for i, in := range p.inputs {
		out[i] = in
		if in.term == nil {
			continue
		}
		v := p.ctx.eval(in.term, m, memo)
		switch x := v.(type) {
		case *big.Int:
			out[i].Val = x.String()
		case string:
			out[i].Val = byteStr(x)
		default:
			out[i].Val = x
		}
	}
	return out
}

// byteStr maps bytes to runes so that JSON keeps them (decoded by the replay).
func byteStr(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

// Concretise forks until the int term has one value.
func (p *Path) Concrete(t *Term, limit int) *big.Int {
	for i := 0; ; i++ {
		t = p.ctx.norm(t)
		if t.isConst() {
			return t.c
		}
		if i > limit {
			panic(unsupported("more than %d values for %s", limit, t))
		}
		var v *big.Int
		if p.pos < len(p.job.prefix) {
			// deterministic: candidate recorded as a decision
			d := p.job.prefix[p.pos]
			p.record(d)
			v = big.NewInt(int64(d))
		} else {
			p.ready()
			if p.unk {
				panic(unsupported("concretise without model"))
			}
			v = p.ctx.Eval(t, p.model).(*big.Int)
			if !v.IsInt64() {
				panic(unsupported("large value"))
			}
			p.record(Dec(v.Int64()))
		}
		if p.Branch(p.ctx.Eq(t, p.ctx.Big(v))) {
			return v
		}
	}
}

func (in *Interp) RunPath(j Job) {
	e := in.e
	var p *Path
	p = &Path{in: in, e: e, ctx: NewCtx(), solver: in.solver, job: j, model: Model{}, raw: j.model, unk: j.unk, labels: map[string]int{}}
	in.p = p
	in.resetPath()
	end := ""
	complete := false
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x.why
				case unsupportedErr:
					end = x.Error()
				case targetPanic:
					// the program under analysis panics: a violation unless expected
					end = "panic"
					if m := p.model; !p.unk {
						p.viol = true
						p.report("panic: "+in.panicStr(x.v), x.where, m)
					}
				default:
					end = fmt.Sprintf("engine error: %v", r)
					if os.Getenv("SYMDEBUG") != "" {
						fmt.Fprintf(os.Stderr, "%v\n%s\n%s\n", r, debug.Stack(), in.where())
					}
				}
			}
		}()
		in.runHarness(e.harness)
		p.ready()
		complete = true
	}()
	in.killGoroutines()
	atomic.AddInt64(&e.transit, int64(p.instrs))
	if len(end) > 120 {
		end = end[:120] + "..."
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(p.decs) > e.maxDepth {
		e.maxDepth = len(p.decs)
	}
	switch {
	case complete:
		e.completed++
		if !p.unk {
			e.witSeen++
			var w *Witness
			mk := func() *Witness {
				if w == nil {
					ww := p.witness()
					w = &ww
				}
				return w
			}
			if len(e.wit) < e.opts.WitCap {
				e.wit = append(e.wit, *mk())
			} else if i := e.rng.Intn(e.witSeen); i < e.opts.WitCap {
				e.wit[i] = *mk()
			}
			for _, l := range p.reached {
				e.reach[l]++
				if _, ok := e.reachWit[l]; !ok {
					e.reachWit[l] = *mk()
				}
			}
		}
	case end == "assume" || end == "infeasible":
		e.infeas++
	case end == "panic":
		e.completed++
	case j.fixed != nil:
		e.incompl[end+" (with values)"]++
	default:
		e.incompl[end]++
		e.continueFixed(p, end)
		if os.Getenv("SYMDEBUG") != "" {
			fmt.Fprintln(os.Stderr, "incomplete:", end, in.where())
		}
	}
}

// fixedCap is how many continuations one reason gets before they are thinned
// out.
const fixedCap = 48

// continueFixed re-runs a path that met something without a symbolic model,
// with the solver's values for the inputs read so far. The paths below it
// stay counted as incomplete: this only looks for violations there.
func (e *Explorer) continueFixed(p *Path, why string) {
	if p.unk {
		return
	}
	n := e.fixedRuns[why]
	e.fixedRuns[why]++
	if n >= fixedCap && n%(n/fixedCap+1) != 0 {
		return
	}
	fixed := map[string]any{}
	for _, in := range p.concretise(p.model) {
		fixed[in.Label] = in.Val
	}
	e.jobs = append(e.jobs, Job{model: map[string]any{}, fixed: fixed})
}

// fix gives an input its value on a continuation.
func (p *Path) fix(label string, v *Term) {
	x, ok := p.job.fixed[label]
	if !ok {
		return
	}
	c := p.ctx
	switch y := x.(type) {
	case bool:
		p.Assume(c.Eq(v, c.Bool(y)))
	case string:
		if v.sort == SStr {
			p.Assume(c.Eq(v, c.Str(unbyteStr(y))))
		} else if n, ok := new(big.Int).SetString(y, 10); ok {
			p.Assume(c.Eq(v, c.Big(n)))
		}
	}
}

func unbyteStr(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

func (p *Path) witness() Witness {
	w := Witness{Harness: p.e.harness, Inputs: p.concretise(p.model), Reached: append([]string{}, p.reached...)}
	for _, o := range p.obs {
		o.Val = p.obsStr(o.v)
		w.Obs = append(w.Obs, o)
	}
	return w
}

func (p *Path) obsStr(v value) string {
	if t, ok := v.(*Term); ok {
		switch x := p.ctx.Eval(t, p.model).(type) {
		case *big.Int:
			return x.String()
		case string:
			return fmt.Sprintf("%q", byteStr(x))
		default:
			return fmt.Sprint(x)
		}
	}
	switch x := v.(type) {
	case string:
		return fmt.Sprintf("%q", byteStr(x))
	default:
		return fmt.Sprint(x)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
