package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	in        *Interp
	g         *gor
	caller    *frame
	fn        *ssa.Function
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	env       []value
	slots     map[ssa.Value]int32
	locals    []value
	defers    *deferred
	result    value
	panicking bool
	panicVal  targetPanic
	tolerant  bool
	instr     ssa.Instruction
}

type deferred struct {
	fn    value
	args  []value
	tail  *deferred
	instr *ssa.Defer
}

type Interp struct {
	prog    *Program
	e       *Explorer
	p       *Path
	solver  *Solver
	shared  map[*ssa.Global]*value // dependency packages (per worker)
	sharedI map[*ssa.Package]bool
	globals map[*ssa.Global]*value // repo packages (per path)
	inited  map[*ssa.Package]bool
	side    map[any]any // per path side tables
	logging bool        // text is made for the log
	consts  map[*ssa.Const]value

	gs      []*gor
	cur     *gor
	abort   any
	aborted bool
	preempt int
	events  []*event
	tracing bool
	sched   *schedState
	depth   int
	httpSeq int
	rndSeq  uint64
	mrSeq   uint64 // draws of math/rand's shared source
	now     *Term
	inInit  int
	gdone   chan struct{}
	advance int64 // seconds the clock has been put forward
	serial  int
}

func NewInterp(p *Program, e *Explorer, s *Solver) *Interp {
	return &Interp{prog: p, e: e, solver: s, shared: map[*ssa.Global]*value{}, sharedI: map[*ssa.Package]bool{}, consts: map[*ssa.Const]value{}}
}

func (in *Interp) resetPath() {
	in.globals = map[*ssa.Global]*value{}
	in.inited = map[*ssa.Package]bool{}
	in.side = map[any]any{}
	in.logging = false
	in.gs = nil
	in.cur = nil
	in.abort = nil
	in.aborted = false
	in.events = nil
	in.tracing = false
	in.preempt = in.e.opts.Preempt
	in.rndSeq = 0
	in.mrSeq = 0
	in.now = nil
	in.depth = 0
	in.inInit = 0
	in.httpSeq = 0
	in.gdone = make(chan struct{}, 16)
	in.advance = 0
	in.serial = 0
}

func (in *Interp) where() string {
	defer func() { recover() }()
	var sb strings.Builder
	if in.cur == nil {
		return ""
	}
	for f := in.cur.top; f != nil; f = f.caller {
		sb.WriteString(f.fn.String())
		if f.instr != nil {
			sb.WriteString(" at " + in.prog.pos(f.instr.Pos()) + " [" + f.instr.String() + "]")
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

func (in *Interp) c() *Ctx { return in.p.ctx }

// ---- harness --------------------------------------------------------------------

func (in *Interp) runHarness(name string) {
	fn := in.prog.harness[name]
	if fn == nil {
		panic(unsupported("no harness %s", name))
	}
	g := &gor{id: 0, wake: make(chan struct{}, 1)}
	in.gs = []*gor{g}
	in.cur = g
	in.call(nil, fn, nil, nil)
	in.finishRace()
}

// ---- globals ----------------------------------------------------------------------

func (in *Interp) global(g *ssa.Global) *value {
	pkg := g.Pkg
	repo := in.prog.isRepo(pkg)
	m, ini := in.shared, in.sharedI
	if repo {
		m, ini = in.globals, in.inited
	}
	if p, ok := m[g]; ok {
		return p
	}
	if !ini[pkg] {
		ini[pkg] = true
		for _, mem := range pkg.Members {
			if gg, ok := mem.(*ssa.Global); ok {
				v := zero(deref(gg.Type()))
				m[gg] = &v
			}
		}
		if init := pkg.Func("init"); init != nil && len(init.Blocks) > 0 {
			in.runInit(init)
		}
	}
	p, ok := m[g]
	if !ok {
		v := zero(deref(g.Type()))
		p = &v
		m[g] = p
	}
	return p
}

func (in *Interp) runInit(fn *ssa.Function) {
	in.inInit++
	defer func() { in.inInit-- }()
	saved := in.tracing
	in.tracing = false
	defer func() { in.tracing = saved }()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				return
			}
			if _, ok := r.(targetPanic); ok {
				return
			}
			panic(r)
		}
	}()
	in.callSSA(in.cur.top, fn, nil, nil, true)
}

// ---- values -------------------------------------------------------------------------

// slot is the place of a value in the frame.
func (fr *frame) slot(v ssa.Value) int32 {
	n, ok := fr.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %T %s in %s", v, v.Name(), fr.fn))
	}
	return n
}

func (p *Program) slotsOf(fn *ssa.Function) map[ssa.Value]int32 {
	if m, ok := p.slots.Load(fn); ok {
		return m.(map[ssa.Value]int32)
	}
	m := map[ssa.Value]int32{}
	add := func(v ssa.Value) {
		if _, ok := m[v]; !ok {
			m[v] = int32(len(m))
		}
	}
	for _, v := range fn.Params {
		add(v)
	}
	for _, v := range fn.FreeVars {
		add(v)
	}
	for _, v := range fn.Locals {
		add(v)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	p.slots.Store(fn, m)
	return m
}

func (fr *frame) get(v ssa.Value) value {
	var r value
	switch v := v.(type) {
	case nil:
		return nil
	case *ssa.Function, *ssa.Builtin:
		return v
	case *ssa.Const:
		return fr.in.constVal(v)
	case *ssa.Global:
		return fr.in.global(v)
	default:
		r = fr.env[fr.slot(v)]
	}
	if p, ok := r.(poison); ok {
		panic(unsupported("%s", p.why))
	}
	return r
}

func (in *Interp) constVal(c *ssa.Const) value {
	if v, ok := in.consts[c]; ok {
		return v
	}
	var r value
	if c.Value == nil {
		r = zero(c.Type())
	} else {
		t := c.Type().Underlying()
		b, ok := t.(*types.Basic)
		if !ok {
			panic(unsupported("const %s", c))
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			r = constant.BoolVal(c.Value)
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				r = constant.StringVal(c.Value)
			} else {
				r = string(rune(c.Int64()))
			}
		case b.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(constant.ToFloat(c.Value))
			r = f
		case b.Info()&types.IsInteger != 0:
			z, ok := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			if !ok {
				panic(unsupported("int const %s", c))
			}
			r = mkInt(z, t)
		default:
			panic(unsupported("const type %s", t))
		}
	}
	in.consts[c] = r
	return r
}

// term lifts a scalar to a (normalised) term.
func (in *Interp) term(v value) *Term {
	c := in.c()
	switch x := v.(type) {
	case *Term:
		return c.norm(x)
	case bool:
		return c.Bool(x)
	case int64:
		return c.Int(x)
	case uint64:
		return c.Big(new(big.Int).SetUint64(x))
	case string:
		return c.Str(x)
	}
	panic(unsupported("no term for %T", v))
}

// lower turns a constant term back into a concrete value of type t.
func (in *Interp) lower(t *Term, typ types.Type) value {
	if !t.isConst() {
		return t
	}
	switch t.sort {
	case SBool:
		return t.b
	case SStr:
		return t.str
	}
	return mkInt(t.c, typ)
}

func (in *Interp) lowerStr(t *Term) value {
	if t.isConst() {
		return t.str
	}
	return t
}
func (in *Interp) lowerBool(t *Term) value {
	if t.isConst() {
		return t.b
	}
	return t
}
func (in *Interp) lowerInt(t *Term) value { // int
	if t.isConst() && t.c.IsInt64() {
		return t.c.Int64()
	}
	return t
}

// truth forks on a boolean.
func (in *Interp) truth(v value) bool {
	switch x := v.(type) {
	case bool:
		return x
	case *Term:
		return in.p.Branch(x)
	}
	panic(unsupported("bool %T", v))
}

// concInt gives a concrete int, forking over values.
func (in *Interp) concInt(v value) int {
	switch x := v.(type) {
	case int64:
		return int(x)
	case uint64:
		return int(x)
	case *Term:
		return int(in.p.Concrete(x, 40).Int64())
	}
	panic(unsupported("int %T", v))
}

// concStr requires a concrete string.
func (in *Interp) concStr(v value) string {
	switch x := v.(type) {
	case string:
		return x
	case *Term:
		t := in.c().norm(x)
		if t.isConst() {
			return t.str
		}
	}
	panic(unsupported("symbolic string where a concrete one is needed: %v", v))
}

func (in *Interp) simp(v value) value {
	if t, ok := v.(*Term); ok {
		n := in.c().norm(t)
		switch {
		case !n.isConst():
			return n
		case n.sort == SBool:
			return n.b
		case n.sort == SStr:
			return n.str
		}
		return n
	}
	return v
}

// ---- calls ---------------------------------------------------------------------------

func (in *Interp) call(caller *frame, fn value, args []value, site ssa.Instruction) value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			in.gopanic("invalid memory address or nil pointer dereference (nil func)")
		}
		return in.callFn(caller, f, args, nil)
	case *closure:
		return in.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return in.builtin(caller, f, args, site)
	case *nativeFn:
		return f.f(in, args)
	}
	panic(unsupported("call of %T", fn))
}

func (in *Interp) callFn(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if env == nil || fn.Parent() == nil {
		if nat := in.prog.native(fn); nat != nil {
			if caller == nil {
				caller = in.cur.top
			}
			return nat(in, caller, fn, args)
		}
	}
	return in.callSSA(caller, fn, args, env, false)
}

func (in *Interp) callSSA(caller *frame, fn *ssa.Function, args []value, env []value, tolerant bool) value {
	if len(fn.Blocks) == 0 {
		panic(unsupported("no body: %s", fn))
	}
	if in.depth > 400 {
		panic(unsupported("call depth"))
	}
	in.depth++
	defer func() { in.depth-- }()
	in.prog.noteFunc(in.e, fn)
	g := in.cur
	if caller == nil {
		caller = g.top
	}
	fr := &frame{in: in, g: g, caller: caller, fn: fn, slots: in.prog.slotsOf(fn), block: fn.Blocks[0], tolerant: tolerant}
	fr.env = make([]value, len(fr.slots))
	saved := g.top
	g.top = fr
	defer func() { g.top = saved }()
	fr.locals = make([]value, len(fn.Locals))
	for i, l := range fn.Locals {
		fr.locals[i] = zero(deref(l.Type()))
		fr.env[fr.slot(l)] = &fr.locals[i]
	}
	for i, p := range fn.Params {
		fr.env[fr.slot(p)] = args[i]
	}
	for i, fv := range fn.FreeVars {
		fr.env[fr.slot(fv)] = env[i]
	}
	for fr.block != nil {
		fr.run()
	}
	return fr.result
}

func (fr *frame) run() {
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		fr.in.cur.top = fr
		fr.panicking = true
		fr.panicVal = tp
		fr.runDefers()
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// recovered without named results: return zero values
			fr.result = zeroResult(fr.fn)
		}
	}()
	for {
		instrs := fr.block.Instrs
		if n := fr.phis(instrs); n > 0 {
			instrs = instrs[n:]
		}
		for _, instr := range instrs {
			fr.in.p.instrs++
			if fr.in.p.instrs > fr.in.e.opts.MaxInstr {
				panic(pathEnd{"instruction limit"})
			}
			fr.instr = instr
			var cont int
			if fr.tolerant {
				cont = fr.tolerate(instr)
			} else {
				cont = fr.visit(instr)
			}
			if cont == kReturn {
				return
			}
			if cont == kJump {
				break
			}
		}
	}
}

// phis evaluates the phi nodes at the head of a block simultaneously.
func (fr *frame) phis(instrs []ssa.Instruction) int {
	n := 0
	for n < len(instrs) {
		if _, ok := instrs[n].(*ssa.Phi); !ok {
			break
		}
		n++
	}
	if n == 0 {
		return 0
	}
	edge := -1
	for k, pred := range fr.block.Preds {
		if fr.prev == pred {
			edge = k
			break
		}
	}
	vals := make([]value, n)
	for k := 0; k < n; k++ {
		vals[k] = fr.phiVal(instrs[k].(*ssa.Phi).Edges[edge])
	}
	for k := 0; k < n; k++ {
		fr.env[fr.slot(instrs[k].(*ssa.Phi))] = vals[k]
	}
	return n
}

func (fr *frame) phiVal(v ssa.Value) (r value) {
	if fr.tolerant {
		defer func() {
			if x := recover(); x != nil {
				if u, ok := x.(unsupportedErr); ok {
					r = poison{u.msg}
					return
				}
				panic(x)
			}
		}()
	}
	return fr.env0(v)
}

func zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (fr *frame) tolerate(instr ssa.Instruction) (k int) {
	top := fr.in.cur.top
	depth := fr.in.depth
	defer func() {
		if r := recover(); r != nil {
			why := ""
			switch x := r.(type) {
			case unsupportedErr:
				why = x.msg
			case targetPanic:
				why = "panic in init"
			case string:
				why = x
			default:
				if err, ok := r.(error); ok {
					why = err.Error()
				} else {
					panic(r)
				}
			}
			fr.in.cur.top = top
			fr.in.depth = depth
			switch i := instr.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return:
				panic(unsupported("init: %s", why))
			case *ssa.Store:
				func() {
					defer func() { recover() }()
					if a, ok := fr.get(i.Addr).(*value); ok && a != nil {
						*a = poison{"uninitialised: " + why}
					}
				}()
			case ssa.Value:
				fr.env[fr.slot(i)] = poison{why}
			}
			k = kNext
		}
	}()
	// skip other packages' initialisers and nested package init
	if c, ok := instr.(*ssa.Call); ok {
		if f := c.Call.StaticCallee(); f != nil && f.Name() == "init" && f.Pkg != fr.fn.Pkg && f.Signature.Recv() == nil {
			return kNext
		}
	}
	return fr.visit(instr)
}

const (
	kNext = iota
	kReturn
	kJump
)

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			fr.in.cur.top = fr
			fr.panicking = true
			fr.panicVal = tp
		}
	}()
	fr.in.call(fr, d.fn, d.args, d.instr)
	ok = true
}

func (in *Interp) gopanic(msg string) {
	t := in.prog.runtimeErr
	var v value = iface{types.Typ[types.String], "runtime error: " + msg}
	if t != nil {
		v = iface{t, "runtime error: " + msg}
	}
	panic(targetPanic{v: v, where: in.where()})
}

func (in *Interp) panicStr(v value) string {
	if i, ok := v.(iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		case *Term:
			return x.String()
		}
		if i.t != nil {
			return i.t.String()
		}
	}
	return fmt.Sprint(v)
}

// ---- instructions ----------------------------------------------------------------------

func (fr *frame) visit(instr ssa.Instruction) int {
	in := fr.in
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.env[fr.slot(i)] = in.unop(fr, i, fr.get(i.X))
	case *ssa.BinOp:
		fr.env[fr.slot(i)] = in.binop(i.Op, i.X.Type(), i.Y.Type(), fr.get(i.X), fr.get(i.Y))
	case *ssa.Call:
		fn, args := fr.prepare(&i.Call)
		fr.env[fr.slot(i)] = in.call(fr, fn, args, i)
	case *ssa.ChangeInterface:
		fr.env[fr.slot(i)] = fr.get(i.X)
	case *ssa.ChangeType:
		fr.env[fr.slot(i)] = fr.get(i.X)
	case *ssa.Convert:
		fr.env[fr.slot(i)] = in.convert(i.Type(), i.X.Type(), fr.get(i.X))
	case *ssa.MultiConvert:
		fr.env[fr.slot(i)] = in.convert(i.Type(), i.X.Type(), fr.get(i.X))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("SliceToArrayPointer"))
	case *ssa.MakeInterface:
		fr.env[fr.slot(i)] = iface{i.X.Type(), fr.get(i.X)}
	case *ssa.Extract:
		t := fr.get(i.Tuple).(tuple)
		v := t[i.Index]
		if p, ok := v.(poison); ok {
			panic(unsupported("%s", p.why))
		}
		fr.env[fr.slot(i)] = v
	case *ssa.Slice:
		fr.env[fr.slot(i)] = in.slice(i.X.Type(), fr.get(i.X), fr.get(i.Low), fr.get(i.High), fr.get(i.Max))
	case *ssa.Return:
		switch len(i.Results) {
		case 0:
		case 1:
			fr.result = fr.get(i.Results[0])
		default:
			res := make(tuple, len(i.Results))
			for j, r := range i.Results {
				res[j] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		panic(targetPanic{v: fr.get(i.X), where: in.where()})
	case *ssa.Store:
		in.store(fr, deref(i.Addr.Type()), fr.get(i.Addr), fr.get(i.Val))
	case *ssa.If:
		succ := 1
		if in.truth(fr.get(i.Cond)) {
			succ = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[succ]
		return kJump
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		fn, args := fr.prepare(&i.Call)
		fr.defers = &deferred{fn: fn, args: args, tail: fr.defers, instr: i}
	case *ssa.Go:
		fn, args := fr.prepare(&i.Call)
		in.spawn(fn, args)
	case *ssa.MakeChan:
		fr.env[fr.slot(i)] = &channel{cap: in.concInt(fr.get(i.Size))}
	case *ssa.Alloc:
		var addr *value
		if i.Heap {
			addr = new(value)
			fr.env[fr.slot(i)] = addr
		} else {
			addr = fr.env[fr.slot(i)].(*value)
		}
		*addr = zero(deref(i.Type()))
	case *ssa.MakeSlice:
		n := in.concInt(fr.get(i.Len))
		cp := in.concInt(fr.get(i.Cap))
		if n < 0 || cp < n {
			in.gopanic("makeslice: len out of range")
		}
		if cp > 1<<16 {
			panic(unsupported("makeslice %d", cp))
		}
		s := make([]value, cp)
		et := i.Type().Underlying().(*types.Slice).Elem()
		for j := range s {
			s[j] = zero(et)
		}
		fr.env[fr.slot(i)] = s[:n]
	case *ssa.MakeMap:
		fr.env[fr.slot(i)] = newMap(i.Type().Underlying().(*types.Map).Key())
	case *ssa.Range:
		fr.env[fr.slot(i)] = in.rangeIter(fr.get(i.X))
	case *ssa.Next:
		fr.env[fr.slot(i)] = in.next(i, fr.get(i.Iter))
	case *ssa.FieldAddr:
		p, ok := fr.get(i.X).(*value)
		if !ok {
			panic(unsupported("field address of %T", fr.get(i.X)))
		}
		if p == nil {
			in.gopanic("invalid memory address or nil pointer dereference")
		}
		st, ok := (*p).(structure)
		if !ok {
			if po, is := (*p).(poison); is {
				panic(unsupported("%s", po.why))
			}
			panic(unsupported("field of %T (%s)", *p, i.X.Type()))
		}
		fr.env[fr.slot(i)] = &st[i.Field]
	case *ssa.Field:
		st, ok := fr.get(i.X).(structure)
		if !ok {
			panic(unsupported("field of %T", fr.get(i.X)))
		}
		fr.env[fr.slot(i)] = st[i.Field]
	case *ssa.IndexAddr:
		fr.env[fr.slot(i)] = in.indexAddr(i, fr.get(i.X), fr.get(i.Index))
	case *ssa.Index:
		fr.env[fr.slot(i)] = in.index(i.X.Type(), fr.get(i.X), fr.get(i.Index))
	case *ssa.Lookup:
		fr.env[fr.slot(i)] = in.lookup(i, fr.get(i.X), fr.get(i.Index))
	case *ssa.MapUpdate:
		m, ok := fr.get(i.Map).(*hashmap)
		if !ok {
			panic(unsupported("map update of %T", fr.get(i.Map)))
		}
		if m == nil {
			in.gopanic("assignment to entry in nil map")
		}
		in.mapAccess(m, true)
		in.mapSet(m, fr.get(i.Key), copyVal(fr.get(i.Value)))
	case *ssa.TypeAssert:
		fr.env[fr.slot(i)] = in.typeAssert(i, fr.get(i.X))
	case *ssa.MakeClosure:
		var b []value
		for _, x := range i.Bindings {
			b = append(b, fr.get(x))
		}
		fr.env[fr.slot(i)] = &closure{i.Fn.(*ssa.Function), b}
	case *ssa.Phi:
		panic("phi outside block head")
	case *ssa.Send:
		in.chanSend(fr.get(i.Chan), fr.get(i.X))
	case *ssa.Select:
		fr.env[fr.slot(i)] = in.selectStmt(fr, i)
	default:
		panic(unsupported("instruction %T", instr))
	}
	return kNext
}

// env0 is get, but lets poison through (phi of an unused value).
func (fr *frame) env0(v ssa.Value) value {
	if n, ok := fr.slots[v]; ok {
		return fr.env[n]
	}
	return fr.get(v)
}

func (fr *frame) prepare(c *ssa.CallCommon) (value, []value) {
	in := fr.in
	v := fr.get(c.Value)
	var fn value
	var args []value
	if c.Method == nil {
		fn = v
	} else {
		recv, ok := v.(iface)
		if !ok {
			panic(unsupported("invoke on %T", v))
		}
		if recv.t == nil {
			in.gopanic("invalid memory address or nil pointer dereference (nil interface)")
		}
		if nv, ok := recv.v.(*nativeObj); ok {
			m := nv.methods[c.Method.Name()]
			if m == nil {
				panic(unsupported("method %s of native %s", c.Method.Name(), nv.kind))
			}
			fn = &nativeFn{c.Method.Name(), m}
		} else {
			f := in.prog.lookupMethod(recv.t, c.Method)
			if f == nil {
				panic(unsupported("no method %s on %s", c.Method, recv.t))
			}
			fn = f
			args = append(args, copyVal(recv.v))
		}
	}
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	return fn, args
}

// nativeObj is an engine-implemented object behind an interface.
type nativeObj struct {
	kind    string
	methods map[string]func(in *Interp, args []value) value
	data    any
}

func (in *Interp) load(fr *frame, t types.Type, a value) value {
	switch p := a.(type) {
	case *value:
		if p == nil {
			in.gopanic("invalid memory address or nil pointer dereference")
		}
		in.access(p, false)
		v := *p
		if isString(t) {
			switch x := v.(type) {
			case []value: // *(*string)(unsafe.Pointer(&bytes))
				return in.bytesToStr(x)
			case *symBytes:
				return in.lowerStr(x.t)
			}
		}
		if isByteSlice(t) {
			switch x := v.(type) {
			case string, *Term:
				return in.strToBytes(x)
			}
		}
		if po, ok := v.(poison); ok {
			panic(unsupported("%s", po.why))
		}
		return copyVal(v)
	case *symIdx:
		return in.selectArr(p.arr, p.idx, p.t)
	}
	panic(unsupported("load from %T", a))
}

func (in *Interp) store(fr *frame, t types.Type, a value, v value) {
	switch p := a.(type) {
	case *value:
		if p == nil {
			in.gopanic("invalid memory address or nil pointer dereference")
		}
		in.access(p, true)
		// keep the identity of aggregates: field pointers must stay valid
		storeInto(p, v)
		return
	case *symIdx:
		k := int(in.p.Concrete(p.idx, 64).Int64())
		storeInto(&p.arr[k], v)
		return
	}
	panic(unsupported("store to %T", a))
}

func storeInto(p *value, v value) {
	switch x := v.(type) {
	case structure:
		if d, ok := (*p).(structure); ok && len(d) == len(x) {
			if len(x) > 0 && len(d) > 0 && &d[0] == &x[0] {
				return
			}
			tmp := make([]value, len(x))
			copy(tmp, x)
			for i := range d {
				storeInto(&d[i], tmp[i])
			}
			return
		}
		*p = copyVal(x)
		return
	case array:
		if d, ok := (*p).(array); ok && len(d) == len(x) {
			for i := range d {
				storeInto(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
		return
	}
	*p = v
}

// selectArr reads arr[idx] for a symbolic in-range index.
func (in *Interp) selectArr(arr []value, idx *Term, et types.Type) value {
	c := in.c()
	idx = c.norm(idx)
	if idx.isConst() {
		return copyVal(arr[idx.c.Int64()])
	}
	lo, hi := c.Bounds(idx)
	a, b := 0, len(arr)-1
	if lo != nil && lo.Sign() > 0 {
		a = int(lo.Int64())
	}
	if hi != nil && hi.Cmp(big.NewInt(int64(b))) < 0 {
		b = int(hi.Int64())
	}
	if isBoolT(et) || isString(et) {
		r := in.term(arr[b])
		for k := b - 1; k >= a; k-- {
			r = c.Ite(c.Eq(idx, c.Int(int64(k))), in.term(arr[k]), r)
		}
		return r
	}
	if _, _, ok := intInfo(et); !ok || b-a > 300 {
		k := int(in.p.Concrete(idx, 64).Int64())
		return copyVal(arr[k])
	}
	// runs where value is constant or idx + constant
	type run struct {
		from int
		t    *Term
	}
	var runs []run
	for k := a; k <= b; {
		tk := in.term(arr[k])
		j := k
		if tk.isConst() {
			for j+1 <= b && in.term(arr[j+1]) == tk {
				j++
			}
			t := tk
			if j == k && k+1 <= b { // affine?
				if n := in.term(arr[k+1]); n.isConst() && new(big.Int).Sub(n.c, tk.c).Cmp(big.NewInt(1)) == 0 {
					off := new(big.Int).Sub(tk.c, big.NewInt(int64(k)))
					for j+1 <= b {
						n := in.term(arr[j+1])
						if !n.isConst() || new(big.Int).Sub(n.c, big.NewInt(int64(j+1))).Cmp(off) != 0 {
							break
						}
						j++
					}
					t = c.Add(idx, c.Big(off))
				}
			}
			runs = append(runs, run{k, t})
		} else {
			runs = append(runs, run{k, tk})
		}
		k = j + 1
	}
	r := runs[len(runs)-1].t
	for k := len(runs) - 2; k >= 0; k-- {
		r = c.Ite(c.Lt(idx, c.Int(int64(runs[k+1].from))), runs[k].t, r)
	}
	return in.lower(r, et)
}

func (in *Interp) inRange(idx value, n *Term) bool {
	c := in.c()
	t := in.term(idx)
	return in.truth(in.lowerBool(c.And(c.Le(c.Int(0), t), c.Lt(t, n))))
}

func (in *Interp) indexAddr(i *ssa.IndexAddr, x, idx value) value {
	var arr []value
	var et types.Type
	switch x := x.(type) {
	case []value:
		arr = x
		et = i.X.Type().Underlying().(*types.Slice).Elem()
	case *value:
		if x == nil {
			in.gopanic("invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			panic(unsupported("index address of %T", *x))
		}
		arr = a
		et = deref(i.X.Type()).Underlying().(*types.Array).Elem()
	case *symBytes:
		b := in.explodeBytes(x)
		arr = b
		et = types.Typ[types.Uint8]
	default:
		panic(unsupported("index address of %T", x))
	}
	if k, ok := bigOf(in.lowerIdx(idx)); ok {
		if k.Sign() < 0 || k.Cmp(big.NewInt(int64(len(arr)))) >= 0 {
			in.gopanic(fmt.Sprintf("index out of range [%s] with length %d", k, len(arr)))
		}
		return &arr[k.Int64()]
	}
	if !in.inRange(idx, in.c().Int(int64(len(arr)))) {
		in.gopanic("index out of range")
	}
	return &symIdx{arr, in.term(idx), et}
}

func (in *Interp) lowerIdx(v value) value {
	if t, ok := v.(*Term); ok {
		t = in.c().norm(t)
		if t.isConst() && t.c.IsInt64() {
			return t.c.Int64()
		}
		return t
	}
	return v
}

func (in *Interp) index(t types.Type, x, idx value) value {
	switch a := x.(type) {
	case array:
		et := t.Underlying().(*types.Array).Elem()
		if k, ok := bigOf(in.lowerIdx(idx)); ok {
			if k.Sign() < 0 || k.Cmp(big.NewInt(int64(len(a)))) >= 0 {
				in.gopanic("index out of range")
			}
			return a[k.Int64()]
		}
		if !in.inRange(idx, in.c().Int(int64(len(a)))) {
			in.gopanic("index out of range")
		}
		return in.selectArr(a, in.term(idx), et)
	case string, *Term:
		return in.strIndex(a, idx)
	}
	panic(unsupported("index of %T", x))
}

func (in *Interp) strIndex(s, idx value) value {
	if str, ok := s.(string); ok {
		if k, ok := bigOf(in.lowerIdx(idx)); ok {
			if k.Sign() < 0 || k.Cmp(big.NewInt(int64(len(str)))) >= 0 {
				in.gopanic("index out of range")
			}
			return uint64(str[k.Int64()])
		}
	}
	t := in.term(s)
	c := in.c()
	if !in.inRange(idx, c.Len(t)) {
		in.gopanic("index out of range (string)")
	}
	return in.lower(c.ToCode(in.charAt(in.term(s), in.term(idx))), types.Typ[types.Uint8])
}

// charAt returns s[i:i+1]; variables of a small fixed length are exploded.
func (in *Interp) charAt(s, i *Term) *Term {
	c := in.c()
	s = in.explodeSmall(s)
	return c.At(s, i)
}

func (in *Interp) explodeSmall(s *Term) *Term {
	c := in.c()
	changed := false
	for _, p := range c.pieces(c.norm(s)) {
		if p.op == OVar {
			vi := c.info[p]
			if vi.minLen == vi.maxLen && vi.minLen > 0 && vi.minLen <= 40 {
				in.explodeVar(p)
				changed = true
			}
		}
	}
	if changed {
		return c.norm(s)
	}
	return c.norm(s)
}

// explodeVar replaces a string variable of known length n by n characters.
func (in *Interp) explodeVar(v *Term) {
	c := in.c()
	vi := c.info[v]
	n := vi.minLen
	mv, _ := in.p.model[v].(string)
	if len(mv) != n {
		if x, ok := c.eval(v, in.p.model, map[*Term]any{}).(string); ok {
			mv = x
		}
	}
	var ps []*Term
	for k := 0; k < n; k++ {
		name := fmt.Sprintf("%s@%d", v.str, k)
		ch := c.Var(name, SInt)
		ci := c.info[ch]
		if ci.lo == nil {
			lo, hi := -1, -1
			for b := 0; b < 256; b++ {
				if vi.chars.has(byte(b)) {
					if lo < 0 {
						lo = b
					}
					hi = b
				}
			}
			ci.lo, ci.hi = big.NewInt(int64(lo)), big.NewInt(int64(hi))
			if hi-lo+1 != vi.chars.count() {
				var alts []*Term
				for b := lo; b <= hi; {
					if !vi.chars.has(byte(b)) {
						b++
						continue
					}
					e := b
					for e+1 <= hi && vi.chars.has(byte(e+1)) {
						e++
					}
					alts = append(alts, c.And(c.Le(c.Int(int64(b)), ch), c.Le(ch, c.Int(int64(e)))))
					b = e + 1
				}
				ci.extra = append(ci.extra, c.Or(alts...))
			}
		}
		if len(mv) == n {
			in.p.model[ch] = big.NewInt(int64(mv[k]))
		} else {
			in.p.seed(ch)
		}
		ps = append(ps, c.FromCode(ch))
	}
	ext := vi.extra
	vi.extra = nil
	c.bind(v, c.Concat(ps...))
	delete(in.p.model, v)
	for _, x := range ext {
		in.p.assertCond(x)
	}
}

func (in *Interp) typeAssert(i *ssa.TypeAssert, x value) value {
	itf, ok := x.(iface)
	if !ok {
		panic(unsupported("type assert on %T", x))
	}
	var v value
	good := false
	if it, isI := i.AssertedType.Underlying().(*types.Interface); isI {
		v = itf
		if itf.t != nil {
			if _, nat := itf.v.(*nativeObj); nat {
				good = types.Identical(itf.t, i.AssertedType) || in.nativeImplements(itf, it)
			} else {
				good = types.Implements(itf.t, it)
			}
		}
	} else {
		v = itf.v
		good = itf.t != nil && types.Identical(itf.t, i.AssertedType)
	}
	if i.CommaOk {
		if !good {
			return tuple{zero(i.AssertedType), false}
		}
		return tuple{copyVal(v), true}
	}
	if !good {
		in.gopanic(fmt.Sprintf("interface conversion: interface is %v, not %v", itf.t, i.AssertedType))
	}
	return copyVal(v)
}

func (in *Interp) nativeImplements(i iface, it *types.Interface) bool {
	o := i.v.(*nativeObj)
	for k := 0; k < it.NumMethods(); k++ {
		if o.methods[it.Method(k).Name()] == nil {
			return false
		}
	}
	return true
}

// ---- operators ---------------------------------------------------------------------------

func (in *Interp) unop(fr *frame, i *ssa.UnOp, x value) value {
	c := in.c()
	switch i.Op {
	case token.MUL:
		return in.load(fr, deref(i.X.Type()), x)
	case token.NOT:
		return in.lowerBool(c.Not(in.term(x)))
	case token.SUB:
		switch f := x.(type) {
		case float64:
			return -f
		}
		return in.wrap(c.MulC(in.term(x), big.NewInt(-1)), i.Type())
	case token.XOR:
		bits, signed, _ := intInfo(i.Type())
		t := in.term(x)
		if signed {
			return in.wrap(c.Sub(c.Int(-1), t), i.Type())
		}
		return in.wrap(c.Sub(c.Big(new(big.Int).Sub(pow2(bits), big.NewInt(1))), t), i.Type())
	case token.ARROW:
		v, ok := in.chanRecv(x, i.Type(), i.CommaOk)
		if i.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	panic(unsupported("unop %s", i.Op))
}

// wrap reduces an exact integer term into the range of t.
func (in *Interp) wrap(t *Term, typ types.Type) value {
	bits, signed, ok := intInfo(typ)
	if !ok {
		panic(unsupported("wrap %s", typ))
	}
	if t.isConst() {
		return mkInt(t.c, typ)
	}
	c := in.c()
	lo, hi := c.Bounds(t)
	rl, rh := intRange(bits, signed)
	if lo != nil && hi != nil && lo.Cmp(rl) >= 0 && hi.Cmp(rh) <= 0 {
		return t
	}
	m := c.Mod(t, pow2(bits))
	if !signed {
		return in.lower(m, typ)
	}
	half := c.Big(pow2(bits - 1))
	r := c.Ite(c.Lt(m, half), m, c.Sub(m, c.Big(pow2(bits))))
	return in.lower(r, typ)
}

func tz(t *Term) int { // provable trailing zero bits
	switch t.op {
	case OConst:
		if t.c.Sign() == 0 {
			return 64
		}
		return int(t.c.TrailingZeroBits())
	case OLin:
		r := 64
		if t.c.Sign() != 0 {
			r = int(t.c.TrailingZeroBits())
		}
		for i, a := range t.args {
			r = min(r, int(t.coef[i].TrailingZeroBits())+tz(a))
		}
		return r
	case OIte:
		return min(tz(t.args[1]), tz(t.args[2]))
	case OMod:
		k := t.args[1].c
		return min(tz(t.args[0]), int(k.TrailingZeroBits()))
	}
	return 0
}

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y value) value {
	c := in.c()
	switch op {
	case token.EQL:
		if a, ok := x.(int64); ok {
			if b, ok := y.(int64); ok {
				return a == b
			}
		}
		return in.lowerBool(in.eq(xt, yt, x, y))
	case token.NEQ:
		return in.lowerBool(c.Not(in.eq(xt, yt, x, y)))
	}
	x, y = in.simpC(x, xt), in.simpC(y, yt)
	if isString(xt) {
		switch op {
		case token.ADD:
			if a, ok := x.(string); ok {
				if b, ok := y.(string); ok {
					return a + b
				}
			}
			return in.lowerStr(c.Concat(in.term(x), in.term(y)))
		case token.LSS:
			return in.lowerBool(c.StrLt(in.term(x), in.term(y)))
		case token.GTR:
			return in.lowerBool(c.StrLt(in.term(y), in.term(x)))
		case token.LEQ:
			return in.lowerBool(c.Not(c.StrLt(in.term(y), in.term(x))))
		case token.GEQ:
			return in.lowerBool(c.Not(c.StrLt(in.term(x), in.term(y))))
		}
		panic(unsupported("string op %s", op))
	}
	if isFloat(xt) {
		a, ok1 := x.(float64)
		b, ok2 := y.(float64)
		if !ok1 || !ok2 {
			return in.floatOp(op, x, y)
		}
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
		panic(unsupported("float op %s", op))
	}
	if isBoolT(xt) {
		switch op {
		case token.AND, token.LAND:
			return in.lowerBool(c.And(in.term(x), in.term(y)))
		case token.OR, token.LOR:
			return in.lowerBool(c.Or(in.term(x), in.term(y)))
		}
	}
	bits, signed, ok := intInfo(xt)
	if !ok {
		panic(unsupported("binop %s on %s", op, xt))
	}
	if r, ok := machineInt(op, x, y, bits); ok {
		return r
	}
	a, ca := bigOf(x)
	b, cb := bigOf(y)
	if ca && cb {
		z := new(big.Int)
		switch op {
		case token.ADD:
			z.Add(a, b)
		case token.SUB:
			z.Sub(a, b)
		case token.MUL:
			z.Mul(a, b)
		case token.QUO, token.REM:
			if b.Sign() == 0 {
				in.gopanic("integer divide by zero")
			}
			if op == token.QUO {
				z.Quo(a, b)
			} else {
				z.Rem(a, b)
			}
		case token.AND:
			z.And(a, b)
		case token.OR:
			z.Or(a, b)
		case token.XOR:
			z.Xor(a, b)
		case token.AND_NOT:
			z.AndNot(a, b)
		case token.SHL:
			if b.Sign() < 0 {
				in.gopanic("negative shift amount")
			}
			if b.Cmp(big.NewInt(64)) >= 0 {
				z.SetInt64(0)
			} else {
				z.Lsh(a, uint(b.Uint64()))
			}
		case token.SHR:
			if b.Sign() < 0 {
				in.gopanic("negative shift amount")
			}
			n := uint(64)
			if b.Cmp(big.NewInt(64)) < 0 {
				n = uint(b.Uint64())
			}
			z.Rsh(a, n)
		case token.LSS:
			return a.Cmp(b) < 0
		case token.LEQ:
			return a.Cmp(b) <= 0
		case token.GTR:
			return a.Cmp(b) > 0
		case token.GEQ:
			return a.Cmp(b) >= 0
		default:
			panic(unsupported("int op %s", op))
		}
		return mkInt(z, xt)
	}
	tx, ty := in.term(x), in.term(y)
	switch op {
	case token.ADD:
		return in.wrap(c.Add(tx, ty), xt)
	case token.SUB:
		return in.wrap(c.Sub(tx, ty), xt)
	case token.MUL:
		return in.wrap(c.Mul(tx, ty), xt)
	case token.LSS:
		return in.lowerBool(c.Lt(tx, ty))
	case token.LEQ:
		return in.lowerBool(c.Le(tx, ty))
	case token.GTR:
		return in.lowerBool(c.Lt(ty, tx))
	case token.GEQ:
		return in.lowerBool(c.Le(ty, tx))
	case token.QUO, token.REM:
		if !cb {
			y = mkInt(in.p.Concrete(ty, 20), yt)
			b, _ = bigOf(y)
		}
		if b.Sign() == 0 {
			in.gopanic("integer divide by zero")
		}
		ab := new(big.Int).Abs(b)
		var q, r *Term
		if lo, _ := c.Bounds(tx); lo != nil && lo.Sign() >= 0 || in.p.Branch(c.Le(c.Int(0), tx)) {
			q, r = c.Div(tx, ab), c.Mod(tx, ab)
		} else {
			n := c.MulC(tx, big.NewInt(-1))
			q, r = c.MulC(c.Div(n, ab), big.NewInt(-1)), c.MulC(c.Mod(n, ab), big.NewInt(-1))
		}
		if op == token.REM {
			return in.wrap(r, xt)
		}
		if b.Sign() < 0 {
			q = c.MulC(q, big.NewInt(-1))
		}
		return in.wrap(q, xt)
	case token.SHL:
		if !cb {
			b = in.p.Concrete(ty, 70)
		}
		if b.Sign() < 0 {
			in.gopanic("negative shift amount")
		}
		if b.Cmp(big.NewInt(int64(bits))) >= 0 {
			return mkInt(new(big.Int), xt)
		}
		return in.wrap(c.MulC(tx, pow2(int(b.Int64()))), xt)
	case token.SHR:
		if !cb {
			b = in.p.Concrete(ty, 70)
		}
		if b.Sign() < 0 {
			in.gopanic("negative shift amount")
		}
		n := 64
		if b.Cmp(big.NewInt(64)) < 0 {
			n = int(b.Int64())
		}
		return in.wrap(c.Div(tx, pow2(n)), xt)
	case token.AND:
		if ca {
			tx, ty, b, cb = ty, tx, a, true
		}
		if cb {
			m := new(big.Int).Mod(b, pow2(bits)) // unsigned view
			if m.Sign() == 0 {
				return mkInt(new(big.Int), xt)
			}
			s := int(m.TrailingZeroBits())
			w := new(big.Int).Rsh(m, uint(s))
			w1 := new(big.Int).Add(w, big.NewInt(1))
			if w1.BitLen()-1 == int(w1.TrailingZeroBits()) { // contiguous ones
				r := c.MulC(c.Mod(c.Div(tx, pow2(s)), w1), pow2(s))
				return in.wrap(r, xt)
			}
		}
		return in.bitwise(op, tx, ty, xt, bits, signed)
	case token.OR, token.XOR:
		for k := 0; k < 2; k++ {
			z := tz(ty)
			lo, hi := c.Bounds(tx)
			if lo != nil && hi != nil && lo.Sign() >= 0 && z > 0 && hi.Cmp(pow2(min(z, 63))) < 0 {
				return in.wrap(c.Add(tx, ty), xt)
			}
			tx, ty = ty, tx
		}
		return in.bitwise(op, tx, ty, xt, bits, signed)
	case token.AND_NOT:
		if cb {
			m := new(big.Int).AndNot(new(big.Int).Sub(pow2(bits), big.NewInt(1)), new(big.Int).Mod(b, pow2(bits)))
			return in.binop(token.AND, xt, yt, x, mkInt(m, xt))
		}
	}
	panic(unsupported("symbolic int op %s", op))
}

// bitwise works bit by bit on small unsigned ranges.
func (in *Interp) bitwise(op token.Token, x, y *Term, t types.Type, bits int, signed bool) value {
	c := in.c()
	_, h1 := c.Bounds(x)
	_, h2 := c.Bounds(y)
	l1, _ := c.Bounds(x)
	l2, _ := c.Bounds(y)
	if !signed && bits <= 16 {
		// the type bounds the value where the term does not show it
		top := new(big.Int).Sub(pow2(bits), big.NewInt(1))
		narrow := func(l, h **big.Int) {
			if *l == nil || (*l).Sign() < 0 {
				*l = new(big.Int)
			}
			if *h == nil || (*h).Cmp(top) > 0 {
				*h = top
			}
		}
		narrow(&l1, &h1)
		narrow(&l2, &h2)
	}
	if h1 == nil || h2 == nil || l1 == nil || l2 == nil || l1.Sign() < 0 || l2.Sign() < 0 || h1.BitLen() > 16 || h2.BitLen() > 16 {
		panic(unsupported("symbolic bit operation %s", op))
	}
	n := max(h1.BitLen(), h2.BitLen())
	r := c.Int(0)
	for k := 0; k < n; k++ {
		bx := c.Eq(c.Mod(c.Div(x, pow2(k)), big.NewInt(2)), c.Int(1))
		by := c.Eq(c.Mod(c.Div(y, pow2(k)), big.NewInt(2)), c.Int(1))
		var b *Term
		switch op {
		case token.AND:
			b = c.And(bx, by)
		case token.OR:
			b = c.Or(bx, by)
		default:
			b = c.Not(c.Eq(bx, by))
		}
		r = c.Add(r, c.Ite(b, c.Big(pow2(k)), c.Int(0)))
	}
	return in.wrap(r, t)
}

// simpC lowers constant terms to concrete values of the given type.
func (in *Interp) simpC(v value, t types.Type) value {
	if x, ok := v.(*Term); ok {
		n := in.c().norm(x)
		if n.isConst() {
			if n.sort == SInt {
				if _, _, ok := intInfo(t); ok {
					return mkInt(n.c, t)
				}
				return n
			}
			return in.lower(n, t)
		}
		return n
	}
	return v
}

// eq is Go equality as a Bool term.
// machineInt is the operation on two concrete integers of the given width, as
// the machine does it. It leaves the rare cases to the caller.
func machineInt(op token.Token, x, y value, bits int) (value, bool) {
	sh := uint(64 - bits)
	if op == token.SHL || op == token.SHR {
		var n uint64
		switch b := y.(type) {
		case int64:
			if b < 0 {
				return nil, false
			}
			n = uint64(b)
		case uint64:
			n = b
		default:
			return nil, false
		}
		switch a := x.(type) {
		case int64:
			if op == token.SHL {
				return a << n << sh >> sh, true
			}
			return a >> n, true
		case uint64:
			if op == token.SHL {
				return a << n << sh >> sh, true
			}
			return a >> n, true
		}
		return nil, false
	}
	switch a := x.(type) {
	case int64:
		b, ok := y.(int64)
		if !ok {
			return nil, false
		}
		var z int64
		switch op {
		case token.ADD:
			z = a + b
		case token.SUB:
			z = a - b
		case token.MUL:
			z = a * b
		case token.QUO, token.REM:
			if b == 0 {
				return nil, false
			}
			if op == token.QUO {
				z = a / b
			} else {
				z = a % b
			}
		case token.AND:
			z = a & b
		case token.OR:
			z = a | b
		case token.XOR:
			z = a ^ b
		case token.AND_NOT:
			z = a &^ b
		case token.LSS:
			return a < b, true
		case token.LEQ:
			return a <= b, true
		case token.GTR:
			return a > b, true
		case token.GEQ:
			return a >= b, true
		default:
			return nil, false
		}
		return z << sh >> sh, true
	case uint64:
		b, ok := y.(uint64)
		if !ok {
			return nil, false
		}
		var z uint64
		switch op {
		case token.ADD:
			z = a + b
		case token.SUB:
			z = a - b
		case token.MUL:
			z = a * b
		case token.QUO, token.REM:
			if b == 0 {
				return nil, false
			}
			if op == token.QUO {
				z = a / b
			} else {
				z = a % b
			}
		case token.AND:
			z = a & b
		case token.OR:
			z = a | b
		case token.XOR:
			z = a ^ b
		case token.AND_NOT:
			z = a &^ b
		case token.LSS:
			return a < b, true
		case token.LEQ:
			return a <= b, true
		case token.GTR:
			return a > b, true
		case token.GEQ:
			return a >= b, true
		default:
			return nil, false
		}
		return z << sh >> sh, true
	}
	return nil, false
}

func (in *Interp) eq(xt, yt types.Type, x, y value) *Term {
	c := in.c()
	switch a := x.(type) {
	case bool, int64, uint64, string:
		if b, ok := y.(*Term); ok {
			return c.Eq(in.term(x), c.norm(b))
		}
		return c.Bool(x == y)
	case *Term:
		return c.Eq(c.norm(a), in.term(y))
	case float64:
		if b, ok := y.(float64); ok {
			return c.Bool(a == b)
		}
		return in.term(in.floatOp(token.EQL, x, y))
	case *symFloat:
		return in.term(in.floatOp(token.EQL, x, y))
	case iface:
		b, ok := y.(iface)
		if !ok {
			// interface vs concrete (static types differ)
			b = iface{yt, y}
		}
		if a.t == nil || b.t == nil {
			return c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return c.False
		}
		if an, ok := a.v.(*nativeObj); ok {
			bn, _ := b.v.(*nativeObj)
			return c.Bool(an == bn)
		}
		if !types.Comparable(a.t) {
			in.gopanic("comparing uncomparable type " + a.t.String())
		}
		return in.eq(a.t, b.t, a.v, b.v)
	case structure:
		b, ok := y.(structure)
		if !ok {
			if bi, is := y.(iface); is {
				return in.eq(yt, xt, bi, x)
			}
			panic(unsupported("eq struct %T", y))
		}
		st, ok := xt.Underlying().(*types.Struct)
		r := c.True
		for k := range a {
			var ft types.Type
			if ok {
				if st.Field(k).Name() == "_" {
					continue
				}
				ft = st.Field(k).Type()
			}
			r = c.And(r, in.eq(ft, ft, a[k], b[k]))
			if r.isFalse() {
				return r
			}
		}
		return r
	case array:
		b := y.(array)
		r := c.True
		var et types.Type
		if at, ok := xt.Underlying().(*types.Array); ok {
			et = at.Elem()
		}
		for k := range a {
			r = c.And(r, in.eq(et, et, a[k], b[k]))
		}
		return r
	case *value:
		if b, ok := y.(*value); ok {
			return c.Bool(a == b)
		}
		if bi, is := y.(iface); is {
			return in.eq(yt, xt, bi, x)
		}
		return c.False
	case []value:
		if b, ok := y.([]value); ok {
			return c.Bool(a == nil && b == nil)
		}
		if _, ok := y.(*symBytes); ok {
			return c.False
		}
	case *symBytes:
		return c.False // only comparable to nil
	case *hashmap:
		if b, ok := y.(*hashmap); ok {
			return c.Bool(a == b)
		}
	case *channel:
		if b, ok := y.(*channel); ok {
			return c.Bool(a == b)
		}
	case *ssa.Function:
		if b, ok := y.(*ssa.Function); ok {
			return c.Bool(a == b)
		}
		if _, ok := y.(*closure); ok {
			return c.False
		}
		if _, ok := y.(*nativeFn); ok {
			return c.False
		}
	case *closure, *nativeFn:
		return c.Bool(x == y)
	case unsafePtr:
		if b, ok := y.(unsafePtr); ok {
			return c.Bool(a.p == b.p)
		}
	case *nativeObj:
		return c.Bool(x == y)
	case nil:
		return c.Bool(y == nil)
	}
	panic(unsupported("eq %T %T", x, y))
}

func (in *Interp) strLen(v value) *Term { return in.c().Len(in.term(v)) }

// strSlice is s[lo:hi] with Go bounds checks.
func (in *Interp) strSlice(s value, lo, hi value) value {
	c := in.c()
	if str, ok := in.simp(s).(string); ok {
		l, okl := int64(0), true
		h, okh := int64(len(str)), true
		if lo != nil {
			l, okl = in.lowerIdx(lo).(int64)
		}
		if hi != nil {
			h, okh = in.lowerIdx(hi).(int64)
		}
		if okl && okh {
			if l < 0 || h < l || h > int64(len(str)) {
				in.gopanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, len(str)))
			}
			return str[l:h]
		}
	}
	t := in.term(s)
	l, h := c.Int(0), c.Len(t)
	if lo != nil {
		l = in.term(lo)
	}
	if hi != nil {
		h = in.term(hi)
	}
	ok := c.And(c.Le(c.Int(0), l), c.Le(l, h), c.Le(h, c.Len(t)))
	if !in.truth(in.lowerBool(ok)) {
		in.gopanic("slice bounds out of range (string)")
	}
	return in.lowerStr(c.Substr(in.term(s), c.norm(l), c.norm(c.Sub(h, l))))
}

func (in *Interp) slice(t types.Type, x, lo, hi, mx value) value {
	switch x := x.(type) {
	case string, *Term:
		return in.strSlice(x, lo, hi)
	case *symBytes:
		if lo == nil && hi == nil {
			return x
		}
		r := in.strSlice(x.t, lo, hi)
		return &symBytes{t: in.term(r)}
	}
	var arr []value
	isArr := false
	switch x := x.(type) {
	case []value:
		arr = x
	case *value:
		if x == nil {
			in.gopanic("nil pointer dereference")
		}
		arr = (*x).(array)
		isArr = true
	default:
		panic(unsupported("slice of %T", x))
	}
	l, h, m := 0, len(arr), cap(arr)
	if isArr {
		m = len(arr)
	}
	if lo != nil {
		l = in.concInt(lo)
	}
	if hi != nil {
		h = in.concInt(hi)
	}
	if mx != nil {
		m = in.concInt(mx)
	}
	if l < 0 || h < l || m < h || m > cap(arr) {
		in.gopanic("slice bounds out of range")
	}
	return []value(arr[l:h:m])
}

func (in *Interp) bytesToStr(b []value) value {
	allC := true
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			allC = false
			break
		}
	}
	if allC {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.(uint64))
		}
		return string(bs)
	}
	c := in.c()
	ps := make([]*Term, len(b))
	for i, x := range b {
		ps[i] = c.FromCode(in.term(x))
	}
	return in.lowerStr(c.Concat(ps...))
}

func (in *Interp) strToBytes(s value) value {
	s = in.simp(s)
	if str, ok := s.(string); ok {
		b := make([]value, len(str))
		for i := range b {
			b[i] = uint64(str[i])
		}
		return b
	}
	t := in.explodeSmall(s.(*Term))
	if b, ok := in.fixedBytes(t); ok {
		return b
	}
	return &symBytes{t: t}
}

func (in *Interp) fixedBytes(t *Term) ([]value, bool) {
	c := in.c()
	var out []value
	for _, p := range c.pieces(t) {
		switch p.op {
		case OConst:
			for i := 0; i < len(p.str); i++ {
				out = append(out, uint64(p.str[i]))
			}
		case OFromCode:
			out = append(out, in.lower(p.args[0], types.Typ[types.Uint8]))
		default:
			return nil, false
		}
	}
	return out, true
}

// explodeBytes makes a symBytes indexable (forks over its length).
func (in *Interp) explodeBytes(b *symBytes) []value {
	c := in.c()
	t := c.norm(b.t)
	for _, p := range c.pieces(t) {
		switch {
		case p.op == OVar:
			in.p.Concrete(c.Len(p), 24)
		case p.op == OSubstr:
			// a part of a text: fork over the length of the text
			for _, q := range c.pieces(c.norm(p.args[0])) {
				if q.op == OVar {
					in.p.Concrete(c.Len(q), 24)
					in.explodeSmall(q)
				}
			}
			in.p.Concrete(c.Len(p), 24)
		}
	}
	t = in.explodeSmall(c.norm(t))
	if r, ok := in.fixedBytes(t); ok {
		return r
	}
	panic(unsupported("byte content of %v", t.op))
}

func (in *Interp) convert(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	c := in.c()
	x = in.simpC(x, src)
	switch d := ud.(type) {
	case *types.Pointer:
		if u, ok := x.(unsafePtr); ok {
			if u.p == nil {
				return (*value)(nil)
			}
			return u.p
		}
		return x
	case *types.Slice:
		if isString(src) {
			if isByteSlice(dst) {
				return in.strToBytes(x)
			}
			var out []value
			if s, ok := x.(string); ok {
				for _, r := range s {
					out = append(out, int64(r))
				}
				return out
			}
			t := in.explodeSmall(in.term(x))
			if b, ok := in.fixedBytes(t); ok {
				for _, v := range b {
					if u, ok := v.(uint64); ok {
						out = append(out, int64(u))
					} else {
						out = append(out, v)
					}
				}
				return out
			}
			panic(unsupported("[]rune of symbolic string"))
		}
		return x
	case *types.Basic:
		if d.Kind() == types.UnsafePointer {
			return unsafePtr{x}
		}
		if d.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case []value:
				if isByteSlice(src) {
					return in.bytesToStr(v)
				}
				c := in.c()
				ps := []*Term{}
				for _, r := range v {
					if k, ok := r.(int64); ok {
						ps = append(ps, c.Str(string(rune(k))))
					} else {
						ps = append(ps, c.FromCode(in.term(r)))
					}
				}
				return in.lowerStr(c.Concat(ps...))
			case *symBytes:
				return in.lowerStr(c.norm(v.t))
			case int64:
				return string(rune(v))
			case uint64:
				return string(rune(v))
			case string:
				return v
			case *Term:
				if v.sort == SStr {
					return v
				}
				_, hi := c.Bounds(v)
				lo, _ := c.Bounds(v)
				if hi != nil && lo != nil && lo.Sign() >= 0 && hi.Cmp(big.NewInt(127)) <= 0 {
					return in.lowerStr(c.FromCode(v))
				}
			}
			panic(unsupported("string(%T)", x))
		}
		if d.Info()&types.IsInteger != 0 {
			switch v := x.(type) {
			case int64, uint64:
				z, _ := bigOf(v)
				return mkInt(z, dst)
			case *Term:
				return in.wrap(v, dst)
			case float64:
				bits, signed, _ := intInfo(dst)
				lo, hi := intRange(bits, signed)
				bf := new(big.Float).SetFloat64(v)
				z, _ := bf.Int(nil)
				if z.Cmp(lo) < 0 || z.Cmp(hi) > 0 {
					return mkInt(lo, dst)
				}
				return mkInt(z, dst)
			case unsafePtr:
				panic(unsupported("uintptr of pointer"))
			case *symFloat:
				return in.wrap(v.n, dst)
			}
		}
		if d.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case float64:
				if d.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case int64:
				return float64(v)
			case uint64:
				return float64(v)
			case *Term:
				return &symFloat{n: v, half: c.False}
			case *symFloat:
				return v
			}
		}
	}
	_ = us
	panic(unsupported("convert %s -> %s (%T)", src, dst, x))
}

func (in *Interp) floatOp(op token.Token, x, y value) value {
	c := in.c()
	lift := func(v value) *symFloat {
		switch f := v.(type) {
		case *symFloat:
			return f
		case float64:
			fl := new(big.Float).SetFloat64(f)
			z, _ := fl.Int(nil)
			d := f - float64(z.Int64())
			if d == 0 {
				return &symFloat{c.Big(z), c.False}
			}
			if d == 0.5 {
				return &symFloat{c.Big(z), c.True}
			}
		}
		panic(unsupported("float %v", v))
	}
	a, b := lift(x), lift(y)
	// value*2
	two := func(f *symFloat) *Term {
		return c.Add(c.MulC(c.norm(f.n), big.NewInt(2)), c.Ite(c.norm(f.half), c.Int(1), c.Int(0)))
	}
	switch op {
	case token.EQL:
		return in.lowerBool(c.Eq(two(a), two(b)))
	case token.LSS:
		return in.lowerBool(c.Lt(two(a), two(b)))
	case token.LEQ:
		return in.lowerBool(c.Le(two(a), two(b)))
	case token.GTR:
		return in.lowerBool(c.Lt(two(b), two(a)))
	case token.GEQ:
		return in.lowerBool(c.Le(two(b), two(a)))
	case token.ADD:
		if b.half.isFalse() {
			return &symFloat{c.Add(a.n, b.n), a.half}
		}
		if a.half.isFalse() {
			return &symFloat{c.Add(a.n, b.n), b.half}
		}
	}
	panic(unsupported("symbolic float %s", op))
}

// ---- maps ----------------------------------------------------------------------------------

func newMap(kt types.Type) *hashmap {
	return &hashmap{kt: kt, idx: map[string]*mapEntry{}}
}

func (in *Interp) simpKey(v value, t types.Type) value {
	switch x := v.(type) {
	case *Term:
		return in.simpC(v, t)
	case structure:
		st, ok := t.Underlying().(*types.Struct)
		r := make(structure, len(x))
		for i := range x {
			if ok {
				r[i] = in.simpKey(x[i], st.Field(i).Type())
			} else {
				r[i] = x[i]
			}
		}
		return r
	case iface:
		if x.t != nil {
			return iface{x.t, in.simpKey(x.v, x.t)}
		}
	}
	return v
}

func (in *Interp) mapFind(m *hashmap, k value) *mapEntry {
	k = in.simpKey(k, m.kt)
	if i, ok := k.(iface); ok && i.t != nil && !types.Comparable(i.t) {
		in.gopanic("hash of unhashable type " + i.t.String())
	}
	ks, conc := keyStr(k)
	if conc && m.symKeys == 0 {
		return m.idx[ks]
	}
	if conc {
		if e := m.idx[ks]; e != nil {
			return e
		}
	}
	for _, e := range m.entries {
		if in.truth(in.lowerBool(in.eq(m.kt, m.kt, k, e.k))) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *hashmap, k, v value) {
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	k = in.simpKey(k, m.kt)
	e := &mapEntry{copyVal(k), v}
	m.entries = append(m.entries, e)
	if ks, ok := keyStr(k); ok {
		m.idx[ks] = e
	} else {
		m.symKeys++
	}
}

func (in *Interp) mapDelete(m *hashmap, k value) {
	if m == nil {
		return
	}
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	var n []*mapEntry
	for _, x := range m.entries {
		if x != e {
			n = append(n, x)
		}
	}
	m.entries = n
	if ks, ok := keyStr(e.k); ok && m.idx[ks] == e {
		delete(m.idx, ks)
	} else {
		m.symKeys--
	}
}

func (in *Interp) lookup(i *ssa.Lookup, x, k value) value {
	switch m := x.(type) {
	case string, *Term:
		return in.strIndex(m, k)
	case *hashmap:
		var v value
		ok := false
		if m != nil {
			in.mapAccess(m, false)
			if e := in.mapFind(m, k); e != nil {
				v, ok = copyVal(e.v), true
			}
		}
		if !ok {
			v = zero(i.X.Type().Underlying().(*types.Map).Elem())
		}
		if i.CommaOk {
			return tuple{v, ok}
		}
		return v
	}
	panic(unsupported("lookup in %T", x))
}

func (in *Interp) rangeIter(x value) value {
	switch x := x.(type) {
	case *hashmap:
		it := &mapIter{m: x}
		if x != nil {
			in.mapAccess(x, false)
			it.left = append(it.left, x.entries...)
		}
		return it
	case string, *Term:
		return &strIter{s: x}
	}
	panic(unsupported("range over %T", x))
}

func (in *Interp) next(i *ssa.Next, it value) value {
	tt := i.Type().(*types.Tuple)
	switch it := it.(type) {
	case *mapIter:
		for len(it.left) > 0 {
			k := 0
			if in.e.opts.MapOrders && len(it.left) <= 3 && in.prog.isRepo(i.Parent().Pkg) {
				k = in.p.Choose(len(it.left))
			}
			e := it.left[k]
			it.left = append(append([]*mapEntry{}, it.left[:k]...), it.left[k+1:]...)
			live := false
			for _, x := range it.m.entries {
				if x == e {
					live = true
					break
				}
			}
			if !live {
				continue
			}
			return tuple{true, copyVal(e.k), copyVal(e.v)}
		}
		return tuple{false, nil, nil}
	case *strIter:
		s := in.simp(it.s)
		if str, ok := s.(string); ok {
			if it.i >= len(str) {
				return tuple{false, int64(0), int64(0)}
			}
			for n, r := range str[it.i:] {
				_ = n
				w := len(string(r))
				if r == 0xfffd && !strings.HasPrefix(str[it.i:], "\uFFFD") {
					w = 1
				}
				p := it.i
				it.i += w
				return tuple{true, int64(p), int64(r)}
			}
		}
		c := in.c()
		t := in.term(s)
		if !in.p.Branch(c.Lt(c.Int(int64(it.i)), c.Len(t))) {
			return tuple{false, int64(0), int64(0)}
		}
		ch := in.strIndex(s, int64(it.i))
		p := it.i
		it.i++
		var r value = ch
		if u, ok := ch.(uint64); ok {
			if u > 127 {
				panic(unsupported("range over symbolic non-ASCII"))
			}
			r = int64(u)
		}
		return tuple{true, int64(p), r}
	}
	_ = tt
	panic(unsupported("next on %T", it))
}

// ---- builtins -------------------------------------------------------------------------------

func (in *Interp) lenOf(v value) value {
	switch x := v.(type) {
	case string:
		return int64(len(x))
	case *Term:
		return in.lowerInt(in.c().Len(in.c().norm(x)))
	case []value:
		return int64(len(x))
	case *symBytes:
		return in.lowerInt(in.c().Len(in.c().norm(x.t)))
	case array:
		return int64(len(x))
	case *hashmap:
		if x == nil {
			return int64(0)
		}
		in.mapAccess(x, false)
		return int64(len(x.entries))
	case *channel:
		if x == nil {
			return int64(0)
		}
		return int64(len(x.buf))
	case *value:
		return int64(len((*x).(array)))
	}
	panic(unsupported("len of %T", v))
}

func (in *Interp) builtin(fr *frame, f *ssa.Builtin, args []value, site ssa.Instruction) value {
	switch f.Name() {
	case "len":
		return in.lenOf(args[0])
	case "cap":
		switch x := args[0].(type) {
		case []value:
			return int64(cap(x))
		case *channel:
			return int64(x.cap)
		}
		return in.lenOf(args[0])
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		a, ok1 := args[0].([]value)
		var b []value
		switch y := args[1].(type) {
		case []value:
			b = y
		case string, *Term:
			sb := in.strToBytes(y)
			if bb, ok := sb.([]value); ok {
				b = bb
			} else {
				return in.appendSym(args[0], sb)
			}
		case *symBytes:
			if len(a) == 0 && ok1 {
				return y
			}
			return in.appendSym(args[0], y)
		default:
			panic(unsupported("append %T", y))
		}
		if !ok1 {
			return in.appendSym(args[0], args[1])
		}
		if len(b) == 0 {
			return a
		}
		// keep Go's aliasing: write into spare capacity when there is some
		if len(a)+len(b) <= cap(a) {
			r := a[:len(a)+len(b)]
			for i := range b {
				r[len(a)+i] = copyVal(b[i])
			}
			return r
		}
		nc := len(a) + len(b)
		if d := 2 * cap(a); d > nc && cap(a) < 256 {
			nc = d
		}
		r := make([]value, len(a)+len(b), nc)
		copy(r, a)
		for i := range b {
			r[len(a)+i] = copyVal(b[i])
		}
		if st, ok := site.(ssa.Value); ok && nc > len(r) {
			if sl, ok := st.Type().Underlying().(*types.Slice); ok {
				full := r[:nc]
				for i := len(r); i < nc; i++ {
					full[i] = zero(sl.Elem())
				}
			}
		}
		return r
	case "copy":
		d := args[0]
		s := args[1]
		switch s.(type) {
		case string, *Term:
			s = in.strToBytes(s)
		}
		if sb, ok := s.(*symBytes); ok {
			s = in.explodeBytes(sb)
		}
		db, ok := d.([]value)
		if !ok {
			panic(unsupported("copy to %T", d))
		}
		ss := s.([]value)
		n := min(len(db), len(ss))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(ss[i])
		}
		for i := 0; i < n; i++ {
			storeInto(&db[i], tmp[i])
		}
		return int64(n)
	case "delete":
		m, ok := args[0].(*hashmap)
		if !ok {
			panic(unsupported("delete on %T", args[0]))
		}
		if m != nil {
			in.mapAccess(m, true)
		}
		in.mapDelete(m, args[1])
		return nil
	case "close":
		in.chanClose(args[0])
		return nil
	case "panic":
		panic(targetPanic{v: args[0], where: in.where()})
	case "recover":
		return in.doRecover(fr)
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			c := in.c()
			x, y := in.term(r), in.term(a)
			var lt *Term
			if x.sort == SStr {
				lt = c.StrLt(x, y)
			} else {
				lt = c.Le(x, y)
			}
			if f.Name() == "max" {
				lt = c.Not(lt)
			}
			r = in.lower(c.Ite(lt, x, y), site.(ssa.Value).Type())
		}
		return r
	case "clear":
		if m, ok := args[0].(*hashmap); ok && m != nil {
			in.mapAccess(m, true)
			m.entries, m.idx, m.symKeys = nil, map[string]*mapEntry{}, 0
			return nil
		}
	case "ssa:wrapnilchk":
		if isNilPtr(args[0]) {
			in.gopanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		if p, ok := args[0].(*value); ok {
			n := in.concInt(args[1])
			if n == 0 {
				return ""
			}
			if arr, ok := in.side[sliceOf{p}]; ok {
				return in.bytesToStr(arr.([]value)[:n])
			}
			if sb, ok := in.side[symOf{p}]; ok {
				return in.lowerStr(sb.(*symBytes).t)
			}
		}
	case "SliceData":
		switch b := args[0].(type) {
		case []value:
			if len(b) == 0 {
				return (*value)(nil)
			}
			in.side[sliceOf{&b[0]}] = b
			return &b[0]
		case *symBytes:
			p := new(value)
			in.side[symOf{p}] = b
			return p
		}
	}
	panic(unsupported("builtin %s", f.Name()))
}

type sliceOf struct{ p *value }
type symOf struct{ p *value }

func (in *Interp) appendSym(a, b value) value {
	c := in.c()
	lift := func(v value) *Term {
		switch x := v.(type) {
		case []value:
			return in.term(in.bytesToStr(x))
		case *symBytes:
			return c.norm(x.t)
		case string, *Term:
			return in.term(x)
		}
		panic(unsupported("append bytes %T", v))
	}
	return &symBytes{t: c.Concat(lift(a), lift(b))}
}

func (in *Interp) doRecover(caller *frame) value {
	// recover is effective when the deferring frame is panicking
	if caller != nil && caller.caller != nil && caller.caller.panicking {
		caller.caller.panicking = false
		return caller.caller.panicVal.v
	}
	return iface{}
}

func sortStrings(s []string) []string { sort.Strings(s); return s }
