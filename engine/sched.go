package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Goroutines are Go goroutines of the engine that pass a baton: exactly one
// runs at any time, and every hand-over is a recorded decision.

type gor struct {
	id      int
	wake    chan struct{}
	top     *frame
	blocked func() bool // nil: runnable; otherwise runnable once it returns true
	why     string
	done    bool
	started bool
}

type channel struct {
	cap    int
	buf    []value
	closed bool
	// unbuffered hand-over
	recvq, sendq int
	slot         []value
	ev           []*event
}

type event struct {
	id   int
	g    int
	kind string // r w acq rel racq rrel fork begin end join sig wait
	obj  any
	name string
	pos  string
	prev []*event // must come after these (observed synchronisation)
	tgt  int
}

type schedState struct {
	lastRel map[any][]*event // release-like events by object, for acquire edges
}

type raceVar struct{}

type killed struct{}

func (in *Interp) multi() bool { return len(in.gs) > 1 }

func (in *Interp) spawn(fn value, args []value) {
	if len(in.gs) > 12 {
		panic(unsupported("too many goroutines"))
	}
	g := &gor{id: len(in.gs), wake: make(chan struct{}, 1)}
	in.gs = append(in.gs, g)
	fe := in.emit("fork", nil, "")
	if fe != nil {
		fe.tgt = g.id
	}
	go func() {
		<-g.wake
		if in.aborted {
			in.gdone <- struct{}{}
			return
		}
		defer func() {
			r := recover()
			g.done = true
			if _, ok := r.(killed); ok || in.aborted {
				in.gdone <- struct{}{}
				return
			}
			if r != nil {
				in.abort = r
				in.aborted = true
				if tp, ok := r.(targetPanic); ok {
					in.abort = tp
				}
				in.gs[0].wake <- struct{}{}
				in.gdone <- struct{}{}
				return
			}
			// hand over to someone else
			var next *gor
			func() {
				defer func() {
					if r := recover(); r != nil {
						in.abort = r
						in.aborted = true
						next = in.gs[0]
					}
				}()
				in.emit("end", nil, "")
				next = in.pickNext(nil)
			}()
			if next == nil {
				in.abort = targetPanic{v: iface{types.Typ[types.String], "all goroutines are asleep - deadlock!"}, where: "deadlock"}
				in.aborted = true
				next = in.gs[0]
			}
			in.cur = next
			next.wake <- struct{}{}
			in.gdone <- struct{}{}
		}()
		g.started = true
		in.emit("begin", nil, "")
		in.call(nil, fn, args, nil)
	}()
	in.yield("go")
}

// runnable lists the goroutines that can run now.
func (in *Interp) runnable() []*gor {
	var out []*gor
	for _, g := range in.gs {
		if g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			out = append(out, g)
		}
	}
	return out
}

// pickNext chooses the next goroutine; cur (when runnable) is preferred and
// moving away from it costs one preemption.
func (in *Interp) pickNext(cur *gor) *gor {
	rs := in.runnable()
	if len(rs) == 0 {
		return nil
	}
	curOK := false
	for _, g := range rs {
		if g == cur {
			curOK = true
		}
	}
	if curOK {
		if in.preempt <= 0 || len(rs) == 1 {
			return cur
		}
		// alternative 0: keep running
		ord := []*gor{cur}
		for _, g := range rs {
			if g != cur {
				ord = append(ord, g)
			}
		}
		k := in.p.Choose(len(ord))
		if k > 0 {
			in.preempt--
		}
		return ord[k]
	}
	return rs[in.p.Choose(len(rs))]
}

func (in *Interp) switchTo(next *gor) {
	me := in.cur
	if next == me {
		return
	}
	in.cur = next
	next.wake <- struct{}{}
	<-me.wake
	in.cur = me
	if in.aborted {
		if me.id == 0 {
			panic(in.abort)
		}
		panic(killed{})
	}
}

// yield is a scheduling point.
func (in *Interp) yield(why string) {
	if !in.multi() || in.inInit > 0 {
		return
	}
	me := in.cur
	next := in.pickNext(me)
	in.switchTo(next)
}

// block waits until ready() holds.
func (in *Interp) block(why string, ready func() bool) {
	if ready() {
		return
	}
	me := in.cur
	for !ready() {
		me.blocked, me.why = ready, why
		next := in.pickNext(nil)
		if next == nil {
			panic(targetPanic{v: iface{types.Typ[types.String], "all goroutines are asleep - deadlock! (" + why + ")"}, where: in.where()})
		}
		if next == me {
			me.blocked = nil
			return
		}
		in.switchTo(next)
	}
	me.blocked = nil
}

func (in *Interp) killGoroutines() {
	in.aborted = true
	n := 0
	for _, g := range in.gs {
		if g.id != 0 {
			n++
		}
	}
	for _, g := range in.gs {
		if g.id != 0 && !g.done {
			select {
			case g.wake <- struct{}{}:
			default:
			}
		}
	}
	for i := 0; i < n; i++ {
		<-in.gdone
	}
}

// waitAll lets every other goroutine finish (harness join).
func (in *Interp) waitAll() {
	me := in.cur
	in.block("join", func() bool {
		for _, g := range in.gs {
			if g != me && !g.done {
				return false
			}
		}
		return true
	})
	in.emit("join", nil, "")
}

// ---- channels ---------------------------------------------------------------------

func (in *Interp) chanSend(ch, v value) {
	c := ch.(*channel)
	if c == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	in.yield("send")
	if c.closed {
		in.gopanic("send on closed channel")
	}
	e := in.emit("rel", c, "chan")
	if c.cap > 0 {
		in.block("chan send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			in.gopanic("send on closed channel")
		}
		c.buf = append(c.buf, copyVal(v))
	} else {
		c.buf = append(c.buf, copyVal(v))
		taken := false
		c.slot = append(c.slot, &taken)
		in.block("chan send", func() bool { return taken })
	}
	_ = e
}

func (in *Interp) chanRecv(ch value, t types.Type, commaOk bool) (value, bool) {
	c := ch.(*channel)
	if c == nil {
		in.block("receive on nil channel", func() bool { return false })
	}
	in.yield("recv")
	in.block("chan receive", func() bool { return len(c.buf) > 0 || c.closed })
	in.emit("acq", c, "chan")
	if len(c.buf) == 0 {
		et := t
		if commaOk {
			et = t.(*types.Tuple).At(0).Type()
		}
		return zero(et), false
	}
	v := c.buf[0]
	c.buf = c.buf[1:]
	if c.cap == 0 {
		*(c.slot[0].(*bool)) = true
		c.slot = c.slot[1:]
	}
	return v, true
}

func (in *Interp) chanClose(ch value) {
	c := ch.(*channel)
	if c == nil {
		in.gopanic("close of nil channel")
	}
	if c.closed {
		in.gopanic("close of closed channel")
	}
	in.emit("rel", c, "chan")
	c.closed = true
	in.yield("close")
}

func (in *Interp) selectStmt(fr *frame, i *ssa.Select) value {
	ready := func() []int {
		var out []int
		for k, s := range i.States {
			c := fr.get(s.Chan).(*channel)
			if c == nil {
				continue
			}
			if s.Dir == types.RecvOnly {
				if len(c.buf) > 0 || c.closed {
					out = append(out, k)
				}
			} else if c.closed || c.cap > 0 && len(c.buf) < c.cap {
				out = append(out, k)
			}
		}
		return out
	}
	in.yield("select")
	rs := ready()
	if len(rs) == 0 && i.Blocking {
		in.block("select", func() bool { return len(ready()) > 0 })
		rs = ready()
	}
	r := tuple{int64(-1), false}
	var recvs []value
	pick := -1
	if len(rs) > 0 {
		pick = rs[in.p.Choose(len(rs))]
	}
	for k, s := range i.States {
		if s.Dir != types.RecvOnly {
			if k == pick {
				in.chanSend(fr.get(s.Chan), fr.get(s.Send))
			}
			continue
		}
		et := s.Chan.Type().Underlying().(*types.Chan).Elem()
		var v value = zero(et)
		if k == pick {
			var ok bool
			v, ok = in.chanRecv(fr.get(s.Chan), et, false)
			r[1] = ok
		}
		recvs = append(recvs, v)
	}
	r[0] = int64(pick)
	return append(r, recvs...)
}

// ---- events and race detection ---------------------------------------------------------

func (in *Interp) emit(kind string, obj any, name string) *event {
	if !in.tracing || in.inInit > 0 {
		return nil
	}
	e := &event{id: len(in.events), g: in.cur.id, kind: kind, obj: obj, name: name, tgt: -1}
	if in.cur.top != nil && in.cur.top.instr != nil {
		e.pos = in.prog.pos(in.cur.top.instr.Pos())
	}
	in.events = append(in.events, e)
	if len(in.events) > 4000 {
		panic(unsupported("too many events"))
	}
	return e
}

func (in *Interp) access(p *value, write bool) {
	if !in.tracing || in.inInit > 0 {
		return
	}
	f := in.cur.top
	if f == nil || f.fn.Pkg == nil || !in.prog.isRepo(f.fn.Pkg) || isVerifPkg(f.fn.Pkg.Pkg.Path()) {
		return
	}
	k := "r"
	if write {
		k = "w"
	}
	in.emit(k, p, "memory")
}

func (in *Interp) mapAccess(m *hashmap, write bool) {
	if !in.tracing || in.inInit > 0 {
		return
	}
	f := in.cur.top
	if f == nil || f.fn.Pkg == nil || !in.prog.isRepo(f.fn.Pkg) || isVerifPkg(f.fn.Pkg.Pkg.Path()) {
		return
	}
	k := "r"
	if write {
		k = "w"
	}
	in.emit(k, m, "map")
}

// finishRace decides with the solver whether two conflicting accesses of the
// recorded execution can be adjacent in some order that respects program
// order, thread creation/join, mutual exclusion of critical sections and the
// observed release/acquire pairs.
func (in *Interp) finishRace() {
	if !in.e.opts.Race || len(in.events) == 0 {
		return
	}
	ev := in.events
	in.tracing = false
	atomic.AddInt64(&in.e.events, int64(len(ev)))
	// conflicting pairs, one per pair of source positions
	type pk struct{ a, b string }
	seen := map[pk]bool{}
	type pair struct{ a, b *event }
	var pairs []pair
	byObj := map[any][]*event{}
	for _, e := range ev {
		if e.kind == "r" || e.kind == "w" {
			byObj[e.obj] = append(byObj[e.obj], e)
		}
	}
	var objs []any
	for o := range byObj {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return byObj[objs[i]][0].id < byObj[objs[j]][0].id })
	for _, o := range objs {
		es := byObj[o]
		for i, a := range es {
			for _, b := range es[i+1:] {
				if a.g == b.g || a.kind == "r" && b.kind == "r" {
					continue
				}
				pairs = append(pairs, pair{a, b})
			}
		}
	}
	if len(pairs) == 0 {
		return
	}
	c := NewCtx()
	ov := make([]*Term, len(ev))
	for i := range ev {
		ov[i] = c.Var(fmt.Sprintf("o%d", i), SInt)
	}
	var cs []*Term
	// hard edges, for pairs that are ordered however the locks are taken
	var hard [][2]int
	isHard := true
	lt := func(a, b *event) *Term {
		if isHard {
			hard = append(hard, [2]int{a.id, b.id})
		}
		return c.Lt(ov[a.id], ov[b.id])
	}
	last := map[int]*event{}
	begin := map[int]*event{}
	end := map[int]*event{}
	for _, e := range ev {
		if l := last[e.g]; l != nil {
			cs = append(cs, lt(l, e))
		}
		last[e.g] = e
		if begin[e.g] == nil {
			begin[e.g] = e
		}
		end[e.g] = e
	}
	// critical sections
	type sec struct {
		acq, rel *event
		rd       bool
	}
	secs := map[any][]*sec{}
	open := map[[2]any]*sec{}
	var relFirst = map[any][]*event{}
	for _, e := range ev {
		switch e.kind {
		case "fork":
			if b := begin[e.tgt]; b != nil {
				cs = append(cs, lt(e, b))
			}
		case "join":
			for g, x := range end {
				if g != e.g && x.id < e.id {
					cs = append(cs, lt(x, e))
				}
			}
		case "lock", "rlock":
			s := &sec{acq: e, rd: e.kind == "rlock"}
			secs[e.obj] = append(secs[e.obj], s)
			open[[2]any{e.obj, e.g}] = s
		case "unlock", "runlock":
			if s := open[[2]any{e.obj, e.g}]; s != nil {
				s.rel = e
				delete(open, [2]any{e.obj, e.g})
			}
		case "rel":
			relFirst[e.obj] = append(relFirst[e.obj], e)
		case "acq":
			// happens after every earlier release on the same object
			for _, r := range relFirst[e.obj] {
				if r.g != e.g {
					cs = append(cs, lt(r, e))
				}
			}
		}
	}
	isHard = false
	before := ordered(len(ev), hard)
	held := map[[2]any][]*sec{} // critical sections of a goroutine on an object
	for m, ss := range secs {
		for _, s := range ss {
			k := [2]any{m, s.acq.g}
			held[k] = append(held[k], s)
		}
	}
	inside := func(s *sec, e *event) bool {
		return s.acq.id < e.id && (s.rel == nil || e.id < s.rel.id)
	}
	// excluded: both accesses lie in critical sections that exclude each other
	excluded := func(a, b *event) bool {
		for m := range secs {
			for _, x := range held[[2]any{m, a.g}] {
				if !inside(x, a) {
					continue
				}
				for _, y := range held[[2]any{m, b.g}] {
					if inside(y, b) && !(x.rd && y.rd) {
						return true
					}
				}
			}
		}
		return false
	}
	var mus []any
	for m := range secs {
		mus = append(mus, m)
	}
	sort.Slice(mus, func(i, j int) bool { return secs[mus[i]][0].acq.id < secs[mus[j]][0].acq.id })
	for _, m := range mus {
		ss := secs[m]
		for i, a := range ss {
			for _, b := range ss[i+1:] {
				if a.acq.g == b.acq.g || a.rd && b.rd {
					continue
				}
				var alts []*Term
				if a.rel != nil {
					alts = append(alts, lt(a.rel, b.acq))
				}
				if b.rel != nil {
					alts = append(alts, lt(b.rel, a.acq))
				}
				cs = append(cs, c.Or(alts...))
			}
		}
	}
	base := c.And(cs...)
	conj := []*Term{base}
	if base.op == OAnd {
		conj = base.args
	}
	var together []pair
	alone := false
	check := func(pr pair) {
		k := pk{pr.a.pos, pr.b.pos}
		if k.a > k.b {
			k.a, k.b = k.b, k.a
		}
		if seen[k] {
			return
		}
		atomic.AddInt64(&in.e.raceQ, 1)
		atomic.AddInt64(&in.e.asserts, 1)
		if before(pr.a.id, pr.b.id) || before(pr.b.id, pr.a.id) {
			atomic.AddInt64(&in.e.provedT, 1)
			return
		}
		if !alone && excluded(pr.a, pr.b) {
			// expected to be impossible: decided together with its like
			together = append(together, pr)
			return
		}
		q := append(append([]*Term{}, conj...), c.Eq(ov[pr.a.id], ov[pr.b.id]))
		// what was read before the two accesses is what was read in the
		// execution: otherwise the two might not be reached
		for _, o := range objs {
			var ws []*event
			for _, e := range byObj[o] {
				if e.kind == "w" {
					ws = append(ws, e)
				}
			}
			if len(ws) == 0 {
				continue
			}
			for _, r := range byObj[o] {
				if r.kind != "r" || r == pr.a || r == pr.b || before(pr.a.id, r.id) || before(pr.b.id, r.id) {
					continue
				}
				var from *event
				for _, w := range ws {
					if w.id < r.id {
						from = w
					}
				}
				var rf []*Term
				if from != nil && from.g != r.g {
					rf = append(rf, c.Lt(ov[from.id], ov[r.id]))
				}
				for _, w := range ws {
					if w == from || w.g == r.g {
						continue
					}
					if from == nil {
						rf = append(rf, c.Lt(ov[r.id], ov[w.id]))
					} else {
						rf = append(rf, c.Or(c.Lt(ov[w.id], ov[from.id]), c.Lt(ov[r.id], ov[w.id])))
					}
				}
				if len(rf) > 0 {
					q = append(q, c.Or(c.Not(c.Lt(ov[r.id], ov[pr.a.id])), c.And(rf...)))
				}
			}
		}
		r, _ := in.solver.Check(c, q)
		switch r {
		case Unsat:
			atomic.AddInt64(&in.e.provedN, 1)
		case Unknown:
			in.e.note(in.e.unkAssert, "race "+k.a+" / "+k.b)
		case Sat:
			seen[k] = true
			if !in.p.unk {
				in.p.report("race: "+k.a+" / "+k.b, "unsynchronised access", in.p.model)
			}
		}
	}
	for _, pr := range pairs {
		check(pr)
	}
	if len(together) > 0 {
		var any []*Term
		for _, pr := range together {
			any = append(any, c.Eq(ov[pr.a.id], ov[pr.b.id]))
		}
		r, _ := in.solver.Check(c, append(append([]*Term{}, conj...), c.Or(any...)))
		if r == Unsat {
			atomic.AddInt64(&in.e.provedN, int64(len(together)))
			return
		}
		alone = true
		for _, pr := range together {
			check(pr)
		}
	}
}

// ordered computes the reachability of a graph whose edges go from lower to
// higher numbers.
func ordered(n int, edges [][2]int) func(a, b int) bool {
	w := (n + 63) / 64
	succ := make([][]int, n)
	for _, e := range edges {
		if e[0] < e[1] {
			succ[e[0]] = append(succ[e[0]], e[1])
		}
	}
	reach := make([][]uint64, n)
	for i := n - 1; i >= 0; i-- {
		r := make([]uint64, w)
		for _, j := range succ[i] {
			r[j/64] |= 1 << (j % 64)
			for k, x := range reach[j] {
				r[k] |= x
			}
		}
		reach[i] = r
	}
	return func(a, b int) bool { return a < b && reach[a][b/64]&(1<<(b%64)) != 0 }
}
