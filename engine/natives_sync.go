package main

import (
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type lockKey struct{ p *value }

type lockState struct {
	w   bool
	own int
	r   int
}

func (in *Interp) lock(p value) (*lockState, *value) {
	v, ok := p.(*value)
	if !ok || v == nil {
		in.gopanic("invalid memory address or nil pointer dereference (mutex)")
	}
	if s, ok := in.side[lockKey{v}]; ok {
		return s.(*lockState), v
	}
	s := &lockState{}
	in.side[lockKey{v}] = s
	return s, v
}

// fatal is an unrecoverable runtime error of the program.
func (in *Interp) fatal(msg string) {
	panic(targetPanic{v: iface{types.Typ[types.String], "fatal error: " + msg}, where: in.where()})
}

type wgKey struct{ p *value }
type onceKey struct{ p *value }
type smKey struct{ p *value }
type poolKey struct{ p *value }

type onceState struct{ done, running bool }

// userCond allows the harness to block.
func nativesSync() {
	wlock := func(in *Interp, fr *frame, a []value) value {
		s, p := in.lock(a[0])
		in.yield("lock")
		in.block("Lock", func() bool { return !s.w && s.r == 0 })
		s.w, s.own = true, in.cur.id
		in.emit("lock", p, "mutex")
		return nil
	}
	wunlock := func(in *Interp, fr *frame, a []value) value {
		s, p := in.lock(a[0])
		if !s.w {
			in.fatal("sync: unlock of unlocked mutex")
		}
		in.emit("unlock", p, "mutex")
		s.w = false
		in.yield("unlock")
		return nil
	}
	nat("(*sync.Mutex).Lock", wlock)
	nat("(*sync.Mutex).Unlock", wunlock)
	nat("(*sync.RWMutex).Lock", wlock)
	nat("(*sync.RWMutex).Unlock", wunlock)
	nat("(*sync.Mutex).TryLock", func(in *Interp, fr *frame, a []value) value {
		s, p := in.lock(a[0])
		in.yield("trylock")
		if s.w {
			return false
		}
		s.w = true
		in.emit("lock", p, "mutex")
		return true
	})
	nat("(*sync.RWMutex).RLock", func(in *Interp, fr *frame, a []value) value {
		s, p := in.lock(a[0])
		in.yield("rlock")
		in.block("RLock", func() bool { return !s.w })
		s.r++
		in.emit("rlock", p, "mutex")
		return nil
	})
	nat("(*sync.RWMutex).RUnlock", func(in *Interp, fr *frame, a []value) value {
		s, p := in.lock(a[0])
		if s.r == 0 {
			in.fatal("sync: RUnlock of unlocked RWMutex")
		}
		in.emit("runlock", p, "mutex")
		s.r--
		in.yield("runlock")
		return nil
	})
	nat("(*sync.WaitGroup).Add", func(in *Interp, fr *frame, a []value) value {
		p := a[0].(*value)
		n, _ := in.side[wgKey{p}].(int)
		n += in.concInt(a[1])
		if n < 0 {
			in.gopanic("sync: negative WaitGroup counter")
		}
		in.side[wgKey{p}] = n
		if in.concInt(a[1]) < 0 {
			in.emit("rel", wgKey{p}, "waitgroup")
		}
		return nil
	})
	nat("(*sync.WaitGroup).Done", func(in *Interp, fr *frame, a []value) value {
		p := a[0].(*value)
		n, _ := in.side[wgKey{p}].(int)
		n--
		if n < 0 {
			in.gopanic("sync: negative WaitGroup counter")
		}
		in.side[wgKey{p}] = n
		in.emit("rel", wgKey{p}, "waitgroup")
		in.yield("wg.Done")
		return nil
	})
	nat("(*sync.WaitGroup).Wait", func(in *Interp, fr *frame, a []value) value {
		p := a[0].(*value)
		in.yield("wg.Wait")
		in.block("WaitGroup", func() bool { n, _ := in.side[wgKey{p}].(int); return n == 0 })
		in.emit("acq", wgKey{p}, "waitgroup")
		return nil
	})
	// timers do not elapse: a periodic function runs until the channel is closed
	nat("k8s.io/apimachinery/pkg/util/wait.JitterUntil", func(in *Interp, fr *frame, a []value) value {
		stop, _ := a[4].(*channel)
		for n := 0; stop == nil || !stop.closed; n++ {
			if n == 50 {
				panic(unsupported("periodic function does not stop"))
			}
			in.yield("period")
			in.call(fr, a[0], nil, nil)
		}
		return nil
	})
	nat("k8s.io/client-go/tools/cache.WaitForCacheSync", func(in *Interp, fr *frame, a []value) value {
		fs, _ := a[1].([]value)
		for _, f := range fs {
			if !in.truth(in.call(fr, f, nil, nil)) {
				panic(unsupported("cache that is not synced"))
			}
		}
		stop, _ := a[0].(*channel)
		return stop == nil || !stop.closed
	})
	nat("(*sync.Once).Do", func(in *Interp, fr *frame, a []value) value {
		p := a[0].(*value)
		k := onceKey{p}
		s, _ := in.side[k].(*onceState)
		if s == nil {
			s = &onceState{}
			in.side[k] = s
		}
		in.yield("once")
		if s.running {
			in.block("Once", func() bool { return s.done })
		}
		if !s.done {
			s.running = true
			func() {
				defer func() { s.done = true }()
				in.call(fr, a[1], nil, nil)
			}()
			in.emit("rel", k, "once")
		} else {
			in.emit("acq", k, "once")
		}
		return nil
	})
	nat("(*sync.Pool).Get", func(in *Interp, fr *frame, a []value) value {
		p := a[0].(*value)
		if l, ok := in.side[poolKey{p}].([]value); ok && len(l) > 0 {
			v := l[len(l)-1]
			in.side[poolKey{p}] = l[:len(l)-1]
			return v
		}
		t := in.prog.typeOf("sync", "Pool")
		nf := *fieldPtr(*p, t, "New")
		if f, ok := nf.(*ssa.Function); ok && f == nil {
			return iface{}
		}
		return in.call(fr, nf, nil, nil)
	})
	nat("(*sync.Pool).Put", func(in *Interp, fr *frame, a []value) value {
		p := a[0].(*value)
		l, _ := in.side[poolKey{p}].([]value)
		in.side[poolKey{p}] = append(l, a[1])
		return nil
	})

	// sync.Map
	sm := func(in *Interp, p value) (*hashmap, smKey) {
		v, ok := p.(*value)
		if !ok || v == nil {
			in.gopanic("invalid memory address or nil pointer dereference (sync.Map)")
		}
		k := smKey{v}
		if m, ok := in.side[k]; ok {
			return m.(*hashmap), k
		}
		m := newMap(types.NewInterfaceType(nil, nil))
		in.side[k] = m
		return m, k
	}
	sync := func(in *Interp, k smKey, w bool) {
		in.yield("sync.Map")
		in.emit("acq", k, "sync.Map")
		if w {
			in.emit("rel", k, "sync.Map")
		}
	}
	nat("(*sync.Map).Load", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, false)
		if e := in.mapFind(m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		return tuple{iface{}, false}
	})
	nat("(*sync.Map).Store", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, true)
		in.mapSet(m, a[1], a[2])
		return nil
	})
	nat("(*sync.Map).Delete", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, true)
		in.mapDelete(m, a[1])
		return nil
	})
	nat("(*sync.Map).LoadOrStore", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, true)
		if e := in.mapFind(m, a[1]); e != nil {
			return tuple{e.v, true}
		}
		in.mapSet(m, a[1], a[2])
		return tuple{a[2], false}
	})
	nat("(*sync.Map).LoadAndDelete", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, true)
		if e := in.mapFind(m, a[1]); e != nil {
			v := e.v
			in.mapDelete(m, a[1])
			return tuple{v, true}
		}
		return tuple{iface{}, false}
	})
	nat("(*sync.Map).Swap", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, true)
		if e := in.mapFind(m, a[1]); e != nil {
			v := e.v
			e.v = a[2]
			return tuple{v, true}
		}
		in.mapSet(m, a[1], a[2])
		return tuple{iface{}, false}
	})
	nat("(*sync.Map).CompareAndSwap", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, true)
		if e := in.mapFind(m, a[1]); e != nil {
			t := m.kt
			if in.truth(in.lowerBool(in.eq(t, t, e.v, a[2]))) {
				e.v = a[3]
				return true
			}
		}
		return false
	})
	nat("(*sync.Map).Range", func(in *Interp, fr *frame, a []value) value {
		m, k := sm(in, a[0])
		sync(in, k, false)
		for _, e := range append([]*mapEntry{}, m.entries...) {
			if !in.truth(in.call(fr, a[1], []value{e.k, e.v}, nil)) {
				break
			}
		}
		return nil
	})

	// sync/atomic on plain words
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		bt := map[string]types.BasicKind{"Int32": types.Int32, "Int64": types.Int64, "Uint32": types.Uint32, "Uint64": types.Uint64, "Uintptr": types.Uintptr}[t]
		typ := types.Typ[bt]
		nat("sync/atomic.Load"+t, func(in *Interp, fr *frame, a []value) value {
			in.yield("atomic")
			in.emit("acq", a[0], "atomic")
			return *(a[0].(*value))
		})
		nat("sync/atomic.Store"+t, func(in *Interp, fr *frame, a []value) value {
			in.yield("atomic")
			in.emit("rel", a[0], "atomic")
			*(a[0].(*value)) = a[1]
			return nil
		})
		nat("sync/atomic.Add"+t, func(in *Interp, fr *frame, a []value) value {
			in.yield("atomic")
			in.emit("acq", a[0], "atomic")
			in.emit("rel", a[0], "atomic")
			p := a[0].(*value)
			x, _ := bigOf(*p)
			y, ok := bigOf(a[1])
			if x == nil || !ok {
				panic(unsupported("symbolic atomic add"))
			}
			*p = mkInt(new(big.Int).Add(x, y), typ)
			return *p
		})
		nat("sync/atomic.Swap"+t, func(in *Interp, fr *frame, a []value) value {
			in.yield("atomic")
			in.emit("acq", a[0], "atomic")
			in.emit("rel", a[0], "atomic")
			p := a[0].(*value)
			o := *p
			*p = a[1]
			return o
		})
		nat("sync/atomic.CompareAndSwap"+t, func(in *Interp, fr *frame, a []value) value {
			in.yield("atomic")
			in.emit("acq", a[0], "atomic")
			in.emit("rel", a[0], "atomic")
			p := a[0].(*value)
			if in.truth(in.lowerBool(in.eq(typ, typ, *p, a[1]))) {
				*p = a[2]
				return true
			}
			return false
		})
	}
	// atomic.Value and atomic.Pointer
	cell := func(in *Interp, p value, w bool) *value {
		v := p.(*value)
		in.yield("atomic")
		in.emit("acq", v, "atomic")
		if w {
			in.emit("rel", v, "atomic")
		}
		k := atomicKey{v}
		if c, ok := in.side[k]; ok {
			return c.(*value)
		}
		c := new(value)
		in.side[k] = c
		return c
	}
	nat("(*sync/atomic.Value).Load", func(in *Interp, fr *frame, a []value) value {
		c := cell(in, a[0], false)
		if *c == nil {
			return iface{}
		}
		return *c
	})
	nat("(*sync/atomic.Value).Store", func(in *Interp, fr *frame, a []value) value {
		if i := a[1].(iface); i.t == nil {
			in.gopanic("sync/atomic: store of nil value into Value")
		}
		*cell(in, a[0], true) = a[1]
		return nil
	})
	ptrZero := (*value)(nil)
	nat("(*sync/atomic.Pointer[T]).Load", func(in *Interp, fr *frame, a []value) value {
		c := cell(in, a[0], false)
		if *c == nil {
			return ptrZero
		}
		return *c
	})
	nat("(*sync/atomic.Pointer[T]).Store", func(in *Interp, fr *frame, a []value) value {
		*cell(in, a[0], true) = a[1]
		return nil
	})
	nat("(*sync/atomic.Pointer[T]).Swap", func(in *Interp, fr *frame, a []value) value {
		c := cell(in, a[0], true)
		o := *c
		*c = a[1]
		if o == nil {
			return ptrZero
		}
		return o
	})
	nat("(*sync/atomic.Pointer[T]).CompareAndSwap", func(in *Interp, fr *frame, a []value) value {
		c := cell(in, a[0], true)
		cur := ptrZero
		if *c != nil {
			cur = (*c).(*value)
		}
		if cur == a[1].(*value) {
			*c = a[2]
			return true
		}
		return false
	})
}

type atomicKey struct{ p *value }
