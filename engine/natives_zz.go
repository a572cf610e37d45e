package main

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"math/big"
	"strconv"
)

// Engine side of the zzverif package used by the harnesses.

func (in *Interp) zzLabel(l string) string {
	p := in.p
	p.labels[l]++
	if n := p.labels[l]; n > 1 {
		return fmt.Sprintf("%s#%d", l, n)
	}
	return l
}

func (in *Interp) zzString(label string, cs charset, mn, mx int) value {
	p := in.p
	label = in.zzLabel(label)
	v := p.ctx.Var("in."+label, SStr)
	vi := p.ctx.info[v]
	vi.chars, vi.minLen, vi.maxLen = cs, mn, mx
	p.seed(v)
	p.inputs = append(p.inputs, Input{Label: label, Kind: "string", term: v})
	p.fix(label, v)
	if mx == 0 {
		p.Assume(p.ctx.Eq(v, p.ctx.Str("")))
		return ""
	}
	return v
}

// jdoc converts a harness document.
func (in *Interp) jdoc(v value) *doc {
	p, _ := v.(*value)
	if p == nil {
		return &doc{kind: "null"}
	}
	t := in.zzType("J")
	f := func(n string) value { return in.simp(in.getField(p, t, n)) }
	d := &doc{kind: in.concStr(f("K"))}
	switch d.kind {
	case "string":
		d.s = f("S")
	case "bool":
		d.b = f("B")
	case "number":
		n, h := f("N"), f("H")
		if z, ok := bigOf(n); ok {
			if hb, ok := h.(bool); ok {
				x, _ := new(big.Float).SetInt(z).Float64()
				if hb {
					x += 0.5
				}
				d.n = x
				return d
			}
		}
		sf := &symFloat{n: in.term(n), half: in.c().False}
		switch x := h.(type) {
		case bool:
			if x {
				sf.half = in.c().True
			}
		case *Term:
			sf.half = x
		}
		d.n = sf
	case "array", "object":
		l, _ := f("A").([]value)
		for _, e := range l {
			d.arr = append(d.arr, in.jdoc(e))
		}
		if d.kind == "object" {
			ks, _ := f("Keys").([]value)
			for _, k := range ks {
				d.keys = append(d.keys, in.concStr(in.simp(k)))
			}
			if len(d.keys) != len(d.arr) {
				panic(unsupported("bad document"))
			}
		}
	}
	return d
}

func (in *Interp) zzType(name string) types.Type {
	return in.prog.typeOf(modPath+"/adapter/zzverif", name)
}

func nativesZZ() {
	str := func(cs charset) func(in *Interp, fr *frame, a []value) value {
		return func(in *Interp, fr *frame, a []value) value {
			return in.zzString(in.concStr(a[0]), cs, 0, in.concInt(a[1]))
		}
	}
	print := charset{}
	for b := 0x20; b < 0x7f; b++ {
		print.add(byte(b))
	}
	all := charset{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
	nat("zz.String", str(print))
	nat("zz.Bytes", str(all))
	nat("zz.StringIn", func(in *Interp, fr *frame, a []value) value {
		return in.zzString(in.concStr(a[0]), setOf(in.concStr(a[1])), in.concInt(a[2]), in.concInt(a[3]))
	})
	nat("zz.Digit", func(in *Interp, fr *frame, a []value) value {
		last := "-_"
		if in.truth(a[1]) {
			last = "+/"
		}
		ch := in.zzString(in.concStr(a[0]), setOf(base64Alnum+last), 1, 1)
		b, ok := in.fixedBytes(in.explodeSmall(in.c().norm(in.term(ch))))
		if !ok {
			panic(unsupported("digit"))
		}
		return tuple{ch, in.b64Value(in.term(b[0]), last)}
	})
	nat("zz.Int", func(in *Interp, fr *frame, a []value) value {
		p := in.p
		label := in.zzLabel(in.concStr(a[0]))
		v := p.ctx.Var("in."+label, SInt)
		vi := p.ctx.info[v]
		lo, _ := bigOf(a[1])
		hi, _ := bigOf(a[2])
		vi.lo, vi.hi = lo, hi
		p.seed(v)
		p.inputs = append(p.inputs, Input{Label: label, Kind: "int", term: v})
		p.fix(label, v)
		return v
	})
	nat("zz.Bool", func(in *Interp, fr *frame, a []value) value {
		label := in.zzLabel(in.concStr(a[0]))
		v := in.p.newVar("in."+label, SBool)
		in.p.inputs = append(in.p.inputs, Input{Label: label, Kind: "bool", term: v})
		in.p.fix(label, v)
		return v
	})
	nat("zz.Choose", func(in *Interp, fr *frame, a []value) value {
		label := in.zzLabel(in.concStr(a[0]))
		n, k := in.concInt(a[1]), -1
		if s, ok := in.p.job.fixed[label].(string); ok {
			k, _ = strconv.Atoi(s)
		}
		if k < 0 || k >= n {
			k = in.p.Choose(n)
		}
		in.p.inputs = append(in.p.inputs, Input{Label: label, Kind: "choose", Val: fmt.Sprint(k)})
		return int64(k)
	})
	nat("zz.Assume", func(in *Interp, fr *frame, a []value) value {
		in.p.Assume(in.term(in.simp(a[0])))
		return nil
	})
	nat("zz.Assert", func(in *Interp, fr *frame, a []value) value {
		in.p.Assert(in.term(in.simp(a[0])), in.concStr(a[1]), in.where)
		return nil
	})
	nat("zz.Reach", func(in *Interp, fr *frame, a []value) value {
		l := in.concStr(a[0])
		for _, r := range in.p.reached {
			if r == l {
				return nil
			}
		}
		in.p.reached = append(in.p.reached, l)
		return nil
	})
	nat("zz.Observe", func(in *Interp, fr *frame, a []value) value {
		v := a[1]
		if f, ok := v.(iface); ok {
			v = f.v
		}
		in.p.obs = append(in.p.obs, Obs{Label: in.concStr(a[0]), v: v})
		return nil
	})
	list := func(in *Interp, v value) []*Term {
		var out []*Term
		l, _ := v.([]value)
		for _, x := range l {
			out = append(out, in.term(in.simp(x)))
		}
		return out
	}
	nat("zz.And", func(in *Interp, fr *frame, a []value) value { return in.lowerBool(in.c().And(list(in, a[0])...)) })
	nat("zz.Or", func(in *Interp, fr *frame, a []value) value { return in.lowerBool(in.c().Or(list(in, a[0])...)) })
	nat("zz.Implies", func(in *Interp, fr *frame, a []value) value {
		return in.lowerBool(in.c().Implies(in.term(in.simp(a[0])), in.term(in.simp(a[1]))))
	})
	nat("zz.Iff", func(in *Interp, fr *frame, a []value) value {
		return in.lowerBool(in.c().Eq(in.term(in.simp(a[0])), in.term(in.simp(a[1]))))
	})
	nat("zz.IteStr", func(in *Interp, fr *frame, a []value) value {
		return in.lowerStr(in.c().Ite(in.term(in.simp(a[0])), in.term(in.simp(a[1])), in.term(in.simp(a[2]))))
	})
	nat("zz.IteInt", func(in *Interp, fr *frame, a []value) value {
		return in.lowerInt(in.c().Ite(in.term(in.simp(a[0])), in.term(in.simp(a[1])), in.term(in.simp(a[2]))))
	})
	nat("zz.DeepEqual", func(in *Interp, fr *frame, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		return in.lowerBool(in.deepEq(x.t, x.v, y.v, map[[2]*value]bool{}))
	})
	// Concrete forks over the truth of a condition: both branches are explored
	nat("zz.Fork", func(in *Interp, fr *frame, a []value) value { return in.truth(in.simp(a[0])) })
	nat("zz.Go", func(in *Interp, fr *frame, a []value) value {
		if in.e.opts.Race {
			in.tracing = true
		}
		in.spawn(a[0], nil)
		return nil
	})
	nat("zz.Join", func(in *Interp, fr *frame, a []value) value {
		in.waitAll()
		return nil
	})
	nat("zz.Yield", func(in *Interp, fr *frame, a []value) value {
		in.yield("harness")
		return nil
	})
	nat("zz.SetTransport", func(in *Interp, fr *frame, a []value) value {
		in.side["transport"] = a[0]
		return nil
	})
	nat("zz.FailRandom", func(in *Interp, fr *frame, a []value) value {
		if in.truth(in.simp(a[0])) {
			in.side["failrandom"] = true
		} else {
			delete(in.side, "failrandom")
		}
		return nil
	})
	nat("zz.SeedRandom", func(in *Interp, fr *frame, a []value) value {
		in.rndSeq = uint64(in.concInt(a[0])) << 20
		return nil
	})
	nat("zz.Advance", func(in *Interp, fr *frame, a []value) value {
		in.advance += int64(in.concInt(a[0]))
		return nil
	})
	nat("zz.Thorough", func(in *Interp, fr *frame, a []value) value {
		if in.p.labels["thorough"] == 0 {
			in.p.labels["thorough"]++
			in.p.inputs = append(in.p.inputs, Input{Label: "thorough", Kind: "bool", Val: in.e.opts.Thorough})
		}
		return in.e.opts.Thorough
	})
	nat("zz.Symbolic", func(in *Interp, fr *frame, a []value) value { return true })
	nat("zz.Body", func(in *Interp, fr *frame, a []value) value {
		d := in.jdoc(a[0])
		if d.kind == "empty" {
			return []value{}
		}
		t := in.opaque("body")
		return &symBytes{t: t, aux: d}
	})
	nat("zz.rawToken", func(in *Interp, fr *frame, a []value) value {
		// head, claims *J, sign string, key int, tamper int, modulus hex, exponent
		t := &genTok{sign: in.concStr(a[2]), key: in.concInt(a[3]), kexp: int64(in.concInt(a[6]))}
		b, err := hex.DecodeString(in.concStr(a[5]))
		if err != nil {
			panic(unsupported("modulus"))
		}
		t.kbits = trimZeros(string(b))
		n := 0
		if t.sign == "none" {
			n = -1
		}
		switch in.concInt(a[4]) {
		case 0:
		default:
			t.sign = ""
		}
		switch t.sign {
		case "RS256", "RS384", "RS512", "PS256", "PS384", "PS512":
		default:
			t.sign = ""
		}
		return in.lowerStr(in.newToken(t, in.jdoc(a[0]), in.jdoc(a[1]), n))
	})
	nat("zz.UnpackDetail", func(in *Interp, fr *frame, a []value) value {
		p, _ := a[0].(*value)
		if p == nil {
			return (*value)(nil)
		}
		t := in.prog.typeOf("github.com/gogo/protobuf/types", "Any")
		sb, ok := in.getField(p, t, "Value").(*symBytes)
		if !ok {
			return (*value)(nil)
		}
		f, ok := sb.aux.(iface)
		if !ok {
			return (*value)(nil)
		}
		if types.TypeString(f.t, nil) != "*istio.io/api/policy/v1beta1.DirectHttpResponse" {
			return (*value)(nil)
		}
		q := new(value)
		*q = in.snapshot(*f.v.(*value))
		return q
	})
}

const base64Alnum = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
