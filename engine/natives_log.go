package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Logging (go.uber.org/zap). Log calls have no effect unless the harness asks
// for the log with zz.CaptureLog; then messages of level info and above are
// kept as text, with their fields.

const zapPkg = "go.uber.org/zap"

// logNative is the model of a function of zap, nil: execute it.
func (p *Program) logNative(fn, f *ssa.Function) nativeImpl {
	res := f.Signature.Results()
	if f.Signature.Recv() == nil && res.Len() == 1 && types.Unalias(res.At(0).Type()).String() == zapPkg+"/zapcore.Field" && f.Name() != "Stack" {
		return nil
	}
	name := f.Name()
	switch name {
	case "Fatal", "Fatalf", "Fatalw", "Panic", "Panicf", "Panicw":
		return func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
			panic(unsupported("zap %s", fn.Name()))
		}
	}
	recv := ""
	if r := f.Signature.Recv(); r != nil {
		recv = strings.TrimPrefix(r.Type().String(), "*"+zapPkg+".")
	}
	if recv == "Logger" || recv == "SugaredLogger" {
		sugar := recv == "SugaredLogger"
		switch name {
		case "Info", "Warn", "Error", "DPanic", "Infof", "Warnf", "Errorf", "DPanicf", "Infow", "Warnw", "Errorw", "DPanicw":
			return func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
				if _, on := in.side["log"]; on {
					in.logWrite(fr, sugar, name, a)
				}
				return nil
			}
		case "With", "WithOptions", "Named", "Sugar", "Desugar":
			return func(in *Interp, fr *frame, fn *ssa.Function, a []value) value {
				if _, on := in.side["log"]; !on {
					return zeroResult(fn)
				}
				ctx := in.logContext(a[0])
				if name == "With" {
					if sugar {
						ctx = in.c().Concat(ctx, in.logPairs(fr, vargs(a[1])))
					} else {
						ctx = in.c().Concat(ctx, in.logFields(fr, vargs(a[1])))
					}
				}
				t := "Logger"
				if name == "Sugar" || sugar && name != "Desugar" {
					t = "SugaredLogger"
				}
				q, _ := in.newStruct(zapPkg, t)
				in.side[logCtx{q}] = ctx
				return q
			}
		}
	}
	return func(in *Interp, fr *frame, fn *ssa.Function, a []value) value { return zeroResult(fn) }
}

type logCtx struct{ p *value }

func (in *Interp) logContext(l value) *Term {
	if p, ok := l.(*value); ok && p != nil {
		if t, ok := in.side[logCtx{p}].(*Term); ok {
			return t
		}
	}
	return in.c().Str("")
}

func (in *Interp) logWrite(fr *frame, sugar bool, name string, a []value) {
	c := in.c()
	out := []*Term{in.side["log"].(*Term), in.logContext(a[0]), c.Str(" ")}
	switch {
	case !sugar:
		out = append(out, in.term(a[1]), c.Str(" "), in.logFields(fr, vargs(a[2])))
	case strings.HasSuffix(name, "f"):
		in.logging = true
		s, _ := in.sprintf(fr, a[1], vargs(a[2]))
		in.logging = false
		out = append(out, s)
	case strings.HasSuffix(name, "w"):
		out = append(out, in.term(a[1]), c.Str(" "), in.logPairs(fr, vargs(a[2])))
	default:
		in.logging = true
		out = append(out, in.sprint(fr, vargs(a[1]), false))
		in.logging = false
	}
	in.side["log"] = c.Concat(append(out, c.Str("\n"))...)
}

func (in *Interp) logPairs(fr *frame, args []value) *Term {
	c := in.c()
	out := []*Term{c.Str("")}
	for _, a := range args {
		if i, ok := a.(iface); ok && i.t != nil && i.t.String() == zapPkg+"/zapcore.Field" {
			out = append(out, in.logFields(fr, []value{i.v}))
			continue
		}
		out = append(out, in.logValue(fr, a, 0), c.Str(" "))
	}
	return c.Concat(out...)
}

func (in *Interp) logFields(fr *frame, fields []value) *Term {
	c := in.c()
	ft := in.prog.typeOf(zapPkg+"/zapcore", "Field")
	out := []*Term{c.Str("")}
	for _, f := range fields {
		get := func(n string) value { return *fieldPtr(f, ft, n) }
		kind := in.concInt(get("Type"))
		if kind == 26 || kind == 0 { // skip, unknown
			continue
		}
		out = append(out, in.term(get("Key")), c.Str("="))
		switch kind {
		case 15: // string
			out = append(out, in.term(get("String")))
		case 5: // bytes as text
			out = append(out, in.bytesTerm(get("Interface").(iface).v))
		default:
			if i, ok := get("Interface").(iface); ok && i.t != nil {
				out = append(out, in.logValue(fr, i, 0))
			}
		}
		out = append(out, c.Str(" "))
	}
	return c.Concat(out...)
}

// logValue is the text of any value: what its methods say of it or all it
// consists of.
func (in *Interp) logValue(fr *frame, v value, depth int) *Term {
	i, ok := v.(iface)
	if !ok || i.t == nil {
		return in.c().Str("null")
	}
	return in.logText(fr, i.t, i.v, depth)
}

func (in *Interp) logText(fr *frame, t types.Type, v value, depth int) *Term {
	c := in.c()
	if depth > 6 {
		return in.opaque("log")
	}
	if i, ok := v.(iface); ok {
		return in.logValue(fr, i, depth)
	}
	iv := iface{t, v}
	for _, m := range []string{"Error", "String"} {
		if in.hasMethod(iv, m) && in.sigStr(t, m) {
			if isNilPtr(v) {
				return c.Str("null")
			}
			return in.term(in.callMethod(fr, iv, m))
		}
	}
	if in.hasMethod(iv, "MarshalJSON") || in.hasMethod(iv, "MarshalText") {
		return in.opaque("log")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return in.anyStr(fr, t, v, 'v', 1)
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil {
			return c.Str("null")
		}
		return in.logText(fr, u.Elem(), *p, depth+1)
	case *types.Struct:
		st, ok := v.(structure)
		if !ok {
			return in.opaque("log")
		}
		out := []*Term{c.Str("{")}
		for k := 0; k < u.NumFields(); k++ {
			if !u.Field(k).Exported() {
				continue
			}
			out = append(out, c.Str(u.Field(k).Name()+":"), in.logText(fr, u.Field(k).Type(), st[k], depth+1), c.Str(" "))
		}
		return c.Concat(append(out, c.Str("}"))...)
	case *types.Slice:
		switch x := v.(type) {
		case []value:
			if !isByteSlice(t) {
				out := []*Term{c.Str("[")}
				for _, e := range x {
					out = append(out, in.logText(fr, u.Elem(), e, depth+1), c.Str(" "))
				}
				return c.Concat(append(out, c.Str("]"))...)
			}
		}
	case *types.Signature, *types.Chan:
		return c.Str("")
	}
	return in.opaque("log")
}

// logDump is %v of a value without methods: pointers below the outermost are
// addresses.
func (in *Interp) logDump(fr *frame, t types.Type, v value, depth int) *Term {
	c := in.c()
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok || p == nil {
			return c.Str("<nil>")
		}
		if depth > 0 {
			return c.Str("0xc000000000")
		}
		return c.Concat(c.Str("&"), in.anyStr(fr, u.Elem(), *p, 'v', depth+1))
	case *types.Struct:
		if st, ok := v.(structure); ok {
			out := []*Term{c.Str("{")}
			for k := 0; k < u.NumFields(); k++ {
				out = append(out, in.elemStr(fr, u.Field(k).Type(), st[k], 'v', depth), c.Str(" "))
			}
			return c.Concat(append(out, c.Str("}"))...)
		}
	}
	return in.opaque("log")
}

func nativesLog() {
	nat("zz.CaptureLog", func(in *Interp, fr *frame, a []value) value {
		in.side["log"] = in.c().Str("")
		return nil
	})
	nat("zz.TakeLog", func(in *Interp, fr *frame, a []value) value {
		t, _ := in.side["log"].(*Term)
		if t == nil {
			t = in.c().Str("")
		}
		in.side["log"] = in.c().Str("")
		return in.lowerStr(t)
	})
}
