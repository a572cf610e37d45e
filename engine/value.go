package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type value any

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// native function value
type nativeFn struct {
	name string
	f    func(in *Interp, args []value) value
}

// symBytes is an immutable []byte whose content is a string term.
type symBytes struct {
	t   *Term
	aux any // registry payload (document, encoded object)
}

// symIdx is the address of arr[idx] with a symbolic idx.
type symIdx struct {
	arr []value
	idx *Term
	t   types.Type
}

// symFloat is a float64 equal to n (+ 0.5 when half).
type symFloat struct {
	n    *Term
	half *Term
}

type unsafePtr struct {
	p value
}

type mapEntry struct {
	k, v value
}

type hashmap struct {
	kt      types.Type
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys only
	symKeys int
	race    *raceVar
}

type mapIter struct {
	m    *hashmap
	left []*mapEntry
}

type strIter struct {
	s value
	i int
}

type poison struct{ why string }

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }

// targetPanic is a Go panic of the program under analysis.
type targetPanic struct {
	v     value
	where string
}

type pathEnd struct{ why string } // assume failed, limits

func isNilPtr(v value) bool {
	p, ok := v.(*value)
	return ok && p == nil
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func intInfo(t types.Type) (bits int, signed bool, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func intRange(bits int, signed bool) (*big.Int, *big.Int) {
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

// mkInt makes a concrete value of integer type t from z (wrapped).
func mkInt(z *big.Int, t types.Type) value {
	bits, signed, ok := intInfo(t)
	if !ok {
		panic(unsupported("int type %s", t))
	}
	m := new(big.Int).Mod(z, pow2(bits))
	if signed {
		if m.Bit(bits-1) == 1 {
			m.Sub(m, pow2(bits))
		}
		return m.Int64()
	}
	return m.Uint64()
}

func bigOf(v value) (*big.Int, bool) {
	switch x := v.(type) {
	case int64:
		return big.NewInt(x), true
	case uint64:
		return new(big.Int).SetUint64(x), true
	}
	return nil, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func zero(t types.Type) value {
	switch t := t.(type) {
	case *types.Basic:
		switch {
		case t.Kind() == types.UntypedNil:
			panic("untyped nil zero")
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Kind() == types.UnsafePointer:
			return unsafePtr{}
		case t.Info()&types.IsComplex != 0:
			return complex128(0)
		}
		_, signed, ok := intInfo(t)
		if !ok {
			panic(unsupported("zero of %s", t))
		}
		if signed {
			return int64(0)
		}
		return uint64(0)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = zero(t.Elem())
		}
		return a
	case *types.Named, *types.Alias:
		return zero(t.Underlying())
	case *types.Interface:
		return iface{}
	case *types.Slice:
		return []value(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Tuple:
		if t.Len() == 1 {
			return zero(t.At(0).Type())
		}
		s := make(tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	case *types.Chan:
		return (*channel)(nil)
	case *types.Map:
		return (*hashmap)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.TypeParam:
		panic(unsupported("zero of type parameter"))
	}
	panic(unsupported("zero of %T", t))
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		a := make(structure, len(v))
		for i := range v {
			a[i] = copyVal(v[i])
		}
		return a
	case array:
		a := make(array, len(v))
		for i := range v {
			a[i] = copyVal(v[i])
		}
		return a
	case tuple:
		a := make(tuple, len(v))
		copy(a, v)
		return a
	}
	return v
}

// concrete map key encoding
func keyStr(v value) (string, bool) {
	switch x := v.(type) {
	case bool:
		return fmt.Sprintf("b%v", x), true
	case int64:
		return fmt.Sprintf("i%d", x), true
	case uint64:
		return fmt.Sprintf("u%d", x), true
	case float64:
		return fmt.Sprintf("f%v", x), true
	case string:
		return "s" + fmt.Sprint(len(x)) + ":" + x, true
	case *value:
		return fmt.Sprintf("p%p", x), true
	case structure:
		var sb strings.Builder
		sb.WriteByte('{')
		for _, f := range x {
			k, ok := keyStr(f)
			if !ok {
				return "", false
			}
			sb.WriteString(k + ";")
		}
		return sb.String() + "}", true
	case array:
		var sb strings.Builder
		sb.WriteByte('[')
		for _, f := range x {
			k, ok := keyStr(f)
			if !ok {
				return "", false
			}
			sb.WriteString(k + ";")
		}
		return sb.String() + "]", true
	case iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := keyStr(x.v)
		if !ok {
			return "", false
		}
		return "I" + types.TypeString(x.t, nil) + ":" + k, true
	case *channel:
		return fmt.Sprintf("c%p", x), true
	}
	return "", false
}

// lowerBytes is a concrete byte slice as the interpreter keeps it.
func (in *Interp) lowerBytes(s string) value {
	out := make([]value, len(s))
	for i := range out {
		out[i] = uint64(s[i])
	}
	return out
}
