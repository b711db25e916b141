package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is an interpreted Go value: a native Go scalar, a *Term, or one of the composite kinds below.
type Value = any

type (
	// Struct holds the fields of a struct value.
	Struct []Value
	// Array holds the elements of an array value.
	Array []Value
	// Slice is a Go slice of cells; aliasing follows Go's own slices.
	Slice []Value
	// Tuple is a multi-value result.
	Tuple []Value
	// Iface is an interface value; t==nil is the nil interface.
	Iface struct {
		t types.Type
		v Value
	}
	// Closure is a function value.
	Closure struct {
		fn     *ssa.Function
		env    []Value
		native func(m *Machine, args []Value) Value
		bi     *ssa.Builtin
	}
	// Chan is a channel.
	Chan struct {
		buf    []Value
		cap    int
		closed bool
		recvq  int // receivers waiting
		sendq  []*sendReq
		vc     vclock
		id     int
	}
	sendReq struct {
		v     Value
		taken bool
		vc    vclock
	}
	// UPtr is an unsafe.Pointer.
	UPtr struct {
		p *Value
		s Slice
	}
)

type mapEnt struct {
	key, val Value
	dead     bool
}

// MapV is a map; entries are kept in insertion order.
type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	nsym int
	n    int
	cell Value // cell used for race detection
}

var (
	typeMu    sync.Mutex
	typeHash  = typeutil.MakeHasher()
	typeTab   = map[uint32][]types.Type{}
	typeCanon sync.Map
)

// canon returns a canonical representative so that identical types are pointer-equal.
func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := typeCanon.Load(t); ok {
		return c.(types.Type)
	}
	typeMu.Lock()
	defer typeMu.Unlock()
	h := typeHash.Hash(t)
	for _, o := range typeTab[h] {
		if types.Identical(o, t) {
			typeCanon.Store(t, o)
			return o
		}
	}
	typeTab[h] = append(typeTab[h], t)
	typeCanon.Store(t, t)
	return t
}

func zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch t.Kind() {
		case types.Bool, types.UntypedBool:
			return false
		case types.Int, types.UntypedInt:
			return int(0)
		case types.Int8:
			return int8(0)
		case types.Int16:
			return int16(0)
		case types.Int32, types.UntypedRune:
			return int32(0)
		case types.Int64:
			return int64(0)
		case types.Uint:
			return uint(0)
		case types.Uint8:
			return uint8(0)
		case types.Uint16:
			return uint16(0)
		case types.Uint32:
			return uint32(0)
		case types.Uint64:
			return uint64(0)
		case types.Uintptr:
			return uintptr(0)
		case types.Float32:
			return float32(0)
		case types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64:
			return complex64(0)
		case types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.String, types.UntypedString:
			return ""
		case types.UnsafePointer:
			return UPtr{}
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, t.Len())
		if t.Len() > 0 {
			z := zero(t.Elem())
			if isAgg(z) {
				for i := range a {
					a[i] = zero(t.Elem())
				}
			} else {
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = zero(t.At(i).Type())
		}
		return s
	}
	panic(unsupported(fmt.Sprintf("zero of %s", t)))
}

func isAgg(v Value) bool {
	switch v.(type) {
	case Struct, Array:
		return true
	}
	return false
}

// copyVal copies value-semantics aggregates.
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

// storeVal assigns in place, keeping the addresses of nested cells stable.
func storeVal(addr *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if dst, ok := (*addr).(Struct); ok && len(dst) == len(v) {
			if len(v) > 0 && &dst[0] == &v[0] {
				return
			}
			tmp := v
			if hasAgg(v) {
				tmp = copyVal(v).(Struct)
			}
			for i := range tmp {
				storeVal(&dst[i], tmp[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if dst, ok := (*addr).(Array); ok && len(dst) == len(v) {
			if len(v) > 0 && &dst[0] == &v[0] {
				return
			}
			for i := range v {
				storeVal(&dst[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func hasAgg(s Struct) bool {
	for _, x := range s {
		if isAgg(x) {
			return true
		}
	}
	return false
}

func constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return constant.BoolVal(c.Value)
		case types.Int, types.UntypedInt:
			return int(c.Int64())
		case types.Int8:
			return int8(c.Int64())
		case types.Int16:
			return int16(c.Int64())
		case types.Int32, types.UntypedRune:
			return int32(c.Int64())
		case types.Int64:
			return c.Int64()
		case types.Uint:
			return uint(c.Uint64())
		case types.Uint8:
			return uint8(c.Uint64())
		case types.Uint16:
			return uint16(c.Uint64())
		case types.Uint32:
			return uint32(c.Uint64())
		case types.Uint64:
			return c.Uint64()
		case types.Uintptr:
			return uintptr(c.Uint64())
		case types.Float32:
			return float32(c.Float64())
		case types.Float64, types.UntypedFloat:
			return c.Float64()
		case types.Complex64:
			return complex64(c.Complex128())
		case types.Complex128, types.UntypedComplex:
			return c.Complex128()
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	if _, ok := t.(*types.Interface); ok {
		return Iface{}
	}
	panic(unsupported("const " + c.String()))
}

// keyString encodes a concrete map key; ok is false when the key contains a symbolic part.
func keyString(v Value) (string, bool) {
	switch v := v.(type) {
	case string:
		return "s" + v, true
	case int:
		return fmt.Sprintf("i%d", v), true
	case bool, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr:
		return fmt.Sprintf("%T%v", v, v), true
	case float64:
		if v == 0 {
			return "f0", true
		}
		return fmt.Sprintf("f%x", math.Float64bits(v)), true
	case float32:
		if v == 0 {
			return "f0", true
		}
		return fmt.Sprintf("f%x", math.Float64bits(float64(v))), true
	case *Term:
		if v.isConst() {
			if v.sort == SReal {
				return "r" + v.rat.RatString(), true
			}
			return fmt.Sprintf("%d_%v_%d", v.sort, v.b, v.bv), true
		}
		return "", false
	case Struct:
		return keyStrings("S", v)
	case Array:
		return keyStrings("A", v)
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		s, ok := keyString(v.v)
		return "I" + v.t.String() + ":" + s, ok
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case *Chan:
		return fmt.Sprintf("c%p", v), true
	case *Closure:
		return fmt.Sprintf("fn%p", v), true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func keyStrings(p string, vs []Value) (string, bool) {
	var sb strings.Builder
	sb.WriteString(p)
	for _, x := range vs {
		s, ok := keyString(x)
		if !ok {
			return "", false
		}
		fmt.Fprintf(&sb, "%d:%s,", len(s), s)
	}
	return sb.String(), true
}

// mkReal turns a rational into a value: an exact float64 stays native, anything else is a constant term.
func (m *Machine) mkReal(r *big.Rat) Value {
	if f, exact := r.Float64(); exact {
		return f
	}
	if r.Num().BitLen()+r.Denom().BitLen() > 600 {
		f, _ := r.Float64()
		return f
	}
	return m.p.Rat(r)
}

// norm converts constant terms that have an exact native form back to native values.
func (m *Machine) norm(t *Term) Value {
	if t.op == OConst {
		switch t.sort {
		case SBool:
			return t.b
		case SReal:
			return m.mkReal(t.rat)
		}
	}
	return t
}

func bvToNative(v uint64, k types.BasicKind) Value {
	switch k {
	case types.Int, types.UntypedInt:
		return int(int64(v))
	case types.Int8:
		return int8(v)
	case types.Int16:
		return int16(v)
	case types.Int32, types.UntypedRune:
		return int32(v)
	case types.Int64:
		return int64(v)
	case types.Uint:
		return uint(v)
	case types.Uint8:
		return uint8(v)
	case types.Uint16:
		return uint16(v)
	case types.Uint32:
		return uint32(v)
	case types.Uint64:
		return v
	case types.Uintptr:
		return uintptr(v)
	}
	panic(unsupported("bvToNative"))
}

func kindWidth(k types.BasicKind) (w int, signed bool) {
	switch k {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func asI64(v Value) int64 {
	switch v := v.(type) {
	case int:
		return int64(v)
	case int8:
		return int64(v)
	case int16:
		return int64(v)
	case int32:
		return int64(v)
	case int64:
		return v
	case uint:
		return int64(v)
	case uint8:
		return int64(v)
	case uint16:
		return int64(v)
	case uint32:
		return int64(v)
	case uint64:
		return int64(v)
	case uintptr:
		return int64(v)
	}
	panic(unsupported(fmt.Sprintf("asI64 %T", v)))
}

// realTerm converts a finite float value to a term.
func (m *Machine) realTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case float64:
		return m.p.Float(v)
	case float32:
		return m.p.Float(float64(v))
	}
	panic(unsupported(fmt.Sprintf("realTerm %T", v)))
}

func (m *Machine) boolTerm(v Value) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return m.p.Bool(v)
	}
	panic(unsupported(fmt.Sprintf("boolTerm %T", v)))
}

func (m *Machine) bvTerm(v Value, w int) *Term {
	if t, ok := v.(*Term); ok {
		return t
	}
	return m.p.BV(uint64(asI64(v)), w)
}

type unsupportedErr struct{ msg string }

func unsupported(s string) unsupportedErr { return unsupportedErr{s} }
