package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func basicKind(t types.Type) types.BasicKind {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Kind()
	}
	return types.Invalid
}

func isFloatKind(k types.BasicKind) bool {
	return k == types.Float64 || k == types.Float32 || k == types.UntypedFloat
}

func isIntKind(k types.BasicKind) bool {
	w, _ := kindWidth(k)
	return w > 0
}

func asF64(v Value) float64 {
	switch v := v.(type) {
	case float64:
		return v
	case float32:
		return float64(v)
	}
	panic(unsupported(fmt.Sprintf("asF64 %T", v)))
}

func isTerm(v Value) bool { _, ok := v.(*Term); return ok }

func (m *Machine) rf(f float64, k types.BasicKind) Value {
	if k == types.Float32 {
		return float32(f)
	}
	return f
}

// floatBin evaluates float arithmetic over the extended reals: exact rationals plus native Inf/NaN.
func (m *Machine) floatBin(op token.Token, x, y Value, k types.BasicKind) Value {
	xt, xs := x.(*Term)
	yt, ys := y.(*Term)
	if !xs && !ys {
		a, b := asF64(x), asF64(y)
		var r float64
		exact := true
		switch op {
		case token.ADD:
			r = a + b
			bb := r - a
			exact = (a-(r-bb))+(b-bb) == 0
		case token.SUB:
			r = a - b
			bb := r - a
			exact = (a-(r-bb))+(-b-bb) == 0
		case token.MUL:
			r = a * b
			exact = math.FMA(a, b, -r) == 0
		case token.QUO:
			r = a / b
			exact = b == 0 || math.FMA(r, b, -a) == 0
		}
		if !finite(a) || !finite(b) || !finite(r) || m.nativeFloat {
			return m.rf(r, k)
		}
		if r != 0 && math.Abs(r) < 1e-290 || (a != 0 && math.Abs(a) < 1e-290) || (b != 0 && math.Abs(b) < 1e-290) {
			return m.rf(r, k)
		}
		if exact {
			if k == types.Float32 && float64(float32(r)) != r {
				return m.p.Float(r)
			}
			return m.rf(r, k)
		}
		ra, rb := new(big.Rat).SetFloat64(a), new(big.Rat).SetFloat64(b)
		switch op {
		case token.ADD:
			ra.Add(ra, rb)
		case token.SUB:
			ra.Sub(ra, rb)
		case token.MUL:
			ra.Mul(ra, rb)
		case token.QUO:
			ra.Quo(ra, rb)
		}
		return m.mkRealK(ra, k)
	}
	// one side symbolic; the other may be Inf/NaN
	if !xs {
		if f := asF64(x); !finite(f) {
			return m.infBin(op, f, yt, true, k)
		}
		xt = m.realTerm(x)
	}
	if !ys {
		if f := asF64(y); !finite(f) {
			return m.infBin(op, f, xt, false, k)
		}
		yt = m.realTerm(y)
	}
	switch op {
	case token.ADD:
		return m.normK(m.p.Add(xt, yt), k)
	case token.SUB:
		return m.normK(m.p.Sub(xt, yt), k)
	case token.MUL:
		return m.normK(m.p.Mul(xt, yt), k)
	case token.QUO:
		if yt.isConst() {
			if yt.rat.Sign() == 0 {
				return m.divZero(xt, k)
			}
			return m.normK(m.p.Div(xt, yt), k)
		}
		if m.branch(m.p.Eq(yt, m.p.zero)) {
			return m.divZero(xt, k)
		}
		return m.normK(m.p.Div(xt, yt), k)
	}
	panic(unsupported("float op " + op.String()))
}

func (m *Machine) mkRealK(r *big.Rat, k types.BasicKind) Value {
	v := m.mkReal(r)
	if k == types.Float32 {
		if f, ok := v.(float64); ok {
			if float64(float32(f)) == f {
				return float32(f)
			}
			return m.p.Float(f)
		}
	}
	return v
}

func (m *Machine) normK(t *Term, k types.BasicKind) Value {
	if t.op == OConst && t.sort == SReal {
		return m.mkRealK(t.rat, k)
	}
	return t
}

func (m *Machine) divZero(x *Term, k types.BasicKind) Value {
	switch m.sign(x) {
	case 0:
		return m.rf(math.NaN(), k)
	case 1:
		return m.rf(math.Inf(1), k)
	}
	return m.rf(math.Inf(-1), k)
}

// sign forks on the sign of a real term.
func (m *Machine) sign(t *Term) int {
	if t.isConst() {
		return t.rat.Sign()
	}
	if m.branch(m.p.Eq(t, m.p.zero)) {
		return 0
	}
	if m.branch(m.p.Lt(m.p.zero, t)) {
		return 1
	}
	return -1
}

func (m *Machine) infBin(op token.Token, f float64, t *Term, infLeft bool, k types.BasicKind) Value {
	if math.IsNaN(f) {
		return m.rf(f, k)
	}
	switch op {
	case token.ADD:
		return m.rf(f, k)
	case token.SUB:
		if infLeft {
			return m.rf(f, k)
		}
		return m.rf(-f, k)
	case token.MUL:
		switch m.sign(t) {
		case 0:
			return m.rf(math.NaN(), k)
		case 1:
			return m.rf(f, k)
		}
		return m.rf(-f, k)
	case token.QUO:
		if !infLeft {
			return m.rf(0, k)
		}
		if m.sign(t) < 0 {
			return m.rf(-f, k)
		}
		return m.rf(f, k)
	}
	panic(unsupported("inf op"))
}

func (m *Machine) floatCmp(op token.Token, x, y Value) Value {
	xt, xs := x.(*Term)
	yt, ys := y.(*Term)
	if !xs && !ys {
		a, b := asF64(x), asF64(y)
		switch op {
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	if !xs {
		if f := asF64(x); !finite(f) {
			return cmpNative(op, f, 0)
		}
		xt = m.realTerm(x)
	}
	if !ys {
		if f := asF64(y); !finite(f) {
			return cmpNative(op, 0, f)
		}
		yt = m.realTerm(y)
	}
	switch op {
	case token.EQL:
		return m.norm(m.p.Eq(xt, yt))
	case token.NEQ:
		return m.norm(m.p.Not(m.p.Eq(xt, yt)))
	case token.LSS:
		return m.norm(m.p.Lt(xt, yt))
	case token.LEQ:
		return m.norm(m.p.Le(xt, yt))
	case token.GTR:
		return m.norm(m.p.Lt(yt, xt))
	case token.GEQ:
		return m.norm(m.p.Le(yt, xt))
	}
	panic(unsupported("float cmp"))
}

func cmpNative(op token.Token, a, b float64) Value {
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("cmp")
}

func (m *Machine) intBinSym(op token.Token, x, y Value, k types.BasicKind) Value {
	w, signed := kindWidth(k)
	a, b := m.bvTerm(x, w), m.bvTerm(y, w)
	nb := func(t *Term) Value {
		if t.isConst() {
			return bvToNative(uint64(sext(t.bv, w)), k)
		}
		return t
	}
	switch op {
	case token.ADD:
		return nb(m.p.BVBin("bvadd", a, b))
	case token.SUB:
		return nb(m.p.BVBin("bvsub", a, b))
	case token.MUL:
		return nb(m.p.BVBin("bvmul", a, b))
	case token.AND:
		return nb(m.p.BVBin("bvand", a, b))
	case token.OR:
		return nb(m.p.BVBin("bvor", a, b))
	case token.XOR:
		return nb(m.p.BVBin("bvxor", a, b))
	case token.AND_NOT:
		return nb(m.p.BVBin("bvand", a, m.p.BVNot(b)))
	case token.QUO, token.REM:
		if m.branch(m.p.Eq(b, m.p.BV(0, w))) {
			m.goPanic(m.runtimeErr("integer divide by zero"))
		}
		o := map[bool]map[token.Token]string{true: {token.QUO: "bvsdiv", token.REM: "bvsrem"}, false: {token.QUO: "bvudiv", token.REM: "bvurem"}}[signed][op]
		return nb(m.p.BVBin(o, a, b))
	case token.EQL:
		return m.norm(m.p.Eq(a, b))
	case token.NEQ:
		return m.norm(m.p.Not(m.p.Eq(a, b)))
	}
	lt, le := "bvult", "bvule"
	if signed {
		lt, le = "bvslt", "bvsle"
	}
	switch op {
	case token.LSS:
		return m.norm(m.p.BVCmp(lt, a, b))
	case token.LEQ:
		return m.norm(m.p.BVCmp(le, a, b))
	case token.GTR:
		return m.norm(m.p.BVCmp(lt, b, a))
	case token.GEQ:
		return m.norm(m.p.BVCmp(le, b, a))
	}
	panic(unsupported("int op " + op.String()))
}

func (m *Machine) shiftSym(op token.Token, x, y Value, k, yk types.BasicKind) Value {
	w, signed := kindWidth(k)
	n := m.concInt(y, yk)
	if n < 0 {
		m.goPanic(m.runtimeErr("negative shift amount"))
	}
	a := m.bvTerm(x, w)
	if n > int64(w) {
		n = int64(w)
	}
	var o string
	switch {
	case op == token.SHL:
		o = "bvshl"
	case signed:
		o = "bvashr"
	default:
		o = "bvlshr"
	}
	return m.p.BVBin(o, a, m.p.BV(uint64(n), w))
}

func (m *Machine) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	// fast paths
	switch a := x.(type) {
	case int:
		if b, ok := y.(int); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.SUB:
				return a - b
			case token.MUL:
				return a * b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	case string:
		if b, ok := y.(string); ok {
			switch op {
			case token.ADD:
				return a + b
			case token.LSS:
				return a < b
			case token.LEQ:
				return a <= b
			case token.GTR:
				return a > b
			case token.GEQ:
				return a >= b
			case token.EQL:
				return a == b
			case token.NEQ:
				return a != b
			}
		}
	}
	k := basicKind(xt)
	if isFloatKind(k) {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			return m.floatBin(op, x, y, k)
		}
		return m.floatCmp(op, x, y)
	}
	if op == token.SHL || op == token.SHR {
		yk := basicKind(yt)
		if isTerm(x) || isTerm(y) {
			return m.shiftSym(op, x, y, k, yk)
		}
		n := asI64(y)
		if _, sg := kindWidth(yk); sg && n < 0 {
			m.goPanic(m.runtimeErr("negative shift amount"))
		}
		un := uint64(n)
		w, signed := kindWidth(k)
		v := asI64(x)
		if op == token.SHL {
			if un >= 64 {
				return bvToNative(0, k)
			}
			return bvToNative(uint64(v)<<un, k)
		}
		if signed {
			if un > 63 {
				un = 63
			}
			return bvToNative(uint64(v>>un), k)
		}
		u := uint64(v)
		if w < 64 {
			u &= 1<<uint(w) - 1
		}
		if un >= 64 {
			return bvToNative(0, k)
		}
		return bvToNative(u>>un, k)
	}
	if isIntKind(k) {
		if isTerm(x) || isTerm(y) {
			return m.intBinSym(op, x, y, k)
		}
		return m.intBinConc(op, x, y, k)
	}
	if k == types.Complex128 || k == types.Complex64 {
		a, b := x.(complex128), y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.EQL:
			return a == b
		case token.NEQ:
			return a != b
		}
	}
	switch op {
	case token.EQL:
		return m.norm(m.eq(x, y))
	case token.NEQ:
		return m.norm(m.p.Not(m.eq(x, y)))
	case token.AND:
		return m.norm(m.p.And(m.boolTerm(x), m.boolTerm(y)))
	case token.OR:
		return m.norm(m.p.Or(m.boolTerm(x), m.boolTerm(y)))
	}
	panic(unsupported(fmt.Sprintf("binop %s on %T,%T", op, x, y)))
}

func (m *Machine) intBinConc(op token.Token, x, y Value, k types.BasicKind) Value {
	w, signed := kindWidth(k)
	a, b := asI64(x), asI64(y)
	ua, ub := uint64(a), uint64(b)
	if w < 64 {
		ua &= 1<<uint(w) - 1
		ub &= 1<<uint(w) - 1
	}
	switch op {
	case token.ADD:
		return bvToNative(ua+ub, k)
	case token.SUB:
		return bvToNative(ua-ub, k)
	case token.MUL:
		return bvToNative(ua*ub, k)
	case token.AND:
		return bvToNative(ua&ub, k)
	case token.OR:
		return bvToNative(ua|ub, k)
	case token.XOR:
		return bvToNative(ua^ub, k)
	case token.AND_NOT:
		return bvToNative(ua&^ub, k)
	case token.QUO, token.REM:
		if ub == 0 {
			m.goPanic(m.runtimeErr("integer divide by zero"))
		}
		if signed {
			if op == token.QUO {
				if b == -1 {
					return bvToNative(uint64(-a), k)
				}
				return bvToNative(uint64(a/b), k)
			}
			if b == -1 {
				return bvToNative(0, k)
			}
			return bvToNative(uint64(a%b), k)
		}
		if op == token.QUO {
			return bvToNative(ua/ub, k)
		}
		return bvToNative(ua%ub, k)
	case token.EQL:
		return ua == ub
	case token.NEQ:
		return ua != ub
	}
	if signed {
		switch op {
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	switch op {
	case token.LSS:
		return ua < ub
	case token.LEQ:
		return ua <= ub
	case token.GTR:
		return ua > ub
	case token.GEQ:
		return ua >= ub
	}
	panic(unsupported("intop " + op.String()))
}

// eq is Go's == as a bool term.
func (m *Machine) eq(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		switch b := y.(type) {
		case *Term:
			return m.p.Eq(a, b)
		case bool:
			return m.p.Eq(a, m.p.Bool(b))
		case float64, float32:
			f := asF64(b)
			if !finite(f) {
				return m.p.ff
			}
			return m.p.Eq(a, m.p.Float(f))
		}
		return m.p.Eq(a, m.p.BV(uint64(asI64(y)), int(a.width)))
	case float64, float32:
		if b, ok := y.(*Term); ok {
			return m.eq(b, a)
		}
		return m.p.Bool(asF64(a) == asF64(y))
	case Struct:
		b := y.(Struct)
		ts := []*Term{}
		for i := range a {
			ts = append(ts, m.eq(a[i], b[i]))
		}
		return m.p.And(ts...)
	case Array:
		b := y.(Array)
		ts := []*Term{}
		for i := range a {
			ts = append(ts, m.eq(a[i], b[i]))
		}
		return m.p.And(ts...)
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("iface == %T", y)))
		}
		if a.t == nil || b.t == nil {
			return m.p.Bool(a.t == nil && b.t == nil)
		}
		if canon(a.t) != canon(b.t) {
			return m.p.ff
		}
		switch a.v.(type) {
		case Slice, *MapV, *Closure:
			m.goPanic(m.runtimeErr("comparing uncomparable type " + a.t.String()))
		}
		return m.eq(a.v, b.v)
	case *Value:
		b, _ := y.(*Value)
		return m.p.Bool(a == b)
	case Slice:
		b, _ := y.(Slice)
		return m.p.Bool(a == nil && b == nil)
	case *MapV:
		b, _ := y.(*MapV)
		return m.p.Bool(a == b)
	case *Chan:
		b, _ := y.(*Chan)
		return m.p.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return m.p.Bool(a == nil && b == nil || a == b && a == nil)
	case UPtr:
		b, _ := y.(UPtr)
		return m.p.Bool(a.p == b.p)
	case nil:
		return m.p.Bool(y == nil)
	case bool, string, int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, complex128:
		if b, ok := y.(*Term); ok {
			return m.eq(b, a)
		}
		return m.p.Bool(x == y)
	}
	if _, ok := x.(*RVal); ok {
		return m.p.Bool(x == y)
	}
	panic(unsupported(fmt.Sprintf("eq %T", x)))
}

func (m *Machine) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.SUB:
		k := basicKind(in.X.Type())
		if isFloatKind(k) {
			if t, ok := x.(*Term); ok {
				return m.normK(m.p.Neg(t), k)
			}
			return m.rf(-asF64(x), k)
		}
		if k == types.Complex128 {
			return -x.(complex128)
		}
		if t, ok := x.(*Term); ok {
			return m.p.BVNeg(t)
		}
		return bvToNative(uint64(-asI64(x)), k)
	case token.NOT:
		if t, ok := x.(*Term); ok {
			return m.norm(m.p.Not(t))
		}
		return !x.(bool)
	case token.XOR:
		if t, ok := x.(*Term); ok {
			return m.p.BVNot(t)
		}
		return bvToNative(^uint64(asI64(x)), basicKind(in.X.Type()))
	}
	panic(unsupported("unop " + in.Op.String()))
}

// conv converts between types.
func (m *Machine) conv(dst, src types.Type, x Value) Value {
	du, su := dst.Underlying(), src.Underlying()
	switch d := du.(type) {
	case *types.Pointer:
		if u, ok := x.(UPtr); ok {
			return u.p
		}
		return x
	case *types.Slice:
		// string -> []byte / []rune
		if s, ok := x.(string); ok {
			switch basicKind(d.Elem()) {
			case types.Uint8:
				out := make(Slice, len(s))
				for i := range out {
					out[i] = s[i]
				}
				return out
			case types.Int32:
				out := Slice{}
				for _, r := range s {
					out = append(out, int32(r))
				}
				return out
			}
		}
		return x
	case *types.Basic:
		dk := d.Kind()
		if dk == types.UnsafePointer {
			switch p := x.(type) {
			case *Value:
				return UPtr{p: p}
			case UPtr:
				return p
			}
			panic(unsupported("conv to unsafe.Pointer"))
		}
		if dk == types.String {
			switch v := x.(type) {
			case string:
				return v
			case Slice:
				if basicKind(su.(*types.Slice).Elem()) == types.Uint8 {
					b := make([]byte, len(v))
					for i := range v {
						b[i] = v[i].(uint8)
					}
					return string(b)
				}
				var rs []rune
				for i := range v {
					rs = append(rs, v[i].(int32))
				}
				return string(rs)
			}
			r := asI64(x)
			if r < 0 || r > utf8.MaxRune {
				r = utf8.RuneError
			}
			return string(rune(r))
		}
		sk := basicKind(src)
		if isFloatKind(dk) {
			switch v := x.(type) {
			case *Term:
				if v.sort == SBV {
					return m.rf(float64(m.concInt(v, sk)), dk)
				}
				return m.normK(v, dk)
			case float64:
				if dk == types.Float32 {
					if finite(v) && float64(float32(v)) != v && !m.nativeFloat {
						return m.p.Float(v)
					}
					return float32(v)
				}
				return v
			case float32:
				return m.rf(float64(v), dk)
			}
			if sk == types.Uint || sk == types.Uint64 || sk == types.Uintptr {
				return m.rf(float64(uint64(asI64(x))), dk)
			}
			return m.rf(float64(asI64(x)), dk)
		}
		if isIntKind(dk) {
			switch v := x.(type) {
			case *Term:
				if v.sort == SBV {
					w, _ := kindWidth(dk)
					_, ss := kindWidth(sk)
					t := m.p.BVConv(v, w, ss)
					if t.isConst() {
						return bvToNative(uint64(sext(t.bv, w)), dk)
					}
					return t
				}
				n := m.concTrunc(v)
				return bvToNative(uint64(n), dk)
			case float64, float32:
				f := asF64(v)
				if !finite(f) || math.Abs(f) > 9e18 {
					return bvToNative(uint64(1)<<63, dk)
				}
				if f >= 0 || dk == types.Int || dk == types.Int64 || dk == types.Int32 || dk == types.Int16 || dk == types.Int8 {
					return bvToNative(uint64(int64(f)), dk)
				}
				return bvToNative(uint64(f), dk)
			case UPtr:
				panic(unsupported("uintptr of pointer"))
			}
			return bvToNative(uint64(asI64(x)), dk)
		}
		if dk == types.Complex128 {
			return x
		}
		if dk == types.Bool {
			return x
		}
	}
	return x
}
