package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"math/bits"
	rdebug "runtime/debug"
	"strconv"
	"strings"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fn *ssa.Function, args []Value) Value

// pureIntr are intrinsics that may be evaluated speculatively.
var pureIntr = map[string]bool{}

var intrinsics = map[string]intrinsic{}

func hostStack() string { return "\n" + string(rdebug.Stack()) }

func (m *Machine) isFin(v Value) bool {
	if isTerm(v) {
		return true
	}
	return finite(asF64(v))
}

// toF returns a float64 approximation of a concrete float (native or constant term).
func toF(v Value) (float64, bool) {
	switch x := v.(type) {
	case float64:
		return x, true
	case float32:
		return float64(x), true
	case *Term:
		if x.isConst() && x.sort == SReal {
			f, _ := x.rat.Float64()
			return f, true
		}
	}
	return 0, false
}

func (m *Machine) fMinMax(isMax bool, a, b Value) Value {
	if !isTerm(a) && !isTerm(b) {
		if isMax {
			return math.Max(asF64(a), asF64(b))
		}
		return math.Min(asF64(a), asF64(b))
	}
	if isTerm(b) && !isTerm(a) {
		a, b = b, a
	}
	if !isTerm(b) {
		f := asF64(b)
		if math.IsNaN(f) {
			return b
		}
		if math.IsInf(f, 1) {
			if isMax {
				return b
			}
			return a
		}
		if math.IsInf(f, -1) {
			if isMax {
				return a
			}
			return b
		}
	}
	x, y := m.realTerm(a), m.realTerm(b)
	if isMax {
		return m.norm(m.p.Ite(m.p.Lt(x, y), y, x))
	}
	return m.norm(m.p.Ite(m.p.Lt(x, y), x, y))
}

func (m *Machine) fAbs(v Value) Value {
	if t, ok := v.(*Term); ok {
		if t.isConst() {
			return m.mkReal(new(big.Rat).Abs(t.rat))
		}
		if t.op == OUF && (t.name == "sqrt" || t.name == "exp") {
			return t
		}
		if leadNeg(t) {
			t = m.p.Neg(t)
		}
		return m.norm(m.p.Ite(m.p.Lt(t, m.p.zero), m.p.Neg(t), t))
	}
	return math.Abs(asF64(v))
}

func ratSqrt(r *big.Rat) (*big.Rat, bool) {
	if r.Sign() < 0 {
		return nil, false
	}
	n, d := new(big.Int).Sqrt(r.Num()), new(big.Int).Sqrt(r.Denom())
	if new(big.Int).Mul(n, n).Cmp(r.Num()) == 0 && new(big.Int).Mul(d, d).Cmp(r.Denom()) == 0 {
		return new(big.Rat).SetFrac(n, d), true
	}
	return nil, false
}

func (m *Machine) fSqrt(v Value) Value {
	var t *Term
	switch x := v.(type) {
	case *Term:
		t = x
	default:
		f := asF64(v)
		if !finite(f) || f <= 0 || m.nativeFloat {
			return math.Sqrt(f)
		}
		t = m.p.Float(f)
	}
	if t.isConst() {
		if t.rat.Sign() < 0 {
			return math.NaN()
		}
		if r, ok := ratSqrt(t.rat); ok {
			return m.mkReal(r)
		}
		if m.nativeFloat {
			f, _ := t.rat.Float64()
			return math.Sqrt(f)
		}
	} else if m.branch(m.p.Lt(t, m.p.zero)) {
		return math.NaN()
	}
	// perfect square of a known term: sqrt(x*x) = |x|
	if t.op == OMul && len(t.args) == 2 && t.args[0] == t.args[1] {
		return m.fAbs(t.args[0])
	}
	if t.op == OMul && t.args[0].isConst() && len(t.args) == 3 && t.args[1] == t.args[2] {
		if r, ok := ratSqrt(t.args[0].rat); ok {
			ab := m.fAbs(t.args[1])
			return m.norm(m.p.Mul(m.p.Rat(r), m.realTerm(ab)))
		}
	}
	if root := m.p.quadRoot(t); root != nil {
		return m.fAbs(root)
	}
	if t.op == OMul && t.args[0].isConst() {
		// factor a square constant out, for a canonical form
		c := t.args[0].rat
		if r, ok := ratSqrt(c); ok {
			rest := m.p.Mul(m.p.Rat(new(big.Rat).Inv(c)), t)
			return m.norm(m.p.Mul(m.p.Rat(r), m.sqrtAtom(rest)))
		}
	}
	return m.sqrtAtom(t)
}

func (m *Machine) sqrtAtom(t *Term) *Term {
	r := m.p.UF("sqrt", t)
	if !m.defs[r] {
		m.defs[r] = true
		m.assume(m.p.Not(m.p.intern(&Term{op: OLt, sort: SBool, args: []*Term{r, m.p.zero}})))
		// r*r = t, written without the simplifier's r*r -> t rule
		sq := m.p.intern(&Term{op: OMul, sort: SReal, args: []*Term{r, r}})
		m.assume(m.p.intern(&Term{op: OEq, sort: SBool, args: []*Term{sq, t}}))
	}
	return r
}

// leadNeg reports whether the canonical leading coefficient of t is negative.
func leadNeg(t *Term) bool {
	switch t.op {
	case OConst:
		return t.rat.Sign() < 0
	case OMul:
		return t.args[0].isConst() && t.args[0].rat.Sign() < 0
	case OAdd:
		return leadNeg(t.args[0])
	}
	return false
}

// ufApp builds an application of an uninterpreted monotone real function with instantiated axioms.
func (m *Machine) ufApp(name string, t *Term) *Term {
	r := m.p.UF(name, t)
	if m.defs[r] {
		return r
	}
	m.defs[r] = true
	z, one := m.p.zero, m.p.one
	switch name {
	case "exp":
		m.assume(m.p.Lt(z, r))
		// exp(t) >= 1+t, and the sign of t against 1
		m.assume(m.p.Le(m.p.Add(t, one), r))
		m.assume(m.p.Eq(m.p.Lt(z, t), m.p.Lt(one, r)))
		m.assume(m.p.Eq(m.p.Eq(z, t), m.p.Eq(one, r)))
	case "log":
		m.assume(m.p.Eq(m.p.Lt(one, t), m.p.Lt(z, r)))
		m.assume(m.p.Eq(m.p.Eq(one, t), m.p.Eq(z, r)))
		m.assume(m.p.Le(r, m.p.Sub(t, one)))
	case "tanh":
		m.assume(m.p.Lt(r, one))
		m.assume(m.p.Lt(m.p.Neg(one), r))
		m.assume(m.p.Eq(m.p.Lt(z, t), m.p.Lt(z, r)))
		m.assume(m.p.Eq(m.p.Lt(t, z), m.p.Lt(r, z)))
	case "log1p":
		m.assume(m.p.Eq(m.p.Lt(z, t), m.p.Lt(z, r)))
		m.assume(m.p.Eq(m.p.Eq(z, t), m.p.Eq(z, r)))
		m.assume(m.p.Le(r, t))
	case "expm1":
		m.assume(m.p.Lt(m.p.Neg(one), r))
		m.assume(m.p.Eq(m.p.Lt(z, t), m.p.Lt(z, r)))
		m.assume(m.p.Eq(m.p.Eq(z, t), m.p.Eq(z, r)))
	}
	switch name {
	case "exp", "log", "tanh", "log1p", "expm1":
		prev := m.ufapps[name]
		if len(prev) <= 10 {
			for _, o := range prev {
				m.assume(m.p.Eq(m.p.Lt(t, o.args[0]), m.p.Lt(r, o)))
				m.assume(m.p.Eq(m.p.Eq(t, o.args[0]), m.p.Eq(r, o)))
			}
		}
		m.ufapps[name] = append(prev, r)
	}
	return r
}

func (m *Machine) fUnary(name string, native func(float64) float64, v Value) Value {
	if f, ok := toF(v); ok {
		r := native(f)
		return r
	}
	t := v.(*Term)
	switch name {
	case "exp":
		if t.op == OUF && t.name == "log" {
			return t.args[0]
		}
		// exp of a sum with log parts is left alone; exp(-t) = 1/exp(t)
		if leadNeg(t) {
			return m.norm(m.p.Div(m.p.one, m.ufApp("exp", m.p.Neg(t))))
		}
		return m.ufApp("exp", t)
	case "log":
		s := m.sign(t)
		if s == 0 {
			return math.Inf(-1)
		}
		if s < 0 {
			return math.NaN()
		}
		if t.op == OUF && t.name == "exp" {
			return t.args[0]
		}
		if t.op == ODiv && t.args[0] == m.p.one {
			if d := t.args[1]; d.op == OUF && d.name == "exp" {
				return m.norm(m.p.Neg(d.args[0]))
			}
		}
		return m.ufApp("log", t)
	case "log1p":
		if m.branch(m.p.Le(t, m.p.Rat(big.NewRat(-1, 1)))) {
			if m.branch(m.p.Eq(t, m.p.Rat(big.NewRat(-1, 1)))) {
				return math.Inf(-1)
			}
			return math.NaN()
		}
		return m.fUnary("log", math.Log, m.norm(m.p.Add(t, m.p.one)))
	case "expm1":
		e := m.fUnary("exp", math.Exp, t)
		return m.norm(m.p.Sub(m.realTerm(e), m.p.one))
	case "tanh", "sin", "atan", "erf", "sinh", "tan", "cbrt":
		if leadNeg(t) {
			return m.norm(m.p.Neg(m.ufApp(name, m.p.Neg(t))))
		}
		return m.ufApp(name, t)
	case "cos", "cosh":
		if leadNeg(t) {
			t = m.p.Neg(t)
		}
		return m.ufApp(name, t)
	}
	return m.ufApp(name, t)
}

func (m *Machine) fPow(x, y Value) Value {
	fx, cx := toF(x)
	fy, cy := toF(y)
	if cy && fy == math.Trunc(fy) && math.Abs(fy) <= 16 {
		if cx && (m.nativeFloat || !finite(fx) || fx == 0) {
			return math.Pow(fx, fy)
		}
		n := int(math.Abs(fy))
		r := m.p.one
		xt := m.realTerm(x)
		for i := 0; i < n; i++ {
			r = m.p.Mul(r, xt)
		}
		if fy < 0 {
			if m.branch(m.p.Eq(xt, m.p.zero)) {
				return math.Inf(1)
			}
			return m.norm(m.p.Div(m.p.one, r))
		}
		return m.norm(r)
	}
	if cy && (fy == 0.5 || fy == -0.5) {
		s := m.fSqrt(x)
		if fy == 0.5 {
			return s
		}
		if f, ok := toF(s); ok && m.nativeFloat {
			return 1 / f
		}
		st, ok := s.(*Term)
		if !ok {
			return 1 / asF64(s)
		}
		if m.branch(m.p.Eq(st, m.p.zero)) {
			return math.Inf(1)
		}
		return m.norm(m.p.Div(m.p.one, st))
	}
	if cx && cy {
		return math.Pow(fx, fy)
	}
	if !m.isFin(x) || !m.isFin(y) {
		// x**Inf, Inf**y
		if !m.isFin(y) {
			fv := asF64(y)
			if math.IsNaN(fv) {
				return fv
			}
			a := m.realTerm(m.fAbs(x))
			if m.branch(m.p.Eq(a, m.p.one)) {
				return 1.0
			}
			big := m.branch(m.p.Lt(m.p.one, a))
			if big == (fv > 0) {
				return math.Inf(1)
			}
			return 0.0
		}
		panic(unsupported("pow of inf"))
	}
	xt, yt := m.realTerm(x), m.realTerm(y)
	sx := m.sign(xt)
	if sx == 0 {
		switch m.sign(yt) {
		case 0:
			return 1.0
		case 1:
			return 0.0
		}
		return math.Inf(1)
	}
	if sx < 0 {
		if cy {
			return math.NaN()
		}
		panic(unsupported("pow of a negative base with a symbolic exponent"))
	}
	r := m.p.UF("pow", xt, yt)
	if !m.defs[r] {
		m.defs[r] = true
		m.assume(m.p.Lt(m.p.zero, r))
		one, z := m.p.one, m.p.zero
		// for y>0: pow>1 iff x>1
		m.assume(m.p.Or(m.p.Le(yt, z), m.p.Eq(m.p.Lt(one, xt), m.p.Lt(one, r))))
		m.assume(m.p.Or(m.p.Le(z, yt), m.p.Eq(m.p.Lt(one, xt), m.p.Lt(r, one))))
		m.assume(m.p.Or(m.p.Not(m.p.Eq(yt, z)), m.p.Eq(r, one)))
		m.assume(m.p.Or(m.p.Not(m.p.Eq(xt, one)), m.p.Eq(r, one)))
		for _, o := range m.ufapps["pow"] {
			if o.args[1] == yt {
				if cy {
					if fy > 0 {
						m.assume(m.p.Eq(m.p.Lt(xt, o.args[0]), m.p.Lt(r, o)))
						m.assume(m.p.Eq(m.p.Eq(xt, o.args[0]), m.p.Eq(r, o)))
					} else {
						m.assume(m.p.Eq(m.p.Lt(xt, o.args[0]), m.p.Lt(o, r)))
						m.assume(m.p.Eq(m.p.Eq(xt, o.args[0]), m.p.Eq(r, o)))
					}
				}
			}
			// pow(pow(a,b),1/b) = a
			if o == xt && cy {
				if fb, ok := toF(o.args[1]); ok && math.Abs(fb*fy-1) < 1e-12 {
					return o.args[0]
				}
			}
		}
		m.ufapps["pow"] = append(m.ufapps["pow"], r)
	}
	for _, o := range m.ufapps["pow"] {
		if o == xt && cy {
			if fb, ok := toF(o.args[1]); ok && math.Abs(fb*fy-1) < 1e-12 {
				return o.args[0]
			}
		}
	}
	return r
}

// fTrunc-like functions.
func (m *Machine) fRoundish(name string, native func(float64) float64, v Value) Value {
	if f, ok := toF(v); ok {
		if t, is := v.(*Term); is && !m.nativeFloat {
			_ = t
		}
		return native(f)
	}
	t := v.(*Term)
	switch name {
	case "floor":
		return m.p.Floor(t)
	case "ceil":
		return m.norm(m.p.Neg(m.p.Floor(m.p.Neg(t))))
	case "trunc":
		return m.norm(m.p.Ite(m.p.Lt(t, m.p.zero), m.p.Neg(m.p.Floor(m.p.Neg(t))), m.p.Floor(t)))
	case "round":
		h := m.p.Rat(big.NewRat(1, 2))
		return m.norm(m.p.Ite(m.p.Lt(t, m.p.zero), m.p.Neg(m.p.Floor(m.p.Add(m.p.Neg(t), h))), m.p.Floor(m.p.Add(t, h))))
	}
	panic(unsupported(name))
}

func f32of(v Value) Value {
	if f, ok := v.(float64); ok {
		return float32(f)
	}
	return v
}

func regF(name string, f func(m *Machine, args []Value) Value) {
	g := func(m *Machine, fn *ssa.Function, args []Value) Value { return f(m, args) }
	intrinsics["math."+name] = g
	pureIntr["math."+name] = true
	g32 := func(m *Machine, fn *ssa.Function, args []Value) Value { return f32of(f(m, args)) }
	intrinsics["github.com/chewxy/math32."+name] = g32
	pureIntr["github.com/chewxy/math32."+name] = true
	intrinsics["gonum.org/v1/gonum/internal/math32."+name] = g32
	pureIntr["gonum.org/v1/gonum/internal/math32."+name] = true
}

func init() {
	un := map[string]func(float64) float64{"exp": math.Exp, "exp2": math.Exp2, "expm1": math.Expm1, "log": math.Log, "log1p": math.Log1p, "log2": math.Log2, "log10": math.Log10,
		"tanh": math.Tanh, "sinh": math.Sinh, "cosh": math.Cosh, "sin": math.Sin, "cos": math.Cos, "tan": math.Tan, "atan": math.Atan, "asin": math.Asin, "acos": math.Acos,
		"erf": math.Erf, "erfc": math.Erfc, "erfinv": math.Erfinv, "gamma": math.Gamma, "cbrt": math.Cbrt, "asinh": math.Asinh, "acosh": math.Acosh, "atanh": math.Atanh}
	for n, f := range un {
		n, f := n, f
		N := strings.ToUpper(n[:1]) + n[1:]
		regF(N, func(m *Machine, a []Value) Value { return m.fUnary(n, f, a[0]) })
	}
	rd := map[string]func(float64) float64{"floor": math.Floor, "ceil": math.Ceil, "trunc": math.Trunc, "round": math.Round}
	for n, f := range rd {
		n, f := n, f
		N := strings.ToUpper(n[:1]) + n[1:]
		regF(N, func(m *Machine, a []Value) Value { return m.fRoundish(n, f, a[0]) })
	}
	regF("Abs", func(m *Machine, a []Value) Value { return m.fAbs(a[0]) })
	regF("Sqrt", func(m *Machine, a []Value) Value { return m.fSqrt(a[0]) })
	regF("Pow", func(m *Machine, a []Value) Value { return m.fPow(a[0], a[1]) })
	regF("Max", func(m *Machine, a []Value) Value { return m.fMinMax(true, a[0], a[1]) })
	regF("Min", func(m *Machine, a []Value) Value { return m.fMinMax(false, a[0], a[1]) })
	regF("Inf", func(m *Machine, a []Value) Value { return math.Inf(int(asI64(a[0]))) })
	regF("NaN", func(m *Machine, a []Value) Value { return math.NaN() })
	regF("IsNaN", func(m *Machine, a []Value) Value {
		if isTerm(a[0]) {
			return false
		}
		return math.IsNaN(asF64(a[0]))
	})
	regF("IsInf", func(m *Machine, a []Value) Value {
		if isTerm(a[0]) {
			return false
		}
		return math.IsInf(asF64(a[0]), int(asI64(a[1])))
	})
	regF("Signbit", func(m *Machine, a []Value) Value {
		if t, ok := a[0].(*Term); ok {
			return m.norm(m.p.Lt(t, m.p.zero))
		}
		return math.Signbit(asF64(a[0]))
	})
	regF("Copysign", func(m *Machine, a []Value) Value {
		if !isTerm(a[0]) && !isTerm(a[1]) {
			return math.Copysign(asF64(a[0]), asF64(a[1]))
		}
		if !m.isFin(a[0]) {
			f := asF64(a[0])
			if m.truth(m.norm(m.p.Lt(m.realTerm(a[1]), m.p.zero))) {
				return math.Copysign(f, -1)
			}
			return math.Copysign(f, 1)
		}
		ab := m.realTerm(m.fAbs(a[0]))
		var neg *Term
		if t, ok := a[1].(*Term); ok {
			neg = m.p.Lt(t, m.p.zero)
		} else {
			neg = m.p.Bool(math.Signbit(asF64(a[1])))
		}
		return m.norm(m.p.Ite(neg, m.p.Neg(ab), ab))
	})
	regF("Hypot", func(m *Machine, a []Value) Value {
		if !isTerm(a[0]) && !isTerm(a[1]) && m.nativeFloat {
			return math.Hypot(asF64(a[0]), asF64(a[1]))
		}
		if !m.isFin(a[0]) || !m.isFin(a[1]) {
			return math.Inf(1)
		}
		x, y := m.realTerm(a[0]), m.realTerm(a[1])
		return m.fSqrt(m.norm(m.p.Add(m.p.Mul(x, x), m.p.Mul(y, y))))
	})
	regF("FMA", func(m *Machine, a []Value) Value {
		t := m.floatBin(mulTok, a[0], a[1], types.Float64)
		return m.floatBin(addTok, t, a[2], types.Float64)
	})
	regF("Mod", func(m *Machine, a []Value) Value {
		x, ok1 := toF(a[0])
		y, ok2 := toF(a[1])
		if ok1 && ok2 {
			return math.Mod(x, y)
		}
		if ok2 && y != 0 {
			t := m.realTerm(a[0])
			yt := m.p.Float(math.Abs(y))
			q := m.p.Div(t, yt)
			tr := m.p.Ite(m.p.Lt(q, m.p.zero), m.p.Neg(m.p.Floor(m.p.Neg(q))), m.p.Floor(q))
			return m.norm(m.p.Sub(t, m.p.Mul(tr, yt)))
		}
		panic(unsupported("math.Mod symbolic"))
	})
	conc2 := func(name string, f func(a, b float64) float64) {
		regF(name, func(m *Machine, a []Value) Value {
			x, ok1 := toF(a[0])
			y, ok2 := toF(a[1])
			if !ok1 || !ok2 {
				panic(unsupported("math." + name + " symbolic"))
			}
			return f(x, y)
		})
	}
	conc2("Atan2", math.Atan2)
	conc2("Nextafter", math.Nextafter)
	conc2("Dim", math.Dim)
	conc2("Remainder", math.Remainder)
	delete(intrinsics, "github.com/chewxy/math32.FMA")
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	pure := func(n string, f intrinsic) { intrinsics[n] = f; pureIntr[n] = true }
	reg("encoding/binary.Size", func(m *Machine, fn *ssa.Function, a []Value) Value { return 0 })
	reg("math.Lgamma", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			panic(unsupported("lgamma"))
		}
		r, s := math.Lgamma(f)
		return Tuple{r, s}
	})
	reg("math.Frexp", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			panic(unsupported("frexp"))
		}
		r, s := math.Frexp(f)
		return Tuple{r, s}
	})
	reg("math.Modf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			t := a[0].(*Term)
			tr := m.realTerm(m.fRoundish("trunc", math.Trunc, t))
			return Tuple{m.norm(tr), m.norm(m.p.Sub(t, tr))}
		}
		r, s := math.Modf(f)
		return Tuple{r, s}
	})
	reg("math.Sincos", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return Tuple{m.fUnary("sin", math.Sin, a[0]), m.fUnary("cos", math.Cos, a[0])}
	})
	reg("math.Ldexp", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			panic(unsupported("ldexp"))
		}
		return math.Ldexp(f, int(asI64(a[1])))
	})
	reg("math.Float64bits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			panic(unsupported("Float64bits of a symbolic value"))
		}
		return math.Float64bits(f)
	})
	reg("math.Float64frombits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		u, ok := a[0].(uint64)
		if !ok {
			u = uint64(m.concInt(a[0], types.Uint64))
		}
		return math.Float64frombits(u)
	})
	reg("math.Float32bits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			panic(unsupported("Float32bits of a symbolic value"))
		}
		return math.Float32bits(float32(f))
	})
	reg("math.Float32frombits", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return math.Float32frombits(a[0].(uint32))
	})
	for _, pk := range []string{"math/bits."} {
		u64 := func(v Value, m *Machine, k types.BasicKind) uint64 { return uint64(m.concInt(v, k)) }
		reg(pk+"Len", func(m *Machine, fn *ssa.Function, a []Value) Value { return bits.Len64(u64(a[0], m, types.Uint)) })
		reg(pk+"Len64", func(m *Machine, fn *ssa.Function, a []Value) Value { return bits.Len64(u64(a[0], m, types.Uint64)) })
		reg(pk+"TrailingZeros64", func(m *Machine, fn *ssa.Function, a []Value) Value {
			return bits.TrailingZeros64(u64(a[0], m, types.Uint64))
		})
		reg(pk+"LeadingZeros64", func(m *Machine, fn *ssa.Function, a []Value) Value {
			return bits.LeadingZeros64(u64(a[0], m, types.Uint64))
		})
	}
	reg("math/bits.Mul64", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := uint64(m.concInt(a[0], types.Uint64)), uint64(m.concInt(a[1], types.Uint64))
		h, l := bits.Mul64(x, y)
		return Tuple{h, l}
	})
	reg("math/bits.Add64", func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y, c := uint64(m.concInt(a[0], types.Uint64)), uint64(m.concInt(a[1], types.Uint64)), uint64(m.concInt(a[2], types.Uint64))
		h, l := bits.Add64(x, y, c)
		return Tuple{h, l}
	})

	// runtime, time, log, os
	reg("runtime.NumCPU", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.ncpu })
	reg("runtime.GOMAXPROCS", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.ncpu })
	reg("runtime.Gosched", func(m *Machine, fn *ssa.Function, a []Value) Value { m.schedPoint(); return nil })
	reg("runtime.GC", func(m *Machine, fn *ssa.Function, a []Value) Value { return nil })
	reg("runtime.KeepAlive", func(m *Machine, fn *ssa.Function, a []Value) Value { return nil })
	reg("runtime.SetFinalizer", func(m *Machine, fn *ssa.Function, a []Value) Value { return nil })
	zeroRes := func(m *Machine, fn *ssa.Function, a []Value) Value {
		r := fn.Signature.Results()
		switch r.Len() {
		case 0:
			return nil
		case 1:
			return zero(r.At(0).Type())
		}
		return zero(r)
	}
	for _, n := range []string{"time.Now", "time.Since", "(time.Time).Sub", "(time.Time).Add", "time.Sleep", "os.Getenv", "(time.Duration).Seconds", "(time.Duration).String",
		"log.Println", "log.Printf", "log.Print", "fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintln", "fmt.Fprintf", "fmt.Fprint", "log.SetFlags", "log.SetOutput", "flag.Parse", "(*os.File).Write", "(*os.File).WriteString"} {
		reg(n, zeroRes)
	}
	reg("(time.Time).UnixNano", func(m *Machine, fn *ssa.Function, a []Value) Value { return int64(1234567) })
	reg("(time.Time).Unix", func(m *Machine, fn *ssa.Function, a []Value) Value { return int64(1234567) })
	fatal := func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.failf("panic", "%s called: %s", fn.Name(), m.sprintAny(a))
		return nil
	}
	for _, n := range []string{"log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit"} {
		reg(n, fatal)
	}
	pan := func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := m.sprintAny(a)
		m.goPanic(&goPanicT{v: Iface{types.Typ[types.String], s}, msg: s})
		return nil
	}
	for _, n := range []string{"log.Panic", "log.Panicf", "log.Panicln"} {
		reg(n, pan)
	}

	// fmt
	reg("fmt.Sprintf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return fmt.Sprintf(a[0].(string), m.hostArgs(a[1])...)
	})
	reg("fmt.Sprint", func(m *Machine, fn *ssa.Function, a []Value) Value { return fmt.Sprint(m.hostArgs(a[0])...) })
	reg("fmt.Sprintln", func(m *Machine, fn *ssa.Function, a []Value) Value { return fmt.Sprintln(m.hostArgs(a[0])...) })
	reg("fmt.Errorf", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.mkError(fmt.Sprintf(strings.ReplaceAll(a[0].(string), "%w", "%v"), m.hostArgs(a[1])...))
	})
	// strconv, strings
	reg("strconv.Itoa", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strconv.Itoa(int(m.concInt(a[0], types.Int)))
	})
	reg("strconv.FormatInt", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strconv.FormatInt(m.concInt(a[0], types.Int64), int(asI64(a[1])))
	})
	reg("strconv.FormatFloat", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, ok := toF(a[0])
		if !ok {
			panic(unsupported("FormatFloat symbolic"))
		}
		return strconv.FormatFloat(f, a[1].(byte), int(asI64(a[2])), int(asI64(a[3])))
	})
	reg("strconv.ParseFloat", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, err := strconv.ParseFloat(a[0].(string), int(asI64(a[1])))
		if err != nil {
			return Tuple{f, m.mkError(err.Error())}
		}
		return Tuple{f, Iface{}}
	})
	reg("strconv.Atoi", func(m *Machine, fn *ssa.Function, a []Value) Value {
		f, err := strconv.Atoi(a[0].(string))
		if err != nil {
			return Tuple{f, m.mkError(err.Error())}
		}
		return Tuple{f, Iface{}}
	})
	s1 := func(n string, f func(string) string) {
		reg("strings."+n, func(m *Machine, fn *ssa.Function, a []Value) Value { return f(a[0].(string)) })
	}
	s1("ToLower", strings.ToLower)
	s1("ToUpper", strings.ToUpper)
	s1("TrimSpace", strings.TrimSpace)
	s1("Title", strings.Title)
	s2b := func(n string, f func(a, b string) bool) {
		reg("strings."+n, func(m *Machine, fn *ssa.Function, a []Value) Value { return f(a[0].(string), a[1].(string)) })
	}
	s2b("HasPrefix", strings.HasPrefix)
	s2b("HasSuffix", strings.HasSuffix)
	s2b("Contains", strings.Contains)
	s2b("EqualFold", strings.EqualFold)
	s2b("ContainsAny", strings.ContainsAny)
	reg("strings.Index", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strings.Index(a[0].(string), a[1].(string))
	})
	reg("strings.Split", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return hostStrings(strings.Split(a[0].(string), a[1].(string)))
	})
	reg("strings.Fields", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return hostStrings(strings.Fields(a[0].(string)))
	})
	reg("strings.Replace", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strings.Replace(a[0].(string), a[1].(string), a[2].(string), int(asI64(a[3])))
	})
	reg("strings.ReplaceAll", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	reg("strings.Repeat", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return strings.Repeat(a[0].(string), int(asI64(a[1])))
	})
	reg("strings.Join", func(m *Machine, fn *ssa.Function, a []Value) Value {
		var ss []string
		for _, x := range a[0].(Slice) {
			ss = append(ss, x.(string))
		}
		return strings.Join(ss, a[1].(string))
	})

	// sync
	ptr := func(v Value) *Value { p, _ := v.(*Value); return p }
	reg("(*sync.Mutex).Lock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.lock(ptr(a[0])); return nil })
	reg("(*sync.Mutex).Unlock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.unlock(ptr(a[0])); return nil })
	reg("(*sync.Mutex).TryLock", func(m *Machine, fn *ssa.Function, a []Value) Value {
		mu := m.mutex(ptr(a[0]))
		if mu.locked {
			return false
		}
		m.lock(ptr(a[0]))
		return true
	})
	reg("(*sync.RWMutex).Lock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.lock(ptr(a[0])); return nil })
	reg("(*sync.RWMutex).Unlock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.unlock(ptr(a[0])); return nil })
	reg("(*sync.RWMutex).RLock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.rlock(ptr(a[0])); return nil })
	reg("(*sync.RWMutex).RUnlock", func(m *Machine, fn *ssa.Function, a []Value) Value { m.runlock(ptr(a[0])); return nil })
	reg("(*sync.WaitGroup).Add", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.wgAdd(ptr(a[0]), m.concInt(a[1], types.Int))
		return nil
	})
	reg("(*sync.WaitGroup).Done", func(m *Machine, fn *ssa.Function, a []Value) Value { m.wgAdd(ptr(a[0]), -1); return nil })
	reg("(*sync.WaitGroup).Wait", func(m *Machine, fn *ssa.Function, a []Value) Value { m.wgWait(ptr(a[0])); return nil })
	reg("(*sync.WaitGroup).Go", func(m *Machine, fn *ssa.Function, a []Value) Value {
		w := ptr(a[0])
		f := a[1].(*Closure)
		m.wgAdd(w, 1)
		m.spawn(&Closure{native: func(m *Machine, args []Value) Value {
			m.callClosure(f, nil, nil)
			m.wgAdd(w, -1)
			return nil
		}}, nil)
		return nil
	})
	reg("(*sync.Once).Do", func(m *Machine, fn *ssa.Function, a []Value) Value {
		p := ptr(a[0])
		if m.onces[p] {
			m.cur.vc.join(m.atomVC[p])
			return nil
		}
		m.onces[p] = true
		m.callClosure(a[1].(*Closure), nil, m.lastFr)
		m.atomVC[p] = m.cur.vc.clone()
		m.tick()
		return nil
	})
	reg("(*sync.Pool).Get", func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.spec {
			panic(specAbort{})
		}
		s := (*ptr(a[0])).(Struct)
		nf, _ := s[len(s)-1].(*Closure)
		if nf == nil {
			return Iface{}
		}
		return m.callClosure(nf, nil, m.lastFr)
	})
	reg("(*sync.Pool).Put", func(m *Machine, fn *ssa.Function, a []Value) Value { return nil })
	atomicRMW := func(k types.BasicKind) {
		N := map[types.BasicKind]string{types.Int32: "Int32", types.Int64: "Int64", types.Uint32: "Uint32", types.Uint64: "Uint64"}[k]
		sync := func(m *Machine, p *Value) {
			m.schedPoint()
			v := m.atomVC[p]
			m.cur.vc.join(v)
			m.atomVC[p] = m.cur.vc.clone()
			m.tick()
		}
		reg("sync/atomic.Add"+N, func(m *Machine, fn *ssa.Function, a []Value) Value {
			p := ptr(a[0])
			sync(m, p)
			t := fn.Signature.Params().At(1).Type()
			*p = m.binop(addTok, *p, a[1], t, t)
			return *p
		})
		reg("sync/atomic.Load"+N, func(m *Machine, fn *ssa.Function, a []Value) Value { sync(m, ptr(a[0])); return *ptr(a[0]) })
		reg("sync/atomic.Store"+N, func(m *Machine, fn *ssa.Function, a []Value) Value { sync(m, ptr(a[0])); *ptr(a[0]) = a[1]; return nil })
		reg("sync/atomic.CompareAndSwap"+N, func(m *Machine, fn *ssa.Function, a []Value) Value {
			p := ptr(a[0])
			sync(m, p)
			if m.truth(m.norm(m.eq(*p, a[1]))) {
				*p = a[2]
				return true
			}
			return false
		})
		// typed atomics: struct{_ noCopy; [_ align64;] v T}
		last := func(a Value) *Value { s := (*ptr(a)).(Struct); return &s[len(s)-1] }
		reg("(*sync/atomic."+N+").Add", func(m *Machine, fn *ssa.Function, a []Value) Value {
			p := last(a[0])
			sync(m, p)
			t := fn.Signature.Params().At(0).Type()
			*p = m.binop(addTok, *p, a[1], t, t)
			return *p
		})
		reg("(*sync/atomic."+N+").Load", func(m *Machine, fn *ssa.Function, a []Value) Value { p := last(a[0]); sync(m, p); return *p })
		reg("(*sync/atomic."+N+").Store", func(m *Machine, fn *ssa.Function, a []Value) Value {
			p := last(a[0])
			sync(m, p)
			*p = a[1]
			return nil
		})
	}
	for _, k := range []types.BasicKind{types.Int32, types.Int64, types.Uint32, types.Uint64} {
		atomicRMW(k)
	}

	// sort.Slice uses reflection; the same insertion sort as the library for short slices
	sortSlice := func(m *Machine, fn *ssa.Function, a []Value) Value {
		if m.spec {
			panic(specAbort{})
		}
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			panic(unsupported("sort.Slice argument"))
		}
		less := a[1].(*Closure)
		fr := m.lastFr
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				if !m.truth(m.callClosure(less, []Value{j, j - 1}, fr)) {
					break
				}
				if m.races {
					m.access(&s[j], true)
					m.access(&s[j-1], true)
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeVal(&s[j], y)
				storeVal(&s[j-1], x)
			}
		}
		return nil
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)
	reg("sort.SliceIsSorted", func(m *Machine, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := len(s) - 1; i > 0; i-- {
			if m.truth(m.callClosure(a[1].(*Closure), []Value{i, i - 1}, m.lastFr)) {
				return false
			}
		}
		return true
	})

	// gonum address arithmetic
	off := func(m *Machine, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if cap(x) == 0 || cap(y) == 0 {
			return 0
		}
		px, py := uintptr(unsafe.Pointer(&x[:1][0])), uintptr(unsafe.Pointer(&y[:1][0]))
		return int(int64(py)-int64(px)) / int(unsafe.Sizeof(x[:1][0]))
	}
	reg("gonum.org/v1/gonum/mat.offset", off)
	reg("gonum.org/v1/gonum/mat.offsetComplex", off)
	reg("gonum.org/v1/gonum/mat.offsetC", off)
	_ = pure
	// the scaled accumulation of the two-norm is, over the reals, the square root of the sum of squares
	reg("(gonum.org/v1/gonum/blas/gonum.Implementation).Dnrm2", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n, x, inc := int(asI64(a[1])), a[2].(Slice), int(asI64(a[3]))
		if inc < 1 || n < 0 || len(x) <= (n-1)*inc {
			panic(unsupported("Dnrm2 arguments"))
		}
		if n == 0 {
			return 0.
		}
		sym := false
		for i := 0; i < n; i++ {
			if m.races {
				m.access(&x[i*inc], false)
			}
			if v := x[i*inc]; !isTerm(v) && !finite(asF64(v)) {
				if math.IsNaN(asF64(v)) {
					return math.NaN()
				}
				return math.Inf(1)
			} else if isTerm(v) {
				sym = true
			}
		}
		if n == 1 {
			return m.fAbs(x[0])
		}
		if !sym && m.nativeFloat {
			scale, ss := 0., 1.
			for i := 0; i < n; i++ {
				ax := math.Abs(asF64(x[i*inc]))
				if ax == 0 {
					continue
				}
				if scale < ax {
					ss = 1 + ss*(scale/ax)*(scale/ax)
					scale = ax
				} else {
					ss += (ax / scale) * (ax / scale)
				}
			}
			return scale * math.Sqrt(ss)
		}
		sum := m.p.zero
		for i := 0; i < n; i++ {
			t := m.realTerm(x[i*inc])
			sum = m.p.Add(sum, m.p.Mul(t, t))
		}
		return m.fSqrt(m.norm(sum))
	})

	reg("(gonum.org/v1/gonum/lapack/gonum.Implementation).Dlassq", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n, x, inc := int(asI64(a[1])), a[2].(Slice), int(asI64(a[3]))
		if inc < 1 || n < 0 || n > 0 && len(x) < 1+(n-1)*inc {
			panic(unsupported("Dlassq arguments"))
		}
		sym := isTerm(a[4]) || isTerm(a[5])
		for i := 0; i < n; i++ {
			if m.races {
				m.access(&x[i*inc], false)
			}
			if v := x[i*inc]; isTerm(v) {
				sym = true
			}
		}
		nonfinite := false
		for i := 0; i < n; i++ {
			if v := x[i*inc]; !isTerm(v) && !finite(asF64(v)) {
				nonfinite = true
			}
		}
		if !sym {
			scale, ss := asF64(a[4]), asF64(a[5])
			for i := 0; i < n; i++ {
				ax := math.Abs(asF64(x[i*inc]))
				if ax > 0 || math.IsNaN(ax) {
					if scale < ax {
						ss = 1 + ss*(scale/ax)*(scale/ax)
						scale = ax
					} else {
						ss += (ax / scale) * (ax / scale)
					}
				}
			}
			return Tuple{scale, ss}
		}
		if nonfinite || !isTerm(a[4]) && !finite(asF64(a[4])) || !isTerm(a[5]) && !finite(asF64(a[5])) {
			panic(unsupported("Dlassq of non finite values"))
		}
		sc := m.realTerm(a[4])
		sum := m.p.Mul(m.p.Mul(sc, sc), m.realTerm(a[5]))
		for i := 0; i < n; i++ {
			t := m.realTerm(x[i*inc])
			sum = m.p.Add(sum, m.p.Mul(t, t))
		}
		return Tuple{1., m.norm(sum)}
	})

	registerVP()
	registerReflect()
}

func hostStrings(ss []string) Value {
	out := Slice{}
	for _, s := range ss {
		out = append(out, s)
	}
	return out
}

func (m *Machine) mkError(s string) Value {
	pkg := m.P.pkgs["errors"]
	if pkg == nil {
		panic(unsupported("errors package not loaded"))
	}
	return m.callFn(pkg.Func("New"), []Value{s}, nil, nil)
}

func (m *Machine) sprintAny(a []Value) string {
	var parts []string
	for _, x := range a {
		if s, ok := x.(Slice); ok {
			for _, h := range m.hostArgs(s) {
				parts = append(parts, fmt.Sprint(h))
			}
		} else {
			parts = append(parts, fmt.Sprint(m.host(x)))
		}
	}
	return strings.Join(parts, " ")
}

func (m *Machine) hostArgs(v Value) []any {
	s, _ := v.(Slice)
	var out []any
	for _, x := range s {
		out = append(out, m.host(x))
	}
	return out
}

// host converts a value for formatting only.
func (m *Machine) host(v Value) any {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		if s, ok := m.errString(x); ok {
			return s
		}
		return m.host(x.v)
	case *Term:
		if f, ok := toF(x); ok {
			return f
		}
		return symStr("?" + strconv.Itoa(x.id))
	case Slice:
		out := []any{}
		for _, e := range x {
			out = append(out, m.host(e))
		}
		return out
	case Struct:
		out := []any{}
		for _, e := range x {
			out = append(out, m.host(e))
		}
		return out
	case Array:
		out := []any{}
		for _, e := range x {
			out = append(out, m.host(e))
		}
		return out
	case *Value:
		if x == nil {
			return nil
		}
		return symStr("ptr")
	case *Closure, *MapV, *Chan:
		return symStr("ref")
	}
	return v
}

// symStr prints a symbolic value under any verb.
type symStr string

func (s symStr) Format(f fmt.State, c rune) { f.Write([]byte(s)) }
