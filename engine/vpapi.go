package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

const (
	addTok = token.ADD
	mulTok = token.MUL
)

const vpPath = "github.com/pa-m/sklearn/vp"

func (m *Machine) vname(s string) string {
	k := m.names[s]
	m.names[s]++
	if k == 0 {
		return s
	}
	return fmt.Sprintf("%s#%d", s, k)
}

func (m *Machine) newReal(name string) *Term {
	n := m.vname(name)
	t := m.p.Var(n, SReal, 0)
	m.inputs = append(m.inputs, input{n, t, 'f'})
	return t
}

func registerVP() {
	reg := func(n string, f intrinsic) { intrinsics[vpPath+"."+n] = f }
	reg("Float", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.newReal(a[0].(string)) })
	reg("Float32", func(m *Machine, fn *ssa.Function, a []Value) Value { return m.newReal(a[0].(string)) })
	floatIn := func(m *Machine, fn *ssa.Function, a []Value) Value {
		t := m.newReal(a[0].(string))
		lo, hi := m.realTerm(a[1]), m.realTerm(a[2])
		m.assume(m.p.Le(lo, t))
		m.assume(m.p.Le(t, hi))
		if m.ranges == nil {
			m.ranges = map[*Term]ival{}
		}
		m.ranges[t] = ival{m.iv(lo).lo, m.iv(hi).hi}
		return t
	}
	reg("FloatIn", floatIn)
	reg("Float32In", floatIn)
	reg("Int", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.vname(a[0].(string))
		t := m.p.Var(n, SBV, 64)
		m.inputs = append(m.inputs, input{n, t, 'i'})
		m.assume(m.p.BVCmp("bvsle", m.bvTerm(a[1], 64), t))
		m.assume(m.p.BVCmp("bvsle", t, m.bvTerm(a[2], 64)))
		return t
	})
	reg("Uint64", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.vname(a[0].(string))
		t := m.p.Var(n, SBV, 64)
		m.inputs = append(m.inputs, input{n, t, 'u'})
		m.assume(m.p.BVCmp("bvult", t, m.bvTerm(a[1], 64)))
		return t
	})
	reg("Bool", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.vname(a[0].(string))
		t := m.p.Var(n, SBool, 0)
		m.inputs = append(m.inputs, input{n, t, 'b'})
		return t
	})
	reg("Choose", func(m *Machine, fn *ssa.Function, a []Value) Value {
		n := m.vname(a[0].(string))
		k := m.choose(int(asI64(a[1])), "choose:"+n)
		m.choices[n] = k
		return k
	})
	reg("Assume", func(m *Machine, fn *ssa.Function, a []Value) Value {
		switch c := a[0].(type) {
		case bool:
			if !c {
				panic(&abortT{"assume", "assumption false"})
			}
		case *Term:
			m.assume(c)
			if len(m.trace) >= len(m.prefix) {
				if r, _ := m.w.s.Check(m.pc, nil, m.w.brTimeout, nil); r == Unsat {
					panic(&abortT{"assume", "assumption infeasible"})
				}
			}
		}
		return nil
	})
	reg("Assert", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.assertCond(a[0], a[1].(string))
		return nil
	})
	reg("Eq", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.assertEq(a[0], a[1], a[2].(string))
		return nil
	})
	reg("Near", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.assertNear(a[0], a[1], a[2], a[3].(string))
		return nil
	})
	reg("And", func(m *Machine, fn *ssa.Function, a []Value) Value {
		var ts []*Term
		for _, x := range a[0].(Slice) {
			ts = append(ts, m.boolTerm(x))
		}
		return m.norm(m.p.And(ts...))
	})
	reg("Or", func(m *Machine, fn *ssa.Function, a []Value) Value {
		var ts []*Term
		for _, x := range a[0].(Slice) {
			ts = append(ts, m.boolTerm(x))
		}
		return m.norm(m.p.Or(ts...))
	})
	reg("Implies", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.norm(m.p.Or(m.p.Not(m.boolTerm(a[0])), m.boolTerm(a[1])))
	})
	reg("Iff", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.norm(m.p.Eq(m.boolTerm(a[0]), m.boolTerm(a[1])))
	})
	reg("IfF", func(m *Machine, fn *ssa.Function, a []Value) Value {
		c := m.boolTerm(a[0])
		if c.isConst() {
			if c.b {
				return a[1]
			}
			return a[2]
		}
		if v, ok := m.iteVal(c, a[1], a[2], nil); ok {
			return v
		}
		if m.branch(c) {
			return a[1]
		}
		return a[2]
	})
	reg("B2F", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return m.norm(m.p.Ite(m.boolTerm(a[0]), m.p.one, m.p.zero))
	})
	reg("Same", func(m *Machine, fn *ssa.Function, a []Value) Value {
		// a == b treating NaN as equal to NaN; no fork
		if !isTerm(a[0]) && !isTerm(a[1]) {
			x, y := asF64(a[0]), asF64(a[1])
			return x == y || x != x && y != y
		}
		return m.norm(m.eq(a[0], a[1]))
	})
	reg("Reach", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.reach[a[0].(string)] = true
		return nil
	})
	reg("Thorough", func(m *Machine, fn *ssa.Function, a []Value) Value { return tier == "thorough" })
	reg("Symbolic", func(m *Machine, fn *ssa.Function, a []Value) Value { return true })
	reg("CPUs", func(m *Machine, fn *ssa.Function, a []Value) Value { m.ncpu = int(asI64(a[0])); return nil })
	reg("Schedules", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.explore = true
		m.preempt = int(asI64(a[0]))
		return nil
	})
	reg("NewestFirst", func(m *Machine, fn *ssa.Function, a []Value) Value { m.newest = a[0].(bool); return nil })
	reg("MapOrders", func(m *Machine, fn *ssa.Function, a []Value) Value { m.mapOrders = a[0].(bool); return nil })
	reg("NoMerge", func(m *Machine, fn *ssa.Function, a []Value) Value { m.noMerge = a[0].(bool); return nil })
	reg("NoRace", func(m *Machine, fn *ssa.Function, a []Value) Value { m.noRace = true; m.races = false; return nil })
	reg("NativeFloats", func(m *Machine, fn *ssa.Function, a []Value) Value { m.nativeFloat = a[0].(bool); return nil })
	reg("MaxSteps", func(m *Machine, fn *ssa.Function, a []Value) Value { m.maxSt = asI64(a[0]); return nil })
	reg("Conc", func(m *Machine, fn *ssa.Function, a []Value) Value {
		return int(m.concInt(a[0], types.Int))
	})
	reg("Val", func(m *Machine, fn *ssa.Function, a []Value) Value {
		m.observe(a[0].(string), a[1])
		return nil
	})
}

func (m *Machine) observe(msg string, v Value) {
	if len(m.obs) > 400 {
		return
	}
	if t, ok := v.(*Term); ok {
		if t.sort == SReal {
			m.obs = append(m.obs, obsT{msg: msg, t: t, sym: true})
		}
		return
	}
	switch v.(type) {
	case float64, float32:
		m.obs = append(m.obs, obsT{msg: msg, f: asF64(v)})
	}
}

func (m *Machine) replaying() bool { return len(m.trace) < len(m.prefix) }

func (m *Machine) assertCond(v Value, msg string) {
	m.nassert++
	if m.replaying() {
		return
	}
	switch c := v.(type) {
	case bool:
		if c {
			m.w.count("static")
			return
		}
		m.w.candidate(m, nil, "assert", msg)
		panic(&abortT{"violated", msg})
	case *Term:
		if c.isConst() {
			m.assertCond(c.b, msg)
			return
		}
		if m.pcset[c] {
			m.w.count("static")
			return
		}
		m.check(m.p.Not(c), nil, msg)
	}
}

// check discharges pc ∧ neg unsat; gaps are stronger negations used to find robust counterexamples.
func (m *Machine) check(neg *Term, gaps []*Term, msg string) {
	m.w.checkDeadline()
	r, _ := m.w.s.Check(m.pc, []*Term{neg}, m.w.asTimeout, nil)
	if r == Unknown {
		cons := append(append([]*Term{}, m.pc...), neg)
		r, _, _ = Portfolio(cons, m.w.pfTimeout, nil)
	}
	switch r {
	case Unsat:
		m.w.count("proved")
		return
	case Unknown:
		m.w.count("unknown")
		m.w.note("undecided: " + msg)
		// still look for a counterexample of the robust form
		if len(gaps) == 0 {
			return
		}
	}
	st := m.w.candidate(m, append(gaps, neg), "assert", msg)
	if r == Sat && st {
		panic(&abortT{"violated", msg})
	}
}

func (m *Machine) assertEq(a, b Value, msg string) {
	m.nassert++
	m.observe(msg+"/got", a)
	m.observe(msg+"/want", b)
	if m.replaying() {
		return
	}
	fa, fb := m.isFin(a), m.isFin(b)
	if !fa || !fb {
		same := !fa && !fb && (asF64(a) == asF64(b) || math.IsNaN(asF64(a)) && math.IsNaN(asF64(b)))
		m.assertNoCount(same, msg)
		return
	}
	if !isTerm(a) && !isTerm(b) {
		x, y := asF64(a), asF64(b)
		m.assertNoCount(math.Abs(x-y) <= 1e-9*math.Max(1, math.Max(math.Abs(x), math.Abs(y))), msg)
		return
	}
	x, y := m.realTerm(a), m.realTerm(b)
	if x == y {
		m.w.count("static")
		return
	}
	if x.isConst() && y.isConst() {
		d := new(big.Rat).Sub(x.rat, y.rat)
		f, _ := d.Float64()
		g, _ := x.rat.Float64()
		m.assertNoCount(math.Abs(f) <= 1e-9*math.Max(1, math.Abs(g)), msg)
		return
	}
	neg := m.p.Not(m.p.Eq(x, y))
	if n, ok := m.p.diffNumerator(x, y); ok {
		if n == m.p.zero {
			m.w.count("algebra")
			return
		}
		if n.isConst() {
			neg = m.p.Bool(n.rat.Sign() != 0)
		} else {
			neg = m.p.Not(m.p.intern(&Term{op: OEq, sort: SBool, args: []*Term{n, m.p.zero}}))
		}
	}
	if neg.isConst() && !neg.b {
		m.w.count("algebra")
		return
	}
	if firstIte(x, y) != nil {
		m.w.checkDeadline()
		if r, _ := m.w.s.Check(m.pc, []*Term{neg}, 400, nil); r == Unsat {
			m.w.count("proved")
			return
		} else if r == Unknown {
			leaves := 0
			if m.proveEqSplit(x, y, nil, &leaves) {
				m.w.count("split")
				return
			}
		}
	}
	d := m.p.Sub(x, y)
	gap := func(num, den int64) *Term {
		g := m.p.Rat(big.NewRat(num, den))
		return m.p.Or(m.p.Lt(g, d), m.p.Lt(d, m.p.Neg(g)))
	}
	gaps := []*Term{gap(1, 2), gap(1, 50), gap(1, 10000)}
	m.check(neg, gaps, msg)
}

func (m *Machine) assertNoCount(v bool, msg string) {
	m.nassert--
	m.assertCond(v, msg)
}

func (m *Machine) assertNear(a, b, tol Value, msg string) {
	m.nassert++
	m.observe(msg+"/got", a)
	m.observe(msg+"/want", b)
	if m.replaying() {
		return
	}
	fa, fb := m.isFin(a), m.isFin(b)
	if !fa || !fb {
		same := !fa && !fb && (asF64(a) == asF64(b) || math.IsNaN(asF64(a)) && math.IsNaN(asF64(b)))
		m.assertNoCount(same, msg)
		return
	}
	x, y, tt := m.realTerm(a), m.realTerm(b), m.realTerm(tol)
	d := m.p.Sub(x, y)
	neg := m.p.Or(m.p.Lt(tt, d), m.p.Lt(d, m.p.Neg(tt)))
	if neg.isConst() {
		m.assertNoCount(!neg.b, msg)
		return
	}
	t2 := m.p.Mul(m.p.Rat(big.NewRat(4, 1)), tt)
	gap := m.p.Or(m.p.Lt(t2, d), m.p.Lt(d, m.p.Neg(t2)))
	m.check(neg, []*Term{gap}, msg)
}
