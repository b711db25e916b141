package main

import "math"

// Outward rounded intervals of real terms over the declared ranges of the inputs. They only decide branches whose
// condition the ranges settle, which saves solver queries about exp, log and quotients.

type ival struct{ lo, hi float64 }

var anyReal = ival{math.Inf(-1), math.Inf(1)}

func outward(lo, hi float64) ival {
	if math.IsNaN(lo) || math.IsNaN(hi) {
		return anyReal
	}
	const r = 1e-14
	return ival{lo - math.Abs(lo)*r - 1e-310, hi + math.Abs(hi)*r + 1e-310}
}

func (a ival) mul(b ival) ival {
	lo, hi := math.Inf(1), math.Inf(-1)
	for _, x := range []float64{a.lo, a.hi} {
		for _, y := range []float64{b.lo, b.hi} {
			p := x * y
			if math.IsNaN(p) {
				return anyReal
			}
			lo, hi = math.Min(lo, p), math.Max(hi, p)
		}
	}
	return outward(lo, hi)
}

// iv gives bounds of t.
func (m *Machine) iv(t *Term) ival {
	if t.op == OConst && t.sort == SReal {
		f, _ := t.rat.Float64()
		return outward(f, f)
	}
	if r, ok := m.ivMemo[t]; ok {
		return r
	}
	r := m.iv1(t)
	if m.ivMemo == nil {
		m.ivMemo = map[*Term]ival{}
	}
	m.ivMemo[t] = r
	return r
}

func (m *Machine) iv1(t *Term) ival {
	switch t.op {
	case OVar:
		if b, ok := m.ranges[t]; ok {
			return b
		}
	case OAdd:
		lo, hi := 0., 0.
		for _, a := range t.args {
			b := m.iv(a)
			lo, hi = lo+b.lo, hi+b.hi
			o := outward(lo, hi)
			lo, hi = o.lo, o.hi
		}
		return outward(lo, hi)
	case OMul:
		r := ival{1, 1}
		// equal factors are squares
		for i := 0; i < len(t.args); i++ {
			b := m.iv(t.args[i])
			if i+1 < len(t.args) && t.args[i+1] == t.args[i] {
				s := b.mul(b)
				if s.lo < 0 {
					s.lo = 0
				}
				b = s
				i++
			}
			r = r.mul(b)
		}
		return r
	case ODiv:
		d := m.iv(t.args[1])
		if d.lo > 0 || d.hi < 0 {
			return m.iv(t.args[0]).mul(outward(1/d.hi, 1/d.lo))
		}
	case OIte:
		a, b := m.iv(t.args[1]), m.iv(t.args[2])
		return ival{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi)}
	case OUF:
		if len(t.args) != 1 {
			return anyReal
		}
		a := m.iv(t.args[0])
		switch t.name {
		case "exp":
			r := outward(math.Exp(a.lo), math.Exp(a.hi))
			if r.lo < 0 {
				r.lo = 0
			}
			return r
		case "log":
			if a.lo > 0 {
				return outward(math.Log(a.lo), math.Log(a.hi))
			}
		case "tanh":
			r := outward(math.Tanh(a.lo), math.Tanh(a.hi))
			return ival{math.Max(r.lo, -1), math.Min(r.hi, 1)}
		case "sqrt":
			if a.hi < 0 {
				return anyReal
			}
			r := outward(math.Sqrt(math.Max(a.lo, 0)), math.Sqrt(a.hi))
			return ival{math.Max(r.lo, 0), r.hi}
		}
	}
	return anyReal
}

// settled decides a comparison by intervals: 1 true, -1 false, 0 unknown.
func (m *Machine) settled(c *Term) int {
	switch c.op {
	case ONot:
		return -m.settled(c.args[0])
	case OLt:
		a, b := m.iv(c.args[0]), m.iv(c.args[1])
		if a.hi < b.lo {
			return 1
		}
		if a.lo >= b.hi {
			return -1
		}
	case OLe:
		a, b := m.iv(c.args[0]), m.iv(c.args[1])
		if a.hi <= b.lo {
			return 1
		}
		if a.lo > b.hi {
			return -1
		}
	case OEq:
		if c.args[0].sort != SReal {
			return 0
		}
		a, b := m.iv(c.args[0]), m.iv(c.args[1])
		if a.hi < b.lo || a.lo > b.hi {
			return -1
		}
	}
	return 0
}
