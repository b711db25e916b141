package main

// rebuild replaces sub-terms by a map, re-simplifying on the way up.
func (p *Pool) rebuild(t *Term, sub map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := sub[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	as := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		as[i] = p.rebuild(a, sub, memo)
		if as[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		switch t.op {
		case ONot:
			r = p.Not(as[0])
		case OAnd:
			r = p.And(as...)
		case OOr:
			r = p.Or(as...)
		case OEq:
			r = p.Eq(as[0], as[1])
		case OIte:
			r = p.Ite(as[0], as[1], as[2])
		case OLt:
			r = p.Lt(as[0], as[1])
		case OLe:
			r = p.Le(as[0], as[1])
		case OAdd:
			r = p.Add(as...)
		case OMul:
			r = as[0]
			for _, a := range as[1:] {
				r = p.Mul(r, a)
			}
		case ODiv:
			r = p.Div(as[0], as[1])
		default:
			c := *t
			c.args = as
			c.id, c.gen = 0, 0
			r = p.intern(&c)
		}
	}
	memo[t] = r
	return r
}

// firstIte finds the condition of an innermost if-then-else over reals.
func firstIte(ts ...*Term) *Term {
	seen := map[*Term]bool{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if seen[t] {
			return nil
		}
		seen[t] = true
		for _, a := range t.args {
			if r := f(a); r != nil {
				return r
			}
		}
		if t.op == OIte && t.sort == SReal {
			return t.args[0]
		}
		return nil
	}
	for _, t := range ts {
		if r := f(t); r != nil {
			return r
		}
	}
	return nil
}

// proveEqSplit proves x = y by splitting on the if-then-else conditions and comparing normal forms in every case.
func (m *Machine) proveEqSplit(x, y *Term, assumed []*Term, leaves *int) bool {
	m.w.checkDeadline()
	c := firstIte(x, y)
	if c == nil {
		*leaves++
		if *leaves > 48 {
			return false
		}
		if n, ok := m.p.diffNumerator(x, y); ok && n == m.p.zero {
			return true
		}
		r, _ := m.w.s.Check(m.pc, append(append([]*Term{}, assumed...), m.p.Not(m.p.Eq(x, y))), m.w.asTimeout, nil)
		return r == Unsat
	}
	for _, v := range []bool{true, false} {
		k := c
		if !v {
			k = m.p.Not(c)
		}
		as := append(append([]*Term{}, assumed...), k)
		if r, _ := m.w.s.Check(m.pc, as, m.w.brTimeout, nil); r == Unsat {
			continue
		}
		sub := map[*Term]*Term{c: m.p.Bool(v), m.p.Not(c): m.p.Bool(!v)}
		// an equation pins a variable
		if v && c.op == OEq && c.args[0].sort == SReal {
			a, b := c.args[0], c.args[1]
			switch {
			case a.op == OVar:
				sub[a] = b
			case b.op == OVar:
				sub[b] = a
			}
		}
		memo := map[*Term]*Term{}
		if !m.proveEqSplit(m.p.rebuild(x, sub, memo), m.p.rebuild(y, sub, memo), as, leaves) {
			return false
		}
	}
	return true
}
