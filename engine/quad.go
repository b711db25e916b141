package main

import (
	"math/big"
)

// Quadratic comparisons. A polynomial of degree two is written as a sum of squares of affine forms
// with rational weights (Lagrange's method). When the weights have one sign, or there are two of opposite
// sign whose ratio is the square of a rational, its sign is a boolean combination of signs of affine
// forms, and the solver is left with linear arithmetic.

const maxQuadAtoms = 10

type quadForm struct {
	ok     bool
	lt, eq *Term
	root   *Term // the affine form whose square it is, if any
}

// quadSign returns the conditions d<0 and d=0 for a quadratic d whose sign can be told by affine forms.
func (p *Pool) quadSign(d *Term) (lt, eq *Term, ok bool) {
	if d.op != OAdd && d.op != OMul {
		return nil, nil, false
	}
	if q, done := p.quads[d]; done {
		return q.lt, q.eq, q.ok
	}
	var root *Term
	lt, eq, root, ok = p.quadSign1(d)
	p.quads[d] = quadForm{ok, lt, eq, root}
	return
}

// quadRoot returns an affine form whose square is d, or nil.
func (p *Pool) quadRoot(d *Term) *Term {
	if _, _, ok := p.quadSign(d); !ok {
		return nil
	}
	return p.quads[d].root
}

func (p *Pool) quadSign1(d *Term) (lt, eq, root *Term, ok bool) {
	idx := map[*Term]int{}
	var atoms []*Term
	at := func(t *Term) int {
		i, have := idx[t]
		if !have {
			i = len(atoms)
			idx[t] = i
			atoms = append(atoms, t)
		}
		return i
	}
	type mono struct {
		c    *big.Rat
		i, j int // -1: none
	}
	var ms []mono
	one := big.NewRat(1, 1)
	quad := false
	parts := []*Term{d}
	if d.op == OAdd {
		parts = d.args
	}
	for _, t := range parts {
		c := one
		fs := []*Term{t}
		if t.isConst() {
			ms = append(ms, mono{t.rat, -1, -1})
			continue
		}
		if t.op == OMul {
			fs = t.args
			if fs[0].isConst() {
				c = fs[0].rat
				fs = fs[1:]
			}
		}
		switch len(fs) {
		case 1:
			ms = append(ms, mono{c, at(fs[0]), -1})
		case 2:
			quad = true
			ms = append(ms, mono{c, at(fs[0]), at(fs[1])})
		default:
			return nil, nil, nil, false
		}
		if len(atoms) > maxQuadAtoms {
			return nil, nil, nil, false
		}
	}
	if !quad {
		return nil, nil, nil, false
	}
	// homogenise: the last coordinate is the constant one
	n := len(atoms) + 1
	A := make([][]*big.Rat, n)
	for i := range A {
		A[i] = make([]*big.Rat, n)
		for j := range A[i] {
			A[i][j] = new(big.Rat)
		}
	}
	half := big.NewRat(1, 2)
	put := func(i, j int, c *big.Rat) {
		if i == j {
			A[i][i].Add(A[i][i], c)
			return
		}
		h := new(big.Rat).Mul(c, half)
		A[i][j].Add(A[i][j], h)
		A[j][i].Add(A[j][i], h)
	}
	for _, m := range ms {
		i, j := m.i, m.j
		if i < 0 {
			i = n - 1
		}
		if j < 0 {
			j = n - 1
		}
		put(i, j, m.c)
	}
	var ws []*big.Rat
	var ls [][]*big.Rat
	for {
		// pivot on a variable; the constant row comes last
		k := -1
		for i := 0; i < n; i++ {
			if A[i][i].Sign() != 0 {
				k = i
				break
			}
		}
		if k >= 0 {
			w := new(big.Rat).Set(A[k][k])
			l := make([]*big.Rat, n)
			for j := range l {
				l[j] = new(big.Rat).Quo(A[k][j], w)
			}
			ws, ls = append(ws, w), append(ls, l)
			subtract(A, w, l)
			continue
		}
		a, b := -1, -1
		for i := 0; i < n && a < 0; i++ {
			for j := i + 1; j < n; j++ {
				if A[i][j].Sign() != 0 {
					a, b = i, j
					break
				}
			}
		}
		if a < 0 {
			break
		}
		// 2A[a][b]·(row a)(row b)/A[a][b]² with zero diagonals: u·v = ((u+v)² − (u−v)²)/4
		w := new(big.Rat).Quo(big.NewRat(1, 2), A[a][b])
		u, v := A[a], A[b]
		l1, l2 := make([]*big.Rat, n), make([]*big.Rat, n)
		for j := range l1 {
			l1[j] = new(big.Rat).Add(u[j], v[j])
			l2[j] = new(big.Rat).Sub(u[j], v[j])
		}
		nw := new(big.Rat).Neg(w)
		ws, ls = append(ws, w, nw), append(ls, l1, l2)
		subtract(A, w, l1)
		subtract(A, nw, l2)
		if len(ws) > n {
			return nil, nil, nil, false
		}
	}
	form := func(l []*big.Rat) *Term {
		ts := make([]*Term, 0, n)
		for j, c := range l {
			if c.Sign() == 0 {
				continue
			}
			if j == n-1 {
				ts = append(ts, p.Rat(c))
			} else {
				ts = append(ts, p.Mul(p.Rat(c), atoms[j]))
			}
		}
		if len(ts) == 0 {
			return p.zero
		}
		return p.Add(ts...)
	}
	pos, neg := 0, 0
	for _, w := range ws {
		if w.Sign() > 0 {
			pos++
		} else {
			neg++
		}
	}
	if pos == 0 || neg == 0 {
		var z []*Term
		for _, l := range ls {
			z = append(z, p.Eq(form(l), p.zero))
		}
		eq = p.And(z...)
		if neg == 0 {
			if len(ws) == 1 {
				if r, sq := ratSqrt(ws[0]); sq {
					root = p.Mul(p.Rat(r), form(ls[0]))
				}
			}
			return p.ff, eq, root, true
		}
		return p.Not(eq), eq, nil, true
	}
	if pos == 1 && neg == 1 {
		i, j := 0, 1
		if ws[0].Sign() < 0 {
			i, j = 1, 0
		}
		r, sq := ratSqrt(new(big.Rat).Neg(new(big.Rat).Quo(ws[j], ws[i])))
		if !sq {
			return nil, nil, nil, false
		}
		l1, l2 := make([]*big.Rat, n), make([]*big.Rat, n)
		for k := range l1 {
			t := new(big.Rat).Mul(r, ls[j][k])
			l1[k] = new(big.Rat).Sub(ls[i][k], t)
			l2[k] = new(big.Rat).Add(ls[i][k], t)
		}
		f, g := form(l1), form(l2)
		f0, g0 := p.Lt(f, p.zero), p.Lt(g, p.zero)
		f1, g1 := p.Lt(p.zero, f), p.Lt(p.zero, g)
		return p.Or(p.And(f0, g1), p.And(f1, g0)), p.Or(p.Eq(f, p.zero), p.Eq(g, p.zero)), nil, true
	}
	return nil, nil, nil, false
}

// subtract removes w·l·lᵀ from A.
func subtract(A [][]*big.Rat, w *big.Rat, l []*big.Rat) {
	for i := range A {
		if l[i].Sign() == 0 {
			continue
		}
		t := new(big.Rat).Mul(w, l[i])
		for j := range A {
			if l[j].Sign() != 0 {
				A[i][j].Sub(A[i][j], new(big.Rat).Mul(t, l[j]))
			}
		}
	}
}

// sqrtArg returns x when t is sqrt(x).
func sqrtArg(t *Term) *Term {
	if t.op == OUF && t.name == "sqrt" {
		return t.args[0]
	}
	return nil
}

// sqrtLt compares square roots (of values already known to be non negative) without roots.
func (p *Pool) sqrtLt(a, b *Term) *Term {
	x, y := sqrtArg(a), sqrtArg(b)
	switch {
	case x != nil && y != nil:
		return p.Lt(x, y)
	case x != nil && b.isConst():
		if b.rat.Sign() <= 0 {
			return p.ff
		}
		return p.Lt(x, p.Mul(b, b))
	case y != nil && a.isConst():
		if a.rat.Sign() < 0 {
			return p.tt
		}
		return p.Lt(p.Mul(a, a), y)
	case x != nil && b.op == OVar:
		return p.And(p.Lt(p.zero, b), p.Lt(x, p.Mul(b, b)))
	case y != nil && a.op == OVar:
		return p.Or(p.Lt(a, p.zero), p.Lt(p.Mul(a, a), y))
	}
	return nil
}
