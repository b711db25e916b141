package main

import (
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Rational-function normal form: used to clear denominators in equalities before they are sent to the solver.

type mono struct {
	fs []int // sorted atom ids, with repetition
	c  *big.Rat
}

type poly map[string]*mono

type ratCtx struct {
	atoms map[int]*Term
	n     int
	memo  map[*Term]*ratf
}

type ratf struct{ n, d poly }

const maxMono = 4000

type tooBig struct{}

func mkey(fs []int) string {
	var sb strings.Builder
	for _, f := range fs {
		sb.WriteString(strconv.Itoa(f))
		sb.WriteByte(',')
	}
	return sb.String()
}

func polyConst(r *big.Rat) poly {
	if r.Sign() == 0 {
		return poly{}
	}
	return poly{"": &mono{nil, new(big.Rat).Set(r)}}
}

func (p poly) isOne() bool {
	if len(p) != 1 {
		return false
	}
	m, ok := p[""]
	return ok && m.c.Cmp(big.NewRat(1, 1)) == 0
}

func padd(a, b poly) poly {
	out := make(poly, len(a)+len(b))
	for k, m := range a {
		out[k] = m
	}
	for k, m := range b {
		if o, ok := out[k]; ok {
			s := new(big.Rat).Add(o.c, m.c)
			if s.Sign() == 0 {
				delete(out, k)
			} else {
				out[k] = &mono{m.fs, s}
			}
		} else {
			out[k] = m
		}
	}
	if len(out) > maxMono {
		panic(tooBig{})
	}
	return out
}

func (c *ratCtx) pmul(a, b poly) poly {
	if a.isOne() {
		return b
	}
	if b.isOne() {
		return a
	}
	if len(a)*len(b) > maxMono*10 {
		panic(tooBig{})
	}
	out := poly{}
	for _, x := range a {
		for _, y := range b {
			fs := append(append([]int{}, x.fs...), y.fs...)
			sort.Ints(fs)
			cf := new(big.Rat).Mul(x.c, y.c)
			// reduce squares of square roots with polynomial arguments
			red := -1
			for i := 0; i+1 < len(fs); i++ {
				if fs[i] == fs[i+1] {
					if t := c.atoms[fs[i]]; t != nil && t.op == OUF && t.name == "sqrt" {
						red = i
						break
					}
				}
			}
			if red >= 0 {
				t := c.atoms[fs[red]]
				arg := c.conv(t.args[0])
				if arg.d.isOne() {
					rest := append(append([]int{}, fs[:red]...), fs[red+2:]...)
					pr := c.pmul(poly{mkey(rest): &mono{rest, cf}}, arg.n)
					out = padd(out, pr)
					continue
				}
			}
			k := mkey(fs)
			if o, ok := out[k]; ok {
				s := new(big.Rat).Add(o.c, cf)
				if s.Sign() == 0 {
					delete(out, k)
				} else {
					out[k] = &mono{fs, s}
				}
			} else {
				out[k] = &mono{fs, cf}
			}
			if len(out) > maxMono {
				panic(tooBig{})
			}
		}
	}
	return out
}

func peq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for k, m := range a {
		o, ok := b[k]
		if !ok || o.c.Cmp(m.c) != 0 {
			return false
		}
	}
	return true
}

func (c *ratCtx) conv(t *Term) *ratf {
	if r, ok := c.memo[t]; ok {
		return r
	}
	one := polyConst(big.NewRat(1, 1))
	var r *ratf
	switch t.op {
	case OConst:
		r = &ratf{polyConst(t.rat), one}
	case OAdd:
		r = &ratf{poly{}, one}
		for _, a := range t.args {
			x := c.conv(a)
			if peq(r.d, x.d) {
				r = &ratf{padd(r.n, x.n), r.d}
			} else if x.d.isOne() {
				r = &ratf{padd(r.n, c.pmul(x.n, r.d)), r.d}
			} else if r.d.isOne() {
				r = &ratf{padd(c.pmul(r.n, x.d), x.n), x.d}
			} else {
				r = &ratf{padd(c.pmul(r.n, x.d), c.pmul(x.n, r.d)), c.pmul(r.d, x.d)}
			}
		}
	case OMul:
		r = &ratf{one, one}
		for _, a := range t.args {
			x := c.conv(a)
			if peq(r.n, x.d) && !x.d.isOne() {
				r = &ratf{x.n, r.d}
				continue
			}
			if peq(x.n, r.d) && !r.d.isOne() {
				r = &ratf{r.n, x.d}
				continue
			}
			r = &ratf{c.pmul(r.n, x.n), c.pmul(r.d, x.d)}
		}
	case ODiv:
		x, y := c.conv(t.args[0]), c.conv(t.args[1])
		r = &ratf{c.pmul(x.n, y.d), c.pmul(x.d, y.n)}
	default:
		c.atoms[t.id] = t
		r = &ratf{poly{t2key(t): &mono{[]int{t.id}, big.NewRat(1, 1)}}, one}
	}
	c.memo[t] = r
	return r
}

func t2key(t *Term) string { return mkey([]int{t.id}) }

// diffNumerator returns a polynomial term N with a-b = N/D, D non zero on the path. ok is false when it is too large.
func (p *Pool) diffNumerator(a, b *Term) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(tooBig); is {
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	c := &ratCtx{atoms: map[int]*Term{}, memo: map[*Term]*ratf{}}
	x, y := c.conv(a), c.conv(b)
	neg := polyConst(big.NewRat(-1, 1))
	var n poly
	if peq(x.d, y.d) {
		n = padd(x.n, c.pmul(neg, y.n))
	} else {
		n = padd(c.pmul(x.n, y.d), c.pmul(neg, c.pmul(y.n, x.d)))
	}
	if len(n) == 0 {
		return p.zero, true
	}
	if len(n) > 400 {
		return nil, false
	}
	keys := make([]string, 0, len(n))
	for k := range n {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	var sum []*Term
	for _, k := range keys {
		m := n[k]
		args := []*Term{}
		if m.c.Cmp(p.one.rat) != 0 {
			args = append(args, p.Rat(m.c))
		}
		for _, f := range m.fs {
			args = append(args, c.atoms[f])
		}
		switch len(args) {
		case 0:
			sum = append(sum, p.one)
		case 1:
			sum = append(sum, args[0])
		default:
			sum = append(sum, p.intern(&Term{op: OMul, sort: SReal, args: args}))
		}
	}
	if len(sum) == 1 {
		return sum[0], true
	}
	return p.intern(&Term{op: OAdd, sort: SReal, args: sum}), true
}
