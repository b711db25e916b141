package main

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"strings"
)

// Sort of an SMT term. Bit-vectors carry their width in Term.width.
type Sort uint8

const (
	SBool Sort = iota
	SReal
	SBV
)

// Op is a term constructor.
type Op uint8

const (
	OVar Op = iota
	OConst
	ONot
	OAnd
	OOr
	OEq
	OIte
	OLt
	OLe
	OAdd
	OMul
	ODiv
	OToIntFloor // real -> real (integer valued floor)
	OUF         // uninterpreted real function application (exp, log, ...)
	OBin        // bit-vector binary op, name holds the SMT op
	OBVNeg
	OBVNot
	OBVCmp // name holds op
	OExt   // sign/zero extend or extract: name holds full op
	OBV2Real
)

// Term is a hash-consed SMT term.
type Term struct {
	id    int
	op    Op
	sort  Sort
	width uint8
	args  []*Term
	rat   *big.Rat
	bv    uint64
	b     bool
	name  string
	gen   int // solver generation in which it was defined
}

// Pool hash-conses terms for one worker.
type Pool struct {
	tab   map[string]*Term
	next  int
	tt    *Term
	ff    *Term
	one   *Term
	zero  *Term
	quads map[*Term]quadForm
}

func newPool() *Pool {
	p := &Pool{tab: map[string]*Term{}, quads: map[*Term]quadForm{}}
	p.tt = p.intern(&Term{op: OConst, sort: SBool, b: true})
	p.ff = p.intern(&Term{op: OConst, sort: SBool, b: false})
	p.zero = p.Rat(new(big.Rat))
	p.one = p.Rat(big.NewRat(1, 1))
	return p
}

func (p *Pool) intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte(t.op) + 'A')
	sb.WriteByte(byte(t.sort) + '0')
	if t.sort == SBV {
		sb.WriteString(strconv.Itoa(int(t.width)))
	}
	sb.WriteString(t.name)
	if t.op == OConst {
		switch t.sort {
		case SBool:
			if t.b {
				sb.WriteByte('t')
			}
		case SReal:
			sb.WriteString(t.rat.RatString())
		case SBV:
			sb.WriteString(strconv.FormatUint(t.bv, 16))
		}
	}
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	k := sb.String()
	if o, ok := p.tab[k]; ok {
		return o
	}
	p.next++
	t.id = p.next
	t.gen = -1
	p.tab[k] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

// Rat makes a real constant.
func (p *Pool) Rat(r *big.Rat) *Term { return p.intern(&Term{op: OConst, sort: SReal, rat: r}) }

// Float makes a real constant from a finite float.
func (p *Pool) Float(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return p.Rat(r)
}

// Bool constant.
func (p *Pool) Bool(b bool) *Term {
	if b {
		return p.tt
	}
	return p.ff
}

// BV constant.
func (p *Pool) BV(v uint64, w int) *Term {
	if w < 64 {
		v &= 1<<uint(w) - 1
	}
	return p.intern(&Term{op: OConst, sort: SBV, width: uint8(w), bv: v})
}

// Var declares a variable.
func (p *Pool) Var(name string, s Sort, w int) *Term {
	return p.intern(&Term{op: OVar, sort: s, width: uint8(w), name: name})
}

func (p *Pool) Not(a *Term) *Term {
	if a.isConst() {
		return p.Bool(!a.b)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return p.intern(&Term{op: ONot, sort: SBool, args: []*Term{a}})
}

func (p *Pool) And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isConst() {
			if !a.b {
				return p.ff
			}
			continue
		}
		if seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0]] {
			return p.ff
		}
	}
	switch len(out) {
	case 0:
		return p.tt
	case 1:
		return out[0]
	}
	return p.intern(&Term{op: OAnd, sort: SBool, args: out})
}

func (p *Pool) Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.isConst() {
			if a.b {
				return p.tt
			}
			continue
		}
		if seen[a] {
			continue
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a.op == ONot && seen[a.args[0]] {
			return p.tt
		}
	}
	switch len(out) {
	case 0:
		return p.ff
	case 1:
		return out[0]
	}
	return p.intern(&Term{op: OOr, sort: SBool, args: out})
}

func (p *Pool) Eq(a, b *Term) *Term {
	if a == b {
		return p.tt
	}
	if a.isConst() && b.isConst() {
		switch a.sort {
		case SBool:
			return p.Bool(a.b == b.b)
		case SReal:
			return p.Bool(a.rat.Cmp(b.rat) == 0)
		case SBV:
			return p.Bool(a.bv == b.bv)
		}
	}
	if a.sort == SBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.b {
				return a
			}
			return p.Not(a)
		}
	}
	if a.sort == SReal {
		// canonicalise via difference where it is cheap
		d := p.Sub(a, b)
		if d.isConst() {
			return p.Bool(d.rat.Sign() == 0)
		}
		if _, eq, ok := p.quadSign(d); ok {
			return eq
		}
		if a.op == OIte && b.isConst() && a.args[1].isConst() && a.args[2].isConst() {
			return p.Ite(a.args[0], p.Eq(a.args[1], b), p.Eq(a.args[2], b))
		}
		if b.op == OIte && a.isConst() && b.args[1].isConst() && b.args[2].isConst() {
			return p.Ite(b.args[0], p.Eq(b.args[1], a), p.Eq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return p.intern(&Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func (p *Pool) Ite(c, a, b *Term) *Term {
	if c.isConst() {
		if c.b {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a.isConst() && b.isConst() {
			if a.b {
				return c
			}
			return p.Not(c)
		}
		if a.isConst() {
			if a.b {
				return p.Or(c, b)
			}
			return p.And(p.Not(c), b)
		}
		if b.isConst() {
			if b.b {
				return p.Or(p.Not(c), a)
			}
			return p.And(c, a)
		}
	}
	if c.op == ONot {
		return p.Ite(c.args[0], b, a)
	}
	return p.intern(&Term{op: OIte, sort: a.sort, width: a.width, args: []*Term{c, a, b}})
}

func (p *Pool) Lt(a, b *Term) *Term {
	if a == b {
		return p.ff
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.rat.Cmp(b.rat) < 0)
	}
	if d := p.Sub(a, b); d.isConst() {
		return p.Bool(d.rat.Sign() < 0)
	} else if r := p.sqrtLt(a, b); r != nil {
		return r
	} else if lt, _, ok := p.quadSign(d); ok {
		return lt
	}
	return p.intern(&Term{op: OLt, sort: SBool, args: []*Term{a, b}})
}

func (p *Pool) Le(a, b *Term) *Term {
	if a == b {
		return p.tt
	}
	if a.isConst() && b.isConst() {
		return p.Bool(a.rat.Cmp(b.rat) <= 0)
	}
	return p.Not(p.Lt(b, a))
}

// Add builds an n-ary normalised sum: constant folded, like terms (by atom) collected.
func (p *Pool) Add(as ...*Term) *Term {
	coef := map[*Term]*big.Rat{}
	var order []*Term
	k := new(big.Rat)
	var add func(t *Term, c *big.Rat)
	add = func(t *Term, c *big.Rat) {
		switch {
		case t.op == OConst:
			k.Add(k, new(big.Rat).Mul(c, t.rat))
		case t.op == OAdd:
			for _, x := range t.args {
				add(x, c)
			}
		case t.op == OMul && t.args[0].isConst():
			rest := t.args[1:]
			var a *Term
			if len(rest) == 1 {
				a = rest[0]
			} else {
				a = p.intern(&Term{op: OMul, sort: SReal, args: rest})
			}
			c2 := new(big.Rat).Mul(c, t.args[0].rat)
			if a.op == OAdd {
				add(a, c2)
				return
			}
			if o, ok := coef[a]; ok {
				o.Add(o, c2)
			} else {
				coef[a] = c2
				order = append(order, a)
			}
		default:
			if o, ok := coef[t]; ok {
				o.Add(o, c)
			} else {
				coef[t] = new(big.Rat).Set(c)
				order = append(order, t)
			}
		}
	}
	one := big.NewRat(1, 1)
	for _, a := range as {
		add(a, one)
	}
	var out []*Term
	// order by id for canonical form
	sortTerms(order)
	for _, t := range order {
		c := coef[t]
		if c.Sign() == 0 {
			continue
		}
		if c.Cmp(one) == 0 {
			out = append(out, t)
		} else {
			out = append(out, p.mulConst(c, t))
		}
	}
	if len(out) == 0 {
		return p.Rat(k)
	}
	if k.Sign() != 0 {
		out = append(out, p.Rat(k))
	}
	if len(out) == 1 {
		return out[0]
	}
	return p.intern(&Term{op: OAdd, sort: SReal, args: out})
}

func sortTerms(ts []*Term) {
	for i := 1; i < len(ts); i++ {
		for j := i; j > 0 && ts[j].id < ts[j-1].id; j-- {
			ts[j], ts[j-1] = ts[j-1], ts[j]
		}
	}
}

func (p *Pool) mulConst(c *big.Rat, t *Term) *Term {
	if c.Sign() == 0 {
		return p.zero
	}
	if c.Cmp(p.one.rat) == 0 {
		return t
	}
	args := []*Term{p.Rat(c)}
	if t.op == OMul {
		args = append(args, t.args...)
	} else {
		args = append(args, t)
	}
	return p.intern(&Term{op: OMul, sort: SReal, args: args})
}

const maxExpand = 48

// Mul multiplies, distributing over small sums so that equal polynomials get equal terms.
func (p *Pool) Mul(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return p.Rat(new(big.Rat).Mul(a.rat, b.rat))
	}
	if b.isConst() {
		a, b = b, a
	}
	if a.isConst() {
		if a.rat.Sign() == 0 {
			return p.zero
		}
		if a.rat.Cmp(p.one.rat) == 0 {
			return b
		}
		if b.op == OAdd {
			out := make([]*Term, len(b.args))
			for i, x := range b.args {
				out[i] = p.Mul(a, x)
			}
			return p.Add(out...)
		}
		if b.op == OMul && b.args[0].isConst() {
			c := new(big.Rat).Mul(a.rat, b.args[0].rat)
			rest := b.args[1:]
			if len(rest) == 1 {
				return p.mulConst(c, rest[0])
			}
			if c.Cmp(p.one.rat) == 0 {
				return p.intern(&Term{op: OMul, sort: SReal, args: rest})
			}
			return p.intern(&Term{op: OMul, sort: SReal, args: append([]*Term{p.Rat(c)}, rest...)})
		}
		return p.mulConst(a.rat, b)
	}
	if a == b && a.op == OIte && a.args[1] == p.Neg(a.args[2]) {
		return p.Mul(a.args[2], a.args[2]) // |t|*|t|
	}
	if r := p.cancel(a, b); r != nil {
		return r
	}
	if r := p.cancel(b, a); r != nil {
		return r
	}
	na, nb := 1, 1
	if a.op == OAdd {
		na = len(a.args)
	}
	if b.op == OAdd {
		nb = len(b.args)
	}
	if (na > 1 || nb > 1) && na*nb <= maxExpand {
		aa, bb := []*Term{a}, []*Term{b}
		if na > 1 {
			aa = a.args
		}
		if nb > 1 {
			bb = b.args
		}
		out := make([]*Term, 0, na*nb)
		for _, x := range aa {
			for _, y := range bb {
				out = append(out, p.Mul(x, y))
			}
		}
		return p.Add(out...)
	}
	// monomial product: sort factors
	c := big.NewRat(1, 1)
	var fs []*Term
	add := func(t *Term) {
		if t.op == OMul {
			for _, x := range t.args {
				if x.isConst() {
					c.Mul(c, x.rat)
				} else {
					fs = append(fs, x)
				}
			}
		} else {
			fs = append(fs, t)
		}
	}
	add(a)
	add(b)
	sortTerms(fs)
	// f * 1/f cancels (f is non zero wherever 1/f was built); sqrt(x)*sqrt(x) is x
	for again := true; again; {
		again = false
	scan:
		for i, x := range fs {
			if x.op == ODiv {
				for j, y := range fs {
					if y == x.args[1] {
						fs = dropTwo(fs, i, j)
						again = true
						break scan
					}
				}
			}
			if x.op == OUF && x.name == "sqrt" && i+1 < len(fs) && fs[i+1] == x {
				rest := p.one
				for j, y := range fs {
					if j != i && j != i+1 {
						rest = p.Mul(rest, y)
					}
				}
				return p.Mul(p.Mul(p.Rat(c), rest), x.args[0])
			}
		}
	}
	if len(fs) == 0 {
		return p.Rat(c)
	}
	if c.Cmp(p.one.rat) != 0 {
		fs = append([]*Term{p.Rat(c)}, fs...)
	}
	if len(fs) == 1 {
		return fs[0]
	}
	return p.intern(&Term{op: OMul, sort: SReal, args: fs})
}

func dropTwo(fs []*Term, i, j int) []*Term {
	out := make([]*Term, 0, len(fs))
	for k, x := range fs {
		if k != i && k != j {
			out = append(out, x)
		}
	}
	return out
}

// cancel simplifies a*b when a has the factor 1/b.
func (p *Pool) cancel(a, b *Term) *Term {
	if a.op == ODiv && a.args[1] == b {
		return a.args[0]
	}
	if a.op == OMul && b.op == OAdd {
		for i, x := range a.args {
			if x.op == ODiv && x.args[1] == b {
				r := p.one
				for j, y := range a.args {
					if j != i {
						r = p.Mul(r, y)
					}
				}
				return r
			}
		}
	}
	return nil
}

func (p *Pool) Neg(a *Term) *Term    { return p.Mul(p.Rat(big.NewRat(-1, 1)), a) }
func (p *Pool) Sub(a, b *Term) *Term { return p.Add(a, p.Neg(b)) }

// Div divides by a denominator known to be non zero on the current path.
func (p *Pool) Div(a, b *Term) *Term {
	if b.isConst() {
		return p.Mul(p.Rat(new(big.Rat).Inv(b.rat)), a)
	}
	if a.isConst() && a.rat.Sign() == 0 {
		return p.zero
	}
	if a == b {
		return p.one
	}
	if a.op == OAdd || a.op == OMul && a.args[0].isConst() || a.isConst() && a.rat.Cmp(p.one.rat) != 0 {
		// factor through the reciprocal so equal quotients are shared
		return p.Mul(a, p.Div(p.one, b))
	}
	if a == p.one {
		if b.op == OMul {
			r := p.one
			for _, f := range b.args {
				r = p.Mul(r, p.Div(p.one, f))
			}
			return r
		}
		if b.op == ODiv && b.args[0] == p.one {
			return b.args[1]
		}
		return p.intern(&Term{op: ODiv, sort: SReal, args: []*Term{a, b}})
	}
	return p.Mul(a, p.Div(p.one, b))
}

func (p *Pool) UF(name string, args ...*Term) *Term {
	return p.intern(&Term{op: OUF, sort: SReal, name: name, args: args})
}

func (p *Pool) Floor(a *Term) *Term {
	if a.isConst() {
		q := new(big.Int)
		m := new(big.Int)
		q.DivMod(a.rat.Num(), a.rat.Denom(), m)
		return p.Rat(new(big.Rat).SetInt(q))
	}
	return p.intern(&Term{op: OToIntFloor, sort: SReal, args: []*Term{a}})
}

func sext(v uint64, w int) int64 {
	if w == 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

// BVBin builds a bit-vector binary operation.
func (p *Pool) BVBin(op string, a, b *Term) *Term {
	w := int(a.width)
	if a.isConst() && b.isConst() {
		x, y := a.bv, b.bv
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case "bvadd":
			return p.BV(x+y, w)
		case "bvsub":
			return p.BV(x-y, w)
		case "bvmul":
			return p.BV(x*y, w)
		case "bvand":
			return p.BV(x&y, w)
		case "bvor":
			return p.BV(x|y, w)
		case "bvxor":
			return p.BV(x^y, w)
		case "bvsdiv":
			if sy != 0 {
				return p.BV(uint64(sx/sy), w)
			}
		case "bvsrem":
			if sy != 0 {
				return p.BV(uint64(sx%sy), w)
			}
		case "bvudiv":
			if y != 0 {
				return p.BV(x/y, w)
			}
		case "bvurem":
			if y != 0 {
				return p.BV(x%y, w)
			}
		}
	}
	if b.isConst() && b.bv == 0 && (op == "bvadd" || op == "bvsub" || op == "bvor" || op == "bvxor" || op == "bvshl" || op == "bvlshr" || op == "bvashr") {
		return a
	}
	if a.isConst() && a.bv == 0 && (op == "bvadd" || op == "bvor" || op == "bvxor") {
		return b
	}
	if op == "bvmul" {
		if a.isConst() && a.bv == 1 {
			return b
		}
		if b.isConst() && b.bv == 1 {
			return a
		}
	}
	return p.intern(&Term{op: OBin, sort: SBV, width: a.width, name: op, args: []*Term{a, b}})
}

// BVCmp builds a bit-vector comparison.
func (p *Pool) BVCmp(op string, a, b *Term) *Term {
	w := int(a.width)
	if a.isConst() && b.isConst() {
		x, y := a.bv, b.bv
		sx, sy := sext(x, w), sext(y, w)
		switch op {
		case "bvslt":
			return p.Bool(sx < sy)
		case "bvsle":
			return p.Bool(sx <= sy)
		case "bvult":
			return p.Bool(x < y)
		case "bvule":
			return p.Bool(x <= y)
		}
	}
	if a == b {
		return p.Bool(op == "bvsle" || op == "bvule")
	}
	return p.intern(&Term{op: OBVCmp, sort: SBool, name: op, args: []*Term{a, b}})
}

func (p *Pool) BVNeg(a *Term) *Term {
	if a.isConst() {
		return p.BV(-a.bv, int(a.width))
	}
	return p.intern(&Term{op: OBVNeg, sort: SBV, width: a.width, args: []*Term{a}})
}

func (p *Pool) BVNot(a *Term) *Term {
	if a.isConst() {
		return p.BV(^a.bv, int(a.width))
	}
	return p.intern(&Term{op: OBVNot, sort: SBV, width: a.width, args: []*Term{a}})
}

// BVConv converts width.
func (p *Pool) BVConv(a *Term, w int, signed bool) *Term {
	aw := int(a.width)
	if aw == w {
		return a
	}
	if a.isConst() {
		if signed {
			return p.BV(uint64(sext(a.bv, aw)), w)
		}
		return p.BV(a.bv, w)
	}
	var op string
	if w < aw {
		op = fmt.Sprintf("(_ extract %d 0)", w-1)
	} else if signed {
		op = fmt.Sprintf("(_ sign_extend %d)", w-aw)
	} else {
		op = fmt.Sprintf("(_ zero_extend %d)", w-aw)
	}
	return p.intern(&Term{op: OExt, sort: SBV, width: uint8(w), name: op, args: []*Term{a}})
}

func ratSMT(r *big.Rat) string {
	neg := r.Sign() < 0
	a := new(big.Rat).Abs(r)
	var s string
	if a.IsInt() {
		s = a.Num().String() + ".0"
	} else {
		s = "(/ " + a.Num().String() + ".0 " + a.Denom().String() + ".0)"
	}
	if neg {
		return "(- " + s + ")"
	}
	return s
}

func (t *Term) sortSMT() string {
	switch t.sort {
	case SBool:
		return "Bool"
	case SReal:
		return "Real"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.width)
}

// ref is how a term is referenced in SMT-LIB once defined.
func (t *Term) ref() string {
	switch t.op {
	case OVar:
		return "|" + t.name + "|"
	case OConst:
		switch t.sort {
		case SBool:
			if t.b {
				return "true"
			}
			return "false"
		case SReal:
			return ratSMT(t.rat)
		case SBV:
			return fmt.Sprintf("(_ bv%d %d)", t.bv, t.width)
		}
	}
	return "t" + strconv.Itoa(t.id)
}

func (t *Term) body() string {
	var op string
	switch t.op {
	case ONot:
		op = "not"
	case OAnd:
		op = "and"
	case OOr:
		op = "or"
	case OEq:
		op = "="
	case OIte:
		op = "ite"
	case OLt:
		op = "<"
	case OLe:
		op = "<="
	case OAdd:
		op = "+"
	case OMul:
		op = "*"
	case ODiv:
		op = "/"
	case OToIntFloor:
		return "(to_real (to_int " + t.args[0].ref() + "))"
	case OUF:
		op = "uf_" + t.name
	case OBin, OBVCmp, OExt:
		op = t.name
	case OBVNeg:
		op = "bvneg"
	case OBVNot:
		op = "bvnot"
	case OBV2Real:
		return "(to_real (bv2nat " + t.args[0].ref() + "))"
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string { return t.str(4) }

func (t *Term) str(d int) string {
	if t.op == OVar || t.op == OConst {
		if t.op == OConst && t.sort == SReal {
			f, _ := t.rat.Float64()
			return strconv.FormatFloat(f, 'g', -1, 64)
		}
		return t.ref()
	}
	if d == 0 {
		return "..."
	}
	var parts []string
	for _, a := range t.args {
		parts = append(parts, a.str(d-1))
	}
	n := map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OLt: "<", OLe: "<=", OAdd: "+", OMul: "*", ODiv: "/", OToIntFloor: "floor"}[t.op]
	if n == "" {
		n = t.name
	}
	return "(" + n + " " + strings.Join(parts, " ") + ")"
}

func ratToFloat(r *big.Rat) float64 {
	f, _ := r.Float64()
	return f
}

func finite(f float64) bool { return !math.IsInf(f, 0) && !math.IsNaN(f) }
