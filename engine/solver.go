package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a solver query.
type Result int

const (
	Unknown Result = iota
	Sat
	Unsat
)

func (r Result) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

// Stats are global solver statistics.
type Stats struct {
	Queries, Sat, Unsat, Unknown, Portfolio int64
	Nanos                                   int64
	Errors                                  int64
}

var stats Stats

// Solver drives one incremental z3 process.
type Solver struct {
	bin   string
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	stack []*Term
	gen   int
	defs  int
	pool  *Pool
	buf   bytes.Buffer
	ufs   map[string]bool
	scr   string
}

func newSolver(p *Pool) *Solver {
	s := &Solver{bin: solverBin, pool: p}
	s.start()
	return s
}

var solverBin = "z3-new"

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2", "-memory:3000")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = nil
	s.ufs = map[string]bool{}
	s.defs = 0
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :pp.decimal false)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.stop()
	s.start()
}

// define emits definitions for every sub-term not yet defined in this solver generation.
func (s *Solver) define(t *Term) {
	if t.gen == s.gen || t.op == OConst {
		return
	}
	for _, a := range t.args {
		s.define(a)
	}
	emitDef(&s.buf, t, s.ufs)
	t.gen = s.gen
	s.defs++
}

func emitDef(w *bytes.Buffer, t *Term, ufs map[string]bool) {
	switch t.op {
	case OConst:
	case OVar:
		fmt.Fprintf(w, "(declare-const %s %s)\n", t.ref(), t.sortSMT())
	default:
		if t.op == OUF && t.name == "sqrt" {
			fmt.Fprintf(w, "(declare-const %s Real)\n", t.ref())
			return
		}
		if t.op == OUF && !ufs[t.name] {
			ufs[t.name] = true
			fmt.Fprintf(w, "(declare-fun uf_%s (%s) Real)\n", t.name, strings.TrimSpace(strings.Repeat("Real ", len(t.args))))
		}
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", t.ref(), t.sortSMT(), t.body())
	}
}

// sync makes the assertion stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	if s.defs > 60000 {
		s.restart()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(&s.buf, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		s.define(t)
		fmt.Fprintf(&s.buf, "(push)\n(assert %s)\n", t.ref())
		s.stack = append(s.stack, t)
	}
}

func (s *Solver) flush() error {
	_, err := s.in.Write(s.buf.Bytes())
	s.buf.Reset()
	return err
}

// readLine reads one line, restarting when the solver dies.
func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra. When values is non-nil and the answer is sat, they are evaluated in the model.
func (s *Solver) Check(pc []*Term, extra []*Term, timeoutMs int, values []*Term) (Result, map[*Term]string) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		atomic.AddInt64(&stats.Nanos, int64(d))
		if debug && d > 2*time.Second {
			fmt.Fprintf(os.Stderr, "slow query %.1fs: pc of %d, extra:", d.Seconds(), len(pc))
			for _, e := range extra {
				fmt.Fprintf(os.Stderr, " %.700s", e.String())
			}
			fmt.Fprintln(os.Stderr)
		}
	}()
	atomic.AddInt64(&stats.Queries, 1)
	s.sync(pc)
	for _, e := range extra {
		s.define(e)
	}
	for _, v := range values {
		s.define(v)
	}
	fmt.Fprintf(&s.buf, "(set-option :timeout %d)\n(push)\n", timeoutMs)
	for _, e := range extra {
		fmt.Fprintf(&s.buf, "(assert %s)\n", e.ref())
	}
	s.buf.WriteString("(check-sat)\n")
	res := Unknown
	if err := s.flush(); err != nil {
		s.restart()
		atomic.AddInt64(&stats.Errors, 1)
		return Unknown, nil
	}
	type rl struct {
		l   string
		err error
	}
	ch := make(chan rl, 1)
	go func() {
		for {
			l, err := s.readLine()
			if err == nil && l == "" {
				continue
			}
			ch <- rl{l, err}
			return
		}
	}()
	var r rl
	select {
	case r = <-ch:
	case <-time.After(time.Duration(timeoutMs)*time.Millisecond*3 + 5*time.Second):
		s.cmd.Process.Kill()
		<-ch
		r = rl{"", io.EOF}
	}
	if r.err != nil {
		s.restart()
		atomic.AddInt64(&stats.Unknown, 1)
		return Unknown, nil
	}
	switch {
	case r.l == "sat":
		res = Sat
		atomic.AddInt64(&stats.Sat, 1)
	case r.l == "unsat":
		res = Unsat
		atomic.AddInt64(&stats.Unsat, 1)
	default:
		if strings.HasPrefix(r.l, "(error") {
			atomic.AddInt64(&stats.Errors, 1)
			if debug {
				fmt.Fprintln(os.Stderr, "solver error:", r.l)
			}
			s.restart()
			return Unknown, nil
		}
		atomic.AddInt64(&stats.Unknown, 1)
	}
	var vals map[*Term]string
	if res == Sat && len(values) > 0 {
		vals = map[*Term]string{}
		for _, v := range values {
			fmt.Fprintf(&s.buf, "(get-value (%s))\n", v.ref())
		}
		s.flush()
		for _, v := range values {
			e, err := readSexp(s.out)
			if err != nil {
				s.restart()
				return res, nil
			}
			vals[v] = e
		}
	}
	s.buf.WriteString("(pop)\n")
	return res, vals
}

// readSexp reads one balanced s-expression.
func readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	for {
		c, err := r.ReadByte()
		if err != nil {
			return "", err
		}
		if depth == 0 && (c == '\n' || c == ' ' || c == '\r') {
			continue
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
		} else if c == ')' {
			depth--
			if depth == 0 {
				return sb.String(), nil
			}
		}
	}
}

// sexp is a parsed s-expression.
type sexp struct {
	atom string
	list []*sexp
}

func parseSexp(s string) *sexp {
	pos := 0
	var parse func() *sexp
	parse = func() *sexp {
		for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
			pos++
		}
		if pos >= len(s) {
			return nil
		}
		if s[pos] == '(' {
			pos++
			e := &sexp{}
			for {
				for pos < len(s) && (s[pos] == ' ' || s[pos] == '\n') {
					pos++
				}
				if pos >= len(s) {
					return e
				}
				if s[pos] == ')' {
					pos++
					return e
				}
				e.list = append(e.list, parse())
			}
		}
		st := pos
		if s[pos] == '|' {
			pos++
			for pos < len(s) && s[pos] != '|' {
				pos++
			}
			pos++
			return &sexp{atom: s[st:pos]}
		}
		for pos < len(s) && s[pos] != ' ' && s[pos] != ')' && s[pos] != '(' && s[pos] != '\n' {
			pos++
		}
		return &sexp{atom: s[st:pos]}
	}
	return parse()
}

// evalReal evaluates a model value; algebraic numbers are approximated.
func evalReal(e *sexp) (*big.Rat, bool) {
	if e == nil {
		return nil, false
	}
	if e.list == nil {
		r, ok := new(big.Rat).SetString(strings.TrimSuffix(e.atom, "?"))
		return r, ok
	}
	if len(e.list) == 0 {
		return nil, false
	}
	switch e.list[0].atom {
	case "-":
		if len(e.list) == 2 {
			r, ok := evalReal(e.list[1])
			if !ok {
				return nil, false
			}
			return new(big.Rat).Neg(r), true
		}
		a, ok1 := evalReal(e.list[1])
		b, ok2 := evalReal(e.list[2])
		if !ok1 || !ok2 {
			return nil, false
		}
		return new(big.Rat).Sub(a, b), true
	case "/":
		a, ok1 := evalReal(e.list[1])
		b, ok2 := evalReal(e.list[2])
		if !ok1 || !ok2 || b.Sign() == 0 {
			return nil, false
		}
		return new(big.Rat).Quo(a, b), true
	case "root-obj":
		return rootObj(e)
	}
	return nil, false
}

// rootObj approximates (root-obj poly k): the k-th real root of a univariate polynomial.
func rootObj(e *sexp) (*big.Rat, bool) {
	if len(e.list) != 3 {
		return nil, false
	}
	var k int
	fmt.Sscan(e.list[2].atom, &k)
	coef := map[int]*big.Rat{}
	addTo := func(d int, c *big.Rat) {
		if o, ok := coef[d]; ok {
			o.Add(o, c)
		} else {
			coef[d] = new(big.Rat).Set(c)
		}
	}
	var mono func(e *sexp) (int, *big.Rat, bool)
	mono = func(e *sexp) (int, *big.Rat, bool) {
		if e.list == nil {
			if e.atom == "x" {
				return 1, big.NewRat(1, 1), true
			}
			r, ok := evalReal(e)
			return 0, r, ok
		}
		switch e.list[0].atom {
		case "*":
			d, c := 0, big.NewRat(1, 1)
			for _, a := range e.list[1:] {
				d1, c1, ok := mono(a)
				if !ok {
					return 0, nil, false
				}
				d += d1
				c.Mul(c, c1)
			}
			return d, c, true
		case "^":
			var n int
			fmt.Sscan(e.list[2].atom, &n)
			return n, big.NewRat(1, 1), true
		case "-":
			if len(e.list) == 2 {
				d, c, ok := mono(e.list[1])
				if !ok {
					return 0, nil, false
				}
				return d, c.Neg(c), true
			}
		}
		r, ok := evalReal(e)
		return 0, r, ok
	}
	var poly func(e *sexp, sg int64) bool
	poly = func(e *sexp, sg int64) bool {
		if e.list != nil && (e.list[0].atom == "+" || e.list[0].atom == "-" && len(e.list) > 2) {
			for i, a := range e.list[1:] {
				s2 := sg
				if e.list[0].atom == "-" && i > 0 {
					s2 = -sg
				}
				if !poly(a, s2) {
					return false
				}
			}
			return true
		}
		d, c, ok := mono(e)
		if !ok {
			return false
		}
		addTo(d, new(big.Rat).Mul(c, big.NewRat(sg, 1)))
		return true
	}
	if !poly(e.list[1], 1) {
		return nil, false
	}
	f := func(x float64) float64 {
		v := 0.0
		for d, c := range coef {
			cf, _ := c.Float64()
			t := cf
			for i := 0; i < d; i++ {
				t *= x
			}
			v += t
		}
		return v
	}
	// scan for sign changes
	B := 1.0
	for _, c := range coef {
		cf, _ := c.Float64()
		if cf < 0 {
			cf = -cf
		}
		if cf > B {
			B = cf
		}
	}
	B = B*2 + 2
	if B > 1e6 {
		B = 1e6
	}
	const N = 200000
	found := 0
	px, pv := -B, f(-B)
	for i := 1; i <= N; i++ {
		x := -B + 2*B*float64(i)/N
		v := f(x)
		if pv == 0 || (pv < 0) != (v < 0) {
			found++
			if found == k {
				lo, hi := px, x
				flo := pv
				for it := 0; it < 200; it++ {
					mid := (lo + hi) / 2
					fm := f(mid)
					if (fm < 0) == (flo < 0) {
						lo = mid
					} else {
						hi = mid
					}
				}
				r := new(big.Rat)
				r.SetFloat64(lo)
				return r, true
			}
		}
		px, pv = x, v
	}
	return nil, false
}

// script renders a standalone query.
func script(cons []*Term, logic string, values []*Term) string {
	var w bytes.Buffer
	if logic != "" {
		fmt.Fprintf(&w, "(set-logic %s)\n", logic)
	}
	ufs := map[string]bool{}
	seen := map[*Term]bool{}
	var def func(t *Term)
	def = func(t *Term) {
		if seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			def(a)
		}
		emitDef(&w, t, ufs)
	}
	for _, c := range cons {
		def(c)
	}
	for _, v := range values {
		def(v)
	}
	for _, c := range cons {
		fmt.Fprintf(&w, "(assert %s)\n", c.ref())
	}
	w.WriteString("(check-sat)\n")
	for _, v := range values {
		fmt.Fprintf(&w, "(get-value (%s))\n", v.ref())
	}
	return w.String()
}

func hasUF(cons []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OUF && t.name != "sqrt" || t.op == OToIntFloor || t.sort == SBV {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	for _, c := range cons {
		if f(c) {
			return true
		}
	}
	return false
}

// Portfolio runs several solvers on a standalone query and takes the first definite answer.
func Portfolio(cons []*Term, timeout time.Duration, values []*Term) (Result, map[*Term]string, string) {
	t0 := time.Now()
	atomic.AddInt64(&stats.Portfolio, 1)
	atomic.AddInt64(&stats.Queries, 1)
	defer func() { atomic.AddInt64(&stats.Nanos, int64(time.Since(t0))) }()
	uf := hasUF(cons)
	type job struct{ name, bin, logic, chk string }
	jobs := []job{{"z3-5.3", "z3-new", "", ""}, {"cvc5", "cvc5", "ALL", ""}}
	if !uf {
		jobs = append(jobs, job{"z3-5.3-nlsat", "z3-new", "QF_NRA", "(check-sat-using qfnra-nlsat)"}, job{"z3-4.8-nra", "z3", "QF_NRA", ""})
	} else {
		jobs = append(jobs, job{"z3-4.8", "z3", "", ""})
	}
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	type ans struct {
		r    Result
		vals map[*Term]string
		name string
	}
	ch := make(chan ans, len(jobs))
	for _, j := range jobs {
		go func(j job) {
			sc := script(cons, j.logic, values)
			if j.chk != "" {
				sc = strings.Replace(sc, "(check-sat)", j.chk, 1)
			}
			var args []string
			ms := int(timeout / time.Millisecond)
			if j.bin == "cvc5" {
				args = []string{"--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", ms), "-"}
				args = args[:len(args)-1]
			} else {
				args = []string{"-in", "-smt2", fmt.Sprintf("-T:%d", ms/1000+1), "-memory:3000"}
			}
			cmd := exec.CommandContext(ctx, j.bin, args...)
			cmd.Stdin = strings.NewReader(sc)
			out, _ := cmd.Output()
			o := string(out)
			nl := strings.IndexByte(o, '\n')
			first := o
			if nl >= 0 {
				first = o[:nl]
			}
			switch strings.TrimSpace(first) {
			case "unsat":
				ch <- ans{Unsat, nil, j.name}
			case "sat":
				vals := map[*Term]string{}
				rd := bufio.NewReader(strings.NewReader(o[nl+1:]))
				for _, v := range values {
					e, err := readSexp(rd)
					if err != nil {
						break
					}
					vals[v] = e
				}
				ch <- ans{Sat, vals, j.name}
			default:
				ch <- ans{Unknown, nil, j.name}
			}
		}(j)
	}
	for range jobs {
		a := <-ch
		if a.r == Unsat {
			atomic.AddInt64(&stats.Unsat, 1)
			return a.r, nil, a.name
		}
		if a.r == Sat && (len(values) == 0 || len(a.vals) == len(values)) {
			atomic.AddInt64(&stats.Sat, 1)
			return a.r, a.vals, a.name
		}
	}
	atomic.AddInt64(&stats.Unknown, 1)
	return Unknown, nil, ""
}

// modelRat extracts a rational (or bool/bv as rational) out of a get-value answer "((ref val))".
func modelRat(ans string) (*big.Rat, bool) {
	e := parseSexp(ans)
	if e == nil || len(e.list) != 1 || len(e.list[0].list) != 2 {
		return nil, false
	}
	v := e.list[0].list[1]
	if v.list == nil {
		switch {
		case v.atom == "true":
			return big.NewRat(1, 1), true
		case v.atom == "false":
			return new(big.Rat), true
		case strings.HasPrefix(v.atom, "#x"):
			n, ok := new(big.Int).SetString(v.atom[2:], 16)
			if !ok {
				return nil, false
			}
			return new(big.Rat).SetInt(n), true
		case strings.HasPrefix(v.atom, "#b"):
			n, ok := new(big.Int).SetString(v.atom[2:], 2)
			if !ok {
				return nil, false
			}
			return new(big.Rat).SetInt(n), true
		}
	}
	if len(v.list) == 3 && v.list[0].atom == "_" && strings.HasPrefix(v.list[1].atom, "bv") {
		n, ok := new(big.Int).SetString(v.list[1].atom[2:], 10)
		if !ok {
			return nil, false
		}
		return new(big.Rat).SetInt(n), true
	}
	return evalReal(v)
}
