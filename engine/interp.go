package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions ----

type opnd struct {
	k   uint8 // 0 reg, 1 const, 2 global, 3 zero-aggregate const
	idx int
	v   Value
	g   *ssa.Global
	t   types.Type
}

type icode struct {
	in  ssa.Instruction
	dst int
	ops []opnd
	aux any
}

type bcode struct {
	phis   []icode
	ins    []icode
	b      *ssa.BasicBlock
	simple int8 // 0 unknown 1 yes 2 no
}

type fcode struct {
	fn       *ssa.Function
	nregs    int
	blocks   []bcode
	hasDefer bool
	intr     intrinsic
	name     string
	noZero   bool // zero-test optimisation branches are taken as non zero
	pkgInit  *ssa.Package
}

// Program is the shared, read-only program.
type Program struct {
	prog    *ssa.Program
	codes   sync.Map // *ssa.Function -> *fcode
	methods sync.Map // methodKey -> *ssa.Function
	impl    sync.Map
	pkgs    map[string]*ssa.Package
	fset    *token.FileSet
}

type methodKey struct {
	t types.Type
	m *types.Func
}

func (P *Program) code(fn *ssa.Function) *fcode {
	if c, ok := P.codes.Load(fn); ok {
		return c.(*fcode)
	}
	c := P.compile(fn)
	a, _ := P.codes.LoadOrStore(fn, c)
	return a.(*fcode)
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func (P *Program) compile(fn *ssa.Function) *fcode {
	c := &fcode{fn: fn, name: fnName(fn)}
	if in, ok := intrinsics[c.name]; ok {
		c.intr = in
		return c
	}
	c.noZero = strings.Contains(c.name, "gonum.org/v1/gonum/blas/gonum") || strings.Contains(c.name, "gonum.org/v1/gonum/internal/asm")
	regs := map[ssa.Value]int{}
	n := 0
	for _, p := range fn.Params {
		regs[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		regs[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				regs[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	if fn.Recover != nil {
		c.hasDefer = true
	}
	c.nregs = n
	mk := func(v ssa.Value) opnd {
		switch v := v.(type) {
		case nil:
			return opnd{k: 1}
		case *ssa.Const:
			cv := constValue(v)
			if isAgg(cv) {
				return opnd{k: 3, t: v.Type()}
			}
			return opnd{k: 1, v: cv}
		case *ssa.Global:
			return opnd{k: 2, g: v}
		case *ssa.Function:
			return opnd{k: 1, v: &Closure{fn: v}}
		case *ssa.Builtin:
			return opnd{k: 1, v: &Closure{bi: v}}
		}
		return opnd{k: 0, idx: regs[v]}
	}
	c.blocks = make([]bcode, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		bc := &c.blocks[bi]
		bc.b = b
		for k, in := range b.Instrs {
			ic := icode{in: in, dst: -1}
			if st, ok := in.(*ssa.Store); ok && k > 0 {
				// "return r" of a captured named result r stores r to itself, which compiled code does not
				if l, ok := b.Instrs[k-1].(*ssa.UnOp); ok && l.Op == token.MUL && l == st.Val && l.X == st.Addr {
					continue
				}
			}
			if v, ok := in.(ssa.Value); ok {
				ic.dst = regs[v]
			}
			switch in := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				for _, e := range in.Edges {
					ic.ops = append(ic.ops, mk(e))
				}
				bc.phis = append(bc.phis, ic)
				continue
			case *ssa.Call:
				ic.ops = callOps(&in.Call, mk)
			case *ssa.Go:
				ic.ops = callOps(&in.Call, mk)
			case *ssa.Defer:
				ic.ops = callOps(&in.Call, mk)
			case *ssa.Return:
				for _, r := range in.Results {
					ic.ops = append(ic.ops, mk(r))
				}
			case *ssa.Slice:
				ic.ops = []opnd{mk(in.X), mkNil(in.Low, mk), mkNil(in.High, mk), mkNil(in.Max, mk)}
			case *ssa.MakeClosure:
				for _, bnd := range in.Bindings {
					ic.ops = append(ic.ops, mk(bnd))
				}
			case *ssa.Select:
				for _, st := range in.States {
					ic.ops = append(ic.ops, mk(st.Chan), mkNil(st.Send, mk))
				}
			default:
				var rands []*ssa.Value
				rands = in.Operands(rands)
				for _, r := range rands {
					if *r == nil {
						ic.ops = append(ic.ops, opnd{k: 1})
					} else {
						ic.ops = append(ic.ops, mk(*r))
					}
				}
			}
			bc.ins = append(bc.ins, ic)
		}
		bc.simple = simpleBlock(b)
	}
	return c
}

func mkNil(v ssa.Value, mk func(ssa.Value) opnd) opnd {
	if v == nil {
		return opnd{k: 1, v: nil}
	}
	return mk(v)
}

func callOps(c *ssa.CallCommon, mk func(ssa.Value) opnd) []opnd {
	ops := []opnd{mk(c.Value)}
	for _, a := range c.Args {
		ops = append(ops, mk(a))
	}
	return ops
}

// simpleBlock reports whether a block can be executed speculatively for if-conversion.
func simpleBlock(b *ssa.BasicBlock) int8 {
	if len(b.Preds) != 1 || len(b.Succs) != 1 || len(b.Instrs) > 14 {
		return 2
	}
	for i, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.BinOp, *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Field, *ssa.Convert, *ssa.ChangeType, *ssa.Store, *ssa.DebugRef:
		case *ssa.Call:
			f, ok := in.Call.Value.(*ssa.Function)
			if !ok || !pureIntr[f.String()] {
				return 2
			}
		case *ssa.Jump:
			if i != len(b.Instrs)-1 {
				return 2
			}
		default:
			return 2
		}
	}
	return 1
}

// ---- machine ----

// Decision is one recorded nondeterministic choice.
type Decision struct {
	Alt int    `json:"a"`
	Val string `json:"v,omitempty"`
}

type frame struct {
	c       *fcode
	regs    []Value
	defers  []deferred
	panicV  *goPanicT
	recov   bool
	result  Value
	caller  *frame
	depth   int
	callPos token.Pos
}

type deferred struct {
	call func()
}

// goPanicT is an interpreted Go panic.
type goPanicT struct {
	v     Value // Iface
	msg   string
	where string
}

// abortT ends the current path.
type abortT struct {
	kind string // infeasible, assume, unsupported, steps, depth, panic, deadlock, race, stop
	msg  string
}

type specAbort struct{}

type input struct {
	name string
	t    *Term
	kind byte // f,i,b
}

// Machine executes one path.
type Machine struct {
	P       *Program
	w       *Worker
	p       *Pool
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool

	prefix []Decision
	trace  []Decision
	pc     []*Term
	pcset  map[*Term]bool
	steps  int64
	maxSt  int64

	inputs  []input
	choices map[string]int
	names   map[string]int
	reach   map[string]bool
	defs    map[*Term]bool
	obs     []obsT
	ufapps  map[string][]*Term
	ranges  map[*Term]ival
	ivMemo  map[*Term]ival

	spec        bool
	specStores  []specStore
	noMerge     bool
	nativeFloat bool
	mapOrders   bool

	// scheduling
	cur      *G
	gs       []*G
	explore  bool
	newest   bool // of the goroutines that can run, the one started last goes first
	preempt  int
	races    bool
	noRace   bool
	shadow   map[*Value]*shadowT
	abort    *abortT
	killing  bool
	ncpu     int
	mutexes  map[*Value]*mutexT
	wgs      map[*Value]*wgT
	onces    map[*Value]bool
	atomVC   map[*Value]vclock
	lastFr   *frame
	nassert  int
	ngor     int
	schedPts int
	maxDec   int
	fileFns  map[string]bool
}

type obsT struct {
	msg string
	t   *Term
	f   float64
	sym bool
}

type specStore struct {
	addr *Value
	old  Value
}

func (m *Machine) failf(kind, f string, a ...any) {
	if m.spec {
		panic(specAbort{})
	}
	panic(&abortT{kind, fmt.Sprintf(f, a...)})
}

// global returns the address of a package level variable, initialising its package lazily.
func (m *Machine) global(g *ssa.Global) *Value {
	if a, ok := m.globals[g]; ok {
		return a
	}
	pkg := g.Pkg
	m.initPkg(pkg)
	if a, ok := m.globals[g]; ok {
		return a
	}
	v := zero(g.Type().(*types.Pointer).Elem())
	a := &v
	m.globals[g] = a
	return a
}

func (m *Machine) initPkg(pkg *ssa.Package) {
	if pkg == nil || m.inited[pkg] {
		return
	}
	m.inited[pkg] = true
	for _, mem := range pkg.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, ok := m.globals[g]; !ok {
				v := zero(g.Type().(*types.Pointer).Elem())
				a := &v
				m.globals[g] = a
			}
		}
	}
	path := pkg.Pkg.Path()
	if skipInit(path) {
		return
	}
	if f := pkg.Func("init"); f != nil {
		sv, svf := m.spec, m.noMerge
		if m.spec {
			// do not initialise packages speculatively
			m.inited[pkg] = false
			panic(specAbort{})
		}
		sr := m.races
		m.races = false
		m.callFn(f, nil, nil, nil)
		m.races = sr
		m.spec, m.noMerge = sv, svf
	}
}

func skipInit(path string) bool {
	switch path {
	case "errors", "sort", "container/heap", "math/bits", "slices", "cmp", "io", "bytes", "strings", "unicode/utf8", "math":
		return false
	}
	if i := strings.IndexByte(path, '/'); i >= 0 {
		if strings.Contains(path[:i], ".") {
			return strings.HasSuffix(path, "pa-m/sklearn/datasets") || strings.HasPrefix(path, "gonum.org/v1/plot")
		}
	} else if strings.Contains(path, ".") {
		return false
	}
	return true // other std packages
}

func (m *Machine) get(fr *frame, o *opnd) Value {
	switch o.k {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.v
	case 2:
		return m.global(o.g)
	}
	return zero(o.t)
}

func (m *Machine) runtimeErr(s string) *goPanicT {
	return &goPanicT{v: Iface{t: types.Typ[types.String], v: "runtime error: " + s}, msg: "runtime error: " + s}
}

func (m *Machine) goPanic(p *goPanicT) {
	if m.spec {
		panic(specAbort{})
	}
	if p.where == "" && m.lastFr != nil {
		p.where = m.stack(m.lastFr)
	}
	panic(p)
}

func (m *Machine) stack(fr *frame) string {
	var sb strings.Builder
	for i := 0; fr != nil && i < 12; i++ {
		fmt.Fprintf(&sb, "%s;", fr.c.name)
		fr = fr.caller
	}
	return sb.String()
}

// callFn calls an SSA function.
func (m *Machine) callFn(fn *ssa.Function, args []Value, env []Value, caller *frame) Value {
	c := m.P.code(fn)
	if c.intr != nil {
		return c.intr(m, fn, args)
	}
	if caller != nil && fn.Synthetic == "package initializer" {
		return nil // packages are initialised lazily, on the first use of one of their variables
	}
	if len(fn.Blocks) == 0 {
		m.failf("unsupported", "no body: %s", c.name)
	}
	fr := &frame{c: c, regs: make([]Value, c.nregs), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 900 {
		m.failf("depth", "recursion deeper than 900 frames: %s", m.stack(fr))
	}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], env)
	if m.fileFns != nil {
		m.fileFns[c.name] = true
	}
	if c.hasDefer {
		return m.runDeferred(fr)
	}
	m.run(fr, 0, -1)
	return fr.result
}

func (m *Machine) runDeferred(fr *frame) (res Value) {
	func() {
		defer func() {
			if r := recover(); r != nil {
				gp, ok := r.(*goPanicT)
				if !ok {
					panic(r)
				}
				fr.panicV = gp
			}
		}()
		m.run(fr, 0, -1)
	}()
	if fr.panicV != nil {
		m.runDefers(fr)
		if fr.panicV != nil {
			panic(fr.panicV)
		}
		// recovered
		if fr.c.fn.Recover != nil {
			m.lastFr = fr
			m.run(fr, fr.c.fn.Recover.Index, -1)
			return fr.result
		}
		return zero(fr.c.fn.Signature.Results())
	}
	return fr.result
}

func (m *Machine) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanicT)
					if !ok {
						panic(r)
					}
					fr.panicV = gp
				}
			}()
			d.call()
		}()
	}
}

// run executes from a block until return.
func (m *Machine) run(fr *frame, bi int, prev int) {
	c := fr.c
	for {
		bc := &c.blocks[bi]
		if len(bc.phis) > 0 {
			m.doPhis(fr, bc, prev)
		}
		next := -1
		for ii := range bc.ins {
			ic := &bc.ins[ii]
			m.steps++
			if m.steps > m.maxSt {
				m.failf("steps", "more than %d steps: %s", m.maxSt, m.stack(fr))
			}
			switch in := ic.in.(type) {
			case *ssa.Jump:
				next = bc.b.Succs[0].Index
			case *ssa.If:
				cond := m.get(fr, &ic.ops[0])
				switch cv := cond.(type) {
				case bool:
					if cv {
						next = bc.b.Succs[0].Index
					} else {
						next = bc.b.Succs[1].Index
					}
				case *Term:
					if j, ok := m.tryMerge(fr, bc, cv); ok {
						// merged: phis of j already assigned
						bi, prev = j, -2
						goto jumped
					}
					if m.branch(cv) {
						next = bc.b.Succs[0].Index
					} else {
						next = bc.b.Succs[1].Index
					}
				}
			case *ssa.Return:
				switch len(ic.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &ic.ops[0])
				default:
					t := make(Tuple, len(ic.ops))
					for i := range ic.ops {
						t[i] = m.get(fr, &ic.ops[i])
					}
					fr.result = t
				}
				return
			case *ssa.RunDefers:
				m.runDefers(fr)
				if fr.panicV != nil {
					p := fr.panicV
					panic(p)
				}
			case *ssa.Panic:
				v := m.get(fr, &ic.ops[0]).(Iface)
				m.lastFr = fr
				m.goPanic(&goPanicT{v: v, msg: m.panicMsg(v), where: m.stack(fr)})
			default:
				m.lastFr = fr
				m.step(fr, ic, in)
			}
		}
		prev = bi
		bi = next
		continue
	jumped:
		// continue in block bi, skipping phis (already set)
		if !m.runFrom(fr, &bi, &prev) {
			return
		}
	}
}

// runFrom executes block *bi without evaluating its phis; returns false on function return.
func (m *Machine) runFrom(fr *frame, bi, prev *int) bool {
	for {
		bc := &fr.c.blocks[*bi]
		next := -1
		for ii := range bc.ins {
			ic := &bc.ins[ii]
			m.steps++
			switch in := ic.in.(type) {
			case *ssa.Jump:
				next = bc.b.Succs[0].Index
			case *ssa.If:
				cond := m.get(fr, &ic.ops[0])
				switch cv := cond.(type) {
				case bool:
					if cv {
						next = bc.b.Succs[0].Index
					} else {
						next = bc.b.Succs[1].Index
					}
				case *Term:
					if j, ok := m.tryMerge(fr, bc, cv); ok {
						*bi, *prev = j, -2
						goto again
					}
					if m.branch(cv) {
						next = bc.b.Succs[0].Index
					} else {
						next = bc.b.Succs[1].Index
					}
				}
			case *ssa.Return:
				switch len(ic.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &ic.ops[0])
				default:
					t := make(Tuple, len(ic.ops))
					for i := range ic.ops {
						t[i] = m.get(fr, &ic.ops[i])
					}
					fr.result = t
				}
				return false
			case *ssa.RunDefers:
				m.runDefers(fr)
				if fr.panicV != nil {
					panic(fr.panicV)
				}
			case *ssa.Panic:
				v := m.get(fr, &ic.ops[0]).(Iface)
				m.goPanic(&goPanicT{v: v, msg: m.panicMsg(v), where: m.stack(fr)})
			default:
				m.lastFr = fr
				m.step(fr, ic, in)
			}
		}
		*prev = *bi
		*bi = next
		return true
	again:
	}
}

func (m *Machine) doPhis(fr *frame, bc *bcode, prev int) {
	// find predecessor index
	pi := 0
	for i, p := range bc.b.Preds {
		if p.Index == prev {
			pi = i
			break
		}
	}
	if len(bc.phis) == 1 {
		fr.regs[bc.phis[0].dst] = m.get(fr, &bc.phis[0].ops[pi])
		return
	}
	tmp := make([]Value, len(bc.phis))
	for i := range bc.phis {
		tmp[i] = m.get(fr, &bc.phis[i].ops[pi])
	}
	for i := range bc.phis {
		fr.regs[bc.phis[i].dst] = tmp[i]
	}
}

// tryMerge if-converts a symbolic branch whose arms are pure; returns the join block.
func (m *Machine) tryMerge(fr *frame, bc *bcode, cond *Term) (int, bool) {
	if m.noMerge || m.spec {
		return 0, false
	}
	if m.pcset[cond] || m.pcset[m.p.Not(cond)] || m.settled(cond) != 0 {
		return 0, false
	}
	t, f := bc.b.Succs[0], bc.b.Succs[1]
	ts, fs := fr.c.blocks[t.Index].simple == 1, fr.c.blocks[f.Index].simple == 1
	var join *ssa.BasicBlock
	var tPred, fPred *ssa.BasicBlock
	switch {
	case ts && fs && t.Succs[0] == f.Succs[0] && t.Succs[0] != bc.b:
		join, tPred, fPred = t.Succs[0], t, f
	case ts && t.Succs[0] == f && f != bc.b:
		join, tPred, fPred = f, t, bc.b
	case fs && f.Succs[0] == t && t != bc.b:
		join, tPred, fPred = t, bc.b, f
	default:
		return 0, false
	}
	if join == t && join == f {
		return 0, false
	}
	jc := &fr.c.blocks[join.Index]
	// quick reject on phi types: only floats and bools merge
	ok := true
	var tStores, fStores []specStore
	func() {
		defer func() {
			if r := recover(); r != nil {
				// undo speculative stores
				for i := len(m.specStores) - 1; i >= 0; i-- {
					*m.specStores[i].addr = m.specStores[i].old
				}
				m.specStores = nil
				m.spec = false
				if _, is := r.(specAbort); is {
					ok = false
					return
				}
				panic(r)
			}
		}()
		m.spec = true
		if tPred != bc.b {
			tStores = m.specRun(fr, &fr.c.blocks[tPred.Index])
		}
		if fPred != bc.b {
			fStores = m.specRun(fr, &fr.c.blocks[fPred.Index])
		}
		m.spec = false
	}()
	if !ok {
		return 0, false
	}
	// phis
	pi := func(p *ssa.BasicBlock) int {
		for i, q := range join.Preds {
			if q == p {
				return i
			}
		}
		return -1
	}
	ti, fi := pi(tPred), pi(fPred)
	vals := make([]Value, len(jc.phis))
	for i := range jc.phis {
		a, b := m.get(fr, &jc.phis[i].ops[ti]), m.get(fr, &jc.phis[i].ops[fi])
		v, ok := m.iteVal(cond, a, b, jc.phis[i].in.(*ssa.Phi).Type())
		if !ok {
			return 0, false
		}
		vals[i] = v
	}
	// stores
	type st struct{ a, b Value }
	var order []*Value
	mp := map[*Value]*st{}
	for _, s := range tStores {
		if _, ok := mp[s.addr]; !ok {
			mp[s.addr] = &st{*s.addr, *s.addr}
			order = append(order, s.addr)
		}
		mp[s.addr].a = s.old
	}
	for _, s := range fStores {
		if _, ok := mp[s.addr]; !ok {
			mp[s.addr] = &st{*s.addr, *s.addr}
			order = append(order, s.addr)
		}
		mp[s.addr].b = s.old
	}
	res := make([]Value, len(order))
	for i, a := range order {
		v, ok := m.iteVal(cond, mp[a].a, mp[a].b, nil)
		if !ok {
			return 0, false
		}
		res[i] = v
	}
	for i, a := range order {
		*a = res[i]
	}
	for i := range jc.phis {
		fr.regs[jc.phis[i].dst] = vals[i]
	}
	return join.Index, true
}

// specRun executes a simple block speculatively and returns the final stored values (in .old), undoing the stores.
func (m *Machine) specRun(fr *frame, bc *bcode) []specStore {
	m.specStores = nil
	for ii := range bc.ins {
		ic := &bc.ins[ii]
		if _, ok := ic.in.(*ssa.Jump); ok {
			break
		}
		m.step(fr, ic, ic.in)
	}
	var out []specStore
	seen := map[*Value]int{}
	for _, s := range m.specStores {
		if _, ok := seen[s.addr]; !ok {
			seen[s.addr] = len(out)
			out = append(out, specStore{s.addr, *s.addr})
		}
	}
	for i := len(m.specStores) - 1; i >= 0; i-- {
		*m.specStores[i].addr = m.specStores[i].old
	}
	m.specStores = nil
	return out
}

// iteVal merges two scalar values; only reals and bools are merged (others must be identical).
func (m *Machine) iteVal(c *Term, a, b Value, t types.Type) (Value, bool) {
	switch x := a.(type) {
	case float64, float32:
		if _, ok := b.(*Term); !ok {
			switch b.(type) {
			case float64, float32:
			default:
				return nil, false
			}
			if asF64(x) == asF64(b) {
				return a, true
			}
			if !finite(asF64(b)) {
				return nil, false
			}
		}
		if !finite(asF64(x)) {
			return nil, false
		}
		return m.norm(m.p.Ite(c, m.realTerm(a), m.realTerm(b))), true
	case bool:
		if y, ok := b.(bool); ok && x == y {
			return a, true
		}
		switch b.(type) {
		case bool, *Term:
			return m.norm(m.p.Ite(c, m.boolTerm(a), m.boolTerm(b))), true
		}
		return nil, false
	case *Term:
		switch x.sort {
		case SReal:
			switch y := b.(type) {
			case float64, float32:
				if !finite(asF64(y)) {
					return nil, false
				}
			case *Term:
			default:
				return nil, false
			}
			return m.norm(m.p.Ite(c, x, m.realTerm(b))), true
		case SBool:
			return m.norm(m.p.Ite(c, x, m.boolTerm(b))), true
		case SBV:
			if y, ok := b.(*Term); ok {
				return m.p.Ite(c, x, y), true
			}
			return m.p.Ite(c, x, m.bvTerm(b, int(x.width))), true
		}
	case Struct, Array, Tuple:
		return nil, false
	case Slice:
		y, ok := b.(Slice)
		if ok && len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (len(x) == 0 || &x[0] == &y[0]) && (len(x) > 0 || cap(x) == 0) {
			return a, true
		}
		return nil, false
	case Iface:
		return nil, false
	}
	if y, ok := b.(*Term); ok && y.sort == SBV {
		return m.p.Ite(c, m.bvTerm(a, int(y.width)), y), true
	}
	switch a.(type) {
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64, uintptr, string, *Value, *MapV, *Closure, *Chan:
		if a == b {
			return a, true
		}
	}
	return nil, false
}

func (m *Machine) panicMsg(v Iface) string {
	switch x := v.v.(type) {
	case string:
		return x
	}
	if v.t == nil {
		return "nil"
	}
	// error values: call Error()
	if s, ok := m.errString(v); ok {
		return s
	}
	return fmt.Sprintf("%s", v.t)
}

func (m *Machine) errString(v Iface) (s string, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(*goPanicT); is {
				ok = false
				return
			}
			if _, is := r.(unsupportedErr); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	fn := m.findMethodByName(v.t, "Error")
	if fn == nil {
		return "", false
	}
	r := m.callFn(fn, []Value{v.v}, nil, nil)
	s, ok = r.(string)
	return
}

func (m *Machine) findMethodByName(t types.Type, name string) *ssa.Function {
	ms := m.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return m.P.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

func (m *Machine) lookupMethod(t types.Type, f *types.Func) *ssa.Function {
	k := methodKey{t, f}
	if v, ok := m.P.methods.Load(k); ok {
		return v.(*ssa.Function)
	}
	fn := m.P.prog.LookupMethod(t, f.Pkg(), f.Name())
	m.P.methods.Store(k, fn)
	return fn
}

func (m *Machine) implements(t types.Type, it *types.Interface, key types.Type) bool {
	type k struct{ a, b types.Type }
	kk := k{t, key}
	if v, ok := m.P.impl.Load(kk); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	m.P.impl.Store(kk, r)
	return r
}

// prepCall resolves a call instruction to a callable.
func (m *Machine) prepCall(fr *frame, cc *ssa.CallCommon, ops []opnd) (cl *Closure, args []Value) {
	if cc.IsInvoke() {
		recv, ok := m.get(fr, &ops[0]).(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("invoke on %T", m.get(fr, &ops[0]))))
		}
		if recv.t == nil {
			m.goPanic(m.runtimeErr("invalid memory address or nil pointer dereference (nil interface call " + cc.Method.Name() + ")"))
		}
		if nm, ok := recv.v.(nativeMethods); ok {
			cl = &Closure{native: func(m *Machine, args []Value) Value { return nm.callMethod(m, cc.Method.Name(), args) }}
		} else {
			fn := m.lookupMethod(recv.t, cc.Method)
			if fn == nil {
				panic(unsupported("method " + cc.Method.FullName() + " on " + recv.t.String()))
			}
			cl = &Closure{fn: fn}
			args = append(args, recv.v)
		}
	} else {
		f := m.get(fr, &ops[0])
		var ok bool
		cl, ok = f.(*Closure)
		if !ok {
			panic(unsupported(fmt.Sprintf("call of %T", f)))
		}
		if cl == nil {
			m.goPanic(m.runtimeErr("invalid memory address or nil pointer dereference (nil func call)"))
		}
	}
	for i := range ops[1:] {
		args = append(args, m.get(fr, &ops[i+1]))
	}
	return
}

type nativeMethods interface {
	callMethod(m *Machine, name string, args []Value) Value
}

func (m *Machine) callClosure(cl *Closure, args []Value, fr *frame) Value {
	if cl == nil {
		m.goPanic(m.runtimeErr("invalid memory address or nil pointer dereference (nil func call)"))
	}
	if cl.native != nil {
		return cl.native(m, args)
	}
	return m.callFn(cl.fn, args, cl.env, fr)
}

func (m *Machine) nilDeref() {
	m.goPanic(m.runtimeErr("invalid memory address or nil pointer dereference"))
}

// load reads through a pointer.
func (m *Machine) load(a *Value) Value {
	if a == nil {
		m.nilDeref()
	}
	if m.races {
		m.accessDeep(a, false)
	}
	v := *a
	switch v.(type) {
	case Struct, Array:
		return copyVal(v)
	}
	return v
}

func (m *Machine) store(a *Value, v Value) {
	if a == nil {
		m.nilDeref()
	}
	if m.spec {
		if isAgg(v) || isAgg(*a) {
			panic(specAbort{})
		}
		m.specStores = append(m.specStores, specStore{a, *a})
		*a = v
		return
	}
	if m.races {
		m.accessDeep(a, true)
	}
	storeVal(a, v)
}

// index concretises an index and checks its bounds.
func (m *Machine) index(v Value, n int, it types.Type) int {
	if i, ok := v.(int); ok {
		if i < 0 || i >= n {
			m.goPanic(m.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
		}
		return i
	}
	if t, ok := v.(*Term); ok {
		w, sg := kindWidth(basicKind(it))
		in := m.p.BVCmp("bvult", t, m.p.BV(uint64(n), w))
		_ = sg
		if !m.branch(in) {
			m.goPanic(m.runtimeErr(fmt.Sprintf("index out of range [symbolic] with length %d", n)))
		}
		return int(m.concInt(t, basicKind(it)))
	}
	i := asI64(v)
	if _, sg := kindWidth(basicKind(it)); !sg && i < 0 {
		i = int64(n)
	}
	if i < 0 || i >= int64(n) {
		m.goPanic(m.runtimeErr(fmt.Sprintf("index out of range [%d] with length %d", i, n)))
	}
	return int(i)
}

// step executes one non-control instruction.
func (m *Machine) step(fr *frame, ic *icode, in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.BinOp:
		x, y := m.get(fr, &ic.ops[0]), m.get(fr, &ic.ops[1])
		if fr.c.noZero && (in.Op == token.NEQ || in.Op == token.EQL) {
			// BLAS kernels skip work when a multiplier is zero; over the reals doing the work gives the same result.
			if t, ok := x.(*Term); ok && t.sort == SReal && !t.isConst() {
				if f, ok := y.(float64); ok && f == 0 {
					fr.regs[ic.dst] = in.Op == token.NEQ
					return
				}
			}
		}
		fr.regs[ic.dst] = m.binop(in.Op, x, y, in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		x := m.get(fr, &ic.ops[0])
		switch in.Op {
		case token.MUL:
			p, ok := x.(*Value)
			if !ok {
				panic(unsupported(fmt.Sprintf("deref %T", x)))
			}
			fr.regs[ic.dst] = m.load(p)
		case token.ARROW:
			v, ok := m.recv(x)
			if v == nil {
				v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
			}
			if in.CommaOk {
				fr.regs[ic.dst] = Tuple{v, ok}
			} else {
				fr.regs[ic.dst] = v
			}
		default:
			fr.regs[ic.dst] = m.unop(in, x)
		}
	case *ssa.Store:
		a := m.get(fr, &ic.ops[0]).(*Value)
		m.store(a, m.get(fr, &ic.ops[1]))
	case *ssa.Alloc:
		v := zero(in.Type().Underlying().(*types.Pointer).Elem())
		a := new(Value)
		*a = v
		fr.regs[ic.dst] = a
	case *ssa.Call:
		cl, args := m.prepCall(fr, &in.Call, ic.ops)
		if cl.bi != nil {
			fr.regs[ic.dst] = m.builtin(fr, cl.bi, in, args)
			return
		}
		r := m.callClosure(cl, args, fr)
		m.lastFr = fr
		fr.regs[ic.dst] = r
	case *ssa.FieldAddr:
		p, ok := m.get(fr, &ic.ops[0]).(*Value)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr of %T", m.get(fr, &ic.ops[0]))))
		}
		if p == nil {
			m.nilDeref()
		}
		s, ok := (*p).(Struct)
		if !ok {
			panic(unsupported(fmt.Sprintf("fieldaddr into %T (%s)", *p, in)))
		}
		fr.regs[ic.dst] = &s[in.Field]
	case *ssa.Field:
		s := m.get(fr, &ic.ops[0]).(Struct)
		fr.regs[ic.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := m.get(fr, &ic.ops[0])
		iv := m.get(fr, &ic.ops[1])
		switch x := x.(type) {
		case Slice:
			fr.regs[ic.dst] = &x[m.index(iv, len(x), in.Index.Type())]
		case *Value:
			if x == nil {
				m.nilDeref()
			}
			a := (*x).(Array)
			fr.regs[ic.dst] = &a[m.index(iv, len(a), in.Index.Type())]
		default:
			panic(unsupported(fmt.Sprintf("indexaddr %T", x)))
		}
	case *ssa.Index:
		x := m.get(fr, &ic.ops[0])
		iv := m.get(fr, &ic.ops[1])
		switch x := x.(type) {
		case Array:
			fr.regs[ic.dst] = copyVal(x[m.index(iv, len(x), in.Index.Type())])
		case string:
			fr.regs[ic.dst] = x[m.index(iv, len(x), in.Index.Type())]
		default:
			panic(unsupported(fmt.Sprintf("index %T", x)))
		}
	case *ssa.Slice:
		fr.regs[ic.dst] = m.slice(fr, ic, in)
	case *ssa.MakeSlice:
		n := m.concInt(m.get(fr, &ic.ops[0]), basicKind(in.Len.Type()))
		cp := m.concInt(m.get(fr, &ic.ops[1]), basicKind(in.Cap.Type()))
		if n < 0 || n > 1<<24 {
			m.goPanic(m.runtimeErr("makeslice: len out of range"))
		}
		if cp < n || cp > 1<<24 {
			m.goPanic(m.runtimeErr("makeslice: cap out of range"))
		}
		s := make(Slice, cp)
		et := in.Type().Underlying().(*types.Slice).Elem()
		z := zero(et)
		if isAgg(z) {
			for i := range s {
				s[i] = zero(et)
			}
		} else {
			for i := range s {
				s[i] = z
			}
		}
		fr.regs[ic.dst] = s[:n:cp]
	case *ssa.MakeMap:
		fr.regs[ic.dst] = &MapV{idx: map[string]*mapEnt{}}
	case *ssa.MakeChan:
		n := m.concInt(m.get(fr, &ic.ops[0]), basicKind(in.Size.Type()))
		fr.regs[ic.dst] = &Chan{cap: int(n)}
	case *ssa.MakeInterface:
		fr.regs[ic.dst] = Iface{t: canon(in.X.Type()), v: copyVal(m.get(fr, &ic.ops[0]))}
	case *ssa.MakeClosure:
		env := make([]Value, len(ic.ops))
		for i := range ic.ops {
			env[i] = m.get(fr, &ic.ops[i])
		}
		fr.regs[ic.dst] = &Closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.ChangeType, *ssa.ChangeInterface:
		fr.regs[ic.dst] = m.get(fr, &ic.ops[0])
	case *ssa.Convert:
		fr.regs[ic.dst] = m.conv(in.Type(), in.X.Type(), m.get(fr, &ic.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ic.dst] = m.conv(in.Type(), in.X.Type(), m.get(fr, &ic.ops[0]))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Extract:
		fr.regs[ic.dst] = m.get(fr, &ic.ops[0]).(Tuple)[in.Index]
	case *ssa.TypeAssert:
		fr.regs[ic.dst] = m.typeAssert(in, m.get(fr, &ic.ops[0]))
	case *ssa.Lookup:
		x := m.get(fr, &ic.ops[0])
		k := m.get(fr, &ic.ops[1])
		if s, ok := x.(string); ok {
			fr.regs[ic.dst] = s[m.index(k, len(s), in.Index.Type())]
			return
		}
		mp, _ := x.(*MapV)
		e := m.mapFind(mp, k)
		var v Value
		if e != nil {
			v = copyVal(e.val)
		} else {
			v = zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			fr.regs[ic.dst] = Tuple{v, e != nil}
		} else {
			fr.regs[ic.dst] = v
		}
	case *ssa.MapUpdate:
		mp, _ := m.get(fr, &ic.ops[0]).(*MapV)
		if mp == nil {
			m.goPanic(&goPanicT{v: Iface{types.Typ[types.String], "assignment to entry in nil map"}, msg: "assignment to entry in nil map"})
		}
		m.mapSet(mp, m.get(fr, &ic.ops[1]), m.get(fr, &ic.ops[2]))
	case *ssa.Range:
		x := m.get(fr, &ic.ops[0])
		switch x := x.(type) {
		case string:
			fr.regs[ic.dst] = &strIter{s: x}
		case *MapV:
			it := &mapIter{}
			if x != nil {
				it.mp = x
				for _, e := range x.ents {
					if !e.dead {
						it.rem = append(it.rem, e)
					}
				}
			}
			fr.regs[ic.dst] = it
		default:
			panic(unsupported(fmt.Sprintf("range %T", x)))
		}
	case *ssa.Next:
		switch it := m.get(fr, &ic.ops[0]).(type) {
		case *strIter:
			if it.pos >= len(it.s) {
				fr.regs[ic.dst] = Tuple{false, 0, int32(0)}
			} else {
				var r rune
				p := it.pos
				n := 0
				for _, c := range it.s[p:] {
					r = c
					n = len(string(c))
					break
				}
				it.pos += n
				fr.regs[ic.dst] = Tuple{true, p, int32(r)}
			}
		case *mapIter:
			fr.regs[ic.dst] = m.mapNext(it, in)
		}
	case *ssa.Go:
		cl, args := m.prepCall(fr, &in.Call, ic.ops)
		m.spawn(cl, args)
	case *ssa.Defer:
		cl, args := m.prepCall(fr, &in.Call, ic.ops)
		fr.defers = append(fr.defers, deferred{func() {
			if cl.bi != nil {
				m.builtin(fr, cl.bi, nil, args)
				return
			}
			m.callDeferred(cl, args, fr)
		}})
	case *ssa.Send:
		m.send(m.get(fr, &ic.ops[0]), m.get(fr, &ic.ops[1]))
	case *ssa.Select:
		fr.regs[ic.dst] = m.sel(fr, ic, in)
	default:
		panic(unsupported(fmt.Sprintf("instr %T", in)))
	}
}

// callDeferred calls a deferred function; its recover() sees fr's panic.
func (m *Machine) callDeferred(cl *Closure, args []Value, fr *frame) {
	if cl.native != nil {
		cl.native(m, args)
		return
	}
	m.callFn(cl.fn, args, cl.env, fr)
}

type strIter struct {
	s   string
	pos int
}
type mapIter struct {
	mp  *MapV
	rem []*mapEnt
}

func (m *Machine) mapNext(it *mapIter, in *ssa.Next) Value {
	for len(it.rem) > 0 {
		k := 0
		n := 0
		for _, e := range it.rem {
			if !e.dead {
				n++
			}
		}
		if m.mapOrders && n > 1 {
			live := it.rem[:0:0]
			for _, e := range it.rem {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.rem = live
			k = m.choose(len(it.rem), "map")
		}
		e := it.rem[k]
		it.rem = append(it.rem[:k:k], it.rem[k+1:]...)
		if e.dead {
			continue
		}
		if m.races {
			m.access(&it.mp.cell, false)
		}
		return Tuple{true, copyVal(e.key), copyVal(e.val)}
	}
	tt := in.Type().(*types.Tuple)
	z := func(t types.Type) Value {
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t)
	}
	return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
}

func (m *Machine) mapFind(mp *MapV, k Value) *mapEnt {
	if mp == nil {
		return nil
	}
	if m.races {
		m.access(&mp.cell, false)
	}
	ks, conc := keyString(k)
	if f, ok := k.(float64); ok && f != f {
		return nil
	}
	if conc && mp.nsym == 0 {
		return mp.idx[ks]
	}
	if conc {
		if e := mp.idx[ks]; e != nil {
			return e
		}
	}
	for _, e := range mp.ents {
		if e.dead {
			continue
		}
		t := m.eq(e.key, k)
		if t.isConst() {
			if t.b {
				return e
			}
			continue
		}
		if m.branch(t) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if m.spec {
		panic(specAbort{})
	}
	e := m.mapFind(mp, k)
	if m.races {
		m.access(&mp.cell, true)
	}
	if e != nil {
		e.val = copyVal(v)
		return
	}
	e = &mapEnt{key: copyVal(k), val: copyVal(v)}
	mp.ents = append(mp.ents, e)
	mp.n++
	if ks, ok := keyString(k); ok {
		mp.idx[ks] = e
	} else {
		mp.nsym++
	}
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	if mp == nil {
		return
	}
	e := m.mapFind(mp, k)
	if m.races {
		m.access(&mp.cell, true)
	}
	if e == nil {
		return
	}
	e.dead = true
	mp.n--
	if ks, ok := keyString(e.key); ok {
		delete(mp.idx, ks)
	} else {
		mp.nsym--
	}
	for i, x := range mp.ents {
		if x == e {
			mp.ents = append(mp.ents[:i:i], mp.ents[i+1:]...)
			break
		}
	}
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	v, ok := x.(Iface)
	if !ok {
		panic(unsupported(fmt.Sprintf("typeassert %T", x)))
	}
	good := false
	var res Value
	at := in.AssertedType
	if it, isI := at.Underlying().(*types.Interface); isI {
		if v.t != nil && m.implements(v.t, it, canon(at)) {
			good = true
			res = v
		}
	} else if v.t != nil && v.t == canon(at) {
		good = true
		res = copyVal(v.v)
	}
	if in.CommaOk {
		if !good {
			res = zero(at)
		}
		return Tuple{res, good}
	}
	if !good {
		ts := "nil"
		if v.t != nil {
			ts = v.t.String()
		}
		m.goPanic(m.runtimeErr(fmt.Sprintf("interface conversion: interface is %s, not %s", ts, at)))
	}
	return res
}

func (m *Machine) slice(fr *frame, ic *icode, in *ssa.Slice) Value {
	x := m.get(fr, &ic.ops[0])
	bound := func(i int, def int) int {
		if ic.ops[i].k == 1 && ic.ops[i].v == nil {
			return def
		}
		v := m.get(fr, &ic.ops[i])
		if v == nil {
			return def
		}
		var t types.Type
		switch i {
		case 1:
			t = in.Low.Type()
		case 2:
			t = in.High.Type()
		case 3:
			t = in.Max.Type()
		}
		return int(m.concInt(v, basicKind(t)))
	}
	var base Slice
	switch x := x.(type) {
	case string:
		lo := bound(1, 0)
		hi := bound(2, len(x))
		if lo < 0 || hi > len(x) || lo > hi {
			m.goPanic(m.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d]", lo, hi)))
		}
		return x[lo:hi]
	case Slice:
		base = x
	case *Value:
		if x == nil {
			m.nilDeref()
		}
		base = Slice((*x).(Array))
	default:
		panic(unsupported(fmt.Sprintf("slice of %T", x)))
	}
	lo := bound(1, 0)
	hi := bound(2, len(base))
	mx := bound(3, cap(base))
	if lo < 0 || hi < lo || mx < hi || mx > cap(base) {
		m.goPanic(m.runtimeErr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(base))))
	}
	return base[lo:hi:mx]
}

func (m *Machine) builtin(fr *frame, b *ssa.Builtin, in *ssa.Call, args []Value) Value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return len(x)
		case Slice:
			return len(x)
		case Array:
			return len(x)
		case *Value:
			return len((*x).(Array))
		case *MapV:
			if x == nil {
				return 0
			}
			return x.n
		case *Chan:
			return len(x.buf)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return cap(x)
		case Array:
			return len(x)
		case *Value:
			return len((*x).(Array))
		case *Chan:
			return x.cap
		}
	case "append":
		if m.spec {
			panic(specAbort{})
		}
		dst := args[0].(Slice)
		var src Slice
		switch s := args[1].(type) {
		case Slice:
			src = s
		case string:
			for i := 0; i < len(s); i++ {
				src = append(src, s[i])
			}
		}
		if len(src) == 0 {
			return dst
		}
		n := len(dst) + len(src)
		var out Slice
		if n <= cap(dst) {
			out = dst[:n]
		} else {
			// growth as the Go runtime: double below 256
			nc := cap(dst) * 2
			if nc < n {
				nc = n
			}
			if cap(dst) >= 256 {
				nc = cap(dst) + cap(dst)/4 + 192
				if nc < n {
					nc = n
				}
			}
			out = make(Slice, n, nc)
			for i := range dst {
				if m.races {
					m.access(&dst[i], false)
				}
				out[i] = dst[i]
				if isAgg(out[i]) {
					out[i] = copyVal(out[i])
				}
			}
			full := out[:nc]
			for i := n; i < nc; i++ {
				full[i] = zero(b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem())
			}
		}
		tmp := make(Slice, len(src))
		for i := range src {
			if m.races {
				m.access(&src[i], false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			if m.races {
				m.access(&out[len(dst)+i], true)
			}
			out[len(dst)+i] = tmp[i]
		}
		return out
	case "copy":
		if m.spec {
			panic(specAbort{})
		}
		dst := args[0].(Slice)
		var src Slice
		switch s := args[1].(type) {
		case Slice:
			src = s
		case string:
			for i := 0; i < len(s); i++ {
				src = append(src, s[i])
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make(Slice, n)
		for i := 0; i < n; i++ {
			if m.races {
				m.access(&src[i], false)
			}
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if m.races {
				m.access(&dst[i], true)
			}
			storeVal(&dst[i], tmp[i])
		}
		return n
	case "delete":
		mp, _ := args[0].(*MapV)
		m.mapDelete(mp, args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				x.ents, x.idx, x.nsym, x.n = nil, map[string]*mapEnt{}, 0, 0
			}
		case Slice:
			for i := range x {
				x[i] = zero(in.Call.Args[0].Type().Underlying().(*types.Slice).Elem())
			}
		}
		return nil
	case "panic":
		v := args[0].(Iface)
		m.goPanic(&goPanicT{v: v, msg: m.panicMsg(v), where: m.stack(fr)})
	case "recover":
		// fr is the deferred function; its caller is the panicking frame
		if fr.caller != nil && fr.caller.panicV != nil {
			v := fr.caller.panicV.v
			fr.caller.panicV = nil
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{types.Typ[types.String], "panic"}
		}
		return Iface{}
	case "close":
		m.closeChan(args[0])
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		t := in.Call.Args[0].Type()
		k := basicKind(t)
		for _, y := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if isFloatKind(k) && (isTerm(r) || isTerm(y)) {
				r = m.fMinMax(b.Name() == "max", r, y)
				continue
			}
			c := m.binop(op, y, r, t, t)
			if m.truth(c) {
				r = y
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(asF64(args[0]), asF64(args[1]))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	}
	panic(unsupported("builtin " + b.Name()))
}

// ---- decisions ----

func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.branch(v)
	}
	panic(unsupported(fmt.Sprintf("truth of %T", v)))
}

func (m *Machine) assume(t *Term) {
	if t.op == OAnd {
		for _, a := range t.args {
			m.assume(a)
		}
		return
	}
	if t.isConst() {
		return
	}
	if m.pcset[t] {
		return
	}
	m.pcset[t] = true
	m.pc = append(m.pc, t)
}

// branch decides a symbolic condition, forking when both outcomes are feasible.
func (m *Machine) branch(c *Term) bool {
	if c.isConst() {
		return c.b
	}
	if m.pcset[c] {
		return true
	}
	nc := m.p.Not(c)
	if m.pcset[nc] {
		return false
	}
	switch m.settled(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if m.spec {
		panic(specAbort{})
	}
	pos := len(m.trace)
	if pos < len(m.prefix) {
		d := m.prefix[pos]
		m.trace = append(m.trace, d)
		if d.Alt == 0 {
			m.assume(c)
			return true
		}
		m.assume(nc)
		return false
	}
	if m.maxDec > 0 && pos > m.maxDec {
		m.failf("decisions", "more than %d decisions", m.maxDec)
	}
	m.w.checkDeadline()
	r1, _ := m.w.s.Check(m.pc, []*Term{c}, m.w.brTimeout, nil)
	if r1 == Unsat {
		m.trace = append(m.trace, Decision{Alt: 1})
		m.assume(nc)
		return false
	}
	r2, _ := m.w.s.Check(m.pc, []*Term{nc}, m.w.brTimeout, nil)
	if r2 == Unsat {
		m.trace = append(m.trace, Decision{Alt: 0})
		m.assume(c)
		return true
	}
	if r1 == Unknown || r2 == Unknown {
		m.w.unknownBranches++
	}
	// fork
	m.w.push(append(append([]Decision{}, m.trace...), Decision{Alt: 1}))
	m.trace = append(m.trace, Decision{Alt: 0})
	m.assume(c)
	return true
}

// choose makes an unconstrained n-way choice.
func (m *Machine) choose(n int, why string) int {
	if n <= 1 {
		return 0
	}
	if m.spec {
		panic(specAbort{})
	}
	pos := len(m.trace)
	if pos < len(m.prefix) {
		d := m.prefix[pos]
		m.trace = append(m.trace, d)
		return d.Alt
	}
	for i := n - 1; i >= 1; i-- {
		m.w.push(append(append([]Decision{}, m.trace...), Decision{Alt: i, Val: why}))
	}
	m.trace = append(m.trace, Decision{Alt: 0, Val: why})
	return 0
}

// conc concretises a term by forking over its feasible values.
func (m *Machine) conc(t *Term) *big.Rat {
	if m.spec {
		panic(specAbort{})
	}
	for n := 0; ; n++ {
		pos := len(m.trace)
		if pos < len(m.prefix) {
			d := m.prefix[pos]
			m.trace = append(m.trace, d)
			v, _ := new(big.Rat).SetString(d.Val)
			e := m.eqRat(t, v)
			if d.Alt == 0 {
				m.assume(e)
				return v
			}
			m.assume(m.p.Not(e))
			continue
		}
		if n > 64 {
			m.failf("conc", "too many values for a symbolic integer")
		}
		m.w.checkDeadline()
		r, vals := m.w.s.Check(m.pc, nil, m.w.brTimeout*4, []*Term{t})
		if r == Unsat {
			m.failf("infeasible", "no value")
		}
		if r != Sat {
			m.failf("unsupported", "cannot concretise (solver %s)", r)
		}
		v, ok := modelRat(vals[t])
		if !ok {
			m.failf("unsupported", "cannot read model value %s", vals[t])
		}
		e := m.eqRat(t, v)
		r2, _ := m.w.s.Check(m.pc, []*Term{m.p.Not(e)}, m.w.brTimeout, nil)
		if r2 != Unsat {
			m.w.push(append(append([]Decision{}, m.trace...), Decision{Alt: 1, Val: v.RatString()}))
		}
		m.trace = append(m.trace, Decision{Alt: 0, Val: v.RatString()})
		m.assume(e)
		return v
	}
}

func (m *Machine) eqRat(t *Term, v *big.Rat) *Term {
	if t.sort == SBV {
		n := new(big.Int).Set(v.Num())
		return m.p.Eq(t, m.p.BV(n.Uint64(), int(t.width)))
	}
	return m.p.Eq(t, m.p.Rat(v))
}

func (m *Machine) concInt(v Value, k types.BasicKind) int64 {
	t, ok := v.(*Term)
	if !ok {
		return asI64(v)
	}
	w, sg := kindWidth(k)
	if w == 0 {
		w, sg = int(t.width), true
	}
	r := m.conc(t)
	u := r.Num().Uint64()
	if sg {
		return sext(u, w)
	}
	return int64(u)
}

// concTrunc concretises int(x) for a symbolic real x.
func (m *Machine) concTrunc(t *Term) int64 {
	if t.isConst() {
		q := new(big.Int).Quo(t.rat.Num(), t.rat.Denom())
		return q.Int64()
	}
	var fl *Term
	if m.branch(m.p.Lt(t, m.p.zero)) {
		fl = m.p.Neg(m.p.Floor(m.p.Neg(t)))
	} else {
		fl = m.p.Floor(t)
	}
	if fl.isConst() {
		return fl.rat.Num().Int64()
	}
	r := m.conc(fl)
	return new(big.Int).Quo(r.Num(), r.Denom()).Int64()
}
