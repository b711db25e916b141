package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type vclock []int32

func (v vclock) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (v *vclock) set(i int, x int32) {
	for len(*v) <= i {
		*v = append(*v, 0)
	}
	(*v)[i] = x
}

func (v *vclock) join(o vclock) {
	for i, x := range o {
		if x > v.at(i) {
			v.set(i, x)
		}
	}
}

func (v vclock) clone() vclock { return append(vclock{}, v...) }

func (v vclock) leq(o vclock) bool {
	for i, x := range v {
		if x > o.at(i) {
			return false
		}
	}
	return true
}

// G is an interpreted goroutine; exactly one G runs at a time.
type G struct {
	id     int
	wake   chan struct{}
	exited chan struct{}
	wait   func() bool
	done   bool
	vc     vclock
	lastFr *frame
	why    string
	last   int32 // own clock at the last tracked access
}

type mutexT struct {
	locked  bool
	readers int
	vc      vclock
	rvc     vclock
}

type wgT struct {
	n  int64
	vc vclock
}

type shadowT struct {
	wg  int
	wc  int32
	wfn string
	rd  []readT
}

type readT struct {
	g  int
	c  int32
	fn string
}

type killT struct{}

func (m *Machine) initSched() {
	g := &G{id: 0, wake: make(chan struct{}, 1)}
	g.vc.set(0, 1)
	m.gs = []*G{g}
	m.cur = g
}

func (m *Machine) tick() { m.cur.vc.set(m.cur.id, m.cur.vc.at(m.cur.id)+1) }

func (m *Machine) fnNow() string {
	if m.lastFr != nil {
		return m.lastFr.c.name
	}
	return "?"
}

// accessDeep records the access of every leaf of an aggregate.
func (m *Machine) accessDeep(a *Value, write bool) {
	switch v := (*a).(type) {
	case Struct:
		for i := range v {
			m.accessDeep(&v[i], write)
		}
	case Array:
		for i := range v {
			m.accessDeep(&v[i], write)
		}
	default:
		m.access(a, write)
	}
}

// access records a memory access and reports a data race when two unordered accesses conflict.
func (m *Machine) access(a *Value, write bool) {
	if m.spec {
		return
	}
	g := m.cur
	g.last = g.vc.at(g.id)
	s := m.shadow[a]
	if s == nil {
		s = &shadowT{wg: -1}
		m.shadow[a] = s
	}
	if s.wg >= 0 && s.wg != g.id && s.wc > g.vc.at(s.wg) {
		m.raceFound(s.wfn, "write", write)
	}
	if write {
		for _, r := range s.rd {
			if r.g != g.id && r.c > g.vc.at(r.g) {
				m.raceFound(r.fn, "read", true)
			}
		}
		s.wg, s.wc, s.wfn = g.id, g.vc.at(g.id), m.fnNow()
		s.rd = s.rd[:0]
		return
	}
	for i := range s.rd {
		if s.rd[i].g == g.id {
			s.rd[i].c = g.vc.at(g.id)
			return
		}
	}
	s.rd = append(s.rd, readT{g.id, g.vc.at(g.id), m.fnNow()})
}

func (m *Machine) raceFound(other, kind string, write bool) {
	k := "read"
	if write {
		k = "write"
	}
	panic(&abortT{"race", fmt.Sprintf("data race: %s in %s unordered with earlier %s in %s", k, m.fnNow(), kind, other)})
}

func (m *Machine) spawn(cl *Closure, args []Value) {
	if m.spec {
		panic(specAbort{})
	}
	if len(m.gs) > 4096 {
		m.failf("unsupported", "too many goroutines")
	}
	m.ngor++
	g := &G{id: len(m.gs), wake: make(chan struct{}, 1), exited: make(chan struct{})}
	g.vc = m.cur.vc.clone()
	g.vc.set(g.id, 1)
	m.tick()
	m.gs = append(m.gs, g)
	m.races = !m.noRace
	go func() {
		defer close(g.exited)
		<-g.wake
		defer func() {
			r := recover()
			g.done = true
			switch r := r.(type) {
			case nil:
			case killT:
				return
			case *abortT:
				if m.abort == nil {
					m.abort = r
				}
			case *goPanicT:
				if m.abort == nil {
					m.abort = &abortT{"panic", "panic in goroutine: " + r.msg + " at " + r.where}
				}
			case unsupportedErr:
				if m.abort == nil {
					m.abort = &abortT{"unsupported", r.msg}
				}
			case specAbort:
				m.abort = &abortT{"unsupported", "speculation escaped"}
			default:
				m.abort = &abortT{"internal", fmt.Sprint(r) + hostStack()}
			}
			m.exitG(g)
		}()
		if m.killing {
			panic(killT{})
		}
		m.callClosure(cl, args, nil)
	}()
	m.schedPoint()
}

// exitG hands the baton on when a goroutine ends.
func (m *Machine) exitG(g *G) {
	if m.killing {
		return
	}
	if m.abort != nil {
		m.gs[0].wake <- struct{}{}
		return
	}
	var next *G
	func() {
		defer func() {
			if r := recover(); r != nil {
				if a, ok := r.(*abortT); ok {
					m.abort = a
				} else {
					m.abort = &abortT{"internal", fmt.Sprint(r)}
				}
			}
		}()
		next = m.pick(g)
	}()
	if m.abort != nil {
		m.gs[0].wake <- struct{}{}
		return
	}
	if next == nil {
		m.abort = &abortT{"deadlock", "all goroutines are asleep"}
		m.gs[0].wake <- struct{}{}
		return
	}
	m.resume(next)
}

func (m *Machine) resume(g *G) {
	g.wait = nil
	m.cur = g
	m.lastFr = g.lastFr
	g.wake <- struct{}{}
}

func (m *Machine) runnable() []*G {
	var out []*G
	for _, g := range m.gs {
		if !g.done && (g.wait == nil || g.wait()) {
			out = append(out, g)
		}
	}
	return out
}

// pick selects the next goroutine after from blocked or ended.
func (m *Machine) pick(from *G) *G {
	rs := m.runnable()
	if len(rs) == 0 {
		return nil
	}
	k := 0
	for i, g := range rs {
		if g.id > from.id {
			k = i
			break
		}
	}
	// default: round robin
	if m.newest {
		k = len(rs) - 1
		if len(rs) > 1 && rs[k] == from {
			k--
		}
	}
	if m.explore && len(rs) > 1 {
		m.schedPts++
		c := m.choose(len(rs), "sched")
		k = (k + c) % len(rs)
	}
	return rs[k]
}

func (m *Machine) switchFrom(g *G, next *G) {
	if next == g {
		g.wait = nil
		return
	}
	g.lastFr = m.lastFr
	m.resume(next)
	<-g.wake
	m.lastFr = g.lastFr
	if m.killing {
		panic(killT{})
	}
	if m.abort != nil {
		if g.id == 0 {
			panic(m.abort)
		}
		panic(killT{})
	}
	m.cur = g
}

// block suspends the current goroutine until cond holds.
func (m *Machine) block(why string, cond func() bool) {
	if m.spec {
		panic(specAbort{})
	}
	if cond() {
		return
	}
	g := m.cur
	g.wait, g.why = cond, why
	next := m.pick(g)
	if next == nil {
		panic(&abortT{"deadlock", "all goroutines are asleep: " + why + " in " + m.fnNow()})
	}
	m.switchFrom(g, next)
}

// schedPoint lets another goroutine run when schedules are explored and the preemption budget allows.
func (m *Machine) schedPoint() {
	if !m.explore || m.preempt <= 0 || m.spec {
		return
	}
	rs := m.runnable()
	if len(rs) <= 1 {
		return
	}
	m.schedPts++
	// alternative 0: continue
	others := rs[:0:0]
	for _, g := range rs {
		if g != m.cur {
			others = append(others, g)
		}
	}
	c := m.choose(len(others)+1, "preempt")
	if c == 0 {
		return
	}
	m.preempt--
	m.switchFrom(m.cur, others[c-1])
}

// cleanup ends every goroutine still alive at the end of a path.
func (m *Machine) cleanup() {
	m.killing = true
	for _, g := range m.gs[1:] {
		select {
		case <-g.exited:
			continue
		default:
		}
		select {
		case g.wake <- struct{}{}:
		default:
		}
		<-g.exited
	}
}

func (m *Machine) mutex(a *Value) *mutexT {
	mu := m.mutexes[a]
	if mu == nil {
		mu = &mutexT{}
		m.mutexes[a] = mu
	}
	return mu
}

func (m *Machine) lock(a *Value) {
	if a == nil {
		m.nilDeref()
	}
	if m.spec {
		panic(specAbort{})
	}
	m.schedPoint()
	mu := m.mutex(a)
	m.block("mutex lock", func() bool { return !mu.locked && mu.readers == 0 })
	mu.locked = true
	m.cur.vc.join(mu.vc)
	m.cur.vc.join(mu.rvc)
}

func (m *Machine) unlock(a *Value) {
	if a == nil {
		m.nilDeref()
	}
	if m.spec {
		panic(specAbort{})
	}
	mu := m.mutex(a)
	if !mu.locked {
		panic(&abortT{"panic", "fatal error: sync: unlock of unlocked mutex"})
	}
	mu.locked = false
	mu.vc = m.cur.vc.clone()
	m.tick()
	m.schedPoint()
}

func (m *Machine) rlock(a *Value) {
	if m.spec {
		panic(specAbort{})
	}
	m.schedPoint()
	mu := m.mutex(a)
	m.block("rwmutex rlock", func() bool { return !mu.locked })
	mu.readers++
	m.cur.vc.join(mu.vc)
}

func (m *Machine) runlock(a *Value) {
	if m.spec {
		panic(specAbort{})
	}
	mu := m.mutex(a)
	if mu.readers <= 0 {
		panic(&abortT{"panic", "fatal error: sync: RUnlock of unlocked RWMutex"})
	}
	mu.readers--
	mu.rvc.join(m.cur.vc)
	m.tick()
	m.schedPoint()
}

func (m *Machine) wg(a *Value) *wgT {
	if a == nil {
		m.nilDeref()
	}
	if m.spec {
		panic(specAbort{})
	}
	w := m.wgs[a]
	if w == nil {
		w = &wgT{}
		m.wgs[a] = w
	}
	return w
}

func (m *Machine) wgAdd(a *Value, n int64) {
	w := m.wg(a)
	w.n += n
	if w.n < 0 {
		m.goPanic(&goPanicT{v: Iface{types.Typ[types.String], "sync: negative WaitGroup counter"}, msg: "sync: negative WaitGroup counter"})
	}
	if n < 0 {
		w.vc.join(m.cur.vc)
		m.tick()
	}
	m.schedPoint()
}

func (m *Machine) wgWait(a *Value) {
	w := m.wg(a)
	m.block("WaitGroup.Wait", func() bool { return w.n == 0 })
	m.cur.vc.join(w.vc)
	m.quiesce()
}

// quiesce switches race tracking off once every other goroutine has ended and is ordered before the current one.
func (m *Machine) quiesce() {
	for _, g := range m.gs {
		if g != m.cur && (!g.done || g.last > m.cur.vc.at(g.id)) {
			return
		}
	}
	m.races = false
	m.shadow = map[*Value]*shadowT{}
}

// ---- channels ----

func (m *Machine) send(cv Value, v Value) {
	c, _ := cv.(*Chan)
	if c == nil {
		m.block("send on nil channel", func() bool { return false })
	}
	m.schedPoint()
	if c.closed {
		m.goPanic(&goPanicT{v: Iface{types.Typ[types.String], "send on closed channel"}, msg: "send on closed channel"})
	}
	r := &sendReq{v: copyVal(v), vc: m.cur.vc.clone()}
	m.tick()
	if c.cap > 0 {
		m.block("chan send", func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			m.goPanic(&goPanicT{v: Iface{types.Typ[types.String], "send on closed channel"}, msg: "send on closed channel"})
		}
		c.buf = append(c.buf, r)
		m.cur.vc.join(c.vc) // capacity release orders the receiver before this send
		return
	}
	c.sendq = append(c.sendq, r)
	m.block("chan send", func() bool { return r.taken || c.closed })
	if !r.taken {
		m.goPanic(&goPanicT{v: Iface{types.Typ[types.String], "send on closed channel"}, msg: "send on closed channel"})
	}
	m.cur.vc.join(r.vc)
}

func (m *Machine) recv(cv Value) (Value, bool) {
	c, _ := cv.(*Chan)
	if c == nil {
		m.block("receive on nil channel", func() bool { return false })
	}
	m.schedPoint()
	ready := func() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }
	m.block("chan receive", ready)
	return m.take(c)
}

func (m *Machine) take(c *Chan) (Value, bool) {
	if len(c.buf) > 0 {
		r := c.buf[0].(*sendReq)
		c.buf = c.buf[1:]
		m.cur.vc.join(r.vc)
		c.vc.join(m.cur.vc)
		m.tick()
		m.quiesce()
		return r.v, true
	}
	if len(c.sendq) > 0 {
		r := c.sendq[0]
		c.sendq = c.sendq[1:]
		m.cur.vc.join(r.vc)
		r.taken = true
		r.vc = m.cur.vc.clone()
		m.tick()
		m.quiesce()
		return r.v, true
	}
	m.cur.vc.join(c.vc)
	return nil, false
}

func (m *Machine) closeChan(cv Value) {
	c, _ := cv.(*Chan)
	if c == nil {
		m.goPanic(m.runtimeErr("close of nil channel"))
	}
	if c.closed {
		m.goPanic(m.runtimeErr("close of closed channel"))
	}
	c.closed = true
	c.vc.join(m.cur.vc)
	m.tick()
}

func (m *Machine) sel(fr *frame, ic *icode, in *ssa.Select) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
	}
	var sts []st
	for i, s := range in.States {
		c, _ := m.get(fr, &ic.ops[2*i]).(*Chan)
		x := st{c: c, send: s.Dir == types.SendOnly}
		if x.send {
			x.v = m.get(fr, &ic.ops[2*i+1])
		}
		sts = append(sts, x)
	}
	ready := func() []int {
		var out []int
		for i, s := range sts {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || len(s.c.buf) < s.c.cap || s.c.recvq > len(s.c.sendq) {
					out = append(out, i)
				}
			} else if len(s.c.buf) > 0 || len(s.c.sendq) > 0 || s.c.closed {
				out = append(out, i)
			}
		}
		return out
	}
	m.schedPoint()
	if !in.Blocking && len(ready()) == 0 {
		return m.selResult(in, -1, nil, false)
	}
	m.block("select", func() bool { return len(ready()) > 0 })
	rs := ready()
	k := rs[0]
	if m.explore && len(rs) > 1 {
		k = rs[m.choose(len(rs), "select")]
	}
	if sts[k].send {
		m.send(sts[k].c, sts[k].v)
		return m.selResult(in, k, nil, false)
	}
	v, ok := m.take(sts[k].c)
	return m.selResult(in, k, v, ok)
}

func (m *Machine) selResult(in *ssa.Select, k int, v Value, ok bool) Value {
	res := Tuple{k, ok}
	for i, s := range in.States {
		if s.Dir == types.RecvOnly {
			if i == k && v != nil {
				res = append(res, v)
			} else {
				res = append(res, zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return res
}
