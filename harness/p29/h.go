// Package p29: random sources.
package p29

import (
	"sync"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/vp"
	"golang.org/x/exp/rand"
)

var seeds = []uint64{0, 1, 7, 42, 1<<32 - 1, 1<<32 + 7, 1<<63 + 1<<31, 1<<64 - 1}

// HReplay: equal seeds give equal streams; a clone continues the stream without disturbing the original.
func HReplay() {
	seed := seeds[vp.Choose("seed", len(seeds))]
	before := []int{0, 1, 2, 313, 700}[vp.Choose("before", 5)]
	after := 1 + vp.Choose("after", 3)
	mk := func() base.Source {
		if vp.Choose("kind", 2) == 0 {
			return base.NewSource(seed)
		}
		return base.NewLockedSource(seed)
	}
	a := mk()
	b := base.NewSource(seed)
	for i := 0; i < before; i++ {
		vp.Assert(a.Uint64() == b.Uint64(), "equal seeds give equal streams")
	}
	c := a.(base.SourceCloner).SourceClone()
	ref := make([]uint64, after)
	for i := range ref {
		ref[i] = b.Uint64()
	}
	for i := 0; i < after; i++ {
		vp.Assert(c.Uint64() == ref[i], "a clone continues the stream")
	}
	for i := 0; i < after; i++ {
		vp.Assert(a.Uint64() == ref[i], "using a clone does not disturb the original")
	}
	a.Seed(seed)
	fresh := base.NewSource(seed)
	vp.Assert(a.Uint64() == fresh.Uint64(), "reseeding restarts the stream")
	again := seeds[vp.Choose("again", 3)*3]
	c.Seed(again)
	vp.Assert(a.Uint64() == fresh.Uint64(), "reseeding a clone does not disturb the original")
	a.Seed(again)
	fresh = base.NewSource(again)
	for i := 0; i < 3; i++ {
		v := fresh.Uint64()
		vp.Assert(a.Uint64() == v, "reseeding starts the stream of the new seed")
		vp.Assert(c.Uint64() == v, "reseeding a clone starts the stream of the new seed")
	}
}

// HConcurrent: a locked source shared by goroutines hands out every value of the stream exactly once.
func HConcurrent() {
	vp.Schedules(2)
	src := base.NewLockedSource(3)
	ref := base.NewSource(3)
	var got [2][2]uint64
	var wg sync.WaitGroup
	kind := vp.Choose("op", 3)
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			switch {
			case kind == 0 || kind == 1 && g == 0:
				got[g][0] = src.Uint64()
				got[g][1] = src.Uint64()
			default:
				src.WithLock(func(s base.Source) {
					got[g][0] = s.Uint64()
					got[g][1] = s.Uint64()
				})
			}
		}(g)
	}
	wg.Wait()
	want := map[uint64]int{}
	idx := map[uint64]int{}
	for i := 0; i < 4; i++ {
		v := ref.Uint64()
		want[v]++
		idx[v] = i
	}
	for g := 0; g < 2; g++ {
		for k := 0; k < 2; k++ {
			want[got[g][k]]--
		}
		vp.Assert(idx[got[g][0]] < idx[got[g][1]], "each goroutine sees the stream in order")
		if kind == 2 || kind == 1 && g == 1 {
			vp.Assert(idx[got[g][0]]+1 == idx[got[g][1]], "draws made under the lock are consecutive")
		}
	}
	for _, n := range want {
		vp.Assert(n == 0, "every value of the stream is handed out exactly once")
	}
}

// HSeedConcurrent: reseeding and cloning from another goroutine are not data races.
func HSeedConcurrent() {
	vp.Schedules(2)
	src := base.NewLockedSource(3)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		src.Uint64()
	}()
	switch vp.Choose("op", 2) {
	case 0:
		src.Seed(5)
		wg.Wait()
	case 1:
		c := src.SourceClone()
		wg.Wait()
		c.Uint64()
	}
	vp.Assert(true, "done")
}

// HPanic: a callback that panics leaves the source usable.
func HPanic() {
	src := base.NewLockedSource(3)
	if vp.Choose("panic", 2) == 1 {
		vp.Assert(vp.Panics(func() { src.WithLock(func(base.Source) { panic("boom") }) }), "the panic is propagated")
	}
	vp.Assert(src.Uint64() == base.NewSource(3).Uint64(), "the source still works")
}

// HRand: generators derived from equal seeds agree on permutations and bounded draws.
func HRand() {
	seed := seeds[vp.Choose("seed", len(seeds))]
	a, b := rand.New(base.NewLockedSource(seed)), rand.New(base.NewSource(seed))
	p, q := a.Perm(5), b.Perm(5)
	for i := range p {
		vp.Assert(p[i] == q[i], "permutations agree")
	}
	vp.Assert(a.Intn(10) == b.Intn(10), "draws agree")
}

// HMany: three goroutines, one of which clones the source.
func HMany() {
	vp.Schedules(1)
	src := base.NewLockedSource(3)
	ref := base.NewSource(3)
	var wg sync.WaitGroup
	var got [3]uint64
	var c base.Source
	third := vp.Choose("third", 2)
	for g := 0; g < 3; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			switch {
			case g == 1:
				src.WithLock(func(s base.Source) { got[g] = s.Uint64() })
			case g == 2 && third == 1:
				c = src.SourceClone()
			default:
				got[g] = src.Uint64()
			}
		}(g)
	}
	wg.Wait()
	idx := map[uint64]int{}
	for i := 0; i < 4; i++ {
		idx[ref.Uint64()] = i + 1
	}
	n := 3 - third
	seen := map[int]bool{}
	for g := 0; g < n; g++ {
		k := idx[got[g]]
		vp.Assert(k >= 1 && k <= n && !seen[k], "every value of the stream is handed out exactly once")
		seen[k] = true
	}
	vp.Assert(idx[src.Uint64()] == n+1, "the stream goes on")
	if c != nil {
		k := idx[c.Uint64()]
		vp.Assert(k >= 1 && k <= n+1, "a clone continues the stream from where it was")
	}
}

// HLockedDraws: draws made under the lock, directly and of clones, are those of one stream.
func HLockedDraws() {
	seed := seeds[vp.Choose("seed", len(seeds))]
	src, ref := base.NewLockedSource(seed), base.NewSource(seed)
	for i := 0; i < 3; i++ {
		vp.Assert(src.Uint64() == ref.Uint64(), "direct draw")
		src.WithLock(func(s base.Source) { vp.Assert(s.Uint64() == ref.Uint64(), "draw under the lock") })
		c := src.SourceClone().(*base.LockedSource)
		want := ref.SourceClone().Uint64()
		c.WithLock(func(s base.Source) { vp.Assert(s.Uint64() == want, "draw of a clone under its lock") })
		if i == 1 {
			vp.Panics(func() { src.WithLock(func(s base.Source) { s.Uint64(); panic("boom") }) })
			ref.Uint64()
			c = src.SourceClone().(*base.LockedSource)
			vp.Assert(c.Uint64() == ref.SourceClone().Uint64(), "clone after a panic")
		}
	}
	src.WithLock(func(s base.Source) { s.Seed(seed + 1) })
	vp.Assert(src.Uint64() == base.NewSource(seed+1).Uint64(), "reseeding under the lock")
}

// HSeed: whatever the seed.
func HSeed() {
	seed := vp.Uint64("seed", 1<<63)
	a, b := base.NewLockedSource(seed), base.NewSource(seed)
	vp.Assert(a.Uint64() == b.Uint64(), "equal seeds give equal streams")
	c := a.SourceClone()
	v := b.Uint64()
	vp.Assert(c.Uint64() == v, "a clone continues the stream")
	vp.Assert(a.Uint64() == v, "using a clone does not disturb the original")
	a.Seed(seed)
	vp.Assert(a.Uint64() == base.NewSource(seed).Uint64(), "reseeding restarts the stream")
}
