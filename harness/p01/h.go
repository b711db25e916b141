package p01

import (
	"sync"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/vp"
)

// HSmall: every index of [0,N) is handled exactly once, before the call returns.
func HSmall() {
	nmax, tmax := 6, 4
	if vp.Thorough() {
		nmax, tmax = 9, 6
	}
	vp.CPUs(1 + vp.Choose("cpus", 3))
	n := vp.Conc(vp.Int("N", 0, nmax))
	th := vp.Conc(vp.Int("threads", -1, tmax))
	covers(th, n)
}

// HWide: the same for many threads and items.
func HWide() {
	th := []int{5, 6, 7, 8, 11, 16, 24, 33}[vp.Choose("threads", 8)]
	n := []int{7, 12, 13, 17, 23, 31, 32, 33, 40, 65}[vp.Choose("N", 10)]
	if vp.Choose("cpus", 2) == 1 {
		vp.CPUs(th)
		th = -1
	}
	covers(th, n)
}

func covers(th, n int) {
	count := make([]int, n+1)
	var mu sync.Mutex
	calls := 0
	ok := true
	base.Parallelize(th, n, func(t, start, end int) {
		for i := start; i < end; i++ {
			count[i]++
		}
		mu.Lock()
		calls++
		if start < 0 || end > n || start > end {
			ok = false
		}
		mu.Unlock()
	})
	vp.Assert(ok, "every sub-range lies in [0,N]")
	for i := 0; i < n; i++ {
		vp.Assert(count[i] == 1, "index handled exactly once before return")
	}
	vp.Reach("done")
	if calls > 1 {
		vp.Reach("several workers")
	}
}

// HBig: for any 64-bit N the ranges handed out are contiguous, disjoint and cover [0,N).
func HBig() {
	n := vp.Int("N", 1, 1<<62)
	tmax := 5
	if vp.Thorough() {
		tmax = 8
	}
	th := 1 + vp.Choose("threads", tmax)
	var starts, ends []int
	var mu sync.Mutex
	base.Parallelize(th, n, func(t, start, end int) {
		mu.Lock()
		starts = append(starts, start)
		ends = append(ends, end)
		mu.Unlock()
	})
	// ranges are disjoint, inside [0,N), and their lengths add up to N: they partition [0,N)
	total := 0
	for i := range starts {
		vp.Assert(vp.And(starts[i] >= 0, ends[i] >= starts[i], ends[i] <= n), "range inside [0,N]")
		total += ends[i] - starts[i]
		for j := 0; j < i; j++ {
			vp.Assert(vp.Or(ends[i] <= starts[j], ends[j] <= starts[i], starts[i] == ends[i], starts[j] == ends[j]), "ranges are disjoint")
		}
	}
	vp.Assert(total == n, "ranges cover [0,N)")
	vp.Assert(len(starts) <= th, "no more ranges than threads")
	if len(starts) == 3 {
		vp.Reach("three ranges")
	}
}

// HSched: completion before return, under every schedule with a bounded number of preemptions.
func HSched() {
	vp.Schedules(2)
	n := 1 + vp.Choose("N", 3)
	th := 2 + vp.Choose("threads", 2)
	count := make([]int, n)
	base.Parallelize(th, n, func(t, start, end int) {
		for i := start; i < end; i++ {
			count[i]++
		}
	})
	for i := range count {
		vp.Assert(count[i] == 1, "work is complete when the call returns")
	}
}
