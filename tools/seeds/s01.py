id='S01-parallel-tail'; prop='P01'; pkg='base'
needs='N larger than the thread count and not a multiple of it, with the remainder lost by the rounded-down share'
breaks='Parallelize skips the last N mod threads items'
edits=[('base/parallel.go','''		sampPerTh := (NSamples + threads - 1) / threads
''','''		sampPerTh := NSamples / threads
		if sampPerTh < 8 {
			sampPerTh = (NSamples + threads - 1) / threads
		}
''')]
demo='''package base

import "testing"

func TestZZDemo(t *testing.T) {
	for _, n := range []int{5, 8, 16, 34, 101} {
		for th := 1; th < 5; th++ {
			seen := make([]int, n)
			Parallelize(th, n, func(_, s, e int) {
				for i := s; i < e; i++ {
					seen[i]++
				}
			})
			for i, k := range seen {
				if k != 1 {
					t.Fatalf("n=%d threads=%d index %d visited %d times", n, th, i, k)
				}
			}
		}
	}
}
'''
