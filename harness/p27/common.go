// Package p27: multilayer perceptrons. mlp32.go is mlp64.go with 64 replaced by 32, as basemlp64.go is basemlp32.go the other way.
package p27

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/vp"
)

//go:generate sh -c "sed -e s/64/32/g mlp64.go > mlp32.go"

func up32(x float32) float64 { return float64(x) }
func up64(x float64) float64 { return x }

func in32(name string, lo, hi float32) float32 {
	return vp.Float32In(name, lo, hi)
}
func in64(name string, lo, hi float64) float64 { return vp.FloatIn(name, lo, hi) }

const tol64, tol32 = 1e-6, 2e-3

// state is a random state which draws from v and shuffles by rotation.
type state struct {
	v      []float64
	i      int
	rotate int
	n      []int
}

func (s *state) Seed(uint64)    {}
func (s *state) Uint64() uint64 { s.i++; return uint64(s.i) << 40 }
func (s *state) next() float64 {
	s.i++
	if len(s.v) == 0 {
		return .5
	}
	return s.v[s.i%len(s.v)]
}
func (s *state) Float64() float64 { return s.next() }
func (s *state) Float32() float32 { return float32(s.next()) }
func (s *state) Shuffle(n int, swap func(i, j int)) {
	s.n = append(s.n, n)
	for k := 0; k < s.rotate; k++ {
		for i := 1; i < n; i++ {
			swap(i-1, i)
		}
	}
}

var _ base.RandomState = &state{}

var hiddens = [][]int{{}, {1}, {2}, {2, 1}}
var quarters = []float64{0, .25, .5, .75}
