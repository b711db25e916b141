// Package p15: splitting data for validation.
package p15

import (
	"math"

	"github.com/pa-m/sklearn/base"
	ms "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// chooser is a random state whose every decision is arbitrary.
type chooser struct{ n int }

func (c *chooser) name() string   { c.n++; return "draw" + h.Itoa(c.n) }
func (c *chooser) Seed(uint64)    {}
func (c *chooser) Intn(n int) int { return vp.Choose(c.name(), n) }
func (c *chooser) Uint64() uint64 { return vp.Uint64(c.name(), 0) }
func (c *chooser) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, vp.Choose(c.name(), i+1))
	}
}

// split checks one split: every sample is either in the training or in the test part, once.
func split(sp ms.Split, n, want int) {
	seen := make([]int, n)
	for _, part := range [][]int{sp.TrainIndex, sp.TestIndex} {
		for _, i := range part {
			vp.Assert(i >= 0 && i < n, "index in range")
			seen[i]++
		}
	}
	for i := range seen {
		vp.Assert(seen[i] == 1, "every sample is in exactly one part")
	}
	vp.Assert(len(sp.TestIndex) == want, "size of the test part")
	vp.Assert(len(sp.TrainIndex) == n-want, "size of the training part")
}

// HKFold: the requested number of splits, each a partition with the documented sizes, for any random draws.
func HKFold() {
	n := 2 + vp.Choose("n", 4)
	k := []int{0, -1, 1, 2, 3}[vp.Choose("k", 5)]
	want := k
	if k <= 0 {
		want = 3
	}
	shuffle := vp.Choose("shuffle", 2) == 1
	if shuffle {
		max := 3
		if vp.Thorough() {
			max = 4
		}
		vp.Assume(n <= max || (want == 1 && n <= 4))
	}
	f := &ms.KFold{NSplits: k, Shuffle: shuffle, RandomState: &chooser{}}
	X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	vp.Assert(f.GetNSplits(X, Y) == want, "number of splits announced")
	i := 0
	var all []ms.Split
	var sizes []int
	for sp := range f.Split(X, Y) {
		size := n / want
		if i < n%want {
			size++
		}
		split(sp, n, size)
		all, sizes = append(all, sp), append(sizes, size)
		i++
	}
	vp.Assert(i == want, "number of splits")
	for i, sp := range all { // a split stays what it was
		split(sp, n, sizes[i])
	}
	vp.Reach("split")
}

// oneFree is a random state whose draws are fixed but one.
type oneFree struct {
	chooser
	free, k int
}

func (c *oneFree) Intn(n int) int {
	c.k++
	if c.k == c.free {
		return vp.Choose(c.name(), n)
	}
	return (c.k*c.k + 3*c.k) % n
}
func (c *oneFree) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, c.Intn(i+1))
	}
}

// HKFoldWide: more samples and folds, one draw being arbitrary.
func HKFoldWide() {
	n := []int{9, 14, 19}[vp.Choose("n", 3)]
	k := []int{4, 5, 7}[vp.Choose("k", 3)]
	shuffle := vp.Choose("shuffle", 2) == 1
	draws := k
	if shuffle {
		draws = 8
	}
	f := &ms.KFold{NSplits: k, Shuffle: shuffle, RandomState: &oneFree{free: 1 + vp.Choose("free", draws)}}
	i := 0
	for sp := range f.Split(mat.NewDense(n, 1, nil), nil) {
		size := n / k
		if i < n%k {
			size++
		}
		split(sp, n, size)
		i++
	}
	vp.Assert(i == k, "number of splits")
}

// HTestSize: any share of the samples makes a test part of that share, rounded up.
func HTestSize() {
	n := 2 + vp.Choose("n", 5)
	size := vp.FloatIn("size", .001, .999)
	want := 0
	for k := 0; k < n; k++ {
		if float64(k) < size*float64(n) {
			want = k + 1
		}
	}
	vp.Assume(want < n)
	X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	_, Xte, _, Yte := ms.TrainTestSplit(X, Y, size, 1)
	r, _ := Xte.Dims()
	vp.Assert(r == want, "test size")
	r, _ = Yte.Dims()
	vp.Assert(r == want, "test targets")
}

// HSeeds: the rows of many seeds.
func HSeeds() {
	n := 9 + 4*vp.Choose("n", 2)
	X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		X.Set(i, 0, float64(i))
		Y.Set(i, 0, vp.FloatIn("y"+h.Itoa(i), -5, 5))
	}
	Xtr, Xte, Ytr, Yte := ms.TrainTestSplit(X, Y, .3, uint64(vp.Choose("seed", 40)))
	var sp ms.Split
	for part, x := range []*mat.Dense{Xtr, Xte} {
		r, _ := x.Dims()
		for i := 0; i < r; i++ {
			j := int(x.At(i, 0))
			if part == 0 {
				sp.TrainIndex = append(sp.TrainIndex, j)
				vp.Eq(Ytr.At(i, 0), Y.At(j, 0), "targets stay with their row")
			} else {
				sp.TestIndex = append(sp.TestIndex, j)
				vp.Eq(Yte.At(i, 0), Y.At(j, 0), "targets stay with their row")
			}
		}
	}
	split(sp, n, int(math.Ceil(.3*float64(n))))
}

// HKFoldSources: the same holds with plain sources, seeded sources and without any.
func HKFoldSources() {
	n := 3 + vp.Choose("n", 6)
	k := 2 + vp.Choose("k", 2)
	if n > 6 {
		n, k = 10*(n-6)+3, k+2*(n-6)
	}
	f := &ms.KFold{NSplits: k, Shuffle: vp.Choose("shuffle", 2) == 1}
	switch vp.Choose("source", 3) {
	case 0:
		f.RandomState = base.NewLockedSource(uint64(vp.Choose("seed", 3)))
	case 1:
		f.RandomState = base.NewSource(uint64(vp.Choose("seed", 3)))
	case 2:
		if vp.Choose("plain", 2) == 1 {
			vp.Assume(n == 3 && k == 2)
			f.RandomState = &vp.Source{Name: "u", N: 6}
		}
	}
	X := mat.NewDense(n, 2, nil)
	i := 0
	for sp := range f.Split(X, nil) {
		size := n / k
		if i < n%k {
			size++
		}
		split(sp, n, size)
		i++
	}
	vp.Assert(i == k, "number of splits")
}

// HKFoldClone: a clone draws the same splits and leaves the original alone.
func HKFoldClone() {
	n := 5
	seed := uint64(vp.Choose("seed", 4))
	src := func() base.RandomState {
		if vp.Choose("locked", 2) == 1 {
			return base.NewLockedSource(seed)
		}
		return base.NewSource(seed)
	}
	shuffle := vp.Choose("shuffle", 2) == 1
	X := mat.NewDense(n, 1, nil)
	s0 := src()
	f := &ms.KFold{NSplits: 2, Shuffle: shuffle, RandomState: s0}
	g := &ms.KFold{NSplits: 2, Shuffle: shuffle, RandomState: base.NewLockedSource(seed)}
	if _, locked := s0.(*base.LockedSource); !locked {
		g.RandomState = base.NewSource(seed)
	}
	collect := func(s ms.Splitter) (out [][]int) {
		for sp := range s.Split(X, nil) {
			out = append(out, sp.TrainIndex, sp.TestIndex)
		}
		return
	}
	same := func(a, b [][]int) bool {
		for i := range a {
			for j := range a[i] {
				if a[i][j] != b[i][j] {
					return false
				}
			}
		}
		return len(a) == len(b)
	}
	fresh := collect(g)
	c := f.SplitterClone()
	vp.Assert(c.GetNSplits(X, nil) == 2, "clone keeps the number of splits")
	vp.Assert(same(collect(c), fresh), "clone draws what the original would")
	vp.Assert(same(collect(f), fresh), "the original is not advanced by its clone")
	var none *ms.KFold
	_ = none.SplitterClone()
}

// HTrainTest: rows of X and Y are split together into parts of the right size.
func HTrainTest() {
	n := 2 + vp.Choose("n", 7)
	if n > 6 {
		n = 10*(n-6) + 1
	}
	seed := uint64(vp.Choose("seed", 3))
	X, Y := h.Dense("X", n, 2), h.Dense("Y", n, 2)
	for i := 0; i < n; i++ {
		X.Set(i, 0, float64(i))
	}
	X = h.MaybeView("X", X)
	kx, ky := h.Copy(X), h.Copy(Y)
	size := []float64{.25, .33, .5, .75, 2, 1.5}[vp.Choose("size", 6)]
	want := int(math.Ceil(size))
	if size < 1 {
		want = int(math.Ceil(size * float64(n)))
	}
	vp.Assume(want > 0 && want < n)
	Xtr, Xte, Ytr, Yte := ms.TrainTestSplit(X, Y, size, seed)
	r, c := Xte.Dims()
	vp.Assert(r == want && c == 2, "test size")
	r, c = Yte.Dims()
	vp.Assert(r == want && c == 2, "test targets")
	r, c = Xtr.Dims()
	vp.Assert(r == n-want && c == 2, "training size")
	r, c = Ytr.Dims()
	vp.Assert(r == n-want && c == 2, "training targets")
	// the rows are found by the first column of X, all different
	used := make([]bool, n)
	match := func(x, y *mat.Dense, rows int) {
		for i := 0; i < rows; i++ {
			hit := -1
			for j := 0; j < n && hit < 0; j++ {
				if x.At(i, 0) == float64(j) {
					hit = j
				}
			}
			vp.Assert(hit >= 0 && !used[hit], "every row comes from the data, once")
			used[hit] = true
			vp.Eq(x.At(i, 1), X.At(hit, 1), "whole rows")
			vp.Eq(y.At(i, 0), Y.At(hit, 0), "targets stay with their row")
			vp.Eq(y.At(i, 1), Y.At(hit, 1), "targets stay with their row")
		}
	}
	match(Xte, Yte, want)
	match(Xtr, Ytr, n-want)
	h.EqMat(X, kx, "data left alone")
	h.EqMat(Y, ky, "targets left alone")
	// reproducible
	X2, _, _, _ := ms.TrainTestSplit(X, Y, size, seed)
	h.EqMat(X2, Xtr, "same seed, same split")
	vp.Reach("split")
}
