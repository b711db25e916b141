// Package p18: k-means clustering.
package p18

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// sq returns the squared distance of two rows.
func sq(a *mat.Dense, i int, b *mat.Dense, j int) float64 {
	_, m := a.Dims()
	s := 0.
	for k := 0; k < m; k++ {
		d := a.At(i, k) - b.At(j, k)
		s += d * d
	}
	return s
}

// fixpoint asserts that labels are nearest centroids and centroids means of their samples.
func fixpoint(m *cluster.KMeans, X *mat.Dense, k int) {
	n, f := X.Dims()
	r, c := m.Centroids.Dims()
	vp.Assert(r == k && c == f, "one centroid per cluster")
	Y := mat.NewDense(n, 1, nil)
	m.Predict(X, Y)
	cnt := make([]int, k)
	sum := mat.NewDense(k, f, nil)
	for i := 0; i < n; i++ {
		l := int(Y.At(i, 0))
		vp.Assert(l >= 0 && l < k && float64(l) == Y.At(i, 0), "labels are cluster numbers")
		cnt[l]++
		for j := 0; j < f; j++ {
			sum.Set(l, j, sum.At(l, j)+X.At(i, j))
		}
		for o := 0; o < k; o++ {
			vp.Assert(sq(X, i, m.Centroids, l) <= sq(X, i, m.Centroids, o), "nearest centroid")
		}
	}
	for l := range cnt {
		if cnt[l] > 0 {
			for j := 0; j < f; j++ {
				vp.Eq(m.Centroids.At(l, j), sum.At(l, j)/float64(cnt[l]), "centroid is the mean of its samples")
			}
			continue
		}
		// nothing near: an empty cluster keeps a place among the samples
		for j := 0; j < f; j++ {
			lo, hi := X.At(0, j), X.At(0, j)
			for i := 1; i < n; i++ {
				lo, hi = math.Min(lo, X.At(i, j)), math.Max(hi, X.At(i, j))
			}
			vp.Assert(m.Centroids.At(l, j) >= lo && m.Centroids.At(l, j) <= hi, "centroids stay among the samples")
		}
	}
}

// HLine: samples anywhere on a line.
func HLine() {
	vp.CPUs(2)
	k := 1 + vp.Choose("k", 2)
	n := 3
	X := h.MaybeView("X", h.DenseIn("X", n, 1, -9, 9))
	kx := h.Copy(X)
	m := &cluster.KMeans{NClusters: k, NJobs: vp.Choose("jobs", 3)}
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(4, 2, []float64{1, 2, 3, 4, 5, 6, 7, 9}), nil)
	}
	m.Fit(X, nil)
	fixpoint(m, X, k)
	h.EqMat(X, kx, "data left alone")
	vp.Reach("fitted")
}

// HXLine: more samples and clusters.
func HXLine() {
	vp.CPUs(1)
	n, k := 5, 2+vp.Choose("k", 2)
	X := h.DenseIn("X", n, 1, -9, 9)
	m := &cluster.KMeans{NClusters: k, NJobs: 1}
	m.Fit(X, nil)
	fixpoint(m, X, k)
}

var layouts = [][]float64{
	{0, 0, 4, 0, 0, 3, 4, 3},
	{1, 1, 1, 1, 5, 1, 2, 7},
	{-3, 2, 3, -2, 8, 8, 0, 1},
}

// HPlane: one coordinate of samples in the plane is free.
func HPlane() {
	vp.CPUs(1)
	l := layouts[vp.Choose("layout", len(layouts))]
	X := mat.NewDense(4, 2, append([]float64(nil), l...))
	x := vp.FloatIn("x", -9, 9)
	X.Set(vp.Choose("sample", 4), vp.Choose("coordinate", 2), x)
	k := 2 + vp.Choose("k", 2)
	m := &cluster.KMeans{NClusters: k, NJobs: 1}
	if vp.Choose("distance", 2) == 1 {
		m.Distance = cluster.EuclideanDistance
	}
	m.Fit(X, nil)
	fixpoint(m, X, k)
}

// HLarge: 14 samples of three features, four or five clusters, one coordinate of one sample free.
func HLarge() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := h.Fixed(14, 3, 2)
	X.Set([]int{0, 9}[vp.Choose("sample", 2)], 1, vp.FloatIn("x", -2, 2))
	k := 4 + vp.Choose("k", 2)
	m := &cluster.KMeans{NClusters: k, NJobs: []int{1, 3, -1}[vp.Choose("jobs", 3)]}
	m.Fit(X, nil)
	fixpoint(m, X, k)
	Q := h.Fixed(9, 3, 5)
	Y := m.Predict(Q, nil)
	for i := 0; i < 9; i++ {
		at := 0
		for l := 1; l < k; l++ {
			if sq(Q, i, m.Centroids, l) < sq(Q, i, m.Centroids, at) {
				at = l
			}
		}
		vp.Assert(sq(Q, i, m.Centroids, int(Y.At(i, 0))) <= sq(Q, i, m.Centroids, at)+1e-9, "query at its nearest centroid")
	}
}

// HQuery: any query gets the number of its nearest centroid (the first on ties), whatever the storage.
func HQuery() {
	vp.CPUs(2)
	m := &cluster.KMeans{NClusters: 2, NJobs: 1}
	X := mat.NewDense(4, 2, append([]float64(nil), layouts[0]...))
	m.Fit(X, nil)
	C := h.Copy(m.Centroids)
	Q := h.MaybeView("Q", h.DenseIn("Q", 2, 2, -9, 9))
	var out *mat.Dense
	switch vp.Choose("out", 4) {
	case 0:
		out = mat.NewDense(2, 1, []float64{7, 7})
		m.Predict(Q, out)
	case 1:
		out = &mat.Dense{}
		m.Predict(Q, out)
	case 2:
		out = m.Predict(Q, nil)
	case 3:
		out = mat.NewDense(2, 1, nil)
		m.Predict(base.MatTranspose{Matrix: base.MatTranspose{Matrix: Q}}, out)
	}
	r, c := out.Dims()
	vp.Assert(r == 2 && c == 1 && m.GetNOutputs() == 1 && m.IsClassifier(), "one label per query")
	for i := 0; i < 2; i++ {
		d0, d1 := sq(Q, i, C, 0), sq(Q, i, C, 1)
		want := 0.
		if d1 < d0 {
			want = 1
		}
		vp.Eq(out.At(i, 0), want, "nearest centroid")
	}
	h.EqMat(m.Centroids, C, "predicting does not move the centroids")
}

// HManhattan: the given distance is the one used.
func HManhattan() {
	vp.CPUs(1)
	X := h.DenseIn("X", 3, 1, -9, 9)
	calls := 0
	m := &cluster.KMeans{NClusters: 2, NJobs: 1, Distance: func(a, b mat.Vector) float64 {
		calls++
		return 3 * h.Abs(a.AtVec(0)-b.AtVec(0))
	}}
	m.Fit(X, nil)
	vp.Assert(calls > 0, "the given distance is used")
	fixpoint(m, X, 2)
}

// HSchedules: the same whatever the schedule, without races.
func HSchedules() {
	vp.CPUs(2)
	vp.Schedules(1)
	X := mat.NewDense(2, 1, []float64{1, vp.FloatIn("x", -9, 9)})
	m := &cluster.KMeans{NClusters: 1, NJobs: 2}
	if vp.Thorough() {
		m.NClusters = 2
	}
	m.Fit(X, nil)
	if m.NClusters == 2 {
		vp.Assert(m.Centroids.At(0, 0) == 1 && vp.Same(m.Centroids.At(1, 0), X.At(1, 0)), "both samples are centroids")
	} else {
		vp.Eq(m.Centroids.At(0, 0), (1+X.At(1, 0))/2, "mean")
	}
}

// HClone: refitting a clone leaves the original alone.
func HClone() {
	vp.CPUs(1)
	X := h.DenseIn("X", 2, 1, -9, 9)
	m := &cluster.KMeans{NClusters: 2, NJobs: 1}
	m.Fit(X, nil)
	C := h.Copy(m.Centroids)
	c := m.PredicterClone().(*cluster.KMeans)
	h.EqMat(c.Centroids, C, "a clone is fitted alike")
	c.Fit(h.DenseIn("X2", 3, 1, -9, 9), nil)
	h.EqMat(m.Centroids, C, "the original is left alone")
	vp.Assert(vp.Panics(func() { (&cluster.KMeans{NClusters: 3}).Fit(X, nil) }), "more clusters than samples are refused")
}
