// Package p19: density based clustering.
package p19

import (
	"math"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// oracle asserts the definition of density based clusters, near telling which samples are within reach.
func oracle(m *cluster.DBSCAN, n int, near func(i, j int) bool, weight []float64, min float64) {
	vp.Assert(len(m.Labels) == n, "one label per sample")
	nb := make([][]bool, n)
	core := make([]bool, n)
	for i := range nb {
		nb[i] = make([]bool, n)
		w := 0.
		for j := range nb[i] {
			nb[i][j] = near(i, j)
			if nb[i][j] {
				if weight == nil {
					w++
				} else {
					w += weight[j]
				}
			}
		}
		core[i] = w >= min
	}
	// connected components of core samples, numbered by their first sample
	comp := make([]int, n)
	for i := range comp {
		comp[i] = -1
	}
	next := 0
	for i := range comp {
		if !core[i] || comp[i] >= 0 {
			continue
		}
		comp[i] = next
		for again := true; again; {
			again = false
			for a := range comp {
				for b := range comp {
					if core[a] && core[b] && nb[a][b] && comp[a] == next && comp[b] < 0 {
						comp[b] = next
						again = true
					}
				}
			}
		}
		next++
	}
	ci := 0
	for i := range comp {
		if core[i] {
			vp.Assert(ci < len(m.CoreSampleIndices) && m.CoreSampleIndices[ci] == i, "core samples are listed")
			ci++
			vp.Assert(m.Labels[i] == comp[i], "core samples share a label exactly when density-connected")
			continue
		}
		reach := map[int]bool{}
		for j := range comp {
			if core[j] && nb[j][i] {
				reach[comp[j]] = true
			}
		}
		if len(reach) == 0 {
			vp.Assert(m.Labels[i] == -1, "samples out of reach are noise")
		} else {
			vp.Assert(reach[m.Labels[i]], "border samples belong to a cluster in reach")
		}
	}
	vp.Assert(ci == len(m.CoreSampleIndices), "only core samples are listed")
}

var algorithms = []string{"", "auto", "brute", "kd_tree"}

// HLine: any samples on a line.
func HLine() {
	vp.CPUs(1)
	n := 3
	if vp.Thorough() {
		n = 4
	}
	X := h.MaybeView("X", h.DenseIn("X", n, 1, -9, 9))
	kx := h.Copy(X)
	eps := []float64{0, 1, 2.5}[vp.Choose("eps", 3)]
	min := float64(vp.Choose("min", n+1))
	m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: min, Algorithm: algorithms[vp.Choose("algorithm", 4)], NJobs: 1})
	m.Fit(X, nil)
	if eps == 0 {
		eps = .5
	}
	if min == 0 {
		min = 5
	}
	oracle(m, n, func(i, j int) bool { return h.Abs(X.At(i, 0)-X.At(j, 0)) <= eps }, nil, min)
	h.EqMat(X, kx, "data left alone")
	vp.Reach("fitted")
}

// HWeights: samples count with their weight.
func HWeights() {
	vp.CPUs(1)
	X := mat.NewDense(3, 1, []float64{[]float64{0, 1, 2}[vp.Choose("layout", 3)], 1, 3})
	w := vp.FloatsIn("w", 3, -2, 6)
	m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 1.5, MinSamples: 4})
	m.SampleWeight = w
	m.Fit(X, nil)
	oracle(m, 3, func(i, j int) bool { return h.Abs(X.At(i, 0)-X.At(j, 0)) <= 1.5 }, w, 4)
}

// HMetrics: the metric of the configuration decides which samples are near.
func HMetrics() {
	vp.CPUs(1)
	l := [][]float64{{0, 0, 1, 1, 3, 1}, {0, 0, 2, 0, 2, 2}, {1, 1, 1, 1, 2, 2}}[vp.Choose("layout", 3)]
	X := mat.NewDense(3, 2, append([]float64(nil), l...))
	X.Set(0, vp.Choose("coordinate", 2), vp.FloatIn("x", -4, 4))
	metric := []string{"", "euclidean", "manhattan", "cityblock", "l2", "minkowski"}[vp.Choose("metric", 6)]
	p := []float64{0, 1, math.Inf(1)}[vp.Choose("p", 3)]
	eps := 1.5
	m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: 2, Metric: metric, P: p, Algorithm: algorithms[2+vp.Choose("algorithm", 2)], NJobs: 1})
	m.Fit(X, nil)
	near := func(i, j int) bool {
		dx, dy := h.Abs(X.At(i, 0)-X.At(j, 0)), h.Abs(X.At(i, 1)-X.At(j, 1))
		q := 2.
		switch metric {
		case "manhattan", "cityblock":
			q = 1
		case "minkowski":
			if p > 0 {
				q = p
			}
		}
		switch {
		case q == 1:
			return dx+dy <= eps
		case q == 2:
			return dx*dx+dy*dy <= eps*eps
		}
		return dx <= eps && dy <= eps
	}
	oracle(m, 3, near, nil, 2)
}

// HLarge: 16 samples in the plane, one coordinate free: chains, borders between clusters, noise.
func HLarge() {
	cfg := vp.Choose("configuration", 3)
	vp.CPUs(1 + cfg)
	pts := []float64{0, 0, 1, 0, 2, 0, 3, 0, 6, 0, 7, 0, 8, 0, 8, 1, 4.5, 0, 0, 5, 1, 5, 0, 6, 20, 20, -9, 9, 3, 1, 7, 1}
	n := len(pts) / 2
	X := mat.NewDense(n, 2, pts)
	X.Set([]int{8, 14}[vp.Choose("sample", 2)], 0, vp.FloatIn("x", 4, 5.25))
	eps := 1.5
	min := float64(2 + cfg)
	m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: min, Algorithm: algorithms[2+vp.Choose("algorithm", 2)], NJobs: []int{1, 2, -1}[cfg], LeafSize: 4})
	var w []float64
	if cfg == 1 {
		for i := 0; i < n; i++ {
			w = append(w, []float64{1, .5, 2, 0}[i%4])
		}
		m.SampleWeight = w
	}
	m.Fit(X, nil)
	oracle(m, n, func(i, j int) bool {
		dx, dy := X.At(i, 0)-X.At(j, 0), X.At(i, 1)-X.At(j, 1)
		return dx*dx+dy*dy <= eps*eps
	}, w, min)
}

// HDense: many neighbours and many of them needed.
func HDense() {
	vp.NativeFloats(true)
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n := 40
	X := mat.NewDense(n, 2, nil)
	for i := 0; i < n; i++ { // strips of growing density
		X.Set(i, 0, math.Sqrt(float64(i))*2)
		X.Set(i, 1, float64(i%3)/4)
	}
	X.Set(20, 1, vp.FloatIn("x", .125, .25))
	eps := []float64{.9, 1.6}[vp.Choose("eps", 2)]
	min := []float64{5, 9, 12, 14, 20}[vp.Choose("min", 5)]
	m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: eps, MinSamples: min, Algorithm: algorithms[2+vp.Choose("algorithm", 2)], NJobs: 1, LeafSize: 5})
	m.Fit(X, nil)
	oracle(m, n, func(i, j int) bool {
		dx, dy := X.At(i, 0)-X.At(j, 0), X.At(i, 1)-X.At(j, 1)
		return dx*dx+dy*dy <= eps*eps
	}, nil, min)
}

// HRefit: only the last fit counts, and predictions are its labels.
func HRefit() {
	vp.CPUs(2)
	X := h.DenseIn("X", 3, 1, -9, 9)
	m := cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 1, MinSamples: 2, NJobs: []int{-1, 1, 2}[vp.Choose("jobs", 3)]})
	m.Fit(mat.NewDense(4, 2, []float64{0, 0, 0, 1, 5, 5, 5, 6}), nil)
	vp.Assert(m.Labels[0] == 0 && m.Labels[1] == 0 && m.Labels[2] == 1 && m.Labels[3] == 1, "two clusters")
	c := m.PredicterClone().(*cluster.DBSCAN)
	m.Fit(X, nil)
	oracle(m, 3, func(i, j int) bool { return h.Abs(X.At(i, 0)-X.At(j, 0)) <= 1 }, nil, 2)
	vp.Assert(len(c.Labels) == 4 && c.Labels[0] == 0 && c.Labels[3] == 1 && len(c.CoreSampleIndices) == 4 && c.CoreSampleIndices[3] == 3, "a clone is left alone")
	for i := range c.CoreSampleIndices {
		vp.Assert(c.CoreSampleIndices[i] == i, "core samples of the clone are left alone")
	}
	out := mat.NewDense(3, 1, nil)
	m.Predict(X, out)
	ret := m.Predict(X, nil)
	for i, l := range m.Labels {
		vp.Eq(out.At(i, 0), float64(l), "predicted label")
		vp.Eq(ret.At(i, 0), float64(l), "returned label")
	}
	vp.Assert(m.IsClassifier() && m.GetNOutputs() == 1, "kind")
	vp.Assert(vp.Panics(func() { m.Predict(mat.NewDense(2, 1, nil), mat.NewDense(2, 1, nil)) }), "other data is refused")
}

// HDefaults: the documented defaults, in a new configuration.
func HDefaults() {
	cfg := cluster.DBSCANConfig{}
	m := cluster.NewDBSCAN(&cfg)
	if vp.Choose("nil", 2) == 1 {
		m = cluster.NewDBSCAN(nil)
	}
	vp.Assert(m.Eps == .5 && m.MinSamples == 5 && m.Metric == "euclidean" && m.Algorithm == "auto" && m.LeafSize == 30 && m.P == 2, "documented defaults")
}
