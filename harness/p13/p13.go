// Package p13: nearest neighbour classification and regression, nearest centroids.
package p13

import (
	"math"

	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// line returns samples on a line and a query whose distances to them are all different and not tiny,
// with the samples' ranks by distance.
func line(fixed bool) (X, q *mat.Dense, d []float64, rank []int) {
	xs := [][]float64{{0, 1, 3}, {2, -1, 5}, {4, 2, 0}}[vp.Choose("X", 3)]
	n := len(xs)
	X = mat.NewDense(n, 1, append([]float64(nil), xs...))
	q = h.DenseIn("q", 1, 1, -9, 9)
	if fixed {
		q.Set(0, 0, []float64{-3.3, .4, 1.7, 6}[vp.Choose("q", 4)])
	}
	d, rank = make([]float64, n), make([]int, n)
	for i := range d {
		d[i] = math.Abs(X.At(i, 0) - q.At(0, 0))
		vp.Assume(d[i] >= .01)
	}
	for i := range d {
		for j := 0; j < i; j++ {
			vp.Assume(math.Abs(d[i]-d[j]) >= 1e-3)
			if d[i] < d[j] {
				rank[j]++
			} else {
				rank[i]++
			}
		}
	}
	return
}

// plane is the same with two features.
func plane(fixed bool) (X, q *mat.Dense, d []float64, rank []int) {
	X = mat.NewDense(3, 2, []float64{0, 0, 4, 1, 1, 3})
	q = mat.NewDense(1, 2, []float64{vp.FloatIn("q", -9, 9), 1.5})
	if fixed {
		q.Set(0, 0, []float64{-3.3, .4, 1.7, 6}[vp.Choose("qx", 4)])
	}
	d, rank = make([]float64, 3), make([]int, 3)
	for i := range d {
		a, b := X.At(i, 0)-q.At(0, 0), X.At(i, 1)-q.At(0, 1)
		d[i] = math.Sqrt(a*a + b*b)
	}
	for i := range d {
		for j := 0; j < i; j++ {
			vp.Assume(vp.Or(d[i] < d[j], d[i] > d[j]))
			if d[i] < d[j] {
				rank[j]++
			} else {
				rank[i]++
			}
		}
	}
	return
}

func data(fixed bool) (X, q *mat.Dense, d []float64, rank []int) {
	vp.NativeFloats(fixed)
	if vp.Choose("planar", 2) == 1 {
		return plane(fixed)
	}
	return line(fixed)
}

var classValues = []float64{-1, 2, 7}

// labels gives every assignment of three classes to the samples.
func labels(name string, n int) (Y []float64, cl []int) {
	Y, cl = make([]float64, n), make([]int, n)
	for i := range Y {
		cl[i] = vp.Choose(name+h.Itoa(i), 3)
		Y[i] = classValues[cl[i]]
	}
	return
}

// HClassifier: the class with the largest weight among the K nearest wins, the smallest on ties.
func HClassifier() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.MapOrders(true)
	weight := []string{"uniform", "distance"}[vp.Choose("weight", 2)]
	X, q, d, rank := data(weight == "distance")
	n := len(d)
	Y, cl := labels("y", n)
	K := 1 + vp.Choose("K", 3)
	m := neighbors.NewKNeighborsClassifier(K, weight)
	outs := 1
	Ym := mat.NewDense(n, outs, append([]float64(nil), Y...))
	keep := h.Copy(X)
	m.Fit(X, Ym)
	// the model keeps its own copy
	for i := 0; i < n; i++ {
		Ym.Set(i, 0, 99)
	}
	w := make([]float64, 3)
	sum := 0.
	for i := range d {
		if rank[i] < K {
			wi := 1.
			if weight == "distance" {
				wi = 1 / d[i]
			}
			w[cl[i]] += wi
			sum += wi
		}
	}
	var present []int
	for c := range classValues {
		for i := range cl {
			if cl[i] == c {
				present = append(present, c)
				break
			}
		}
	}
	// probabilities
	P := mat.NewDense(1, len(present), nil)
	for c := range present {
		P.Set(0, c, .5)
	}
	m.PredictProba(q, P)
	for j, c := range present {
		vp.Near(P.At(0, j), w[c]/sum, 1e-6, "probability of the class")
	}
	// prediction
	pred := mat.NewDense(1, 1, []float64{55})
	m.Predict(q, pred)
	got := pred.At(0, 0)
	best := 0
	for c := range classValues {
		if got == classValues[c] {
			best = c
		}
	}
	vp.Assert(got == classValues[best] && w[best] > 0, "predicts a class of one of the neighbours")
	for c := range classValues {
		if c == best {
			continue
		}
		if weight == "uniform" {
			vp.Assert(w[c] < w[best] || (w[c] == w[best] && c > best), "no class has more votes, the smallest wins ties")
		} else {
			vp.Assert(w[c] <= w[best]*(1+1e-9), "no class has more weight")
		}
	}
	h.EqMat(X, keep, "data left alone")
	vp.Reach("predicted")
}

// HClassifierOutputs: every output is predicted from its own labels; several queries at once; accuracy.
func HClassifierOutputs() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := mat.NewDense(3, 1, []float64{0, 1, 3})
	A, _ := labels("a", 3)
	B := []float64{5, 6, 5}
	Y := mat.NewDense(3, 2, nil)
	Y.SetCol(0, A)
	Y.SetCol(1, B)
	Y = h.MaybeView("Y", Y)
	m := neighbors.NewKNeighborsClassifier(1, "uniform")
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(2, 1, []float64{7, 8}), mat.NewDense(2, 2, []float64{40, 41, 42, 43}))
	}
	m.Fit(X, Y)
	vp.Assert(m.GetNOutputs() == 2, "number of outputs")
	q := mat.NewDense(2, 1, []float64{vp.FloatIn("q0", -9, 9), 1.2})
	out := new(mat.Dense)
	if vp.Choose("given", 2) == 1 {
		out = h.MaybeView("out", mat.NewDense(2, 2, nil))
	}
	out = m.Predict(q, out)
	r, c := out.Dims()
	vp.Assert(r == 2 && c == 2, "shape")
	right := 0.
	T := mat.NewDense(2, 2, []float64{2, 5, -1, 6})
	for s := 0; s < 2; s++ {
		x := q.At(s, 0)
		vp.Assume(vp.And(x != .5, vp.And(x != 2, x != 1.5)))
		i := 0
		if x > .5 {
			i = 1
		}
		if x > 2 {
			i = 2
		}
		vp.Eq(out.At(s, 0), A[i], "label of the nearest sample")
		vp.Eq(out.At(s, 1), B[i], "label of the nearest sample, second output")
		if A[i] == T.At(s, 0) && B[i] == T.At(s, 1) {
			right += .5
		}
	}
	vp.Eq(m.Score(q, T), right, "accuracy")
}

// HRegressor: the prediction is the weighted mean of the targets of the K nearest samples.
func HRegressor() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	kind := vp.Choose("weights", 3)
	X, q, d, rank := data(kind != 0)
	n := len(d)
	Y := h.MaybeView("Y", h.DenseIn("Y", n, 2, -9, 9))
	K := 1 + vp.Choose("K", 3)
	var weights interface{}
	switch kind {
	case 0:
		weights = "uniform"
	case 1:
		weights = "distance"
	case 2:
		weights = func(dst, dist []float64) {
			for i := range dist {
				dst[i] = 2 + dist[i]
			}
		}
	}
	m := neighbors.NewKNeighborsRegressor(K, weights)
	m.Fit(X, Y)
	Y0 := h.Copy(Y)
	Y.Set(0, 0, 50)
	vp.Assert(m.GetNOutputs() == 2, "number of outputs")
	var out *mat.Dense
	if vp.Choose("given", 2) == 1 {
		out = mat.NewDense(1, 2, nil)
		m.Predict(q, out)
	} else {
		out = m.Predict(q, new(mat.Dense))
	}
	for o := 0; o < 2; o++ {
		num, den := 0., 0.
		for i := range d {
			if rank[i] < K {
				w := 1.
				switch kind {
				case 1:
					w = 1 / d[i]
				case 2:
					w = 2 + d[i]
				}
				num += w * Y0.At(i, o)
				den += w
			}
		}
		if kind != 0 {
			vp.Near(out.At(0, o), num/den, 1e-6, "weighted mean of the targets")
		} else {
			vp.Eq(out.At(0, o), num/den, "weighted mean of the targets")
		}
	}
	vp.Reach("predicted")
}

// HLarge: 14 samples of four classes, five or six neighbours, several queries and outputs.
func HLarge() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	vp.NativeFloats(true)
	n, c := 14, 2
	X := h.Fixed(n, c, 1)
	for i := 0; i < n; i++ {
		X.Set(i, 0, X.At(i, 0)+float64(i)/32) // no ties
	}
	K := 5 + vp.Choose("K", 2)
	L := mat.NewDense(n, 2, nil)
	T := h.Fixed(n, 2, 3)
	cls := []float64{-2, 0, 7, 9}
	for i := 0; i < n; i++ {
		L.Set(i, 0, cls[(i*i+i/2)%4])
		L.Set(i, 1, cls[1+i%3])
	}
	q := h.Fixed(4, c, 6)
	for s := 0; s < 4; s++ {
		q.Set(s, 1, q.At(s, 1)+.03)
	}
	q.Set(2, 0, vp.FloatIn("q", 1, 1.5))
	weight := []string{"uniform", "distance"}[vp.Choose("weight", 2)]
	if weight == "distance" {
		q.Set(2, 0, .3)
		T.Set(5, 1, vp.FloatIn("t", -9, 9))
	}
	mc := neighbors.NewKNeighborsClassifier(K, weight)
	mr := neighbors.NewKNeighborsRegressor(K, weight)
	mc.Fit(X, L)
	mr.Fit(X, T)
	pc, pr := mc.Predict(q, nil), mr.Predict(q, nil)
	m1 := neighbors.NewKNeighborsClassifier(K, weight)
	m1.Fit(X, mat.DenseCopyOf(L.Slice(0, n, 0, 1)))
	proba := mat.NewDense(4, 4, nil)
	m1.PredictProba(q, proba)
	for s := 0; s < 4; s++ {
		d := make([]float64, n)
		for i := range d {
			a, b := X.At(i, 0)-q.At(s, 0), X.At(i, 1)-q.At(s, 1)
			d[i] = a*a + b*b
			for l := 0; s == 2 && l < i; l++ {
				vp.Assume(math.Abs(d[i]-d[l]) >= 1e-3)
			}
		}
		for o := 0; o < 2; o++ {
			votes := make([]float64, 4)
			num, den := 0., 0.
			for i := range d {
				r := 0
				for l := range d {
					if d[l] < d[i] {
						r++
					}
				}
				if r >= K {
					continue
				}
				w := 1.
				if weight == "distance" {
					w = 1 / math.Sqrt(d[i])
				}
				for k := range cls {
					if L.At(i, o) == cls[k] {
						votes[k] += w
					}
				}
				num += w * T.At(i, o)
				den += w
			}
			vp.Near(pr.At(s, o), num/den, 1e-6, "weighted mean of the targets")
			for k := 0; o == 0 && k < 4; k++ {
				vp.Near(proba.At(s, k), votes[k]/den, 1e-6, "probability of the class")
			}
			best := 0
			for k := range cls {
				if votes[k] > votes[best] {
					best = k
				}
			}
			vp.Eq(pc.At(s, o), cls[best], "the class with the most votes")
		}
	}
}

// HCentroidLarge: 11 samples, four classes, three features, several queries.
func HCentroidLarge() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	n, c := 11, 3
	X := h.Fixed(n, c, 2)
	X.Set(4, 1, vp.FloatIn("x", -1, 1))
	cls := []float64{-2, 0, 7, 9}
	Y := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		Y.Set(i, 0, cls[(i*i+i/3)%4])
	}
	metric := []string{"euclidean", "manhattan"}[vp.Choose("metric", 2)]
	m := neighbors.NewNearestCentroid(metric, 0)
	m.Fit(h.MaybeView("X", X), Y)
	q := h.Fixed(5, c, 5)
	out := m.Predict(q, nil)
	C := make([][]float64, 0)
	for _, k := range cls {
		row := make([]float64, c)
		for j := 0; j < c; j++ {
			var v []float64
			for i := 0; i < n; i++ {
				if Y.At(i, 0) == k {
					x := X.At(i, j)
					v = append(v, x)
					for a := len(v) - 1; a > 0 && v[a] < v[a-1]; a-- {
						v[a], v[a-1] = v[a-1], v[a]
					}
				}
			}
			if metric == "manhattan" {
				row[j] = (v[(len(v)-1)/2] + v[len(v)/2]) / 2
			} else {
				for _, x := range v {
					row[j] += x / float64(len(v))
				}
			}
		}
		C = append(C, row)
	}
	for k := range cls {
		for j := 0; j < c; j++ {
			vp.Eq(m.Centroids.At(k, j), C[k][j], "the centroid of the class")
		}
	}
	for s := 0; s < 5; s++ {
		d := make([]float64, len(cls))
		at := -1
		for k := range cls {
			for j := 0; j < c; j++ {
				a := math.Abs(q.At(s, j) - C[k][j])
				if metric == "manhattan" {
					d[k] += a
				} else {
					d[k] += a * a
				}
			}
			if out.At(s, 0) == cls[k] {
				at = k
			}
		}
		vp.Assert(at >= 0, "a known class")
		for k := range cls {
			vp.Assert(d[at] <= d[k]+1e-9, "no centroid is nearer")
		}
	}
}

// HExact: with distance weights a sample at the query decides alone.
func HExact() {
	X := mat.NewDense(3, 1, []float64{0, 1, 3})
	i := vp.Choose("at", 3)
	q := mat.NewDense(1, 1, []float64{X.At(i, 0)})
	Y := h.DenseIn("Y", 3, 1, -9, 9)
	m := neighbors.NewKNeighborsRegressor(3, "distance")
	m.Fit(X, Y)
	out := m.Predict(q, new(mat.Dense))
	vp.Near(out.At(0, 0), Y.At(i, 0), 1e-6, "value at the sample")
	c := neighbors.NewKNeighborsClassifier(3, "distance")
	L, _ := labels("l", 3)
	c.Fit(X, mat.NewDense(3, 1, L))
	out = c.Predict(q, new(mat.Dense))
	vp.Eq(out.At(0, 0), L[i], "label of the sample")
}

func med(v []float64) float64 {
	switch len(v) {
	case 1:
		return v[0]
	case 2:
		return (v[0] + v[1]) / 2
	}
	lo, hi := h.Min(v[0], v[1]), h.Max(v[0], v[1])
	return h.Max(lo, h.Min(hi, v[2]))
}

// HCentroid: samples belong to the class of the nearest centroid: mean, or median for the Manhattan metric.
func HCentroid() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.MapOrders(true)
	c := 1
	X := h.DenseIn("X", 4, c, -9, 9)
	pat := [][]int{{0, 1, 0, 1}, {1, 1, 1, 0}, {2, 0, 1, 2}}[vp.Choose("pattern", 3)]
	metric := []string{"euclidean", "manhattan", ""}[vp.Choose("metric", 3)]
	Y := mat.NewDense(4, 1, nil)
	groups := make([][]float64, 3)
	for i, g := range pat {
		Y.Set(i, 0, classValues[g])
		groups[g] = append(groups[g], X.At(i, 0))
	}
	keep := h.Copy(X)
	m := neighbors.NewNearestCentroid(metric, 0)
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(3, 1, []float64{7, 8, 9}), mat.NewDense(3, 1, []float64{40, 41, 42}))
	}
	m.Fit(X, Y)
	q := h.DenseIn("q", 1, 1, -12, 12)
	var out *mat.Dense
	if vp.Choose("given", 2) == 1 {
		out = mat.NewDense(1, 1, nil)
		m.Predict(q, out)
	} else {
		out = m.Predict(q, new(mat.Dense))
	}
	d := make([]float64, 3)
	for g, v := range groups {
		d[g] = 1000
		if len(v) > 0 {
			ctr := 0.
			if metric == "manhattan" {
				ctr = med(v)
			} else {
				for _, x := range v {
					ctr += x / float64(len(v))
				}
			}
			d[g] = math.Abs(ctr - q.At(0, 0))
		}
	}
	row := 0
	for g, v := range groups {
		if len(v) == 0 {
			continue
		}
		vp.Assert(m.Classes[0][row] == classValues[g] && m.ClassCount[0][row] == len(v), "classes in order, with their counts")
		ctr := 0.
		if metric == "manhattan" {
			ctr = med(v)
		} else {
			for _, x := range v {
				ctr += x / float64(len(v))
			}
		}
		vp.Eq(m.Centroids.At(row, 0), ctr, "the centroid of the class")
		row++
	}
	vp.Assert(len(m.Classes) == 1 && len(m.Classes[0]) == row && len(m.ClassCount[0]) == row, "no other class")
	got := out.At(0, 0)
	k := 0
	for g := range classValues {
		if got == classValues[g] {
			k = g
		}
	}
	vp.Assert(got == classValues[k] && len(groups[k]) > 0, "predicts a known class")
	for g := range d {
		vp.Assert(d[k] <= d[g], "no centroid is nearer")
	}
	h.EqMat(X, keep, "data left alone")
}

// HCentroidPlane: two features.
func HCentroidPlane() {
	vp.MapOrders(true)
	metric := []string{"euclidean", "manhattan"}[vp.Choose("metric", 2)]
	X := mat.NewDense(6, 2, []float64{-1, -1, -2, -1, -3, -2, 1, 1, 2, 1, 3, 2})
	Y := mat.NewDense(6, 1, []float64{1, 1, 1, 2, 2, 2})
	m := neighbors.NewNearestCentroid(metric, 0)
	m.Fit(X, Y)
	q := h.DenseIn("q", 1, 2, -9, 9)
	out := m.Predict(q, new(mat.Dense))
	C := []float64{-2, -4. / 3, 2, 4. / 3}
	if metric == "manhattan" {
		C = []float64{-2, -1, 2, 1}
	}
	d := make([]float64, 2)
	for k := range d {
		a, b := q.At(0, 0)-C[2*k], q.At(0, 1)-C[2*k+1]
		if metric == "manhattan" {
			d[k] = math.Abs(a) + math.Abs(b)
		} else {
			d[k] = a*a + b*b
		}
	}
	vp.Assert(vp.Implies(d[0] < d[1]-1e-6, out.At(0, 0) == 1), "first class when nearer")
	vp.Assert(vp.Implies(d[1] < d[0]-1e-6, out.At(0, 0) == 2), "second class when nearer")
	vp.Assert(vp.Or(out.At(0, 0) == 1, out.At(0, 0) == 2), "a known class")
	vp.Eq(m.Score(mat.NewDense(2, 2, []float64{-2, -1, 2, 1}), mat.NewDense(2, 1, []float64{1, 1})), .5, "accuracy")
}
