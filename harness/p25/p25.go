// Package p25: Gaussian naive Bayes.
package p25

import (
	"math"

	"github.com/pa-m/sklearn/base"
	naivebayes "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/floats"
	"gonum.org/v1/gonum/mat"
)

// names are the labels, not in order.
var names = []float64{3, -1.5, 7}

func labels(name string, n, k int) *mat.Dense {
	y := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		y.Set(i, 0, names[vp.Choose(name+h.Itoa(i), k)])
	}
	return y
}

// moments are the weighted count, mean and variance of the rows selected.
func moments(X, Y, W *mat.Dense, j int, in func(i int) bool) (n, mean, va float64) {
	r, _ := X.Dims()
	for i := 0; i < r; i++ {
		if in(i) {
			n += W.At(i, 0)
			mean += W.At(i, 0) * X.At(i, j)
		}
	}
	mean /= n
	for i := 0; i < r; i++ {
		if in(i) {
			d := X.At(i, j) - mean
			va += W.At(i, 0) * d * d
		}
	}
	return n, mean, va / n
}

func present(Y mat.Matrix) (cl []float64) {
	n, _ := Y.Dims()
	for _, c := range []float64{-1.5, 3, 7} {
		for i := 0; i < n; i++ {
			if Y.At(i, 0) == c {
				cl = append(cl, c)
				break
			}
		}
	}
	return
}

// agrees asserts that m is the fit of X,Y,W with the class list cl.
func agrees(m *naivebayes.GaussianNB, X, Y, W *mat.Dense, cl []float64, eps, tol float64) {
	n, p := X.Dims()
	vp.Assert(len(m.Classes) == len(cl), "classes")
	total := 0.
	for i := 0; i < n; i++ {
		total += W.At(i, 0)
	}
	for c, v := range cl {
		vp.Assert(m.Classes[c] == v, "classes")
		v := v
		in := func(i int) bool { return Y.At(i, 0) == v }
		some := false
		for i := 0; i < n; i++ {
			some = some || in(i)
		}
		if !some {
			vp.Eq(m.ClassCount[c], 0, "no sample of the class")
			continue
		}
		for j := 0; j < p; j++ {
			cnt, mean, va := moments(X, Y, W, j, in)
			vp.Near(m.ClassCount[c], cnt, tol, "class count")
			if m.Priors == nil {
				vp.Near(m.ClassPrior[c], cnt/total, tol, "class prior")
			} else {
				vp.Eq(m.ClassPrior[c], m.Priors[c], "class prior given")
			}
			vp.Near(m.Theta.At(c, j), mean, tol, "mean of the class")
			vp.Near(m.Sigma.At(c, j)-eps, va, tol, "variance of the class")
		}
	}
}

func ones(n int) *mat.Dense {
	W := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		W.Set(i, 0, 1)
	}
	return W
}

// HFit: means, variances, counts and priors of any data.
func HFit() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n := 3
	if vp.Thorough() {
		n = 4
	}
	p := 1 + vp.Choose("features", 2)
	X, Y, W := h.DenseIn("X", n, p, -4, 4), labels("y", n, 3), ones(n)
	m := naivebayes.NewGaussianNB(nil, []float64{.25, 0}[vp.Choose("smoothing", 2)])
	switch vp.Choose("weights", 3) {
	case 1:
		m.SampleWeight = make([]float64, n)
		for i := range m.SampleWeight {
			m.SampleWeight[i] = []float64{2, .5, 1, 3}[i]
			W.Set(i, 0, m.SampleWeight[i])
		}
	case 2:
		cl := present(Y)
		m.Priors = [][]float64{{1}, {.25, .75}, {.5, .25, .25}}[len(cl)-1]
	}
	x0, y0 := h.Copy(X), h.Copy(Y)
	var Xm, Ym mat.Matrix = X, Y
	switch vp.Choose("kind", 3) {
	case 1:
		Xm, Ym = h.Copy(X.T()).T(), h.Copy(Y.T()).T()
	case 2:
		Xm, _ = h.View(X)
		Ym, _ = h.View(Y)
	}
	m.Fit(Xm, Ym)
	h.EqMat(X, x0, "X left alone")
	h.EqMat(Y, y0, "Y left alone")
	vp.Assert(m.IsClassifier(), "a classifier")
	vp.Assert(m.GetNOutputs() == 1, "outputs")
	eps := 0.
	for j := 0; j < p; j++ {
		_, _, va := moments(X, Y, W, j, func(int) bool { return true })
		eps = h.Max(eps, va)
	}
	eps *= m.VarSmoothing
	vp.Near(m.Epsilon, eps, 1e-9, "smoothing")
	agrees(m, X, Y, W, present(Y), eps, 1e-6)
}

// HPartial: data seen in two batches are as data seen at once.
func HPartial() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	p := 1
	X, Y, W := h.DenseIn("X", n, p, -4, 4), labels("y", n, 2), ones(n)
	if vp.Choose("weights", 2) == 1 {
		for i := 0; i < n; i++ {
			W.Set(i, 0, []float64{2, .5, 1, 3}[i])
		}
	}
	split := 1 + vp.Choose("split", n-1)
	classes := []float64{-1.5, 3, 7}
	m := naivebayes.NewGaussianNB(nil, .25)
	x, y, w := X.RawMatrix().Data, Y.RawMatrix().Data, W.RawMatrix().Data
	m.PartialFit(mat.NewDense(split, p, x[:split*p]), mat.NewDense(split, 1, y[:split]), classes, vp.Choose("refit", 2) == 1, w[:split])
	classes[0], classes[1] = 55, 66 // the caller's to reuse
	m.PartialFit(mat.NewDense(n-split, p, x[split*p:]), mat.NewDense(n-split, 1, y[split:]), nil, false, w[split:])
	_, _, va := moments(mat.NewDense(n-split, p, x[split*p:]), nil, mat.NewDense(n-split, 1, w[split:]), 0, func(int) bool { return true })
	vp.Near(m.Epsilon, .25*va, 1e-9, "smoothing of the last batch")
	agrees(m, X, Y, W, []float64{-1.5, 3, 7}, m.Epsilon, 1e-6)
}

// HRefit: a fit after a fit, or after partial fits, is a first fit.
func HRefit() {
	X1 := h.Const(3, 2, 1, 2, 4, -1, 0, 3)
	Y1 := h.Const(3, 1, 3, 7, 3)
	n, p := 3, 1+vp.Choose("features", 2)
	X, Y := h.DenseIn("X", n, p, -4, 4), labels("y", n, 3)
	m := naivebayes.NewGaussianNB(nil, .5)
	switch vp.Choose("before", 3) {
	case 0:
		m.Fit(X1, Y1)
	case 1:
		m.PartialFit(X1, Y1, []float64{3, 7}, false, nil)
		m.PartialFit(X1, Y1, nil, false, nil)
	case 2:
		m.Fit(X1, Y1)
		m.PartialFit(X1, Y1, nil, false, []float64{1, 2, 3})
	}
	m.Fit(X, Y)
	f := naivebayes.NewGaussianNB(nil, .5)
	f.Fit(X, Y)
	vp.Assert(len(m.Classes) == len(f.Classes), "classes of a refit")
	for i, c := range f.Classes {
		vp.Assert(m.Classes[i] == c, "classes of a refit")
		vp.Eq(m.ClassCount[i], f.ClassCount[i], "counts of a refit")
		vp.Eq(m.ClassPrior[i], f.ClassPrior[i], "priors of a refit")
	}
	h.EqMat(m.Theta, f.Theta, "means of a refit")
	h.EqMat(m.Sigma, f.Sigma, "variances of a refit")
}

func fitted(k, p int) *naivebayes.GaussianNB {
	X := h.Const(6, 2, 1, 2, 4, -1, 0, 3, -2, 2, 1, 1, 5, 0)
	m := naivebayes.NewGaussianNB(nil, .1)
	Y := mat.NewDense(6, 1, nil)
	for i := 0; i < 6; i++ {
		Y.Set(i, 0, names[i%k])
	}
	m.Fit(X.Slice(0, 6, 0, p), Y)
	return m
}

// jll is the joint log likelihood of class c at x.
func jll(prior float64, theta, sigma, x []float64) float64 {
	v := math.Log(prior)
	s := 0.
	for j := range x {
		s -= .5 * math.Log(2*math.Pi*sigma[j])
		d := x[j] - theta[j]
		s -= .5 * d * d / sigma[j]
	}
	return v + s
}

// HPredict: probabilities and the likeliest class, for any means and any point.
func HPredict() {
	k, p := 2+vp.Choose("classes", 2), 1+vp.Choose("features", 2)
	if k*p > 4 && !vp.Thorough() {
		return
	}
	m := fitted(k, p)
	for c := 0; c < k; c++ {
		for j := 0; j < p; j++ {
			m.Theta.Set(c, j, vp.FloatIn("mean"+h.Itoa(c)+h.Itoa(j), -3, 3))
			m.Sigma.Set(c, j, []float64{1, 2, .5, 1.5, 4, .25}[c*p+j])
		}
	}
	n := 2
	X := h.DenseIn("X", n, p, -3, 3)
	var Xm mat.Matrix = X
	switch vp.Choose("kind", 3) {
	case 1:
		Xm = h.Copy(X.T()).T()
	case 2:
		Xm, _ = h.View(X)
	}
	L := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		for c := 0; c < k; c++ {
			L.Set(i, c, jll(m.ClassPrior[c], m.Theta.RawRowView(c), m.Sigma.RawRowView(c), X.RawRowView(i)))
		}
	}
	check := func(Y mat.Matrix) {
		r, c := Y.Dims()
		vp.Assert(r == n && c == 1, "dimensions of a prediction")
		for i := 0; i < n; i++ {
			ok := false
			for c := 0; c < k; c++ {
				best := true
				for d := 0; d < k; d++ {
					best = vp.And(best, L.At(i, c) >= L.At(i, d)-1e-9)
				}
				ok = vp.Or(ok, vp.And(Y.At(i, 0) == m.Classes[c], best))
			}
			vp.Assert(ok, "the likeliest class")
		}
	}
	switch vp.Choose("into", 4) {
	case 0:
		check(m.Predict(Xm, nil))
	case 1:
		Y := &mat.Dense{}
		m.Predict(Xm, Y)
		check(Y)
	case 2:
		Y, parent := h.View(mat.NewDense(n, 1, nil))
		check(m.Predict(Xm, Y))
		check(Y)
		h.PadIntact(parent, "around Y")
	case 3:
		Y := mat.NewDense(n, 1, nil)
		m.Predict(Xm, Y)
		check(Y)
	}
}

// HProbas: log probabilities differ as the joint likelihoods do, and are normalised.
func HProbas() {
	vp.NoMerge(true)
	k, p := 2, 1+vp.Choose("features", 2)
	m := fitted(k, p)
	for c := 0; c < k; c++ {
		for j := 0; j < p; j++ {
			m.Theta.Set(c, j, vp.FloatIn("mean"+h.Itoa(c)+h.Itoa(j), -3, 3))
		}
	}
	vp.CPUs(2)
	n := 2
	X := h.DenseIn("X", n, p, -3, 3)
	var Xm mat.Matrix = X
	switch vp.Choose("kind", 3) {
	case 1:
		Xm = h.Copy(X.T()).T()
	case 2:
		Xm, _ = h.View(X)
	}
	var Y, out *mat.Dense
	probas := vp.Choose("probas", 2) == 1
	f := m.PredictLogProbas
	if probas {
		f = m.PredictProbas
	}
	switch vp.Choose("into", 3) {
	case 0:
		Y = f(Xm, nil)
	case 1:
		Y = &mat.Dense{}
		f(Xm, Y)
	case 2:
		var parent *mat.Dense
		Y, parent = h.View(mat.NewDense(n, k, nil))
		out = f(Xm, Y)
		h.PadIntact(parent, "around Y")
		h.EqMat(out, Y, "returned as written")
	}
	r, c := Y.Dims()
	vp.Assert(r == n && c == k, "dimensions of probabilities")
	for i := 0; i < n; i++ {
		l := make([]float64, k)
		for c := 0; c < k; c++ {
			l[c] = jll(m.ClassPrior[c], m.Theta.RawRowView(c), m.Sigma.RawRowView(c), X.RawRowView(i))
		}
		lse := floats.LogSumExp(l)
		for c := 0; c < k; c++ {
			want := l[c] - lse
			if probas {
				want = math.Exp(want)
			}
			vp.Near(Y.At(i, c), want, 1e-9, "normalised likelihood")
		}
	}
}

// HNormalised: on plain data the probabilities sum to one and agree with Predict.
func HNormalised() {
	k, p := 2+vp.Choose("classes", 2), 1+vp.Choose("features", 2)
	m := fitted(k, p)
	n := 1 + vp.Choose("rows", 5)
	X := mat.NewDense(n, p, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, []float64{-30, 2, .5, 60, 1, -1, 0, 3, 4, 7}[i*p+j])
		}
	}
	P := m.PredictProbas(X, nil)
	L := m.PredictLogProbas(X, nil)
	Y := m.Predict(X, nil)
	good := 0.
	for i := 0; i < n; i++ {
		s := 0.
		for c := 0; c < k; c++ {
			s += P.At(i, c)
			vp.Assert(P.At(i, c) >= 0, "a probability")
			vp.Near(P.At(i, c), math.Exp(L.At(i, c)), 1e-12, "exp of the log")
		}
		vp.Near(s, 1, 1e-9, "probabilities sum to one")
		best := floats.MaxIdx(P.RawRowView(i))
		vp.Assert(Y.At(i, 0) == m.Classes[best], "the likeliest class")
		if Y.At(i, 0) == 3 {
			good++
		}
	}
	T := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		T.Set(i, 0, 3)
	}
	vp.Near(m.Score(X, T), good/float64(n), 1e-9, "accuracy")
}

// HClone: a clone predicts as its original did, whatever becomes of the original, and the reverse.
func HClone() {
	k, p := 2, 1
	m := fitted(k, p)
	X := h.DenseIn("X", 1, p, -3, 3)
	want := m.PredictLogProbas(X, nil)
	yw := m.Predict(X, nil)
	c := m.PredicterClone().(*naivebayes.GaussianNB)
	a, b := m, c
	if vp.Choose("which", 2) == 1 {
		a, b = c, m
	}
	switch vp.Choose("then", 3) {
	case 0:
		a.Fit(h.Const(2, 1, 100, -100), h.Const(2, 1, 7, 3))
	case 1:
		a.PartialFit(h.Const(2, 1, 100, -100), h.Const(2, 1, -1.5, 3), nil, false, nil)
	case 2:
		a.Theta.Set(0, 0, 99)
		a.Sigma.Set(0, 0, 99)
		a.ClassPrior[0] = 1e-9
		a.Classes[0] = 44
	}
	h.EqMat(b.PredictLogProbas(X, nil), want, "independent of its clone")
	h.EqMat(b.Predict(X, nil), yw, "independent of its clone")
	var u base.Predicter = naivebayes.NewGaussianNB(nil, .1).PredicterClone()
	u.Fit(h.Const(2, 1, 1, 2), h.Const(2, 1, 7, 3))
	vp.Assert(u.Predict(h.Const(1, 1, 0), nil).At(0, 0) == 7, "clone of the unfitted")
}

// HRefuse: impossible input is refused.
func HRefuse() {
	X, Y := h.Const(2, 1, 1, 2), h.Const(2, 1, 3, 7)
	bad := func(f func()) { vp.Assert(vp.Panics(f), "refused") }
	fit := func(pr ...float64) func() {
		return func() { naivebayes.NewGaussianNB(pr, .1).Fit(X, Y) }
	}
	a, b := vp.FloatIn("a", -2, 2), vp.FloatIn("b", -2, 2)
	bad1 := vp.Panics(fit(a, b))
	if vp.Or(h.Abs(a+b-1) > 2e-6, a < 0, b < 0) {
		vp.Assert(bad1, "priors must be probabilities")
	} else if h.Abs(a+b-1) < 1e-7 {
		vp.Assert(!bad1, "priors accepted")
	}
	bad(fit(1))
	bad(fit(.5, .25, .25))
	bad(func() { naivebayes.NewGaussianNB(nil, .1).Fit(X, h.Const(2, 2, 1, 2, 3, 4)) })
	m := naivebayes.NewGaussianNB(nil, .1)
	m.Fit(X, Y)
	bad(func() { m.PartialFit(h.Const(2, 2, 1, 2, 3, 4), Y, nil, false, nil) })
	l := vp.Float("label")
	vp.Assume(vp.And(l != 3, l != 7))
	bad(func() { m.PartialFit(X, h.Const(2, 1, 3, l), nil, false, nil) })
}

// HWide: more samples, classes, features and batches, with weights.
func HWide() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	n, p := 17, 4
	X, Y, W := h.Wide("x", n, p, 1, -4, 4), mat.NewDense(n, 1, nil), ones(n)
	for i := 0; i < n; i++ {
		Y.Set(i, 0, names[(i*i+i/3)%3])
	}
	m := naivebayes.NewGaussianNB(nil, .25)
	weighted := vp.Choose("weights", 2) == 1
	if weighted {
		for i := 0; i < n; i++ {
			W.Set(i, 0, []float64{2, .5, 1, 3}[i%4])
		}
	}
	last := 0
	w := W.RawMatrix().Data
	sizes := [][]int{{17}, {9, 8}, {3, 4, 2, 8}, {1, 1, 1, 1, 1, 1, 1, 1, 1, 8}}[vp.Choose("batches", 4)]
	var classes []float64 = []float64{-1.5, 3, 7}
	for at, b := 0, 0; b < len(sizes); b++ {
		if len(sizes) == 1 {
			if weighted {
				m.SampleWeight = w
			}
			m.Fit(X, Y)
		} else {
			m.PartialFit(X.Slice(at, at+sizes[b], 0, p), Y.Slice(at, at+sizes[b], 0, 1), classes, false, w[at:at+sizes[b]])
		}
		classes = nil
		last = at
		at += sizes[b]
	}
	eps := 0.
	for j := 0; j < p; j++ {
		_, _, va := moments(X, Y, W, j, func(i int) bool { return i >= last })
		eps = h.Max(eps, va)
	}
	vp.Near(m.Epsilon, .25*eps, 1e-9, "smoothing")
	agrees(m, X, Y, W, []float64{-1.5, 3, 7}, m.Epsilon, 1e-6)
	if weighted || len(sizes) == 2 {
		return
	}
	// each sample is given its likeliest class
	vp.NativeFloats(true)
	Q := h.Fixed(n, p, 3)
	m.Theta, m.Sigma = h.Fixed(3, p, 5), h.Fixed(3, p, 6)
	m.Sigma.Apply(func(i, j int, v float64) float64 { return 6 + v }, m.Sigma)
	m.ClassPrior = []float64{.25, .5, .25}
	P, G := m.PredictProbas(Q, nil), m.Predict(Q, nil)
	for i := 0; i < n; i++ {
		l := make([]float64, 3)
		for c := range l {
			l[c] = jll(m.ClassPrior[c], m.Theta.RawRowView(c), m.Sigma.RawRowView(c), Q.RawRowView(i))
		}
		lse := floats.LogSumExp(l)
		for c := range l {
			vp.Near(P.At(i, c), math.Exp(l[c]-lse), 1e-9, "normalised likelihood")
		}
		vp.Assert(G.At(i, 0) == m.Classes[floats.MaxIdx(l)], "the likeliest class")
	}
}
