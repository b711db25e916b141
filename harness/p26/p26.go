// Package p26: support vector machines.
package p26

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/svm"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// pick is a random state whose first draws are chosen and whose next ones go round.
type pick struct {
	v   []int
	i   int
	lcg uint32
}

func (s *pick) Seed(uint64)    {}
func (s *pick) Uint64() uint64 { s.i++; return uint64(s.i) << 58 }
func (s *pick) Intn(n int) int {
	s.i++
	if s.i <= len(s.v) {
		return s.v[s.i-1] % n
	}
	s.lcg = s.lcg*1103515245 + 12345
	return int(s.lcg>>16&0x7fff) % n
}

var _ base.Source = &pick{}

func picks(k, n int) *pick {
	s := &pick{}
	for i := 0; i < k; i++ {
		s.v = append(s.v, vp.Choose("draw"+h.Itoa(i), n))
	}
	return s
}

func dot(a, b []float64) (s float64) {
	for i := range a {
		s += a[i] * b[i]
	}
	return
}

// HKernels: the kernel trained and predicted with is the one asked for.
func HKernels() {
	p := 1 + vp.Choose("features", 2)
	X := h.Const(2, p, []float64{1, 2, -1, 0}[:2*p]...)
	Y := h.Const(2, 1, 1, -1)
	a, b := vp.FloatsIn("a", p, -2, 2), vp.FloatsIn("b", p, -2, 2)
	m := svm.NewSVC()
	r := svm.NewSVR()
	gamma := []float64{0, .5, 2}[vp.Choose("gamma", 3)]
	m.Gamma, m.Coef0, m.MaxIter, m.Degree = gamma, .25, 3, []float64{2, 3}[vp.Choose("degree", 2)]
	r.Gamma, r.Coef0, r.MaxIter, r.Degree = m.Gamma, m.Coef0, m.MaxIter, m.Degree
	if gamma == 0 {
		gamma = 1 / float64(p)
	}
	want := 0.
	switch vp.Choose("kernel", 8) {
	case 0:
		m.Kernel = "linear"
		want = dot(a, b)
	case 1:
		m.Kernel = "poly"
		want = math.Pow(gamma*dot(a, b)+.25, m.Degree)
	case 2:
		m.Kernel = "sigmoid"
		want = math.Tanh(gamma*dot(a, b) + .25)
	case 3, 4, 5:
		if vp.Choose("default", 2) == 0 {
			m.Kernel = "rbf"
		}
		d := 0.
		for i := range a {
			d += (a[i] - b[i]) * (a[i] - b[i])
		}
		want = math.Exp(-gamma * d)
	case 6:
		m.Kernel = func(a, b []float64) float64 { return dot(a, b) + 7*a[0]*b[0] }
		want = dot(a, b) + 7*a[0]*b[0]
	case 7:
		m.Kernel = svm.LinearKernel{}
		want = dot(a, b)
	}
	r.Kernel = m.Kernel
	m.Fit(X, Y)
	vp.Near(m.Model[0].KernelFunction(a, b), want, 1e-9, "kernel of SVC")
	r.Fit(X, Y)
	vp.Near(r.Model[0].KernelFunction(a, b), want, 1e-9, "kernel of SVR")
	m.Kernel, r.Kernel = 3, 3
	vp.Assert(vp.Panics(func() { m.Fit(X, Y) }), "unknown kernel refused")
	vp.Assert(vp.Panics(func() { r.Fit(X, Y) }), "unknown kernel refused")
}

// dual asserts what holds of any trained classifier: feasible multipliers of the samples it names.
func dual(m *svm.SVC, o int, X, Y mat.Matrix) (al []float64) {
	n, p := X.Dims()
	al = make([]float64, n)
	mo := m.Model[o]
	vp.Assert(len(mo.Support) == len(mo.Alphas) && len(mo.Y) == len(mo.Alphas), "one multiplier per support vector")
	vp.Assert(len(m.Support[o]) == len(mo.Support) && len(m.SupportVectors[o]) == len(mo.Support), "supports published")
	sum := 0.
	for k, i := range mo.Support {
		vp.Assert(k == 0 || i > mo.Support[k-1], "supports in order")
		vp.Assert(m.Support[o][k] == i, "supports published")
		y := Y.At(i, o)
		vp.Assert(mo.Y[k] == vp.IfF(y > 0, 1, -1), "label of a support vector")
		for j := 0; j < p; j++ {
			vp.Eq(mo.X.At(k, j), X.At(i, j), "a support vector is a sample")
			vp.Eq(m.SupportVectors[o][k][j], X.At(i, j), "a support vector is a sample")
		}
		vp.Assert(vp.And(mo.Alphas[k] > 0, mo.Alphas[k] <= m.C), "multiplier in its box")
		al[i] = mo.Alphas[k]
		sum += mo.Alphas[k] * mo.Y[k]
	}
	vp.Assert(h.Abs(sum) <= 1e-6+float64(n)*m.Tol, "multipliers balance")
	return
}

func score(mo *svm.Model, x []float64, signed bool) float64 {
	s := mo.B
	for k, a := range mo.Alphas {
		if signed {
			a *= mo.Y[k]
		}
		s += a * mo.KernelFunction(x, mo.X.RawRowView(k))
	}
	return s
}

// HTwo: with two samples of opposite classes the maximal margin is found, whatever they are.
func HTwo() {
	p := 1
	if vp.Thorough() {
		p += vp.Choose("features", 2)
	}
	X := h.DenseIn("X", 2, p, -2, 2)
	d2 := 0.
	for j := 0; j < p; j++ {
		d2 += (X.At(0, j) - X.At(1, j)) * (X.At(0, j) - X.At(1, j))
	}
	vp.Assume(d2 > .25)
	low := []float64{-1, 0}[vp.Choose("low", 2)]
	Y := h.Const(2, 1, 1, low)
	sw := vp.Choose("order", 2) == 1
	if sw {
		Y = h.Const(2, 1, low, 1)
	}
	m := svm.NewSVC()
	m.Kernel = "linear"
	m.MaxIter = 3
	m.C = []float64{1, .25, 100}[vp.Choose("C", 3)]
	m.RandomState = &pick{}
	x0, y0 := h.Copy(X), h.Copy(Y)
	var Xm, Ym mat.Matrix = X, Y
	switch vp.Choose("kind", 3) {
	case 1:
		Xm, Ym = h.Copy(X.T()).T(), h.Copy(Y.T()).T()
	case 2:
		Xm, _ = h.View(X)
		Ym, _ = h.View(Y)
	}
	m.Fit(Xm, Ym)
	h.EqMat(X, x0, "X left alone")
	h.EqMat(Y, y0, "Y left alone")
	al := dual(m, 0, X, Y)
	a := h.Min(m.C, 2/d2)
	for i := range al {
		vp.Near(al[i], a, 1e-6, "optimal multiplier")
	}
	mid := make([]float64, p)
	for j := range mid {
		mid[j] = (X.At(0, j) + X.At(1, j)) / 2
	}
	vp.Near(score(m.Model[0], mid, true), 0, 1e-6, "boundary half way")
	P := m.Predict(Xm, nil)
	hi := 0
	if sw {
		hi = 1
	}
	vp.Assert(P.At(hi, 0) == 1 && P.At(1-hi, 0) == 0, "both samples on their side")
}

// HTrain: for any labels, any starting draws of partners: feasible multipliers, and optimal ones when training stops by itself.
func HTrain() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.NativeFloats(true)
	sets := [][]float64{{0, 1, 3}, {-2, 0, 1, 3}, {0, 0, 1, 1}, {-1, 2, 2, 5}}
	x := sets[vp.Choose("set", len(sets))]
	n := len(x)
	X := mat.NewDense(n, 1, x)
	Y := mat.NewDense(n, 1, nil)
	pos := 0
	for i := 0; i < n; i++ {
		if vp.Choose("y"+h.Itoa(i), 2) == 1 {
			Y.Set(i, 0, 1)
			pos++
		} else {
			Y.Set(i, 0, -1)
		}
	}
	m := svm.NewSVC()
	m.Kernel = []string{"linear", "rbf"}[vp.Choose("kernel", 2)]
	m.Tol = 1e-6
	m.MaxIter = 200
	k := 3
	if vp.Thorough() {
		k = 6
	}
	m.RandomState = picks(k, n-1)
	m.CacheSize = uint(vp.Choose("cache", 2))
	m.Fit(X, Y)
	al := dual(m, 0, X, Y)
	if pos == 0 || pos == n {
		P := m.Predict(X, nil)
		for i := 0; i < n; i++ {
			vp.Assert(P.At(i, 0) == vp.IfF(pos > 0, 1, 0), "the only class")
		}
		return
	}
	for i := 0; i < n; i++ {
		f := score(m.Model[0], X.RawRowView(i), true)
		y := Y.At(i, 0)
		if al[i] < m.C {
			vp.Assert(y*f >= 1-m.Epsilon-1e-3, "margin of a sample below its bound")
		}
		if al[i] > 0 {
			vp.Assert(y*f <= 1+m.Epsilon+1e-3, "margin of a support vector")
		}
	}
}

// HPredict: the sign of the expansion for SVC, its value for SVR, for any model and point.
func HPredict() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	p := 1 + vp.Choose("features", 2)
	k := 1 + vp.Choose("outputs", 2)
	X := h.Const(2, p, []float64{1, 2, -1, 0}[:2*p]...)
	Y := mat.NewDense(2, k, nil)
	for o := 0; o < k; o++ {
		Y.Set(0, o, 1)
		Y.Set(1, o, -1)
	}
	n := 2
	Q := h.DenseIn("Q", n, p, -2, 2)
	var Qm mat.Matrix = Q
	switch vp.Choose("kind", 3) {
	case 1:
		Qm = h.Copy(Q.T()).T()
	case 2:
		Qm, _ = h.View(Q)
	}
	classify := vp.Choose("classify", 2) == 1
	var m base.Predicter
	var models []*svm.Model
	if classify {
		c := svm.NewSVC()
		c.Kernel, c.MaxIter = "linear", 1
		c.Fit(X, Y)
		m, models = c, c.Model
	} else {
		c := svm.NewSVR()
		c.Kernel, c.MaxIter = "linear", 1
		c.Fit(X, Y)
		m, models = c, c.Model
	}
	vp.Assert(m.IsClassifier() == classify, "a classifier or not")
	vp.Assert(m.GetNOutputs() == k, "outputs")
	F := mat.NewDense(n, k, nil)
	for o, mo := range models {
		mo.Y = []float64{1, -1, 1}
		mo.X = h.Const(3, p, []float64{1, 2, -1, 0, 3, -2}[:3*p]...)
		mo.Alphas = vp.FloatsIn("alpha"+h.Itoa(o), 3, -2, 2)
		mo.B = vp.FloatIn("b"+h.Itoa(o), -2, 2)
		for i := 0; i < n; i++ {
			s := mo.B
			for l := 0; l < 3; l++ {
				a := mo.Alphas[l]
				if classify {
					a *= mo.Y[l]
				}
				s += a * dot(Q.RawRowView(i), mo.X.RawRowView(l))
			}
			F.Set(i, o, s)
		}
	}
	check := func(P mat.Matrix) {
		r, c := P.Dims()
		vp.Assert(r == n && c == k, "dimensions of a prediction")
		for i := 0; i < n; i++ {
			for o := 0; o < k; o++ {
				f, y := F.At(i, o), P.At(i, o)
				if classify {
					vp.Assert(vp.And(vp.Implies(f > 1e-9, y == 1), vp.Implies(f < -1e-9, y == 0)), "side of the boundary")
				} else {
					vp.Near(y, f, 1e-9, "value of the expansion")
				}
			}
		}
	}
	switch vp.Choose("into", 3) {
	case 0:
		check(m.Predict(Qm, nil))
	case 1:
		P := &mat.Dense{}
		m.Predict(Qm, P)
		check(P)
	case 2:
		P, parent := h.View(mat.NewDense(n, k, nil))
		check(m.Predict(Qm, P))
		check(P)
		h.PadIntact(parent, "around Y")
	}
}

func tube(m *svm.SVR, o int, X, Y mat.Matrix, slack float64) {
	n, p := X.Dims()
	mo := m.Model[o]
	al := make([]float64, n)
	sum := 0.
	for k, i := range mo.Support {
		vp.Assert(m.Support[o][k] == i, "supports published")
		for j := 0; j < p; j++ {
			vp.Eq(mo.X.At(k, j), X.At(i, j), "a support vector is a sample")
		}
		vp.Assert(vp.And(mo.Alphas[k] >= -m.C, mo.Alphas[k] <= m.C), "multiplier in its box")
		al[i] = mo.Alphas[k]
		sum += al[i]
	}
	vp.Assert(h.Abs(sum) <= 1e-6+float64(n)*m.Tol, "multipliers balance")
	for i := 0; i < n; i++ {
		e := score(mo, mat.Row(nil, i, X), false) - Y.At(i, o)
		vp.Assert(vp.Implies(e > m.Epsilon+slack, al[i] <= -m.C+1e-6), "above the tube only at the bound")
		vp.Assert(vp.Implies(e < -m.Epsilon-slack, al[i] >= m.C-1e-6), "below the tube only at the bound")
	}
}

// HTwoR: two samples are regressed within the tube, whatever they are, and with the smallest slope.
func HTwoR() {
	sets := 2
	if vp.Thorough() {
		sets = 4
	}
	set := vp.Choose("set", sets)
	kinds := 3
	if set > 0 {
		kinds = 1
	}
	X := h.Const(2, 1, [][]float64{{0, 1}, {2, -1}, {-1, -1.5}, {1, 3}}[set]...)
	Y := h.DenseIn("Y", 2, 1, -2, 2)
	m := svm.NewSVR()
	m.Kernel = "linear"
	m.MaxIter = 4
	m.Tol = 1e-6
	m.Epsilon = []float64{.1, 1}[vp.Choose("epsilon", 2)]
	m.C = []float64{.25, 100}[vp.Choose("C", 2)]
	m.RandomState = &pick{}
	x0, y0 := h.Copy(X), h.Copy(Y)
	var Xm, Ym mat.Matrix = X, Y
	switch vp.Choose("kind", kinds) {
	case 1:
		Xm, Ym = h.Copy(X.T()).T(), h.Copy(Y.T()).T()
	case 2:
		Xm, _ = h.View(X)
		Ym, _ = h.View(Y)
	}
	m.Fit(Xm, Ym)
	h.EqMat(X, x0, "X left alone")
	h.EqMat(Y, y0, "Y left alone")
	tube(m, 0, X, Y, 1e-3)
}

// HTrainR: any targets of a grid, any starting draws.
func HTrainR() {
	vp.NativeFloats(true)
	sets := [][]float64{{0, 1, 3}, {-1, 0, 2}, {1, 1, 2}}
	x := sets[vp.Choose("set", len(sets))]
	n := len(x)
	X := mat.NewDense(n, 1, x)
	Y := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		Y.Set(i, 0, []float64{0, 1, 3}[vp.Choose("y"+h.Itoa(i), 3)])
	}
	m := svm.NewSVR()
	m.Kernel = []string{"linear", "rbf"}[vp.Choose("kernel", 2)]
	m.Tol = 1e-6
	m.MaxIter = 200
	m.C = []float64{1, 20}[vp.Choose("C", 2)]
	k := 2
	if vp.Thorough() {
		k = 4
	}
	m.RandomState = picks(k, n-1)
	m.Fit(X, Y)
	tube(m, 0, X, Y, 1e-2)
}

// HDegenerate: nothing to learn is learnt without a panic or an endless loop.
func HDegenerate() {
	n := 1 + vp.Choose("n", 3)
	k := 1 + vp.Choose("outputs", 2)
	p := 2
	X := h.Const(n, p, []float64{1, 2, -1, 0, 1, 2}[:n*p]...)
	Y := mat.NewDense(n, k, nil)
	c := vp.FloatIn("c", -3, 3)
	for i := 0; i < n; i++ {
		for o := 0; o < k; o++ {
			Y.Set(i, o, c)
		}
	}
	r := svm.NewSVR()
	r.MaxIter = 2
	r.Fit(X, Y)
	P := r.Predict(X, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < k; o++ {
			vp.Assert(h.Abs(P.At(i, o)-c) <= r.Epsilon+1e-9, "constant target within the tube")
		}
	}
	lab := []float64{-1, 0, 1}[vp.Choose("label", 3)]
	for i := 0; i < n; i++ {
		for o := 0; o < k; o++ {
			Y.Set(i, o, lab)
		}
	}
	m := svm.NewSVC()
	m.Fit(X, Y)
	P = m.Predict(X, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < k; o++ {
			vp.Assert(P.At(i, o) == h.Max(lab, 0), "the only class")
		}
	}
	// the same sample with both labels
	x := vp.FloatsIn("x", 2, -2, 2)
	X2 := mat.NewDense(2, p, []float64{x[0], x[1], x[0], x[1]})
	m = svm.NewSVC()
	m.Kernel = "linear"
	m.Fit(X2, h.Const(2, 1, 1, -1))
	dual(m, 0, X2, h.Const(2, 1, 1, -1))
}

// HRefit: a second fit equals a first, and leaves a clone of the first alone.
func HRefit() {
	X1, Y1 := h.Const(3, 1, 5, 6, 9), h.Const(3, 2, 1, 0, 0, 0, 1, 1)
	X := h.Const(3, 1, -1, 0, 2)
	Y := mat.NewDense(3, 1, nil)
	for i := 0; i < 3; i++ {
		Y.Set(i, 0, float64(vp.Choose("y"+h.Itoa(i), 2)))
	}
	q := h.Const(4, 1, -3, .5, 1, 7)
	vp.NativeFloats(true)
	classify := vp.Choose("classify", 2) == 1
	mk := func() base.Predicter {
		if classify {
			m := svm.NewSVC()
			m.MaxIter, m.RandomState = 50, &pick{}
			return m
		}
		m := svm.NewSVR()
		m.MaxIter, m.RandomState = 50, &pick{}
		return m
	}
	reset := func(m base.Predicter) {
		switch m := m.(type) {
		case *svm.SVC:
			m.RandomState = &pick{}
		case *svm.SVR:
			m.RandomState = &pick{}
		}
	}
	m := mk()
	m.Fit(X1, Y1)
	first := m.Predict(q, nil)
	cl := m.PredicterClone()
	h.EqMat(cl.Predict(q, nil), first, "a clone predicts alike")
	reset(m)
	m.Fit(X, Y)
	f := mk()
	f.Fit(X, Y)
	h.EqMat(m.Predict(q, nil), f.Predict(q, nil), "refit as a fresh fit")
	vp.Assert(m.GetNOutputs() == 1, "outputs of a refit")
	h.EqMat(cl.Predict(q, nil), first, "a clone survives")
	vp.Assert(cl.GetNOutputs() == 2, "outputs of a clone")
	reset(cl)
	cl.Fit(X, Y)
	h.EqMat(cl.Predict(q, nil), f.Predict(q, nil), "a clone learns alike")
	good := 0.
	P := m.Predict(X, nil)
	for i := 0; i < 3; i++ {
		if P.At(i, 0) == Y.At(i, 0) {
			good++
		}
	}
	if m.IsClassifier() {
		vp.Near(m.Score(X, Y), good/3, 1e-9, "accuracy")
	}
}

// HWide: more samples, features and outputs.
func HWide() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	vp.NativeFloats(true)
	vp.MaxSteps(80000000)
	n, p, k := 12, 3, 3
	X, Y := h.Fixed(n, p, 1), mat.NewDense(n, k, nil)
	kernel := []string{"linear", "rbf", "poly"}[vp.Choose("kernel", 3)]
	C := []float64{1, .25}[vp.Choose("C", 2)]
	if vp.Choose("classify", 2) == 1 {
		for i := 0; i < n; i++ {
			for o := 0; o < k; o++ {
				Y.Set(i, o, float64((i*i+i*o+o)%2))
			}
		}
		m := svm.NewSVC()
		m.Kernel, m.C, m.Tol, m.MaxIter, m.Degree, m.Gamma = kernel, C, 1e-6, 3000, 2, .25
		m.RandomState = &pick{}
		m.CacheSize = uint(vp.Choose("cache", 2))
		m.Fit(h.MaybeView("X", X), Y)
		P := m.Predict(X, nil)
		for o := 0; o < k; o++ {
			al := dual(m, o, X, Y)
			for i := 0; i < n; i++ {
				f := score(m.Model[o], X.RawRowView(i), true)
				y := 2*Y.At(i, o) - 1
				if al[i] < m.C {
					vp.Assert(y*f >= 1-m.Epsilon-1e-2, "margin of a sample below its bound")
				}
				if al[i] > 0 {
					vp.Assert(y*f <= 1+m.Epsilon+1e-2, "margin of a support vector")
				}
				if h.Abs(f) > 1e-6 {
					vp.Assert(P.At(i, o) == vp.IfF(f > 0, 1, 0), "side of the boundary")
				}
			}
		}
		return
	}
	if kernel == "poly" {
		return // takes too many steps
	}
	for i := 0; i < n; i++ {
		for o := 0; o < k; o++ {
			Y.Set(i, o, float64((i*i*3+i*o*2+o)%7)-2)
		}
	}
	m := svm.NewSVR()
	m.Kernel, m.C, m.Tol, m.MaxIter, m.Degree, m.Gamma = kernel, C, 1e-6, 3000, 2, .25
	m.RandomState = &pick{}
	m.Fit(h.MaybeView("X", X), Y)
	P := m.Predict(X, nil)
	for o := 0; o < k; o++ {
		tube(m, o, X, Y, 1e-2)
		for i := 0; i < n; i++ {
			vp.Near(P.At(i, o), score(m.Model[o], X.RawRowView(i), false), 1e-9, "value of the expansion")
		}
	}
}
