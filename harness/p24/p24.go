// Package p24: logistic regression.
package p24

import (
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/blas/blas64"
	"gonum.org/v1/gonum/mat"
)

// start is a random state from which a fit starts at chosen parameters.
type start struct {
	v []float64
	i int
}

func (s *start) Seed(uint64)    {}
func (s *start) Uint64() uint64 { return 0 }
func (s *start) Float64() float64 {
	x := s.v[s.i%len(s.v)]
	s.i++
	return x
}

var _ base.RandomState = &start{}

// HLoss: the objective and gradient at any parameters.
func HLoss() {
	vp.NoMerge(true)
	n := 2
	p, k := 1+vp.Choose("features", 2), 1+vp.Choose("outputs", 2)
	X := h.Const(n, p, []float64{1, 2, -1, 0.5}[:n*p]...)
	Y := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		if k == 1 {
			Y.Set(i, 0, float64(vp.Choose("y"+h.Itoa(i), 2)))
		} else {
			Y.Set(i, vp.Choose("y"+h.Itoa(i), k), 1)
		}
	}
	par := vp.FloatsIn("w", (p+1)*k, -3, 3)
	m := linearmodel.NewLogisticRegression()
	m.Alpha = []float64{0, 2}[vp.Choose("alpha", 2)]
	m.MaxIter = 1
	m.RandomState = &start{v: par}
	x0, y0 := h.Copy(X), h.Copy(Y)
	var Xm, Ym mat.Matrix = X, Y
	switch vp.Choose("kind", 3) {
	case 1:
		Ym = h.Copy(Y.T()).T()
	case 2:
		Xm, _ = h.View(X)
		Ym, _ = h.View(Y)
	}
	bound := math.Sqrt(2 / float64(p+k))
	b, c := make([]float64, k), mat.NewDense(p, k, nil)
	for o := 0; o < k; o++ {
		b[o] = par[o] * bound
		for j := 0; j < p; j++ {
			c.Set(j, o, par[k+j*k+o]*bound)
		}
	}
	pr := mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		z := make([]float64, k)
		for o := 0; o < k; o++ {
			z[o] = b[o]
			for j := 0; j < p; j++ {
				z[o] += X.At(i, j) * c.At(j, o)
			}
		}
		if k == 1 {
			pr.Set(i, 0, 1/(1+math.Exp(-z[0])))
		} else {
			mx := z[0]
			if z[1] > mx {
				mx = z[1]
			}
			e0, e1 := math.Exp(z[0]-mx), math.Exp(z[1]-mx)
			pr.Set(i, 0, e0/(e0+e1))
			pr.Set(i, 1, e1/(e0+e1))
		}
		for o := 0; o < k; o++ { // true of scores this small, but not known of an uninterpreted exp
			vp.Assume(vp.And(pr.At(i, o) > 1e-12, pr.At(i, o) < 1-1e-12))
		}
	}
	m.Fit(Xm, Ym)
	h.EqMat(X, x0, "X left alone")
	h.EqMat(Y, y0, "Y left alone")
	vp.Assert(m.IsClassifier(), "a classifier")
	vp.Assert(m.GetNOutputs() == k, "outputs")
	vp.Assert(len(m.LossCurve) == 1, "evaluated once")
	loss, sq := 0., 0.
	gb, gc := make([]float64, k), mat.NewDense(p, k, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < k; o++ {
			d := pr.At(i, o) - Y.At(i, o)
			gb[o] += d
			for j := 0; j < p; j++ {
				gc.Set(j, o, gc.At(j, o)+d*X.At(i, j))
			}
			if Y.At(i, o) == 1 {
				loss -= math.Log(pr.At(i, o))
			} else if k == 1 {
				loss -= math.Log1p(-pr.At(i, o))
			}
		}
	}
	for o := 0; o < k; o++ {
		vp.Near(m.Intercept[o], b[o], 1e-9, "intercept where it started")
		vp.Near(m.InterceptsGrads[o], gb[o]/float64(n), 1e-6, "gradient of the intercept")
		for j := 0; j < p; j++ {
			sq += c.At(j, o) * c.At(j, o)
			vp.Near(m.Coef.Data[j*m.Coef.Stride+o], c.At(j, o), 1e-9, "coefficients where they started")
			vp.Near(m.CoefsGrads.Data[j*m.CoefsGrads.Stride+o], (gc.At(j, o)+m.Alpha*c.At(j, o))/float64(n), 1e-6, "gradient of the coefficients")
		}
	}
	vp.Near(m.Loss, (loss+m.Alpha*sq/2)/float64(n), 1e-6, "mean log loss and half the squared coefficients per sample")
}

// HProbas: with any coefficients the probabilities are the logistic or softmax of X*Coef+Intercept.
func HProbas() {
	vp.NoMerge(true)
	n, p, k := 1, 1, 1+vp.Choose("outputs", 3)
	X := h.DenseIn("x", n, p, -3, 3)
	c, b := vp.FloatsIn("c", p*k, -3, 3), vp.FloatsIn("b", k, -3, 3)
	m := linearmodel.NewLogisticRegression()
	m.NLayers, m.NOutputs = 2, k
	m.OutActivation = "softmax"
	if k == 1 {
		m.OutActivation = "logistic"
	}
	m.Coef = blas64.General{Rows: p, Cols: k, Stride: k, Data: c}
	m.Intercept = b
	score := func(i, o int) float64 { return X.At(i, 0)*c[o] + b[o] }
	var pr *mat.Dense
	switch vp.Choose("into", 4) {
	case 0:
		pr = m.PredictProbas(X, nil)
	case 1:
		pr = &mat.Dense{}
		m.PredictProbas(h.MaybeView("X", X), pr)
	case 2:
		v, parent := h.View(mat.NewDense(n, k, nil))
		m.PredictProbas(X, v)
		h.PadIntact(parent, "around the view")
		pr = v
	default:
		pr = mat.NewDense(n, k, nil)
		m.PredictProbas(X, pr)
	}
	r, cc := pr.Dims()
	vp.Assert(r == n && cc == k, "one column per class")
	y := m.Predict(X, nil)
	for i := 0; i < n; i++ {
		s := 0.
		for o := 0; o < k; o++ {
			q := pr.At(i, o)
			vp.Assert(q > 0, "positive")
			s += q
			top := true
			for o2 := 0; o2 < k; o2++ {
				top = vp.And(top, vp.Or(o == o2, score(i, o) > score(i, o2)+1e-6))
			}
			for o2 := 0; o2 < k; o2++ {
				vp.Assert(vp.Implies(top, vp.Or(o == o2, q > pr.At(i, o2))), "the highest score is the most probable")
			}
		}
		if k == 1 {
			vp.Assert(s < 1, "a probability")
			vp.Assert(vp.Implies(score(i, 0) > 1e-6, y.At(i, 0) == 1), "class 1 above 1/2")
			vp.Assert(vp.Implies(score(i, 0) < -1e-6, y.At(i, 0) == 0), "class 0 below 1/2")
		} else {
			vp.Near(s, 1, 1e-9, "sums to 1")
			ones := 0.
			for o := 0; o < k; o++ {
				ones += y.At(i, o)
				best := true
				for o2 := 0; o2 < k; o2++ {
					best = vp.And(best, vp.Or(o == o2, score(i, o) > score(i, o2)+1e-6))
				}
				vp.Assert(vp.Implies(best, y.At(i, o) == 1), "the most probable class")
			}
			vp.Eq(ones, 1, "one class")
		}
	}
}

func data(k int) (X, Y *mat.Dense, labels []float64) {
	switch k {
	case 0:
		return h.Const(4, 1, -2, -1, 1, 3), h.Const(4, 1, 0, 0, 1, 1), []float64{0, 1}
	case 1:
		return h.Const(4, 1, -2, -1, 1, 3), h.Const(4, 1, 2, 2, 1, 2), []float64{1, 2}
	case 2:
		return h.Const(6, 2, -2, 0, -1, 1, 1, 1, 3, 0, 0, 4, 1, 5), h.Const(6, 1, 5, 5, 3, 3, 9, 9), []float64{3, 5, 9}
	case 3:
		return h.Const(3, 2, 0, 0, 0, 0, 0, 0), h.Const(3, 1, -1, 4, 4), []float64{-1, 4}
	case 4:
		X, Y = h.Fixed(13, 3, 1), mat.NewDense(13, 1, nil)
		for i := 0; i < 13; i++ {
			Y.Set(i, 0, []float64{6, -2, 1, 3}[(i*i+i/3)%4])
		}
		return X, Y, []float64{-2, 1, 3, 6}
	}
	return h.Const(2, 1, 1, 2), h.Const(2, 1, 1, 1), []float64{0, 1}
}

// HFit: on small data sets the fit ends where the gradient vanishes, whatever it started from.
func HFit() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	X, Y, labels := data(vp.Choose("data", 5))
	m := linearmodel.NewLogisticRegression()
	m.Alpha = []float64{1, 0.1}[vp.Choose("alpha", 2)]
	m.Tol = 1e-9
	s := [][]float64{{0.5}, {0.1, 0.9, 0.3}}[vp.Choose("start", 2)]
	m.RandomState = &start{v: s}
	m.Fit(X, Y)
	vp.Assert(m.GetNOutputs() == 1, "one output")
	for _, g := range m.InterceptsGrads {
		vp.Near(g, 0, 1e-2, "intercept gradient vanishes")
	}
	best := math.Inf(1)
	for _, l := range m.LossCurve {
		best = math.Min(best, l)
	}
	vp.Eq(m.Loss, best, "the best loss seen")
	// the loss at the parameters kept is the loss reported
	again := linearmodel.NewLogisticRegression()
	again.Alpha, again.MaxIter = m.Alpha, 1
	bound := math.Sqrt(2 / float64(m.Coef.Rows+m.Coef.Cols))
	var w []float64
	for _, x := range append(append([]float64(nil), m.Intercept...), m.Coef.Data...) {
		w = append(w, x/bound)
	}
	again.RandomState = &start{v: w}
	again.Fit(X, Y)
	vp.Near(again.Loss, m.Loss, 1e-9, "loss of the parameters kept")
	for _, g := range append(append([]float64(nil), again.InterceptsGrads...), again.CoefsGrads.Data...) {
		vp.Near(g, 0, 1e-2, "gradient vanishes at the parameters kept")
	}
	y := m.Predict(X, nil)
	n, _ := X.Dims()
	for i := 0; i < n; i++ {
		ok := false
		for _, l := range labels {
			ok = ok || y.At(i, 0) == l
		}
		vp.Assert(ok, "predicts labels")
	}
}

// HLabels: predictions name the label of the class with the highest score.
func HLabels() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	X, Y, labels := data([]int{1, 2, 4}[vp.Choose("data", 3)])
	m := linearmodel.NewLogisticRegression()
	m.RandomState = &start{v: []float64{0.5}}
	m.MaxIter = 3
	m.Fit(X, Y)
	vp.NativeFloats(false)
	k := len(labels)
	vp.Assert(m.Coef.Cols == k && len(m.Intercept) == k, "a column per class")
	b := vp.FloatsIn("b", k, -3, 3)
	copy(m.Intercept, b)
	for i := range m.Coef.Data {
		m.Coef.Data[i] = 0
	}
	var y *mat.Dense
	q := h.Const(1, m.Coef.Rows, make([]float64, m.Coef.Rows)...)
	if vp.Choose("into", 2) == 0 {
		y = m.Predict(q, nil)
	} else {
		y = &mat.Dense{}
		m.Predict(q, y)
	}
	for o := 0; o < k; o++ {
		best := true
		for o2 := 0; o2 < k; o2++ {
			best = vp.And(best, vp.Or(o == o2, b[o] > b[o2]+1e-6))
		}
		vp.Assert(vp.Implies(best, y.At(0, 0) == labels[o]), "label of the best class")
	}
}

// HRefit: a second fit owes nothing to the first, a clone shares nothing.
func HRefit() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	X1, Y1, _ := data(vp.Choose("first", 3))
	X2, Y2, _ := data(vp.Choose("second", 3))
	if vp.Choose("moved", 2) == 1 {
		X2.Apply(func(i, j int, v float64) float64 { return 1.5 - v*float64(i+1) }, X2)
	}
	m := linearmodel.NewLogisticRegression()
	m.MaxIter = 5
	m.RandomState = &start{v: []float64{0.5, 0.25}}
	m.Fit(X1, Y1)
	keep := append(append([]float64(nil), m.Intercept...), m.Coef.Data...)
	y1 := h.Copy(m.Predict(X1, nil))
	second := m
	clone := vp.Choose("clone", 2) == 1
	if clone {
		second = m.PredicterClone().(*linearmodel.LogisticRegression)
	}
	second.RandomState = &start{v: []float64{0.5, 0.25}}
	second.Fit(X2, Y2)
	fresh := linearmodel.NewLogisticRegression()
	fresh.MaxIter = 5
	fresh.RandomState = &start{v: []float64{0.5, 0.25}}
	fresh.Fit(X2, Y2)
	vp.Assert(len(second.Coef.Data) == len(fresh.Coef.Data), "shape")
	for i, x := range fresh.Coef.Data {
		vp.Eq(second.Coef.Data[i], x, "coefficients of a fresh fit")
	}
	for i, x := range fresh.Intercept {
		vp.Eq(second.Intercept[i], x, "intercept of a fresh fit")
	}
	vp.Assert(len(second.LossCurve) == len(fresh.LossCurve), "loss curve of a fresh fit")
	h.EqMat(second.Predict(X2, nil), fresh.Predict(X2, nil), "predictions of a fresh fit")
	vp.Eq(second.Score(X2, Y2), fresh.Score(X2, Y2), "score of a fresh fit")
	vp.Assert(second.GetNOutputs() == fresh.GetNOutputs(), "outputs of a fresh fit")
	if clone {
		for i, x := range append(append([]float64(nil), m.Intercept...), m.Coef.Data...) {
			vp.Eq(x, keep[i], "original left alone")
		}
		h.EqMat(m.Predict(X1, nil), y1, "original predicts as before")
	}
}

// HLarge: probabilities of large scores are probabilities.
func HLarge() {
	vp.NativeFloats(true)
	k := 2 + vp.Choose("outputs", 2)
	m := linearmodel.NewLogisticRegression()
	m.NLayers, m.NOutputs, m.OutActivation = 2, k, "softmax"
	m.Coef = blas64.General{Rows: 1, Cols: k, Stride: k, Data: []float64{1, 2, -1}[:k]}
	m.Intercept = make([]float64, k)
	x := []float64{1000, -1000, 400, 1e6}[vp.Choose("x", 4)]
	pr := m.PredictProbas(h.Const(1, 1, x), nil)
	s := 0.
	for o := 0; o < k; o++ {
		vp.Assert(pr.At(0, o) >= 0 && pr.At(0, o) <= 1, "a probability")
		s += pr.At(0, o)
	}
	vp.Near(s, 1, 1e-9, "sums to 1")
}

// HRefuse: impossible parameters are refused.
func HRefuse() {
	m := linearmodel.NewLogisticRegression()
	switch vp.Choose("what", 3) {
	case 0:
		m.MaxIter = -vp.Choose("max", 2)
	case 1:
		m.Alpha = -vp.FloatIn("alpha", 0.001, 5)
	default:
		m.NIterNoChange = -vp.Choose("max", 2)
	}
	vp.Assert(vp.Panics(func() { m.Fit(h.Const(2, 1, 1, 2), h.Const(2, 1, 0, 1)) }), "refused")
}

// HWide: more samples, features and classes, a single parameter being arbitrary.
func HWide() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	n, p, k := 13, 4, []int{1, 4}[vp.Choose("outputs", 2)]
	X, Y := h.Fixed(n, p, 1), mat.NewDense(n, k, nil)
	for i := 0; i < n; i++ {
		if k == 1 {
			Y.Set(i, 0, float64((i*i+i/3)%2))
		} else {
			Y.Set(i, (i*i+i/3)%k, 1)
		}
	}
	par := h.Fixed(1, (p+1)*k, 3).RawMatrix().Data
	m := linearmodel.NewLogisticRegression()
	m.Alpha = []float64{0, 2}[vp.Choose("alpha", 2)]
	m.MaxIter = 1
	m.RandomState = &start{v: par}
	m.Fit(h.MaybeView("X", X), h.MaybeView("Y", Y))
	bound := math.Sqrt(2 / float64(p+k))
	at := func(j, o int) float64 { return par[k+j*k+o] * bound }
	loss, sq := 0., 0.
	gb, gc := make([]float64, k), mat.NewDense(p, k, nil)
	for i := 0; i < n; i++ {
		z, s, mx := make([]float64, k), 0., math.Inf(-1)
		for o := 0; o < k; o++ {
			z[o] = par[o] * bound
			for j := 0; j < p; j++ {
				z[o] += X.At(i, j) * at(j, o)
			}
			mx = math.Max(mx, z[o])
		}
		for o := 0; o < k; o++ {
			s += math.Exp(z[o] - mx)
		}
		for o := 0; o < k; o++ {
			q := math.Exp(z[o]-mx) / s
			if k == 1 {
				q = 1 / (1 + math.Exp(-z[o]))
			}
			d := q - Y.At(i, o)
			gb[o] += d
			for j := 0; j < p; j++ {
				gc.Set(j, o, gc.At(j, o)+d*X.At(i, j))
			}
			if Y.At(i, o) == 1 {
				loss -= math.Log(q)
			} else if k == 1 {
				loss -= math.Log1p(-q)
			}
		}
	}
	for o := 0; o < k; o++ {
		vp.Near(m.InterceptsGrads[o], gb[o]/float64(n), 1e-6, "gradient of the intercept")
		for j := 0; j < p; j++ {
			sq += at(j, o) * at(j, o)
			vp.Near(m.CoefsGrads.Data[j*m.CoefsGrads.Stride+o], (gc.At(j, o)+m.Alpha*at(j, o))/float64(n), 1e-6, "gradient of the coefficients")
		}
	}
	vp.Near(m.Loss, (loss+m.Alpha*sq/2)/float64(n), 1e-5, "mean log loss and half the squared coefficients per sample")
	// predictions of several samples, with an arbitrary intercept
	v := vp.FloatIn("b", -3, 3)
	m.Intercept[k-1] = v
	vp.NativeFloats(false)
	y := m.Predict(X.Slice(2, 9, 0, p), nil)
	for i := 0; i < 7; i++ {
		z := make([]float64, k)
		for o := 0; o < k; o++ {
			z[o] = m.Intercept[o]
			for j := 0; j < p; j++ {
				z[o] += X.At(i+2, j) * m.Coef.Data[j*m.Coef.Stride+o]
			}
		}
		if k == 1 {
			vp.Assert(vp.Implies(z[0] > 1e-6, y.At(i, 0) == 1), "class 1 above 1/2")
			vp.Assert(vp.Implies(z[0] < -1e-6, y.At(i, 0) == 0), "class 0 below 1/2")
			continue
		}
		for o := 0; o < k; o++ {
			best := true
			for o2 := 0; o2 < k; o2++ {
				best = vp.And(best, vp.Or(o == o2, z[o] > z[o2]+1e-6))
			}
			vp.Assert(vp.Implies(best, y.At(i, o) == 1), "the most probable class")
		}
	}
}
