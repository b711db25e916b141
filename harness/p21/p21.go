// Package p21: ordinary least squares and what linear models share.
package p21

import (
	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// designs are the sample matrices of the least squares harnesses.
func design(k int) *mat.Dense {
	switch k {
	case 0:
		return h.Const(3, 1, 1, 2, 4)
	case 1:
		return h.Const(4, 2, 1, 2, -1, 3, 4, 0.5, 2, -2)
	case 2: // a constant feature
		return h.Const(4, 2, 1, 5, -1, 5, 4, 5, 2, 5)
	case 3: // collinear features
		return h.Const(4, 2, 1, 2, -1, -2, 4, 8, 2, 4)
	case 4: // fewer samples than features
		return h.Const(2, 3, 1, 2, 0, -1, 3, 4)
	case 5: // nothing varies
		return h.Const(3, 2, 0, 0, 0, 0, 0, 0)
	case 6: // one sample
		return h.Const(1, 2, 3, -1)
	case 7: // large offsets
		return h.Const(4, 2, 1001, 2, 1003, 5, 1002, -1, 1007, 3)
	case 8:
		return h.Const(5, 3, 1, 0, 0, 0, 1, 0, 0, 0, 1, 1, 1, 0, 2, -1, 1)
	case 9: // collinear features of another scale
		return h.Const(5, 3, 1e4/3., 2e4/3., 1e4/7., -1e4/7., -2e4/7., -1e4/3., 1e4/11., 2e4/11., 1e4/13., 1e4/9., 2e4/9., 1e3, 1e4/19., 2e4/19., -1e3/3.)
	case 10: // likewise
		return h.Const(5, 3, 1e-4/3., 2e-4/3., 1e-4/7., -1e-4/7., -2e-4/7., -1e-4/3., 1e-4/11., 2e-4/11., 1e-4/13., 1e-4/9., 2e-4/9., 1e-5, 1e-4/19., 2e-4/19., -1e-5/3.)
	}
	return h.Fixed(13, 4, 1)
}

const designs = 12

// residual is Y-(X*Coef+Intercept), computed here.
func residual(X, Y mat.Matrix, m *linearmodel.LinearModel) *mat.Dense {
	n, p := X.Dims()
	_, no := Y.Dims()
	r := mat.NewDense(n, no, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < no; o++ {
			v := Y.At(i, o) - m.Intercept.At(0, o)
			for j := 0; j < p; j++ {
				v -= X.At(i, j) * m.Coef.At(j, o)
			}
			r.Set(i, o, v)
		}
	}
	return r
}

// optimal asserts that no other coefficients have a smaller sum of squares.
func optimal(X, Y mat.Matrix, m *linearmodel.LinearModel, tol float64) {
	n, p := X.Dims()
	_, no := Y.Dims()
	r := residual(X, Y, m)
	for o := 0; o < no; o++ {
		for j := 0; j < p; j++ {
			g := 0.
			for i := 0; i < n; i++ {
				g += X.At(i, j) * r.At(i, o)
			}
			vp.Near(g, 0, tol, "residuals orthogonal to every feature")
		}
		if m.FitIntercept {
			s := 0.
			for i := 0; i < n; i++ {
				s += r.At(i, o)
			}
			vp.Near(s, 0, tol, "residuals sum to 0")
		} else {
			vp.Eq(m.Intercept.At(0, o), 0, "no intercept")
		}
	}
}

// HOLS: the fit minimises the sum of squares for every targets, even with degenerate samples.
func HOLS() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.NativeFloats(true)
	X := design(vp.Choose("design", designs))
	n, _ := X.Dims()
	no := 1 + vp.Choose("outputs", 2)
	var Y *mat.Dense
	if n > 9 {
		no += 2
		Y = h.Wide("y", n, no, 5, -9, 9)
	} else {
		Y = h.DenseIn("y", n, no, -9, 9)
	}
	m := linearmodel.NewLinearRegression()
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	m.Normalize = vp.Choose("normalize", 2) == 1
	x0, y0 := h.Copy(X), h.Copy(Y)
	m.Fit(h.MaybeView("X", X), h.MaybeView("Y", Y))
	h.EqMat(X, x0, "X left alone")
	h.EqMat(Y, y0, "Y left alone")
	vp.Assert(m.GetNOutputs() == no, "outputs")
	optimal(X, Y, &m.LinearModel, 1e-5)
}

// HOLSMinNorm: among several solutions the one with the smallest coefficients is returned.
func HOLSMinNorm() {
	vp.NativeFloats(true)
	k := vp.Choose("case", 5)
	X := design([]int{3, 4, 2, 9, 10}[k])
	n, p := X.Dims()
	Y := h.DenseIn("y", n, 1, -9, 9)
	m := linearmodel.NewLinearRegression()
	m.FitIntercept = k != 1
	m.Fit(X, Y)
	// a direction the predictions do not depend on
	null := [][]float64{{2, -1}, {8, -4, 5}, {0, 1}, {2, -1, 0}, {2, -1, 0}}[k]
	d := 0.
	for j := 0; j < p; j++ {
		d += null[j] * m.Coef.At(j, 0)
	}
	vp.Near(d, 0, 1e-6, "no coefficient wasted")
}

// HOffsets: with any regressor, what is fitted is centred.
func HOffsets() {
	vp.NativeFloats(true)
	// a single symbolic regressor: slope and intercept have a closed form
	X := h.DenseIn("x", 3, 1, -4, 4)
	Y := h.Const(3, 1, 1, -2, 5)
	m := linearmodel.NewLinearRegression()
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	Xp, Yp, xo, yo, xs := linearmodel.PreprocessData(X, Y, m.FitIntercept, false, nil)
	mx, my := 0., 0.
	if m.FitIntercept {
		mx, my = (X.At(0, 0)+X.At(1, 0)+X.At(2, 0))/3, (1.-2+5)/3
	}
	vp.Near(xo.At(0, 0), mx, 1e-9, "x offset")
	vp.Near(yo.At(0, 0), my, 1e-9, "y offset")
	vp.Eq(xs.At(0, 0), 1, "scale")
	for i := 0; i < 3; i++ {
		vp.Near(Xp.At(i, 0), X.At(i, 0)-mx, 1e-9, "x centred")
		vp.Near(Yp.At(i, 0), Y.At(i, 0)-my, 1e-9, "y centred")
	}
}

// HPreprocess: centred, brought to unit norm, reversible; inputs untouched.
func HPreprocess() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, p, no := 2+vp.Choose("rows", 2), 1+vp.Choose("cols", 2), 1+vp.Choose("outputs", 2)
	X, Y := h.DenseIn("x", n, p, -9, 9), h.DenseIn("y", n, no, -9, 9)
	fit, norm := vp.Choose("intercept", 2) == 1, vp.Choose("normalize", 2) == 1
	if vp.Choose("constant", 2) == 1 {
		for i := 1; i < n; i++ {
			X.Set(i, p-1, X.At(0, p-1))
		}
	} else if n == 3 && fit && norm && p == 2 {
		return
	}
	x0, y0 := h.Copy(X), h.Copy(Y)
	Xin, Yin := h.MaybeView("X", X), h.MaybeView("Y", Y)
	Xo, Yo, xoff, yoff, xs := linearmodel.PreprocessData(Xin, Yin, fit, norm, nil)
	h.EqMat(Xin, x0, "X left alone")
	h.EqMat(Yin, y0, "Y left alone")
	for j := 0; j < p; j++ {
		mean, ss := 0., 0.
		constant := true
		for i := 0; i < n; i++ {
			if fit {
				mean += x0.At(i, j) / float64(n)
			}
		}
		for i := 0; i < n; i++ {
			d := x0.At(i, j) - mean
			ss += d * d
			constant = constant && x0.At(i, j) == x0.At(0, j)
		}
		vp.Eq(xoff.At(0, j), mean, "offset")
		s := xs.At(0, j)
		if fit && norm && !constant {
			vp.Assert(s > 0, "scale positive")
			vp.Near(s*s, ss, 1e-9, "scale is the norm")
		} else {
			vp.Eq(s, 1, "scale 1")
		}
		for i := 0; i < n; i++ {
			vp.Near(Xo.At(i, j)*s+xoff.At(0, j), x0.At(i, j), 1e-9, "reversible")
		}
	}
	for o := 0; o < no; o++ {
		mean := 0.
		for i := 0; i < n; i++ {
			if fit {
				mean += y0.At(i, o) / float64(n)
			}
		}
		vp.Eq(yoff.At(0, o), mean, "target offset")
		for i := 0; i < n; i++ {
			vp.Eq(Yo.At(i, o), y0.At(i, o)-mean, "targets centred")
		}
	}
}

// HPredict: X*Coef+Intercept for every coefficients, into any kind of target.
func HPredict() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, p, no := 2, 2, 1+vp.Choose("outputs", 2)
	X := h.DenseIn("x", n, p, -9, 9)
	coef, b := h.DenseIn("c", p, no, -9, 9), h.DenseIn("b", 1, no, -9, 9)
	want := mat.NewDense(n, no, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < no; o++ {
			want.Set(i, o, X.At(i, 0)*coef.At(0, o)+X.At(i, 1)*coef.At(1, o)+b.At(0, o))
		}
	}
	lm := linearmodel.LinearModel{Coef: h.MaybeView("coef", coef), Intercept: b}
	var m base.Predicter
	switch vp.Choose("model", 4) {
	case 0:
		r := linearmodel.NewLinearRegression()
		r.LinearModel = lm
		m = r
	case 1:
		r := linearmodel.NewSGDRegressor()
		r.LinearModel = lm
		m = r
	case 2:
		r := linearmodel.NewRidge()
		r.LinearModel = lm
		m = r
	default:
		r := linearmodel.NewLasso()
		r.LinearModel = lm
		m = r
	}
	vp.Assert(!m.IsClassifier(), "a regressor")
	vp.Assert(m.GetNOutputs() == no, "outputs")
	switch vp.Choose("into", 4) {
	case 0:
		h.NearMat(m.Predict(X, nil), want, 1e-9, "returned")
	case 1:
		y := &mat.Dense{}
		r := m.Predict(h.MaybeView("X", X), y)
		h.NearMat(y, want, 1e-9, "empty")
		h.NearMat(r, want, 1e-9, "returned")
	case 2:
		v, parent := h.View(mat.NewDense(n, no, nil))
		m.Predict(X, v)
		h.NearMat(v, want, 1e-9, "strided")
		h.PadIntact(parent, "around the view")
	default:
		y := h.Const(n, no, make([]float64, n*no)...)
		y.Set(0, 0, 55)
		m.Predict(X.T().T(), y)
		h.NearMat(y, want, 1e-9, "given")
	}
	h.EqMat(lm.Coef, coef, "coefficients left alone")
}

// HScore: the score is the mean over outputs of 1-SSres/SStot.
func HScore() {
	n, no := 3, 1+vp.Choose("outputs", 2)
	X := h.DenseIn("x", n, 1, -9, 9)
	Y := h.DenseIn("y", n, no, -9, 9)
	coef, b := h.Const(1, no, []float64{2, -1}[:no]...), h.Const(1, no, []float64{0.5, 1}[:no]...)
	m := linearmodel.NewLinearRegression()
	m.Coef, m.Intercept = coef, b
	want := 0.
	for o := 0; o < no; o++ {
		mean, res, tot := (Y.At(0, o)+Y.At(1, o)+Y.At(2, o))/3, 0., 0.
		for i := 0; i < n; i++ {
			d := Y.At(i, o) - X.At(i, 0)*coef.At(0, o) - b.At(0, o)
			res += d * d
			d = Y.At(i, o) - mean
			tot += d * d
		}
		vp.Assume(tot > 0.5)
		want += (1 - res/tot) / float64(no)
	}
	vp.Near(m.Score(X, Y), want, 1e-6, "R2")
}

// HRefit: a second fit owes nothing to the first; a clone shares nothing.
func HRefit() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.NativeFloats(true)
	m := linearmodel.NewLinearRegression()
	m.FitIntercept = vp.Choose("intercept1", 2) == 1
	m.Normalize = vp.Choose("normalize1", 2) == 1
	X1 := design(1)
	n1, _ := X1.Dims()
	no1, no2 := 1+vp.Choose("outputs1", 2), 1+vp.Choose("outputs2", 2)
	Y1 := h.DenseIn("y1", n1, no1, -9, 9)
	m.Fit(X1, Y1)
	keepC, keepB := h.Copy(m.Coef), h.Copy(m.Intercept)
	var second *linearmodel.LinearRegression
	clone := vp.Choose("clone", 2) == 1
	if clone {
		second = m.PredicterClone().(*linearmodel.LinearRegression)
	} else {
		second = m
	}
	second.FitIntercept = vp.Choose("intercept2", 2) == 1
	X2 := design([]int{0, 1, 2}[vp.Choose("design", 3)])
	n2, _ := X2.Dims()
	Y2 := h.DenseIn("y2", n2, no2, -9, 9)
	second.Fit(X2, Y2)
	fresh := linearmodel.NewLinearRegression()
	fresh.FitIntercept, fresh.Normalize = second.FitIntercept, second.Normalize
	fresh.Fit(X2, Y2)
	h.NearMat(second.Coef, fresh.Coef, 1e-9, "coefficients")
	h.NearMat(second.Intercept, fresh.Intercept, 1e-9, "intercept")
	if clone {
		h.EqMat(m.Coef, keepC, "coefficients of the original")
		h.EqMat(m.Intercept, keepB, "intercept of the original")
	}
}

// HCloneEnet: refitting the clone of an elastic net leaves the original alone, with and without warm start.
func HCloneEnet() {
	vp.NativeFloats(true)
	m := linearmodel.NewElasticNet()
	m.WarmStart = vp.Choose("warm", 2) == 1
	m.MaxIter = 2
	no := 1 + vp.Choose("outputs", 2)
	X := design(1)
	first := vp.Choose("first", 2) == 1
	if first && m.WarmStart {
		X, no = design(0), 1
		m.MaxIter = 1
	}
	n, p := X.Dims()
	if first {
		// any previous solution
		m.Coef, m.Intercept = h.DenseIn("c", p, no, -9, 9), h.DenseIn("b", 1, no, -9, 9)
	} else {
		m.Fit(X, h.Const(n, no, []float64{1, 2, 3, 4, 5, 6, 7, 9}[:n*no]...))
	}
	keepC, keepB := h.Copy(m.Coef), h.Copy(m.Intercept)
	c := m.PredicterClone()
	c.Fit(X, h.Const(n, no, []float64{4, 2, -3, 4, 1, 6, 0, 9}[:n*no]...))
	h.EqMat(m.Coef, keepC, "coefficients of the original")
	h.EqMat(m.Intercept, keepB, "intercept of the original")
}

// HWarmFirst: warm start has nothing to start from at first, and any solution to start from later.
func HWarmFirst() {
	vp.NativeFloats(true)
	a, b := linearmodel.NewElasticNet(), linearmodel.NewElasticNet()
	a.Alpha, b.Alpha = 0.1, 0.1
	a.WarmStart = true
	norm := vp.Choose("normalize", 2) == 1
	a.Normalize, b.Normalize = norm, norm
	a.MaxIter, b.MaxIter = 2, 2
	X := design(vp.Choose("design", 2))
	n, p := X.Dims()
	Y := h.Const(n, 1, []float64{3, 1, 7, -2}[:n]...)
	if vp.Choose("other", 2) == 1 {
		a.Coef = h.DenseIn("c", p+1, 1, -9, 9)
	}
	a.Fit(X, Y)
	b.Fit(X, Y)
	h.EqMat(a.Coef, b.Coef, "from zero")
	h.EqMat(a.Intercept, b.Intercept, "from zero")
	// starting at the solution goes no worse
	b.MaxIter = 200
	b.Tol = 1e-12
	b.Fit(X, Y)
	a.Coef = h.Copy(b.Coef)
	a.MaxIter = 1
	a.Fit(X, Y)
	h.NearMat(a.Coef, b.Coef, 1e-6, "the solution stays the solution")
}

// HPredictWide: more samples, features and outputs.
func HPredictWide() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	n, p, no := 17, 5, 3
	X := h.Wide("x", n, p, 2, -9, 9)
	coef, b := h.Wide("c", p, no, 3, -9, 9), h.Fixed(1, no, 4)
	want := mat.NewDense(n, no, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < no; o++ {
			v := b.At(0, o)
			for j := 0; j < p; j++ {
				v += X.At(i, j) * coef.At(j, o)
			}
			want.Set(i, o, v)
		}
	}
	lm := linearmodel.LinearModel{Coef: coef, Intercept: b}
	var m base.Predicter
	switch vp.Choose("model", 2) {
	case 0:
		r := linearmodel.NewLinearRegression()
		r.LinearModel = lm
		m = r
	default:
		r := linearmodel.NewRidge()
		r.LinearModel = lm
		m = r
	}
	h.NearMat(m.Predict(h.MaybeView("X", X), nil), want, 1e-9, "returned")
	out, op := h.View(h.Fixed(n, no, 8))
	h.NearMat(m.Predict(X, out), want, 1e-9, "returned")
	h.NearMat(out, want, 1e-9, "in a view")
	h.PadIntact(op, "nothing else is written")
	h.NearMat(op.Slice(1, n+1, 1, no+1), want, 1e-9, "the parent of a view is filled")
	full := h.Fixed(n, no, 9)
	m.Predict(X, full)
	h.NearMat(full, want, 1e-9, "in a filled matrix")
	// the same model again, with fewer samples
	h.NearMat(m.Predict(X.Slice(2, 5, 0, p), nil), want.Slice(2, 5, 0, no), 1e-9, "fewer")
}

// HPreprocessWide: likewise for the centring.
func HPreprocessWide() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	vp.NativeFloats(true)
	n, p, no := 13, 5, 3
	X, Y := h.Fixed(n, p, 2), h.Wide("y", n, no, 5, -9, 9)
	for i := 0; i < n; i++ {
		X.Set(i, 3, 1.5)
	}
	fit, norm := vp.Choose("intercept", 2) == 1, vp.Choose("normalize", 2) == 1
	Xo, Yo, xoff, yoff, xs := linearmodel.PreprocessData(h.MaybeView("X", X), Y, fit, norm, nil)
	for j := 0; j < p; j++ {
		mean, ss := 0., 0.
		for i := 0; i < n && fit; i++ {
			mean += X.At(i, j) / float64(n)
		}
		for i := 0; i < n; i++ {
			ss += (X.At(i, j) - mean) * (X.At(i, j) - mean)
		}
		vp.Near(xoff.At(0, j), mean, 1e-9, "offset")
		s := xs.At(0, j)
		if fit && norm && j != 3 {
			vp.Near(s*s, ss, 1e-9, "scale is the norm")
		} else {
			vp.Eq(s, 1, "scale 1")
		}
		for i := 0; i < n; i++ {
			vp.Near(Xo.At(i, j)*s+xoff.At(0, j), X.At(i, j), 1e-9, "reversible")
		}
	}
	for o := 0; o < no; o++ {
		mean := 0.
		for i := 0; i < n && fit; i++ {
			mean += Y.At(i, o) / float64(n)
		}
		vp.Near(yoff.At(0, o), mean, 1e-9, "target offset")
		for i := 0; i < n; i++ {
			vp.Near(Yo.At(i, o), Y.At(i, o)-mean, 1e-9, "targets centred")
		}
	}
}
