// Package p28: Bayesian ridge regression.
package p28

import (
	"math"

	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

var samples = [][]float64{
	{1, 0, -1, 2},
	{1, 1, 3, 1},
	{0, 0, 0, 1},
}

var samples2 = [][]float64{
	{1, 0, 0, 1, -1, 2, 2, 1},
	{1, 1, 2, 2, 0, 0, 1, 1}, // collinear
	{1, 5, 2, 5, 3, 5, 0, 5}, // a constant feature
}

// prep centres and scales as asked.
func prep(X mat.Matrix, center, scale bool) (Z [][]float64, off, sc []float64) {
	n, p := X.Dims()
	off, sc = make([]float64, p), make([]float64, p)
	Z = make([][]float64, n)
	for i := range Z {
		Z[i] = make([]float64, p)
	}
	for j := 0; j < p; j++ {
		sc[j] = 1
		if center {
			for i := 0; i < n; i++ {
				off[j] += X.At(i, j) / float64(n)
			}
		}
		s := 0.
		for i := 0; i < n; i++ {
			Z[i][j] = X.At(i, j) - off[j]
			s += Z[i][j] * Z[i][j]
		}
		if center && scale && s > 1e-18 {
			sc[j] = math.Sqrt(s)
			for i := 0; i < n; i++ {
				Z[i][j] /= sc[j]
			}
		}
	}
	return
}

// ridge asserts that coefficients and covariance are the posterior's for the precisions reported.
func ridge(m *linearmodel.BayesianRidge, X mat.Matrix, Y mat.Matrix, tol float64) (rss, sum2 float64) {
	Z, off, sc := prep(X, m.FitIntercept, m.Normalize)
	n, p := X.Dims()
	_, outs := Y.Dims()
	for o := 0; o < outs; o++ {
		yoff := 0.
		if m.FitIntercept {
			for i := 0; i < n; i++ {
				yoff += Y.At(i, o) / float64(n)
			}
		}
		w := make([]float64, p)
		ic := yoff
		for j := range w {
			w[j] = m.Coef.At(j, o) * sc[j]
			ic -= off[j] * m.Coef.At(j, o)
		}
		vp.Near(m.Intercept.At(0, o), ic, tol, "the intercept makes the mean prediction the mean target")
		for j := range w {
			g := m.Lambda / m.Alpha * w[j]
			for i := 0; i < n; i++ {
				e := -(Y.At(i, o) - yoff)
				for k := range w {
					e += Z[i][k] * w[k]
				}
				g += Z[i][j] * e
				if j == 0 {
					rss += e * e
				}
			}
			vp.Near(g, 0, tol, "the coefficients are the posterior mean for Alpha and Lambda")
			sum2 += w[j] * w[j]
		}
	}
	for j := 0; j < p; j++ {
		for k := 0; k < p; k++ {
			s := m.Lambda / m.Alpha * m.Sigma.At(j, k)
			for q := 0; q < p; q++ {
				for i := 0; i < n; i++ {
					s += m.Sigma.At(j, q) * Z[i][q] * Z[i][k]
				}
			}
			want := 0.
			if j == k {
				want = 1
			}
			vp.Near(s*m.Alpha, want, tol*10, "Sigma is the posterior covariance for Alpha and Lambda")
		}
	}
	return
}

var small = [][]float64{{1, -1}, {3, 1}, {0, 1}}

var small2 = [][]float64{
	{1, 0, 0, 1, -1, 2},
	{1, 1, 2, 2, 0, 0}, // collinear
	{1, 5, 2, 5, 3, 5}, // a constant feature
}

// HFirst: after one iteration the precisions are the inverse variance of the targets and one.
func HFirst() {
	vp.NativeFloats(true)
	m := linearmodel.NewBayesianRidge()
	m.NIter = 1
	m.FitIntercept, m.Normalize = vp.Choose("intercept", 2) == 1, vp.Choose("normalize", 2) == 1
	p := 1 + vp.Choose("features", 2)
	n := p + 1
	X := h.Const(2, 1, small[vp.Choose("sample", 3)]...)
	if p == 2 {
		X = h.Const(3, 2, small2[vp.Choose("sample", 3)]...)
	}
	Y := h.Const(n, 1, []float64{.5, -1, 2}[:n]...)
	Y.Set(0, 0, vp.FloatIn("y", 0, 2))
	if vp.Choose("views", 2) == 1 {
		X, _ = h.View(X)
		Y, _ = h.View(Y)
	}
	Xc, Yc := h.Copy(X), h.Copy(Y)
	m.Fit(X, Y)
	h.EqMat(X, Xc, "X is left alone")
	h.EqMat(Y, Yc, "Y is left alone")
	ridge(m, X, Y, 1e-6)
	mean, v := 0., 0.
	if m.FitIntercept {
		for i := 0; i < n; i++ {
			mean += Y.At(i, 0) / float64(n)
		}
	}
	for i := 0; i < n; i++ {
		v += (Y.At(i, 0) - mean) * (Y.At(i, 0) - mean) / float64(n)
	}
	vp.Near(m.Alpha*v, 1, 1e-6, "the first Alpha is the inverse variance of the targets")
	vp.Eq(m.Lambda, 1, "the first Lambda is 1")
	vp.Reach("first")
}

// HSecond: the second iteration re-estimates both precisions from the first.
func HSecond() {
	m := linearmodel.NewBayesianRidge()
	m.NIter, m.Tol = 2, 0
	m.Alpha1, m.Alpha2, m.Lambda1, m.Lambda2 = .5, .25, .125, 1
	m.FitIntercept, m.Normalize = false, vp.Choose("normalize", 2) == 1
	x := small[vp.Choose("sample", 3)]
	X, Y := h.Const(2, 1, x...), h.Const(2, 1, 1, 2)
	Y.Set(vp.Choose("symbolic target", 2), 0, vp.FloatIn("y", .5, 2))
	m.Fit(X, Y)
	alpha, xy, yy, e := 0., 0., 0., 0.
	for i, xi := range x {
		yy += Y.At(i, 0) * Y.At(i, 0)
		xy += xi * Y.At(i, 0)
		e += xi * xi
	}
	alpha = 1 / (yy/2 + 2.220446049250313e-16) // finite when all targets are equal
	w := xy / (e + 1/alpha)
	gamma := alpha * e / (1 + alpha*e)
	rss := yy - 2*w*xy + w*w*e
	a2 := (2 - gamma + 2*.5) / (rss + 2*.25)
	l2 := (gamma + 2*.125) / (w*w + 2*1)
	vp.Eq(m.Alpha, a2, "Alpha is re-estimated from the squared error and the effective number of parameters")
	vp.Eq(m.Lambda, l2, "Lambda is re-estimated from the coefficients and the effective number of parameters")
	vp.Eq(m.Coef.At(0, 0)*(e+l2/a2), xy, "the coefficients follow")
	vp.Reach("second")
}

// HConverged: complete fits end at a fixed point.
func HConverged() {
	vp.NativeFloats(true)
	m := linearmodel.NewBayesianRidge()
	m.Tol = 1e-9
	m.FitIntercept, m.Normalize = vp.Choose("intercept", 2) == 1, vp.Choose("normalize", 2) == 1
	p := 1 + vp.Choose("features", 2)
	X := h.Const(4, 1, samples[vp.Choose("sample", 3)]...)
	if p == 2 {
		X = h.Const(4, 2, samples2[vp.Choose("sample", 3)]...)
	}
	outs := 1 + vp.Choose("outputs", 2)
	noisy := vp.Choose("noise", 3)
	Y := mat.NewDense(4, outs, nil)
	for i := 0; i < 4; i++ {
		for o := 0; o < outs; o++ {
			switch noisy {
			case 0:
				Y.Set(i, o, X.At(i, 0)*float64(1+o)+[]float64{.25, -.25, .125, 0}[i])
			case 1:
				Y.Set(i, o, []float64{1, -1, 2, 0}[i]*float64(1-2*o))
			case 2:
				Y.Set(i, o, 3) // nothing to explain
			}
		}
	}
	m.Fit(X, Y)
	for i := 0; i < p; i++ {
		vp.Assert(!math.IsNaN(m.Coef.At(i, 0)) && !math.IsInf(m.Coef.At(i, 0), 0), "the coefficients are numbers")
	}
	if noisy < 2 {
		rss, sum2 := ridge(m, X, Y, 1e-6)
		if outs == 1 && sum2 > 1e-6 {
			Z, _, _ := prep(X, m.FitIntercept, m.Normalize)
			gamma := 0. // the trace of the hat matrix
			for i := range Z {
				for j := range Z[i] {
					for k := range Z[i] {
						gamma += m.Alpha * Z[i][j] * m.Sigma.At(j, k) * Z[i][k]
					}
				}
			}
			vp.Near(m.Alpha*(rss+2*m.Alpha2)/(4-gamma+2*m.Alpha1), 1, 1e-3, "Alpha is a fixed point")
			vp.Near(m.Lambda*(sum2+2*m.Lambda2)/(gamma+2*m.Lambda1), 1, 1e-3, "Lambda is a fixed point")
		}
	} else if m.FitIntercept {
		for i := 0; i < 4; i++ {
			s := m.Intercept.At(0, 0)
			for j := 0; j < p; j++ {
				s += X.At(i, j) * m.Coef.At(j, 0)
			}
			vp.Near(s, 3, 1e-9, "constant targets are predicted")
		}
	}
	// a refit equals a first fit, and leaves clones alone
	c := m.PredicterClone().(*linearmodel.BayesianRidge)
	coef := h.Copy(c.Coef)
	m.Fit(h.Const(4, 1, 5, 1, 2, 1), h.Const(4, 1, 1, 2, 4, 3))
	h.EqMat(c.Coef, coef, "refitting leaves a clone alone")
	m.Fit(X, Y)
	h.EqMat(m.Coef, coef, "a refit equals a first fit")
	vp.Assert(m.Alpha == c.Alpha && m.Lambda == c.Lambda, "a refit equals a first fit")
	vp.Assert(!m.IsClassifier() && m.GetNOutputs() == outs, "a regressor of as many outputs")
	vp.Reach("converged")
}

// HPredict: the mean and standard deviation of the posterior prediction.
func HPredict() {
	p, outs := 1+vp.Choose("features", 2), 1+vp.Choose("outputs", 2)
	m := linearmodel.NewBayesianRidge()
	m.Normalize = vp.Choose("normalize", 2) == 1
	m.Coef, m.Intercept = h.DenseIn("Coef", p, outs, -2, 2), h.DenseIn("Intercept", 1, outs, -2, 2)
	X := h.MaybeView("X", h.DenseIn("X", 2, p, -2, 2))
	at := func(i, o int) float64 {
		s := m.Intercept.At(0, o)
		for j := 0; j < p; j++ {
			s += X.At(i, j) * m.Coef.At(j, o)
		}
		return s
	}
	var P *mat.Dense
	switch vp.Choose("dest", 4) {
	case 0:
		P = m.Predict(X, nil)
	case 1:
		P = m.Predict(X, &mat.Dense{})
	case 2:
		P = mat.NewDense(2, outs, nil)
		m.Predict(X, P)
	case 3:
		v, parent := h.View(mat.NewDense(2, outs, nil))
		P = v
		m.Predict(X, P)
		h.PadIntact(parent, "Predict writes in Y only")
	}
	for i := 0; i < 2; i++ {
		for o := 0; o < outs; o++ {
			vp.Eq(P.At(i, o), at(i, o), "mean prediction")
		}
	}
	// Sigma = L L'
	L := h.DenseIn("L", p, p, -1, 1)
	m.Sigma = mat.NewDense(p, p, nil)
	m.Sigma.Mul(L, L.T())
	m.Alpha = []float64{.5, 4}[vp.Choose("alpha", 2)]
	m.XOffset, m.XScale = h.Const(1, p, []float64{.5, -1}[:p]...), h.Const(1, p, []float64{2, 4}[:p]...)
	var Y, S mat.Dense
	m.Predict2(X, &Y, &S)
	r, c := S.Dims()
	vp.Assert(r == 2 && c == 1, "a standard deviation by sample")
	for i := 0; i < 2; i++ {
		v := 1 / m.Alpha
		z := make([]float64, p)
		for j := range z {
			z[j] = X.At(i, j)
			if m.Normalize {
				z[j] = (z[j] - m.XOffset.At(0, j)) / m.XScale.At(0, j)
			}
		}
		for q := 0; q < p; q++ {
			s := 0.
			for j := range z {
				s += z[j] * L.At(j, q)
			}
			v += s * s
		}
		vp.Eq(S.At(i, 0)*S.At(i, 0), v, "the variance of a prediction is that of the noise and of the coefficients")
		vp.Assert(S.At(i, 0) >= 0, "a standard deviation is not negative")
		for o := 0; o < outs; o++ {
			vp.Eq(Y.At(i, o), at(i, o), "Predict2 predicts")
		}
	}
	vp.Reach("predicted")
}

// effective returns the effective number of parameters of m fitted to X.
func effective(m *linearmodel.BayesianRidge, X mat.Matrix) (gamma float64) {
	Z, _, _ := prep(X, m.FitIntercept, m.Normalize)
	for i := range Z {
		for j := range Z[i] {
			for k := range Z[i] {
				gamma += m.Alpha * Z[i][j] * m.Sigma.At(j, k) * Z[i][k]
			}
		}
	}
	return
}

// HWide: complete fits and predictions of larger data.
func HWide() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	n, p, outs := 13, 4, 1+2*vp.Choose("outputs", 2)
	m := linearmodel.NewBayesianRidge()
	m.FitIntercept, m.Normalize = vp.Choose("intercept", 2) == 1, vp.Choose("normalize", 2) == 1
	m.NIter = []int{1, 5, 300}[vp.Choose("iterations", 3)]
	m.Tol = 1e-9
	X, Y := h.Fixed(n, p, 1), h.Fixed(n, outs, 4)
	switch vp.Choose("data", 4) {
	case 3: // small targets
		Y.Scale(1e-5, Y)
	case 1: // small features
		X.Scale(.001, X)
		Y.Apply(func(i, o int, v float64) float64 { return X.At(i, 0)*2000 - X.At(i, 1+o)*1000 + v*1e-3 }, Y)
	case 2: // little noise
		Y.Apply(func(i, o int, v float64) float64 { return X.At(i, 0)*2 - X.At(i, 1+o) + v*1e-4 }, Y)
	}
	m.Fit(h.MaybeView("X", X), Y)
	rss, sum2 := ridge(m, X, Y, 1e-6)
	if m.NIter < 300 {
		v := 0.
		for o := 0; o < outs; o++ {
			mean := 0.
			for i := 0; i < n && m.FitIntercept; i++ {
				mean += Y.At(i, o) / float64(n)
			}
			for i := 0; i < n; i++ {
				v += (Y.At(i, o) - mean) * (Y.At(i, o) - mean) / float64(n*outs)
			}
		}
		if m.NIter == 1 {
			vp.Near(m.Alpha*v, 1, 1e-6, "the first Alpha is the inverse variance of the targets")
			vp.Eq(m.Lambda, 1, "the first Lambda is 1")
		}
		next := linearmodel.NewBayesianRidge()
		next.FitIntercept, next.Normalize, next.NIter, next.Tol = m.FitIntercept, m.Normalize, m.NIter+1, m.Tol
		next.Fit(X, Y)
		gamma := effective(m, X)
		vp.Near(next.Alpha*(rss+2*m.Alpha2)/(float64(n)-gamma+2*m.Alpha1), 1, 1e-3, "Alpha is re-estimated")
		vp.Near(next.Lambda*(sum2+2*m.Lambda2)/(gamma+2*m.Lambda1), 1, 1e-3, "Lambda is re-estimated")
	}
	if m.NIter == 300 && outs == 1 && sum2 > 1e-6 {
		gamma := effective(m, X)
		vp.Near(m.Alpha*(rss+2*m.Alpha2)/(float64(n)-gamma+2*m.Alpha1), 1, 1e-3, "Alpha is a fixed point")
		vp.Near(m.Lambda*(sum2+2*m.Lambda2)/(gamma+2*m.Lambda1), 1, 1e-3, "Lambda is a fixed point")
	}
	Q := h.Wide("q", 7, p, 3, -4, 4)
	var P, S mat.Dense
	m.Predict2(Q, &P, &S)
	P1 := m.Predict(Q, nil)
	for i := 0; i < 7; i++ {
		var p1, s1 mat.Dense
		m.Predict2(mat.DenseCopyOf(Q.Slice(i, i+1, 0, p)), &p1, &s1)
		vp.Near(s1.At(0, 0), S.At(i, 0), 1e-9, "the deviation of a query alone")
		for o := 0; o < outs; o++ {
			v := m.Intercept.At(0, o)
			for j := 0; j < p; j++ {
				v += Q.At(i, j) * m.Coef.At(j, o)
			}
			vp.Near(P.At(i, o), v, 1e-9, "mean prediction")
			vp.Near(P1.At(i, o), v, 1e-9, "mean prediction")
		}
		v := 1 / m.Alpha
		for j := 0; j < p; j++ {
			for k := 0; k < p; k++ {
				zj, zk := Q.At(i, j), Q.At(i, k)
				if m.Normalize {
					zj, zk = (zj-m.XOffset.At(0, j))/m.XScale.At(0, j), (zk-m.XOffset.At(0, k))/m.XScale.At(0, k)
				}
				v += zj * m.Sigma.At(j, k) * zk
			}
		}
		vp.Near(S.At(i, 0)*S.At(i, 0), v, 1e-6, "the variance of a prediction is that of the noise and of the coefficients")
	}
}
