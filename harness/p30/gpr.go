package p30

import (
	"math"

	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

func kernel(kind int) kernels.Kernel {
	switch kind {
	case 0:
		return &kernels.RBF{LengthScale: []float64{1.5}, LengthScaleBounds: [][2]float64{free}}
	case 1:
		return &kernels.Sum{KernelOperator: kernels.KernelOperator{
			K1: &kernels.ConstantKernel{ConstantValue: 2, ConstantValueBounds: fixed},
			K2: &kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{free}}}}
	default:
		return &kernels.Product{KernelOperator: kernels.KernelOperator{
			K1: &kernels.ConstantKernel{ConstantValue: 2, ConstantValueBounds: free},
			K2: &kernels.RBF{LengthScale: []float64{2}, LengthScaleBounds: [][2]float64{free}}}}
	}
}

func problem() (m *gp.Regressor, X, Y *mat.Dense, n, outs int) {
	n, outs = 1+vp.Choose("samples", 4), 1+vp.Choose("outputs", 2)
	wide := n == 4
	if wide {
		n, outs = 9, outs*2-1
	}
	if k := kernel(vp.Choose("kernel", 3)); vp.Choose("literal", 2) == 1 {
		m = &gp.Regressor{Kernel: k}
	} else {
		m = gp.NewRegressor(k)
	}
	if vp.Choose("alphas", 2) == 1 {
		m.Alpha = []float64{.5, .25, .125, .5, 1, .25, .5, .125, 1}[:n]
	} else {
		m.Alpha = []float64{.25}
	}
	if wide {
		X, Y = h.Fixed(n, 2, 1), h.Wide("Y", n, outs, 2, -4, 4)
		return
	}
	X = h.MaybeView("X", h.Const(n, 2, []float64{0, 1, 1, -1, 2, .5}[:2*n]...))
	Y = h.MaybeView("Y", h.DenseIn("Y", n, outs, -4, 4))
	return
}

// dual returns (K+Alpha)^-1 and K+Alpha; the inverse is asserted to be one.
func inverse(m *gp.Regressor, K *mat.Dense) (inv *mat.Dense) {
	n, _ := K.Dims()
	A := mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			A.Set(i, j, K.At(i, j))
		}
		a := m.Alpha[0]
		if len(m.Alpha) > 1 {
			a = m.Alpha[i]
		}
		A.Set(i, i, K.At(i, i)+a)
	}
	// Gauss-Jordan, no pivoting needed
	inv = mat.NewDense(n, n, nil)
	for i := 0; i < n; i++ {
		inv.Set(i, i, 1)
	}
	for p := 0; p < n; p++ {
		d := A.At(p, p)
		for j := 0; j < n; j++ {
			A.Set(p, j, A.At(p, j)/d)
			inv.Set(p, j, inv.At(p, j)/d)
		}
		for i := 0; i < n; i++ {
			if i != p {
				f := A.At(i, p)
				for j := 0; j < n; j++ {
					A.Set(i, j, A.At(i, j)-f*A.At(p, j))
					inv.Set(i, j, inv.At(i, j)-f*inv.At(p, j))
				}
			}
		}
	}
	return
}

// det by elimination
func det(m *gp.Regressor, K *mat.Dense) float64 {
	n, _ := K.Dims()
	A := h.Copy(K)
	d := 1.
	for i := 0; i < n; i++ {
		a := m.Alpha[0]
		if len(m.Alpha) > 1 {
			a = m.Alpha[i]
		}
		A.Set(i, i, A.At(i, i)+a)
	}
	for p := 0; p < n; p++ {
		d *= A.At(p, p)
		for i := p + 1; i < n; i++ {
			f := A.At(i, p) / A.At(p, p)
			for j := p; j < n; j++ {
				A.Set(i, j, A.At(i, j)-f*A.At(p, j))
			}
		}
	}
	return d
}

// HPosterior: a fitted regressor predicts the posterior of the process at new points.
func HPosterior() {
	vp.NativeFloats(true)
	m, X, Y, n, outs := problem()
	m.NormalizeY = vp.Choose("normalize", 2) == 1
	Xc, Yc := h.Copy(X), h.Copy(Y)
	m.Fit(X, Y)
	h.EqMat(X, Xc, "X is left alone")
	h.EqMat(Y, Yc, "Y is left alone")
	vp.Assert(m.GetNOutputs() == outs && !m.IsClassifier(), "a regressor of as many outputs")
	const q = 2
	Z := h.Const(q, 2, .5, 0, 1, -1)
	// the samples given may change
	k := kernelOf(m)
	K, _ := k.Eval(Xc, nil, false)
	inv := inverse(m, K)
	Kz, _ := k.Eval(Z, Xc, false)
	Kzz, _ := k.Eval(Z, nil, false)
	X.Set(0, 0, 100)
	Y.Set(0, 0, 100)
	c := m
	if vp.Choose("clone", 2) == 1 {
		c = m.PredicterClone().(*gp.Regressor)
		m.Alpha[0] = 7
		m.Alpha = []float64{1}
		m.Fit(h.Const(3, 2, 1, 2, 3, 4, 5, 6), h.Const(3, outs, []float64{1, 2, 3, 4, 5, 6, 7, 8, 9}[:3*outs]...))
	}
	dest := vp.Choose("dest", 4)
	var P *mat.Dense
	switch dest {
	case 0:
		P = c.Predict(Z, nil)
	case 1:
		P = &mat.Dense{}
		c.Predict(Z, P)
	case 2:
		v, parent := h.View(h.Const(q, outs, []float64{9, 9, 9, 9, 9, 9}[:q*outs]...))
		P = v
		c.Predict(Z, P)
		h.PadIntact(parent, "Predict writes in Y only")
	case 3:
		var S *mat.DiagDense
		var C *mat.Dense
		std := vp.Choose("std", 2) == 1
		P, S, C = c.PredictEx(Z, nil, std, !std)
		vp.Assert((S != nil) == std && (C != nil) != std, "what is asked is returned")
		for i := 0; i < q; i++ {
			for j := 0; j < q; j++ {
				v := Kzz.At(i, j)
				for a := 0; a < n; a++ {
					for b := 0; b < n; b++ {
						v -= Kz.At(i, a) * inv.At(a, b) * Kz.At(j, b)
					}
				}
				if !std {
					vp.Near(C.At(i, j), v, 1e-6, "covariance of the posterior")
				} else if i == j {
					vp.Near(S.At(i, i)*S.At(i, i), v, 1e-6, "standard deviation of the posterior")
					vp.Assert(S.At(i, i) >= 0, "a standard deviation is not negative")
				}
			}
		}
	}
	for o := 0; o < outs; o++ {
		mean := 0.
		if c.NormalizeY {
			for i := 0; i < n; i++ {
				mean += Yc.At(i, o) / float64(n)
			}
		}
		for i := 0; i < q; i++ {
			v := mean
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					v += Kz.At(i, a) * inv.At(a, b) * (Yc.At(b, o) - mean)
				}
			}
			vp.Near(P.At(i, o), v, 1e-6, "mean of the posterior")
		}
	}
	vp.Reach("posterior")
}

func kernelOf(m *gp.Regressor) kernels.Kernel { return m.Kernel.CloneWithTheta(nil) }

// HLikelihood: the log marginal likelihood and its gradient.
func HLikelihood() {
	vp.NativeFloats(true)
	m, X, Y, n, outs := problem()
	T := h.Copy(m.Theta())
	m.Fit(X, Y)
	if vp.Choose("theta", 2) == 1 {
		T.Set(0, 0, T.At(0, 0)+.25)
	} else {
		lml, g := m.LogMarginalLikelihood(nil, false)
		l2, _ := m.LogMarginalLikelihood(T, false)
		vp.Near(lml, l2, 1e-9, "without theta the likelihood is that of the fit")
		vp.Assert(g == nil, "no gradient")
	}
	grad := vp.Choose("gradient", 2) == 1
	lml, g := m.LogMarginalLikelihood(T, grad)
	k := m.Kernel.CloneWithTheta(T)
	K, Kg := k.Eval(X, nil, true)
	inv := inverse(m, K)
	quad := 0.
	alpha := mat.NewDense(n, outs, nil)
	for o := 0; o < outs; o++ {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				alpha.Set(a, o, alpha.At(a, o)+inv.At(a, b)*Y.At(b, o))
			}
			quad += alpha.At(a, o) * Y.At(a, o)
		}
	}
	d := math.Log(det(m, K))
	vp.Near(lml, -.5*quad-float64(outs)*.5*(d+float64(n)*math.Log(2*math.Pi)), 1e-6, "log of the density of the targets")
	if grad {
		r, _ := T.Dims()
		vp.Assert(len(g) == r, "a gradient component by element of theta")
		for p := range g {
			s := 0.
			for a := 0; a < n; a++ {
				for b := 0; b < n; b++ {
					for o := 0; o < outs; o++ {
						s += .5 * (alpha.At(a, o)*alpha.At(b, o) - inv.At(a, b)) * at(Kg, b, a, p)
					}
				}
			}
			vp.Near(g[p], s, 1e-6, "derivative of the likelihood")
		}
	} else {
		vp.Assert(g == nil, "no gradient")
	}
	vp.Reach("likelihood")
}

// HPrior: an unfitted regressor predicts the prior; scoring changes nothing; alphas are checked.
func HPrior() {
	vp.NativeFloats(true)
	k := kernel(vp.Choose("kernel", 3))
	m := gp.NewRegressor(k)
	Z := h.Const(2, 2, .5, 0, 1, -1)
	K, _ := k.Eval(Z, nil, false)
	P, S, C := m.PredictEx(Z, nil, false, true)
	vp.Assert(S == nil && P.At(0, 0) == 0 && P.At(1, 0) == 0, "the prior mean is zero")
	h.EqMat(C, K, "the prior covariance is the kernel")
	P, S, C = m.PredictEx(Z, nil, true, false)
	vp.Assert(C == nil, "no covariance")
	for i := 0; i < 2; i++ {
		vp.Near(S.At(i, i)*S.At(i, i), K.At(i, i), 1e-9, "the prior variance is the kernel's")
	}
	Y := mat.NewDense(2, 1, []float64{vp.Float("y0"), vp.Float("y1")})
	m.Predict(Z, Y)
	vp.Assert(Y.At(0, 0) == 0 && Y.At(1, 0) == 0, "the prior mean is zero")
	// score
	m.Alpha = []float64{.5, .25, .125}
	m.Fit(h.Const(3, 2, 0, 1, 1, -1, 2, .5), h.DenseIn("Y", 3, 1, -1, 1))
	P = h.Copy(m.Predict(Z, nil))
	T := h.Const(2, 1, 1, -1)
	score := m.Score(Z, T)
	rss := (P.At(0, 0)-1)*(P.At(0, 0)-1) + (P.At(1, 0)+1)*(P.At(1, 0)+1)
	vp.Near(score, 1-rss/2, 1e-6, "Score is the R2 score of the predictions")
	h.EqMat(m.Predict(Z, nil), P, "Score leaves the model alone")
	m.Alpha = m.Alpha[:2]
	vp.Assert(vp.Panics(func() { m.Fit(h.Const(3, 1, 1, 2, 3), h.Const(3, 2, 1, 2, 3, 4, 5, 6)) }), "Alpha is a scalar or has an element by sample")
	vp.Reach("prior")
}
