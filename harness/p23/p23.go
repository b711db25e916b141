// Package p23: coordinate descent for elastic nets.
package p23

import (
	"math"

	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// shrink is the minimiser over w of a/2 w² - t w + l1 |w|, possibly over w>=0.
func shrink(t, l1, a float64, positive bool) float64 {
	switch {
	case t > l1:
		return (t - l1) / a
	case t < -l1 && !positive:
		return (t + l1) / a
	}
	return 0
}

func net(k int) *linearmodel.ElasticNet {
	m := linearmodel.NewElasticNet()
	m.FitIntercept = false
	m.Alpha = []float64{0.5, 2, 0.1}[k%3]
	m.L1Ratio = []float64{0.5, 1, 0, 0.25}[k%4]
	return m
}

// HOne: with one feature one step is the exact solution.
func HOne() {
	n := 3
	X := h.Const(n, 1, 1, -2, 4)
	Y := h.DenseIn("y", n, 1, -3, 3)
	m := net(vp.Choose("penalty", 4))
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	m.Positive = vp.Choose("positive", 2) == 1
	m.MaxIter = 1
	x0, y0 := h.Copy(X), h.Copy(Y)
	m.Fit(h.MaybeView("X", X), h.MaybeView("Y", Y))
	h.EqMat(X, x0, "X left alone")
	h.EqMat(Y, y0, "Y left alone")
	mx, my := 0., 0.
	if m.FitIntercept {
		mx, my = 1, (Y.At(0, 0)+Y.At(1, 0)+Y.At(2, 0))/3
	}
	t, xx := 0., 0.
	for i := 0; i < n; i++ {
		t += (X.At(i, 0) - mx) * (Y.At(i, 0) - my)
		xx += (X.At(i, 0) - mx) * (X.At(i, 0) - mx)
	}
	l1, l2 := m.Alpha*m.L1Ratio*3, m.Alpha*(1-m.L1Ratio)*3
	w := shrink(t, l1, xx+l2, m.Positive)
	vp.Near(m.Coef.At(0, 0), w, 1e-6, "the minimiser")
	vp.Near(m.Intercept.At(0, 0), my-mx*w, 1e-6, "intercept")
	vp.Assert(m.CDResult.NIter == 1, "one iteration")
	// the duality gap vanishes at the solution
	if l1 > 0 {
		vp.Near(m.CDResult.Gap, 0, 1e-6, "no gap at the solution")
	}
}

// HSweep: one cyclic iteration from any coefficients minimises over each coefficient in turn.
func HSweep() {
	n, p := 3, 2
	X := h.Const(n, p, 1, 2, -1, 1, 2, 0)
	Y := h.DenseIn("y", n, 1, -3, 3)
	if !vp.Thorough() {
		Y.Set(2, 0, 1)
	}
	m := net(vp.Choose("penalty", 4))
	m.Positive = vp.Choose("positive", 2) == 1
	m.MaxIter = 1
	w := []float64{0, 0}
	if vp.Choose("warm", 2) == 1 {
		m.WarmStart = true
		w = vp.FloatsIn("w", p, -2, 2)
		Y = h.Const(n, 1, 1, -2, 0.5)
		if m.Positive {
			vp.Assume(w[0] >= 0 && w[1] >= 0)
		}
		m.Coef = h.Const(p, 1, w...)
	}
	m.Fit(X, Y)
	l1, l2 := m.Alpha*m.L1Ratio*float64(n), m.Alpha*(1-m.L1Ratio)*float64(n)
	for j := 0; j < p; j++ {
		t, xx := 0., 0.
		for i := 0; i < n; i++ {
			r := Y.At(i, 0)
			for k := 0; k < p; k++ {
				if k != j {
					r -= X.At(i, k) * w[k]
				}
			}
			t += X.At(i, j) * r
			xx += X.At(i, j) * X.At(i, j)
		}
		w[j] = shrink(t, l1, xx+l2, m.Positive)
		vp.Near(m.Coef.At(j, 0), w[j], 1e-6, "minimised over this coefficient")
	}
}

// HGap: the reported gap bounds how far the objective is above that of any other coefficients.
func HGap() {
	n, p := 2, 1
	if vp.Thorough() {
		p = 1 + vp.Choose("features", 2)
	}
	X := h.Const(n, p, []float64{1, 2, -1, 1}[:n*p]...)
	Y := h.DenseIn("y", n, 1, -2, 2)
	if !vp.Thorough() {
		Y.Set(1, 0, 0.5)
	}
	m := net(vp.Choose("penalty", 2))
	m.Positive = vp.Choose("positive", 2) == 1
	m.MaxIter = 1
	m.Fit(X, Y)
	u := vp.FloatsIn("u", p, -2, 2)
	if m.Positive {
		for _, x := range u {
			vp.Assume(x >= 0)
		}
	}
	l1, l2 := m.Alpha*m.L1Ratio*float64(n), m.Alpha*(1-m.L1Ratio)*float64(n)
	obj := func(w []float64) float64 {
		v := 0.
		for i := 0; i < n; i++ {
			r := Y.At(i, 0)
			for j := 0; j < p; j++ {
				r -= X.At(i, j) * w[j]
			}
			v += r * r / 2
		}
		for j := 0; j < p; j++ {
			v += l1*math.Abs(w[j]) + l2/2*w[j]*w[j]
		}
		return v
	}
	w := make([]float64, p)
	for j := range w {
		w[j] = m.Coef.At(j, 0)
	}
	vp.Assert(obj(w)-obj(u) <= m.CDResult.Gap+1e-6, "nothing is better by more than the gap")
}

// HOrthogonal: orthogonal features are solved in one iteration, cyclic or not at random.
func HOrthogonal() {
	n := 4
	X := h.Const(n, 2, 1, 1, 1, -1, -1, 1, -1, -1)
	Y := h.DenseIn("y", n, 1, -3, 3)
	if !vp.Thorough() {
		Y.Set(2, 0, 1)
		Y.Set(3, 0, -1.5)
	}
	m := net(vp.Choose("penalty", 2))
	m.Positive = vp.Choose("positive", 2) == 1
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	m.Normalize = m.FitIntercept && vp.Choose("normalize", 2) == 1
	m.MaxIter = 1
	m.Fit(X, Y)
	my := (Y.At(0, 0) + Y.At(1, 0) + Y.At(2, 0) + Y.At(3, 0)) / 4
	if !m.FitIntercept {
		my = 0
	}
	s := 1.
	if m.Normalize {
		s = 2
	}
	for j := 0; j < 2; j++ {
		t := 0.
		for i := 0; i < n; i++ {
			t += X.At(i, j) / s * (Y.At(i, 0) - my)
		}
		w := shrink(t, m.Alpha*m.L1Ratio*4, 4/s/s+m.Alpha*(1-m.L1Ratio)*4, m.Positive) / s
		vp.Near(m.Coef.At(j, 0), w, 1e-6, "the minimiser")
	}
	vp.Near(m.Intercept.At(0, 0), my, 1e-6, "intercept")
}

// HRandom: a random order also minimises over the coefficient it draws and leaves the others alone.
func HRandom() {
	vp.NativeFloats(true)
	X := h.Const(3, 2, 1, 2, -1, 1, 2, 0)
	Y := h.Const(3, 1, 3, -2, 5)
	m := net(vp.Choose("penalty", 3))
	m.Selection = "random"
	m.MaxIter = 60
	m.Tol = 1e-9
	no := 1 + vp.Choose("outputs", 2)
	if no == 2 {
		Y = h.Const(3, 2, 3, 1, -2, 0, 5, 1)
	}
	m.Fit(X, Y)
	c := net(0)
	c.Alpha, c.L1Ratio, c.Tol, c.MaxIter = m.Alpha, m.L1Ratio, 1e-9, 60
	c.Fit(X, Y)
	h.NearMat(m.Coef, c.Coef, 1e-3, "same solution")
}

// HMultiOne: with several outputs a feature is kept or dropped for all of them together.
func HMultiOne() {
	n, no := 2, 2
	X := h.Const(n, 1, 1, -2)
	Y := h.Const(n, no, 0, 0, 0.5, -1)
	Y.Set(0, 0, vp.FloatIn("y0", -3, 3))
	Y.Set(0, 1, 1.5)
	m := net(vp.Choose("penalty", 2))
	m.Positive = vp.Choose("positive", 2) == 1
	m.MaxIter = 1
	m.Fit(X, Y)
	l1, l2 := m.Alpha*m.L1Ratio*2, m.Alpha*(1-m.L1Ratio)*2
	t := make([]float64, no)
	ss := 0.
	for o := 0; o < no; o++ {
		t[o] = Y.At(0, o) - 2*Y.At(1, o)
		if m.Positive && t[o] < 0 {
			t[o] = 0
		}
		ss += t[o] * t[o]
	}
	w0, w1 := m.Coef.At(0, 0), m.Coef.At(0, 1)
	if m.Positive {
		vp.Assert(w0 >= 0 && w1 >= 0, "positive")
	}
	nn := math.Sqrt(ss)
	for o := 0; o < no; o++ {
		w := m.Coef.At(0, o)
		if nn <= l1 {
			vp.Near(w, 0, 1e-9, "dropped")
		} else {
			// (5+l2) w = t (1-l1/nn)
			vp.Near(w*(5+l2)*nn, t[o]*(nn-l1), 1e-6, "the minimiser")
		}
	}
	vp.Eq(m.Intercept.At(0, 0), 0, "no intercept")
}

// HMultiSingle: a second output that is always 0 changes nothing for the first.
func HMultiSingle() {
	n, p := 3, 2
	X := h.Const(n, p, 1, 2, -1, 1, 2, 0)
	Y := h.Const(n, 1, 0, -2, 0.5)
	if vp.Choose("features", 2) == 1 {
		p = 1
		X = h.Const(n, 1, 1, -1, 2)
		Y.Set(0, 0, vp.FloatIn("y", -3, 3))
	} else {
		Y.Set(0, 0, []float64{-2, 0, 3}[vp.Choose("value", 3)])
		X, Y = h.MaybeView("X", X), h.MaybeView("Y", Y)
	}
	Y2 := mat.NewDense(n, 2, nil)
	at := vp.Choose("column", 2)
	for i := 0; i < n; i++ {
		Y2.Set(i, at, Y.At(i, 0))
	}
	k := vp.Choose("penalty", 3)
	a, b := net(k), net(k)
	a.MaxIter, b.MaxIter = 1, 1
	a.Fit(X, Y)
	b.Fit(X, Y2)
	for j := 0; j < p; j++ {
		vp.Near(b.Coef.At(j, at), a.Coef.At(j, 0), 1e-6, "as alone")
		vp.Near(b.Coef.At(j, 1-at), 0, 1e-9, "nothing to fit")
	}
}

// HIterations: the number of iterations reported is the number made.
func HIterations() {
	vp.NativeFloats(true)
	X := h.Const(3, 2, 1, 2, -1, 1, 2, 0)
	no := 1 + vp.Choose("outputs", 2)
	Y := h.Const(3, no, []float64{3, -2, 5, 1, 0, 2}[:3*no]...)
	m := net(0)
	m.Tol = 0 // never reached
	m.MaxIter = 1 + vp.Choose("max", 3)
	m.Fit(X, Y)
	vp.Assert(m.CDResult.NIter == m.MaxIter, "not more than allowed")
	m.Tol, m.MaxIter = 1e-3, 100
	m.Fit(X, Y)
	n := m.CDResult.NIter
	vp.Assert(n >= 1 && n < 100, "converged")
	vp.Assert(m.CDResult.Gap < m.CDResult.Eps, "gap below tolerance")
	c := net(0)
	c.Tol, c.MaxIter = 0, n
	c.Fit(X, Y)
	h.EqMat(c.Coef, m.Coef, "as many iterations as reported")
}

// HPath: a path holds, for every alpha given, the model of that alpha; the automatic alphas start at the zero solution.
func HPath() {
	vp.NativeFloats(true)
	vp.CPUs(2)
	n := 3
	X := h.Const(n, 2, 1, 2, -1, 1, 2, 0)
	no := 1 + vp.Choose("outputs", 2)
	Y := h.Const(n, no, []float64{3, -2, 5, 1, 0, 2}[:n*no]...)
	given := [][]float64{{2}, {0.5, 3}, {1, 0.2, 4}}[vp.Choose("alphas", 3)]
	na := 1 + vp.Choose("n", 3)
	pos := vp.Choose("positive", 2) == 1
	keep := append([]float64(nil), given...)
	alphas, coefs, gaps, iters := linearmodel.EnetPath(X, Y, 0.5, 1e-3, na, &given, false, pos)
	vp.Assert(len(alphas) == len(keep) && len(coefs) == len(keep) && len(gaps) == len(keep) && len(iters) == len(keep), "one per alpha")
	for i := range keep {
		vp.Eq(alphas[i], keep[i], "the alphas given")
		m := linearmodel.NewElasticNet()
		m.FitIntercept = false
		m.Alpha, m.L1Ratio, m.Tol, m.Positive = keep[i], 0.5, 1e-3, pos
		m.Fit(X, Y)
		h.EqMat(coefs[i], m.Coef, "model of the alpha")
		vp.Eq(gaps[i], m.CDResult.Gap, "gap of the alpha")
		vp.Assert(iters[i] == m.CDResult.NIter, "iterations of the alpha")
	}
}

// HGrid: automatic alphas reach from the smallest one whose solution is zero down to eps times that.
func HGrid() {
	vp.NativeFloats(true)
	n := 3
	scale := []float64{0.01, 1, 50}[vp.Choose("scale", 3)]
	X := h.Const(n, 2, 1*scale, 2*scale, -1*scale, 1*scale, 2*scale, 0)
	no := 1 + vp.Choose("outputs", 2)
	Y := h.Const(n, no, []float64{3, -2, 5, 1, 0, 2}[:n*no]...)
	ratio := []float64{1, 0.5}[vp.Choose("ratio", 2)]
	alphas, coefs, _, _ := linearmodel.EnetPath(X, Y, ratio, 1e-3, 3, nil, false, false)
	vp.Assert(len(alphas) == 3, "as many as asked")
	lo, hi := alphas[0], alphas[0]
	for _, a := range alphas {
		lo, hi = math.Min(lo, a), math.Max(hi, a)
	}
	vp.Near(lo/hi, 1e-3, 1e-9, "eps times the largest")
	for i, a := range alphas {
		s := 0.
		for j := 0; j < 2; j++ {
			for o := 0; o < no; o++ {
				s += math.Abs(coefs[i].At(j, o))
			}
		}
		if a == hi {
			vp.Near(s*scale, 0, 1e-6, "zero solution at the largest alpha")
			m := linearmodel.NewElasticNet()
			m.FitIntercept = false
			m.Alpha, m.L1Ratio = a*0.98, ratio
			m.Fit(X, Y)
			nz := false
			for j := 0; j < 2; j++ {
				nz = nz || m.Coef.At(j, 0) != 0
			}
			vp.Assert(nz, "and not below it")
		} else {
			vp.Assert(s > 0, "something fitted below it")
		}
	}
}

// HSweepWide: one iteration over more samples and features.
func HSweepWide() {
	n, p := 16, 3
	if vp.Thorough() {
		p = 5
	}
	X, Y := h.Fixed(n, p, 1), h.Wide("y", n, 1, 2, -3, 3)
	k := 2
	if vp.Thorough() {
		k = 4
	}
	m := net(vp.Choose("penalty", k))
	m.Positive = vp.Choose("positive", 2) == 1
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	m.MaxIter = 1
	m.Fit(X, Y)
	my, mx := 0., make([]float64, p)
	if m.FitIntercept {
		for i := 0; i < n; i++ {
			my += Y.At(i, 0) / float64(n)
			for j := range mx {
				mx[j] += X.At(i, j) / float64(n)
			}
		}
	}
	w := make([]float64, p)
	l1, l2 := m.Alpha*m.L1Ratio*float64(n), m.Alpha*(1-m.L1Ratio)*float64(n)
	b := my
	for j := 0; j < p; j++ {
		t, xx := 0., 0.
		for i := 0; i < n; i++ {
			r := Y.At(i, 0) - my
			for k := 0; k < p; k++ {
				if k != j {
					r -= (X.At(i, k) - mx[k]) * w[k]
				}
			}
			t += (X.At(i, j) - mx[j]) * r
			xx += (X.At(i, j) - mx[j]) * (X.At(i, j) - mx[j])
		}
		w[j] = shrink(t, l1, xx+l2, m.Positive)
		vp.Near(m.Coef.At(j, 0), w[j], 1e-6, "minimised over this coefficient")
		b -= mx[j] * w[j]
	}
	vp.Near(m.Intercept.At(0, 0), b, 1e-6, "intercept")
}

// HOptimal: complete fits of larger data satisfy the optimality conditions, with one or more outputs.
func HOptimal() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	n, p := 13, 5
	X := h.Fixed(n, p, 1)
	if vp.Choose("constant", 2) == 1 {
		for i := 0; i < n; i++ {
			X.Set(i, 2, 0)
		}
	}
	no := []int{1, 2, 4}[vp.Choose("outputs", 3)]
	Y := h.Fixed(n, no, 5)
	m := net(vp.Choose("penalty", 4))
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	if vp.Choose("selection", 2) == 1 {
		m.Selection = "random"
	}
	m.Tol, m.MaxIter = 1e-12, 1000
	if m.L1Ratio == 0 {
		m.MaxIter = 100
	}
	m.Fit(X, Y)
	if m.WarmStart = vp.Choose("warm", 2) == 1; m.WarmStart {
		m.Fit(X, Y)
	}
	l1, l2 := m.Alpha*m.L1Ratio*float64(n), m.Alpha*(1-m.L1Ratio)*float64(n)
	for j := 0; j < p; j++ {
		g := make([]float64, no)
		gn, wn := 0., 0.
		for o := 0; o < no; o++ {
			mean := 0.
			for i := 0; i < n && m.FitIntercept; i++ {
				mean += X.At(i, j) / float64(n)
			}
			for i := 0; i < n; i++ {
				r := Y.At(i, o) - m.Intercept.At(0, o)
				for k := 0; k < p; k++ {
					r -= X.At(i, k) * m.Coef.At(k, o)
				}
				g[o] += (X.At(i, j) - mean) * r
			}
			g[o] -= l2 * m.Coef.At(j, o)
			gn += g[o] * g[o]
			wn += m.Coef.At(j, o) * m.Coef.At(j, o)
		}
		gn, wn = math.Sqrt(gn), math.Sqrt(wn)
		vp.Assert(gn <= l1+1e-3, "no coefficient worth more")
		for o := 0; o < no && wn > 1e-3; o++ {
			vp.Near(g[o], l1*m.Coef.At(j, o)/wn, 1e-3, "every coefficient worth its penalty")
		}
	}
	if m.FitIntercept {
		for o := 0; o < no; o++ {
			s := 0.
			for i := 0; i < n; i++ {
				s += Y.At(i, o) - m.Intercept.At(0, o)
				for k := 0; k < p; k++ {
					s -= X.At(i, k) * m.Coef.At(k, o)
				}
			}
			vp.Near(s, 0, 1e-6, "residuals sum to 0")
		}
	}
}
