// Package p07: scalers.
package p07

import (
	"math"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

type fitter interface {
	base.Transformer
	InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
}

// data draws a matrix, optionally with a constant first column, and optionally as a strided view.
func data(name string, n, c int) *mat.Dense {
	d := h.DenseIn(name, n, c, -40, 40)
	if n > 3 {
		d = h.Wide(name+"w", n, c, 4, -40, 40)
	}
	if n <= 3 && vp.Choose(name+".const", 2) == 1 {
		for i := 1; i < n; i++ {
			d.Set(i, 0, d.At(0, 0))
		}
	}
	return d
}

// fitted fits s on X, maybe after having been fitted on other data of another shape, maybe through a clone.
func fitted(s fitter, X *mat.Dense, msg string) fitter {
	if X.RawMatrix().Rows > 3 {
		s.Fit(X, nil)
		return s
	}
	switch vp.Choose("history", 3) {
	case 1:
		s.Fit(mat.NewDense(4, 3, []float64{1, 70, -3, 4, 5, 6, -90, 8, 9, 2, 3, 1}), nil)
		s.Fit(X, nil)
	case 2:
		// a clone of a fitted scaler can be refitted without disturbing the original
		s.Fit(X, nil)
		probe := mat.NewDense(1, X.RawMatrix().Cols, []float64{3, -2, 1, 4, 5}[:X.RawMatrix().Cols])
		p0, _ := s.Transform(probe, nil)
		c := s.TransformerClone().(fitter)
		c.Fit(mat.NewDense(3, X.RawMatrix().Cols, []float64{100, -50, 3, 7, 9, 11, 1, 3, 2, 9, 8, 7, 30, 20, 10}[:3*X.RawMatrix().Cols]), nil)
		p1, _ := s.Transform(probe, nil)
		h.EqMat(p1, p0, msg+": refitting a clone leaves the original alone")
	default:
		s.Fit(X, nil)
	}
	return s
}

// wide chooses between the small shape given and a larger one.
func wide(n, c int) (int, int) {
	if vp.Choose("wide", 2) == 1 {
		return 11, 5
	}
	return n, c
}

// common checks shared by every scaler.
func common(s fitter, X, Y *mat.Dense, want func(x float64, j int) float64, msg string) {
	n, c := X.Dims()
	keep := h.Copy(X)
	Xt, Yt := s.Transform(X, Y)
	r, cc := Xt.Dims()
	vp.Assert(r == n && cc == c, msg+": shape is kept")
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			vp.Eq(Xt.At(i, j), want(X.At(i, j), j), msg+": transformed value")
		}
	}
	h.EqMat(X, keep, msg+": the input is left alone")
	vp.Eq(Yt.At(0, 0), Y.At(0, 0), msg+": targets pass through")
	// inverse of arbitrary values, strided
	Z, parent := h.View(Xt)
	Xb, _ := s.InverseTransform(Z, Y)
	h.EqMat(Xb, keep, msg+": inverse restores the input")
	h.EqMat(Z, Xt, msg+": the inverse leaves its input alone")
	h.PadIntact(parent, msg+": the inverse writes nothing else")
	// unseen row
	q := h.DenseIn("q", 1, c, -100, 100)
	if n > 3 {
		q = h.Wide("qw", 7, c, 2, -100, 100)
	}
	nq, _ := q.Dims()
	Qt, _ := s.Transform(q, nil)
	for i := 0; i < nq; i++ {
		for j := 0; j < c; j++ {
			vp.Eq(Qt.At(i, j), want(q.At(i, j), j), msg+": transformed unseen value")
		}
	}
	Qb, _ := s.InverseTransform(Qt, nil)
	h.EqMat(Qb, q, msg+": inverse restores unseen values")
}

func target() *mat.Dense { return mat.NewDense(1, 1, []float64{5}) }

// HMinMax: minimum and maximum of every feature map to the ends of the range.
func HMinMax() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c := wide(3, 2)
	X := h.MaybeView("X", data("X", n, c))
	lo := vp.FloatIn("lo", -5, 5)
	hi := lo + vp.FloatIn("width", .5, 5)
	s := fitted(pp.NewMinMaxScaler([]float64{lo, hi}), X, "minmax")
	mn, mx := make([]float64, c), make([]float64, c)
	for j := 0; j < c; j++ {
		mn[j], mx[j] = X.At(0, j), X.At(0, j)
		for i := 1; i < n; i++ {
			mn[j], mx[j] = h.Min(mn[j], X.At(i, j)), h.Max(mx[j], X.At(i, j))
		}
		if mx[j] > mn[j] {
			vp.Reach("non constant")
		}
	}
	common(s, X, target(), func(x float64, j int) float64 {
		if mx[j] == mn[j] {
			return lo + (x-mn[j])*(hi-lo)
		}
		return lo + (x-mn[j])/(mx[j]-mn[j])*(hi-lo)
	}, "minmax")
}

// HStandard: centred to zero mean and scaled to unit variance, as asked.
func HStandard() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c := 3, 1
	if vp.Choose("c", 2) == 1 {
		n, c = wide(2, 2)
	}
	X := h.MaybeView("X", data("X", n, c))
	sc := pp.NewStandardScaler()
	sc.WithMean = vp.Choose("mean", 2) == 1
	sc.WithStd = vp.Choose("std", 2) == 1
	s := fitted(sc, X, "standard")
	mean, scale := make([]float64, c), make([]float64, c)
	for j := 0; j < c; j++ {
		for i := 0; i < n; i++ {
			mean[j] += X.At(i, j) / float64(n)
		}
		v := 0.
		for i := 0; i < n; i++ {
			d := X.At(i, j) - mean[j]
			v += d * d / float64(n)
		}
		scale[j] = 1
		if sc.WithStd && v > 0 {
			scale[j] = math.Sqrt(v)
		}
		if !sc.WithMean {
			mean[j] = 0
		}
	}
	common(s, X, target(), func(x float64, j int) float64 { return (x - mean[j]) / scale[j] }, "standard")
}

// HScale: the one-call form standardises.
func HScale() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := h.MaybeView("X", h.DenseIn("X", 3, 1, -40, 40))
	keep := h.Copy(X)
	out := pp.Scale(X)
	m, v := 0., 0.
	for i := 0; i < 3; i++ {
		m += out.At(i, 0)
	}
	for i := 0; i < 3; i++ {
		v += out.At(i, 0) * out.At(i, 0)
	}
	vp.Eq(m, 0, "scaled data has zero mean")
	if vp.Or(X.At(0, 0) != X.At(1, 0), X.At(0, 0) != X.At(2, 0)) {
		vp.Eq(v, 3, "scaled data has unit variance")
	}
	h.EqMat(X, keep, "scaling leaves its input alone")
}

// HMaxAbs: every feature is divided by its largest absolute value.
func HMaxAbs() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c := wide(3, 2)
	X := h.MaybeView("X", data("X", n, c))
	s := fitted(pp.NewMaxAbsScaler(), X, "maxabs")
	m := make([]float64, c)
	for j := 0; j < c; j++ {
		for i := 0; i < n; i++ {
			m[j] = h.Max(m[j], h.Abs(X.At(i, j)))
		}
	}
	common(s, X, target(), func(x float64, j int) float64 {
		return x / vp.IfF(m[j] == 0, 1, m[j])
	}, "maxabs")
}

// order statistics without forking: the k-th smallest (1-based) of three values
func kth(a []float64, k int) float64 {
	if len(a) > 3 {
		b := append([]float64(nil), a...)
		for i := range b {
			for j := i; j > 0 && b[j] < b[j-1]; j-- {
				b[j], b[j-1] = b[j-1], b[j]
			}
		}
		return b[k-1]
	}
	lo, hi := h.Min(h.Min(a[0], a[1]), a[2]), h.Max(h.Max(a[0], a[1]), a[2])
	switch k {
	case 1:
		return lo
	case 3:
		return hi
	}
	return a[0] + a[1] + a[2] - lo - hi
}

// HRobust: centred on the median and divided by the inter-quantile range.
func HRobust() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c := wide(3, 2)
	X := h.MaybeView("X", data("X", n, c))
	center, scale := vp.Choose("center", 2) == 1, vp.Choose("scale", 2) == 1
	var s fitter
	q1, q2, q3 := 1, 2, 3 // ranks of the quartiles among three samples
	if n == 11 {
		q1, q2, q3 = 3, 6, 9
	}
	switch {
	case center && scale && vp.Choose("default", 2) == 1:
		s = pp.NewDefaultRobustScaler()
	case vp.Choose("quantiles", 2) == 1:
		s = pp.NewRobustScaler(center, scale, &pp.QuantilePair{Left: .5, Right: .9})
		q1 = q2
		if n == 11 {
			q3 = 10
		}
	default:
		s = pp.NewRobustScaler(center, scale, nil)
	}
	s = fitted(s, X, "robust")
	med, div := make([]float64, c), make([]float64, c)
	for j := 0; j < c; j++ {
		col := mat.Col(nil, j, X)
		div[j] = 1
		if center {
			med[j] = kth(col, q2)
		}
		if scale {
			d := kth(col, q3) - kth(col, q1)
			div[j] = vp.IfF(d == 0, 1, d)
		}
	}
	common(s, X, target(), func(x float64, j int) float64 { return (x - med[j]) / div[j] }, "robust")
}
