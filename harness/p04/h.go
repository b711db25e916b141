// Package p04: regression metrics.
package p04

import (
	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

type in struct {
	y, p  *mat.Dense
	w     *mat.Dense
	ws    []float64
	n, o  int
	multi string
	ky    *mat.Dense
	kp    *mat.Dense
}

var multis = []string{"raw_values", "uniform_average", "", "variance_weighted"}

func inputs(nm int) *in {
	x := &in{}
	x.n = 1 + vp.Choose("n", 4)
	wide := x.n > 3
	if wide {
		x.n, x.o = 21, 3
		x.y = h.MaybeView("y", h.Wide("y", x.n, x.o, 1, -50, 50))
		x.p = h.MaybeView("p", h.Wide("p", x.n, x.o, 2, -50, 50))
	} else {
		x.o = 1 + vp.Choose("outputs", 2)
		x.y = h.MaybeView("y", h.DenseIn("y", x.n, x.o, -50, 50))
		x.p = h.MaybeView("p", h.DenseIn("p", x.n, x.o, -50, 50))
	}
	x.ky, x.kp = h.Copy(x.y), h.Copy(x.p)
	x.ws = make([]float64, x.n)
	for i := range x.ws {
		x.ws[i] = 1
	}
	if vp.Choose("weighted", 2) == 1 {
		if wide {
			x.w = h.Fixed(x.n, 1, 3)
			for i := range x.ws {
				x.w.Set(i, 0, x.w.At(i, 0)+5.5)
			}
		} else {
			x.w = h.DenseIn("w", x.n, 1, .25, 4)
		}
		if wide || x.n == 2 {
			x.w = h.MaybeView("w", x.w)
		}
		for i := range x.ws {
			x.ws[i] = x.w.At(i, 0)
		}
	}
	x.multi = multis[vp.Choose("multioutput", nm)]
	return x
}

func (x *in) check(got *mat.Dense, per []float64, msg string) {
	r, c := got.Dims()
	if x.multi == "raw_values" {
		vp.Assert(r == 1 && c == x.o, msg+": one value per output")
		for j := range per {
			vp.Eq(got.At(0, j), per[j], msg)
		}
	} else {
		vp.Assert(r == 1 && c == 1, msg+": a single average")
		s := 0.
		for _, v := range per {
			s += v
		}
		vp.Eq(got.At(0, 0), s/float64(x.o), msg)
	}
	h.EqMat(x.y, x.ky, msg+": the targets are left alone")
	h.EqMat(x.p, x.kp, msg+": the predictions are left alone")
}

// HMSE: mean squared error is the weighted mean of the squared residuals.
func HMSE() {
	x := inputs(3)
	per := make([]float64, x.o)
	for j := range per {
		num, den := 0., 0.
		for i := 0; i < x.n; i++ {
			d := x.y.At(i, j) - x.p.At(i, j)
			num += x.ws[i] * d * d
			den += x.ws[i]
		}
		per[j] = num / den
	}
	x.check(metrics.MeanSquaredError(x.y, x.p, x.w, x.multi), per, "mean squared error")
}

// HMAE: mean absolute error is the weighted mean of the absolute residuals.
func HMAE() {
	x := inputs(3)
	per := make([]float64, x.o)
	for j := range per {
		num, den := 0., 0.
		for i := 0; i < x.n; i++ {
			num += x.ws[i] * h.Abs(x.y.At(i, j)-x.p.At(i, j))
			den += x.ws[i]
		}
		per[j] = num / den
	}
	x.check(metrics.MeanAbsoluteError(x.y, x.p, x.w, x.multi), per, "mean absolute error")
}

// HR2: the coefficient of determination is one minus residual over total sum of squares.
func HR2() {
	x := inputs(4)
	vp.Assume(x.n > 1)
	per := make([]float64, x.o)
	dens := make([]float64, x.o)
	tot := 0.
	for j := range per {
		wy, w := 0., 0.
		for i := 0; i < x.n; i++ {
			wy += x.ws[i] * x.y.At(i, j)
			w += x.ws[i]
		}
		num := 0.
		for i := 0; i < x.n; i++ {
			d := x.y.At(i, j) - x.p.At(i, j)
			num += x.ws[i] * d * d
			t := x.y.At(i, j) - wy/w
			dens[j] += x.ws[i] * t * t
		}
		tot += dens[j]
		vp.Assume(dens[j] > .01)
		per[j] = 1 - num/dens[j]
	}
	got := metrics.R2Score(x.y, x.p, x.w, x.multi)
	if x.multi == "variance_weighted" {
		s := 0.
		for j := range per {
			s += per[j] * dens[j]
		}
		vp.Eq(got.At(0, 0), s/tot, "variance weighted R2")
		return
	}
	x.check(got, per, "R2")
}

// HBounds: losses are never negative, zero exactly for perfect predictions, and R2 never exceeds one.
func HBounds() {
	n := 2
	o := 1 + vp.Choose("outputs", 2)
	y := h.DenseIn("y", n, o, -50, 50)
	p := h.DenseIn("p", n, o, -50, 50)
	mse := metrics.MeanSquaredError(y, p, nil, "").At(0, 0)
	mae := metrics.MeanAbsoluteError(y, p, nil, "").At(0, 0)
	vp.Assert(mse >= 0, "mean squared error is not negative")
	vp.Assert(mae >= 0, "mean absolute error is not negative")
	same := true
	for i := 0; i < n; i++ {
		for j := 0; j < o; j++ {
			same = vp.And(same, y.At(i, j) == p.At(i, j))
		}
	}
	vp.Assert(vp.Iff(mse == 0, same), "mean squared error is zero exactly for perfect predictions")
	vp.Assert(vp.Iff(mae == 0, same), "mean absolute error is zero exactly for perfect predictions")
	vp.Eq(metrics.R2Score(y, y, nil, "").At(0, 0), 1, "a perfect prediction scores one")
	vp.Assert(metrics.R2Score(y, p, nil, "").At(0, 0) <= 1, "R2 never exceeds one")
}
