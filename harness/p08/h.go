// Package p08: incremental fitting and column statistics.
package p08

import (
	"math"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// parts cuts X into consecutive batches.
func parts(X *mat.Dense) []*mat.Dense {
	n, c := X.Dims()
	if n > 4 { // many batches
		var ps []*mat.Dense
		size := 1 + vp.Choose("size", 3)
		for at, to := 0, 0; at < n; at = to {
			to = at + size
			if to > n {
				to = n
			}
			ps = append(ps, X.Slice(at, to, 0, c).(*mat.Dense))
			if vp.Choose("grow", 2) == 1 {
				size = 4
			}
		}
		return ps
	}
	cut := 1 + vp.Choose("cut", n-1)
	a, b := X.Slice(0, cut, 0, c).(*mat.Dense), X.Slice(cut, n, 0, c).(*mat.Dense)
	if n-cut > 1 && vp.Choose("three", 2) == 1 {
		return []*mat.Dense{a, X.Slice(cut, cut+1, 0, c).(*mat.Dense), X.Slice(cut+1, n, 0, c).(*mat.Dense)}
	}
	return []*mat.Dense{a, b}
}

// data is a small arbitrary matrix or a larger one with an arbitrary cell.
func data(n, c int) *mat.Dense {
	switch vp.Choose("wide", 3) {
	case 2:
		return h.Wide("Xw", 3, 13, 6, -40, 40)
	case 1:
		return h.Wide("Xw", 11, 4, 6, -40, 40)
	}
	return h.DenseIn("X", n, c, -40, 40)
}

func stats(X *mat.Dense) (mean, va []float64) {
	n, c := X.Dims()
	mean, va = make([]float64, c), make([]float64, c)
	for j := 0; j < c; j++ {
		for i := 0; i < n; i++ {
			mean[j] += X.At(i, j)
		}
		mean[j] /= float64(n)
		for i := 0; i < n; i++ {
			d := X.At(i, j) - mean[j]
			va[j] += d * d
		}
		va[j] /= float64(n)
	}
	return
}

// HMeanVar: incremental mean and variance equal those of all the data seen.
func HMeanVar() {
	X := data(4, 1+vp.Choose("c", 2))
	n, c := X.Dims()
	m, v := mat.NewDense(1, c, nil), mat.NewDense(1, c, nil)
	k := 0
	kx := h.Copy(X)
	for _, p := range parts(X) {
		km, kv := h.Copy(m), h.Copy(v)
		m2, v2, k2 := pp.IncrementalMeanAndVar(p, m, v, k)
		h.EqMat(m, km, "the mean given is left alone")
		h.EqMat(v, kv, "the variance given is left alone")
		m, v, k = m2, v2, k2
	}
	h.EqMat(X, kx, "the data are left alone")
	vp.Assert(k == n, "sample count")
	wm, wv := stats(X)
	for j := 0; j < c; j++ {
		vp.Eq(m.At(0, j), wm[j], "incremental mean")
		vp.Eq(v.At(0, j), wv[j], "incremental variance")
	}
}

// HStandard: feeding batches gives the same standardisation as fitting once on everything.
func HStandard() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := data(4, 1+vp.Choose("c", 2))
	n, c := X.Dims()
	inc, all := pp.NewStandardScaler(), pp.NewStandardScaler()
	for _, p := range parts(X) {
		inc.PartialFit(p, nil)
	}
	all.Fit(X, nil)
	vp.Assert(inc.NSamplesSeen == n, "samples seen")
	h.EqMat(inc.Mean, all.Mean, "standard scaler mean")
	h.EqMat(inc.Var, all.Var, "standard scaler variance")
	inc.Reset()
	inc.PartialFit(X.Slice(0, 2, 0, c).(*mat.Dense), nil)
	all.Fit(X.Slice(0, 2, 0, c), nil)
	h.EqMat(inc.Mean, all.Mean, "standard scaler mean after reset")
	h.EqMat(inc.Var, all.Var, "standard scaler variance after reset")
}

// HMinMax: the same for the min-max scaler.
func HMinMax() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := data(3, 2)
	n, c := X.Dims()
	inc, all := pp.NewMinMaxScaler([]float64{0, 1}), pp.NewMinMaxScaler([]float64{0, 1})
	for _, p := range parts(X) {
		inc.PartialFit(p, nil)
	}
	all.Fit(X, nil)
	vp.Assert(inc.NSamplesSeen == n && all.NSamplesSeen == n, "samples seen")
	h.EqMat(inc.DataMin, all.DataMin, "minimum seen")
	h.EqMat(inc.DataMax, all.DataMax, "maximum seen")
	h.EqMat(inc.Scale, all.Scale, "min-max scale")
	h.EqMat(inc.Min, all.Min, "min-max offset")
	// fitting again starts over
	part := X.Slice(1, 3, 0, c)
	inc.Fit(part, nil)
	fresh := pp.NewMinMaxScaler([]float64{0, 1})
	fresh.Fit(part, nil)
	vp.Assert(inc.NSamplesSeen == 2, "samples seen after refitting")
	h.EqMat(inc.DataMin, fresh.DataMin, "minimum seen after refitting")
	h.EqMat(inc.DataMax, fresh.DataMax, "maximum seen after refitting")
	h.EqMat(inc.Scale, fresh.Scale, "min-max scale after refitting")
}

// HMaxAbs: the same for the max-abs scaler.
func HMaxAbs() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := data(3, 2)
	n, c := X.Dims()
	inc, all := pp.NewMaxAbsScaler(), pp.NewMaxAbsScaler()
	for i, p := range parts(X) {
		if i == 0 && vp.Choose("first", 2) == 0 {
			inc.Fit(p, nil)
			continue
		}
		inc.PartialFit(p, nil)
	}
	all.Fit(X, nil)
	vp.Assert(inc.NSamplesSeen == n && all.NSamplesSeen == n, "samples seen")
	for j := 0; j < c; j++ {
		vp.Eq(inc.Scale[j], all.Scale[j], "max-abs scale")
	}
	all.Fit(X, nil)
	vp.Assert(all.NSamplesSeen == n, "samples seen after refitting")
}

// HLabels: the same for the label encoder's classes and support.
func HLabels() {
	n, c := 4, 1
	Y := h.Labels("Y", n, c, 0, 2)
	if Y.At(0, 0) == 1 && Y.At(1, 0) == 2 && Y.At(2, 0) == 0 {
		n = 13
		Y = h.Fixed(n, 1, int(Y.At(3, 0)))
	}
	inc, all := pp.NewLabelEncoder(), pp.NewLabelEncoder()
	for _, p := range parts(Y) {
		inc.PartialFit(nil, p)
	}
	all.Fit(nil, Y)
	vp.Assert(len(inc.Classes[0]) == len(all.Classes[0]), "as many classes")
	for k := range all.Classes[0] {
		vp.Eq(inc.Classes[0][k], all.Classes[0][k], "classes")
		vp.Eq(inc.Support[0][k], all.Support[0][k], "support")
		cnt := 0.
		for i := 0; i < n; i++ {
			if Y.At(i, 0) == all.Classes[0][k] {
				cnt++
			}
		}
		vp.Eq(all.Support[0][k], cnt, "support counts the samples of the class")
	}
}

// HColumns: column statistics.
func HColumns() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X := h.MaybeView("X", data(3, 1+vp.Choose("c", 3)))
	_, c := X.Dims()
	keep := h.Copy(X)
	var M mat.Matrix = X
	if vp.Choose("generic", 2) == 1 {
		M = base.MatTranspose{Matrix: base.MatTranspose{Matrix: X}}
	}
	wm, wv := stats(X)
	mean := pp.Mean(M)
	va := pp.NumpyLike{}.Var(M)
	std := pp.NumpyLike{}.Std(M)
	dm := pp.DenseMean(nil, M)
	reuse := h.Dense("garbage", 1, c)
	dm2 := pp.DenseMean(reuse, M)
	for j := 0; j < c; j++ {
		vp.Eq(mean.At(0, j), wm[j], "column mean")
		vp.Eq(va.At(0, j), wv[j], "column variance")
		vp.Eq(std.At(0, j), math.Sqrt(wv[j]), "column standard deviation")
		vp.Eq(dm.At(0, j), wm[j], "dense column mean")
		vp.Eq(dm2.At(0, j), wm[j], "dense column mean in a reused matrix")
	}
	h.EqMat(X, keep, "statistics leave the data alone")
}

// HMeanStd: mean and population standard deviation of columns.
func HMeanStd() {
	X := h.MaybeView("X", data(3, 1+vp.Choose("c", 2)))
	_, c := X.Dims()
	wm, wv := stats(X)
	m, s := pp.MeanStdDev(X)
	for j := 0; j < c; j++ {
		vp.Eq(m.At(0, j), wm[j], "mean")
		vp.Eq(s.At(0, j)*s.At(0, j), wv[j], "squared standard deviation")
		vp.Assert(s.At(0, j) >= 0, "standard deviation is not negative")
	}
}
