// Package p10: feature generation and row-wise transformers.
package p10

import (
	"math"

	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// monomials lists the exponent vectors of c variables and total degree d in lexicographic order of their factors.
func monomials(c, d int) (out [][]int) {
	var rec func(start, left int, e []int)
	rec = func(start, left int, e []int) {
		if left == 0 {
			out = append(out, append([]int(nil), e...))
			return
		}
		for j := start; j < c; j++ {
			e[j]++
			rec(j, left-1, e)
			e[j]--
		}
	}
	rec(0, d, make([]int, c))
	return
}

// HPolynomial: all products of features up to the degree, in graded order; the inverse picks the features.
func HPolynomial() {
	c := 1 + vp.Choose("c", 3)
	degree := vp.Choose("degree", 4)
	if !vp.Thorough() && c == 3 && degree == 3 {
		degree = 2
	}
	X := h.Dense("X", 2, c)
	if degree == 3 && vp.Choose("wide", 2) == 1 {
		c, degree = 4, 4
		X = h.Wide("Xw", 2, c, 1, -3, 3)
	}
	X = h.MaybeView("X", X)
	Y := mat.NewDense(2, 1, []float64{3, 4})
	keep := h.Copy(X)
	m := pp.NewPolynomialFeatures(degree)
	vp.Assert(m.IncludeBias && !m.InteractionOnly, "defaults")
	m.IncludeBias = vp.Choose("bias", 2) == 1
	m.InteractionOnly = vp.Choose("interaction", 2) == 1
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(1, 4, nil), nil)
	}
	m.Fit(X, Y)
	if degree == 0 && !m.IncludeBias {
		return
	}
	out, Yt := m.Transform(X, Y)
	k := 0
	_, oc := out.Dims()
	for d := 0; d <= degree; d++ {
		if d == 0 && !m.IncludeBias {
			continue
		}
		for _, e := range monomials(c, d) {
			if m.InteractionOnly {
				skip := false
				for _, p := range e {
					skip = skip || p > 1
				}
				if skip {
					continue
				}
			}
			vp.Assert(k < oc, "no output column is missing")
			for i := 0; i < 2; i++ {
				v := 1.
				for j, p := range e {
					for q := 0; q < p; q++ {
						v *= X.At(i, j)
					}
				}
				vp.Eq(out.At(i, k), v, "monomial")
			}
			k++
		}
	}
	vp.Assert(k == oc, "no further output columns")
	vp.Eq(Yt.At(1, 0), 4, "targets pass through")
	h.EqMat(X, keep, "the data is left alone")
	if degree > 0 {
		Z, _ := h.View(out)
		back, Yb := m.InverseTransform(Z, Y)
		h.EqMat(back, X, "the inverse restores the features")
		vp.Assert(Yb != nil, "the inverse keeps the targets")
		vp.Eq(Yb.At(1, 0), 4, "the inverse keeps the target values")
		vp.Reach("inverse")
	}
}

// HBinarizer: one above the threshold, zero otherwise.
func HBinarizer() {
	n, c := 2, 2
	X := h.Dense("X", n, c)
	if vp.Choose("wide", 2) == 1 {
		n, c = 7, 5
		X = h.Wide("Xw", n, c, 1, -9, 9)
	}
	X = h.MaybeView("X", X)
	keep := h.Copy(X)
	m := pp.NewBinarizer()
	m.Threshold = vp.Float("threshold")
	Y := mat.NewDense(2, 1, []float64{3, 4})
	out, Yt := m.FitTransform(X, Y)
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			vp.Eq(out.At(i, j), vp.B2F(X.At(i, j) > m.Threshold), "binarized value")
		}
	}
	h.EqMat(X, keep, "the data is left alone")
	vp.Eq(Yt.At(1, 0), 4, "targets pass through")
}

// HNormalizer: rows (or columns) are divided by their norm; the inverse restores them.
func HNormalizer() {
	n, c := 2, 3
	var X *mat.Dense
	switch vp.Choose("shape", 3) {
	case 1:
		n, c = 3, 2
		X = h.DenseIn("X", n, c, -20, 20)
	case 2:
		n, c = 5, 7
		X = h.Wide("Xw", n, c, 1, -20, 20)
	default:
		X = h.DenseIn("X", n, c, -20, 20)
	}
	X = h.MaybeView("X", X)
	if vp.Choose("zero", 2) == 1 {
		for j := 0; j < c; j++ {
			X.Set(0, j, 0)
		}
		for i := 0; i < n; i++ {
			X.Set(i, 0, 0)
		}
	}
	keep := h.Copy(X)
	m := pp.NewNormalizer()
	vp.Assert(m.Norm == "l2" && m.Axis == 1, "defaults")
	m.Norm = []string{"l2", "l1", "max"}[vp.Choose("norm", 3)]
	m.Axis = vp.Choose("axis", 2)
	Y := mat.NewDense(2, 1, []float64{3, 4})
	if vp.Choose("refit", 2) == 1 {
		m.FitTransform(mat.NewDense(4, 5, nil), nil)
	}
	out, Yt := m.FitTransform(X, Y)
	norm := func(v []float64) float64 {
		s, t, mx := 0., 0., 0.
		for _, x := range v {
			s += h.Abs(x)
			t += x * x
			mx = h.Max(mx, h.Abs(x))
		}
		switch m.Norm {
		case "l1":
			return s
		case "max":
			return mx
		}
		return math.Sqrt(t)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			var v []float64
			if m.Axis == 1 {
				for l := 0; l < c; l++ {
					v = append(v, X.At(i, l))
				}
			} else {
				for l := 0; l < n; l++ {
					v = append(v, X.At(l, j))
				}
			}
			vp.Eq(out.At(i, j)*norm(v), X.At(i, j), "normalized value")
			vp.Assert(vp.Implies(X.At(i, j) == 0, out.At(i, j) == 0), "zeros stay zeros")
		}
	}
	h.EqMat(X, keep, "the data is left alone")
	vp.Eq(Yt.At(1, 0), 4, "targets pass through")
	Z, parent := h.View(out)
	back, Yb := m.InverseTransform(Z, Y)
	h.EqMat(back, keep, "the inverse restores the data")
	vp.Assert(Yb != nil, "the inverse keeps the targets")
	h.PadIntact(parent, "the inverse writes nothing else")
	h.EqMat(Z, out, "the inverse leaves its input alone")
}

// HDummy: a column of ones is put in front.
func HDummy() {
	n, f := 2, 2
	if vp.Choose("wide", 2) == 1 {
		n, f = 7, 5
	}
	X := h.MaybeView("X", h.Dense("X", n, f))
	keep := h.Copy(X)
	pp.AddDummyFeature(X)
	r, c := X.Dims()
	vp.Assert(r == n && c == f+1, "one more column")
	for i := 0; i < n; i++ {
		vp.Eq(X.At(i, 0), 1, "ones")
		for j := 0; j < f; j++ {
			vp.Eq(X.At(i, j+1), keep.At(i, j), "features follow")
		}
	}
}

// perm draws a permutation of n elements.
func perm(n int) []int {
	left := make([]int, n)
	for i := range left {
		left[i] = i
	}
	var out []int
	for len(left) > 0 {
		k := vp.Choose("perm"+h.Itoa(len(out)), len(left))
		out = append(out, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

// HShuffler: rows of X and Y move together, none is lost, the inverse restores the order.
func HShuffler() {
	n := 3
	if vp.Choose("n", 2) == 1 {
		n = 4
	}
	X := h.MaybeView("X", h.Dense("X", n, 2))
	Y := h.MaybeView("Y", h.Dense("Y", n, 1))
	kx, ky := h.Copy(X), h.Copy(Y)
	m := pp.NewShuffler()
	if vp.Choose("source", 2) == 1 {
		m.RandomState = base.NewSource(uint64(1 + vp.Choose("seed", 3)))
		m.Fit(X, Y)
		vp.Assert(len(m.Perm) == n, "one position per row")
	} else {
		m.Perm = perm(n)
	}
	Xt, Yt := m.Transform(X, Y)
	// an injective map from rows to rows that explains the result: rows are tagged by distinct values
	for i := 0; i < n; i++ {
		found := false
		for k := 0; k < n; k++ {
			found = vp.Or(found, vp.And(Xt.At(k, 0) == kx.At(i, 0), Xt.At(k, 1) == kx.At(i, 1), Yt.At(k, 0) == ky.At(i, 0)))
		}
		vp.Assert(found, "every sample is still there with its target")
	}
	h.EqMat(X, kx, "the data is left alone")
	h.EqMat(Y, ky, "the targets are left alone")
	zx, px := h.View(Xt)
	zy, py := h.View(Yt)
	bx, by := m.InverseTransform(zx, zy)
	h.EqMat(bx, kx, "the inverse restores the data")
	h.EqMat(by, ky, "the inverse restores the targets")
	h.EqMat(zx, Xt, "the inverse leaves its input alone")
	h.PadIntact(px, "the inverse writes nothing else")
	h.PadIntact(py, "the inverse writes nothing else")
}

// HShuffleDistinct: with distinct tags no row is duplicated and all orders can be produced.
func HShuffleDistinct() {
	n := 3
	if vp.Choose("wide", 2) == 1 {
		n = 17
	}
	X, Y := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	want := 0.
	for i := 0; i < n; i++ {
		X.Set(i, 0, 10*float64(i+1))
		Y.Set(i, 0, float64(i+1))
		want += float64((i + 1) * (i + 1))
	}
	m := pp.NewShuffler()
	if n > 3 {
		m.RandomState = base.NewSource(uint64(1 + vp.Choose("seed", 3)))
		m.Fit(X, Y)
	} else {
		m.Perm = perm(n)
	}
	Xt, Yt := m.Transform(X, Y)
	s := 0.
	for i := 0; i < n; i++ {
		vp.Eq(Xt.At(i, 0), 10*Yt.At(i, 0), "rows keep their targets")
		s += Yt.At(i, 0) * Yt.At(i, 0)
	}
	vp.Eq(s, want, "no row is lost")
	X2, Y2 := m.InverseTransform(Xt, Yt)
	h.EqMat(X2, X, "the inverse restores the data")
	h.EqMat(Y2, Y, "the inverse restores the targets")
}

// HFunction: the given functions are applied to X and Y.
func HFunction() {
	X, Y := h.Dense("X", 2, 2), h.Dense("Y", 2, 1)
	kx := h.Copy(X)
	a := vp.FloatIn("a", 1, 5)
	f := func(X, Y *mat.Dense) (X1, Y1 *mat.Dense) {
		X1, Y1 = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
		X1.Scale(a, X1)
		Y1.Scale(2*a, Y1)
		return
	}
	g := func(X, Y *mat.Dense) (X1, Y1 *mat.Dense) {
		X1, Y1 = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
		X1.Scale(1/a, X1)
		Y1.Scale(.5/a, Y1)
		return
	}
	m := pp.NewFunctionTransformer(f, g)
	X1, Y1 := m.FitTransform(X, Y)
	for i := 0; i < 2; i++ {
		vp.Eq(X1.At(i, 1), a*X.At(i, 1), "function of X")
		vp.Eq(Y1.At(i, 0), 2*a*Y.At(i, 0), "function of Y")
	}
	X2, Y2 := m.InverseTransform(X1, Y1)
	h.EqMat(X2, kx, "inverse function of X")
	h.EqMat(Y2, Y, "inverse function of Y")
}
