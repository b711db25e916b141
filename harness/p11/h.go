// Package p11: imputation, binning, quantiles, kernel centring, power transforms and principal components.
package p11

import (
	"math"

	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

func target() *mat.Dense { return mat.NewDense(1, 1, []float64{5}) }

// sort3 sorts three values without forking.
func sort3(a, b, c float64) (x, y, z float64) {
	x = h.Min(h.Min(a, b), c)
	z = h.Max(h.Max(a, b), c)
	return x, a + b + c - x - z, z
}

// sorted sorts a copy.
func sorted(a []float64) []float64 {
	b := append([]float64(nil), a...)
	for i := range b {
		for j := i; j > 0 && b[j] < b[j-1]; j-- {
			b[j], b[j-1] = b[j-1], b[j]
		}
	}
	return b
}

// HImputerWide: the same with many rows and columns.
func HImputerWide() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	n, c := 12, 4
	X := h.Wide("X", n, c, 2, -9, 9)
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			if (i+2*j)%5 == 1 && i > 0 && i < n-1 && i != n/2 {
				X.Set(i, j, math.NaN())
			}
		}
	}
	m := pp.NewImputer()
	m.Strategy = []string{"mean", "median", "most_frequent"}[vp.Choose("strategy", 3)]
	out, _ := m.FitTransform(X, nil)
	for j := 0; j < c; j++ {
		var vals []float64
		for i := 0; i < n; i++ {
			if x := X.At(i, j); x == x {
				vals = append(vals, x)
			}
		}
		srt := sorted(vals)
		for i := 0; i < n; i++ {
			got := out.At(i, j)
			if x := X.At(i, j); x == x {
				vp.Eq(got, x, "present values are kept")
				continue
			}
			vp.Reach("missing")
			switch m.Strategy {
			case "median":
				vp.Eq(got, srt[(len(srt)+1)/2-1], "median")
			case "most_frequent":
				most, cg := 0, 0
				for _, v := range vals {
					cnt := 0
					for _, w := range vals {
						if w == v {
							cnt++
						}
					}
					if cnt > most {
						most = cnt
					}
					if v == got {
						cg++
					}
				}
				vp.Assert(cg == most, "no value is more frequent")
			default:
				s := 0.
				for _, v := range vals {
					s += v
				}
				vp.Eq(got, s/float64(len(vals)), "mean")
			}
		}
	}
}

// HImputer: missing cells get the column statistic of the fitted data, others are untouched.
func HImputer() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c := 3, 2
	X := h.MaybeView("X", h.DenseIn("X", n, c, -9, 9))
	miss := make([][]bool, n)
	for i := range miss {
		miss[i] = make([]bool, c)
	}
	// column 0 misses the rows of one mask, column 1 of another; at least one value is present
	for j := 0; j < c; j++ {
		mask := vp.Choose("mask"+h.Itoa(j), 4) // none, row 0, row 2, rows 0 and 1
		for i := 0; i < n; i++ {
			miss[i][j] = mask == 1 && i == 0 || mask == 2 && i == 2 || mask == 3 && i < 2
		}
	}
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			if miss[i][j] {
				X.Set(i, j, math.NaN())
			}
		}
	}
	m := pp.NewImputer()
	m.Strategy = []string{"", "mean", "median", "most_frequent"}[vp.Choose("strategy", 4)]
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(2, 3, []float64{1, 2, 3, 4, 5, 6}), nil)
	}
	m.Fit(X, nil)
	q := h.DenseIn("q", 2, c, -9, 9)
	q.Set(1, 0, math.NaN())
	q.Set(0, 1, math.NaN())
	check := func(in, out *mat.Dense, isMiss func(i, j int) bool) {
		r, _ := in.Dims()
		for j := 0; j < c; j++ {
			var vals []float64
			for i := 0; i < n; i++ {
				if !miss[i][j] {
					vals = append(vals, X.At(i, j))
				}
			}
			for i := 0; i < r; i++ {
				if !isMiss(i, j) {
					vp.Eq(out.At(i, j), in.At(i, j), "present values are kept")
					continue
				}
				vp.Reach("missing")
				got := out.At(i, j)
				switch m.Strategy {
				case "median":
					want := vals[0]
					if len(vals) == 2 {
						want = h.Min(vals[0], vals[1])
					} else if len(vals) == 3 {
						_, want, _ = sort3(vals[0], vals[1], vals[2])
					}
					vp.Eq(got, want, "median")
				case "most_frequent":
					in := false
					for _, v := range vals {
						cnt, cg := 0., 0.
						for _, w := range vals {
							cnt += vp.B2F(w == v)
							cg += vp.B2F(w == got)
						}
						in = vp.Or(in, got == v)
						vp.Assert(cg >= cnt, "no value is more frequent")
					}
					vp.Assert(in, "a value of the column")
				default:
					s := 0.
					for _, v := range vals {
						s += v
					}
					vp.Eq(got, s/float64(len(vals)), "mean")
				}
			}
		}
	}
	out, Y := m.Transform(X, target())
	vp.Eq(Y.At(0, 0), 5, "targets pass through")
	check(X, out, func(i, j int) bool { return miss[i][j] })
	out, _ = m.Transform(q, nil)
	check(q, out, func(i, j int) bool { return i != j })
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			if miss[i][j] {
				vp.Assert(X.At(i, j) != X.At(i, j), "the data is left alone")
			}
		}
	}
}

// HKBins: every value falls in the bin between its edges; the inverse is the centre of the bin.
func HKBins() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c, bins := 3, 1, 2
	var X *mat.Dense
	switch vp.Choose("shape", 3) {
	case 1:
		n, c = 2, 2
		X = h.MaybeView("X", h.DenseIn("X", n, c, -9, 9))
	case 2:
		n, c, bins = 9, 3, 4
		X = h.Wide("Xw", n, c, 3, -9, 9)
	default:
		X = h.MaybeView("X", h.DenseIn("X", n, c, -9, 9))
	}
	keep := h.Copy(X)
	m := pp.NewKBinsDiscretizer(bins + vp.Choose("bins", 2))
	vp.Assert(m.Encode == "onehot-dense" && m.Strategy == "quantile", "defaults")
	m.Encode = []string{"onehot-dense", "ordinal"}[vp.Choose("encode", 2)]
	m.Strategy = []string{"quantile", "uniform"}[vp.Choose("strategy", 2)]
	B := m.NBins
	m.Fit(X, nil)
	edges := make([][]float64, c)
	for j := 0; j < c; j++ {
		edges[j] = make([]float64, B+1)
		lo, hi := X.At(0, j), X.At(0, j)
		for i := 1; i < n; i++ {
			lo, hi = h.Min(lo, X.At(i, j)), h.Max(hi, X.At(i, j))
		}
		for b := 0; b <= B; b++ {
			if m.Strategy == "uniform" {
				edges[j][b] = lo + (hi-lo)*float64(b)/float64(B)
			} else {
				// smallest value with at least a fraction b/B of the samples at or below
				k := (b*n + B - 1) / B
				srt := []float64{lo, hi}
				if n == 3 {
					x, y, z := sort3(X.At(0, j), X.At(1, j), X.At(2, j))
					srt = []float64{x, y, z}
				} else if n > 3 {
					srt = sorted(mat.Col(nil, j, X))
				}
				if k < 1 {
					k = 1
				}
				edges[j][b] = srt[k-1]
			}
			vp.Eq(m.BinEdges[j][b], edges[j][b], "bin edge")
		}
	}
	q := h.Copy(X)
	if n <= 3 && vp.Choose("query", 2) == 1 {
		q = h.DenseIn("q", 1, c, -12, 12)
	}
	nq, _ := q.Dims()
	out, Yt := m.Transform(q, target())
	vp.Assert(Yt != nil, "targets pass through")
	_, oc := out.Dims()
	bin := func(i, j int) float64 {
		k := 0.
		for b := 1; b < B; b++ {
			k += vp.B2F(edges[j][b] <= q.At(i, j))
		}
		return k
	}
	for i := 0; i < nq; i++ {
		for j := 0; j < c; j++ {
			if m.Encode == "ordinal" {
				vp.Eq(out.At(i, j), bin(i, j), "bin number")
			} else {
				for b := 0; b < B; b++ {
					vp.Eq(out.At(i, j*B+b), vp.B2F(bin(i, j) == float64(b)), "bin column")
				}
			}
		}
	}
	if m.Encode == "ordinal" {
		vp.Assert(oc == c, "one column per feature")
	} else {
		vp.Assert(oc == c*B, "one column per bin")
	}
	back, _ := m.InverseTransform(out, nil)
	for i := 0; i < nq; i++ {
		for j := 0; j < c; j++ {
			want := 0.
			for b := 0; b < B; b++ {
				want += vp.IfF(bin(i, j) == float64(b), (edges[j][b]+edges[j][b+1])/2, 0)
			}
			vp.Eq(back.At(i, j), want, "bin centre")
		}
	}
	h.EqMat(X, keep, "the data is left alone")
}

// HQuantile: values map to their position on the fitted quantile grid, between 0 and 1.
func HQuantile() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, c, K := 3, 1, 2
	var X *mat.Dense
	switch vp.Choose("shape", 3) {
	case 1:
		n, c = 2, 2
		X = h.MaybeView("X", h.DenseIn("X", n, c, -9, 9))
	case 2:
		n, c, K = 9, 2, 5
		X = h.Fixed(n, c, 3)
		X.Set(8, 1, vp.FloatIn("Xw", -9, 9))
	default:
		X = h.MaybeView("X", h.DenseIn("X", n, c, -9, 9))
	}
	keep := h.Copy(X)
	K += vp.Choose("K", 2)
	m := pp.NewQuantileTransformer(K, "uniform", nil)
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(2, 2, []float64{1, 2, 3, 4}), nil)
	}
	m.Fit(X, nil)
	q := h.DenseIn("q", 1, c, -12, 12)
	out, Yt := m.Transform(q, target())
	vp.Eq(Yt.At(0, 0), 5, "targets pass through")
	eps := 1e-7
	for j := 0; j < c; j++ {
		// quantile grid
		var srt []float64
		if n == 3 {
			x, y, z := sort3(X.At(0, j), X.At(1, j), X.At(2, j))
			srt = []float64{x, y, z}
		} else if n > 3 {
			srt = sorted(mat.Col(nil, j, X))
		} else {
			srt = []float64{h.Min(X.At(0, j), X.At(1, j)), h.Max(X.At(0, j), X.At(1, j))}
		}
		Q := make([]float64, K)
		for k := range Q {
			num, den := k*(n-1), K-1
			i0, rem := num/den, num%den
			Q[k] = srt[i0]
			if rem > 0 {
				Q[k] += (srt[i0+1] - srt[i0]) * float64(rem) / float64(den)
			}
		}
		x := q.At(0, j)
		// a value that several grid points share may map to any of their positions
		lo, hi := vp.IfF(x > Q[K-1], 1, 0), vp.IfF(x >= Q[K-1], 1, 0)
		for k := K - 2; k >= 0; k-- {
			w := Q[k+1] - Q[k]
			at := (float64(k) + (x-Q[k])/vp.IfF(w == 0, 1, w)) / float64(K-1)
			lo = vp.IfF(vp.And(x > Q[k], x <= Q[k+1]), at, lo)
			hi = vp.IfF(vp.And(x >= Q[k], x < Q[k+1]), at, hi)
		}
		lo, hi = h.Min(1-eps, h.Max(eps, lo)), h.Min(1-eps, h.Max(eps, hi))
		got := out.At(0, j)
		vp.Eq(got, h.Min(hi, h.Max(lo, got)), "quantile of the value")
		vp.Assert(vp.And(got >= 0, got <= 1), "quantiles are in [0,1]")
		vp.Reach("checked")
	}
	h.EqMat(X, keep, "the data is left alone")
}

// HKernelCenterer: kernels of centred features, for the fitted data and for new data.
func HKernelCenterer() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n := 2 + vp.Choose("n", 2)
	nq := 1 + vp.Choose("nq", 3)
	// explicit features: K = F F', centring the features must equal centring the kernel
	F, G := h.DenseIn("F", n, 1, -5, 5), h.DenseIn("G", nq, 1, -5, 5)
	mean := 0.
	for i := 0; i < n; i++ {
		mean += F.At(i, 0) / float64(n)
	}
	K, L := mat.NewDense(n, n, nil), mat.NewDense(nq, n, nil)
	for j := 0; j < n; j++ {
		for i := 0; i < n; i++ {
			K.Set(i, j, F.At(i, 0)*F.At(j, 0))
		}
		for i := 0; i < nq; i++ {
			L.Set(i, j, G.At(i, 0)*F.At(j, 0))
		}
	}
	K, L = h.MaybeView("K", K), h.MaybeView("L", L)
	kk, kl := h.Copy(K), h.Copy(L)
	m := pp.NewKernelCenterer()
	out, Yt := m.FitTransform(K, target())
	vp.Eq(Yt.At(0, 0), 5, "targets pass through")
	r, c := out.Dims()
	vp.Assert(r == n && c == n, "shape of the centred kernel")
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			vp.Eq(out.At(i, j), (F.At(i, 0)-mean)*(F.At(j, 0)-mean), "centred kernel")
		}
	}
	out, _ = m.Transform(L, nil)
	r, c = out.Dims()
	vp.Assert(r == nq && c == n, "shape of the centred test kernel")
	for i := 0; i < nq; i++ {
		for j := 0; j < n; j++ {
			vp.Eq(out.At(i, j), (G.At(i, 0)-mean)*(F.At(j, 0)-mean), "centred test kernel")
		}
	}
	h.EqMat(K, kk, "the kernel is left alone")
	h.EqMat(L, kl, "the test kernel is left alone")
}

// HPower: the transform follows its formula for given powers, and the inverse restores the data.
func HPower() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	lam := []float64{1, 2, -1, .5, 0, 3}[vp.Choose("lambda", 6)]
	m := pp.NewPowerTransformer()
	vp.Assert(m.Method == "yeo-johnson" && m.Standardize, "defaults")
	m.Standardize = false
	box := vp.Choose("boxcox", 2) == 1
	var X *mat.Dense
	if box {
		m.Method = "box-cox"
		X = h.DenseIn("X", 2, 1, .125, 8)
	} else {
		X = h.DenseIn("X", 2, 1, -8, 8)
	}
	X = h.MaybeView("X", X)
	keep := h.Copy(X)
	m.Lambdas = []float64{lam}
	out, Yt := m.Transform(X, target())
	vp.Eq(Yt.At(0, 0), 5, "targets pass through")
	h.EqMat(X, keep, "the data is left alone")
	pow := func(x float64, p float64) float64 { // (x^p-1)/p, log x at p = 0
		switch p {
		case 0:
			return math.Log(x)
		case 1:
			return x - 1
		case 2:
			return (x*x - 1) / 2
		case -1:
			return 1 - 1/x
		case 3:
			return (x*x*x - 1) / 3
		case .5:
			return (math.Sqrt(x) - 1) * 2
		}
		return (math.Pow(x, p) - 1) / p
	}
	for i := 0; i < 2; i++ {
		x := keep.At(i, 0)
		if box {
			vp.Eq(out.At(i, 0), pow(x, lam), "box-cox")
		} else if x >= 0 {
			if lam == 0 {
				vp.Eq(out.At(i, 0), math.Log1p(x), "yeo-johnson at 0")
			} else {
				vp.Eq(out.At(i, 0), pow(x+1, lam), "yeo-johnson")
			}
		} else {
			if lam == 2 {
				vp.Eq(out.At(i, 0), -math.Log1p(-x), "yeo-johnson at 2")
			} else {
				vp.Eq(out.At(i, 0), -pow(1-x, 2-lam), "yeo-johnson of negatives")
			}
		}
	}
	if box && (lam == 1 || lam == 2 || lam == -1 || lam == .5 || lam == 0) || !box && lam == 1 {
		back, _ := m.InverseTransform(out, nil)
		h.EqMat(back, keep, "the inverse restores the data")
		vp.Reach("inverse")
	}
	if !box && lam != 1 {
		back, _ := m.InverseTransform(out, nil)
		for i := 0; i < 2; i++ {
			x := keep.At(i, 0)
			if x >= 0 && lam != 3 || x < 0 && (lam == 0 || lam == 2) {
				vp.Eq(back.At(i, 0), x, "the inverse restores the data")
				vp.Reach("inverse yeo-johnson")
			}
		}
	}
}

// HPowerScaled: with standardisation the transformed data are also standardised, and restored by the inverse.
func HPowerScaled() {
	m := pp.NewPowerTransformer()
	m.Lambdas = []float64{1, 1}
	sc := pp.NewStandardScaler()
	sc.Fit(mat.NewDense(2, 2, []float64{1, 10, 5, 30}), nil)
	m.Scaler = sc
	X := h.DenseIn("X", 1, 2, -8, 8)
	out, _ := m.Transform(X, nil)
	vp.Eq(out.At(0, 0), (X.At(0, 0)-3)/2, "scaled first feature")
	vp.Eq(out.At(0, 1), (X.At(0, 1)-20)/10, "scaled second feature")
	back, _ := m.InverseTransform(out, nil)
	h.EqMat(back, X, "the inverse restores the data")
}

// like is the log likelihood of a transformed column, up to a constant.
func like(z []float64, sumlog, lam float64) float64 {
	n := float64(len(z))
	m, v := 0., 0.
	for _, x := range z {
		m += x / n
	}
	for _, x := range z {
		v += (x - m) * (x - m) / n
	}
	return -n/2*math.Log(v) + (lam-1)*sumlog
}

// HPowerFit: the fitted powers maximise the likelihood by feature; transformed data is standardised by feature.
func HPowerFit() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.NativeFloats(true)
	n, c := 6, 3
	X := mat.NewDense(n, c, []float64{1, 5, .5, 2, 1, 3, 4, 2, 1, 8, 2.5, 2, 16, 7, 9, 3, .5, 4})
	m := pp.NewPowerTransformer()
	if vp.Choose("boxcox", 2) == 1 {
		m.Method = "box-cox"
	} else {
		X.Set(2, 1, -3)
		X.Set(4, 2, -1)
	}
	m.Standardize = vp.Choose("standardize", 2) == 1
	keep := h.Copy(X)
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(3, 2, []float64{1, 2, 3, 7, 4, 5}), nil)
	}
	X = h.MaybeView("X", X)
	var out *mat.Dense
	if vp.Choose("both", 2) == 1 {
		out, _ = m.FitTransform(X, nil)
	} else {
		m.Fit(X, nil)
		out, _ = m.Transform(X, nil)
	}
	vp.Assert(len(m.Lambdas) == c, "a power by feature")
	h.EqMat(X, keep, "the data is left alone")
	pw := func(x, p float64) float64 {
		if p == 0 {
			return math.Log(x)
		}
		return (math.Pow(x, p) - 1) / p
	}
	f := func(x, lam float64) (z, logJ float64) {
		switch {
		case m.Method == "box-cox":
			return pw(x, lam), math.Log(x)
		case x >= 0:
			return pw(x+1, lam), math.Log(x + 1)
		}
		return -pw(1-x, 2-lam), -math.Log(1 - x)
	}
	for j := 0; j < c; j++ {
		at := func(lam float64) float64 {
			z, s := make([]float64, n), 0.
			for i := range z {
				v, l := f(X.At(i, j), lam)
				z[i] = v
				s += l
			}
			return like(z, s, lam)
		}
		lam := m.Lambdas[j]
		for _, d := range []float64{.01, .1, .5, 1} {
			vp.Assert(at(lam) >= at(lam+d), "no larger power is likelier")
			vp.Assert(at(lam) >= at(lam-d), "no smaller power is likelier")
		}
		mean, va := 0., 1.
		if m.Standardize {
			va = 0
			for i := 0; i < n; i++ {
				v, _ := f(X.At(i, j), lam)
				mean += v / float64(n)
			}
			for i := 0; i < n; i++ {
				v, _ := f(X.At(i, j), lam)
				va += (v - mean) * (v - mean) / float64(n)
			}
		}
		for i := 0; i < n; i++ {
			v, _ := f(X.At(i, j), lam)
			vp.Near(out.At(i, j), (v-mean)/math.Sqrt(va), 1e-6, "transformed value")
		}
	}
	back, _ := m.InverseTransform(out, nil)
	h.NearMat(back, keep, 1e-6, "the inverse restores the data")
	// a clone can be refitted alone
	cl := m.TransformerClone()
	cl.Fit(mat.NewDense(3, 3, []float64{1, 2, 3, 7, 4, 5, 9, 9, 1}), nil)
	again, _ := m.Transform(X, nil)
	h.EqMat(again, out, "refitting a clone leaves the original alone")
}

// HPCA: components are orthonormal directions of the data; the inverse of all components restores, of fewer projects.
func HPCA() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	vp.NativeFloats(true)
	data := []*mat.Dense{
		mat.NewDense(6, 2, []float64{-1, -1, -2, -1, -3, -2, 1, 1, 2, 1, 3, 2}),
		mat.NewDense(4, 3, []float64{2, 0, 1, 0, 3, 1, -1, 1, 4, 2, 2, -2}),
		mat.NewDense(3, 3, []float64{1, 2, 3, 4, 5, 6, 7, 8, 10}),
		mat.NewDense(2, 3, []float64{1, 2, 3, 4, -5, 6}),
	}
	X := data[vp.Choose("data", 4)]
	n, c := X.Dims()
	avail := c // number of components available
	if n < c {
		avail = n
	}
	m := pp.NewPCA()
	if vp.Choose("refit", 2) == 1 {
		m.Fit(mat.NewDense(3, 2, []float64{1, 2, 3, 4, 5, 7}), nil)
		m.NComponents = 0
	}
	k := avail - vp.Choose("drop", 2)
	if k < avail {
		m.NComponents = k
	}
	m.Fit(X, nil)
	vp.Assert(m.NComponents == k, "number of components")
	e := 0.
	for _, v := range m.ExplainedVarianceRatio {
		e += v
	}
	vp.Near(e, 1, 1e-9, "explained variance ratios sum to one")
	q := h.DenseIn("q", 1, c, -1, 1)
	out, _ := m.Transform(q, target())
	_, oc := out.Dims()
	vp.Assert(oc == k, "one column per component")
	back, Yb := m.InverseTransform(out, target())
	vp.Assert(Yb != nil, "the inverse keeps the targets")
	_, bc := back.Dims()
	vp.Assert(bc == c, "the inverse has the original features")
	if k == c {
		for j := 0; j < c; j++ {
			vp.Near(back.At(0, j), q.At(0, j), 1e-6, "the inverse restores the data")
		}
	} else {
		// projection: transforming again changes nothing
		again, _ := m.Transform(back, nil)
		for j := 0; j < k; j++ {
			vp.Near(again.At(0, j), out.At(0, j), 1e-6, "the inverse is a projection")
		}
		vp.Reach("projection")
	}
	// the fitted data: squared columns are the squared singular values in descending order
	Xt, _ := m.Transform(X, nil)
	for a := 0; a < k; a++ {
		for b := 0; b <= a; b++ {
			s := 0.
			for i := 0; i < n; i++ {
				s += Xt.At(i, a) * Xt.At(i, b)
			}
			if a == b {
				vp.Near(s, m.SingularValues[a]*m.SingularValues[a], 1e-6, "variance along a component")
				vp.Assert(a == 0 || m.SingularValues[a] <= m.SingularValues[a-1], "components are ordered")
			} else {
				vp.Near(s, 0, 1e-6, "components are uncorrelated")
			}
		}
	}
}

// HPCAMinVariance: just enough components for the requested share of the variance.
func HPCAMinVariance() {
	vp.NativeFloats(true)
	X := mat.NewDense(4, 3, []float64{2, 0, 1, 0, 3, 1, -1, 1, 4, 2, 2, -2})
	m := pp.NewPCA()
	m.MinVarianceRatio = []float64{.3, .6, .9, .999}[vp.Choose("ratio", 4)]
	m.Fit(X, nil)
	s := 0.
	for i, v := range m.ExplainedVarianceRatio {
		if i < m.NComponents {
			vp.Assert(s < m.MinVarianceRatio, "no component too many")
		}
		if i < m.NComponents {
			s += v
		}
	}
	vp.Assert(s >= m.MinVarianceRatio, "enough components")
}

// HQuantileGrid: many quantiles of few samples lie on the lines between them.
func HQuantileGrid() {
	n, K := 4, 601
	X := h.Const(n, 2, 3, -1, vp.FloatIn("x", 5, 9), 2, -2, 0, 1, 7)
	m := pp.NewQuantileTransformer(K, "uniform", nil)
	m.Fit(X, nil)
	for j := 0; j < 2; j++ {
		srt := [][]float64{{-2, 1, 3, X.At(1, 0)}, {-1, 0, 2, 7}}[j]
		for k := 0; k < K; k++ {
			i0, rem := k*(n-1)/(K-1), k*(n-1)%(K-1)
			want := srt[i0]
			if rem > 0 {
				want += (srt[i0+1] - srt[i0]) * float64(rem) / float64(K-1)
			}
			vp.Near(m.Quantiles.At(k, j), want, 1e-6, "quantile")
		}
	}
}
