// Package p33: what every transformer of the library promises.
package p33

import (
	"github.com/pa-m/sklearn/base"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

const transformers = 22

const (
	kernelCenterer = 12
	shuffler       = 7
	power          = 14
	columns        = 11 // Normalizer by column
)

// transformer returns the k-th one and whether it may be given symbolic samples.
func transformer(k int) (m base.Transformer, symbolic bool) {
	switch k {
	case 0:
		return pp.NewMinMaxScaler([]float64{-1, 3}), true
	case 1:
		return pp.NewStandardScaler(), false
	case 2:
		return pp.NewDefaultRobustScaler(), true
	case 3:
		return pp.NewMaxAbsScaler(), true
	case 4:
		return pp.NewPolynomialFeatures(3), true
	case 5:
		return pp.NewOneHotEncoder(), false
	case 6:
		return pp.NewBinarizer(), true
	case shuffler:
		return pp.NewShuffler(), false
	case 8:
		return pp.NewImputer(), true
	case 9:
		return pp.NewKBinsDiscretizer(3), false
	case 10:
		return pp.NewNormalizer(), false
	case columns:
		n := pp.NewNormalizer()
		n.Norm, n.Axis = "max", 0
		return n, false
	case kernelCenterer:
		return pp.NewKernelCenterer(), true
	case 13:
		return pp.NewQuantileTransformer(4, "uniform", nil), false
	case power:
		return pp.NewPowerTransformer(), false
	case 15:
		return pp.NewFunctionTransformer(func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			r := h.Copy(X)
			r.Apply(func(i, j int, v float64) float64 { return v*2 + float64(j) }, r)
			return r, Y
		}, nil), true
	case 16:
		return pp.NewLabelBinarizer(-1, 2), false
	case 17:
		return pp.NewMultiLabelBinarizer(), false
	case 18:
		return pp.NewLabelEncoder(), false
	case 19:
		return pp.NewPCA(), false
	case 20:
		s := pp.NewStandardScaler()
		s.WithMean = false
		return s, false
	default:
		return pp.NewMinMaxScaler([]float64{0, 1}), true
	}
}

var sets = [][]float64{
	{0, 1, 1, 0, 4, 5, 5, 2, .5, 3},
	{3, -8, 2, .5, -1, 4, -9, 7, 2.5, 0},
}

// data returns samples and targets.
func data(k, set int, symbolic bool) (X, Y *mat.Dense) {
	X = mat.NewDense(5, 2, append([]float64(nil), sets[set]...))
	Y = mat.NewDense(5, 1, [][]float64{{3, 1, 3, 7, 1}, {2, 1, 5, 2, 9}}[set])
	if k == 17 {
		Y = mat.NewDense(5, 2, [][]float64{{3, 1, 3, 7, 1, 7, 1, 1, 3, 3}, {2, 1, 5, 2, 9, 1, 1, 5, 5, 9}}[set])
	}
	if k == kernelCenterer {
		X = h.Fixed(5, 5, set+1)
	}
	if symbolic {
		X.Set(2, 1, vp.FloatIn("x", -4, 8))
	}
	return
}

// cells is a matrix that is neither dense nor raw.
type cells struct {
	r, c int
	v    []float64
}

func newCells(m mat.Matrix) *cells {
	r, c := m.Dims()
	e := &cells{r, c, nil}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			e.v = append(e.v, m.At(i, j))
		}
	}
	return e
}
func (m *cells) Dims() (int, int)    { return m.r, m.c }
func (m *cells) At(i, j int) float64 { return m.v[i*m.c+j] }
func (m *cells) T() mat.Matrix       { return mat.Transpose{Matrix: m} }

// as returns m as the kind of matrix chosen and a function asserting that neither it nor anything around was touched.
func as(name string, m *mat.Dense) (mat.Matrix, func(msg string)) {
	keep := h.Copy(m)
	var x mat.Matrix = m
	pad := func(string) {}
	switch vp.Choose(name, 4) {
	case 1:
		v, parent := h.View(m)
		x = v
		pad = func(msg string) { h.PadIntact(parent, msg) }
	case 2:
		x = newCells(m)
	case 3:
		x = h.Copy(m.T()).T()
	}
	return x, func(msg string) {
		h.EqMat(x, keep, msg)
		pad(msg)
	}
}

func same(a, b *mat.Dense, msg string) {
	vp.Assert((a == nil) == (b == nil), msg)
	if a != nil && b != nil {
		h.EqMat(a, b, msg)
	}
}

func near(a, b *mat.Dense, msg string) {
	vp.Assert((a == nil) == (b == nil), msg)
	if a != nil && b != nil {
		h.NearMat(a, b, 1e-9, msg)
	}
}

// HKinds: samples and targets in any kind of matrix are transformed alike and left alone.
func HKinds() {
	vp.NativeFloats(true)
	vp.CPUs(1 + vp.Choose("cpus", 2))
	k := vp.Choose("transformer", transformers)
	if k == shuffler {
		return
	}
	ref, sym := transformer(k)
	m, _ := transformer(k)
	X, Y := data(k, 0, sym)
	ref.Fit(h.Copy(X), h.Copy(Y))
	wx, wy := ref.Transform(h.Copy(X), h.Copy(Y))
	wx, wy = h.Copy(wx), h.Copy(wy)
	x, xok := as("X", h.Copy(X))
	y, yok := as("Y", h.Copy(Y))
	together := vp.Choose("together", 2) == 1
	var gx, gy *mat.Dense
	if together {
		gx, gy = m.FitTransform(x, y)
	} else {
		m.Fit(x, y)
		xok("samples are left alone by Fit")
		yok("targets are left alone by Fit")
		gx, gy = m.Transform(x, y)
	}
	near(gx, wx, "samples transformed alike")
	near(gy, wy, "targets transformed alike")
	xok("samples are left alone by Transform")
	yok("targets are left alone by Transform")
	// what is returned keeps
	keep := h.Copy(gx)
	X2, Y2 := data(k, 1, false)
	m.Transform(X2, Y2)
	same(gx, keep, "a later Transform leaves what is returned alone")
	if k < 15 || k > 18 {
		gx.Set(0, 0, 77)
		xok("what is returned is the caller's")
		gx.Set(0, 0, keep.At(0, 0))
	}
	if im, ok := m.(pp.InverseTransformer); ok {
		ky := h.Copy(gy)
		im.InverseTransform(gx, gy)
		same(gx, keep, "samples are left alone by InverseTransform")
		same(gy, ky, "targets are left alone by InverseTransform")
		xok("samples are left alone by InverseTransform")
		yok("targets are left alone by InverseTransform")
	}
}

// HNoTargets: the transformers of samples do without targets.
func HNoTargets() {
	vp.NativeFloats(true)
	k := vp.Choose("transformer", transformers)
	if k == shuffler || k >= 16 && k <= 18 {
		return
	}
	ref, sym := transformer(k)
	m, _ := transformer(k)
	X, Y := data(k, 0, sym)
	ref.Fit(X, Y)
	wx, _ := ref.Transform(X, Y)
	var none mat.Matrix
	if vp.Choose("nil", 2) == 1 {
		none = (*mat.Dense)(nil)
	}
	var gx, gy *mat.Dense
	if vp.Choose("together", 2) == 1 {
		gx, gy = m.FitTransform(X, none)
	} else {
		m.Fit(X, none)
		gx, gy = m.Transform(X, none)
	}
	same(gx, wx, "samples are transformed alike without targets")
	vp.Assert(gy == nil || gy.IsEmpty(), "no targets, none returned")
}

type partial interface {
	PartialFit(X, Y *mat.Dense) base.Transformer
}
type partialMatrix interface {
	PartialFit(X, Y mat.Matrix) base.Transformer
}

func partially(m base.Transformer, X, Y *mat.Dense) bool {
	switch p := m.(type) {
	case partial:
		p.PartialFit(X, Y)
		return true
	case partialMatrix:
		p.PartialFit(X, Y)
		return true
	}
	return false
}

// HClone: a clone transforms as its original and lives its own life.
func HClone() {
	vp.NativeFloats(true)
	vp.CPUs(1 + vp.Choose("cpus", 2))
	k := vp.Choose("transformer", transformers)
	if k == shuffler {
		return
	}
	m, sym := transformer(k)
	X, Y := data(k, 0, sym)
	X2, Y2 := data(k, 1, false)
	unfitted := m.TransformerClone()
	m.Fit(X, Y)
	wx, wy := m.Transform(X, Y)
	wx, wy = h.Copy(wx), h.Copy(wy)
	c := m.TransformerClone()
	gx, gy := c.Transform(X, Y)
	same(gx, wx, "a clone transforms as its original")
	same(gy, wy, "a clone transforms as its original")
	a, b := m, c
	if vp.Choose("which", 2) == 1 {
		a, b = c, m
	}
	switch vp.Choose("then", 5) {
	case 0:
		a.Fit(X2, Y2)
	case 1:
		a.FitTransform(X2, Y2)
	case 2: // other features, fewer values
		s := h.Fixed(4, 3, 2)
		if k == kernelCenterer {
			s = h.Fixed(4, 4, 2)
		}
		s.Set(0, 0, s.At(1, 0))
		a.Fit(s, Y2.Slice(0, 4, 0, len(mat.Row(nil, 0, Y2))))
	case 3: // other values, fewer of them
		s := h.Copy(X2)
		s.Set(0, 0, s.At(1, 0))
		s.Set(2, 1, s.At(1, 1))
		a.Fit(s, Y2)
	default:
		partially(a, X2, Y2)
	}
	gx, gy = b.Transform(X, Y)
	same(gx, wx, "fitting one leaves the other alone")
	same(gy, wy, "fitting one leaves the other alone")
	X2.Scale(.5, X2)
	if partially(b, X2, Y2) {
		f, _ := transformer(k)
		f.Fit(X, Y)
		partially(f, X2, Y2)
		gx, gy = b.Transform(X, Y)
		fx, fy := f.Transform(X, Y)
		near(gx, fx, "the other learns on as if alone")
		near(gy, fy, "the other learns on as if alone")
	}
	unfitted.Fit(X, Y)
	gx, gy = unfitted.Transform(X, Y)
	same(gx, wx, "a clone of the unfitted fits alike")
	same(gy, wy, "a clone of the unfitted fits alike")
}

// HRefit: a refit equals a first fit.
func HRefit() {
	vp.NativeFloats(true)
	k := vp.Choose("transformer", transformers)
	if k == shuffler {
		return
	}
	m, sym := transformer(k)
	f, _ := transformer(k)
	X, Y := data(k, 0, sym)
	X2, Y2 := data(k, 1, false)
	f.Fit(X, Y)
	wx, wy := f.Transform(X, Y)
	switch vp.Choose("before", 3) {
	case 0:
		m.Fit(X2, Y2)
	case 1:
		if q, ok := m.(*pp.QuantileTransformer); ok { // ask for more quantiles at first
			n := q.NQuantiles
			q.NQuantiles = 7
			m.Fit(X2, Y2)
			q.NQuantiles = n
			break
		}
		m.Fit(X2, Y2)
		m.Transform(X2, Y2)
		partially(m, X2, Y2)
	default:
		if k == kernelCenterer {
			return
		}
		m.Fit(h.Fixed(3, 4, 2), h.Const(3, len(mat.Row(nil, 0, Y)), make([]float64, 3*len(mat.Row(nil, 0, Y)))...))
	}
	if p, ok := m.(*pp.PCA); ok {
		p.NComponents = 0 // a fit fills it in, 0 asks for all of them again
	}
	m.Fit(X, Y)
	gx, gy := m.Transform(X, Y)
	same(gx, wx, "a refit equals a first fit")
	same(gy, wy, "a refit equals a first fit")
}

// HRows: a sample is transformed alone as among others, again and again, whatever becomes of the fitted samples.
func HRows() {
	vp.NativeFloats(true)
	vp.CPUs(1 + vp.Choose("cpus", 3))
	k := vp.Choose("transformer", transformers)
	if k == shuffler || k == columns {
		return
	}
	m, _ := transformer(k)
	X, Y := data(k, 0, false)
	m.Fit(X, Y)
	Q, T := data(k, 0, k != power)
	if k >= 16 && k <= 18 {
		T.Set(2, 0, vp.FloatIn("y", -4, 8))
	}
	X.Set(0, 0, 50)
	Y.Set(0, 0, 50)
	wx, wy := m.Transform(Q, T)
	i := vp.Choose("row", 5)
	_, c := Q.Dims()
	_, cy := T.Dims()
	for again := 0; again < 2; again++ {
		gx, gy := m.Transform(Q.Slice(i, i+1, 0, c), T.Slice(i, i+1, 0, cy))
		_, gc := gx.Dims()
		for j := 0; j < gc; j++ {
			vp.Near(gx.At(0, j), wx.At(i, j), 1e-9, "a sample is transformed alone as among others")
		}
		_, gc = gy.Dims()
		for j := 0; j < gc; j++ {
			vp.Near(gy.At(0, j), wy.At(i, j), 1e-9, "a target is transformed alone as among others")
		}
	}
	r, _ := wx.Dims()
	vp.Assert(r == 5, "a row for each sample")
}

// HWide: more samples and features.
func HWide() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	vp.CPUs(1 + 2*vp.Choose("cpus", 2))
	k := vp.Choose("transformer", transformers)
	if k == shuffler {
		return
	}
	n, c, cy := 23, 6, 2
	if k == power {
		n, c = 9, 3
	}
	if k == kernelCenterer {
		c = n
	}
	mk := func(seed int) (X, Y *mat.Dense) {
		X, Y = h.Fixed(n, c, seed), h.Fixed(n, cy, seed+1)
		if k == 5 || k == 17 { // few categories
			X.Apply(func(i, j int, _ float64) float64 { return float64((i*i + seed*j + i) % 5) }, X)
			Y.Apply(func(i, j int, _ float64) float64 { return float64((i*i + seed*j + i) % 4) }, Y)
		}
		return
	}
	X, Y := mk(2)
	ref, _ := transformer(k)
	ref.Fit(h.Copy(X), h.Copy(Y))
	wx, wy := ref.Transform(h.Copy(X), h.Copy(Y))
	wx, wy = h.Copy(wx), h.Copy(wy)
	m, _ := transformer(k)
	x, xok := as("X", h.Copy(X))
	y, ypad := h.View(h.Copy(Y))
	m.Fit(x, y)
	gx, gy := m.Transform(x, y)
	near(gx, wx, "samples transformed alike")
	near(gy, wy, "targets transformed alike")
	xok("samples are left alone")
	h.EqMat(y, Y, "targets are left alone")
	h.PadIntact(ypad, "nothing around the targets is written")
	if k != columns {
		i := []int{0, n / 2, n - 1}[vp.Choose("row", 3)]
		ox, oy := m.Transform(X.Slice(i, i+1, 0, c), Y.Slice(i, i+1, 0, cy))
		_, gc := ox.Dims()
		for j := 0; j < gc; j++ {
			vp.Near(ox.At(0, j), wx.At(i, j), 1e-9, "a sample is transformed alone as among others")
		}
		_, gc = oy.Dims()
		for j := 0; j < gc; j++ {
			vp.Near(oy.At(0, j), wy.At(i, j), 1e-9, "a target is transformed alone as among others")
		}
	}
	keep, ky := h.Copy(gx), h.Copy(gy)
	cl := m.TransformerClone()
	X2, Y2 := mk(7)
	m.Fit(X2, Y2)
	m.Transform(X2, Y2)
	same(gx, keep, "later uses leave what is returned alone")
	same(gy, ky, "later uses leave what is returned alone")
	gx, gy = cl.Transform(X, Y)
	same(gx, keep, "a clone transforms as its original did")
	same(gy, ky, "a clone transforms as its original did")
	if p, ok := m.(*pp.PCA); ok {
		p.NComponents = 0
	}
	m.Fit(X, Y)
	gx, gy = m.Transform(X, Y)
	near(gx, wx, "a refit equals a first fit")
	near(gy, wy, "a refit equals a first fit")
}
