// Package p31: data generators.
package p31

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/datasets"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// HGetXY: the matrices of a dataset hold its data and target.
func HGetXY() {
	n, p := 1+vp.Choose("samples", 3), 1+vp.Choose("features", 3)
	ds := &datasets.MLDataset{}
	for j := 0; j < p; j++ {
		ds.FeatureNames = append(ds.FeatureNames, "f"+h.Itoa(j))
	}
	for i := 0; i < n; i++ {
		var row []float64
		for j := 0; j < p; j++ {
			row = append(row, vp.Float("x"+h.Itoa(i)+"_"+h.Itoa(j)))
		}
		ds.Data = append(ds.Data, row)
		ds.Target = append(ds.Target, vp.Float("y"+h.Itoa(i)))
	}
	X, Y := ds.GetXY()
	r, c := X.Dims()
	vp.Assert(r == n && c == p, "a row by sample and a column by feature")
	r, c = Y.Dims()
	vp.Assert(r == n && c == 1, "a target by sample")
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			vp.Eq(X.At(i, j), ds.Data[i][j], "X holds the data")
		}
		vp.Eq(Y.At(i, 0), ds.Target[i], "Y holds the target")
	}
	X.Set(0, 0, 7)
	vp.Eq(Y.At(0, 0), ds.Target[0], "X and Y are apart")
	vp.Reach("getxy")
}

// HRegression: y is the linear model of the informative features, plus the bias.
func HRegression() {
	vp.NativeFloats(true)
	n, p, inf, targets := 1+vp.Choose("samples", 4), 1+vp.Choose("features", 3), 1+vp.Choose("informative", 3), 1+vp.Choose("targets", 2)
	if n == 4 {
		n, p, inf, targets = 19, p*4, inf*3, targets+1
	}
	seed := uint64(vp.Choose("seed", 2))
	gen := func(bias interface{}) (X, Y, C *mat.Dense) {
		kw := map[string]interface{}{"n_samples": n, "n_features": p, "n_informative": inf, "n_targets": targets, "random_state": rand.New(rand.NewSource(seed))}
		if bias != nil {
			kw["bias"] = bias
		}
		return datasets.MakeRegression(kw)
	}
	b := []float64{vp.FloatIn("b0", -4, 4), vp.FloatIn("b1", -4, 4), 2}[:targets]
	want := append([]float64(nil), b...)
	var X, Y, C *mat.Dense
	switch vp.Choose("bias", 4) {
	case 0:
		X, Y, C = gen(nil)
		want = make([]float64, targets)
	case 1:
		X, Y, C = gen(b[0])
		for i := range want {
			want[i] = b[0]
		}
	case 2:
		X, Y, C = gen(b)
	case 3:
		X, Y, C = gen(mat.NewDense(1, targets, b))
	}
	k := inf
	if k > p {
		k = p
	}
	r, c := X.Dims()
	vp.Assert(r == n && c == p, "shape of X")
	r, c = Y.Dims()
	vp.Assert(r == n && c == targets, "shape of y")
	r, c = C.Dims()
	vp.Assert(r == k && c == targets, "a coefficient by informative feature and target")
	seen := map[float64]bool{}
	for i := 0; i < n; i++ {
		for t := 0; t < targets; t++ {
			s := want[t]
			for j := 0; j < k; j++ {
				s += X.At(i, j) * C.At(j, t)
			}
			vp.Near(Y.At(i, t), s, 1e-9, "y is X informative . Coef + bias")
		}
		for j := 0; j < p; j++ {
			v := X.At(i, j)
			vp.Assert(v != 0 && !seen[v], "each element of X is a draw of its own")
			seen[v] = true
		}
	}
	for j := 0; j < k; j++ {
		for t := 0; t < targets; t++ {
			v := C.At(j, t)
			vp.Assert(v != 0 && !seen[v], "each coefficient is a draw of its own")
			seen[v] = true
		}
	}
	X2, _, C2 := gen(nil)
	h.EqMat(X2, X, "equal seeds give equal data")
	h.EqMat(C2, C, "equal seeds give equal data")
	vp.Reach("regression")
}

type src struct{ s rand.Source }

func (s src) Uint64() uint64   { return s.s.Uint64() }
func (s src) Seed(seed uint64) { s.s.Seed(seed) }

// HBlobs: samples are their center plus isotropic noise, labelled by it, and reproducible.
func HBlobs() {
	vp.NativeFloats(true)
	vp.CPUs(1 + vp.Choose("cpus", 2))
	n, p, k := 1+vp.Choose("samples", 4), 1+vp.Choose("features", 2), 1+vp.Choose("centers", 3)
	if n == 4 {
		n, p, k = 23, p+2, k+3
	}
	seed := uint64(vp.Choose("seed", 2))
	state := func() base.RandomState {
		if vp.Choose("source", 2) == 1 {
			return src{rand.NewSource(seed)}
		}
		return base.NewSource(seed)
	}
	st := state()
	var C *mat.Dense
	if n > 4 {
		C = h.Wide("C", k, p, 1, -8, 8)
	} else {
		C = h.DenseIn("C", k, p, -8, 8)
	}
	Cc := h.Copy(C)
	shuffle := vp.Choose("shuffle", 2) == 1
	X, Y := datasets.MakeBlobs(&datasets.MakeBlobsConfig{NSamples: n, Centers: C, ClusterStd: .5, Shuffle: shuffle, RandomState: st})
	h.EqMat(C, Cc, "the centers are left alone")
	r, c := X.Dims()
	vp.Assert(r == n && c == p, "as many features as the centers")
	r, c = Y.Dims()
	vp.Assert(r == n && c == 1, "a label by sample")
	// the same noise four times as wide, around 0
	st.Seed(seed)
	X2, Y2 := datasets.MakeBlobs(&datasets.MakeBlobsConfig{NSamples: n, Centers: mat.NewDense(k, p, nil), ClusterStd: 2, Shuffle: shuffle, RandomState: st})
	h.EqMat(Y2, Y, "equal seeds give equal labels")
	seen := map[float64]bool{}
	for i := 0; i < n; i++ {
		l := int(Y.At(i, 0))
		vp.Assert(float64(l) == Y.At(i, 0) && l >= 0 && l < k, "labels are centers")
		for j := 0; j < p; j++ {
			z := X2.At(i, j)
			vp.Near(X.At(i, j), C.At(l, j)+z/4, 1e-9, "a sample is its center plus ClusterStd times noise that is the same for equal seeds")
			vp.Assert(z != 0 && !seen[z], "each noise is a draw of its own")
			seen[z] = true
		}
	}
	vp.Reach("blobs")
}

// HBox: random centers are in the box; defaults.
func HBox() {
	vp.NativeFloats(true)
	seed := uint64(vp.Choose("seed", 4))
	k, p := 1+vp.Choose("centers", 3), 1+vp.Choose("features", 2)
	lo := vp.FloatIn("lo", -8, 8)
	hi := lo + []float64{2, 16}[vp.Choose("width", 2)]
	ns := 8
	if k == 3 {
		ns = 20
	}
	cfg := &datasets.MakeBlobsConfig{NSamples: ns, NFeatures: p, Centers: k, ClusterStd: 1e-6, CenterBox: []float64{lo, hi}, RandomState: base.NewSource(seed)}
	X, Y := datasets.MakeBlobs(cfg)
	n, c := X.Dims()
	vp.Assert(n == ns && c == p, "shape of X")
	for i := 0; i < n; i++ {
		vp.Assert(Y.At(i, 0) >= 0 && Y.At(i, 0) < float64(k), "labels are centers")
		for j := 0; j < p; j++ {
			vp.Assert(X.At(i, j) > lo-1e-4 && X.At(i, j) < hi+1e-4, "centers are in the box")
			for i2 := 0; i2 < i; i2++ {
				if Y.At(i, 0) == Y.At(i2, 0) {
					vp.Assert(h.Abs(X.At(i, j)-X.At(i2, j)) < 1e-4, "samples of a label share its center")
				} else {
					vp.Assert(h.Abs(X.At(i, j)-X.At(i2, j)) > 1e-4, "centers are apart")
				}
			}
		}
	}
	vp.Reach("box")
}

// HDefaults: what is not configured has its documented default.
func HDefaults() {
	vp.NativeFloats(true)
	seed := uint64(vp.Choose("seed", 4))
	cfg := func() *datasets.MakeBlobsConfig {
		return &datasets.MakeBlobsConfig{NSamples: 6, NFeatures: 2, Centers: 3, ClusterStd: 1, CenterBox: []float64{-10, 10}, RandomState: base.NewSource(seed)}
	}
	X, Y := datasets.MakeBlobs(cfg())
	c := cfg()
	switch vp.Choose("default", 4) {
	case 0:
		c.NFeatures = -vp.Choose("negative", 2)
	case 1:
		c.Centers = nil
	case 2:
		c.ClusterStd = -float64(vp.Choose("negative", 2))
	case 3:
		c.CenterBox = nil
	}
	X2, Y2 := datasets.MakeBlobs(c)
	h.EqMat(X2, X, "default")
	h.EqMat(Y2, Y, "default")
	vp.Reach("defaults")
}
