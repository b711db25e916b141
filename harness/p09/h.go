// Package p09: label and category encoders.
package p09

import (
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// rank is the number of distinct values of column j below v, and whether v occurs.
func rank(Y *mat.Dense, j int, v float64) (below float64, present bool) {
	n, _ := Y.Dims()
	for i := 0; i < n; i++ {
		first := true
		for k := 0; k < i; k++ {
			first = vp.And(first, Y.At(k, j) != Y.At(i, j))
		}
		below += vp.B2F(vp.And(first, Y.At(i, j) < v))
		present = vp.Or(present, Y.At(i, j) == v)
	}
	return
}

func distinct(Y *mat.Dense, j int) float64 {
	r, _ := rank(Y, j, 1e9)
	return r
}

func shape() (n, c int) {
	switch vp.Choose("shape", 3) {
	case 1:
		return 2, 2
	case 2:
		return 9, 3
	}
	return 3, 1
}

// data is a small arbitrary matrix or a larger one with an arbitrary cell.
func data(name string, n, c int) *mat.Dense {
	if n > 3 {
		d := h.Fixed(n, c, 3)
		d.Set(n/2, c/2, vp.FloatIn(name, -9, 9))
		return d
	}
	return h.DenseIn(name, n, c, -9, 9)
}

// view is a strided view or not, by choice for small matrices.
func view(name string, d *mat.Dense) *mat.Dense {
	if d.RawMatrix().Rows > 3 {
		v, _ := h.View(d)
		return v
	}
	return h.MaybeView(name, d)
}

// query is an arbitrary row, or five fixed ones.
func query(n, c int) *mat.Dense {
	if n > 3 {
		return h.Fixed(5, c, 5)
	}
	return h.DenseIn("q", 1, c, -12, 12)
}

func other(c int) *mat.Dense {
	return mat.NewDense(4, c, []float64{500, 200, 300, 400, 100, 600, 700, 800, 900, 150, 250, 350}[:4*c])
}

// HLabelEncoder: labels become their rank among the distinct labels; unseen labels become -1; decoding restores.
func HLabelEncoder() {
	n, c := shape()
	Y := view("Y", data("Y", n, c))
	keep := h.Copy(Y)
	e := pp.NewLabelEncoder()
	if n > 3 || vp.Choose("refit", 2) == 1 {
		e.Fit(nil, other(c))
	}
	e.Fit(nil, Y)
	q := query(n, c)
	if vp.Choose("seen", 2) == 1 {
		q = Y
	}
	X := mat.NewDense(1, 1, []float64{4})
	Xt, Yt := e.Transform(X, q)
	vp.Eq(Xt.At(0, 0), 4, "features pass through")
	nq, _ := q.Dims()
	for j := 0; j < c; j++ {
		vp.Assert(len(e.Classes[j]) == int(distinct(Y, j)), "one class per distinct label")
		for k, class := range e.Classes[j] {
			cnt := 0.
			for i := 0; i < n; i++ {
				cnt += vp.B2F(Y.At(i, j) == class)
			}
			vp.Eq(e.Support[j][k], cnt, "number of samples of the class")
		}
		for i := 0; i < nq; i++ {
			r, ok := rank(Y, j, q.At(i, j))
			vp.Eq(Yt.At(i, j), vp.IfF(ok, r, -1), "label number")
		}
	}
	Z, parent := h.View(Yt)
	_, Yb := e.InverseTransform(nil, Z)
	for j := 0; j < c; j++ {
		for i := 0; i < nq; i++ {
			_, ok := rank(Y, j, q.At(i, j))
			if ok {
				vp.Eq(Yb.At(i, j), q.At(i, j), "decoding restores the label")
				vp.Reach("seen label")
			} else {
				vp.Assert(Yb.At(i, j) != Yb.At(i, j), "decoding no class gives no value")
			}
		}
	}
	h.PadIntact(parent, "decoding writes nothing else")
	h.EqMat(Y, keep, "the labels are left alone")
	_, Yf := pp.NewLabelEncoder().FitTransform(X, Y)
	for j := 0; j < c; j++ {
		for i := 0; i < n; i++ {
			r, _ := rank(Y, j, Y.At(i, j))
			vp.Eq(Yf.At(i, j), r, "fit and transform in one call")
		}
	}
}

// HLabelEncoderOutOfRange: numbers that are not class numbers decode to no value, others are not affected.
func HLabelEncoderOutOfRange() {
	e := pp.NewLabelEncoder()
	e.Fit(nil, mat.NewDense(3, 2, []float64{7, 1, 5, 2, 7, 3}))
	k := []float64{-1, 0, 1, 2, 3}[vp.Choose("k", 5)]
	l := []float64{-1, 0, 1, 2, 3}[vp.Choose("l", 5)]
	_, Y := e.InverseTransform(nil, mat.NewDense(1, 2, []float64{k, l}))
	if k == 0 || k == 1 {
		vp.Eq(Y.At(0, 0), 5+2*k, "class value")
	} else {
		vp.Assert(Y.At(0, 0) != Y.At(0, 0), "no value")
	}
	if l >= 0 && l <= 2 {
		vp.Eq(Y.At(0, 1), l+1, "class value of the second output")
	} else {
		vp.Assert(Y.At(0, 1) != Y.At(0, 1), "no value of the second output")
	}
}

// onehot checks a block encoding of q against the distinct values of Y.
func onehot(out, Y, q *mat.Dense, neg, pos float64, msg string) {
	nq, c := q.Dims()
	_, oc := out.Dims()
	base := 0
	for j := 0; j < c; j++ {
		k := vp.Conc(int(distinct(Y, j)))
		for i := 0; i < nq; i++ {
			r, ok := rank(Y, j, q.At(i, j))
			for l := 0; l < k; l++ {
				vp.Eq(out.At(i, base+l), vp.IfF(vp.And(ok, r == float64(l)), pos, neg), msg)
			}
		}
		base += k
	}
	vp.Assert(base == oc, msg+": number of columns")
}

// HLabelBinarizer: one column per class of each output, PosLabel in the column of the label, NegLabel elsewhere.
func HLabelBinarizer() {
	n, c := shape()
	Y := view("Y", data("Y", n, c))
	keep := h.Copy(Y)
	var m *pp.LabelBinarizer
	neg, pos := 0., 1.
	if vp.Choose("labels", 2) == 1 {
		neg = vp.FloatIn("neg", -3, 3)
		pos = neg + vp.FloatIn("gap", .5, 3)
		m = pp.NewLabelBinarizer(neg, pos)
	} else {
		m = &pp.LabelBinarizer{}
	}
	if n > 3 || vp.Choose("refit", 2) == 1 {
		m.Fit(nil, other(c))
	}
	m.Fit(nil, Y)
	seen := vp.Choose("seen", 2) == 1
	q := Y
	if !seen {
		q = query(n, c)
	}
	_, out := m.Transform(nil, q)
	onehot(out, Y, q, neg, pos, "binarized label")
	if seen {
		Z, parent := h.View(out)
		_, back := m.InverseTransform(nil, Z)
		h.EqMat(back, Y, "decoding restores the labels")
		h.PadIntact(parent, "decoding writes nothing else")
		vp.Reach("decoded")
	}
	h.EqMat(Y, keep, "the labels are left alone")
}

// HOneHot: one block of columns per feature, a one in the column of the value, zeros elsewhere.
func HOneHot() {
	n, c := shape()
	X := view("X", data("X", n, c))
	keep := h.Copy(X)
	m := pp.NewOneHotEncoder()
	if n > 3 || vp.Choose("refit", 2) == 1 {
		m.Fit(other(c), nil)
	}
	m.Fit(X, nil)
	seen := vp.Choose("seen", 2) == 1
	q := X
	if !seen {
		q = query(n, c)
	}
	Yin := mat.NewDense(1, 1, []float64{5})
	out, Yt := m.Transform(q, Yin)
	vp.Eq(Yt.At(0, 0), 5, "targets pass through")
	onehot(out, X, q, 0, 1, "one-hot value")
	for j := 0; j < c; j++ {
		k := int(distinct(X, j))
		vp.Assert(m.NValues[j] == k, "number of values")
		vp.Assert(m.FeatureIndices[j+1]-m.FeatureIndices[j] == k, "feature indices")
	}
	if seen {
		Z, parent := h.View(out)
		back, _ := m.InverseTransform(Z, nil)
		h.EqMat(back, X, "decoding restores the values")
		h.PadIntact(parent, "decoding writes nothing else")
		vp.Reach("decoded")
	}
	h.EqMat(X, keep, "the data is left alone")
}

// HMultiLabel: classes are shared by all outputs; each output gets one column per class.
func HMultiLabel() {
	n, c := shape()
	Y := view("Y", data("Y", n, c))
	keep := h.Copy(Y)
	// all cells in one column give the distinct values
	all := mat.NewDense(n*c, 1, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < c; j++ {
			all.Set(i*c+j, 0, Y.At(i, j))
		}
	}
	m := pp.NewMultiLabelBinarizer()
	if n > 3 || vp.Choose("refit", 2) == 1 {
		m.Fit(nil, other(c))
	}
	m.Fit(nil, Y)
	k := vp.Conc(int(distinct(all, 0)))
	vp.Assert(len(m.Classes) == k, "one class per distinct value")
	seen := vp.Choose("seen", 2) == 1
	q := Y
	if !seen {
		q = query(n, c)
	}
	var out *mat.Dense
	if !seen && vp.Choose("lazy", 2) == 1 {
		// any matrix type is accepted
		_, out = m.Transform(nil, mat.Transpose{Matrix: mat.DenseCopyOf(q.T())})
	} else {
		_, out = m.Transform(nil, q)
	}
	nq, _ := q.Dims()
	_, oc := out.Dims()
	vp.Assert(oc == k*c, "number of columns")
	for i := 0; i < nq; i++ {
		for j := 0; j < c; j++ {
			r, ok := rank(all, 0, q.At(i, j))
			for l := 0; l < k; l++ {
				vp.Eq(out.At(i, j*k+l), vp.B2F(vp.And(ok, r == float64(l))), "multilabel value")
			}
		}
	}
	if seen {
		Z, parent := h.View(out)
		_, back := m.InverseTransform(nil, Z)
		h.EqMat(back.(*mat.Dense), Y, "decoding restores the values")
		h.PadIntact(parent, "decoding writes nothing else")
		vp.Reach("decoded")
	}
	h.EqMat(Y, keep, "the labels are left alone")
}

// HStrings: string classes, every assignment of three words.
func HStrings() {
	words := []string{"b", "a", "c"}
	n, c := 2, 2
	Y := make([][]string, n)
	for i := range Y {
		Y[i] = make([]string, c)
		for j := range Y[i] {
			Y[i][j] = words[vp.Choose("w"+h.Itoa(i)+h.Itoa(j), 3)]
		}
	}
	has := map[string]bool{}
	for _, r := range Y {
		for _, w := range r {
			has[w] = true
		}
	}
	var want []string
	for _, w := range []string{"a", "b", "c"} {
		if has[w] {
			want = append(want, w)
		}
	}
	m := pp.NewMultiLabelBinarizer()
	_, out := m.FitTransform2(nil, Y)
	vp.Assert(len(m.Classes) == len(want), "classes")
	k := len(want)
	for l, w := range want {
		vp.Assert(m.Classes[l].(string) == w, "classes ascend")
		for i := range Y {
			for j := range Y[i] {
				vp.Eq(out.At(i, j*k+l), vp.B2F(Y[i][j] == w), "multilabel word")
			}
		}
	}
	_, back := m.InverseTransform(nil, out)
	for i, r := range back.([][]string) {
		for j, w := range r {
			vp.Assert(w == Y[i][j], "decoding restores the words")
		}
	}
}
