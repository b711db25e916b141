// Package p17: pipelines.
package p17

import (
	"github.com/pa-m/sklearn/base"
	ms "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// tr shifts X and Y by amounts learned from the first row of the data it is fitted on.
type tr struct {
	K      float64 // multiplier of X
	KY     float64 // multiplier of Y; Y is left alone when 0
	bx, by float64
	fits   int
	log    *[]int
	id     int
}

func (t *tr) Fit(X, Y mat.Matrix) base.Fiter {
	t.bx, t.by = X.At(0, 0), 0
	if t.KY != 0 {
		t.by = Y.At(0, 0)
	}
	t.fits++
	return t
}
func (t *tr) Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	return t.x(X), t.y(Y)
}
func (t *tr) x(X mat.Matrix) *mat.Dense {
	n, m := X.Dims()
	o := mat.NewDense(n, m, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			o.Set(i, j, t.K*X.At(i, j)+t.bx)
		}
	}
	return o
}
func (t *tr) y(Y mat.Matrix) *mat.Dense {
	d := base.ToDense(Y)
	if t.KY == 0 {
		return d
	}
	n, m := d.Dims()
	if n == 0 {
		return d
	}
	o := mat.NewDense(n, m, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			o.Set(i, j, t.KY*d.At(i, j)+t.by)
		}
	}
	return o
}
func (t *tr) FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	t.Fit(X, Y)
	return t.Transform(X, Y)
}
func (t *tr) TransformerClone() base.Transformer { c := *t; return &c }

// itr is a tr that can be inverted.
type itr struct{ tr }

func (t *itr) InverseTransform(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
	*t.log = append(*t.log, t.id)
	if t.KY == 0 {
		return X, Y
	}
	n, m := Y.Dims()
	o := mat.NewDense(n, m, nil)
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			o.Set(i, j, (Y.At(i, j)-t.by)/t.KY)
		}
	}
	return X, o
}
func (t *itr) FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	t.Fit(X, Y)
	return t.Transform(X, Y)
}
func (t *itr) TransformerClone() base.Transformer { c := *t; return &c }

// lin predicts 2*x + what it learned.
type lin struct {
	b    []float64
	n    int
	kind bool
	fits int
	out  int // outputs, when different from those of the targets
}

func (p *lin) Fit(X, Y mat.Matrix) base.Fiter {
	n, _ := X.Dims()
	_, p.n = Y.Dims()
	p.b = make([]float64, p.n)
	for j := range p.b {
		for i := 0; i < n; i++ {
			p.b[j] += X.At(i, 0) + float64(i+1)*Y.At(i, j)
		}
	}
	p.fits++
	return p
}
func (p *lin) GetNOutputs() int { return p.n }
func (p *lin) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	n, m := X.Dims()
	o := base.ToDense(Y)
	if o.IsEmpty() {
		o = mat.NewDense(n, p.n, nil)
	}
	for i := 0; i < n; i++ {
		for j := 0; j < p.n; j++ {
			o.Set(i, j, 2*X.At(i, m-1)+p.b[j])
		}
	}
	return base.FromDense(Y, o)
}
func (p *lin) Score(X, Y mat.Matrix) float64 {
	n, _ := X.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		s += float64(i+1) * (X.At(i, 0) + 3*Y.At(i, 0))
	}
	return s
}
func (p *lin) IsClassifier() bool { return p.kind }
func (p *lin) PredicterClone() base.Predicter {
	c := *p
	c.b = append([]float64(nil), p.b...)
	return &c
}

type cfg struct {
	steps []base.Fiter
	log   *[]int
	inv   []int // steps that can be inverted, last first
}

// build makes up to 2 transformers of every kind and a predicter.
func build() cfg {
	c := cfg{log: new([]int)}
	nt := vp.Choose("transformers", 3)
	for i := 0; i < nt; i++ {
		t := tr{K: float64(2 + i), log: c.log, id: i}
		switch vp.Choose("kind"+h.Itoa(i), 3) {
		case 0:
			c.steps = append(c.steps, &t)
		case 1:
			c.steps = append(c.steps, &itr{t})
			c.inv = append([]int{i}, c.inv...)
		case 2:
			t.KY = float64(3 + i)
			c.steps = append(c.steps, &itr{t})
			c.inv = append([]int{i}, c.inv...)
		}
	}
	c.steps = append(c.steps, &lin{kind: vp.Choose("classifier", 2) == 1})
	return c
}

func named(steps []base.Fiter) *pipeline.Pipeline {
	if vp.Choose("named", 2) == 0 {
		return pipeline.MakePipeline(steps...)
	}
	var ns []pipeline.NamedStep
	for i, s := range steps {
		ns = append(ns, pipeline.NamedStep{Name: "s" + h.Itoa(i), Fiter: s})
	}
	return pipeline.NewPipeline(ns...)
}

func asTr(f base.Fiter) *tr {
	if t, ok := f.(*itr); ok {
		return &t.tr
	}
	return f.(*tr)
}

// byHand fits copies of the steps one after the other and returns them with the final data.
func byHand(steps []base.Fiter, X, Y *mat.Dense) (out []base.Fiter) {
	x, y := X, Y
	for i, s := range steps {
		var c base.Fiter
		if i < len(steps)-1 {
			t := s.(base.Transformer).TransformerClone()
			t.Fit(x, y)
			x, y = t.Transform(x, y)
			c = t
		} else {
			p := s.(base.Predicter).PredicterClone()
			p.Fit(x, y)
			c = p
		}
		out = append(out, c)
	}
	return
}

// HPipeline: fit, predict, score and transform compose the steps.
func HPipeline() {
	c := build()
	X, Y := h.MaybeView("X", h.DenseIn("X", 2, 1, -5, 5)), h.MaybeView("Y", h.DenseIn("Y", 2, 1, -5, 5))
	kx, ky := h.Copy(X), h.Copy(Y)
	want := byHand(c.steps, X, Y)
	p := named(c.steps)
	vp.Assert(p.IsClassifier() == c.steps[len(c.steps)-1].(*lin).kind, "kind of the last step")
	if vp.Choose("refit", 2) == 1 {
		p.Fit(h.Dense("X0", 3, 1), h.Dense("Y0", 3, 1))
	}
	if p.Fit(X, Y) != base.Fiter(p) {
		vp.Assert(false, "Fit returns the pipeline")
	}
	Q, QY := h.DenseIn("Q", 2, 1, -5, 5), h.DenseIn("QY", 2, 1, -5, 5)
	kq := h.Copy(Q)
	// by hand
	x, y := Q, QY
	last := want[len(want)-1].(*lin)
	for _, t := range want[:len(want)-1] {
		x, y = t.(base.Transformer).Transform(x, y)
	}
	pr := mat.NewDense(2, 1, nil)
	last.Predict(x, pr)
	for i := len(want) - 2; i >= 0; i-- {
		if t := asTr(want[i]); t.KY != 0 {
			for k := 0; k < 2; k++ {
				pr.Set(k, 0, (pr.At(k, 0)-t.by)/t.KY)
			}
		}
	}
	out := h.MaybeView("out", mat.NewDense(2, 1, nil))
	*c.log = nil
	ret := p.Predict(Q, out)
	h.EqMat(out, pr, "predictions")
	if ret != nil {
		h.EqMat(ret, pr, "returned predictions")
	}
	vp.Assert(len(*c.log) == len(c.inv), "every inverse once")
	for i, k := range c.inv {
		vp.Assert((*c.log)[i] == k, "inverses in reverse order")
	}
	vp.Eq(p.Score(Q, QY), last.Score(x, y), "score")
	vp.Assert(p.GetNOutputs() == 1, "number of outputs")
	tx, ty := p.Transform(Q, QY)
	h.EqMat(tx, kq, "transform keeps X")
	h.EqMat(ty, pr, "transform predicts Y")
	_, ty = p.FitTransform(X, Y)
	n, m := ty.Dims()
	vp.Assert(n == 2 && m == 1, "shape of the transformed targets")
	h.EqMat(X, kx, "training data left alone")
	h.EqMat(Y, ky, "targets left alone")
	h.EqMat(Q, kq, "queries left alone")
}

// HClone: a clone has its own steps.
func HClone() {
	c := build()
	p := named(c.steps)
	fitted := vp.Choose("fitted", 2) == 1
	if fitted {
		p.Fit(h.DenseIn("X", 2, 1, -5, 5), h.DenseIn("Y", 2, 1, -5, 5))
	}
	q := p.PredicterClone().(*pipeline.Pipeline)
	vp.Assert(len(q.NamedSteps) == len(p.NamedSteps), "as many steps")
	for i := range p.NamedSteps {
		vp.Assert(q.NamedSteps[i].Name == p.NamedSteps[i].Name, "step names")
	}
	Q := h.DenseIn("Q", 2, 1, -5, 5)
	a, b := mat.NewDense(2, 1, nil), mat.NewDense(2, 1, nil)
	if fitted {
		p.Predict(Q, a)
		q.Predict(Q, b)
		h.EqMat(a, b, "a clone of a fitted pipeline predicts the same")
	}
	X2, Y2 := h.DenseIn("X2", 2, 1, -5, 5), h.DenseIn("Y2", 2, 1, -5, 5)
	q.Fit(X2, Y2)
	for i, s := range c.steps {
		f := 0
		if fitted {
			f = 1
		}
		if i < len(c.steps)-1 {
			vp.Assert(asTr(s).fits == f, "steps of the original are left alone")
		} else {
			vp.Assert(s.(*lin).fits == f, "estimator of the original is left alone")
		}
	}
	if fitted {
		p.Predict(Q, b)
		h.EqMat(a, b, "the original predicts as before")
	}
}

// transformers lists the transformers of the library that keep the number of rows.
func transformers(i int) base.Transformer {
	switch i {
	case 0:
		return pp.NewStandardScaler()
	case 1:
		return pp.NewMinMaxScaler([]float64{0, 1})
	case 2:
		return pp.NewRobustScaler(true, true, nil)
	case 3:
		return pp.NewPolynomialFeatures(2)
	case 4:
		return pp.NewOneHotEncoder()
	case 5:
		return pp.NewBinarizer()
	case 6:
		return &pp.MaxAbsScaler{}
	case 7:
		return pp.NewNormalizer()
	case 8:
		return pp.NewImputer()
	case 9:
		return pp.NewKBinsDiscretizer(2)
	case 10:
		return pp.NewFunctionTransformer(func(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
			o := mat.DenseCopyOf(X)
			o.Scale(3, o)
			return o, Y
		}, nil)
	case 11:
		return pp.NewLabelEncoder()
	}
	return nil
}

// HLibrary: every transformer of the library works inside a pipeline.
func HLibrary() {
	vp.NativeFloats(true)
	k := vp.Choose("transformer", 12)
	X := mat.NewDense(3, 1, []float64{1, 2, 4})
	Y := mat.NewDense(3, 1, []float64{7, 5, 7})
	Q := mat.NewDense(2, 1, []float64{2, 4})
	if k != 4 {
		Q.Set(0, 0, vp.FloatIn("q", 1, 4))
	}
	t := transformers(k)
	p := pipeline.MakePipeline(t, &lin{})
	p.Fit(X, Y)
	hand := transformers(k)
	l := &lin{}
	hand.Fit(X, Y)
	x, y := hand.Transform(X, Y)
	l.Fit(x, y)
	qx, _ := hand.Transform(Q, mat.NewDense(2, 1, []float64{5, 7}))
	want := mat.NewDense(2, 1, nil)
	l.Predict(qx, want)
	if k == 11 {
		_, want = hand.(pp.InverseTransformer).InverseTransform(nil, want)
	}
	got := mat.NewDense(2, 1, []float64{5, 5})
	p.Predict(Q, got)
	if k == 11 {
		vp.Assert(vp.Same(got.At(0, 0), want.At(0, 0)), "decoded prediction")
	} else {
		h.NearMat(got, want, 1e-9, "predictions through the transformer")
	}
}

// HLabels: targets are encoded for the estimator and its predictions decoded.
func HLabels() {
	vals := []float64{vp.FloatIn("a", -5, 5), vp.FloatIn("b", -5, 5)}
	vp.Assume(vals[0] < vals[1])
	X := mat.NewDense(3, 1, []float64{1, 2, 4})
	lab := []int{0, 1, 0}
	Y := mat.NewDense(3, 1, nil)
	for i, l := range lab {
		Y.Set(i, 0, vals[l])
	}
	var t base.Transformer = pp.NewLabelBinarizer(0, 1)
	binary := true
	if vp.Choose("encoder", 2) == 1 {
		t, binary = pp.NewLabelEncoder(), false
	}
	e := &memo{}
	p := pipeline.MakePipeline(t, e)
	p.Fit(X, Y)
	if binary {
		vp.Assert(e.n == 2, "one output per class for the estimator")
	} else {
		vp.Assert(e.n == 1, "one output for the estimator")
	}
	vp.Assert(p.GetNOutputs() == 1, "one output for the pipeline")
	out := mat.NewDense(3, p.GetNOutputs(), nil)
	p.Predict(X, out)
	h.EqMat(out, Y, "remembered classes")
	ret := p.Predict(X, nil)
	h.EqMat(ret, Y, "remembered classes in new storage")
	res := ms.CrossValidate(p, X, Y, nil, func(a, b mat.Matrix) float64 { _, c := b.Dims(); return float64(c) },
		&fixed{ms.Split{TrainIndex: []int{0, 1, 2}, TestIndex: []int{1}}}, 1)
	vp.Eq(res.TestScore[0], 1, "one output in cross validation")
}

type fixed struct{ s ms.Split }

func (f *fixed) Split(X, Y *mat.Dense) chan ms.Split {
	ch := make(chan ms.Split, 1)
	ch <- f.s
	close(ch)
	return ch
}
func (f *fixed) GetNSplits(X, Y *mat.Dense) int { return 1 }
func (f *fixed) SplitterClone() ms.Splitter     { return f }

// memo remembers the targets of its training samples.
type memo struct {
	X, Y *mat.Dense
	n    int
}

func (m *memo) Fit(X, Y mat.Matrix) base.Fiter {
	m.X, m.Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
	_, m.n = Y.Dims()
	return m
}
func (m *memo) GetNOutputs() int { return m.n }
func (m *memo) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	n, _ := X.Dims()
	o := mat.NewDense(n, m.n, nil)
	for i := 0; i < n; i++ {
		for k := 0; k < 3; k++ {
			if m.X.At(k, 0) == X.At(i, 0) {
				o.SetRow(i, m.Y.RawRowView(k))
			}
		}
	}
	return base.FromDense(Y, o)
}
func (m *memo) Score(X, Y mat.Matrix) float64  { return 0 }
func (m *memo) IsClassifier() bool             { return true }
func (m *memo) PredicterClone() base.Predicter { c := *m; return &c }

// HShuffler: shuffled training rows keep their targets, and predictions and scores are in the order of the queries.
func HShuffler() {
	X := h.DenseIn("X", 3, 1, -5, 5)
	vp.Assume(X.At(0, 0) < X.At(1, 0) && X.At(1, 0) < X.At(2, 0))
	Y := h.DenseIn("Y", 3, 1, -5, 5)
	s := pp.NewShuffler()
	s.RandomState = base.NewSource(uint64(vp.Choose("seed", 4)))
	p := pipeline.MakePipeline(s, &memo{})
	p.Fit(X, Y)
	out := mat.NewDense(3, 1, nil)
	p.Predict(X, out)
	h.EqMat(out, Y, "predictions in the order of the queries")
	q := pipeline.MakePipeline(s.TransformerClone(), &pairs{})
	q.Fit(X, Y)
	vp.Eq(q.Score(X, Y), X.At(0, 0)*Y.At(0, 0)+X.At(1, 0)*Y.At(1, 0)+X.At(2, 0)*Y.At(2, 0), "scored with its own target")
}

type pairs struct{ memo }

func (m *pairs) Score(X, Y mat.Matrix) float64 {
	n, _ := X.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		s += X.At(i, 0) * Y.At(i, 0)
	}
	return s
}

// HBadStep: a step that can neither transform nor predict is refused.
func HBadStep() {
	X, Y := mat.NewDense(2, 1, []float64{1, 2}), mat.NewDense(2, 1, []float64{1, 2})
	switch vp.Choose("where", 3) {
	case 0:
		vp.Assert(vp.Panics(func() { pipeline.MakePipeline(fitOnly{}, &lin{}).Fit(X, Y) }), "intermediate step")
	case 1:
		p := pipeline.MakePipeline(&tr{K: 1}, fitOnly{})
		p.Fit(X, Y)
		vp.Assert(vp.Panics(func() { p.Predict(X, mat.NewDense(2, 1, nil)) }), "last step")
		vp.Assert(!p.IsClassifier(), "not a classifier")
	case 2:
		vp.Assert(vp.Panics(func() { pipeline.MakePipeline(fitOnly{}, &lin{}).PredicterClone() }), "clone")
	}
}

type fitOnly struct{}

func (fitOnly) Fit(X, Y mat.Matrix) base.Fiter { return fitOnly{} }

// HLong: five transformers, several columns and outputs, any kind of matrix to predict into.
func HLong() {
	pat := [][]int{{0, 1, 2, 0, 2}, {2, 2, 2, 2, 2}, {1, 0, 0, 2, 0}, {2, 0, 1, 1, 1}}[vp.Choose("pattern", 4)]
	log := new([]int)
	var steps []base.Fiter
	var inv []int
	for i, k := range pat {
		t := tr{K: float64(2 + i), log: log, id: i}
		if k == 2 {
			t.KY = float64(3 + i)
		}
		if k == 0 {
			steps = append(steps, &t)
		} else {
			steps = append(steps, &itr{t})
			inv = append([]int{i}, inv...)
		}
	}
	steps = append(steps, &lin{})
	n, q, outs := 9, 1+6*vp.Choose("queries", 2), 3
	X, xp := h.View(h.Wide("X", n, 4, 2, -5, 5))
	Y, yp := h.View(h.Fixed(n, outs, 3))
	Q, qp := h.View(h.Wide("Q", q, 4, 5, -5, 5))
	kx, ky, kq := h.Copy(X), h.Copy(Y), h.Copy(Q)
	want := byHand(steps, X, Y)
	p := named(steps)
	p.Fit(X, Y)
	x, y := Q, h.Fixed(q, outs, 8)
	for _, t := range want[:len(want)-1] {
		x, y = t.(base.Transformer).Transform(x, y)
	}
	pr := mat.NewDense(q, outs, nil)
	last := want[len(want)-1].(*lin)
	last.Predict(x, pr)
	for i := len(want) - 2; i >= 0; i-- {
		if t := asTr(want[i]); t.KY != 0 {
			for k := 0; k < q; k++ {
				for o := 0; o < outs; o++ {
					pr.Set(k, o, (pr.At(k, o)-t.by)/t.KY)
				}
			}
		}
	}
	*log = nil
	switch vp.Choose("into", 3) {
	case 0:
		h.NearMat(p.Predict(Q, nil), pr, 1e-6, "predictions in new storage")
	case 1:
		out, op := h.View(h.Fixed(q, outs, 9))
		p.Predict(Q, out)
		h.NearMat(out, pr, 1e-6, "predictions in a view")
		h.PadIntact(op, "nothing else is written")
	case 2:
		out := h.Fixed(q, outs, 9)
		h.NearMat(p.Predict(Q, out), pr, 1e-6, "returned predictions")
		h.NearMat(out, pr, 1e-6, "predictions")
	}
	vp.Assert(len(*log) == len(inv), "every inverse once")
	for i, k := range inv {
		vp.Assert((*log)[i] == k, "inverses in reverse order")
	}
	vp.Near(p.Score(Q, h.Fixed(q, outs, 8)), last.Score(x, y), 1e-6, "score")
	vp.Assert(p.GetNOutputs() == outs, "number of outputs")
	for i, s := range steps {
		if i < len(steps)-1 {
			vp.Assert(asTr(s).fits == 1, "every step is fitted once")
		} else {
			vp.Assert(s.(*lin).fits == 1, "the last step is fitted once")
		}
	}
	c := p.PredicterClone().(*pipeline.Pipeline)
	h.NearMat(c.Predict(Q, nil), pr, 1e-6, "a clone predicts as the original")
	c.Fit(h.Fixed(4, 4, 6), h.Fixed(4, 2, 7))
	vp.Assert(c.GetNOutputs() == 2 && p.GetNOutputs() == outs, "each has its number of outputs")
	h.NearMat(p.Predict(Q, nil), pr, 1e-6, "fitting a clone leaves the original alone")
	h.EqMat(X, kx, "training data left alone")
	h.EqMat(Y, ky, "targets left alone")
	h.EqMat(Q, kq, "queries left alone")
	h.PadIntact(xp, "nothing around the data is written")
	h.PadIntact(yp, "nothing around the targets is written")
	h.PadIntact(qp, "nothing around the queries is written")
}
