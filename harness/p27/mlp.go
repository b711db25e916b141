package p27

import (
	"github.com/pa-m/sklearn/base"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

func plain(m *nn.BaseMultilayerPerceptron64) {
	m.MaxIter, m.Shuffle, m.LearningRateInit, m.Momentum, m.NesterovsMomentum = 1, false, 1, 0, false
	m.RandomState = &state{v: quarters[1:]}
}

func raw(d *mat.Dense) nn.General64 { return nn.General64(d.RawMatrix()) }

// HRegressor: MLPRegressor takes a gradient step on the data given, predicts with the result and scores R2.
func HRegressor() {
	outs := 1 + vp.Choose("outputs", 2)
	m := nn.NewMLPRegressor(nil, "relu", "sgd", 0)
	plain(&m.BaseMultilayerPerceptron64)
	binary := vp.Bool("binary")
	x0, y0 := h.Const(2, 1, 1, -1), h.Const(2, outs, []float64{1, 0, 0, 1}[:2*outs]...)
	if !binary {
		y0.Set(0, 0, .5)
	}
	m.Fit(x0, y0)
	vp.Assert(!m.IsClassifier() && m.OutActivation == "identity" && m.LossFuncName == "square_loss" && m.GetNOutputs() == outs, "a regressor stays one, also on targets 0 and 1")
	n := any64(&m.BaseMultilayerPerceptron64, -2, 2)
	m.WarmStart, m.Alpha = true, .5
	m.Shuffle = vp.Bool("shuffle")
	m.RandomState = &state{rotate: 1}
	X, Y := h.MaybeView("X", h.DenseIn("X", 2, 1, -2, 2)), h.MaybeView("Y", h.DenseIn("Y", 2, outs, -2, 2))
	Xc, Yc := h.Copy(X), h.Copy(Y)
	g, _ := n.grad(raw(Xc), raw(Yc), 0, 2, .5)
	n.step(g, 1)
	if vp.Bool("transposed") {
		m.Fit(h.Copy(Xc.T()).T(), h.Copy(Yc.T()).T())
	} else {
		m.Fit(X, Y)
	}
	eq64(params64(&m.BaseMultilayerPerceptron64), n, "MLPRegressor: one step of gradient descent")
	h.EqMat(X, Xc, "Fit leaves X alone")
	h.EqMat(Y, Yc, "Fit leaves Y alone")
	var P *mat.Dense
	dest := vp.Choose("dest", 4)
	xp := h.Const(2, 1, 1, -2)
	switch dest {
	case 0:
		P = m.Predict(xp, nil)
	case 1:
		P = m.Predict(xp, &mat.Dense{})
	case 2:
		P = mat.NewDense(2, outs, nil)
		m.Predict(xp, P)
	case 3:
		v, parent := h.View(mat.NewDense(2, outs, nil))
		P = v
		m.Predict(xp, P)
		h.PadIntact(parent, "Predict writes in Y only")
	}
	r, c := P.Dims()
	vp.Assert(r == 2 && c == outs, "dimensions of predictions")
	for i := 0; i < 2; i++ {
		for k := 0; k < outs; k++ {
			vp.Eq(P.At(i, k), xp.At(i, 0)*n.w[0][0][k]+n.b[0][k], "MLPRegressor prediction")
		}
	}
	vp.Reach("regressor")
}

// HClassifier: MLPClassifier gives back the labels it was fitted on.
func HClassifier() {
	which := vp.Choose("labels", 4)
	labels := [][]float64{{0, 1, 1}, {1, 2, 2}, {3, -1, 7}, {0, 0, 1}}[which]
	classes := [][]float64{{0, 1}, {1, 2}, {-1, 3, 7}, {0, 1}}[which]
	X, Y := h.Const(3, 1, 0, 1, 2), h.Const(3, 1, labels...)
	m := nn.NewMLPClassifier(nil, "relu", []string{"sgd", "adam"}[vp.Choose("solver", 2)], 0)
	plain(&m.BaseMultilayerPerceptron64)
	history := vp.Choose("history", 4)
	m.Shuffle = history == 1
	Xv, Yv := X, Y
	if history == 1 {
		Xv, _ = h.View(X)
	}
	if history == 2 { // what an earlier fit saw is forgotten
		m.Fit(X, h.Const(3, 1, 5, 6, 8))
	}
	if history == 3 {
		m = m.PredicterClone().(*nn.MLPClassifier)
	}
	m.Fit(Xv, Yv)
	h.EqMat(Xv, h.Const(3, 1, 0, 1, 2), "Fit leaves X alone")
	h.EqMat(Yv, h.Const(3, 1, labels...), "Fit leaves Y alone")
	vp.Assert(m.IsClassifier() && m.GetNOutputs() == 1, "one output by label column")
	n := any64(&m.BaseMultilayerPerceptron64, -2, 2)
	x := h.Const(1, 1, []float64{1, -.5}[vp.Choose("x", 2)])
	P := m.Predict(x, nil)
	r, c := P.Dims()
	vp.Assert(r == 1 && c == 1, "dimensions of predictions")
	p := P.At(0, 0)
	z := func(k int) float64 { return x.At(0, 0)*n.w[0][0][k] + n.b[0][k] }
	if which == 0 || which == 3 {
		vp.Assert(vp.Or(vp.And(p == 1, z(0) > 0), vp.And(p == 0, z(0) <= 0)), "the side of the boundary is predicted")
	} else {
		ok := false
		for k, label := range classes {
			top := true
			for q := range classes {
				top = vp.And(top, z(k) >= z(q))
			}
			ok = vp.Or(ok, vp.And(p == label, top))
		}
		vp.Assert(ok, "the label of the most likely class is predicted")
	}
	vp.Eq(m.Score(x, h.Const(1, 1, labels[0])), vp.B2F(p == labels[0]), "accuracy")
	vp.Reach("classifier")
}

// HClone: a clone and its original share nothing that fitting changes.
func HClone() {
	X, Y := h.Const(2, 1, 1, -1), h.Const(2, 1, 1, 0)
	var a, b base.Predicter
	var pa, pb *nn.BaseMultilayerPerceptron64
	if vp.Bool("classifier") {
		m := nn.NewMLPClassifier([]int{1}, "relu", "sgd", 0)
		plain(&m.BaseMultilayerPerceptron64)
		m.Fit(X, Y)
		c := m.PredicterClone().(*nn.MLPClassifier)
		a, b, pa, pb = m, c, &m.BaseMultilayerPerceptron64, &c.BaseMultilayerPerceptron64
	} else {
		m := nn.NewMLPRegressor([]int{1}, "relu", "sgd", 0)
		plain(&m.BaseMultilayerPerceptron64)
		m.Fit(X, Y)
		c := m.PredicterClone().(*nn.MLPRegressor)
		a, b, pa, pb = m, c, &m.BaseMultilayerPerceptron64, &c.BaseMultilayerPerceptron64
	}
	eq64(params64(pb), params64(pa), "a clone has the parameters of its original")
	if vp.Bool("other") {
		a, b, pa, pb = b, a, pb, pa
	}
	n := any64(pa, -2, 2)
	x := h.Const(2, 1, 2, -1)
	want := h.Copy(a.Predict(x, nil))
	losses := append([]float64(nil), pa.LossCurve...)
	pb.WarmStart = vp.Bool("warm")
	pb.LearningRateInit = .5
	pb.MaxIter = 2
	pb.HiddenLayerSizes[0] = 1
	b.Fit(h.Const(2, 1, 3, 4), h.Const(2, 1, 0, 1))
	eq64(params64(pa), n, "fitting one leaves the weights of the other alone")
	h.EqMat(a.Predict(x, nil), want, "fitting one leaves the predictions of the other alone")
	vp.Assert(len(losses) == len(pa.LossCurve) && pa.LearningRateInit == 1 && pa.MaxIter == 1, "settings and history too")
	for i := range losses {
		vp.Eq(pa.LossCurve[i], losses[i], "losses")
	}
	vp.Reach("clone")
}

// HSameData: two networks may be fitted on the same data at the same time.
func HSameData() {
	vp.NativeFloats(true)
	vp.Schedules(1)
	X, Y := h.Const(2, 1, 1, -1), h.Const(2, 1, 1, 0)
	mk := func() base.Predicter {
		if vp.Bool("classifier") {
			m := nn.NewMLPClassifier(nil, "relu", "sgd", 0)
			plain(&m.BaseMultilayerPerceptron64)
			m.Shuffle = true
			return m
		}
		m := nn.NewMLPRegressor(nil, "relu", "sgd", 0)
		plain(&m.BaseMultilayerPerceptron64)
		m.Shuffle = true
		return m
	}
	a, b := mk(), mk()
	done := make(chan bool)
	go func() { a.Fit(X, Y); done <- true }()
	b.Fit(X, Y)
	<-done
	vp.Assert(X.At(0, 0) == 1 && Y.At(0, 0) == 1, "data left in order")
	vp.Reach("both")
}

// HLbfgs: lbfgs ends with weights no worse than those it started from, whose loss is reported.
func HLbfgs() {
	vp.NativeFloats(true)
	m := nn.NewMLPRegressor(hiddens[vp.Choose("hidden", 3)], []string{"identity", "tanh", "relu"}[vp.Choose("activation", 3)], "lbfgs", []float64{0, .5}[vp.Choose("alpha", 2)])
	plain(&m.BaseMultilayerPerceptron64)
	m.MaxIter = []int{2, 7, 30}[vp.Choose("evaluations", 3)]
	X, Y := h.Const(3, 1, 1, -1, 2), h.Const(3, 1, 1, 0, []float64{1, -3}[vp.Choose("y", 2)])
	m.Fit(X, Y)
	vp.Assert(len(m.LossCurve) > 0, "losses are kept")
	n := params64(&m.BaseMultilayerPerceptron64)
	_, loss := n.grad(raw(X), raw(Y), 0, 3, m.Alpha)
	vp.Near(m.Loss, loss, 1e-9, "the loss is that of the weights kept")
	for _, l := range m.LossCurve {
		vp.Assert(m.Loss <= l, "the best weights are kept")
	}
	vp.Near(m.BestLoss, m.Loss, 1e-12, "best loss")
	if len(n.w) == 1 && m.MaxIter == 30 {
		g, _ := n.grad(raw(X), raw(Y), 0, 3, m.Alpha)
		g.each(func(l, j, k int, p *float64) { vp.Near(*p, 0, 1e-2, "a convex problem is solved") })
	}
	vp.Reach("lbfgs")
}
