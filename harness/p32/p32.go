// Package p32: what every estimator of the library promises.
package p32

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/cluster"
	gp "github.com/pa-m/sklearn/gaussian_process"
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/metrics"
	modelselection "github.com/pa-m/sklearn/model_selection"
	nb "github.com/pa-m/sklearn/naive_bayes"
	"github.com/pa-m/sklearn/neighbors"
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/pipeline"
	pp "github.com/pa-m/sklearn/preprocessing"
	"github.com/pa-m/sklearn/svm"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

const estimators = 21

// draws is a random state that restarts with every estimator.
type draws struct{ lcg uint64 }

func (s *draws) Seed(v uint64) { s.lcg = v }
func (s *draws) Uint64() uint64 {
	s.lcg = s.lcg*6364136223846793005 + 1442695040888963407
	return s.lcg
}
func (s *draws) Intn(n int) int   { return int(s.Uint64()>>33) % n }
func (s *draws) Float64() float64 { return float64(s.Uint64()>>33) / (1 << 31) }
func (s *draws) NormFloat64() float64 {
	return s.Float64() + s.Float64() - 1
}

// estimator returns the k-th one, whether it classifies, the outputs it is fitted with and whether its predictions may
// be asked for symbolic queries.
func estimator(k int) (m base.Predicter, classifier bool, outs int, symbolic bool) {
	switch k {
	case 0:
		return linearmodel.NewLinearRegression(), false, 2, true
	case 1:
		return linearmodel.NewRidge(), false, 2, true
	case 2:
		return linearmodel.NewSGDRegressor(), false, 2, true
	case 3:
		e := linearmodel.NewElasticNet()
		e.Alpha, e.MaxIter = .1, 40
		return e, false, 2, true
	case 4:
		e := linearmodel.NewLasso()
		e.Alpha, e.MaxIter = .1, 40
		return e, false, 1, true
	case 5:
		return linearmodel.NewBayesianRidge(), false, 1, true
	case 6:
		e := linearmodel.NewLogisticRegression()
		e.RandomState = &draws{}
		return e, true, 1, false
	case 7:
		return neighbors.NewKNeighborsClassifier(3, "uniform"), true, 2, true
	case 8:
		return neighbors.NewKNeighborsRegressor(2, "uniform"), false, 2, true
	case 9:
		return neighbors.NewNearestCentroid("euclidean", 0), true, 1, true
	case 10:
		return &cluster.KMeans{NClusters: 2}, true, 1, true
	case 11:
		return nb.NewGaussianNB(nil, 1e-9), true, 1, false
	case 12:
		e := svm.NewSVC()
		e.Kernel, e.MaxIter, e.RandomState = "linear", 20, &draws{}
		return e, true, 1, true
	case 13:
		e := svm.NewSVR()
		e.Kernel, e.MaxIter, e.RandomState = "linear", 20, &draws{}
		return e, false, 2, true
	case 14:
		e := nn.NewMLPRegressor([]int{2}, "relu", "adam", 0)
		e.RandomState, e.MaxIter, e.Shuffle = &draws{}, 3, false
		return e, false, 2, true
	case 15:
		e := nn.NewMLPClassifier([]int{2}, "relu", "adam", 0)
		e.RandomState, e.MaxIter, e.Shuffle = &draws{}, 3, false
		return e, true, 1, false
	case 16:
		e := gp.NewRegressor(&kernels.RBF{LengthScale: []float64{1}, LengthScaleBounds: [][2]float64{{1e-5, 1e5}}})
		e.Alpha = []float64{.1}
		return e, false, 2, false
	case 17:
		return pipeline.MakePipeline(pp.NewStandardScaler(), linearmodel.NewLinearRegression()), false, 2, true
	case 18:
		lasso := linearmodel.NewLasso()
		lasso.MaxIter = 40
		return &modelselection.GridSearchCV{Estimator: lasso, ParamGrid: map[string][]interface{}{"alpha": {.1, .2}},
			Scorer: func(t, p mat.Matrix) float64 { return metrics.R2Score(t, p, nil, "").At(0, 0) },
			CV:     &modelselection.KFold{NSplits: 2, RandomState: &draws{}}, NJobs: 1}, false, 1, true
	case 19:
		return &modelselection.GridSearchCV{Estimator: neighbors.NewKNeighborsClassifier(1, "uniform"), ParamGrid: map[string][]interface{}{"K": {1, 3}},
			Scorer: func(t, p mat.Matrix) float64 { return metrics.AccuracyScore(t, p, true, nil) },
			CV:     &modelselection.KFold{NSplits: 2, RandomState: &draws{}}, NJobs: 1}, true, 1, true
	default:
		return cluster.NewDBSCAN(&cluster.DBSCANConfig{Eps: 1.5, MinSamples: 2}), true, 1, false
	}
}

const dbscan = 20

var xs = [][]float64{
	{0, 1, 1, 0, 4, 5, 5, 4, .5, .5, 4.5, 4},
	{3, 0, 2, .5, -1, 4, -2, 5, 2.5, 0, -1.5, 4},
}

// data returns samples, and targets fit for the estimator.
func data(set int, classifier bool, outs int) (X, Y *mat.Dense) {
	X = mat.NewDense(6, 2, append([]float64(nil), xs[set]...))
	Y = mat.NewDense(6, outs, nil)
	for i := 0; i < 6; i++ {
		for o := 0; o < outs; o++ {
			if classifier {
				l := []float64{0, 0, 1, 1, 0, 1}[i]
				if set == 1 {
					l = 1 - l
				}
				if o == 1 {
					l = float64(i % 2)
				}
				Y.Set(i, o, l)
			} else {
				Y.Set(i, o, X.At(i, 0)*2-float64(o+set)*X.At(i, 1)+[]float64{.25, 0, -.5, 1, 0, .125}[i])
			}
		}
	}
	return
}

// cells is a matrix that is neither dense nor raw.
type cells struct {
	r, c int
	v    []float64
}

func newCells(m mat.Matrix) *cells {
	r, c := m.Dims()
	e := &cells{r, c, nil}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			e.v = append(e.v, m.At(i, j))
		}
	}
	return e
}
func (m *cells) Dims() (int, int)        { return m.r, m.c }
func (m *cells) At(i, j int) float64     { return m.v[i*m.c+j] }
func (m *cells) Set(i, j int, v float64) { m.v[i*m.c+j] = v }
func (m *cells) T() mat.Matrix           { return mat.Transpose{Matrix: m} }

// as returns m as the kind of matrix chosen and a function asserting that nothing around it was touched.
func as(name string, m *mat.Dense) (mat.Mutable, func(msg string)) {
	switch vp.Choose(name, 3) {
	case 1:
		v, parent := h.View(m)
		return v, func(msg string) { h.PadIntact(parent, msg) }
	case 2:
		return newCells(m), func(string) {}
	}
	return m, func(string) {}
}

func queries(k, set int, symbolic bool) *mat.Dense {
	if k == dbscan { // predicts the samples it was fitted with
		X, _ := data(set, true, 1)
		return X
	}
	Q := mat.NewDense(3, 2, []float64{0, .5, 4.25, 4, 1.5, 2})
	if symbolic {
		Q.Set(0, 0, vp.FloatIn("q", -4, 8))
	}
	return Q
}

// HPredict: fitting and predicting take and fill any kind of matrix, and change nothing else.
func HPredict() {
	vp.NativeFloats(true)
	vp.CPUs(1)
	k := vp.Choose("estimator", estimators)
	m, classifier, outs, symbolic := estimator(k)
	X, Y := data(0, classifier, outs)
	x, xpad := as("X", h.Copy(X))
	y, ypad := as("Y", h.Copy(Y))
	m.Fit(x, y)
	h.EqMat(x, X, "samples are left alone by Fit")
	h.EqMat(y, Y, "targets are left alone by Fit")
	xpad("nothing around the samples is written")
	ypad("nothing around the targets is written")
	vp.Assert(m.GetNOutputs() == outs, "number of outputs")
	vp.Assert(m.IsClassifier() == classifier, "kind of estimator")
	plain, _, _, _ := estimator(k)
	plain.Fit(X, Y)
	Q := queries(k, 0, symbolic)
	n, _ := Q.Dims()
	want := plain.Predict(h.Copy(Q), nil)
	r, c := want.Dims()
	vp.Assert(r == n && c == outs, "a row by query, a column by output")
	q, qpad := as("Q", h.Copy(Q))
	var got mat.Matrix
	switch vp.Choose("into", 5) {
	case 0:
		got = m.Predict(q, nil)
	case 1:
		e := &mat.Dense{}
		h.NearMat(m.Predict(q, e), want, 1e-9, "predictions returned")
		got = e
	case 2:
		e := h.Dense("old", n, outs)
		h.NearMat(m.Predict(q, e), want, 1e-9, "predictions returned")
		got = e
	case 3:
		e, parent := h.View(h.Dense("old", n, outs))
		h.NearMat(m.Predict(q, e), want, 1e-9, "predictions returned")
		h.PadIntact(parent, "nothing around the predictions is written")
		h.NearMat(parent.Slice(1, n+1, 1, outs+1), want, 1e-9, "the parent of a view is filled")
		got = e
	case 4:
		e := newCells(h.Dense("old", n, outs))
		h.NearMat(m.Predict(q, e), want, 1e-9, "predictions returned")
		got = e
	}
	h.NearMat(got, want, 1e-9, "predictions do not depend on the kind of matrices")
	h.EqMat(q, Q, "queries are left alone")
	qpad("nothing around the queries is written")
	h.EqMat(x, X, "samples are left alone by Predict")
	vp.Reach("predicted")
}

// HRows: each query is predicted on its own, again and again.
func HRows() {
	vp.NativeFloats(true)
	vp.CPUs(1 + vp.Choose("cpus", 2))
	k := vp.Choose("estimator", dbscan)
	m, classifier, outs, symbolic := estimator(k)
	X, Y := data(0, classifier, outs)
	m.Fit(X, Y)
	Q := queries(k, 0, symbolic)
	n, _ := Q.Dims()
	all := h.Copy(m.Predict(Q, nil))
	i := vp.Choose("row", n)
	one := m.Predict(Q.Slice(i, i+1, 0, 2), nil)
	for o := 0; o < outs; o++ {
		vp.Near(one.At(0, o), all.At(i, o), 1e-9, "a query alone and among others")
	}
	h.NearMat(m.Predict(Q, nil), all, 1e-9, "predicting again")
	vp.Reach("rows")
}

// HScore: the score is the accuracy or R2 of the predictions.
func HScore() {
	vp.NativeFloats(true)
	vp.CPUs(1)
	k := vp.Choose("estimator", estimators)
	m, classifier, outs, _ := estimator(k)
	X, Y := data(0, classifier, outs)
	m.Fit(X, Y)
	if k == 10 || k == dbscan {
		vp.Eq(m.Score(X, Y), 1, "clusterings score 1")
		return
	}
	Q := mat.NewDense(3, 2, []float64{0, .5, 4.25, 4, 1.5, 2})
	T := mat.NewDense(3, outs, nil)
	for i := 0; i < 3; i++ {
		for o := 0; o < outs; o++ {
			if classifier {
				T.Set(i, o, float64(vp.Choose("t"+h.Itoa(i)+"_"+h.Itoa(o), 2)))
			} else {
				T.Set(i, o, []float64{1, -2, 7}[(i+o)%3])
			}
		}
	}
	if !classifier {
		T.Set(0, 0, vp.FloatIn("t", -9, 9))
	}
	P := h.Copy(m.Predict(Q, nil))
	T0 := h.Copy(T)
	t, tpad := as("T", T)
	q, _ := as("Q", h.Copy(Q))
	got := m.Score(q, t)
	h.EqMat(t, T0, "targets are left alone by Score")
	tpad("nothing around the targets is written")
	h.EqMat(q, Q, "queries are left alone by Score")
	if classifier {
		right := 0.
		for i := 0; i < 3; i++ {
			ok := true
			for o := 0; o < outs; o++ {
				ok = ok && P.At(i, o) == T0.At(i, o)
			}
			if ok {
				right++
			}
		}
		vp.Near(got, right/3, 1e-9, "fraction of queries predicted right")
	} else {
		want := 0.
		for o := 0; o < outs; o++ {
			mean, num, den := 0., 0., 0.
			for i := 0; i < 3; i++ {
				mean += T0.At(i, o) / 3
			}
			for i := 0; i < 3; i++ {
				num += (T0.At(i, o) - P.At(i, o)) * (T0.At(i, o) - P.At(i, o))
				den += (T0.At(i, o) - mean) * (T0.At(i, o) - mean)
			}
			want += (1 - num/den) / float64(outs)
		}
		vp.Near(got, want, 1e-6, "mean R2 of the outputs")
	}
	h.NearMat(m.Predict(Q, nil), P, 1e-9, "scoring changes nothing")
	vp.Reach("scored")
}

// HClone: a clone predicts as its original and fitting either leaves the other alone; a refit equals a first fit.
func HClone() {
	vp.NativeFloats(true)
	vp.CPUs(1)
	k := vp.Choose("estimator", estimators)
	m, classifier, outs, symbolic := estimator(k)
	X, Y := data(0, classifier, outs)
	X2, Y2 := data(1, classifier, outs)
	Q, Q2 := queries(k, 0, symbolic), queries(k, 1, symbolic)
	early := m.PredicterClone()
	m.Fit(X, Y)
	a := h.Copy(m.Predict(Q, nil))
	X.Set(0, 0, 9)
	Y.Set(0, 0, Y.At(1, 0)+1)
	h.NearMat(m.Predict(Q, nil), a, 1e-9, "the samples belong to the caller")
	X, Y = data(0, classifier, outs)
	c := m.PredicterClone()
	vp.Assert(c.IsClassifier() == classifier, "kind of clone")
	fitted := vp.Choose("fitted clone", 2) == 1
	if fitted {
		h.NearMat(c.Predict(Q, nil), a, 1e-9, "a clone predicts as its original")
	}
	if k == 14 || k == 15 || k == 12 || k == 13 || k == 6 || k == 18 || k == 19 { // the draws of the clone go on
		c.Fit(X2, Y2)
	} else {
		other, _, _, _ := estimator(k)
		other.Fit(X2, Y2)
		b := h.Copy(other.Predict(Q2, nil))
		c.Fit(X2, Y2)
		h.NearMat(c.Predict(Q2, nil), b, 1e-6, "a clone fits as its original")
		early.Fit(X2, Y2)
		h.NearMat(early.Predict(Q2, nil), b, 1e-6, "a clone of an unfitted estimator fits as its original")
		if vp.Choose("refit", 2) == 1 {
			h.NearMat(m.Predict(Q, nil), a, 1e-9, "the original is left alone")
			m.Fit(X2, Y2)
			h.NearMat(m.Predict(Q2, nil), b, 1e-6, "a refit is a fresh fit")
			return
		}
	}
	h.NearMat(m.Predict(Q, nil), a, 1e-9, "the original is left alone")
	vp.Reach("cloned")
}

// HWide: more samples, features and queries.
func HWide() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	k := vp.Choose("estimator", dbscan)
	n, c := 21, 5
	if k == 12 || k == 13 { // support vectors take many steps
		n = 9
	}
	vp.CPUs(1)
	if k > 2 { // gradient descents start many goroutines
		vp.CPUs(1 + 2*vp.Choose("cpus", 2))
	}
	m, classifier, outs, _ := estimator(k)
	X := h.Fixed(n, c, 2)
	Y := mat.NewDense(n, outs, nil)
	for i := 0; i < n; i++ {
		for o := 0; o < outs; o++ {
			if classifier {
				Y.Set(i, o, float64(vp.Conc(int(vp.B2F(X.At(i, o) > X.At(i, o+1))))))
			} else {
				Y.Set(i, o, X.At(i, 0)*2-float64(o)*X.At(i, 1)+X.At(i, 3)*X.At(i, 4)/4)
			}
		}
	}
	kx, ky := h.Copy(X), h.Copy(Y)
	xv, xp := h.View(X)
	yv, yp := h.View(Y)
	m.Fit(xv, yv)
	h.EqMat(xv, kx, "samples are left alone")
	h.EqMat(yv, ky, "targets are left alone")
	h.PadIntact(xp, "nothing around the samples is written")
	h.PadIntact(yp, "nothing around the targets is written")
	plain, _, _, _ := estimator(k)
	plain.Fit(newCells(kx), newCells(ky))
	Q := h.Fixed(17, c, 5)
	kq := h.Copy(Q)
	want := plain.Predict(newCells(Q), nil)
	qv, qp := h.View(Q)
	out, op := h.View(h.Fixed(17, outs, 4))
	m.Predict(qv, out)
	h.NearMat(out, want, 1e-9, "predictions do not depend on the kind of matrices")
	h.PadIntact(op, "nothing around the predictions is written")
	h.EqMat(qv, kq, "queries are left alone")
	h.PadIntact(qp, "nothing around the queries is written")
	i := []int{0, 7, 15, 16}[vp.Choose("row", 4)]
	one := m.Predict(Q.Slice(i, i+1, 0, c), nil)
	some := m.Predict(Q.Slice(0, i+1, 0, c), nil)
	for o := 0; o < outs; o++ {
		vp.Near(one.At(0, o), want.At(i, o), 1e-9, "a query alone and among others")
		vp.Near(some.At(i, o), want.At(i, o), 1e-9, "a query among fewer others")
	}
	cl := m.PredicterClone()
	h.NearMat(cl.Predict(Q, nil), want, 1e-9, "a clone predicts as its original")
	vp.Reach("wide")
}
