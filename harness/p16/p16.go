// Package p16: cross validation and grid search.
package p16

import (
	"sort"

	"github.com/pa-m/sklearn/base"
	ms "github.com/pa-m/sklearn/model_selection"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"golang.org/x/exp/rand"
	"gonum.org/v1/gonum/mat"
)

// est is an estimator whose fit is a simple function of the training data and its parameters.
type est struct {
	Alpha  float64
	Depth  int
	Kind   string
	Any    interface{}
	table  func(e *est) float64
	a, b   float64
	fitted int
}

func (e *est) Fit(X, Y mat.Matrix) base.Fiter {
	n, _ := X.Dims()
	e.a, e.b = 0, 0
	for i := 0; i < n; i++ {
		e.a += X.At(i, 0)
		e.b += Y.At(i, 0) * float64(i+1)
	}
	e.fitted++
	return e
}
func (e *est) GetNOutputs() int { return 1 }
func (e *est) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
	n, _ := X.Dims()
	for i := 0; i < n; i++ {
		Y.Set(i, 0, e.predict1(X.At(i, 0)))
	}
	return nil
}
func (e *est) predict1(x float64) float64 {
	if e.table != nil {
		return e.table(e)
	}
	return e.a*x + e.b
}
func (e *est) Score(X, Y mat.Matrix) float64  { return e.a + X.At(0, 0) + Y.At(0, 0) }
func (e *est) IsClassifier() bool             { return e.Kind == "classifier" }
func (e *est) PredicterClone() base.Predicter { c := *e; return &c }

// splits is a splitter over given splits.
type splits []ms.Split

func (s splits) Split(X, Y *mat.Dense) chan ms.Split {
	ch := make(chan ms.Split)
	go func() {
		for _, sp := range s {
			ch <- sp
		}
		close(ch)
	}()
	return ch
}
func (s splits) GetNSplits(X, Y *mat.Dense) int { return len(s) }
func (s splits) SplitterClone() ms.Splitter     { return s }

var someSplits = []splits{
	{{TrainIndex: []int{0, 1}, TestIndex: []int{2, 3}}, {TrainIndex: []int{3, 2}, TestIndex: []int{1, 0}}},
	{{TrainIndex: []int{1, 2, 3}, TestIndex: []int{0}}, {TrainIndex: []int{3, 0}, TestIndex: []int{2, 1}}, {TrainIndex: []int{2, 0, 1}, TestIndex: []int{3}}},
	{{TrainIndex: []int{3, 1}, TestIndex: []int{0, 2}}},
}

func score(Ytrue, Ypred mat.Matrix) float64 {
	n, _ := Ytrue.Dims()
	s := 0.
	for i := 0; i < n; i++ {
		s += float64(i+1) * (Ytrue.At(i, 0) - 2*Ypred.At(i, 0))
	}
	return s
}

// wantScore refits by hand.
func wantScore(X, Y *mat.Dense, sp ms.Split) (a, b, sc float64) {
	for i, k := range sp.TrainIndex {
		a += X.At(k, 0)
		b += Y.At(k, 0) * float64(i+1)
	}
	for i, k := range sp.TestIndex {
		sc += float64(i+1) * (Y.At(k, 0) - 2*(a*X.At(k, 0)+b))
	}
	return
}

var jobs = []int{1, 2, 3, -1}

// HCrossValidate: each score is the score on the test part of a clone fitted on the training part.
func HCrossValidate() {
	vp.CPUs(2)
	sps := someSplits[vp.Choose("splits", len(someSplits))]
	X, Y := h.MaybeView("X", h.DenseIn("X", 4, 2, -5, 5)), h.MaybeView("Y", h.DenseIn("Y", 4, 1, -5, 5))
	kx, ky := h.Copy(X), h.Copy(Y)
	e := &est{}
	res := ms.CrossValidate(e, X, Y, nil, score, sps, jobs[vp.Choose("jobs", len(jobs))])
	vp.Assert(len(res.TestScore) == len(sps) && len(res.Estimator) == len(sps) && len(res.FitTime) == len(sps) && len(res.ScoreTime) == len(sps), "one result per split")
	for i, sp := range sps {
		a, b, sc := wantScore(X, Y, sp)
		vp.Eq(res.TestScore[i], sc, "score of the split")
		f := res.Estimator[i].(*est)
		vp.Eq(f.a, a, "estimator fitted on the training part")
		vp.Eq(f.b, b, "estimator fitted on the training targets")
		vp.Assert(f.fitted == 1 && f != e, "a fresh clone per split")
	}
	vp.Assert(e.fitted == 0, "the given estimator is left alone")
	h.EqMat(X, kx, "data left alone")
	h.EqMat(Y, ky, "targets left alone")
}

// HCrossSchedules: the same under all schedules.
func HCrossSchedules() {
	vp.CPUs(2)
	vp.Schedules(1)
	if vp.Thorough() {
		vp.Schedules(2)
	}
	sps := someSplits[vp.Choose("splits", 2)]
	X, Y := mat.NewDense(4, 1, []float64{1, 2, 4, 8}), h.DenseIn("Y", 4, 1, -5, 5)
	res := ms.CrossValidate(&est{}, X, Y, nil, score, sps, 2)
	for i, sp := range sps {
		a, _, sc := wantScore(X, Y, sp)
		vp.Eq(res.TestScore[i], sc, "score of the split")
		vp.Eq(res.Estimator[i].(*est).a, a, "estimator of the split")
	}
}

// HNoSplitter: without a splitter three shuffled folds are used.
func HNoSplitter() {
	vp.CPUs(2)
	X, Y := mat.NewDense(4, 1, []float64{1, 2, 4, 8}), h.DenseIn("Y", 4, 1, -5, 5)
	var cv ms.Splitter
	if vp.Choose("zero", 2) == 1 {
		cv = &ms.KFold{Shuffle: true, RandomState: base.NewLockedSource(3)}
	}
	res := ms.CrossValidate(&est{}, X, Y, nil, score, cv, 1+vp.Choose("jobs", 2))
	vp.Assert(len(res.TestScore) == 3, "three splits")
	for i := range res.TestScore {
		vp.Assert(res.Estimator[i].(*est).fitted == 1, "every estimator is fitted")
	}
}

// HSort: sorting the results puts the best score first and keeps everything aligned.
func HSort() {
	s := vp.FloatsIn("s", 3, -9, 9)
	r := ms.CrossValidateResult{TestScore: append([]float64(nil), s...)}
	for i := range s {
		r.Estimator = append(r.Estimator, &est{Depth: i})
		r.FitTime = append(r.FitTime, 10)
		r.ScoreTime = append(r.ScoreTime, 20)
		r.FitTime[i] += 1
		r.FitTime[i] *= 1
	}
	for i := range s {
		for k := 0; k < i; k++ {
			r.FitTime[i]++
			r.ScoreTime[i]++
		}
	}
	sort.Sort(r)
	seen := make([]bool, 3)
	for i := range s {
		k := r.Estimator[i].(*est).Depth
		vp.Assert(!seen[k], "a permutation")
		seen[k] = true
		vp.Eq(r.TestScore[i], s[k], "scores stay with their estimator")
		vp.Assert(int(r.FitTime[i]) == 11+k && int(r.ScoreTime[i]) == 20+k, "times stay with their estimator")
		if i > 0 {
			vp.Assert(r.TestScore[i] <= r.TestScore[i-1], "best first")
		}
	}
}

// HGrid: the parameter grid is the product of the values.
func HGrid() {
	vp.MapOrders(true)
	na, nb, nc := vp.Choose("na", 3), vp.Choose("nb", 3), vp.Choose("nc", 3)
	grid := map[string][]interface{}{}
	put := func(name string, n int) int {
		if n == 0 {
			return 1
		}
		for i := 0; i < n; i++ {
			grid[name] = append(grid[name], i)
		}
		return n
	}
	total := put("a", na) * put("b", nb) * put("c", nc)
	if vp.Choose("empty", 2) == 1 {
		grid["d"] = nil
		total = 0
	}
	out := ms.ParameterGrid(grid)
	vp.Assert(len(out) == total, "number of combinations")
	seen := map[int]bool{}
	for _, m := range out {
		vp.Assert(len(m) == len(grid), "every parameter is set")
		key := 0
		for _, k := range []string{"a", "b", "c"} {
			key *= 10
			if v, ok := m[k]; ok {
				key += v.(int) + 1
			}
		}
		vp.Assert(!seen[key], "no combination twice")
		seen[key] = true
	}
}

// HGridSearch: the best mean score wins, whatever the number of jobs.
func HGridSearch() {
	vp.CPUs(2)
	lower := vp.Choose("lower", 2) == 1
	nj := jobs[vp.Choose("jobs", 2)]
	sps := someSplits[0]
	X, Y := mat.NewDense(4, 1, []float64{1, 2, 4, 8}), mat.NewDense(4, 1, []float64{1, 0, 1, 0})
	t := make([]float64, 4)
	for i := range t {
		t[i] = vp.FloatIn("t"+h.Itoa(i), -5, 5)
	}
	idx := func(e *est) int {
		i := 0
		if e.Alpha == 2 {
			i = 1
		}
		if e.Kind == "y" {
			i += 2
		}
		return i
	}
	table := func(e *est) float64 { return t[idx(e)] * e.a }
	e := &est{table: table, Alpha: 77, Kind: "none"}
	grid := map[string][]interface{}{"alpha": {1., 2}, "Kind": {"x", "y"}}
	run := func() *ms.GridSearchCV {
		g := &ms.GridSearchCV{Estimator: e, ParamGrid: grid, CV: sps, NJobs: nj, LowerScoreIsBetter: lower,
			Scorer: func(Yt, Yp mat.Matrix) float64 { return Yp.At(0, 0) }}
		g.Fit(X, Y)
		return g
	}
	g := run()
	// mean over the two splits, whose training sums are 3 and 12
	mean := func(i int) float64 { return t[i] * 7.5 }
	best := g.BestEstimator.(*est)
	bi := idx(best)
	vp.Assert((best.Alpha == 1 || best.Alpha == 2) && (best.Kind == "x" || best.Kind == "y"), "parameters are set from the grid")
	vp.Eq(g.BestScore, mean(bi), "best score is the mean score of the best estimator")
	for i := range t {
		if lower {
			vp.Assert(g.BestScore <= mean(i)+1e-9, "no candidate is better")
		} else {
			vp.Assert(g.BestScore >= mean(i)-1e-9, "no candidate is better")
		}
	}
	vp.Assert(len(g.CVResults["score"]) == 4, "one result per candidate")
	seen := make([]bool, 4)
	for i, s := range g.CVResults["score"] {
		f := &est{Kind: g.CVResults["Kind"][i].(string)}
		switch a := g.CVResults["alpha"][i].(type) {
		case float64:
			f.Alpha = a
		case int:
			f.Alpha = float64(a)
		}
		k := idx(f)
		vp.Assert(!seen[k], "every candidate once")
		seen[k] = true
		vp.Eq(s.(float64), mean(k), "score of the candidate")
		if i == g.BestIndex {
			vp.Assert(k == bi, "best index")
		}
	}
	vp.Assert(g.BestParams["Kind"].(string) == best.Kind, "best parameters")
	vp.Assert(best.fitted == 1 && e.fitted == 0 && e.Alpha == 77 && e.Kind == "none", "the given estimator is left alone")
	// delegation
	vp.Assert(g.GetNOutputs() == 1 && !g.IsClassifier(), "number of outputs and kind")
	out := mat.NewDense(1, 1, nil)
	g.Predict(X.Slice(0, 1, 0, 1), out)
	vp.Eq(out.At(0, 0), t[bi]*best.a, "predictions of the best estimator")
	vp.Eq(g.Score(X, Y), best.a+2, "score of the best estimator")
	if lower {
		vp.Assert(best.a == 12 || t[bi]*3 <= t[bi]*12, "the estimator of its best split")
		vp.Assert(best.a == 3 || t[bi]*12 <= t[bi]*3, "the estimator of its best split")
	} else {
		vp.Assert(best.a == 12 || t[bi]*3 >= t[bi]*12, "the estimator of its best split")
		vp.Assert(best.a == 3 || t[bi]*12 >= t[bi]*3, "the estimator of its best split")
	}
	vp.Reach("searched")
}

// HTies: equally good candidates are chosen between in the same way on every run.
func HTies() {
	X, Y := mat.NewDense(4, 1, []float64{1, 2, 4, 8}), mat.NewDense(4, 1, []float64{1, 0, 1, 0})
	lower := vp.Choose("lower", 2) == 1
	t := vp.FloatIn("t", -5, 5)
	var all [2]*ms.GridSearchCV
	for k := range all {
		vp.MapOrders(k == 0)
		// the two mixed combinations are equally good, the two others are worse
		e := &est{table: func(e *est) float64 {
			if (e.Alpha == 2) != (e.Depth == 4) {
				return t
			}
			if lower {
				return t + 1
			}
			return t - 1
		}}
		g := &ms.GridSearchCV{Estimator: e, ParamGrid: map[string][]interface{}{"Alpha": {1., 2.}, "Depth": {3, 4}}, CV: someSplits[2], NJobs: 1, LowerScoreIsBetter: lower,
			Scorer: func(Yt, Yp mat.Matrix) float64 { return Yp.At(0, 0) }}
		g.Fit(X, Y)
		all[k] = g
	}
	a, b := all[0].BestEstimator.(*est), all[1].BestEstimator.(*est)
	vp.Assert(a.Alpha == b.Alpha && a.Depth == b.Depth, "the same choice on every run")
	vp.Assert(all[0].BestIndex == all[1].BestIndex, "the same index on every run")
}

// keeper keeps a reference on its training data.
type keeper struct {
	est
	X, Y mat.Matrix
}

func (k *keeper) Fit(X, Y mat.Matrix) base.Fiter {
	k.X, k.Y = X, Y
	return k.est.Fit(X, Y)
}
func (k *keeper) PredicterClone() base.Predicter { c := *k; return &c }

// HKeepers: an estimator keeps its own training data, whatever is fitted afterwards.
func HKeepers() {
	vp.CPUs(2)
	sps := someSplits[vp.Choose("splits", len(someSplits))]
	if vp.Choose("overlap", 2) == 1 {
		sps = splits{{TrainIndex: []int{0, 1, 1, 2}, TestIndex: []int{2, 3}}, {TrainIndex: []int{3}, TestIndex: []int{0}}}
	}
	X, Y := h.DenseIn("X", 4, 2, -5, 5), h.DenseIn("Y", 4, 1, -5, 5)
	res := ms.CrossValidate(&keeper{}, X, Y, nil, score, sps, jobs[vp.Choose("jobs", len(jobs))])
	for i, sp := range sps {
		k := res.Estimator[i].(*keeper)
		r, c := k.X.Dims()
		vp.Assert(r == len(sp.TrainIndex) && c == 2, "training part")
		for a, s := range sp.TrainIndex {
			vp.Eq(k.X.At(a, 0), X.At(s, 0), "training data kept")
			vp.Eq(k.X.At(a, 1), X.At(s, 1), "training data kept")
			vp.Eq(k.Y.At(a, 0), Y.At(s, 0), "training targets kept")
		}
	}
}

// recorder remembers the training sums it was fitted on.
type recorder struct {
	est
	log *[]float64
}

func (r *recorder) Fit(X, Y mat.Matrix) base.Fiter {
	r.est.Fit(X, Y)
	*r.log = append(*r.log, r.a)
	return r
}
func (r *recorder) PredicterClone() base.Predicter { c := *r; return &c }

// HSameSplits: every candidate is judged on the same splits.
func HSameSplits() {
	X, Y := mat.NewDense(4, 1, []float64{1, 2, 4, 8}), mat.NewDense(4, 1, []float64{1, 0, 1, 0})
	var log []float64
	e := &recorder{log: &log}
	g := &ms.GridSearchCV{Estimator: e, ParamGrid: map[string][]interface{}{"Alpha": {1., 2., 3.}}, NJobs: 1,
		Scorer: func(Yt, Yp mat.Matrix) float64 { return 0 }}
	shuffle := vp.Choose("shuffle", 2) == 1
	switch vp.Choose("source", 4) {
	case 0:
		g.CV = &ms.KFold{NSplits: 2, Shuffle: shuffle, RandomState: base.NewLockedSource(5)}
	case 1:
		g.CV = &ms.KFold{NSplits: 2, Shuffle: shuffle, RandomState: base.NewSource(5)}
	case 2:
		g.CV = &ms.KFold{NSplits: 2, Shuffle: shuffle, RandomState: rand.New(base.NewLockedSource(5))}
	case 3:
		g.RandomState = base.NewSource(5)
	}
	g.Fit(X, Y)
	n := len(log) / 3
	vp.Assert(n*3 == len(log) && n >= 2, "every candidate is fitted on every split")
	for i := range log {
		vp.Eq(log[i], log[i%n], "same training data for every candidate")
	}
}

// HParams: parameters are set by name whatever their case and type.
func HParams() {
	X, Y := mat.NewDense(4, 1, []float64{1, 2, 4, 8}), mat.NewDense(4, 1, []float64{1, 0, 1, 0})
	name := [][]string{{"alpha", "DEPTH"}, {"Alpha", "depth"}, {"ALPHA", "Depth"}}[vp.Choose("names", 3)]
	var av interface{}
	switch vp.Choose("type", 3) {
	case 0:
		av = vp.FloatIn("alpha", -5, 5)
	case 1:
		av = 3
	case 2:
		av = float32(2.5)
	}
	g := &ms.GridSearchCV{Estimator: &est{}, ParamGrid: map[string][]interface{}{name[0]: {av}, name[1]: {4}, "any": {"thing"}}, NJobs: 1,
		CV: someSplits[2], Scorer: func(Yt, Yp mat.Matrix) float64 { return 0 }}
	g.Fit(X, Y)
	b := g.BestEstimator.(*est)
	switch v := av.(type) {
	case float64:
		vp.Eq(b.Alpha, v, "number")
	case int:
		vp.Eq(b.Alpha, 3, "integer for a number")
	case float32:
		vp.Eq(b.Alpha, 2.5, "short number")
	}
	vp.Assert(b.Depth == 4 && b.Any.(string) == "thing", "integers and other values")
	unknown := &ms.GridSearchCV{Estimator: &est{}, ParamGrid: map[string][]interface{}{"nosuch": {1}}, NJobs: 1, CV: someSplits[2]}
	vp.Assert(vp.Panics(func() { unknown.Fit(X, Y) }), "unknown parameters are refused")
}

// manySplits are eleven splits of thirteen samples.
func manySplits() (s splits) {
	for k := 0; k < 11; k++ {
		var sp ms.Split
		for i := 0; i < 13; i++ {
			if (i*i+k)%(3+k%4) == 0 {
				sp.TestIndex = append(sp.TestIndex, i)
			} else {
				sp.TrainIndex = append([]int{i}, sp.TrainIndex...)
			}
		}
		if len(sp.TestIndex) > 0 {
			s = append(s, sp)
		}
	}
	return
}

// HCrossWide: more splits than workers.
func HCrossWide() {
	vp.CPUs(1 + vp.Choose("cpus", 4))
	sps := manySplits()
	X, Y := h.Wide("x", 13, 2, 1, -5, 5), h.Fixed(13, 1, 2)
	e := &keeper{}
	res := ms.CrossValidate(e, X, Y, nil, score, sps, []int{1, 2, 3, 4, -1, 20}[vp.Choose("jobs", 6)])
	vp.Assert(len(res.TestScore) == len(sps) && len(res.Estimator) == len(sps), "one result per split")
	for i, sp := range sps {
		a, b, sc := wantScore(X, Y, sp)
		vp.Eq(res.TestScore[i], sc, "score of the split")
		f := res.Estimator[i].(*keeper)
		vp.Eq(f.a, a, "estimator fitted on the training part")
		vp.Eq(f.b, b, "estimator fitted on the training targets")
		r, _ := f.X.Dims()
		vp.Assert(r == len(sp.TrainIndex), "training part")
		for k, s := range sp.TrainIndex {
			vp.Eq(f.X.At(k, 1), X.At(s, 1), "training data kept")
		}
	}
}

// HSearchWide: more candidates and splits than workers.
func HSearchWide() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	all := manySplits()
	sps := append(append(splits(nil), all[vp.Choose("from", 3):]...), all...)[:5]
	X, Y := h.Fixed(13, 1, 1), h.Fixed(13, 1, 2)
	lower := vp.Choose("lower", 2) == 1
	v := vp.FloatIn("v", -9, 9)
	at := vp.Choose("at", 3) * 6
	val := func(e *est) float64 {
		k := int(e.Alpha)*4 + e.Depth
		if k == at {
			return v
		}
		return float64((k*k*3+k*5)%17) - 8
	}
	mean := func(e *est) (s float64) {
		for _, sp := range sps {
			a := 0.
			for _, i := range sp.TrainIndex {
				a += X.At(i, 0)
			}
			s += (val(e) + a) / 5
		}
		return
	}
	g := &ms.GridSearchCV{Estimator: &est{table: func(e *est) float64 { return val(e) + e.a }}, LowerScoreIsBetter: lower, CV: sps,
		ParamGrid: map[string][]interface{}{"Alpha": {0., 1., 2., 3.}, "Depth": {0, 1, 2, 3}}, NJobs: []int{1, 2, -1}[vp.Choose("jobs", 3)],
		Scorer: func(Yt, Yp mat.Matrix) float64 { return Yp.At(0, 0) }}
	g.Fit(X, Y)
	b := g.BestEstimator.(*est)
	vp.Near(g.BestScore, mean(b), 1e-9, "best score is the mean score of the best estimator")
	vp.Assert(len(g.CVResults["score"]) == 16, "one result per candidate")
	for i, s := range g.CVResults["score"] {
		e := &est{Alpha: g.CVResults["Alpha"][i].(float64), Depth: g.CVResults["Depth"][i].(int)}
		vp.Near(s.(float64), mean(e), 1e-9, "score of the candidate")
		vp.Assert(i != g.BestIndex || e.Alpha == b.Alpha && e.Depth == b.Depth, "best index")
		if lower {
			vp.Assert(g.BestScore <= mean(e)+1e-9, "no candidate is better")
		} else {
			vp.Assert(g.BestScore >= mean(e)-1e-9, "no candidate is better")
		}
	}
	vp.Assert(g.BestParams["Alpha"].(float64) == b.Alpha && g.BestParams["Depth"].(int) == b.Depth, "best parameters")
	vp.Assert(b.fitted == 1, "a fresh clone")
	for _, sp := range sps {
		a := 0.
		for _, i := range sp.TrainIndex {
			a += X.At(i, 0)
		}
		if lower {
			vp.Assert(b.a <= a+1e-9, "the estimator of its best split")
		} else {
			vp.Assert(b.a >= a-1e-9, "the estimator of its best split")
		}
	}
}
