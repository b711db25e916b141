// Package p05: classification metrics.
package p05

import (
	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

func column(name string, n int) *mat.Dense {
	d := mat.NewDense(n, 1, nil)
	for i := 0; i < n; i++ {
		d.Set(i, 0, vp.FloatIn(name+"["+h.Itoa(i)+"]", -4, 4))
	}
	return d
}

func weights(n int) []float64 {
	w := make([]float64, n)
	for i := range w {
		w[i] = 1
	}
	return w
}

// HAccuracy: accuracy is the weight of the samples whose outputs all match, optionally over the total weight.
func HAccuracy() {
	n := 1 + vp.Choose("n", 4)
	o := 1 + vp.Choose("outputs", 2)
	y := h.DenseIn("y", n, o, -4, 4)
	p := h.DenseIn("p", n, o, -4, 4)
	if n > 3 {
		n, o = 21, 4*o-1
		y, p = h.Wide("y", n, o, 1, -4, 4), h.Fixed(n, o, 1)
	}
	y, p = h.MaybeView("y", y), h.MaybeView("p", p)
	var w *mat.Dense
	ws := weights(n)
	if vp.Choose("weighted", 2) == 1 {
		w = h.MaybeView("w", h.DenseIn("w", n, 1, .25, 4))
		for i := range ws {
			ws[i] = w.At(i, 0)
		}
	}
	norm := vp.Choose("normalize", 2) == 1
	num, den := 0., 0.
	for i := 0; i < n; i++ {
		eq := true
		for j := 0; j < o; j++ {
			eq = vp.And(eq, y.At(i, j) == p.At(i, j))
		}
		num += vp.IfF(eq, ws[i], 0)
		den += ws[i]
	}
	got := metrics.AccuracyScore(y, p, norm, w)
	if norm {
		vp.Eq(got, num/den, "accuracy")
		vp.Assert(vp.And(got >= 0, got <= 1), "accuracy lies in [0,1]")
	} else {
		vp.Eq(got, num, "accuracy count")
	}
}

type problem struct {
	y, p    *mat.Dense
	w       []float64
	ws      []float64
	classes []float64
	n       int
}

// prob draws labels among arbitrary distinct class values a<b<c; predictions may use classes that are not among the targets.
func prob(symbolicClasses bool) *problem {
	q := &problem{n: 3}
	if vp.Thorough() {
		q.n = 4
	}
	vals := []float64{-1, .5, 2}
	if symbolicClasses {
		a := vp.FloatIn("class0", -5, 5)
		b := a + vp.FloatIn("gap1", 1, 3)
		vals = []float64{a, b, b + 1}
	}
	yi := make([]int, q.n)
	pi := make([]int, q.n)
	used := make([]bool, 3)
	for i := range yi {
		yi[i], pi[i] = vp.Choose("y", 3), vp.Choose("p", 3)
		used[yi[i]], used[pi[i]] = true, true
	}
	q.y, q.p = mat.NewDense(q.n, 1, nil), mat.NewDense(q.n, 1, nil)
	for i := range yi {
		q.y.Set(i, 0, vals[yi[i]])
		q.p.Set(i, 0, vals[pi[i]])
	}
	for k, u := range used {
		if u {
			q.classes = append(q.classes, vals[k])
		}
	}
	q.ws = weights(q.n)
	if vp.Choose("weighted", 2) == 1 {
		q.w = vp.FloatsIn("w", q.n, .25, 4)
		copy(q.ws, q.w)
	}
	return q
}

func (q *problem) cell(a, b float64) float64 {
	s := 0.
	for i := 0; i < q.n; i++ {
		s += vp.IfF(vp.And(q.y.At(i, 0) == a, q.p.At(i, 0) == b), q.ws[i], 0)
	}
	return s
}

// wide is a problem of 23 samples and 5 classes, with one arbitrary label, prediction and weight.
func wide() *problem {
	q := &problem{n: 23, classes: []float64{-3, -1, .5, 2, 10}}
	q.y, q.p = mat.NewDense(q.n, 1, nil), mat.NewDense(q.n, 1, nil)
	at := []int{5, 22}[vp.Choose("at", 2)]
	for i := 0; i < q.n; i++ {
		a, b := (i*i+3*i)%5, (i*i+3*i+(i%3)*(i%4))%5
		if i%5 == 0 {
			a, b = i/5, i/5
		}
		if i == at {
			a, b = vp.Choose("y", 5), vp.Choose("p", 5)
		}
		q.y.Set(i, 0, q.classes[a])
		q.p.Set(i, 0, q.classes[b])
	}
	q.y, q.p = h.MaybeView("y", q.y), h.MaybeView("p", q.p)
	q.ws = weights(q.n)
	if vp.Choose("weighted", 2) == 1 {
		q.w = make([]float64, q.n)
		for i := range q.w {
			q.w[i] = 1 + float64(i%4)/4
		}
		q.w[at] = vp.FloatIn("w", .25, 4)
		copy(q.ws, q.w)
	}
	return q
}

// HConfusionWide: the same with many samples and five classes.
func HConfusionWide() { confusion(wide()) }

// HPRFWide: the same with many samples and five classes.
func HPRFWide() { averages(wide()) }

// HPerClassWide: the same with many samples and five classes.
func HPerClassWide() { perClass(wide()) }

// HConfusion: entry (a,b) of the confusion matrix is the weight of the samples of class a predicted as class b.
func HConfusion() { confusion(prob(true)) }

func confusion(q *problem) {
	cm := metrics.ConfusionMatrix(q.y, q.p, q.w)
	r, c := cm.Dims()
	k := len(q.classes)
	vp.Assert(r == k && c == k, "one row and one column per class, in ascending order")
	for i := 0; i < k; i++ {
		for j := 0; j < k; j++ {
			vp.Eq(cm.At(i, j), q.cell(q.classes[i], q.classes[j]), "confusion matrix entry")
		}
	}
	vp.Reach("done")
}

type prf struct{ p, r, f, s float64 }

func div(a, b float64) float64 {
	if b > 0 {
		return a / b
	}
	return 0
}

func score(tp, pred, tru, beta float64) prf {
	x := prf{p: div(tp, pred), r: div(tp, tru)}
	d := beta*beta*x.p + x.r
	if d > 0 {
		x.f = (1 + beta*beta) * x.p * x.r / d
	}
	return x
}

func (q *problem) perClass(beta float64) []prf {
	var out []prf
	for _, c := range q.classes {
		tp, pred, tru, sup := 0., 0., 0., 0.
		for i := 0; i < q.n; i++ {
			yc, pc := q.y.At(i, 0) == c, q.p.At(i, 0) == c
			tp += vp.IfF(vp.And(yc, pc), q.ws[i], 0)
			pred += vp.IfF(pc, q.ws[i], 0)
			tru += vp.IfF(yc, q.ws[i], 0)
			sup += vp.IfF(yc, 1, 0)
		}
		x := score(tp, pred, tru, beta)
		x.s = tru
		out = append(out, x)
		_ = sup
	}
	return out
}

var betas = []float64{1, .5, 2}

// HPRF: precision, recall and F-beta, averaged over classes as asked.
func HPRF() { averages(prob(false)) }

func averages(q *problem) {
	beta := 1.
	if q.w != nil {
		beta = .5
	}
	per := q.perClass(beta)
	var want prf
	avg := []string{"macro", "weighted", "micro"}[vp.Choose("average", 3)]
	switch avg {
	case "macro":
		for _, x := range per {
			want.p += x.p / float64(len(per))
			want.r += x.r / float64(len(per))
			want.f += x.f / float64(len(per))
		}
	case "weighted":
		t := 0.
		for _, x := range per {
			want.p += x.p * x.s
			want.r += x.r * x.s
			want.f += x.f * x.s
			t += x.s
		}
		want.p /= t
		want.r /= t
		want.f /= t
	case "micro":
		tp, t := 0., 0.
		for i := 0; i < q.n; i++ {
			tp += vp.IfF(q.y.At(i, 0) == q.p.At(i, 0), q.ws[i], 0)
			t += q.ws[i]
		}
		want = score(tp, t, t, beta)
	}
	p, r, f, _ := metrics.PrecisionRecallFScoreSupport(q.y, q.p, beta, nil, -1, avg, nil, q.w)
	vp.Eq(p, want.p, avg+" precision")
	vp.Eq(r, want.r, avg+" recall")
	vp.Eq(f, want.f, avg+" F score")
	vp.Eq(metrics.PrecisionScore(q.y, q.p, avg, q.w), want.p, avg+" precision (shortcut)")
	vp.Eq(metrics.RecallScore(q.y, q.p, avg, q.w), want.r, avg+" recall (shortcut)")
	vp.Eq(metrics.FBetaScore(q.y, q.p, beta, avg, q.w), want.f, avg+" F-beta (shortcut)")
	if beta == 1 {
		vp.Eq(metrics.F1Score(q.y, q.p, avg, q.w), want.f, avg+" F1 (shortcut)")
	}
}

// HPerClass: the figures of a single class.
func HPerClass() { perClass(prob(false)) }

func perClass(q *problem) {
	beta := betas[1+vp.Choose("beta", 2)]
	per := q.perClass(beta)
	k := vp.Choose("class", len(q.classes))
	p, r, f, s := metrics.PrecisionRecallFScoreSupport(q.y, q.p, beta, nil, k, "", nil, q.w)
	vp.Eq(p, per[k].p, "precision of a class")
	vp.Eq(r, per[k].r, "recall of a class")
	vp.Eq(f, per[k].f, "F score of a class")
	n := 0.
	for i := 0; i < q.n; i++ {
		n += vp.IfF(q.y.At(i, 0) == q.classes[k], 1, 0)
	}
	vp.Eq(s, n, "support of a class")
}
