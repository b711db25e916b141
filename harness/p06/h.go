// Package p06: ranking metrics.
package p06

import (
	"github.com/pa-m/sklearn/metrics"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

type problem struct {
	n      int
	y, s   *mat.Dense
	pos    []bool
	score  []float64
	w, ws  []float64
	wp, wn float64
}

func prob(n int, both bool) *problem {
	q := &problem{n: n, ws: make([]float64, n)}
	y := mat.NewDense(n, 1, nil)
	s := mat.NewDense(n, 1, nil)
	for i := range q.ws {
		q.ws[i] = 1
	}
	if vp.Choose("weighted", 2) == 1 {
		q.w = vp.FloatsIn("w", n, .25, 4)
		copy(q.ws, q.w)
	}
	for i := 0; i < n; i++ {
		p := vp.Choose("label", 2) == 1
		q.pos = append(q.pos, p)
		y.Set(i, 0, vp.B2F(p))
		sc := vp.FloatIn("score", 0, 1)
		q.score = append(q.score, sc)
		s.Set(i, 0, sc)
		if p {
			q.wp += q.ws[i]
		} else {
			q.wn += q.ws[i]
		}
	}
	q.y, q.s = h.MaybeView("y", y), h.MaybeView("s", s)
	if both {
		np := 0
		for _, p := range q.pos {
			if p {
				np++
			}
		}
		vp.Assume(np > 0 && np < n)
	}
	return q
}

// wide is a problem of 13 samples with ties, one arbitrary score and one arbitrary weight.
func wide() *problem {
	n := 13
	q := &problem{n: n, ws: make([]float64, n)}
	y := mat.NewDense(n, 1, nil)
	s := mat.NewDense(n, 1, nil)
	for i := range q.ws {
		q.ws[i] = 1
	}
	at := []int{4, 12}[vp.Choose("at", 2)]
	if vp.Choose("weighted", 2) == 1 {
		q.w = make([]float64, n)
		for i := range q.w {
			q.w[i] = 1 + float64(i%4)/4
		}
		q.w[at] = vp.FloatIn("w", .25, 4)
		copy(q.ws, q.w)
	}
	for i := 0; i < n; i++ {
		p := (i*i+i/3)%5 < 2
		sc := float64((i*5)%9) / 8
		if i == at {
			p = vp.Choose("label", 2) == 1
			sc = vp.FloatIn("score", 0, 1)
		}
		q.pos = append(q.pos, p)
		y.Set(i, 0, vp.B2F(p))
		q.score = append(q.score, sc)
		s.Set(i, 0, sc)
		if p {
			q.wp += q.ws[i]
		} else {
			q.wn += q.ws[i]
		}
	}
	q.y, q.s = h.MaybeView("y", y), h.MaybeView("s", s)
	return q
}

// HROCWide: the same with many samples.
func HROCWide() { roc(wide()) }

// HAUCWide: the same with many samples.
func HAUCWide() { auc(wide()) }

// HPRWide: the same with many samples.
func HPRWide() { pr(wide()) }

// HAPWide: the same with many samples.
func HAPWide() { ap(wide()) }

func (q *problem) above(t float64) (tp, fp float64) {
	for i := 0; i < q.n; i++ {
		v := vp.IfF(q.score[i] >= t, q.ws[i], 0)
		if q.pos[i] {
			tp += v
		} else {
			fp += v
		}
	}
	return
}

// checkCurve asserts that thresholds are strictly decreasing and exactly the distinct scores.
func (q *problem) thresholds(ths []float64, msg string) {
	for k := 1; k < len(ths); k++ {
		vp.Assert(ths[k-1] > ths[k], msg+": thresholds strictly decrease")
	}
	for i := 0; i < q.n; i++ {
		in := false
		for _, t := range ths {
			in = vp.Or(in, t == q.score[i])
		}
		vp.Assert(in, msg+": every score is a threshold")
	}
}

// HROC: every point of the ROC curve holds the rates of samples scored at least the threshold.
func HROC() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	roc(prob(n, true))
}

func roc(q *problem) {
	fpr, tpr, ths := metrics.ROCCurve(q.y, q.s, 1, q.w)
	vp.Assert(len(fpr) == len(ths) && len(tpr) == len(ths), "one point per threshold")
	q.thresholds(ths, "ROC")
	for k := range ths {
		tp, fp := q.above(ths[k])
		vp.Eq(fpr[k], fp/q.wn, "false positive rate at a threshold")
		vp.Eq(tpr[k], tp/q.wp, "true positive rate at a threshold")
	}
	vp.Eq(fpr[0], 0, "the curve starts without false positives")
	vp.Eq(fpr[len(fpr)-1], 1, "the curve ends with all negatives")
	vp.Eq(tpr[len(tpr)-1], 1, "the curve ends with all positives")
}

func (q *problem) auc() float64 {
	s := 0.
	for i := 0; i < q.n; i++ {
		for j := 0; j < q.n; j++ {
			if q.pos[i] && !q.pos[j] {
				s += q.ws[i] * q.ws[j] * vp.IfF(q.score[i] > q.score[j], 1, vp.IfF(q.score[i] == q.score[j], .5, 0))
			}
		}
	}
	return s / (q.wp * q.wn)
}

// HAUC: the area under the ROC curve is the (weighted) probability that a positive outranks a negative.
func HAUC() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	auc(prob(n, true))
}

func auc(q *problem) {
	got := metrics.ROCAUCScore(q.y, q.s, "", q.w)
	vp.Eq(got, q.auc(), "area under the ROC curve")
	vp.Assert(vp.And(got >= 0, got <= 1), "the area lies in [0,1]")
}

// HTrapezoid: the area of a curve that starts at the origin is the trapezoid sum.
func HTrapezoid() {
	n := 2 + vp.Choose("n", 3)
	x := make([]float64, n)
	y := vp.FloatsIn("y", n, 0, 1)
	want, px, py := 0., 0., 0.
	for i := range x {
		x[i] = px + vp.FloatIn("dx", 0, 1)
		want += (x[i] - px) * (y[i] + py) / 2
		px, py = x[i], y[i]
	}
	vp.Eq(metrics.AUC(x, y), want, "trapezoid area")
}

// HPR: every point of the precision-recall curve holds the figures of samples scored at least the threshold.
func HPR() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	q := prob(n, false)
	np := 0
	for _, p := range q.pos {
		if p {
			np++
		}
	}
	vp.Assume(np > 0)
	pr(q)
}

func pr(q *problem) {
	prec, rc, ths := metrics.PrecisionRecallCurve(q.y, q.s, 1, q.w)
	vp.Assert(len(prec) == len(ths)+1 && len(rc) == len(ths)+1, "one point per threshold and a final one")
	for k := range ths {
		tp, fp := q.above(ths[k])
		vp.Eq(prec[k], tp/(tp+fp), "precision at a threshold")
		vp.Eq(rc[k], tp/q.wp, "recall at a threshold")
		if k > 0 {
			vp.Assert(ths[k-1] < ths[k], "precision-recall thresholds increase")
		}
	}
	vp.Eq(prec[len(ths)], 1, "final precision")
	vp.Eq(rc[len(ths)], 0, "final recall")
	vp.Eq(rc[0], 1, "the curve starts at full recall")
	// every score above the first threshold is present
	for i := 0; i < q.n; i++ {
		in := q.score[i] < ths[0]
		for _, t := range ths {
			in = vp.Or(in, t == q.score[i])
		}
		vp.Assert(in, "every score above the full-recall threshold is a threshold")
	}
}

// HAP: average precision is the precision summed over the recall gained at every distinct score.
func HAP() {
	ap(prob(3, true))
}

func ap(q *problem) {
	got := metrics.AveragePrecisionScore(q.y, q.s, "", q.w)
	// Σ over positives of w·precision(score)/W
	want := 0.
	for i := 0; i < q.n; i++ {
		if q.pos[i] {
			tp, fp := q.above(q.score[i])
			want += q.ws[i] * tp / (tp + fp) / q.wp
		}
	}
	vp.Eq(got, want, "average precision")
}

// HMulti: multilabel averaging.
func HMulti() {
	n, o := 2, 2
	y := mat.NewDense(n, o, nil)
	s := mat.NewDense(n, o, nil)
	w := []float64(nil)
	ws := []float64{1, 1}
	if vp.Choose("weighted", 2) == 1 {
		w = vp.FloatsIn("w", n, .25, 4)
		ws = w
	}
	for j := 0; j < o; j++ {
		a := vp.Choose("label", 2)
		y.Set(0, j, float64(a))
		y.Set(1, j, float64(1-a))
		for i := 0; i < n; i++ {
			s.Set(i, j, vp.FloatIn("score", 0, 1))
		}
	}
	pairs := func(rows, cols []int, wt func(i int) float64) float64 {
		num, wp, wn := 0., 0., 0.
		for _, i := range rows {
			for _, j := range cols {
				if y.At(i, j) == 1 {
					wp += wt(i)
					for _, k := range rows {
						for _, l := range cols {
							if y.At(k, l) == 0 {
								num += wt(i) * wt(k) * vp.IfF(s.At(i, j) > s.At(k, l), 1, vp.IfF(s.At(i, j) == s.At(k, l), .5, 0))
							}
						}
					}
				} else {
					wn += wt(i)
				}
			}
		}
		return num / (wp * wn)
	}
	wt := func(i int) float64 { return ws[i] }
	one := func(int) float64 { return 1 }
	all := []int{0, 1}
	switch vp.Choose("average", 4) {
	case 0:
		vp.Eq(metrics.ROCAUCScore(y, s, "macro", w), (pairs(all, []int{0}, wt)+pairs(all, []int{1}, wt))/2, "macro average")
	case 1:
		vp.Eq(metrics.ROCAUCScore(y, s, "micro", w), pairs(all, all, wt), "micro average")
	case 2:
		a0, a1 := 0., 0.
		for i := 0; i < n; i++ {
			a0 += y.At(i, 0) * ws[i]
			a1 += y.At(i, 1) * ws[i]
		}
		vp.Eq(metrics.ROCAUCScore(y, s, "weighted", w), (a0*pairs(all, []int{0}, wt)+a1*pairs(all, []int{1}, wt))/(a0+a1), "weighted average")
	case 3:
		vp.Assume(y.At(0, 0) != y.At(0, 1)) // both labels in every sample
		vp.Eq(metrics.ROCAUCScore(y, s, "samples", w), (ws[0]*pairs([]int{0}, all, one)+ws[1]*pairs([]int{1}, all, one))/(ws[0]+ws[1]), "samples average")
	}
}
