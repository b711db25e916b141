// Package p22: losses, their gradients and the regressions fitted by minimising them.
package p22

import (
	"math"

	"github.com/pa-m/sklearn/base"
	linearmodel "github.com/pa-m/sklearn/linear_model"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/gonum/optimize"
)

// inverse is the activation 1/(1-x), whose derivative is y²: an activation of the user's own.
type inverse struct{}

func (inverse) F(x float64) float64      { return 1 / (1 - x) }
func (inverse) Fprime(y float64) float64 { return y * y }

// penalty is the value and gradient of Alpha*(L1Ratio*L1+(1-L1Ratio)*L2) over the regularized features, where L1 sums
// the norms of the rows and L2 the squares.
func penalty(t *mat.Dense, alpha, ratio float64, skip bool) (float64, *mat.Dense) {
	p, no := t.Dims()
	v, g := 0., mat.NewDense(p, no, nil)
	for j := 0; j < p; j++ {
		if skip && j == 0 {
			continue
		}
		ss := 0.
		for o := 0; o < no; o++ {
			ss += t.At(j, o) * t.At(j, o)
		}
		norm := math.Sqrt(ss)
		v += alpha * (ratio*norm + (1-ratio)*ss)
		for o := 0; o < no; o++ {
			d := alpha * (1 - ratio) * 2 * t.At(j, o)
			if ratio > 0 && norm > 0 {
				d += alpha * ratio * t.At(j, o) / norm
			}
			g.Set(j, o, d)
		}
	}
	return v, g
}

type lossCase struct {
	X, Y, T   *mat.Dense
	n, p, no  int
	alpha     float64
	ratio     float64
	skip      bool
	nSamples  int
	withGrad  bool
	J         float64
	grad      *mat.Dense
	pred, dif *mat.Dense
}

func newCase(lo, hi float64, ratios int) *lossCase {
	c := &lossCase{n: 2, p: 2, no: 1 + vp.Choose("outputs", 2)}
	c.X, c.T = h.Const(c.n, c.p, 1, 2, 0.5, -1), h.DenseIn("t", c.p, c.no, lo, hi)
	if vp.Choose("free", 2) == 1 {
		c.p = 1
		c.X, c.T = h.DenseIn("x", c.n, 1, -2, 2), h.DenseIn("t", 1, c.no, lo, hi)
	}
	c.Y = h.DenseIn("y", c.n, c.no, 0, 1)
	c.alpha = []float64{0, 0.5, 3}[vp.Choose("alpha", 3)]
	if c.alpha != 0 {
		c.ratio = []float64{0, 1, 0.25}[vp.Choose("ratio", ratios)]
		c.skip = vp.Choose("skip", 2) == 1
	}
	c.nSamples = c.n + 3*vp.Choose("minibatch", 2)
	c.withGrad = vp.Choose("gradient", 2) == 1
	return c
}

func (c *lossCase) run(l linearmodel.Loss, a base.Activation) {
	c.pred, c.dif = mat.NewDense(c.n, c.no, nil), mat.NewDense(c.n, c.no, nil)
	if c.withGrad {
		c.grad = h.Const(c.p, c.no, make([]float64, c.p*c.no)...)
		c.grad.Set(0, 0, 99) // whatever was there
	}
	x0, y0, t0 := h.Copy(c.X), h.Copy(c.Y), h.Copy(c.T)
	c.J = l(c.Y, c.X, h.MaybeView("T", c.T), c.pred, c.dif, c.grad, c.alpha, c.ratio, c.nSamples, a, c.skip)
	h.EqMat(c.X, x0, "X left alone")
	h.EqMat(c.Y, y0, "Y left alone")
	h.EqMat(c.T, t0, "Theta left alone")
}

func (c *lossCase) z(i, o int) float64 {
	z := 0.
	for j := 0; j < c.p; j++ {
		z += c.X.At(i, j) * c.T.At(j, o)
	}
	return z
}

// HSquare: half the mean squared error plus half the penalty per sample.
func HSquare() {
	c := newCase(-2, 2, 3)
	k := vp.Choose("activation", 2)
	if c.no == 2 && c.ratio > 0 && c.alpha > 1 {
		return
	}
	a := []base.Activation{base.Identity{}, base.ReLU{}}[k]
	c.run(linearmodel.SquareLoss, a)
	c.square(a)
}

// wideCase is a loss over more samples, features and outputs.
func wideCase() *lossCase {
	c := &lossCase{n: 11, p: 4, no: 3, withGrad: true, skip: vp.Choose("skip", 2) == 1}
	c.X, c.T, c.Y = h.Fixed(c.n, c.p, 1), h.Fixed(c.p, c.no, 2), h.Fixed(c.n, c.no, 3)
	v := vp.FloatIn("v", -2, 2)
	switch vp.Choose("at", 3) {
	case 0:
		c.X.Set(c.n-1, c.p-1, v)
	case 1:
		c.T.Set(c.p-1, c.no-1, v)
	default:
		c.Y.Set(c.n-1, c.no-1, v)
	}
	c.alpha = []float64{0, 3}[vp.Choose("alpha", 2)]
	c.ratio = []float64{0, 0.25}[vp.Choose("ratio", 2)]
	c.nSamples = c.n + 30*vp.Choose("minibatch", 2)
	return c
}

// HSquareWide: more samples, features and outputs.
func HSquareWide() {
	vp.NativeFloats(true)
	c := wideCase()
	a := []base.Activation{base.Identity{}, base.ReLU{}}[vp.Choose("activation", 2)]
	c.run(linearmodel.SquareLoss, a)
	c.square(a)
}

// HSquareOwn: an activation of the user's own.
func HSquareOwn() {
	c := newCase(-0.2, 0.2, 1)
	for i := 0; i < c.n; i++ {
		for o := 0; o < c.no; o++ {
			vp.Assume(c.z(i, o) < 0.9)
		}
	}
	c.run(linearmodel.SquareLoss, inverse{})
	c.square(inverse{})
}

func (c *lossCase) square(a base.Activation) {
	pen, pg := penalty(c.T, c.alpha, c.ratio, c.skip)
	sse := 0.
	g := mat.NewDense(c.p, c.no, nil)
	for i := 0; i < c.n; i++ {
		for o := 0; o < c.no; o++ {
			f := a.F(c.z(i, o))
			vp.Near(c.pred.At(i, o), f, 1e-9, "predictions")
			d := f - c.Y.At(i, o)
			sse += d * d
			for j := 0; j < c.p; j++ {
				g.Set(j, o, g.At(j, o)+d*a.Fprime(f)*c.X.At(i, j))
			}
		}
	}
	ns := float64(c.nSamples)
	vp.Near(c.J, (sse+pen)/2/ns, 1e-6, "J")
	if c.withGrad {
		for j := 0; j < c.p; j++ {
			for o := 0; o < c.no; o++ {
				vp.Near(c.grad.At(j, o), (g.At(j, o)+pg.At(j, o)/2)/ns, 1e-6, "gradient of J")
			}
		}
	}
}

// HLog: the mean of -y log(h) plus the penalty per sample.
func HLog() { classification(false) }

// HCrossEntropy: the mean of -y log(h)-(1-y) log(1-h) plus the penalty per sample.
func HCrossEntropy() { classification(true) }

func classification(cross bool) {
	c := &lossCase{n: 2, p: 1 + vp.Choose("features", 2), no: 1}
	c.X = h.Const(c.n, c.p, []float64{1, 2, 0.5, -1}[:c.n*c.p]...)
	c.T = h.DenseIn("t", c.p, c.no, -2, 2)
	c.Y = h.DenseIn("y", c.n, c.no, 0, 1)
	c.alpha = []float64{0, 3}[vp.Choose("alpha", 2)]
	if c.alpha != 0 {
		c.ratio = []float64{0, 1, 0.25}[vp.Choose("ratio", 3)]
		c.skip = vp.Choose("skip", 2) == 1
	}
	c.nSamples = c.n + 3*vp.Choose("minibatch", 2)
	c.withGrad = true
	if vp.Choose("labels", 2) == 1 {
		c.Y = h.Labels("label", c.n, c.no, 0, 1)
	}
	a := []base.Activation{base.Logistic{}, base.Identity{}}[vp.Choose("activation", 2)]
	if _, ok := a.(base.Identity); ok {
		for i := 0; i < c.n; i++ {
			vp.Assume(c.z(i, 0) > 0.01 && c.z(i, 0) < 0.99)
		}
	}
	l := linearmodel.LogLoss
	if cross {
		l = linearmodel.CrossEntropyLoss
	}
	c.run(l, a)
	pen, pg := penalty(c.T, c.alpha, c.ratio, c.skip)
	if cross { // the squares count half there
		pen, pg = 0, mat.NewDense(c.p, 1, nil)
		for j := 0; j < c.p; j++ {
			if j == 0 && c.skip {
				continue
			}
			t := c.T.At(j, 0)
			pen += c.alpha * (c.ratio*math.Abs(t) + (1-c.ratio)*t*t/2)
			s := 0.
			if t > 0 {
				s = 1
			} else if t < 0 {
				s = -1
			}
			pg.Set(j, 0, c.alpha*(c.ratio*s+(1-c.ratio)*t))
		}
	}
	J := 0.
	g := make([]float64, c.p)
	for i := 0; i < c.n; i++ {
		f := c.pred.At(i, 0)
		y := c.Y.At(i, 0)
		J += -y * math.Log(f)
		d := -y / f
		if cross {
			J += -(1 - y) * math.Log1p(-f)
			d += (1 - y) / (1 - f)
		}
		d *= a.Fprime(f)
		if _, ok := a.(base.Logistic); ok && cross {
			d = f - y // what the above comes to
		}
		for j := 0; j < c.p; j++ {
			g[j] += d * c.X.At(i, j)
		}
		vp.Near(f, a.F(c.z(i, 0)), 1e-9, "predictions")
	}
	ns := float64(c.nSamples)
	vp.Near(c.J, (J+pen)/ns, 1e-6, "J")
	for j := 0; j < c.p; j++ {
		vp.Near(c.grad.At(j, 0), (g[j]+pg.At(j, 0))/ns, 1e-6, "gradient of J")
	}
}

// probe is an optimizer looking at the objective at chosen places; it ends at the last one.
type probe struct {
	at   [][]float64
	F    []float64
	G    [][]float64
	next func(m *probe) []float64
}

func (m *probe) Init(dim, tasks int) int { return 1 }
func (m *probe) Uses(has optimize.Available) (optimize.Available, error) {
	return optimize.Available{Grad: true}, nil
}
func (m *probe) Status() (optimize.Status, error) { return optimize.MethodConverge, nil }
func (m *probe) Run(operation chan<- optimize.Task, result <-chan optimize.Task, tasks []optimize.Task) {
	task := tasks[0]
	at := m.at
	if m.next != nil {
		at = append(append([][]float64(nil), at...), nil)
	}
	for _, x := range at {
		if x == nil {
			x = m.next(m)
		}
		task.X = append(task.X[:0], x...)
		task.Op = optimize.FuncEvaluation | optimize.GradEvaluation
		operation <- task
		task = <-result
		m.F = append(m.F, task.F)
		m.G = append(m.G, append([]float64(nil), task.Gradient...))
	}
	task.Op = optimize.MajorIteration
	operation <- task
	task = <-result
	if task.Op != optimize.PostIteration {
		task.Op = optimize.MethodDone
		operation <- task
	}
	for range result {
	}
	close(operation)
}

// samples are the samples and targets of the fits.
func samples() (X, Y *mat.Dense, p int) {
	n := 3
	if p = 1 + vp.Choose("features", 3); p == 3 {
		n, p = 13, 4
		return h.Fixed(n, p, 1), h.Wide("y", n, 1, 2, -3, 3), p
	}
	return h.Const(n, p, []float64{1, 2, -1, 0.5, 3, 1}[:n*p]...), h.DenseIn("y", n, 1, -3, 3), p
}

// place is where the objective is evaluated.
func place(p int) []float64 {
	if p > 2 {
		return append([]float64{2, -0.5, 0}, vp.FloatsIn("at", p-3, -3, 3)...)
	}
	return vp.FloatsIn("at", p, -3, 3)
}

// HSGD: what SGDRegressor minimises is its loss, and what it passes as gradient is the gradient of that.
func HSGD() {
	X, Y, p := samples()
	m := linearmodel.NewSGDRegressor()
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	m.Alpha = []float64{0, 2}[vp.Choose("alpha", 2)]
	m.L1Ratio = []float64{0, 0.25, 1}[vp.Choose("ratio", 3)]
	at := place(p)
	pr := &probe{at: [][]float64{at}}
	m.Method = pr
	m.Fit(X, Y)
	objective(m.LinearModel, X, Y, at, pr, m.Alpha*m.L1Ratio/2, m.Alpha*(1-m.L1Ratio)/2)
}

// objective checks value, gradient and the resulting model of a probe of half the mean squared error plus l1*|c|+l2*c²
// per sample.
func objective(m linearmodel.LinearModel, X, Y *mat.Dense, at []float64, pr *probe, l1, l2 float64) {
	n, p := X.Dims()
	mx, my := make([]float64, p), 0.
	if m.FitIntercept {
		for i := 0; i < n; i++ {
			for j := 0; j < p; j++ {
				mx[j] += X.At(i, j) / float64(n)
			}
			my += Y.At(i, 0) / float64(n)
		}
	}
	f, g := 0., make([]float64, p)
	for i := 0; i < n; i++ {
		r := -(Y.At(i, 0) - my)
		for j := 0; j < p; j++ {
			r += (X.At(i, j) - mx[j]) * at[j]
		}
		f += r * r / 2
		for j := 0; j < p; j++ {
			g[j] += r * (X.At(i, j) - mx[j])
		}
	}
	for j := 0; j < p; j++ {
		f += l1*math.Abs(at[j]) + l2*at[j]*at[j]
		s := 0.
		if at[j] > 0 {
			s = 1
		} else if at[j] < 0 {
			s = -1
		}
		g[j] += l1*s + 2*l2*at[j]
	}
	vp.Assert(len(pr.F) == 1, "evaluated once")
	vp.Near(pr.F[0], f/float64(n), 1e-6, "objective")
	b := my
	for j := 0; j < p; j++ {
		vp.Near(pr.G[0][j], g[j]/float64(n), 1e-6, "gradient of the objective")
		vp.Near(m.Coef.At(j, 0), at[j], 1e-9, "coefficients are those of the optimizer")
		b -= mx[j] * at[j]
	}
	vp.Near(m.Intercept.At(0, 0), b, 1e-6, "intercept")
}

// HRidgeObjective: likewise for the regularized regression.
func HRidgeObjective() {
	X, Y, p := samples()
	m := linearmodel.NewRidge()
	m.FitIntercept = vp.Choose("intercept", 2) == 1
	m.Alpha = []float64{0, 2}[vp.Choose("alpha", 2)]
	m.L1Ratio = []float64{0, 0.25, 1}[vp.Choose("ratio", 3)]
	at := place(p)
	pr := &probe{at: [][]float64{at}}
	m.Options.GOMethodCreator = func() optimize.Method { return pr }
	m.Fit(X, Y)
	objective(m.LinearModel, X, Y, at, pr, m.Alpha*m.L1Ratio/2, m.Alpha*(1-m.L1Ratio)/2)
}

// HRidgeSolution: with an optimizer that solves quadratics exactly (a secant step on the gradient) the fit is the
// ridge solution of each output.
func HRidgeSolution() {
	n, no := 3, 1+vp.Choose("outputs", 3)
	// the outputs may be fitted in any order
	vp.NewestFirst(vp.Choose("newest first", 2) == 1)
	X := h.Const(n, 1, 1, 2, 6)
	Y := h.DenseIn("y", n, no, -3, 3)
	m := linearmodel.NewRidge()
	alpha := []float64{0, 0.5, 2}[vp.Choose("alpha", 3)]
	m.Alpha = alpha
	m.Options.GOMethodCreator = func() optimize.Method {
		return &probe{at: [][]float64{{0}, {1}}, next: func(p *probe) []float64 {
			return []float64{-p.G[0][0] / (p.G[1][0] - p.G[0][0])}
		}}
	}
	m.Fit(X, Y)
	for o := 0; o < no; o++ {
		sxy, my := 0., (Y.At(0, o)+Y.At(1, o)+Y.At(2, o))/3
		for i := 0; i < n; i++ {
			sxy += (X.At(i, 0) - 3) * (Y.At(i, o) - my)
		}
		w := sxy / (14 + alpha)
		vp.Near(m.Coef.At(0, o), w, 1e-6, "ridge coefficient")
		vp.Near(m.Intercept.At(0, o), my-3*w, 1e-6, "ridge intercept")
	}
}

// HMiniBatch: one epoch over minibatches sees every sample once, whatever the batch size.
func HMiniBatch() {
	n := 3
	X, Y := h.Const(n, 1, 1, 2, 6), h.DenseIn("y", n, 1, -3, 3)
	size := 1 + vp.Choose("size", 3)
	if vp.Choose("more", 2) == 1 {
		n = 13
		X, Y = h.Fixed(n, 1, 1), h.Wide("y", n, 1, 2, -3, 3)
		size = []int{2, 5, 6, 13}[vp.Choose("batch", 4)]
	}
	want := 0.
	for i := 0; i < n; i++ {
		want += X.At(i, 0) * (100 + Y.At(i, 0))
	}
	rows, sum := 0, 0.
	full := 0
	loss := func(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L1Ratio float64, nSamples int, activation linearmodel.Activation, skip bool) float64 {
		r, _ := X.Dims()
		ry, _ := Ytrue.Dims()
		pr, _ := Ypred.Dims()
		vp.Assert(ry == r && pr == r, "as many targets as samples")
		vp.Assert(r <= size || full == 0 && rows == n, "no more than the batch size")
		if r <= size && rows < n {
			rows += r
			for i := 0; i < r; i++ {
				sum += X.At(i, 0) * 100
				sum += X.At(i, 0) * Ytrue.At(i, 0)
			}
		} else {
			full++
		}
		return linearmodel.SquareLoss(Ytrue, X, Theta, Ypred, Ydiff, grad, Alpha, L1Ratio, nSamples, activation, skip)
	}
	res := linearmodel.LinFit(X, Y, &linearmodel.LinFitOptions{Epochs: 1, MiniBatchSize: size, Solver: "sgd", Loss: loss, Activation: base.ReLU{}, ThetaInitializer: func(t *mat.Dense) {
		t.Apply(func(i, j int, v float64) float64 { return 0.5 }, t)
	}})
	vp.Assert(rows == n && full == 1, "every sample once, then the whole")
	vp.Near(sum, want, 1e-6, "samples with their own targets")
	vp.Assert(res.Theta != nil, "theta")
	// the loss reported is the loss at the theta reported
	pred, diff := mat.NewDense(n, 1, nil), mat.NewDense(n, 1, nil)
	J := linearmodel.SquareLoss(Y, X, res.Theta, pred, diff, nil, 0, 0, n, base.ReLU{}, false)
	vp.Near(res.J, J, 1e-6, "J of the best theta")
}

// HBest: over several epochs the smallest loss seen is reported, and where it was seen.
func HBest() {
	n, no := 3, 1+vp.Choose("outputs", 2)
	X, Y := h.Const(n, 1, 1, 2, 3), h.DenseIn("y", n, no, -3, 3)
	epochs := 1 + vp.Choose("epochs", 4)
	size := 1 + vp.Choose("size", 3)
	at, losses := []*mat.Dense{}, vp.FloatsIn("loss", epochs, 0, 9)
	calls := 0
	loss := func(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L1Ratio float64, nSamples int, activation linearmodel.Activation, skip bool) float64 {
		calls++
		grad.Apply(func(i, j int, v float64) float64 { return float64(1 + j) }, grad)
		if calls%((n+size-1)/size+1) != 0 {
			return -1
		}
		at = append(at, h.Copy(Theta))
		return losses[len(at)-1]
	}
	res := linearmodel.LinFit(X, Y, &linearmodel.LinFitOptions{Epochs: epochs, MiniBatchSize: size, Solver: "sgd", Loss: loss, ThetaInitializer: func(t *mat.Dense) {
		t.Apply(func(i, j int, v float64) float64 { return 0.5 }, t)
	}})
	vp.Assert(len(at) == epochs, "one loss of the whole per epoch")
	best := 0
	for e := range losses {
		if losses[e] < losses[best] {
			best = e
		}
	}
	vp.Eq(res.J, losses[best], "the smallest loss")
	h.EqMat(res.Theta, at[best], "theta of the smallest loss")
}

// pair is an optimizer evaluating two places at a time, as its caller allows it to.
type pair struct {
	a, b   []float64
	fa, fb float64
	ga, gb []float64
}

func (m *pair) Init(dim, tasks int) int { return int(math.Min(2, float64(tasks))) }
func (m *pair) Uses(has optimize.Available) (optimize.Available, error) {
	return optimize.Available{Grad: true}, nil
}
func (m *pair) Status() (optimize.Status, error) { return optimize.MethodConverge, nil }
func (m *pair) Run(operation chan<- optimize.Task, result <-chan optimize.Task, tasks []optimize.Task) {
	var last optimize.Task
	for i := range tasks {
		tasks[i].ID = i
		if tasks[i].Location == nil {
			tasks[i].Location = &optimize.Location{}
		}
		tasks[i].X = append(tasks[i].X[:0], [][]float64{m.a, m.b}[i]...)
		if tasks[i].Gradient == nil {
			tasks[i].Gradient = make([]float64, len(m.a))
		}
		tasks[i].Op = optimize.FuncEvaluation | optimize.GradEvaluation
		operation <- tasks[i]
	}
	for range tasks {
		t := <-result
		if t.ID == 0 {
			m.fa, m.ga = t.F, append([]float64(nil), t.Gradient...)
			last = t
		} else {
			m.fb, m.gb = t.F, append([]float64(nil), t.Gradient...)
		}
	}
	last.Op = optimize.MajorIteration
	operation <- last
	last = <-result
	if last.Op != optimize.PostIteration {
		last.Op = optimize.MethodDone
		operation <- last
	}
	for range result {
	}
	close(operation)
}

// HConcurrent: an optimizer evaluating several places at once gets the value and gradient of each.
func HConcurrent() {
	vp.CPUs(2)
	X, Y := h.Const(2, 1, 1, 3), h.DenseIn("y", 2, 1, -3, 3)
	a, b := vp.FloatsIn("a", 1, -3, 3), vp.FloatsIn("b", 1, -3, 3)
	m := &pair{a: a, b: b}
	k := vp.Choose("model", 2)
	if k == 0 {
		r := linearmodel.NewSGDRegressor()
		r.FitIntercept = false
		r.Alpha = 0
		r.NJobs = 2
		r.Method = m
		r.Fit(X, Y)
	} else {
		r := linearmodel.NewRidge()
		r.FitIntercept = false
		r.Alpha = 0
		r.Options.GOMethodCreator = func() optimize.Method { return m }
		r.Fit(X, Y)
	}
	check := func(at, f float64, g []float64) {
		r0, r1 := at-Y.At(0, 0), 3*at-Y.At(1, 0)
		vp.Near(f, (r0*r0+r1*r1)/4, 1e-6, "its own value")
		vp.Near(g[0], (r0+3*r1)/2, 1e-6, "its own gradient")
	}
	check(a[0], m.fa, m.ga)
	check(b[0], m.fb, m.gb)
}
