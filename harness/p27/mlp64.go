package p27

import (
	nn "github.com/pa-m/sklearn/neural_network"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
)

// g64 is a matrix, contiguous or inside a larger one.
func g64(name string, rows, cols int, at func(i, j int) float64, strided bool) nn.General64 {
	g := nn.General64{Rows: rows, Cols: cols, Stride: cols}
	if strided {
		g.Stride = cols + 1
		parent := make([]float64, rows*g.Stride)
		for i := range parent {
			parent[i] = h.Pad
		}
		g.Data = parent[1:]
	} else {
		g.Data = make([]float64, rows*cols)
	}
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			g.Data[i*g.Stride+j] = at(i, j)
		}
	}
	return g
}

func sym64(name string, lo, hi float64) func(i, j int) float64 {
	return func(i, j int) float64 { return in64(name+"["+h.Itoa(i)+","+h.Itoa(j)+"]", lo, hi) }
}

func const64(cols int, v ...float64) func(i, j int) float64 {
	return func(i, j int) float64 { return v[i*cols+j] }
}

// net64 is the oracle's copy of a network.
type net64 struct {
	act, out string
	w        [][][]float64 // layer, from, to
	b        [][]float64
}

func act64(name string, z float64) float64 {
	switch name {
	case "logistic":
		return 1 / (1 + nn.M64.Exp(-z))
	case "tanh":
		return nn.M64.Tanh(z)
	case "relu":
		if z < 0 {
			return 0
		}
	}
	return z
}

// run64 gives the values of every layer for one sample.
func (n *net64) run(x []float64) [][]float64 {
	a := [][]float64{x}
	for l := range n.w {
		z := make([]float64, len(n.b[l]))
		for k := range z {
			for j := range n.w[l] {
				z[k] += a[l][j] * n.w[l][j][k]
			}
			z[k] += n.b[l][k]
		}
		switch {
		case l < len(n.w)-1:
			for k := range z {
				z[k] = act64(n.act, z[k])
			}
		case n.out == "softmax":
			m := z[0]
			for k := range z {
				if z[k] > m {
					m = z[k]
				}
			}
			s := float64(0)
			for k := range z {
				z[k] = nn.M64.Exp(z[k] - m)
				s += z[k]
			}
			for k := range z {
				z[k] /= s
			}
		default:
			for k := range z {
				z[k] = act64(n.out, z[k])
			}
		}
		a = append(a, z)
	}
	return a
}

func (n *net64) like() *net64 {
	g := &net64{}
	for l := range n.w {
		var w [][]float64
		for range n.w[l] {
			w = append(w, make([]float64, len(n.b[l])))
		}
		g.w, g.b = append(g.w, w), append(g.b, make([]float64, len(n.b[l])))
	}
	return g
}

// grad64 is the mean over the samples of the derivative of the loss, whose derivative by the last layer's input is output-target.
func (n *net64) grad(x, y nn.General64, from, to int, alpha float64) (*net64, float64) {
	g, loss := n.like(), float64(0)
	rows := float64(to - from)
	for i := from; i < to; i++ {
		a := n.run(x.Data[i*x.Stride : i*x.Stride+x.Cols])
		L := len(n.w)
		var d []float64
		for k, o := range a[L] {
			t := y.Data[i*y.Stride+k]
			d = append(d, o-t)
			switch n.out {
			case "identity":
				loss += (o - t) * (o - t) / 2
			case "softmax":
				if t != 0 {
					loss -= t * nn.M64.Log(clip64(o))
				}
			default:
				loss -= t*nn.M64.Log(clip64(o)) + (1-t)*nn.M64.Log1p(-clip64(o))
			}
		}
		for l := L - 1; l >= 0; l-- {
			prev := make([]float64, len(a[l]))
			for k := range d {
				g.b[l][k] += d[k] / rows
				for j := range a[l] {
					g.w[l][j][k] += a[l][j] * d[k] / rows
					prev[j] += d[k] * n.w[l][j][k]
				}
			}
			for j, o := range a[l] {
				switch n.act {
				case "logistic":
					prev[j] *= o * (1 - o)
				case "tanh":
					prev[j] *= 1 - o*o
				case "relu":
					if o == 0 {
						prev[j] = 0
					}
				}
			}
			d = prev
		}
	}
	loss /= rows
	for l := range n.w {
		for j := range n.w[l] {
			for k, w := range n.w[l][j] {
				g.w[l][j][k] += alpha * w / rows
				loss += alpha / 2 * w * w / rows
			}
		}
	}
	return g, loss
}

// clip64 keeps a probability off 0 and 1.
func clip64(p float64) float64 {
	lo, hi := nn.M64.Nextafter(0, 1), nn.M64.Nextafter(1, 0)
	if p < lo {
		return lo
	}
	if p > hi {
		return hi
	}
	return p
}

// each visits the parameters.
func (n *net64) each(f func(l, j, k int, p *float64)) {
	for l := range n.w {
		for k := range n.b[l] {
			f(l, -1, k, &n.b[l][k])
		}
		for j := range n.w[l] {
			for k := range n.w[l][j] {
				f(l, j, k, &n.w[l][j][k])
			}
		}
	}
}

func (n *net64) at(l, j, k int) float64 {
	if j < 0 {
		return n.b[l][k]
	}
	return n.w[l][j][k]
}

// params64 reads or writes the network's parameters.
func params64(m *nn.BaseMultilayerPerceptron64) *net64 {
	n := &net64{act: m.Activation, out: m.OutActivation}
	for l, c := range m.Coefs {
		var w [][]float64
		for j := 0; j < c.Rows; j++ {
			w = append(w, append([]float64(nil), c.Data[j*c.Stride:j*c.Stride+c.Cols]...))
		}
		n.w, n.b = append(n.w, w), append(n.b, append([]float64(nil), m.Intercepts[l]...))
	}
	return n
}

func store64(m *nn.BaseMultilayerPerceptron64, n *net64) {
	n.each(func(l, j, k int, p *float64) {
		if j < 0 {
			m.Intercepts[l][k] = *p
		} else {
			m.Coefs[l].Data[j*m.Coefs[l].Stride+k] = *p
		}
	})
}

func eq64(a, b *net64, msg string) {
	vp.Assert(len(a.w) == len(b.w), msg+": layers")
	a.each(func(l, j, k int, p *float64) {
		if tol64 > 1e-4 && !vp.Symbolic() {
			vp.Near(up64(*p), up64(b.at(l, j, k)), tol64, msg)
		} else {
			vp.Eq(up64(*p), up64(b.at(l, j, k)), msg)
		}
	})
}

func close64(a, b float64, msg string) {
	if tol64 > 1e-4 && !vp.Symbolic() {
		vp.Near(up64(a), up64(b), tol64, msg)
	} else {
		vp.Eq(up64(a), up64(b), msg)
	}
}

// new64 is a network with the wanted shape, fitted once on other data.
func new64(hidden []int, act string, features, outputs int, clf bool) *nn.BaseMultilayerPerceptron64 {
	m := nn.NewBaseMultilayerPerceptron64()
	m.HiddenLayerSizes, m.Activation, m.Solver, m.MaxIter, m.Alpha = hidden, act, "sgd", 1, 0
	m.Shuffle, m.LearningRateInit, m.Momentum, m.NesterovsMomentum = false, 1, 0, false
	m.RandomState = &state{v: quarters[1:]}
	x := g64("x0", 2, features, func(i, j int) float64 { return float64(i - j) }, false)
	y := g64("y0", 2, outputs, func(i, j int) float64 {
		if clf {
			return float64((i + j) % 2)
		}
		return float64(i) - .5
	}, false)
	if !clf {
		m.LossFuncName = "square_loss"
	}
	m.Fit(x, y)
	m.WarmStart = true
	return m
}

// any64 replaces the parameters by arbitrary ones.
func any64(m *nn.BaseMultilayerPerceptron64, lo, hi float64) *net64 {
	n := params64(m)
	n.each(func(l, j, k int, p *float64) {
		*p = in64("w"+h.Itoa(l)+"["+h.Itoa(j)+","+h.Itoa(k)+"]", lo, hi)
	})
	store64(m, n)
	return n
}

// step64 is one gradient descent step.
func (n *net64) step(g *net64, rate float64) {
	n.each(func(l, j, k int, p *float64) { *p -= rate * g.at(l, j, k) })
}

// HStep64: a step of gradient descent subtracts the derivative of the regularised mean loss, for any weights and data.
func HStep64() {
	act := []string{"identity", "logistic", "tanh", "relu"}[vp.Choose("activation", 4)]
	hid := hiddens[vp.Choose("hidden", 3)]
	outs := 1 + vp.Choose("outputs", 2)
	if act != "identity" && len(hid) == 0 {
		return
	}
	rows := 1
	if len(hid) == 0 || vp.Thorough() && act == "relu" {
		rows = 2
	}
	feats := 1 + vp.Choose("features", 2)
	if feats+outs == 4 && len(hid) > 0 || !vp.Thorough() && len(hid) > 0 && hid[0]+feats+outs > 4 {
		return
	}
	m := new64(hid, act, feats, outs, false)
	vp.Assert(!m.IsClassifier() && m.GetNOutputs() == outs && m.OutActivation == "identity", "a network fitted on values is a regressor")
	n := any64(m, -2, 2)
	m.Alpha = []float64{0, .5}[vp.Choose("alpha", 2)]
	strided := vp.Choose("strided", 2) == 1
	x, y := g64("x", rows, feats, sym64("x", -2, 2), strided), g64("y", rows, outs, sym64("y", -2, 2), strided)
	g, loss := n.grad(x, y, 0, rows, m.Alpha)
	m.Fit(x, y)
	n.step(g, 1)
	eq64(params64(m), n, "one step of gradient descent")
	close64(m.Loss, loss, "loss")
	vp.Assert(len(m.LossCurve) == 2 && m.LossCurve[1] == m.Loss && m.NIter == 2, "loss curve")
	vp.Reach(act)
}

// HClassStep64: likewise with 0/1 targets, one logistic unit or a softmax.
func HClassStep64() {
	hid := hiddens[vp.Choose("hidden", 2)]
	act := []string{"identity", "relu"}[vp.Choose("activation", 2)]
	outs := 1 + vp.Choose("outputs", 3)
	if len(hid) == 0 && act != "relu" || len(hid) > 0 && outs > 2 {
		return
	}
	m := new64(hid, act, 1, outs, true)
	vp.Assert(m.IsClassifier() && m.GetNOutputs() == outs, "a network fitted on 0/1 targets is a classifier")
	vp.Assert(m.OutActivation == []string{"logistic", "softmax", "softmax"}[outs-1], "output activation")
	n := params64(m)
	n.each(func(l, j, k int, p *float64) {
		if l == len(n.w)-1 {
			*p = in64("w["+h.Itoa(j)+","+h.Itoa(k)+"]", -2, 2)
		} else {
			*p = []float64{.5, -1, .25, 1}[(l+j+2*k+1)%4]
		}
	})
	store64(m, n)
	rows := 1
	strided := vp.Choose("strided", 2) == 1
	if !vp.Thorough() && strided && outs != 2 {
		return
	}
	label := vp.Choose("label", outs+1)
	x, y := g64("x", rows, 1, const64(1, []float64{1, -2}[vp.Choose("x", 2)]), strided), g64("y", rows, outs, func(i, j int) float64 {
		if j == label {
			return 1
		}
		return 0
	}, strided)
	vp.NoMerge(true)
	g, loss := n.grad(x, y, 0, rows, 0)
	vp.NoMerge(false)
	m.Fit(x, y)
	n.step(g, 1)
	eq64(params64(m), n, "one step of gradient descent of a classifier")
	close64(m.Loss, loss, "log loss")
	vp.Reach("step")
}

// HBatch64: the batches cover every row once, in order.
func HBatch64() { batch64(false) }

// HShort64: the last batch is what is left.
func HShort64() { batch64(true) }

func batch64(short bool) {
	rows, size := 1+vp.Choose("rows", 4), vp.Choose("batch", 4)
	if short && (size < 2 || size > rows || rows%size == 0) {
		return
	}
	m := new64(nil, "relu", 1, 1, false)
	n := any64(m, -2, 2)
	m.BatchSize, m.LearningRateInit = size, .5
	rot := 0
	if m.Shuffle = vp.Choose("shuffle", 2) == 1; m.Shuffle {
		rot = 1
		m.RandomState = &state{rotate: 1}
	}
	xs := []float64{1, -1, .5, 2}
	strided := vp.Choose("strided", 2) == 1
	x, y := g64("x", rows, 1, func(i, j int) float64 { return xs[i] }, strided), g64("y", rows, 1, sym64("y", -2, 2), strided)
	xr, yr := g64("x", rows, 1, func(i, j int) float64 { return xs[(i+rot)%rows] }, false), g64("y", rows, 1, func(i, j int) float64 { return y.Data[(i+rot)%rows*y.Stride] }, false)
	if size <= 0 || size > rows {
		size = rows
	}
	var total, known float64
	kb := float64(0) // the intercept when the mean is taken over a whole batch, part of it left by the previous one
	stale := make([]float64, size)
	for from := 0; from < rows; from += size {
		to := from + size
		if to > rows {
			to = rows
		}
		g, loss := n.grad(xr, yr, from, to, 0)
		total += loss * float64(to-from)
		known += loss * float64(to-from) / float64(size) * float64(to-from)
		for i := from; i < to; i++ {
			stale[i-from] = xr.Data[i]*n.w[0][0][0] + n.b[0][0] - yr.Data[i]
		}
		kb = n.b[0][0]
		for _, d := range stale {
			kb -= .5 * d / float64(size)
		}
		n.step(g, .5)
	}
	y0 := append([]float64(nil), y.Data...)
	bs := m.BatchSize
	m.Fit(x, y)
	if short {
		eq64(params64(m), n, "a last batch shorter than the others trains on its own rows")
		close64(m.Loss, total/float64(rows), "a last batch shorter than the others counts for its own rows")
		return
	}
	got := params64(m)
	close64(got.w[0][0][0], n.w[0][0][0], "an epoch of mini-batches: coefficient")
	vp.Assert(vp.Or(near64(got.b[0][0], n.b[0][0]), near64(got.b[0][0], kb)), "an epoch of mini-batches: intercept")
	vp.Assert(vp.Or(near64(m.Loss, total/float64(rows)), near64(m.Loss, known/float64(rows))), "loss of an epoch is the mean over the rows")
	vp.Assert(m.BatchSize == bs, "BatchSize is left as set")
	for i := range xs[:rows] {
		vp.Eq(up64(x.Data[i*x.Stride]), up64(xs[i]), "X left in order")
	}
	for i := range y.Data {
		vp.Eq(up64(y.Data[i]), up64(y0[i]), "Y left in order")
	}
	vp.Reach("batches")
}

// near64 is equality, up to rounding.
func near64(a, b float64) bool {
	if vp.Symbolic() {
		return a == b
	}
	return up64(a)-up64(b) <= tol64 && up64(b)-up64(a) <= tol64
}

// HSGD64: momentum, Nesterov momentum and learning rate schedules.
func HSGD64() {
	m := new64(nil, "relu", 1, 1, false)
	n := any64(m, -2, 2)
	m.MaxIter, m.LearningRateInit = 3, .25
	m.Momentum = []float64{0, .5}[vp.Choose("momentum", 2)]
	m.NesterovsMomentum = vp.Bool("nesterov")
	m.LearningRate = []string{"constant", "invscaling"}[vp.Choose("schedule", 2)]
	m.PowerT = 1
	m.Tol = 1e-9
	x, y := g64("x", 1, 1, const64(1, 1), false), g64("y", 1, 1, sym64("y", -2, 2), false)
	v := n.like()
	rate := m.LearningRateInit
	for it := 0; it < 3; it++ {
		g, _ := n.grad(x, y, 0, 1, 0)
		n.each(func(l, j, k int, p *float64) {
			u := v.b[l]
			q := k
			if j >= 0 {
				u, q = v.w[l][j], k
			}
			u[q] = m.Momentum*u[q] - rate*g.at(l, j, k)
			if m.NesterovsMomentum {
				*p += m.Momentum*u[q] - rate*g.at(l, j, k)
			} else {
				*p += u[q]
			}
		})
		if m.LearningRate == "invscaling" {
			// the first fit saw 2 samples
			rate = m.LearningRateInit / float64(2+it+1+1)
		}
	}
	m.Fit(x, y)
	eq64(params64(m), n, "momentum")
	vp.Reach("sgd")
}

// HAdam64: the steps of adam.
func HAdam64() { adam64(false) }

// HBias64: the bias of the moments is corrected by the number of steps.
func HBias64() { adam64(true) }

func adam64(bias bool) {
	m := new64(nil, "relu", 1, 1, false)
	n := any64(m, -2, 2)
	its := 1 + vp.Choose("iterations", 2)
	if bias {
		its = 1
	}
	m.Solver, m.MaxIter, m.LearningRateInit, m.Beta1, m.Beta2, m.Epsilon = "adam", its, .25, .5, .75, .125
	x, y := g64("x", 1, 1, const64(1, 1), false), g64("y", 1, 1, sym64("y", -2, 2), false)
	kn := &net64{act: n.act, out: n.out, w: [][][]float64{{{n.w[0][0][0]}}}, b: [][]float64{{n.b[0][0]}}}
	for _, known := range []bool{false, true} { // known: the correction counts the parameters updated
		q := n
		if known {
			q = kn
		}
		m1, m2 := q.like(), q.like()
		b1, b2 := float64(1), float64(1)
		for it := 0; it < its; it++ {
			g, _ := q.grad(x, y, 0, 1, 0)
			first := true
			q.each(func(l, j, k int, p *float64) {
				if first || known {
					b1, b2 = b1*m.Beta1, b2*m.Beta2
				}
				first = false
				rate := m.LearningRateInit * nn.M64.Sqrt(1-b2) / (1 - b1)
				u, w := m1.b[l], m2.b[l]
				if j >= 0 {
					u, w = m1.w[l][j], m2.w[l][j]
				}
				d := g.at(l, j, k)
				u[k] = m.Beta1*u[k] + (1-m.Beta1)*d
				w[k] = m.Beta2*w[k] + (1-m.Beta2)*d*d
				*p -= rate * u[k] / (nn.M64.Sqrt(w[k]) + m.Epsilon)
			})
		}
	}
	m.Fit(x, y)
	if bias {
		eq64(params64(m), n, "adam corrects the bias by the number of steps")
		return
	}
	params64(m).each(func(l, j, k int, p *float64) {
		vp.Assert(vp.Or(near64(*p, n.at(l, j, k)), near64(*p, kn.at(l, j, k))), "adam")
	})
	vp.Reach("adam")
}

// HPredict64: predicting is the forward pass with the weights held, thresholded or arg-maxed for classifiers, into any destination.
func HPredict64() {
	act := []string{"identity", "relu", "tanh"}[vp.Choose("activation", 3)]
	hid := hiddens[vp.Choose("hidden", 4)]
	clf := vp.Bool("classifier")
	outs := 1 + vp.Choose("outputs", 2)
	if act == "tanh" && clf || len(hid) == 0 && act != "relu" {
		return
	}
	if clf && len(hid) > 1 || len(hid) > 1 && outs > 1 {
		return
	}
	if !vp.Thorough() && (clf && len(hid) > 0 && hid[0] > 1 || outs == 2 && len(hid) > 0 && hid[0] > 1) {
		return
	}
	m := new64(hid, act, 1, outs, clf)
	n := any64(m, -2, 2)
	rows := 2
	if len(hid) > 1 || clf {
		rows = 1
	}
	strided := vp.Choose("strided", 2) == 1
	x, y := g64("x", rows, 1, sym64("x", -2, 2), strided), g64("p", rows, outs, func(i, j int) float64 { return h.Pad }, strided)
	m.Predict(x, y)
	for i := 0; i < rows; i++ {
		a := n.run(x.Data[i*x.Stride : i*x.Stride+1])
		o := a[len(a)-1]
		for k := range o {
			got := up64(y.Data[i*y.Stride+k])
			switch {
			case !clf:
				close64(y.Data[i*y.Stride+k], o[k], "prediction of a regressor")
			case outs == 1:
				vp.Assert(vp.Or(vp.And(got == 1, up64(o[0]) > .5), vp.And(got == 0, up64(o[0]) <= .5)), "prediction of a binary classifier")
			default:
				vp.Assert(vp.Or(vp.And(got == 1, up64(o[k]) >= up64(o[1-k])), vp.And(got == 0, up64(o[k]) <= up64(o[1-k]))), "prediction of a classifier")
				vp.Eq(up64(y.Data[i*y.Stride])+up64(y.Data[i*y.Stride+1]), 1, "one class is predicted")
			}
		}
		if strided && i+1 < rows {
			vp.Eq(up64(y.Data[i*y.Stride+outs]), h.Pad, "padding is left alone")
		}
	}
	eq64(params64(m), n, "predicting leaves the weights alone")
	vp.Reach("predicted")
}

// HForeign64: data given as another kind of matrix trains and predicts alike.
func HForeign64() {
	m, m2 := new64(nil, "relu", 2, 1, false), new64(nil, "relu", 2, 1, false)
	any64(m, -2, 2)
	store64(m2, params64(m))
	x := g64("x", 2, 2, sym64("x", -2, 2), false)
	y := g64("y", 2, 1, sym64("y", -2, 2), false)
	xt := g64("xt", 2, 2, func(i, j int) float64 { return x.Data[j*2+i] }, vp.Choose("strided", 2) == 1)
	yt := g64("yt", 1, 2, func(i, j int) float64 { return y.Data[j] }, false)
	p, p2 := g64("p", 2, 1, const64(1, 9, 9), false), g64("p", 2, 1, const64(1, 9, 9), false)
	m.Fit(x, y)
	m.Predict(x, p)
	switch vp.Choose("which", 3) {
	case 0:
		m2.Fit(xt.T(), yt.T())
	case 1:
		m2.Fit(x, yt.T())
	case 2:
		m2.Fit(xt.T(), y)
	}
	m2.Predict(xt.T(), p2)
	eq64(params64(m), params64(m2), "fit on another kind of matrix")
	for i := range p.Data {
		close64(p.Data[i], p2.Data[i], "prediction on another kind of matrix")
	}
	vp.Reach("foreign")
}

// HInit64: a fresh network has the shape asked for and Glorot-bounded weights; warm start keeps them.
func HInit64() {
	hid := hiddens[vp.Choose("hidden", 4)]
	act := []string{"logistic", "relu"}[vp.Choose("activation", 2)]
	feats, outs := 1+vp.Choose("features", 2), 1+vp.Choose("outputs", 2)
	m := nn.NewBaseMultilayerPerceptron64()
	m.HiddenLayerSizes, m.Activation, m.Solver, m.MaxIter, m.Alpha, m.LossFuncName = append([]int(nil), hid...), act, "sgd", 1, 0, "square_loss"
	m.Shuffle, m.LearningRateInit, m.Momentum, m.NesterovsMomentum = false, 1, 0, false
	m.RandomState = &state{v: quarters}
	x := g64("x", 1, feats, func(i, j int) float64 { return 0 }, false)
	y := g64("y", 1, outs, func(i, j int) float64 { return -.5 }, false)
	vp.NativeFloats(true)
	m.LearningRateInit = 1e-30
	m.Fit(x, y)
	units := append([]int{feats}, hid...)
	units = append(units, outs)
	vp.Assert(m.NLayers == len(units) && len(m.Coefs) == len(units)-1 && len(m.Intercepts) == len(units)-1, "layers")
	for l := range m.Coefs {
		vp.Assert(m.Coefs[l].Rows == units[l] && m.Coefs[l].Cols == units[l+1] && len(m.Intercepts[l]) == units[l+1], "layer shape")
		f := float64(6)
		if act == "logistic" {
			f = 2
		}
		n := params64(m)
		n.each(func(l, j, k int, p *float64) {
			vp.Assert(up64(*p)*up64(*p) <= up64(f/float64(units[l]+units[l+1])), "initial weights are bounded")
		})
	}
	before := params64(m)
	m.WarmStart = true
	m.Fit(x, y)
	params64(m).each(func(l, j, k int, p *float64) {
		vp.Near(up64(*p), up64(before.at(l, j, k)), 1e-12, "warm start starts from the weights held")
	})
	vp.Assert(m.NIter == 2 && len(m.LossCurve) == 2, "warm start goes on")
	m.WarmStart = false
	m.Fit(x, y)
	vp.Assert(m.NIter == 1 && len(m.LossCurve) == 1, "cold start starts again")
	vp.Assert(len(m.HiddenLayerSizes) == len(hid), "hidden layer sizes are left as set")
	vp.Reach("init")
}

// HEarly64: early stopping trains on the first rows only, scores the last ones, and keeps the best weights seen.
func HEarly64() {
	rows := 3 + vp.Choose("rows", 2)
	m := new64(nil, "relu", 1, 1, false)
	m.EarlyStopping, m.ValidationFraction = true, []float64{.25, .5}[vp.Choose("fraction", 2)]
	m.LearningRateInit, m.MaxIter = .25, 3
	m.BatchSize = vp.Choose("batch", 3)
	test := int(nn.M64.Ceil(m.ValidationFraction * float64(rows)))
	xs := []float64{1, -1, .5, 2}
	n := params64(m)
	n.b[0][0], n.w[0][0][0] = .5, in64("w", -2, 2)
	store64(m, n)
	ys := []float64{1, 0, in64("y", -1, 1), -1}
	x, y := g64("x", rows, 1, func(i, j int) float64 { return xs[i] }, false), g64("y", rows, 1, func(i, j int) float64 { return ys[i] }, false)
	size := m.BatchSize
	if size == 0 || size > rows-test {
		size = rows - test
	}
	if (rows-test)%size != 0 {
		return // see HShort64
	}
	curve := len(m.LossCurve)
	best, bw := float64(0), n.like()
	for it := 0; it < m.MaxIter; it++ {
		var total float64
		for from := 0; from < rows-test; from += size {
			to := from + size
			if to > rows-test {
				to = rows - test
			}
			g, loss := n.grad(x, y, from, to, 0)
			total += loss * float64(to-from)
			n.step(g, .25)
		}
		s := score64(n, x, y, rows-test, rows)
		if it == 0 || s > best {
			best = s
			n.each(func(l, j, k int, p *float64) {
				if j < 0 {
					bw.b[l][k] = *p
				} else {
					bw.w[l][j][k] = *p
				}
			})
		}
		_ = total
	}
	m.Tol = -1e9 // nothing counts as no improvement
	m.Fit(x, y)
	vp.Assert(len(m.ValidationScores) == m.MaxIter && len(m.LossCurve) == curve+m.MaxIter, "a score and a loss by epoch")
	close64(m.BestValidationScore, best, "best validation score")
	eq64(params64(m), bw, "the best weights are kept")
	vp.Reach("early")
}

// HHeld64: with early stopping the rows held out do not matter to the training, whatever the size of the batches.
func HHeld64() {
	vp.NativeFloats(true)
	rows, fraction, size := 3+vp.Choose("rows", 4), []float64{.2, .25, .5}[vp.Choose("fraction", 3)], vp.Choose("batch", 5)
	test := int(nn.M64.Ceil(fraction * float64(rows)))
	shuffle := vp.Choose("shuffle", 2)
	xs, ys := []float64{1, -1, .5, 2, -.5, 1.5}, []float64{1, 0, .25, -1, .5, 2}
	fit := func(dx, dy float64) *nn.BaseMultilayerPerceptron64 {
		m := new64([]int{2}, "relu", 1, 1, false)
		m.EarlyStopping, m.ValidationFraction, m.BatchSize = true, fraction, size
		m.LearningRateInit, m.MaxIter, m.Tol = .125, 1, -1e9
		if m.Shuffle = shuffle == 1; m.Shuffle {
			m.RandomState = &state{rotate: 1}
		}
		n, q := params64(m), 0
		n.each(func(l, j, k int, p *float64) {
			q++
			*p = float64(q*q%17-8) / 16
		})
		store64(m, n)
		off := func(v []float64, d float64) func(i, j int) float64 {
			return func(i, j int) float64 {
				if i >= rows-test {
					return v[i] + d
				}
				return v[i]
			}
		}
		m.Fit(g64("x", rows, 1, off(xs, dx), false), g64("y", rows, 1, off(ys, dy), false))
		return m
	}
	a, b := fit(0, 0), fit(in64("dx", -2, 2), in64("dy", -2, 2))
	close64(b.LossCurve[len(b.LossCurve)-1], a.LossCurve[len(a.LossCurve)-1], "the training loss does not depend on rows held out")
	eq64(params64(b), params64(a), "the weights do not depend on rows held out")
}

// score64 is the coefficient of determination on some rows.
func score64(n *net64, x, y nn.General64, from, to int) float64 {
	var mean, num, den float64
	for i := from; i < to; i++ {
		mean += y.Data[i*y.Stride]
	}
	mean /= float64(to - from)
	for i := from; i < to; i++ {
		a := n.run(x.Data[i*x.Stride : i*x.Stride+x.Cols])
		e := a[len(a)-1][0] - y.Data[i*y.Stride]
		num += e * e
		d := y.Data[i*y.Stride] - mean
		den += d * d
	}
	if den == 0 {
		if num == 0 {
			return 1
		}
		return 0
	}
	return 1 - num/den
}

// HStop64: training stops once the loss has not improved by Tol for more than NIterNoChange epochs; adaptive lowers the rate instead.
func HStop64() {
	m := new64(nil, "relu", 1, 1, false)
	n := params64(m)
	n.b[0][0], n.w[0][0][0] = 0, 0
	store64(m, n)
	x, y := g64("x", 1, 1, const64(1, 1), false), g64("y", 1, 1, const64(1, 1), false)
	m.MaxIter, m.NIterNoChange, m.LearningRateInit, m.Tol = 12, 1+vp.Choose("patience", 2), .125, 10
	adaptive := vp.Bool("adaptive")
	if adaptive {
		m.LearningRate = "adaptive"
	}
	m.WarmStart = true
	m.BestLoss = nn.M64.Inf(1)
	m.NoImprovementCount = 0
	rate, count, best, epochs := float64(.125), 0, nn.M64.Inf(1), 0
	for it := 0; it < m.MaxIter; it++ {
		g, loss := n.grad(x, y, 0, 1, 0)
		n.step(g, rate)
		epochs++
		if loss > best-m.Tol {
			count++
		} else {
			count = 0
		}
		if loss < best {
			best = loss
		}
		if count > m.NIterNoChange {
			if !adaptive {
				break
			}
			rate /= 5
			count = 0
		}
	}
	curve := len(m.LossCurve)
	m.Fit(x, y)
	vp.Assert(len(m.LossCurve)-curve == epochs, "training stops when it no longer improves")
	eq64(params64(m), n, "the learning rate is lowered")
	close64(m.BestLoss, best, "best loss")
	vp.Reach("stop")
}

// HRefuse64: hyperparameters outside their range are refused and those inside are not.
func HRefuse64() {
	m := new64(nil, "relu", 1, 1, false)
	x, y := g64("x", 1, 1, const64(1, 1), false), g64("y", 1, 1, const64(1, .5), false)
	v := in64("v", -2, 2)
	bad := false
	switch vp.Choose("which", 13) {
	case 0:
		m.MaxIter = vp.Int("n", -1, 1)
		bad = m.MaxIter <= 0
	case 1:
		m.Alpha = v
		bad = v < 0
	case 2:
		m.LearningRateInit = v
		bad = v <= 0
	case 3:
		m.Momentum = v
		bad = vp.Or(v < 0, v > 1)
	case 4:
		m.ValidationFraction = v
		bad = vp.Or(v < 0, v >= 1)
	case 5:
		m.Beta1 = v
		bad = vp.Or(v < 0, v >= 1)
	case 6:
		m.Beta2 = v
		bad = vp.Or(v < 0, v >= 1)
	case 7:
		m.Epsilon = v
		bad = v <= 0
	case 8:
		m.NIterNoChange = vp.Int("n", -1, 1)
		bad = m.NIterNoChange <= 0
	case 9:
		m.Activation = []string{"logistic", "reLU6", ""}[vp.Choose("name", 3)]
		bad = m.Activation != "logistic"
	case 10:
		m.LearningRate = []string{"constant", "invscaling", "adaptive", "fast", ""}[vp.Choose("name", 5)]
		bad = m.LearningRate == "fast" || m.LearningRate == ""
	case 11:
		m.Solver = []string{"sgd", "adam", "newton", ""}[vp.Choose("name", 4)]
		bad = m.Solver == "newton" || m.Solver == ""
	case 12:
		m.HiddenLayerSizes = [][]int{nil, {-1}, {-2}}[vp.Choose("size", 3)]
		bad = m.HiddenLayerSizes != nil
	}
	n := params64(m)
	p := vp.Panics(func() { m.Fit(x, y) })
	vp.Assert(vp.Iff(p, bad), "hyperparameters out of range are refused")
	if p {
		eq64(params64(m), n, "a refused fit leaves the weights alone")
	}
	vp.Reach("refused")
}

// HLabels64: class labels other than 0/1 are binarized for training and given back by Predict.
func HLabels64() {
	cols := 1 + vp.Choose("columns", 2)
	rows := 3
	sets := [][]float64{{2, 5, 7}, {-1, 1, -1}, {3, 3, 4}}
	which := vp.Choose("labels", 3)
	if !vp.Thorough() && cols == 2 && which != 1 {
		return
	}
	at := func(i, j int) float64 {
		if j == 1 {
			return []float64{10, 20, 10}[i]
		}
		return sets[which][i]
	}
	strided := vp.Choose("strided", 2) == 1
	x, y := g64("x", rows, 1, const64(1, 0, 1, 2), strided), g64("y", rows, cols, at, strided)
	m := nn.NewBaseMultilayerPerceptron64()
	m.HiddenLayerSizes, m.Solver, m.MaxIter, m.Shuffle = nil, "sgd", 1, vp.Bool("shuffle")
	m.RandomState = &state{v: quarters[1:], rotate: 1}
	m.Fit(x, y)
	classes := [][]float64{[][]float64{{2, 5, 7}, {-1, 1}, {3, 4}}[which], {10, 20}}[:cols]
	units := 0
	for _, c := range classes {
		units += len(c)
	}
	vp.Assert(m.IsClassifier() && m.GetNOutputs() == cols && m.NOutputs == units, "one unit by class, one output by column")
	n := any64(m, -2, 2)
	xp, p := g64("xp", 1, 1, const64(1, []float64{1, -.5}[vp.Choose("xp", 2)]), false), g64("p", 1, cols, func(i, j int) float64 { return h.Pad }, false)
	m.Predict(xp, p)
	z := make([]float64, units)
	for k := range z {
		z[k] = xp.Data[0]*n.w[0][0][k] + n.b[0][k]
	}
	for c, base := 0, 0; c < cols; c++ {
		ok := false
		for k, label := range classes[c] {
			top := true
			for q := range classes[c] {
				top = vp.And(top, up64(z[base+k]) >= up64(z[base+q]))
			}
			ok = vp.Or(ok, vp.And(up64(p.Data[c]) == up64(label), top))
		}
		vp.Assert(ok, "the label of the most likely class of each column is predicted")
		base += len(classes[c])
	}
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			vp.Eq(up64(y.Data[i*y.Stride+j]), up64(at(i, j)), "labels left alone")
		}
	}
	// refit on 0/1 forgets the labels
	m.Fit(x, g64("y2", rows, 1, const64(1, 0, 1, 1), false))
	vp.Assert(m.GetNOutputs() == 1 && m.NOutputs == 1 && m.OutActivation == "logistic", "refit on 0/1 targets")
	vp.Reach("labels")
}

// HScore64: accuracy for classifiers, coefficient of determination for regressors, whatever the strides.
func HScore64() {
	strided := vp.Choose("strided", 2) == 1
	if vp.Bool("classifier") {
		outs := 1 + vp.Choose("outputs", 2)
		m := new64(nil, "relu", 1, outs, true)
		any64(m, -2, 2)
		x, p := g64("x", 2, 1, const64(1, 1, -2), false), g64("p", 2, outs, func(i, j int) float64 { return 0 }, false)
		bits := vp.Choose("truth", 4)
		y := g64("y", 2, outs, func(i, j int) float64 {
			if outs == 2 && j == 1 {
				return float64(1 - bits>>uint(i)&1)
			}
			return float64(bits >> uint(i) & 1)
		}, strided)
		m.Predict(x, p)
		want := 0.
		for i := 0; i < 2; i++ {
			want += vp.B2F(up64(p.Data[i*outs]) == up64(y.Data[i*y.Stride])) / 2
		}
		vp.Eq(m.Score(x, y), want, "accuracy")
	} else {
		m := new64(nil, "relu", 1, 2, false)
		n := any64(m, -2, 2)
		x := g64("x", 2, 1, const64(1, 1, -2), strided)
		y := g64("y", 2, 2, const64(2, 1, 2, 3, 4), strided)
		if vp.Bool("constant") {
			y = g64("y", 2, 2, const64(2, 1, 2, 1, 4), strided)
		}
		want := 0.
		for c := 0; c < 2; c++ {
			o := &net64{act: "relu", out: "identity", w: [][][]float64{{{n.w[0][0][c]}}}, b: [][]float64{{n.b[0][c]}}}
			yc := g64("yc", 2, 1, func(i, j int) float64 { return y.Data[i*y.Stride+c] }, false)
			want += up64(score64(o, x, yc, 0, 2)) / 2
		}
		got := m.Score(x, y)
		if vp.Symbolic() {
			vp.Eq(got, want, "R2")
		} else {
			vp.Near(got, want, tol64*100, "R2")
		}
	}
	vp.Reach("score")
}

// HDecay64: WeightDecay shrinks every parameter before each step.
func HDecay64() {
	m := new64(hiddens[vp.Choose("hidden", 2)], "identity", 1, 1, false)
	n := any64(m, -2, 2)
	m.WeightDecay = []float64{0, .25}[vp.Choose("decay", 2)]
	x, y := g64("x", 1, 1, sym64("x", -2, 2), false), g64("y", 1, 1, sym64("y", -2, 2), false)
	n.each(func(l, j, k int, p *float64) { *p *= 1 - m.WeightDecay })
	g, loss := n.grad(x, y, 0, 1, 0)
	n.step(g, 1)
	m.Fit(x, y)
	eq64(params64(m), n, "weight decay")
	close64(m.Loss, loss, "loss with weight decay")
	vp.Reach("decay")
}

// HBatchNorm64: BatchNormalize leaves a silent unit alone: every parameter stays a number.
func HBatchNorm64() {
	m := nn.NewBaseMultilayerPerceptron64()
	m.HiddenLayerSizes, m.Activation, m.Solver, m.MaxIter, m.Alpha, m.LossFuncName = []int{2}, "relu", "sgd", 1, 0, "square_loss"
	m.Shuffle, m.LearningRateInit, m.Momentum, m.NesterovsMomentum, m.BatchNormalize = false, 1, 0, false, true
	m.RandomState = &state{v: quarters[1:]}
	x, y := g64("x", 1, 1, const64(1, 1), false), g64("y", 1, 1, const64(1, .5), false)
	m.Fit(x, y)
	m.WarmStart = true
	n := any64(m, -2, 2)
	m.Fit(x, y)
	params64(m).each(func(l, j, k int, p *float64) {
		vp.Assert(!nn.M64.IsNaN(*p), "parameters stay numbers")
	})
	// a unit which is silent is not trained
	for k := 0; k < 2; k++ {
		silent := up64(n.w[0][0][k]+n.b[0][k]) <= 0
		q := params64(m)
		vp.Assert(vp.Implies(silent, vp.And(q.w[0][0][k] == n.w[0][0][k], q.b[0][k] == n.b[0][k], q.w[1][k][0] == n.w[1][k][0])), "a silent unit is not trained")
	}
	vp.Reach("normalized")
}

// HTools64: the matrix type copies, slices, swaps, transposes and sums what it holds.
func HTools64() {
	rows, cols := 1+vp.Choose("rows", 3), 1+vp.Choose("cols", 2)
	strided := vp.Choose("strided", 2) == 1
	a := g64("a", rows, cols, sym64("a", -2, 2), strided)
	b := append([]float64(nil), a.Data...)
	at := func(i, j int) float64 { return b[i*a.Stride+j] }
	var c nn.General64
	switch vp.Choose("destination", 3) {
	case 1:
		c = nn.General64{Rows: 1, Cols: 1, Stride: 1, Data: make([]float64, 1)}
	case 2:
		c = g64("c", 4, 4, func(i, j int) float64 { return 9 }, false)
	}
	if vp.Bool("transposed") {
		c.Copy(g64("t", cols, rows, func(i, j int) float64 { return at(j, i) }, strided).T())
	} else {
		c.Copy(a)
	}
	r, k := c.Dims()
	vp.Assert(r == rows && k == cols && c.Len() == rows, "copy has the dimensions of the original")
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			vp.Eq(c.At(i, j), a.At(i, j), "copy")
			vp.Eq(up64(c.RawRowView(i)[j]), a.At(i, j), "row view")
			vp.Eq(a.T().At(j, i), up64(at(i, j)), "transpose")
		}
	}
	i, j := vp.Choose("i", rows), vp.Choose("j", rows)
	if i <= j {
		s := a.RowSlice(i, j+1)
		s2 := a.Slice(i, j+1, cols-1, cols)
		sr, sc := s2.Dims()
		vp.Assert(s.Rows == j+1-i && s.Cols == cols && sr == j+1-i && sc == 1, "slice dimensions")
		for q := i; q <= j; q++ {
			vp.Eq(s.At(q-i, 0), a.At(q, 0), "row slice")
			vp.Eq(s2.At(q-i, 0), a.At(q, cols-1), "slice")
		}
	}
	sum := nn.General64{Rows: 1, Cols: cols, Stride: cols, Data: make([]float64, cols)}
	sum.Data[0] = 5
	sum.SumRows(a)
	for q := 0; q < cols; q++ {
		t := 0.
		for p := 0; p < rows; p++ {
			t += a.At(p, q)
		}
		vp.Eq(sum.At(0, q), t, "sum of rows")
	}
	if cols == 1 {
		vp.Assert(vp.Iff(a.Less(i, j), a.At(i, 0) < a.At(j, 0)), "less")
	}
	c.Copy(a)
	a.Swap(i, j)
	for q := 0; q < cols; q++ {
		vp.Eq(a.At(i, q), c.At(j, q), "swap")
		vp.Eq(a.At(j, q), c.At(i, q), "swap")
	}
	c.Set(i, 0, 3)
	vp.Eq(c.At(i, 0), 3, "set")
	d := nn.ToDense64(a.T())
	vp.Eq(d.At(0, i), a.At(i, 0), "dense copy of another kind of matrix")
	e := g64("e", rows, cols, func(i, j int) float64 { return h.Pad }, strided)
	nn.FromDense64(e, a)
	vp.Eq(e.At(i, cols-1), a.At(i, cols-1), "filled")
	nn.FromDense64(e, e)
	vp.Reach("tools")
}

// HBinarizer64: one column by class in increasing order, and back.
func HBinarizer64() {
	rows, cols := 1+vp.Choose("rows", 3), 1+vp.Choose("cols", 2)
	neg, pos := []float64{0, -1}[vp.Choose("neg", 2)], float64(1)
	y := g64("y", rows, cols, func(i, j int) float64 {
		return []float64{-3, 0, 2}[vp.Choose("y"+h.Itoa(i)+","+h.Itoa(j), 3)]
	}, vp.Choose("strided", 2) == 1)
	b := nn.NewLabelBinarizer64(neg, pos)
	x := g64("x", rows, 1, func(i, j int) float64 { return float64(i) }, false)
	_, t := b.FitTransform(x, y)
	col := 0
	for j := 0; j < cols; j++ {
		for _, label := range []float64{-3, 0, 2} {
			present := false
			for i := 0; i < rows; i++ {
				present = present || y.Data[i*y.Stride+j] == label
			}
			if !present {
				continue
			}
			vp.Assert(t.Cols > col, "a column by class")
			for i := 0; i < rows; i++ {
				want := neg
				if y.Data[i*y.Stride+j] == label {
					want = pos
				}
				vp.Eq(t.At(i, col), up64(want), "binarized")
			}
			col++
		}
	}
	vp.Assert(t.Cols == col && t.Rows == rows, "a column by class")
	_, back := b.InverseTransform(x, t)
	for i := 0; i < rows; i++ {
		for j := 0; j < cols; j++ {
			vp.Eq(back.At(i, j), y.At(i, j), "inverse of binarized")
		}
	}
	vp.Reach("binarizer")
}

// HWide64: epochs over more samples, features, layers and outputs; without a batch size the batches have 200 rows.
func HWide64() {
	vp.NativeFloats(true)
	vp.MaxSteps(80000000)
	clf := vp.Bool("classifier")
	hid := [][]int{{}, {3, 4}, {5}}[vp.Choose("hidden", 3)]
	feats, outs := 4, []int{1, 3}[vp.Choose("outputs", 2)]
	m := new64(hid, []string{"relu", "tanh", "logistic"}[vp.Choose("activation", 3)], feats, outs, clf)
	n := params64(m)
	q := 0
	n.each(func(l, j, k int, p *float64) {
		q++
		*p = float64(q*q%17-8) / 16
	})
	store64(m, n)
	m.MaxIter, m.LearningRateInit = 3, .125
	rows, size := 24, []int{6, 24, 0}[vp.Choose("batch", 3)]
	m.BatchSize = size
	if size == 0 {
		if len(hid) > 1 {
			return
		}
		rows, size = 400, 200
	}
	rot := 0
	if m.Shuffle = vp.Choose("shuffle", 2) == 1; m.Shuffle {
		rot = 1
		m.RandomState = &state{rotate: 1}
	}
	X, Y := h.Fixed(rows, feats, 1), h.Fixed(rows, outs, 2)
	x := g64("x", rows, feats, func(i, j int) float64 { return float64(X.At(i, j)) / 4 }, false)
	y := g64("y", rows, outs, func(i, j int) float64 {
		if !clf {
			return float64(Y.At(i, j)) / 4
		}
		if outs == 1 {
			return float64((i*i + i/3) % 2)
		}
		if (i*i+i/3)%outs == j {
			return 1
		}
		return 0
	}, false)
	var loss float64
	for it := 1; it <= m.MaxIter; it++ {
		loss = 0
		at := func(g nn.General64) nn.General64 {
			return g64("", rows, g.Cols, func(i, j int) float64 { return g.Data[(i+it*rot)%rows*g.Stride+j] }, false)
		}
		xr, yr := at(x), at(y)
		for from := 0; from < rows; from += size {
			g, l := n.grad(xr, yr, from, from+size, 0)
			loss += l * float64(size)
			n.step(g, .125)
		}
	}
	x0, y0 := append([]float64(nil), x.Data...), append([]float64(nil), y.Data...)
	m.Fit(x, y)
	got := params64(m)
	got.each(func(l, j, k int, p *float64) {
		vp.Near(up64(*p), up64(n.at(l, j, k)), tol64, "epochs of mini-batches")
	})
	vp.Near(up64(m.Loss), up64(loss/float64(rows)), tol64, "loss of an epoch is the mean over the rows")
	for i, v := range x0 {
		vp.Assert(x.Data[i] == v, "X left in order")
	}
	for i, v := range y0 {
		vp.Assert(y.Data[i] == v, "Y left in order")
	}
	// predictions
	p := g64("p", rows, outs, func(i, j int) float64 { return 9 }, false)
	m.Predict(x, p)
	for i := 0; i < rows; i++ {
		a := got.run(x.Data[i*x.Stride : i*x.Stride+feats])
		o := a[len(a)-1]
		for k := range o {
			v := up64(p.Data[i*p.Stride+k])
			if !clf {
				vp.Near(v, up64(o[k]), tol64, "prediction")
				continue
			}
			best := up64(o[k]) > .5-tol64
			sure := up64(o[k]) > .5+tol64
			if outs > 1 {
				best, sure = true, true
				for k2 := range o {
					best = best && up64(o[k]) > up64(o[k2])-tol64
					sure = sure && (k == k2 || up64(o[k]) > up64(o[k2])+tol64)
				}
			}
			vp.Assert(v == 1 && best || v == 0 && !sure, "prediction")
		}
	}
	vp.Reach("wide")
}
