// Package p03: stochastic-gradient optimizers and activation functions.
package p03

import (
	"math"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

type cell struct{ g, u, m, v, prev float64 }

// ref is the documented per-coordinate rule; g is the (clipped) gradient, t the 1-based step.
func ref(name string, s *base.SGDOptimizer, c *cell, g, t float64) float64 {
	var upd float64
	eta := s.StepSize * 100 / (100 + t)
	switch name {
	case "sgd":
		upd = -eta * g / math.Sqrt(t)
	case "adagrad":
		e := s.StepSize
		if t > 1 {
			e /= math.Sqrt(c.g) + s.Epsilon
		}
		upd = -e * g
		c.g += g * g
	case "rmsprop":
		upd = -s.StepSize * g
		if t > 1 {
			upd = vp.IfF(c.g > 1, -s.StepSize*g/math.Sqrt(c.g+s.Epsilon), upd)
		}
		c.g = c.g*s.RMSPropGamma + (1-s.RMSPropGamma)*g*g
	case "adadelta":
		c.g = s.RMSPropGamma*c.g + (1-s.RMSPropGamma)*g*g
		e := eta
		if t > 1 {
			e = math.Sqrt(c.u) / math.Sqrt(c.g+s.Epsilon)
		}
		upd = -e * g
		c.u = s.RMSPropGamma*c.u + (1-s.RMSPropGamma)*upd*upd
	case "adam":
		c.m = s.Beta1*c.m + (1-s.Beta1)*g
		c.v = s.Beta2*c.v + (1-s.Beta2)*g*g
		upd = -s.StepSize * (c.m / (1 - math.Pow(s.Beta1, t))) / (math.Sqrt(c.v/(1-math.Pow(s.Beta2, t))) + s.Epsilon)
	}
	if s.Momentum > 0 {
		upd += s.Momentum * c.prev
	}
	c.prev = upd
	return upd
}

var names = []string{"sgd", "adagrad", "rmsprop", "adadelta", "adam"}

func newOpt(how int, name string) *base.SGDOptimizer {
	switch how {
	case 0:
		return base.NewOptimizer(name).(*base.SGDOptimizer)
	case 1:
		return base.NewSolver(name)().(*base.SGDOptimizer)
	}
	return base.GOMethodCreators[name]().(*base.SGDOptimizer)
}

// HRule: over several steps and for arbitrary gradients, parameters move by exactly the documented rule.
func HRule() {
	name := names[vp.Choose("solver", len(names))]
	s := newOpt(vp.Choose("ctor", 3), name)
	steps := 2
	if vp.Thorough() {
		steps = 3
	}
	if name == "sgd" || name == "rmsprop" {
		steps = 3
	}
	s.GradientClipping = 0
	mom := vp.Choose("momentum", 2)
	if mom == 1 {
		s.Momentum = .5
	} else {
		s.Momentum = 0
	}
	r, c := 2, 1
	if vp.Choose("shape", 2) == 1 {
		r, c = 1, 2
	}
	theta, parent := h.View(h.Dense("theta", r, c))
	want := h.Copy(theta)
	s.SetTheta(theta)
	cells := make([]cell, r*c)
	for i := range cells {
		cells[i].g = s.Epsilon
		cells[i].u = 1
	}
	for t := 1; t <= steps; t++ {
		grad := h.DenseIn("grad", r, c, -10, 10)
		keep := h.Copy(grad)
		s.UpdateParams(grad)
		for i := 0; i < r; i++ {
			for j := 0; j < c; j++ {
				want.Set(i, j, want.At(i, j)+ref(name, s, &cells[i*c+j], keep.At(i, j), float64(t)))
			}
		}
		h.EqMat(s.GetTheta(), want, name+": parameters after the step")
		h.EqMat(theta, want, name+": the caller's parameters are updated in place")
		h.EqMat(grad, keep, name+": the gradient is left alone")
		vp.Assert(s.GetTimeStep() == uint64(t), name+": the step count")
	}
	h.PadIntact(parent, name+": nothing but the parameters is written")
}

// HRuleWide: the same over many steps of more parameters.
func HRuleWide() {
	vp.NativeFloats(true)
	name := names[vp.Choose("solver", len(names))]
	s := newOpt(vp.Choose("ctor", 3), name)
	s.GradientClipping = []float64{0, 6}[vp.Choose("clip", 2)]
	s.Momentum = []float64{0, .5}[vp.Choose("momentum", 2)]
	r, c := 5, 3
	theta := h.Fixed(r, c, 1)
	theta.Set(4, 2, vp.FloatIn("theta", -5, 5))
	want := h.Copy(theta)
	s.SetTheta(theta)
	cells := make([]cell, r*c)
	for i := range cells {
		cells[i].g = s.Epsilon
		cells[i].u = 1
	}
	for t := 1; t <= 30; t++ {
		grad := h.Fixed(r, c, t*t)
		s.UpdateParams(grad)
		for j := 0; j < c; j++ {
			norm, scale := 0., 1.
			for i := 0; i < r; i++ {
				norm += grad.At(i, j) * grad.At(i, j)
			}
			if norm = math.Sqrt(norm); s.GradientClipping > 0 && norm > s.GradientClipping {
				scale = s.GradientClipping / norm
				vp.Reach("clipped")
			}
			for i := 0; i < r; i++ {
				want.Set(i, j, want.At(i, j)+ref(name, s, &cells[i*c+j], scale*grad.At(i, j), float64(t)))
			}
		}
		h.NearMat(theta, want, 1e-6, name+": parameters after many steps")
	}
}

// HClip: gradient clipping bounds the norm of every output's gradient and keeps its direction.
func HClip() {
	s := base.NewSGDOptimizer()
	s.Momentum = 0
	s.StepSize = 101 // 100 after the first step's decay
	s.GradientClipping = 5
	grad := h.DenseIn("grad", 2, 2, -10, 10)
	upd := mat.NewDense(2, 2, nil)
	s.GetUpdate(upd, grad)
	for j := 0; j < 2; j++ {
		n2 := grad.At(0, j)*grad.At(0, j) + grad.At(1, j)*grad.At(1, j)
		u2 := upd.At(0, j)*upd.At(0, j) + upd.At(1, j)*upd.At(1, j)
		vp.Eq(upd.At(0, j)*grad.At(1, j), upd.At(1, j)*grad.At(0, j), "clipping keeps the direction")
		if n2 > 25 {
			vp.Reach("clipped")
			vp.Eq(u2, 25*10000, "a gradient above the limit is scaled to the limit")
		} else {
			vp.Eq(upd.At(0, j), -100*grad.At(0, j), "a gradient below the limit is left alone")
			vp.Eq(upd.At(1, j), -100*grad.At(1, j), "a gradient below the limit is left alone")
		}
	}
}

// HZero: a zero gradient with no history never moves the parameters.
func HZero() {
	name := names[vp.Choose("solver", len(names))]
	s := newOpt(0, name)
	theta := h.Dense("theta", 2, 1)
	keep := h.Copy(theta)
	s.SetTheta(theta)
	for k := 0; k < 3; k++ {
		s.UpdateParams(mat.NewDense(2, 1, nil))
	}
	h.EqMat(theta, keep, name+": parameters do not move under zero gradients")
}

// HDescent: the first step moves every coordinate strictly against its gradient.
func HDescent() {
	name := names[vp.Choose("solver", len(names))]
	s := newOpt(0, name)
	grad := h.DenseIn("grad", 2, 1, -3, 3)
	upd := mat.NewDense(2, 1, nil)
	s.GetUpdate(upd, grad)
	for i := 0; i < 2; i++ {
		g, u := grad.At(i, 0), upd.At(i, 0)
		vp.Assert(vp.And(vp.Implies(g > 0, u < 0), vp.Implies(g < 0, u > 0), vp.Implies(g == 0, u == 0)), name+": the first step goes downhill")
	}
}

// HActivation: activation values, and derivatives expressed through the activation's value.
func HActivation() {
	x := vp.FloatIn("x", -20, 20)
	y := vp.FloatIn("y", -20, 20)
	a := base.Activations["identity"]
	vp.Eq(a.F(x), x, "identity")
	vp.Eq(a.Fprime(a.F(x)), 1, "identity derivative")
	a = base.Activations["relu"]
	vp.Eq(a.F(x), vp.IfF(x > 0, x, 0), "relu")
	vp.Eq(a.Fprime(a.F(x)), vp.IfF(x > 0, 1, 0), "relu derivative")
	a = base.Activations["logistic"]
	e := math.Exp(-x)
	vp.Eq(a.F(x), 1/(1+e), "logistic")
	vp.Assert(vp.And(a.F(x) > 0, a.F(x) < 1), "logistic range")
	vp.Assert(vp.Implies(x <= y, a.F(x) <= a.F(y)), "logistic is increasing")
	vp.Eq(a.Fprime(a.F(x)), e/((1+e)*(1+e)), "logistic derivative")
	a = base.Activations["tanh"]
	t := math.Tanh(x)
	vp.Eq(a.F(x), t, "tanh")
	vp.Eq(a.Fprime(a.F(x)), 1-t*t, "tanh derivative")
	vp.Assert(vp.Implies(x <= y, a.F(x) <= a.F(y)), "tanh is increasing")
}
