// Package p30: gaussian process kernels and regression.
package p30

import (
	"math"

	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/gaussian_process/tensor"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

var (
	free  = [2]float64{1e-3, 1e3}
	fixed = [2]float64{1, 1}
)

func bounds(name string) (b [2]float64, n int) {
	if vp.Choose(name, 2) == 1 {
		return fixed, 0
	}
	return free, 1
}

// eval evaluates k and asserts all that does not depend on the kind of kernel; f(i,j) is k(X_i, Y_j) and
// g(i,j,p) the derivative with respect to the log of free hyperparameter p.
func eval(k kernels.Kernel, nparams int, X *mat.Dense, f func(X, Y *mat.Dense, i, j int) float64, g func(i, j, p int) float64, Yrows ...func() *mat.Dense) {
	nx, nfeat := X.Dims()
	X = h.MaybeView("X", X)
	Xc := h.Copy(X)
	if vp.Choose("other", 2) == 1 {
		Y := h.DenseIn("Y", 2, nfeat, -2, 2)
		if len(Yrows) > 0 {
			Y = Yrows[0]()
		}
		Y = h.MaybeView("Y", Y)
		K, Kg := k.Eval(X, Y, vp.Choose("gradient", 2) == 1)
		r, c := K.Dims()
		vp.Assert(r == nx && c == 2 && Kg == nil, "k(X,Y) has a row by sample of X, a column by sample of Y, no gradient")
		for i := 0; i < nx; i++ {
			for j := 0; j < 2; j++ {
				vp.Eq(K.At(i, j), f(X, Y, i, j), "k(X,Y)")
			}
		}
		vp.Reach("other")
		return
	}
	grad := vp.Choose("gradient", 2) == 1
	K, Kg := k.Eval(X, nil, grad)
	r, c := K.Dims()
	vp.Assert(r == nx && c == nx, "k(X,X) is square")
	D := k.Diag(X)
	n, _ := D.Dims()
	vp.Assert(n == nx, "a diagonal element by sample")
	for i := 0; i < nx; i++ {
		for j := 0; j < nx; j++ {
			vp.Eq(K.At(i, j), f(X, X, i, j), "k(X,X)")
		}
		vp.Eq(D.At(i, i), f(X, X, i, i), "Diag is the diagonal of k(X,X)")
	}
	vp.Assert((Kg != nil) == grad, "the gradient is evaluated when asked")
	if grad {
		s := Kg.Shape()
		vp.Assert(s[0] == nx && s[1] == nx && s[2] == nparams, "a gradient component by free hyperparameter")
		if nparams > 0 {
			for i := 0; i < nx; i++ {
				for j := 0; j < nx; j++ {
					for p := 0; p < nparams; p++ {
						vp.Eq(at(Kg, i, j, p), g(i, j, p), "gradient with respect to the log of hyperparameters")
					}
				}
			}
		}
	}
	h.EqMat(X, Xc, "X is left alone")
	vp.Reach("self")
}

func at(t *tensor.Dense, idx ...int) float64 {
	v, err := t.At(idx...)
	vp.Assert(err == nil, "the element is there")
	return v.(float64)
}

// HConstant: k = ConstantValue.
func HConstant() {
	b, n := bounds("fixed")
	c := vp.FloatIn("value", .25, 4)
	k := &kernels.ConstantKernel{ConstantValue: c, ConstantValueBounds: b}
	vp.Assert(k.IsStationary(), "stationary")
	eval(k, n, h.DenseIn("X", 2, 2, -2, 2), func(X, Y *mat.Dense, i, j int) float64 { return c }, func(i, j, p int) float64 { return c })
}

// HWhite: k = NoiseLevel where the samples are equal.
func HWhite() {
	b, n := bounds("fixed")
	c := vp.FloatIn("value", .25, 4)
	k := &kernels.WhiteKernel{NoiseLevel: c, NoiseLevelBounds: b}
	vp.Assert(k.IsStationary(), "stationary")
	// samples are equal or well apart
	x0, y0 := vp.FloatIn("x", -2, 2), vp.FloatIn("y", -2, 2)
	rows := func(name string, n int) (*mat.Dense, []int) {
		at := make([]int, n)
		M := mat.NewDense(n, 2, nil)
		for i := range at {
			at[i] = vp.Choose(name+h.Itoa(i), 3)
			M.SetRow(i, [][]float64{{x0, y0}, {x0 + .01, y0}, {x0, y0 - 3}}[at[i]])
		}
		return M, at
	}
	X, atX := rows("row", 3)
	var atY []int
	eval(k, n, X, func(_, Y *mat.Dense, i, j int) float64 {
		at := atX
		if atY != nil {
			at = atY
		}
		if atX[i] == at[j] {
			return c
		}
		return 0
	}, func(i, j, p int) float64 {
		if atX[i] == atX[j] {
			return c
		}
		return 0
	}, func() (Y *mat.Dense) {
		Y, atY = rows("other", 2)
		return
	})
}

// HRBF: k = exp(-d²/2) with distances scaled, by all or each length scale.
func HRBF() {
	aniso := vp.Choose("anisotropic", 2) == 1
	ls := []float64{vp.FloatIn("scale0", .5, 2)}
	var b [][2]float64
	var open []int
	if vp.Choose("missing bounds", 2) == 0 {
		b0, n0 := bounds("fixed0")
		b = append(b, b0)
		if n0 == 1 {
			open = append(open, 0)
		}
	}
	if aniso {
		ls = append(ls, vp.FloatIn("scale1", .5, 2))
		if b != nil {
			b1, n1 := bounds("fixed1")
			b = append(b, b1)
			if n1 == 1 {
				open = append(open, 1)
			}
		}
	}
	k := &kernels.RBF{LengthScale: ls, LengthScaleBounds: b}
	vp.Assert(k.IsStationary() && k.IsAnisotropic() == aniso, "stationary")
	X := h.DenseIn("X", 2, 2, -2, 2)
	d2 := func(X, Y *mat.Dense, i, j, f int) float64 {
		l := ls[0]
		if aniso {
			l = ls[f]
		}
		d := X.At(i, f)/l - Y.At(j, f)/l
		return d * d
	}
	rbf := func(X, Y *mat.Dense, i, j int) float64 {
		return math.Exp(-.5 * (d2(X, Y, i, j, 0) + d2(X, Y, i, j, 1)))
	}
	eval(k, len(open), X, rbf, func(i, j, p int) float64 {
		s := 0.
		for f := 0; f < 2; f++ {
			if !aniso || f == open[p] {
				s += d2(X, X, i, j, f)
			}
		}
		return rbf(X, X, i, j) * s
	})
}

// HDot: k = Sigma0² + x.y.
func HDot() {
	b, n := bounds("fixed")
	s := vp.FloatIn("value", .25, 4)
	k := &kernels.DotProduct{Sigma0: s, Sigma0Bounds: b}
	vp.Assert(!k.IsStationary(), "not stationary")
	eval(k, n, h.DenseIn("X", 2, 2, -2, 2), func(X, Y *mat.Dense, i, j int) float64 {
		return s*s + X.At(i, 0)*Y.At(j, 0) + X.At(i, 1)*Y.At(j, 1)
	}, func(i, j, p int) float64 { return 2 * s * s })
}

// HCompose: sums, products and powers of kernels.
func HCompose() {
	c, s := vp.FloatIn("value", .25, 4), vp.FloatIn("sigma", .25, 2)
	bc, nc := bounds("fixed constant")
	bs, ns := bounds("fixed sigma")
	k1 := &kernels.ConstantKernel{ConstantValue: c, ConstantValueBounds: bc}
	k2 := &kernels.DotProduct{Sigma0: s, Sigma0Bounds: bs}
	dot := func(X, Y *mat.Dense, i, j int) float64 { return s*s + X.At(i, 0)*Y.At(j, 0) }
	X := h.DenseIn("X", 2, 1, -2, 2)
	two := kernels.KernelOperator{K1: k1, K2: k2}
	swap := vp.Choose("swap", 2) == 1
	if swap {
		two = kernels.KernelOperator{K1: k2, K2: k1}
	}
	vp.Assert(!two.IsStationary() && kernels.KernelOperator{K1: k1, K2: k1}.IsStationary(), "stationary when both are")
	// which: of free hyperparameter p of the pair, is it that of the constant
	isC := func(p int) bool {
		if nc+ns == 2 {
			return (p == 0) != swap
		}
		return nc == 1
	}
	switch vp.Choose("kind", 4) {
	case 0:
		eval(&kernels.Sum{KernelOperator: two}, nc+ns, X,
			func(X, Y *mat.Dense, i, j int) float64 { return c + dot(X, Y, i, j) },
			func(i, j, p int) float64 {
				if isC(p) {
					return c
				}
				return 2 * s * s
			})
	case 1:
		eval(&kernels.Product{KernelOperator: two}, nc+ns, X,
			func(X, Y *mat.Dense, i, j int) float64 { return c * dot(X, Y, i, j) },
			func(i, j, p int) float64 {
				if isC(p) {
					return c * dot(X, X, i, j)
				}
				return c * 2 * s * s
			})
	case 2:
		e := float64(1 + vp.Choose("exponent", 3))
		pw := func(v float64, e float64) float64 {
			r := 1.
			for ; e >= 1; e-- {
				r *= v
			}
			return r
		}
		eval(&kernels.Exponentiation{Kernel: &kernels.Product{KernelOperator: two}, Exponent: e}, nc+ns, X,
			func(X, Y *mat.Dense, i, j int) float64 { return pw(c*dot(X, Y, i, j), e) },
			func(i, j, p int) float64 {
				v := c * dot(X, X, i, j)
				f := e * pw(v, e-1)
				if isC(p) {
					return f * v
				}
				return f * c * 2 * s * s
			})
	case 3: // nested
		d := vp.FloatIn("outer", .25, 4)
		k := &kernels.Sum{KernelOperator: kernels.KernelOperator{
			K1: &kernels.ConstantKernel{ConstantValue: d, ConstantValueBounds: free},
			K2: &kernels.Product{KernelOperator: two}}}
		eval(k, 1+nc+ns, X,
			func(X, Y *mat.Dense, i, j int) float64 { return d + c*dot(X, Y, i, j) },
			func(i, j, p int) float64 {
				switch {
				case p == 0:
					return d
				case isC(p - 1):
					return c * dot(X, X, i, j)
				}
				return c * 2 * s * s
			})
	}
}

type param struct {
	value  float64
	bounds [2]float64
}

// HTheta: theta is the logs of the free hyperparameters in order, bounds likewise, and
// a clone has those of theta, the others of the cloned, and nothing in common.
func HTheta() {
	var all []param
	p := func(name string, lo, hi float64) (float64, [2]float64) {
		b := [2]float64{lo, hi}
		if vp.Choose("fixed "+name, 2) == 1 {
			b[1] = b[0]
		}
		v := vp.FloatIn(name, .25, 4)
		all = append(all, param{v, b})
		return v, b
	}
	var k kernels.Kernel
	kind := vp.Choose("kind", 7)
	c := &kernels.ConstantKernel{}
	mk := func() { c.ConstantValue, c.ConstantValueBounds = p("constant", 1e-2, 1e2) }
	switch kind {
	case 0:
		mk()
		k = c
	case 1:
		w := &kernels.WhiteKernel{}
		w.NoiseLevel, w.NoiseLevelBounds = p("noise", 1e-3, 10)
		k = w
	case 2:
		d := &kernels.DotProduct{}
		d.Sigma0, d.Sigma0Bounds = p("sigma", 1e-1, 20)
		k = d
	case 3:
		r := &kernels.RBF{LengthScale: make([]float64, 2), LengthScaleBounds: make([][2]float64, 2)}
		for i := range r.LengthScale {
			r.LengthScale[i], r.LengthScaleBounds[i] = p("scale"+h.Itoa(i), 1e-2, 5+float64(i))
		}
		k = r
	default:
		mk()
		w := &kernels.WhiteKernel{}
		w.NoiseLevel, w.NoiseLevelBounds = p("noise", 1e-3, 10)
		op := kernels.KernelOperator{K1: c, K2: w}
		switch kind {
		case 4:
			k = &kernels.Sum{KernelOperator: op}
		case 5:
			k = &kernels.Product{KernelOperator: op}
		case 6:
			k = &kernels.Exponentiation{Kernel: &kernels.Sum{KernelOperator: op}, Exponent: 3}
		}
	}
	var free []param
	for _, q := range all {
		if q.bounds[0] != q.bounds[1] {
			free = append(free, q)
		}
	}
	same := func(k kernels.Kernel, free []param, what string) {
		T, B := k.Theta(), k.Bounds()
		r, cc := T.Dims()
		vp.Assert(r == len(free) && cc == 1, "theta has an element by free hyperparameter")
		r, cc = B.Dims()
		vp.Assert(r == len(free) && cc == 2, "bounds are pairs")
		for i, q := range free {
			vp.Near(T.At(i, 0), math.Log(q.value), 1e-9, what+": theta is the log of the hyperparameters")
			for j := 0; j < 2; j++ {
				vp.Near(B.At(i, j), math.Log(q.bounds[j]), 1e-9, what+": bounds are the logs of the bounds")
			}
		}
		// the fixed ones show in the values
		X := mat.NewDense(2, 2, []float64{1, 0, 0, 2})
		K, _ := k.Eval(X, nil, false)
		vals := make([]float64, len(all))
		for i, f := 0, 0; i < len(all); i++ {
			vals[i] = all[i].value
			if all[i].bounds[0] != all[i].bounds[1] {
				vals[i] = free[f].value
				f++
			}
		}
		var want float64
		switch kind {
		case 0, 1:
			want = vals[0]
		case 2:
			want = vals[0]*vals[0] + 1
		case 3:
			want = 1
			vp.Near(K.At(0, 1), math.Exp(-.5*(1/(vals[0]*vals[0])+4/(vals[1]*vals[1]))), 1e-6, what+": values")
		case 4:
			want = vals[0] + vals[1]
		case 5:
			want = vals[0] * vals[1]
		case 6:
			s := vals[0] + vals[1]
			want = s * s * s
		}
		vp.Near(K.At(0, 0), want, 1e-6, what+": values")
	}
	same(k, free, "kernel")
	same(k.CloneWithTheta(nil), free, "plain clone")
	// new values
	nt := mat.NewDense(len(all), 1, nil) // longer when some are fixed
	set := append([]param(nil), free...)
	for i := range set {
		set[i].value = vp.FloatIn("new"+h.Itoa(i), .25, 4)
		nt.Set(i, 0, math.Log(set[i].value))
	}
	var T mat.Matrix = kernels.NewMatFromFunc(len(set), 1, func(i, j int) float64 { return nt.At(i, j) }, nil)
	clone := k.CloneWithTheta(T)
	same(clone, set, "clone")
	same(k, free, "cloned")
	// theta of a kernel writes in the kernel
	if len(free) > 0 {
		M := clone.Theta().(mat.Mutable)
		v := vp.FloatIn("written", .25, 4)
		M.Set(0, 0, math.Log(v))
		set[0].value = v
		same(clone, set, "written clone")
		same(k, free, "cloned")
	}
	vp.Reach("theta")
}
