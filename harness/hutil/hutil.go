// Package hutil holds helpers shared by the harnesses.
package hutil

import (
	"math"
	"strconv"

	"github.com/pa-m/sklearn/vp"
	"gonum.org/v1/gonum/mat"
)

// Dense is an r×c matrix of arbitrary reals.
func Dense(name string, r, c int) *mat.Dense {
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, vp.Float(name+"["+strconv.Itoa(i)+","+strconv.Itoa(j)+"]"))
		}
	}
	return d
}

// DenseIn is an r×c matrix of arbitrary reals in [lo,hi].
func DenseIn(name string, r, c int, lo, hi float64) *mat.Dense {
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, vp.FloatIn(name+"["+strconv.Itoa(i)+","+strconv.Itoa(j)+"]", lo, hi))
		}
	}
	return d
}

// Pad is about the value of the cells around a strided view: they differ between views.
const Pad = 777.

type padded struct {
	parent *mat.Dense
	pad    float64
}

var views []padded

// View copies d into the middle of a larger matrix and returns the view (stride > columns) and its parent.
func View(d *mat.Dense) (view, parent *mat.Dense) {
	r, c := d.Dims()
	parent = mat.NewDense(r+2, c+3, nil)
	pad := Pad + float64(len(views))
	views = append(views, padded{parent, pad})
	for i := 0; i < r+2; i++ {
		for j := 0; j < c+3; j++ {
			parent.Set(i, j, pad)
		}
	}
	view = parent.Slice(1, r+1, 1, c+1).(*mat.Dense)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			view.Set(i, j, d.At(i, j))
		}
	}
	return
}

// PadIntact asserts that nothing outside the view was written.
func PadIntact(parent *mat.Dense, msg string) {
	r, c := parent.Dims()
	pad := Pad
	for _, v := range views {
		if v.parent == parent {
			pad = v.pad
		}
	}
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			if i == 0 || i == r-1 || j == 0 || j >= c-2 {
				vp.Eq(parent.At(i, j), pad, msg)
			}
		}
	}
}

// MaybeView returns d itself or a strided view with the same content, by choice.
func MaybeView(name string, d *mat.Dense) *mat.Dense {
	if vp.Choose(name+".strided", 2) == 1 {
		v, _ := View(d)
		return v
	}
	return d
}

// Copy copies a matrix.
func Copy(m mat.Matrix) *mat.Dense {
	r, c := m.Dims()
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, m.At(i, j))
		}
	}
	return d
}

// EqMat asserts that two matrices are equal.
func EqMat(a, b mat.Matrix, msg string) {
	ra, ca := a.Dims()
	rb, cb := b.Dims()
	vp.Assert(ra == rb && ca == cb, msg+": dims")
	for i := 0; i < ra; i++ {
		for j := 0; j < ca; j++ {
			vp.Eq(a.At(i, j), b.At(i, j), msg)
		}
	}
}

// NearMat asserts that two matrices agree within tol.
func NearMat(a, b mat.Matrix, tol float64, msg string) {
	ra, ca := a.Dims()
	rb, cb := b.Dims()
	vp.Assert(ra == rb && ca == cb, msg+": dims")
	for i := 0; i < ra; i++ {
		for j := 0; j < ca; j++ {
			vp.Near(a.At(i, j), b.At(i, j), tol, msg)
		}
	}
}

// Const builds a matrix from literals.
func Const(r, c int, v ...float64) *mat.Dense { return mat.NewDense(r, c, v) }

// Labels is an r×c matrix whose cells are chosen among the integers lo..hi.
func Labels(name string, r, c, lo, hi int) *mat.Dense {
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, float64(lo+vp.Choose(name+"["+strconv.Itoa(i)+","+strconv.Itoa(j)+"]", hi-lo+1)))
		}
	}
	return d
}

// Fixed is an r×c matrix of fixed halves in [-5,5], with ties.
func Fixed(r, c, seed int) *mat.Dense {
	d := mat.NewDense(r, c, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < c; j++ {
			d.Set(i, j, float64((i*i*3+i*7+j*j*5+j*13+i*j*2+seed*9)%21-10)/2)
		}
	}
	return d
}

// Wide is a larger matrix of fixed values, one of which (first, last or in between) is arbitrary in [lo,hi].
func Wide(name string, r, c, seed int, lo, hi float64) *mat.Dense {
	d := Fixed(r, c, seed)
	v := vp.FloatIn(name, lo, hi)
	switch vp.Choose(name+".at", 3) {
	case 0:
		d.Set(0, 0, v)
	case 1:
		d.Set(r/2, c/2, v)
	default:
		d.Set(r-1, c-1, v)
	}
	return d
}

// Itoa is strconv.Itoa.
func Itoa(i int) string { return strconv.Itoa(i) }

// Abs is |x| without forking.
func Abs(x float64) float64 { return math.Abs(x) }

// Max is the maximum without forking.
func Max(a, b float64) float64 { return vp.IfF(a < b, b, a) }

// Min is the minimum without forking.
func Min(a, b float64) float64 { return vp.IfF(a < b, a, b) }
