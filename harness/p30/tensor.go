package p30

import (
	"github.com/pa-m/sklearn/gaussian_process/kernels"
	"github.com/pa-m/sklearn/gaussian_process/tensor"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

// HTensor: tensors are row major, bounds checked, and iterated entirely; Diff3D finds any difference.
func HTensor() {
	s := tensor.Shape{1 + vp.Choose("s0", 2), 1 + vp.Choose("s1", 2), vp.Choose("s2", 3)}
	n := s[0] * s[1] * s[2]
	data := make([]float64, n)
	for i := range data {
		data[i] = vp.FloatIn("v"+h.Itoa(i), -2, 2)
	}
	t := tensor.NewDense(tensor.Float64, s, tensor.WithBacking(data))
	z := tensor.NewDense(tensor.Float64, s)
	vp.Assert(len(z.Data().([]float64)) == n && t.Dtype() == tensor.Float64, "room for all elements")
	st := t.Strides()
	pos := 0
	for i := -1; i <= s[0]; i++ {
		for j := -1; j <= s[1]; j++ {
			for k := -1; k <= s[2]; k++ {
				v, err := t.At(i, j, k)
				if i < 0 || j < 0 || k < 0 || i == s[0] || j == s[1] || k == s[2] {
					vp.Assert(err == tensor.ErrIndexOutOfBounds, "elements out of bounds are refused")
					continue
				}
				vp.Assert(err == nil, "elements in bounds are found")
				vp.Eq(v.(float64), data[pos], "elements are row major")
				vp.Assert(i*st[0]+j*st[1]+k*st[2] == pos, "strides are row major")
				pos++
			}
		}
	}
	it := t.Iterator()
	for pass := 0; pass < 2; pass++ {
		c := 0
		for i, e := it.Start(); e == nil; i, e = it.Next() {
			vp.Assert(i == c, "the iterator goes in order")
			c++
		}
		vp.Assert(c == n, "the iterator visits all")
	}
	if n > 0 {
		other := append([]float64(nil), data...)
		i := vp.Choose("differ", n)
		d := vp.FloatIn("d", -4, 4)
		other[i] += d
		o := tensor.NewDense(tensor.Float64, s, tensor.WithBacking(other))
		vp.Assert((kernels.Diff3D(t, o, 1) != nil) == (h.Abs(d) > 1), "Diff3D reports a difference above the tolerance")
		vp.Assert((kernels.Diff3D(o, t, 1) != nil) == (h.Abs(d) > 1), "Diff3D reports a difference above the tolerance")
	}
	vp.Reach("tensor")
}

// HFunc: a matrix of functions is read, written and transposed through them.
func HFunc() {
	D := h.DenseIn("D", 2, 3, -2, 2)
	m := kernels.NewMatFromFunc(2, 3, D.At, D.Set)
	h.EqMat(mat.DenseCopyOf(m), D, "read")
	r, c := m.T().Dims()
	vp.Assert(r == 3 && c == 2, "transposed")
	i, j := vp.Choose("i", 2), vp.Choose("j", 3)
	vp.Eq(m.T().At(j, i), D.At(i, j), "transposed")
	vp.Eq(m.T().T().At(i, j), D.At(i, j), "transposed twice")
	v := vp.FloatIn("v", -2, 2)
	Dc := h.Copy(D)
	m.(mat.Mutable).Set(i, j, v)
	Dc.Set(i, j, v)
	h.EqMat(D, Dc, "written")
	vp.Reach("func")
}
