// Package p02: matrix adapters and views.
package p02

import (
	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

func dims() (int, int) {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	return 1 + vp.Choose("r", n), 1 + vp.Choose("c", n)
}

// HTranspose: a transposed view reads and writes the mirrored cell.
func HTranspose() {
	r, c := dims()
	m := h.MaybeView("m", h.Dense("m", r, c))
	ref := h.Copy(m)
	t := base.MatTranspose{Matrix: m}
	tr, tc := t.Dims()
	vp.Assert(tr == c && tc == r, "transposed dims")
	i, j := vp.Choose("i", r), vp.Choose("j", c)
	vp.Eq(t.At(j, i), ref.At(i, j), "transposed read")
	v := vp.Float("v")
	t.Set(j, i, v)
	ref.Set(i, j, v)
	h.EqMat(m, ref, "transposed write reaches exactly the mirrored cell")
	back := t.T()
	h.EqMat(back, ref, "transposing twice is the identity")
	if w, ok := back.(mat.Mutable); ok {
		w.Set(i, j, 8)
		ref.Set(i, j, 8)
		h.EqMat(m, ref, "writing through a view transposed twice")
		w.Set(i, j, v)
		ref.Set(i, j, v)
	}
	k := base.MatConst{Rows: r, Columns: c, Value: v}
	kr, kc := k.T().Dims()
	vp.Assert(kr == c && kc == r, "constant matrix dims")
	vp.Eq(k.T().At(j, i), v, "constant matrix value")
}

// HRowSlice: a row-slice view reads and writes the parent's rows start..end.
func HRowSlice() {
	n := 4
	c := 1 + vp.Choose("c", 2)
	m := h.MaybeView("m", h.Dense("m", n, c))
	ref := h.Copy(m)
	s := vp.Choose("start", n)
	e := s + 1 + vp.Choose("len", n-s)
	v := base.MatRowSlice{Matrix: m, Start: s, End: e}
	vr, vc := v.Dims()
	vp.Assert(vr == e-s && vc == c, "row slice dims")
	i, j := vp.Choose("i", e-s), vp.Choose("j", c)
	vp.Eq(v.At(i, j), ref.At(s+i, j), "row slice read")
	vp.Assert(vp.Panics(func() { v.At(e-s, j) }), "reading past the end of a row slice is rejected")
	vp.Assert(vp.Panics(func() { v.At(-1, j) }), "reading before the start of a row slice is rejected")
	x := vp.Float("v")
	v.Set(i, j, x)
	ref.Set(s+i, j, x)
	h.EqMat(m, ref, "row slice write reaches exactly the parent's cell")
	vp.Eq(v.T().At(j, i), x, "transposed row slice")
}

// HSlices: raw sub-matrix views share the parent's cells.
func HSlices() {
	n := 3
	if vp.Thorough() {
		n = 4
	}
	m := h.MaybeView("m", h.Dense("m", n, n))
	ref := h.Copy(m)
	i := vp.Choose("i", n)
	k := i + 1 + vp.Choose("k", n-i)
	j := vp.Choose("j", n)
	l := j + 1 + vp.Choose("l", n-j)
	x := vp.Float("x")
	check := func(v *mat.Dense, r0, r1, c0, c1 int, msg string) {
		vr, vc := v.Dims()
		vp.Assert(vr == r1-r0 && vc == c1-c0, msg+" dims")
		for a := 0; a < vr; a++ {
			for b := 0; b < vc; b++ {
				vp.Eq(v.At(a, b), ref.At(r0+a, c0+b), msg+" read")
			}
		}
		v.Set(vr-1, vc-1, x)
		ref.Set(r1-1, c1-1, x)
		h.EqMat(m, ref, msg+" write")
	}
	switch vp.Choose("kind", 3) {
	case 0:
		check(base.MatDenseSlice(m, i, k, j, l), i, k, j, l, "slice")
	case 1:
		check(base.MatDenseRowSlice(m, i, k), i, k, 0, n, "row slice")
	case 2:
		check(base.MatDenseColSlice(m, j, l), 0, n, j, l, "column slice")
	}
}

// plain hides RawMatrix so that the generic code paths are taken.
type plain struct{ d *mat.Dense }

func (p plain) Dims() (int, int)        { return p.d.Dims() }
func (p plain) At(i, j int) float64     { return p.d.At(i, j) }
func (p plain) T() mat.Matrix           { return mat.Transpose{Matrix: p} }
func (p plain) Set(i, j int, v float64) { p.d.Set(i, j, v) }

// HToFromDense: conversions to and from dense matrices keep every cell, for views and generic matrices.
func HToFromDense() {
	r, c := dims()
	src := h.MaybeView("src", h.Dense("src", r, c))
	ref := h.Copy(src)
	switch vp.Choose("kind", 3) {
	case 0:
		h.EqMat(base.ToDense(src), ref, "ToDense of a dense matrix")
	case 1:
		h.EqMat(base.ToDense(plain{src}), ref, "ToDense of a generic matrix")
	case 2:
		h.EqMat(base.ToDense(base.MatTranspose{Matrix: src}), ref.T(), "ToDense of a transposed view")
	}
	h.EqMat(src, ref, "ToDense leaves its argument unchanged")
	dst, parent := h.View(mat.NewDense(r, c, nil))
	switch vp.Choose("dst", 3) {
	case 0:
		base.FromDense(dst, src)
		h.EqMat(dst, ref, "FromDense to a strided view")
		h.PadIntact(parent, "FromDense writes only the view")
	case 1:
		base.FromDense(plain{dst}, src)
		h.EqMat(dst, ref, "FromDense to a generic mutable matrix")
		h.PadIntact(parent, "FromDense writes only the target")
	case 2:
		d := mat.NewDense(r, c, nil)
		base.FromDense(d, src)
		h.EqMat(d, ref, "FromDense to a dense matrix")
	}
	h.EqMat(src, ref, "FromDense leaves its source unchanged")
}

// raw is a matrix that is not dense but gives its storage away.
type raw struct{ *mat.Dense }

// HWide: larger matrices, of every kind.
func HWide() {
	shape := [][2]int{{11, 7}, {2, 70}, {67, 3}}[vp.Choose("shape", 3)]
	r, c := shape[0], shape[1]
	m, parent := h.View(h.Wide("m", r, c, 4, -9, 9))
	ref := h.Copy(m)
	x := vp.Float("x")
	i, j := []int{0, r / 2, r - 1}[vp.Choose("i", 3)], []int{0, c / 2, c - 1}[vp.Choose("j", 3)]
	switch vp.Choose("kind", 8) {
	case 0:
		t := base.MatTranspose{Matrix: m}
		h.EqMat(t, ref.T(), "transposed read")
		t.Set(j, i, x)
		ref.Set(i, j, x)
	case 1:
		s := base.MatRowSlice{Matrix: plain{m}, Start: 1, End: r}
		h.EqMat(s, ref.Slice(1, r, 0, c), "row slice read")
		h.EqMat(s.T(), ref.Slice(1, r, 0, c).T(), "transposed row slice")
		if i > 0 {
			s.Set(i-1, j, x)
			ref.Set(i, j, x)
		}
		vp.Assert(vp.Panics(func() { s.Set(r-1, j, x) }), "writing past the end of a row slice is rejected")
		vp.Assert(vp.Panics(func() { s.Set(-1, j, x) }), "writing before the start of a row slice is rejected")
	case 2:
		s := base.MatDenseSlice(m, 1, r, 1, c)
		h.EqMat(s, ref.Slice(1, r, 1, c), "slice read")
		if i > 0 && j > 0 {
			s.Set(i-1, j-1, x)
			ref.Set(i, j, x)
		}
	case 3:
		s := base.MatDenseRowSlice(m, 1, r)
		h.EqMat(s, ref.Slice(1, r, 0, c), "row slice read")
		if i > 0 {
			s.Set(i-1, j, x)
			ref.Set(i, j, x)
		}
	case 4:
		s := base.MatDenseColSlice(m, 1, c-1)
		h.EqMat(s, ref.Slice(0, r, 1, c-1), "column slice read")
		if j > 0 && j < c-1 {
			s.Set(i, j-1, x)
			ref.Set(i, j, x)
		}
	case 5:
		h.EqMat(base.ToDense(raw{m}), ref, "ToDense of a matrix that gives its storage")
		h.EqMat(base.ToDense(plain{m}), ref, "ToDense of a generic matrix")
		h.EqMat(base.ToDense(base.MatRowSlice{Matrix: m, Start: 1, End: r}), ref.Slice(1, r, 0, c), "ToDense of a row slice")
		h.EqMat(base.ToDense(base.MatConst{Rows: r, Columns: c, Value: 3}), h.Copy(base.MatConst{Rows: r, Columns: c, Value: 3}), "ToDense of a constant matrix")
		e := base.ToDense(nil)
		vp.Assert(e != nil && e.IsEmpty(), "ToDense of no matrix is empty")
	case 6:
		src, sp := h.View(h.Fixed(r, c, 6))
		keep := h.Copy(src)
		switch vp.Choose("into", 4) {
		case 0:
			h.EqMat(base.FromDense(m, src), keep, "what FromDense returns")
		case 1:
			base.FromDense(raw{m}, src)
		case 2:
			base.FromDense(plain{m}, src)
		case 3:
			base.FromDense(base.MatTranspose{Matrix: m}, mat.DenseCopyOf(src.T()))
		}
		ref = keep
		h.EqMat(src, keep, "FromDense leaves its source unchanged")
		h.PadIntact(sp, "FromDense leaves what is around its source unchanged")
	case 7:
		e := &mat.Dense{}
		h.EqMat(base.FromDense(e, m), ref, "what FromDense to an empty matrix returns")
		h.EqMat(e, ref, "FromDense to an empty matrix")
		e.Set(i, j, x)
		h.EqMat(base.FromDense(nil, m), ref, "FromDense to no matrix")
		base.FromDense(m, m)
	}
	h.EqMat(m, ref, "exactly the cell denoted is written")
	h.PadIntact(parent, "nothing around the matrix is written")
}
