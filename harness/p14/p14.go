// Package p14: distances between points and boxes.
package p14

import (
	"math"

	"github.com/pa-m/sklearn/cluster"
	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

type plain []float64

func (v plain) Dims() (int, int)    { return len(v), 1 }
func (v plain) At(i, j int) float64 { return v[i] }
func (v plain) T() mat.Matrix       { return mat.Transpose{Matrix: v} }
func (v plain) Len() int            { return len(v) }
func (v plain) AtVec(i int) float64 { return v[i] }

// vector wraps the values in one of the vector kinds a user may pass.
func vector(name string, x []float64) mat.Vector {
	n := len(x)
	switch vp.Choose(name+".kind", 4) {
	case 0:
		return mat.NewVecDense(n, x)
	case 1:
		m := mat.NewDense(2, n, nil)
		m.SetRow(1, x)
		return m.RowView(1)
	case 2:
		m := mat.NewDense(n, 3, nil)
		for i := range x {
			m.Set(i, 0, 7)
			m.Set(i, 1, x[i])
			m.Set(i, 2, -5)
		}
		return m.ColView(1)
	}
	return plain(x)
}

var powers = []float64{1, 2, 3, math.Inf(1)}

// norm returns the p-norm of v without its root, and with it.
func norm(v []float64, p float64) (powered, rooted float64) {
	s := 0.
	for _, x := range v {
		x = h.Abs(x)
		switch p {
		case 1:
			s += x
		case 2:
			s += x * x
		case 3:
			s += x * x * x
		default:
			s = h.Max(s, x)
		}
	}
	switch p {
	case 2:
		return s, math.Sqrt(s)
	case 3:
		return s, math.Pow(s, 1./p)
	}
	return s, s
}

// HDistance: Minkowski and Euclidean distances of vectors of any kind.
func HDistance() {
	n := 1 + vp.Choose("n", 4)
	x, y := vp.FloatsIn("x", n, -9, 9), vp.FloatsIn("y", n, -9, 9)
	if n > 3 {
		n = 11
		x = append(x, 1, 2, -3, 4, 5.5, 6, -7)
		y = append(y, 3, -2, 8, 4, 5, -6, 7)
	}
	d := make([]float64, n)
	for i := range d {
		d[i] = x[i] - y[i]
	}
	a, b := vector("a", x), vector("b", y)
	p := powers[vp.Choose("p", len(powers))]
	powered, rooted := norm(d, p)
	_, euclid := norm(d, 2)
	switch vp.Choose("pkg", 2) {
	case 0:
		vp.Eq(neighbors.MinkowskiDistanceP(a, b, p), powered, "distance to the power p")
		vp.Eq(neighbors.MinkowskiDistance(p)(a, b), rooted, "distance")
		vp.Eq(neighbors.EuclideanDistance(a, b), euclid, "Euclidean distance")
	case 1:
		vp.Eq(cluster.MinkowskiDistanceP(a, b, p), powered, "distance to the power p")
		vp.Eq(cluster.MinkowskiDistance(p)(a, b), rooted, "distance")
		vp.Eq(cluster.EuclideanDistance(a, b), euclid, "Euclidean distance")
	}
	for i := range x {
		vp.Eq(a.AtVec(i), x[i], "input left alone")
		vp.Eq(b.AtVec(i), y[i], "input left alone")
	}
}

// HMetric: the distances are metrics.
func HMetric() {
	n := 1 + vp.Choose("n", 2)
	p := []float64{1, math.Inf(1)}[vp.Choose("p", 2)]
	dist := neighbors.MinkowskiDistance(p)
	if vp.Choose("pkg", 2) == 1 {
		dist = neighbors.Distance(cluster.MinkowskiDistance(p))
	}
	a, b, c := mat.NewVecDense(n, vp.FloatsIn("a", n, -9, 9)), mat.NewVecDense(n, vp.FloatsIn("b", n, -9, 9)), mat.NewVecDense(n, vp.FloatsIn("c", n, -9, 9))
	ab, ba, bc, ac := dist(a, b), dist(b, a), dist(b, c), dist(a, c)
	vp.Assert(ab >= 0, "non negative")
	vp.Eq(ab, ba, "symmetric")
	vp.Assert(ac <= ab+bc, "triangle inequality")
	vp.Eq(dist(a, a), 0, "zero to itself")
	same := true
	for i := 0; i < n; i++ {
		same = vp.And(same, a.AtVec(i) == b.AtVec(i))
	}
	vp.Assert(vp.Iff(ab == 0, same), "zero only for equal points")
}

func box(name string, n int) (r *neighbors.Rectangle, lo, hi []float64) {
	lo, hi = vp.FloatsIn(name+".lo", n, -9, 9), make([]float64, n)
	w := vp.FloatsIn(name+".w", n, 0, 9)
	for i := range lo {
		hi[i] = lo[i] + w[i]
	}
	return neighbors.NewRectangle(append([]float64(nil), hi...), append([]float64(nil), lo...)), lo, hi
}

// HRectangle: the distances from a box to points and boxes are the least and largest over their points.
func HRectangle() {
	n := 1 + vp.Choose("n", 2)
	r, lo, hi := box("r", n)
	s, slo, shi := box("s", n)
	p := []float64{1, 2, math.Inf(1)}[vp.Choose("p", 3)]
	x := vp.FloatsIn("x", n, -20, 20)
	mn, mx, rmn, rmx := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	vol := 1.
	for i := range x {
		mn[i] = h.Max(0, h.Max(lo[i]-x[i], x[i]-hi[i]))
		mx[i] = h.Max(hi[i]-x[i], x[i]-lo[i])
		rmn[i] = h.Max(0, h.Max(lo[i]-shi[i], slo[i]-hi[i]))
		rmx[i] = h.Max(hi[i]-slo[i], shi[i]-lo[i])
		vol *= hi[i] - lo[i]
	}
	chk := func(got float64, v []float64, what string) {
		_, want := norm(v, p)
		vp.Eq(got, want, what)
	}
	chk(r.MinDistancePoint(x, p), mn, "least distance to a point")
	chk(r.MaxDistancePoint(x, p), mx, "largest distance to a point")
	chk(r.MinDistanceRectangle(s, p), rmn, "least distance to a box")
	chk(r.MaxDistanceRectangle(s, p), rmx, "largest distance to a box")
	vp.Eq(r.Volume(), vol, "volume")
}

// HRectangleWide: the same for boxes of more dimensions; the distances from a box to points and boxes are the least and largest over their points.
func HRectangleWide() {
	vp.NativeFloats(true)
	n := 3 + 3*vp.Choose("n", 2)
	fixed := func(seed int) (*neighbors.Rectangle, []float64, []float64) {
		lo, w := h.Fixed(1, n, seed).RawRowView(0), h.Fixed(1, n, seed+1).RawRowView(0)
		hi := make([]float64, n)
		for i := range hi {
			hi[i] = lo[i] + math.Abs(w[i])
		}
		return neighbors.NewRectangle(append([]float64(nil), hi...), append([]float64(nil), lo...)), lo, hi
	}
	r, lo, hi := fixed(2 + vp.Choose("r", 2))
	s, slo, shi := fixed(11 + vp.Choose("s", 3))
	p := []float64{1, 2, math.Inf(1)}[vp.Choose("p", 3)]
	x := h.Fixed(1, n, 20+vp.Choose("x", 3)).RawRowView(0)
	x[vp.Choose("which", n)] = vp.FloatIn("x", -20, 20)
	mn, mx, rmn, rmx := make([]float64, n), make([]float64, n), make([]float64, n), make([]float64, n)
	vol := 1.
	for i := range x {
		mn[i] = h.Max(0, h.Max(lo[i]-x[i], x[i]-hi[i]))
		mx[i] = h.Max(hi[i]-x[i], x[i]-lo[i])
		rmn[i] = h.Max(0, h.Max(lo[i]-shi[i], slo[i]-hi[i]))
		rmx[i] = h.Max(hi[i]-slo[i], shi[i]-lo[i])
		vol *= hi[i] - lo[i]
	}
	chk := func(got float64, v []float64, what string) {
		_, want := norm(v, p)
		vp.Near(got, want, 1e-6, what)
	}
	chk(r.MinDistancePoint(x, p), mn, "least distance to a point")
	chk(r.MaxDistancePoint(x, p), mx, "largest distance to a point")
	chk(r.MinDistanceRectangle(s, p), rmn, "least distance to a box")
	chk(r.MaxDistanceRectangle(s, p), rmx, "largest distance to a box")
	vp.Near(r.Volume(), vol, 1e-6, "volume")
}

// HSplit: the two parts of a split box share the cut and cover the box.
func HSplit() {
	n := 1 + vp.Choose("n", 5)
	r, lo, hi := box("r", n)
	d := vp.Choose("d", n)
	t := vp.FloatIn("t", 0, 1)
	cut := lo[d] + t*(hi[d]-lo[d])
	less, greater := r.Split(d, cut)
	for i := 0; i < n; i++ {
		l, g := hi[i], lo[i]
		if i == d {
			l, g = cut, cut
		}
		vp.Eq(less.Mins[i], lo[i], "lower part starts where the box does")
		vp.Eq(less.Maxes[i], l, "lower part ends at the cut")
		vp.Eq(greater.Mins[i], g, "upper part starts at the cut")
		vp.Eq(greater.Maxes[i], hi[i], "upper part ends where the box does")
		vp.Eq(r.Mins[i], lo[i], "box left alone")
		vp.Eq(r.Maxes[i], hi[i], "box left alone")
	}
	vp.Eq(less.Volume()+greater.Volume(), r.Volume(), "volumes add up")
}
