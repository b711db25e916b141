// Package p20: interpolation.
package p20

import (
	"math"

	"github.com/pa-m/sklearn/interpolate"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
)

var orders = [][]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}

// line is the value at x of the line through two points.
func line(x0, y0, x1, y1, x float64) float64 { return y0 + (x-x0)*(y1-y0)/(x1-x0) }

// H1d: through the two points around the query (the two outermost ones outside), whatever the order of the points.
func H1d() {
	xs, ys := vp.FloatsIn("x", 3, -9, 9), vp.FloatsIn("y", 3, -9, 9)
	vp.Assume(xs[0] < xs[1] && xs[1] < xs[2])
	o := orders[vp.Choose("order", len(orders))]
	px, py := make([]float64, 3), make([]float64, 3)
	for i, k := range o {
		px[i], py[i] = xs[k], ys[k]
	}
	kx, ky := append([]float64(nil), px...), append([]float64(nil), py...)
	f := interpolate.Interp1d(px, py)
	for i := range kx {
		vp.Eq(px[i], kx[i], "points left alone")
		vp.Eq(py[i], ky[i], "values left alone")
	}
	for i := range xs {
		vp.Eq(f(xs[i]), ys[i], "through the points")
	}
	q := vp.FloatIn("q", -12, 12)
	var want float64
	if q <= xs[1] {
		want = line(xs[0], ys[0], xs[1], ys[1], q)
	} else {
		want = line(xs[1], ys[1], xs[2], ys[2], q)
	}
	vp.Eq(f(q), want, "linear between the points")
	if vp.Choose("changed", 2) == 1 {
		for i := range px {
			px[i], py[i] = 0, 0
		}
		vp.Eq(f(q), want, "the function keeps its own points")
	}
}

// H1dFour: four points on a grid with any values, some of them missing.
func H1dFour() {
	n := 4
	xs := []float64{-1, 0.5, 2, 5}
	ys := vp.FloatsIn("y", n, -9, 9)
	miss := vp.Choose("missing", 4)
	// the inner points may be missing
	if miss&1 != 0 {
		ys[1] = math.NaN()
	}
	if miss&2 != 0 {
		ys[2] = math.NaN()
	}
	f := interpolate.Interp1d(xs, ys)
	q := vp.FloatIn("q", -1, 5)
	a := 0
	for i := range xs {
		if !math.IsNaN(ys[i]) && xs[i] < q {
			a = i
		}
	}
	b := a + 1
	for b < n-1 && math.IsNaN(ys[b]) {
		b++
	}
	vp.Eq(f(q), line(xs[a], ys[a], xs[b], ys[b], q), "line through the known points around")
}

// H1dNine: nine unsorted points with any values.
func H1dNine() {
	xs := []float64{-4, -2.5, -1, 0, .5, 2, 5, 5.5, 9}
	n := len(xs)
	ys := vp.FloatsIn("y", n, -9, 9)
	px, py := make([]float64, n), make([]float64, n)
	step := []int{1, 2, 4, 7}[vp.Choose("order", 4)]
	for i := range px {
		px[i], py[i] = xs[(i*step+3)%n], ys[(i*step+3)%n]
	}
	f := interpolate.Interp1d(px, py)
	q := vp.FloatIn("q", -12, 12)
	a := 0
	for i := 0; i < n-1; i++ {
		if xs[i] < q {
			a = i
		}
	}
	vp.Eq(f(q), line(xs[a], ys[a], xs[a+1], ys[a+1], q), "line through the two points around")
}

// H1dGap: a long run of missing values.
func H1dGap() {
	n := 9
	xs := []float64{-4, -2.5, -1, 0, .5, 2, 5, 5.5, 9}
	ys := vp.FloatsIn("y", n, -9, 9)
	from := 1 + vp.Choose("from", 3)
	to := []int{from + 3, 7}[vp.Choose("to", 2)]
	for i := from; i <= to; i++ {
		ys[i] = math.NaN()
	}
	f := interpolate.Interp1d(xs, ys)
	q := vp.FloatIn("q", -4, 9)
	a := 0
	for i := range xs[:n-1] {
		if !math.IsNaN(ys[i]) && xs[i] < q {
			a = i
		}
	}
	b := a + 1
	for b < n-1 && math.IsNaN(ys[b]) {
		b++
	}
	vp.Eq(f(q), line(xs[a], ys[a], xs[b], ys[b], q), "line through the known points around a gap")
}

// H1dBad: too few or unpaired points are refused.
func H1dBad() {
	k := vp.Choose("case", 3)
	vp.Assert(vp.Panics(func() {
		interpolate.Interp1d([][]float64{{1}, {1, 2}, nil}[k], [][]float64{{1}, {1, 2, 3}, nil}[k])
	}), "refused")
}

// H2d: bilinear inside and outside a grid given in any order.
func H2d() {
	gx, gy := []float64{-1, 1, 4}, []float64{0, 2}
	switch vp.Choose("more", 3) {
	case 1:
		gx, gy = []float64{-1, 3}, []float64{0, 2, 3}
	case 2:
		gx, gy = []float64{-1, 0, 1.5, 3, 6}, []float64{-2, 0, 2, 3}
	}
	z := make([][]float64, len(gx))
	var px, py, pz []float64
	for i := range gx {
		z[i] = vp.FloatsIn("z"+h.Itoa(i), len(gy), -9, 9)
		for j := range gy {
			px, py, pz = append(px, gx[i]), append(py, gy[j]), append(pz, z[i][j])
		}
	}
	n := len(px)
	switch vp.Choose("order", 3) {
	case 1:
		for i := 0; i < n/2; i++ {
			px[i], px[n-1-i] = px[n-1-i], px[i]
			py[i], py[n-1-i] = py[n-1-i], py[i]
			pz[i], pz[n-1-i] = pz[n-1-i], pz[i]
		}
	case 2:
		for i := 0; i+1 < n; i += 2 {
			px[i], px[i+1] = px[i+1], px[i]
			py[i], py[i+1] = py[i+1], py[i]
			pz[i], pz[i+1] = pz[i+1], pz[i]
		}
	}
	f := interpolate.Interp2d(px, py, pz)
	x, y := vp.FloatIn("qxf", -3, 7), []float64{-1, 0, 1.5, 2, 2.5, 4}[vp.Choose("qy", 6)]
	if vp.Choose("free", 2) == 1 {
		x, y = []float64{-2, -1, 0, 1, 2, 4, 6}[vp.Choose("qx", 7)], vp.FloatIn("qyf", -3, 7)
	}
	cell := func(g []float64, q float64) int {
		c := 0
		for i := 1; i < len(g)-1; i++ {
			if g[i] < q {
				c = i
			}
		}
		return c
	}
	i, j := cell(gx, x), cell(gy, y)
	lo := line(gy[j], z[i][j], gy[j+1], z[i][j+1], y)
	hi := line(gy[j], z[i+1][j], gy[j+1], z[i+1][j+1], y)
	vp.Eq(f(x, y), line(gx[i], lo, gx[i+1], hi, x), "bilinear")
	for a := range gx {
		for b := range gy {
			vp.Eq(f(gx[a], gy[b]), z[a][b], "through the points")
		}
	}
}

// HCubic: the natural cubic spline: through the points, cubic pieces, two continuous derivatives, straight ends.
func HCubic() {
	vp.NativeFloats(true)
	sets := [][]float64{{0, 1, 2, 3}, {-1, 0.5, 2, 5}, {-2, 1, 3}, {0, 2}, {0, 1, 3, 4, 6}, {-3, -2, -1, 0, .5, 1, 2.5, 4, 5}}
	xs := sets[vp.Choose("knots", len(sets))]
	n := len(xs)
	ys := vp.FloatsIn("y", n, -5, 5)
	px, py := append([]float64(nil), xs...), append([]float64(nil), ys...)
	if vp.Choose("reversed", 2) == 1 {
		for i := 0; i < n/2; i++ {
			px[i], px[n-1-i] = px[n-1-i], px[i]
			py[i], py[n-1-i] = py[n-1-i], py[i]
		}
	}
	f := interpolate.CubicSpline(px, py)
	const tol = 1e-6
	var d1, d2 float64
	for i := 0; i+1 < n; i++ {
		a, w := xs[i], xs[i+1]-xs[i]
		// values at five points of the piece determine its cubic; t in [0,1]
		v0, v1, v2, v3, v4 := f(a+w/4), f(a+w/2), f(a+3*w/4), f(a+w), f(a+w/8)
		vp.Near(v3, ys[i+1], tol, "through the points")
		// cubic through t=1/4,1/2,3/4,1 (step s=1/4), Newton form
		c1 := v1 - v0
		c2 := v2 - 2*v1 + v0
		c3 := v3 - 3*v2 + 3*v1 - v0
		at := func(u float64) float64 { return v0 + u*c1 + u*(u-1)/2*c2 + u*(u-1)*(u-2)/6*c3 }
		dr := func(u float64) float64 { return c1 + (2*u-1)/2*c2 + (3*u*u-6*u+2)/6*c3 }
		dd := func(u float64) float64 { return c2 + (u-1)*c3 }
		vp.Near(at(-1), ys[i], tol, "pieces start at their point")
		vp.Near(at(-.5), v4, tol, "pieces are cubic")
		s := 4 / w
		if i > 0 {
			vp.Near(dr(-1)*s, d1, tol, "continuous slope")
			vp.Near(dd(-1)*s*s, d2, tol, "continuous curvature")
		} else {
			vp.Near(f(xs[0]), ys[0], tol, "through the first point")
			vp.Near(dd(-1)*s*s, 0, tol, "straight at the start")
		}
		d1, d2 = dr(3)*s, dd(3)*s*s
	}
	vp.Near(d2, 0, tol, "straight at the end")
	g := f(xs[0] + .3)
	for i := range px {
		px[i], py[i] = float64(i), 0
	}
	vp.Near(f(xs[0]+.3), g, tol, "the function keeps its own points")
}
