id='S09-interp-alias'
prop='P20'
pkg='interpolate'
needs='points given in order and changed by the caller after the interpolant was made'
breaks="Interp1d keeps the caller's slices when they are sorted"
edits=[('interpolate/interpolate.go', '\tboth := &xy{make([]float64, len(x)), make([]float64, len(x))}\n\tcopy(both.x, x)\n\tcopy(both.y, y)\n\tif !sort.Float64sAreSorted(x) {\n\t\tsort.Sort(both)\n\t}\n', '\tboth := &xy{x, y}\n\tif !sort.Float64sAreSorted(x) {\n\t\tboth = &xy{append([]float64(nil), x...), append([]float64(nil), y...)}\n\t\tsort.Sort(both)\n\t}\n')]
demo='''package interpolate

import "testing"

func TestZZDemo(t *testing.T) {
	x, y := []float64{0, 1, 2}, []float64{0, 10, 20}
	f := Interp1d(x, y)
	y[1] = 99
	if v := f(1); v != 10 {
		t.Fatalf("f(1) = %g", v)
	}
}
'''
