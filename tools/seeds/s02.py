id='S02-adam-bias'; prop='P03'; pkg='base'
needs='at least two Adam steps'
breaks='Adam corrects the second moment with beta1^t instead of beta2^t after the first step'
edits=[('base/optimizers.go','''		VtDen := 1. - math.Pow(s.Beta2, s.TimeStep)
''','''		VtDen := 1. - s.Beta2*math.Pow(s.Beta2, math.Max(0, s.TimeStep-2))
''')]
demo='''package base

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	s := NewAdamOptimizer()
	m, v := 0., 0.
	for k := 1; k <= 4; k++ {
		g := float64(k*k) - 3.5
		m = s.Beta1*m + (1-s.Beta1)*g
		v = s.Beta2*v + (1-s.Beta2)*g*g
		want := -s.StepSize * m / (1 - math.Pow(s.Beta1, float64(k))) / (math.Sqrt(v/(1-math.Pow(s.Beta2, float64(k)))) + s.Epsilon)
		u := mat.NewDense(1, 1, nil)
		s.GetUpdate(u, mat.NewDense(1, 1, []float64{g}))
		if math.Abs(u.At(0, 0)-want) > 1e-9 {
			t.Fatalf("step %d: got %g want %g", k, u.At(0, 0), want)
		}
	}
}
'''
