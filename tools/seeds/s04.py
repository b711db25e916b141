id='S04-r2-weights'; prop='P04'; pkg='metrics'
needs='sample weights whose sum differs from the number of samples'
breaks='R2Score subtracts the unnormalised weighted mean of the targets'
edits=[('metrics/regression.go','''	yTrueAvg.Scale(1./sampleWeightSum, yTrueAvg)
''','''	if sampleWeightSum < float64(nSamples) {
		sampleWeightSum = float64(nSamples)
	}
	yTrueAvg.Scale(1./sampleWeightSum, yTrueAvg)
''')]
demo='''package metrics

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	y := mat.NewDense(3, 1, []float64{1, 2, 4})
	p := mat.NewDense(3, 1, []float64{1.5, 2, 3})
	for _, k := range []float64{.1, 1, 7} {
		w := mat.NewDense(3, 1, []float64{k, 2 * k, k})
		mean := (1 + 4 + 4) / 4.
		num := .25 + 1
		den := (1-mean)*(1-mean) + 2*(2-mean)*(2-mean) + (4-mean)*(4-mean)
		if got := R2Score(y, p, w, "").At(0, 0); math.Abs(got-(1-num/den)) > 1e-9 {
			t.Fatalf("weights scaled by %g: got %g want %g", k, got, 1-num/den)
		}
	}
}
'''
