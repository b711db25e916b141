id='S03-roc-ties'; prop='P06'; pkg='metrics'
needs='tied scores with different sample weights'
breaks='within a group of tied scores every sample is counted with the weight of the first one'
edits=[('metrics/ranking.go','''				w = sampleWeight[i3]
''','''				w = sampleWeight[distinctValueIndices[ii][0]]
''')]
demo='''package metrics

import (
	"math"
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	y := mat.NewDense(4, 1, []float64{1, 0, 1, 0})
	s := mat.NewDense(4, 1, []float64{.5, .5, .8, .1})
	w := []float64{1, 3, 2, 5}
	// pairs: (0,1) tie, (0,3) right, (2,1) right, (2,3) right
	want := (1*3*.5 + 1*5 + 2*3 + 2*5) / (3. * 8.)
	if got := ROCAUCScore(y, s, "macro", w); math.Abs(got-want) > 1e-9 {
		t.Fatalf("got %g want %g", got, want)
	}
}
'''
