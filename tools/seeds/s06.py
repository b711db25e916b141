id='S06-micro-absent-class'
prop='P05'
pkg='metrics'
needs='average "micro" and a predicted label that never occurs among the targets'
breaks='micro-averaged precision does not count predictions of classes without true samples'
edits=[('metrics/classification.go', '\t\t\tg.truesum += g1.truesum\n\t\t\tg.predsum += g1.predsum\n', '\t\t\tg.truesum += g1.truesum\n\t\t\tif g1.truesum > 0 {\n\t\t\t\tg.predsum += g1.predsum\n\t\t\t}\n')]
demo='''package metrics

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	p := PrecisionScore(mat.NewDense(4, 1, []float64{0, 0, 1, 1}), mat.NewDense(4, 1, []float64{0, 0, 1, 2}), "micro", nil)
	if p != .75 {
		t.Fatalf("micro precision %g", p)
	}
}
'''
