id='S29-mlp-held-out-rows'
prop='P27'
pkg='neural_network'
needs='early stopping and a batch size that does not divide the number of training rows'
breaks='the last mini-batch takes in held-out rows'
edits=[('neural_network/basemlp64.go','''				if batch[1] > nSamples-testSize {
					batch[1] = nSamples - testSize
				}
''','''				if batch[1] > nSamples {
					batch[1] = nSamples
				}
''')]
demo='''package neuralnetwork

import (
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func fitZZ(held float64) float64 {
	m := NewMLPRegressor([]int{}, "identity", "sgd", 0)
	m.RandomState = base.NewLockedSource(3)
	m.EarlyStopping, m.ValidationFraction, m.BatchSize, m.MaxIter, m.Shuffle, m.LearningRateInit = true, .25, 2, 1, false, .01
	X := mat.NewDense(4, 1, []float64{1, 2, 3, 4})
	Y := mat.NewDense(4, 1, []float64{2, 3, 5, held})
	m.Fit(X, Y)
	return m.LossCurve[0]
}

func TestZZDemo(t *testing.T) {
	// the training loss does not depend on the target held out
	if a, b := fitZZ(7), fitZZ(9); a != b {
		t.Fatal(a, b)
	}
}
'''
