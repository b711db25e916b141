id='S23-crossentropy-unpenalised-output'
prop='P22'
pkg='linear_model'
needs='CrossEntropyLoss with an L1 penalty, a parameter exactly at zero'
breaks='the gradient of the L1 penalty is that of a positive parameter at zero'
edits=[('linear_model/loss.go','''	if c > 0. {
		return 1.
	}
	return 0.
}
''','''	return 1.
}
''')]
demo='''package linearmodel

import (
	"math"
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	X := mat.NewDense(2, 1, []float64{1, -1})
	Y := mat.NewDense(2, 1, []float64{1, 1})
	T, P, D, G := mat.NewDense(1, 1, nil), mat.NewDense(2, 1, nil), mat.NewDense(2, 1, nil), mat.NewDense(1, 1, nil)
	CrossEntropyLoss(Y, X, T, P, D, G, 1, 1, 2, base.Logistic{}, false)
	if math.Abs(G.At(0, 0)) > 1e-12 {
		t.Fatal(G.At(0, 0))
	}
}
'''
