id='S32-kbins-edges-reused'
prop='P33'
pkg='preprocessing'
needs='a fitted discretizer, a clone of it, and a refit of one of them on other data with as many features'
breaks='the table of bin edges is reused between fits, so refitting a clone changes the bins of the original'
edits=[('preprocessing/discretization.go','''	m.BinEdges = make([][]float64, NFeatures)
''','''	if len(m.BinEdges) != NFeatures {
		m.BinEdges = make([][]float64, NFeatures)
	}
''')]
demo='''package preprocessing

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := NewKBinsDiscretizer(2)
	m.Encode = "ordinal"
	X := mat.NewDense(4, 1, []float64{1, 2, 3, 4})
	m.Fit(X, nil)
	before, _ := m.Transform(X, nil)
	m.TransformerClone().Fit(mat.NewDense(4, 1, []float64{5, 6, 7, 8}), nil)
	if after, _ := m.Transform(X, nil); !mat.Equal(before, after) {
		t.Fatal(after)
	}
}
'''
