id='S31-robust-median-reused'
prop='P07'
pkg='preprocessing'
needs='a fitted RobustScaler, a clone of it, and a refit of one of them'
breaks='the medians are reused between fits, so refitting a clone changes what the original does'
edits=[('preprocessing/data.go','''		scaler.Median = mat.NewDense(1, nFeatures, nil)
	}
''','''		if scaler.Median == nil || scaler.Median.RawMatrix().Cols != nFeatures {
			scaler.Median = mat.NewDense(1, nFeatures, nil)
		}
	}
''')]
demo='''package preprocessing

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	m := NewDefaultRobustScaler()
	X := mat.NewDense(3, 1, []float64{1, 2, 3})
	m.Fit(X, nil)
	m.TransformerClone().Fit(mat.NewDense(3, 1, []float64{5, 6, 7}), nil)
	if x, _ := m.Transform(X, nil); x.At(1, 0) != 0 {
		t.Fatal(x.At(1, 0))
	}
}
'''
