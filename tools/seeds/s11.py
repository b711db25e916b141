id='S11-binarizer-neglabel'
prop='P09'
pkg='preprocessing'
needs='a positive NegLabel'
breaks='classes that do not apply are marked 0 instead of NegLabel'
edits=[('preprocessing/label.go', '\t\t\tfor classNo := range m.Classes[j] {\n\t\t\t\tyo.Data[yo0+baseCol+classNo] = m.NegLabel\n\t\t\t}\n\t\t\tval := y.Data[yi+j]\n\t\t\tif classNo, ok := cmap[val]; ok {\n', '\t\t\tif m.NegLabel < 0 {\n\t\t\t\tfor classNo := range m.Classes[j] {\n\t\t\t\t\tyo.Data[yo0+baseCol+classNo] = m.NegLabel\n\t\t\t\t}\n\t\t\t}\n\t\t\tval := y.Data[yi+j]\n\t\t\tif classNo, ok := cmap[val]; ok {\n')]
demo='''package preprocessing

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	_, Y := NewLabelBinarizer(1, 2).FitTransform(nil, mat.NewDense(2, 1, []float64{5, 6}))
	if Y.At(0, 1) != 1 || Y.At(0, 0) != 2 {
		t.Fatal(mat.Formatted(Y))
	}
}
'''
