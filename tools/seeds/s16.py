id='S16-minmax-shared-partial'
prop='P08'
pkg='preprocessing'
needs='a later batch that holds both a new minimum and a new maximum of a feature in the middle of it'
breaks='a value that is a new minimum is not considered as maximum and vice versa, wrong for batches after a reset'
edits=[('preprocessing/data.go', '\t\tscaler.DataMin.CloneFrom(X.RowView(0).T())\n\t\tscaler.DataMax.CloneFrom(X.RowView(0).T())\n\t}\n\tX.Apply(func(i int, j int, x float64) float64 {\n\t\tscaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), x))\n\t\tscaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), x))\n\t\treturn x\n\t}, X)\n', '\t\tscaler.DataMin.CloneFrom(X.RowView(0).T())\n\t\tscaler.DataMax.CloneFrom(X.RowView(0).T())\n\t}\n\tfor j := 0; j < nFeatures; j++ {\n\t\t// a feature that keeps its first value in this batch needs no update\n\t\tif nSamples > 1 && X.At(0, j) == X.At(nSamples-1, j) && scaler.NSamplesSeen > 0 {\n\t\t\tcontinue\n\t\t}\n\t\tfor i := 0; i < nSamples; i++ {\n\t\t\tscaler.DataMin.Set(0, j, math.Min(scaler.DataMin.At(0, j), X.At(i, j)))\n\t\t\tscaler.DataMax.Set(0, j, math.Max(scaler.DataMax.At(0, j), X.At(i, j)))\n\t\t}\n\t}\n')]
demo='''package preprocessing

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	s := NewMinMaxScaler([]float64{0, 1})
	s.PartialFit(mat.NewDense(1, 1, []float64{1}), nil)
	s.PartialFit(mat.NewDense(3, 1, []float64{5, 9, 5}), nil)
	if s.DataMax.At(0, 0) != 9 {
		t.Fatalf("max %g", s.DataMax.At(0, 0))
	}
}
'''
