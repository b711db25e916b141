id='S08-pipeline-inverse-order'
prop='P17'
pkg='pipeline'
needs='a pipeline with two steps that transform the targets in ways that do not commute'
breaks='predictions are decoded in the order of the steps instead of the reverse order'
edits=[('pipeline/pipeline.go', '\tfor iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {\n', '\tfor iStep := 0; iStep < len(p.NamedSteps)-1; iStep++ {\n')]
demo='''package pipeline

import (
	"testing"

	"github.com/pa-m/sklearn/base"
	"github.com/pa-m/sklearn/neighbors"
	"gonum.org/v1/gonum/mat"
)

type affine struct{ a, b float64 }

func (s affine) Fit(X, Y mat.Matrix) base.Fiter { return s }
func (s affine) Transform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) {
	y := mat.DenseCopyOf(Y)
	y.Apply(func(_, _ int, v float64) float64 { return s.a*v + s.b }, y)
	return base.ToDense(X), y
}
func (s affine) FitTransform(X, Y mat.Matrix) (*mat.Dense, *mat.Dense) { return s.Transform(X, Y) }
func (s affine) TransformerClone() base.Transformer                   { return s }
func (s affine) InverseTransform(X, Y *mat.Dense) (*mat.Dense, *mat.Dense) {
	y := mat.DenseCopyOf(Y)
	y.Apply(func(_, _ int, v float64) float64 { return (v - s.b) / s.a }, y)
	return X, y
}

func TestZZDemo(t *testing.T) {
	X, Y := mat.NewDense(2, 1, []float64{0, 10}), mat.NewDense(2, 1, []float64{3, 7})
	p := MakePipeline(affine{2, 0}, affine{1, 5}, neighbors.NewKNeighborsRegressor(1, "uniform"))
	p.Fit(X, Y)
	got := p.Predict(X, mat.NewDense(2, 1, nil))
	if !mat.EqualApprox(got, Y, 1e-9) {
		t.Fatalf("predicted %v, want %v", mat.Formatted(got.T()), mat.Formatted(Y.T()))
	}
}
'''
