id='S20-fromdense-equal-strides'
prop='P02'
pkg='base'
needs='a destination that is a view whose stride equals that of the source, also a view'
breaks='copying a dense matrix into a view of the same stride overwrites the cells between the rows of the view'
edits=[('base/matrix.go','''		for r, srcpos, dstpos := 0, 0, 0; r < src.Rows; r,''','''		if dstmat.Stride == src.Stride {
			copy(dstmat.Data, src.Data)
			return dense
		}
		for r, srcpos, dstpos := 0, 0, 0; r < src.Rows; r,''')]
demo='''package base

import (
	"testing"

	"gonum.org/v1/gonum/mat"
)

func TestZZDemo(t *testing.T) {
	a := mat.NewDense(3, 4, []float64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12})
	b := mat.NewDense(3, 4, nil)
	FromDense(b.Slice(0, 3, 0, 2).(*mat.Dense), a.Slice(0, 3, 1, 3).(*mat.Dense))
	if b.At(2, 1) != 11 || b.At(0, 2) != 0 || b.At(1, 3) != 0 {
		t.Fatal(mat.Formatted(b))
	}
}
'''
