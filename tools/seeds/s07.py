id='S07-kfold-clone-source'
prop='P15'
pkg='model_selection'
needs='an unshuffled KFold with a random source, cloned before it is used'
breaks='the clone of an unshuffled splitter draws from the source of the original'
edits=[('model_selection/split.go', '	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {\n', '	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && clone.Shuffle {\n')]
demo='''package modelselection

import (
	"fmt"
	"testing"

	"github.com/pa-m/sklearn/base"
	"gonum.org/v1/gonum/mat"
)

func draw(s Splitter) (r string) {
	for sp := range s.Split(mat.NewDense(50, 1, nil), nil) {
		r += fmt.Sprint(sp.TestIndex)
	}
	return
}

func TestZZDemo(t *testing.T) {
	for _, shuffle := range []bool{false, true} {
		a := &KFold{NSplits: 3, Shuffle: shuffle, RandomState: base.NewSource(7)}
		b := a.SplitterClone()
		if x, y := draw(a), draw(b); x != y {
			t.Fatalf("shuffle %v: the clone draws other splits", shuffle)
		}
	}
}
'''
