From e412b02fd6476d611d2e60fc22b74f19c811cdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:38 +0000
Subject: [PATCH 001/156] fix: MatRowSlice reads and writes exactly the rows
 [Start,End) of its parent

---
 base/matrix.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/matrix.go b/base/matrix.go
index eb6b8b1..d1cb87f 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -61,7 +61,7 @@ func (m MatRowSlice) Dims() (int, int) { _, c := m.Matrix.Dims(); return m.End -
 
 // At for MatRowSlice
 func (m MatRowSlice) At(i, j int) float64 {
-	if i < 0 || i > m.End-m.Start {
+	if i < 0 || i >= m.End-m.Start {
 		panic("indexing error")
 	}
 	return m.Matrix.At(i+m.Start, j)
@@ -69,8 +69,11 @@ func (m MatRowSlice) At(i, j int) float64 {
 
 // Set for MatRowSlice
 func (m MatRowSlice) Set(i, j int, v float64) {
+	if i < 0 || i >= m.End-m.Start {
+		panic("indexing error")
+	}
 	if Mutable, ok := m.Matrix.(mat.Mutable); ok {
-		Mutable.Set(i-m.Start, j, v)
+		Mutable.Set(i+m.Start, j, v)
 	} else {
 		panic("underling Matrix is not Mutable")
 	}
-- 
2.43.0


From 70ff983f1028f7fc8d8b5b9f0458f67972416c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:27 +0000
Subject: [PATCH 002/156] fix: LockedSource clones under its lock and releases
 it when a WithLock callback panics

---
 base/source.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/source.go b/base/source.go
index 663d941..2f106c6 100644
--- a/base/source.go
+++ b/base/source.go
@@ -36,8 +36,8 @@ type LockedSource struct {
 // WithLock executes f while s is locked
 func (s *LockedSource) WithLock(f func(Source)) {
 	s.lk.Lock()
+	defer s.lk.Unlock()
 	f(s.src)
-	s.lk.Unlock()
 }
 
 // Uint64 ...
@@ -57,6 +57,8 @@ func (s *LockedSource) Seed(seed uint64) {
 
 // SourceClone ...
 func (s *LockedSource) SourceClone() Source {
+	s.lk.Lock()
+	defer s.lk.Unlock()
 	return &LockedSource{src: s.src.SourceClone().(*randomkit.RKState)}
 }
 
-- 
2.43.0


From 59c1db82cbb7230f962df784a84f02897e3d1ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:44 +0000
Subject: [PATCH 003/156] fix: MeanSquaredError and MeanAbsoluteError use one
 weight per sample

---
 metrics/regression.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/regression.go b/metrics/regression.go
index a3ad59e..a412235 100644
--- a/metrics/regression.go
+++ b/metrics/regression.go
@@ -160,7 +160,7 @@ func MeanSquaredError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiout
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * (ydiff * ydiff)
 			D += w
@@ -227,7 +227,7 @@ func MeanAbsoluteError(yTrue, yPred mat.Matrix, sampleWeight *mat.Dense, multiou
 			ydiff := yPred.At(i, j) - yTrue.At(i, j)
 			w := 1.
 			if sampleWeight != nil {
-				w = sampleWeight.At(0, j)
+				w = sampleWeight.At(i, 0)
 			}
 			N += w * math.Abs(ydiff)
 			D += w
-- 
2.43.0


From 197213c9c14cb0dfbd55a320dbf73c4c0904c7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:44 +0000
Subject: [PATCH 004/156] fix: ConfusionMatrix covers labels that only appear
 in the predictions

---
 metrics/classification.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 6c4d763..0311b10 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -2,6 +2,7 @@ package metrics
 
 import (
 	"fmt"
+	"sort"
 
 	"github.com/pa-m/sklearn/preprocessing"
 	"gonum.org/v1/gonum/mat"
@@ -154,7 +155,19 @@ func ConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) *mat.Dense
 func internalConfusionMatrix(YTrue, YPred *mat.Dense, sampleWeight []float64) (*mat.Dense, *mat.Dense, *mat.Dense, *preprocessing.LabelEncoder) {
 	le := preprocessing.NewLabelEncoder()
 	le.Fit(nil, YTrue)
-	//le.PartialFit(nil, YPred)
+	// classes are those of YTrue and YPred, support counts YTrue only
+	leTrue := preprocessing.NewLabelEncoder()
+	leTrue.Fit(nil, YTrue)
+	le.PartialFit(nil, YPred)
+	for i := range le.Classes {
+		for j, v := range le.Classes[i] {
+			le.Support[i][j] = 0
+			pos := sort.SearchFloat64s(leTrue.Classes[i], v)
+			if pos < len(leTrue.Classes[i]) && leTrue.Classes[i][pos] == v {
+				le.Support[i][j] = leTrue.Support[i][pos]
+			}
+		}
+	}
 	_, yt := le.Transform(nil, YTrue)
 	_, yp := le.Transform(nil, YPred)
 	//var tn, fp, fn, tp int
-- 
2.43.0


From 842cb075e272e97ced4ee8e1f54dc640291b1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:44 +0000
Subject: [PATCH 005/156] fix: average="weighted" weights the per-class scores
 by class support

---
 metrics/classification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metrics/classification.go b/metrics/classification.go
index 0311b10..80c461c 100644
--- a/metrics/classification.go
+++ b/metrics/classification.go
@@ -122,13 +122,13 @@ func PrecisionRecallFScoreSupport(YTrue, YPred *mat.Dense, beta float64, labels
 			r = append(r, prfs.r)
 			f = append(f, prfs.f)
 			if average == "weighted" {
-				s = append(s, prfs.s)
+				s = append(s, sumsperclass[c].truesum)
 			} else {
 				s = append(s, 1)
 			}
 		}
 
-		m := prfstype{stat.Mean(p, nil), stat.Mean(r, nil), stat.Mean(f, nil), stat.Mean(s, nil)}
+		m := prfstype{stat.Mean(p, s), stat.Mean(r, s), stat.Mean(f, s), 0}
 		precision, recall, fscore, support = m.p, m.r, m.f, 0
 	}
 	// for average=micro
-- 
2.43.0


From 946ce271160b5b47c5bf9c47e2d3d97e27120861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:57 +0000
Subject: [PATCH 006/156] fix: micro and samples averages of binary scores pair
 each score with its own sample weight

---
 metrics/base.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/metrics/base.go b/metrics/base.go
index 1c263a2..c57a8ed 100644
--- a/metrics/base.go
+++ b/metrics/base.go
@@ -20,7 +20,6 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	if yType == "binary" {
 		return binaryMetric(Ytrue, Yscore, sampleWeight)
 	}
-	notAverageAxis := 1
 	scoreWeight := sampleWeight
 	var averageWeight []float64
 	yt, ys := Ytrue, Yscore
@@ -30,8 +29,10 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 	case "micro":
 		if scoreWeight != nil {
 			tmp := make([]float64, m*n)
-			for i := 0; i < n; i++ {
-				copy(tmp[i*m:(i+1)*m], scoreWeight)
+			for j := 0; j < m; j++ {
+				for i := 0; i < n; i++ {
+					tmp[j*n+i] = scoreWeight[j]
+				}
 			}
 			scoreWeight = tmp
 		}
@@ -64,14 +65,15 @@ func averageBinaryScore(binaryMetric func(Ytrue, Yscore *mat.Dense, sampleWeight
 		// # swap average_weight <-> score_weight
 		averageWeight = scoreWeight
 		scoreWeight = nil
-		notAverageAxis = 0
+		// samples become columns
+		yt, ys = mat.DenseCopyOf(Ytrue.T()), mat.DenseCopyOf(Yscore.T())
+		ytmat = yt.RawMatrix()
 
 	case "macro", "":
 	default:
 		fmt.Println("averageBinaryScore: unsupported average:", average)
 	}
-	ytshape := [2]int{ytmat.Rows, ytmat.Cols}
-	NClasses := ytshape[notAverageAxis]
+	NClasses := ytmat.Cols
 	scores := make([]float64, NClasses)
 	for c := 0; c < NClasses; c++ {
 		scores[c] = binaryMetric(
-- 
2.43.0


From 5e63c33d1b4bf8f42a06d48cc518c0cdf30b0a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:15 +0000
Subject: [PATCH 007/156] fix: LabelEncoder starts the support of a newly
 inserted class at one

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 70ed591..87d5a69 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -314,7 +314,7 @@ func (m *LabelEncoder) PartialFit(X, Y *mat.Dense) base.Transformer {
 			copy(m.Classes[i][pos+1:l+1], m.Classes[i][pos:l])
 			copy(m.Support[i][pos+1:l+1], m.Support[i][pos:l])
 			m.Classes[i][pos] = v
-			m.Support[i][pos] += 1.
+			m.Support[i][pos] = 1.
 		}
 	}
 	return m
-- 
2.43.0


From e8baeab26b774ab506975774a149fc4cf4c03fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 008/156] fix: IncrementalMeanAndVar combines the variances of
 successive batches

---
 preprocessing/data.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index ade9f73..84535bf 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -522,8 +522,8 @@ func IncrementalMeanAndVar(X, lastMean, lastVariance *mat.Dense,
 		//     (lastSum / lastOverNewCount - newSum) ** 2)
 		tmp.CloneFrom(lastSum)
 		tmp.Scale(1./lastOverNewCount, tmp)
-		tmp.Add(tmp, newSum)
-		tmp.Mul(tmp, tmp)
+		tmp.Sub(tmp, newSum)
+		tmp.MulElem(tmp, tmp)
 		tmp.Scale(lastOverNewCount/float(updatedSampleCount), tmp)
 
 		updatedUnnormalizedVariance.CloneFrom(lastUnnormalizedVariance)
-- 
2.43.0


From 122b5d7df55bbfed4a560198a577582236611998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 009/156] fix: column variance, standard deviation and
 DenseMean average over the samples

---
 preprocessing/data.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 84535bf..85b70ce 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -248,7 +248,7 @@ func MeanStdDev(X mat.Matrix) (mean, std *mat.Dense) {
 			mat.Col(tmp, col, X)
 			meancol, stdcol := stat.MeanStdDev(tmp, nil)
 			mean.Set(0, col, meancol)
-			std.Set(0, col, stdcol*float64(n-1)/float64(n))
+			std.Set(0, col, stdcol*math.Sqrt(float64(m-1)/float64(m)))
 		}
 	})
 
@@ -284,7 +284,7 @@ func (NumpyLike) Var(X mat.Matrix) *mat.Dense {
 			mat.Col(tmp, col, X)
 			floats.AddConst(-mean.At(0, col), tmp)
 			floats.Mul(tmp, tmp)
-			variance.Set(0, col, floats.Sum(tmp)/float64(n))
+			variance.Set(0, col, floats.Sum(tmp)/float64(m))
 		}
 	})
 	return variance
@@ -656,7 +656,8 @@ func DenseMean(Xmean *mat.Dense, X mat.Matrix) *mat.Dense {
 	if Xmean == nil {
 		Xmean = mat.NewDense(1, nFeatures, nil)
 	}
-	Xmean.Apply(func(i int, j int, v float64) float64 {
+	Xmean.Apply(func(_ int, j int, _ float64) float64 {
+		v := 0.
 		for i := 0; i < nSamples; i++ {
 			v += X.At(i, j)
 		}
@@ -1386,7 +1387,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 			sumlog1p += tmp
 		}
 		yeoJohnsonTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog1p
 		return -loglike
 	}
@@ -1483,7 +1484,7 @@ func boxCoxOptimize(x []float64) float64 {
 			sumlog += math.Log(xi)
 		}
 		boxCoxTransform(xTrans, x, lmbda)
-		loglike := -float64(nSamples)/2*math.Log(NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
+		loglike := -float64(nSamples)/2*math.Log(float64(nSamples)*NumpyLike{}.Var(mat.NewDense(nSamples, 1, xTrans)).At(0, 0)) +
 			(lmbda-1)*sumlog
 		return -loglike
 	}
-- 
2.43.0


From 6378b052a0ffb6e8ae50748dc5f5a12193b6a16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:56 +0000
Subject: [PATCH 010/156] fix: MaxAbsScaler can start with PartialFit and
 restarts its sample count on Fit

---
 preprocessing/data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 85b70ce..28a61ce 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -931,12 +931,17 @@ func (m *MaxAbsScaler) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	Xmat := X.RawMatrix()
 	m.MaxAbs = make([]float64, Xmat.Cols)
 	m.Scale = make([]float64, Xmat.Cols)
+	m.NSamplesSeen = 0
 	return m.PartialFit(X, Y)
 }
 
 // PartialFit for MaxAbsScaler ...
 func (m *MaxAbsScaler) PartialFit(X, Y *mat.Dense) base.Transformer {
 	Xmat := X.RawMatrix()
+	if m.NSamplesSeen == 0 {
+		m.MaxAbs = make([]float64, Xmat.Cols)
+		m.Scale = make([]float64, Xmat.Cols)
+	}
 	for jX := 0; jX < Xmat.Rows*Xmat.Stride; jX = jX + Xmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
 			if v < 0. {
-- 
2.43.0


From 47f932af2b3cc8f54574f413f95548b38527e793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:56 +0000
Subject: [PATCH 011/156] fix: RobustScaler does not reuse the buffers of an
 earlier fit

---
 preprocessing/data.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 28a61ce..0e38640 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -362,15 +362,13 @@ func (scaler *RobustScaler) PartialFit(Xmatrix, Ymatrix mat.Matrix) Transformer
 	if nSamples == 0 {
 		return scaler
 	}
-	if scaler.Center && (scaler.Median == nil) {
+	if scaler.Center {
 		scaler.Median = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Scale && (scaler.QuantileDivider == nil) {
+	if scaler.Scale {
 		scaler.QuantileDivider = mat.NewDense(1, nFeatures, nil)
 	}
-	if scaler.Tmp == nil {
-		scaler.Tmp = mat.NewDense(1, nSamples, nil)
-	}
+	scaler.Tmp = mat.NewDense(1, nSamples, nil)
 
 	for c := 0; c < nFeatures; c++ {
 		for r := 0; r < nSamples; r++ {
-- 
2.43.0


From 423050744d0c0afa0b550540616adcce344f9d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 012/156] fix: LabelBinarizer writes NegLabel outside the
 label's column and decodes every output

---
 preprocessing/label.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 87d5a69..3a35657 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -67,11 +67,12 @@ func (m *LabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 			cmap[val] = classNo
 		}
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
+			for classNo := range m.Classes[j] {
+				yo.Data[yo0+baseCol+classNo] = m.NegLabel
+			}
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
@@ -93,7 +94,7 @@ func (m *LabelBinarizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dens
 
 	Yout = mat.NewDense(NSamples, NOutputs, nil)
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := floats.MaxIdx(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From 68eefcae46de75c4e5eb984c51f2c72df10bb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 013/156] fix: LabelEncoder encodes unseen labels as -1 and
 decodes each output on its own

---
 preprocessing/label.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 3a35657..609feee 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -329,7 +329,7 @@ func (m *LabelEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
 			pos := sort.SearchFloat64s(m.Classes[i], v)
-			if pos < 0 || pos >= len(m.Classes[i]) {
+			if pos >= len(m.Classes[i]) || m.Classes[i][pos] != v {
 				pos = -1
 			}
 			Youtmat.Data[jYout+i] = float64(pos)
@@ -352,9 +352,9 @@ func (m *LabelEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense)
 	Youtmat := Yout.RawMatrix()
 	for jY, jYout := 0, 0; jY < Ymat.Rows*Ymat.Stride; jY, jYout = jY+Ymat.Stride, jYout+Youtmat.Stride {
 		for i, v := range Ymat.Data[jY : jY+Ymat.Cols] {
-			if int(v) < 0 || int(v) > len(m.Classes[i]) {
+			if int(v) < 0 || int(v) >= len(m.Classes[i]) {
 				Youtmat.Data[jYout+i] = math.NaN()
-				break
+				continue
 			}
 			Youtmat.Data[jYout+i] = m.Classes[i][int(v)]
 		}
-- 
2.43.0


From f481df7525d214163d7d2d7c42480861045ef3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 014/156] fix: MultiLabelBinarizer.Transform accepts any
 matrix, as Fit does

---
 preprocessing/label.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 609feee..7c91b74 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -169,7 +169,7 @@ func (m *MultiLabelBinarizer) Fit2(X mat.Matrix, Y interface{}) *MultiLabelBinar
 // Transform for MultiLabelBinarizer ...
 // Y type must be the same passed int Fit
 func (m *MultiLabelBinarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
-	return m.Transform2(X, Y)
+	return m.Transform2(X, base.ToDense(Y))
 }
 
 // FitTransform fit to dat, then transform it
-- 
2.43.0


From ac1e03a4afb29e5fdc8e17950c535e86f78bdde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:55 +0000
Subject: [PATCH 015/156] fix: OneHotEncoder decodes to the original values and
 encodes unseen values as zeros

---
 preprocessing/data.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 0e38640..096b697 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -753,7 +753,9 @@ func (m *OneHotEncoder) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		for sample := 0; sample < NSamples; sample++ {
 			v := X.At(sample, feature)
 			//fmt.Printf("sample %d feature %d baseColumn %d nClasses %d y %g min:%d yint %d\n", sample, feature, baseColumn, m.NumClasses[feature], Y.At(sample, feature), m.Min[feature], yint)
-			Xout.Set(sample, baseColumn+cmap[v], 1.)
+			if classNo, ok := cmap[v]; ok {
+				Xout.Set(sample, baseColumn+classNo, 1.)
+			}
 		}
 		baseColumn += m.NValues[feature]
 	}
@@ -777,7 +779,7 @@ func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense
 		cstart, cend := m.FeatureIndices[feature], m.FeatureIndices[feature+1]
 		for sample := 0; sample < nSamples; sample++ {
 			classNo := floats.MaxIdx(X.RawRowView(sample)[cstart:cend])
-			Xout.Set(sample, feature, float64(classNo))
+			Xout.Set(sample, feature, m.Values[feature][classNo])
 		}
 	}
 	return
-- 
2.43.0


From cee4c7fd4da36a6df4afc58c39ef26132a0f0f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 016/156] fix: PolynomialFeatures.InverseTransform keeps the
 targets

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 096b697..7afbcf5 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -645,7 +645,7 @@ func (poly *PolynomialFeatures) InverseTransform(X, Y *mat.Dense) (Xout, Yout *m
 			Xout.Set(i, pair.jorig, X.At(i, pair.jpoly))
 		}
 	}
-	return
+	return Xout, Y
 }
 
 // DenseMean puts in Xmean[1,nFeatures] the mean of X rows
-- 
2.43.0


From 08f67612cff8d4b41eff11b6debbd5a5a7aa0afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 017/156] fix: Binarizer handles matrices whose stride exceeds
 their columns

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7afbcf5..b40a985 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -891,13 +891,13 @@ func (m *Binarizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	Xout = mat.NewDense(rmx.Rows, rmx.Cols, nil)
 	rmXout := Xout.RawMatrix()
 	Yout = base.ToDense(Y)
-	for r, xpos := 0, 0; r < rmx.Rows; r, xpos = r+1, xpos+rmx.Stride {
+	for r, xpos, xopos := 0, 0, 0; r < rmx.Rows; r, xpos, xopos = r+1, xpos+rmx.Stride, xopos+rmXout.Stride {
 		for c := 0; c < rmx.Cols; c++ {
 
 			if rmx.Data[xpos+c] > m.Threshold {
-				rmXout.Data[xpos+c] = 1
+				rmXout.Data[xopos+c] = 1
 			} else {
-				rmXout.Data[xpos+c] = 0
+				rmXout.Data[xopos+c] = 0
 			}
 		}
 	}
-- 
2.43.0


From 35651075b7ecc2f3eb34bdc563b8eca47f0a5c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 018/156] fix: Normalizer handles non-square data by rows and
 its inverse returns a result

---
 preprocessing/data.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index b40a985..c929a4f 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1047,7 +1047,7 @@ func (m *Normalizer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 		m.nrmValues = make([]float64, NSamples)
 		for i := 0; i < NSamples; i++ {
 			mat.Row(tmp, i, X)
-			nrm := mat.Norm(mat.NewVecDense(NSamples, tmp), norm)
+			nrm := mat.Norm(mat.NewVecDense(NFeatures, tmp), norm)
 			m.nrmValues[i] = nrm
 			if nrm != 0 {
 				floats.Scale(1/nrm, tmp)
@@ -1067,7 +1067,11 @@ func (m *Normalizer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Normalizer ...
 func (m *Normalizer) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	NSamples, NFeatures := X.Dims()
+	Xout, Yout = mat.NewDense(NSamples, NFeatures, nil), Y
 	if m.Axis == 0 {
 		tmp := make([]float64, NSamples)
 		for i := 0; i < NFeatures; i++ {
-- 
2.43.0


From 399b9e8c89ca43a71341a388488aafeef1168281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:46:08 +0000
Subject: [PATCH 019/156] fix: Shuffler.InverseTransform works on copies,
 whatever the stride

---
 preprocessing/data.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index c929a4f..9701a86 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -844,19 +844,20 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	xmat, ymat := X.RawMatrix(), Y.RawMatrix()
+	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
 	var srcxpos, srcypos, dstxpos, dstypos, j int
 	var v float64
 	for i := len(m.Perm) - 1; i >= 0; i-- {
 		if m.Perm[i] > i {
 			srcxpos, dstxpos = m.Perm[i]*xmat.Stride, i*xmat.Stride
 			srcypos, dstypos = m.Perm[i]*ymat.Stride, i*ymat.Stride
-			for j = 0; j < xmat.Stride; j++ {
+			for j = 0; j < xmat.Cols; j++ {
 				v = xmat.Data[srcxpos+j]
 				xmat.Data[srcxpos+j] = xmat.Data[dstxpos+j]
 				xmat.Data[dstxpos+j] = v
 			}
-			for j = 0; j < ymat.Stride; j++ {
+			for j = 0; j < ymat.Cols; j++ {
 				v := ymat.Data[srcypos+j]
 				ymat.Data[srcypos+j] = ymat.Data[dstypos+j]
 				ymat.Data[dstypos+j] = v
@@ -865,7 +866,7 @@ func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 		}
 	}
 
-	return X, Y
+	return
 }
 
 // Binarizer Binarize data (set feature values to 0 or 1) according to a threshold
-- 
2.43.0


From da0e4b46e85f03cd2d131b551bbbd27df9d32bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 020/156] fix: KBinsDiscretizer sorts the samples for its
 quantiles and passes the targets through

---
 preprocessing/discretization.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/discretization.go b/preprocessing/discretization.go
index 1d7e268..8fe5477 100644
--- a/preprocessing/discretization.go
+++ b/preprocessing/discretization.go
@@ -3,6 +3,7 @@ package preprocessing
 import (
 	"fmt"
 	"math"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"gonum.org/v1/gonum/floats"
@@ -39,6 +40,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 		tmp := make([]float64, NSamples)
 		for f := start; f < end; f++ {
 			mat.Col(tmp, f, X)
+			sort.Float64s(tmp)
 			min, max := floats.Min(tmp), floats.Max(tmp)
 			m.BinEdges[f] = make([]float64, m.NBins+1)
 			for b := 0; b <= m.NBins; b++ {
@@ -60,6 +62,7 @@ func (m *KBinsDiscretizer) Fit(X, Y mat.Matrix) base.Fiter {
 // Transform discretizes the Data
 func (m *KBinsDiscretizer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
+	Yout = base.ToDense(Y)
 	switch m.Encode {
 	case "ordinal":
 		Xout = mat.NewDense(NSamples, NFeatures, nil)
-- 
2.43.0


From d5359278854711626038ca61ea55b3a7d05a17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 021/156] fix: QuantileTransformer sorts the samples,
 transforms all features and handles ties and values out of range

---
 preprocessing/data.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 9701a86..7885ce9 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1181,6 +1181,7 @@ func (m *QuantileTransformer) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	for feature := 0; feature < nFeatures; feature++ {
 		values := XT.RawRowView(feature)
+		sort.Float64s(values)
 		quantiles := Q.RawRowView(feature)
 		for i := range m.references {
 			realSample := float64(i) / float64(m.NQuantiles-1) * float64(nSamples-1)
@@ -1203,9 +1204,19 @@ func (m *QuantileTransformer) Transform(Xmatrix, Ymatrix mat.Matrix) (Xout, Yout
 	nSamples, nFeatures := X.Dims()
 	eps := 1e-7
 	Xout = mat.NewDense(nSamples, nFeatures, nil)
-	for c := 0; c < nFeatures && c < len(m.references); c++ {
+	for c := 0; c < nFeatures; c++ {
+		for i := 0; i < nSamples; i++ {
+			if X.At(i, c) > m.Quantiles.At(m.NQuantiles-1, c) {
+				Xout.Set(i, c, m.references[m.NQuantiles-1]-eps)
+			} else {
+				Xout.Set(i, c, m.references[0]+eps)
+			}
+		}
 		for q := m.NQuantiles - 2; q >= 0; q-- {
 			x0, x1 := m.Quantiles.At(q, c), m.Quantiles.At(q+1, c)
+			if x0 == x1 {
+				continue
+			}
 			for i := 0; i < nSamples; i++ {
 				x := X.At(i, c)
 				if x >= x0 && x <= x1 {
-- 
2.43.0


From 6d73e2e4a12f00e83935d6f9d5b0600031875dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 022/156] fix: KernelCenterer.Transform returns one row per
 sample

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 7885ce9..55b3e1a 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1138,7 +1138,7 @@ func (m *KernelCenterer) Transform(Xmatrix, Y mat.Matrix) (Xout, Yout *mat.Dense
 		}
 	})
 	Xmat := X.RawMatrix()
-	Xout = mat.NewDense(Xmat.Cols, Xmat.Cols, nil)
+	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
 	for j, jX, jXout := 0, 0, 0; j < Xmat.Rows; j, jX, jXout = j+1, jX+Xmat.Stride, jXout+Xoutmat.Stride {
 		for i, v := range Xmat.Data[jX : jX+Xmat.Cols] {
-- 
2.43.0


From 6bb12a8e7cad5dd3fb99f76bd94d69b66286ebd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 023/156] fix: PowerTransformer.Transform leaves its input
 alone

---
 preprocessing/data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 55b3e1a..8316470 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1312,7 +1312,7 @@ func (m *PowerTransformer) fit(X, Y mat.Matrix, forceTransform bool) (Xout *mat.
 // Transform apply the power transform to each feature using the fitted lambdas
 func (m *PowerTransformer) Transform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 	nSamples, nFeatures := X.Dims()
-	Xout = base.ToDense(X)
+	Xout = mat.NewDense(nSamples, nFeatures, nil)
 	Yout = base.ToDense(Y)
 	var transformFunc func(out, x []float64, lmbda float64)
 	switch m.Method {
-- 
2.43.0


From d712e7dbf562d0b14bb03a5aea0319f139df92df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 024/156] fix: power transforms handle lambda 0 and 2, and the
 Box-Cox inverse handles negative values

---
 preprocessing/data.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 8316470..8733496 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -1424,7 +1424,7 @@ func yeoJohnsonOptimize(x []float64) float64 {
 
 // yeoJohnsonTransform returns in out transformed input x following Yeo-Johnson transform with parameter lambda
 func yeoJohnsonTransform(out, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 
 	//# when x >= 0
 	if math.Abs(lmbda) < spacing {
@@ -1459,7 +1459,7 @@ func yeoJohnsonTransform(out, x []float64, lmbda float64) {
 
 // yeoJohnsonInverseTransform returns inverse-transformed input x following Yeo-Johnson inverse transform with parameter lambda
 func yeoJohnsonInverseTransform(xinv, x []float64, lmbda float64) {
-	spacing := math.Nextafter(1, 1) - 1
+	spacing := math.Nextafter(1, 2) - 1
 	abs := math.Abs
 	exp := math.Exp
 	power := math.Pow
@@ -1537,7 +1537,7 @@ func boxCoxInverseTransform(out, x []float64, lmbda float64) {
 		f = math.Exp
 	}
 	for pos, xi := range x {
-		if xi > 0 || (xi >= 0 && lmbda > 0) {
+		if base := xi*lmbda + 1; base > 0 || (base >= 0 && lmbda > 0) {
 			out[pos] = f(xi)
 		} else {
 			out[pos] = math.NaN()
-- 
2.43.0


From 078f3d5bfe1ca79c088b6696d224fa61b9c08286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:52 +0000
Subject: [PATCH 025/156] fix: PCA handles more features than samples and
 inverts a transform to fewer components

---
 preprocessing/pca.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 067575b..0d5ff57 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -27,7 +27,10 @@ func (m *PCA) TransformerClone() base.Transformer {
 // Fit computes the svd of X
 func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
-	_, c := X.Dims()
+	r, c := X.Dims()
+	if r < c {
+		c = r
+	}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
@@ -80,9 +83,9 @@ func (m *PCA) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
 	var v = new(mat.Dense)
 	m.SVD.VTo(v)
 	nSamples, _ := X.Dims()
-	_, vCols := v.Dims()
-	Xout = mat.NewDense(nSamples, vCols, nil)
-	Xout.Mul(X, v.T())
+	vRows, _ := v.Dims()
+	Xout = mat.NewDense(nSamples, vRows, nil)
+	Xout.Mul(X, base.MatDenseSlice(v, 0, vRows, 0, m.NComponents).T())
 	Yout = Y
 	return
 }
-- 
2.43.0


From 3c1759a650627f86d2d6d7bb0b2be06410f5436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:18 +0000
Subject: [PATCH 026/156] fix: neighbors distances handle vectors of length one
 and vectors with an increment

---
 neighbors/distance.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index 9353cc6..bb42ec4 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -11,17 +11,14 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-			for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-				dp = math.Max(dp, math.Abs(braw[j]-araw[j]))
+			for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+				dp = math.Max(dp, math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]))
 			}
 		} else {
 			for j := 0; j < b.Len(); j++ {
@@ -31,8 +28,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 		return dp
 	}
 	if isrva && isrvb {
-		for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-			dp += math.Pow(math.Abs(braw[j]-araw[j]), p)
+		for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+			dp += math.Pow(math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]), p)
 		}
 	} else {
 		for j := 0; j < b.Len(); j++ {
@@ -65,9 +62,9 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	bvd, bvdok := b.(mat.RawVectorer)
 	if avdok && bvdok {
 		arv, brv, vb, d := avd.RawVector(), bvd.RawVector(), 0., 0.
-		for j, va := range arv.Data {
-			vb = brv.Data[j]
-			d = vb - va
+		for j := 0; j < arv.N; j++ {
+			vb = brv.Data[j*brv.Inc]
+			d = vb - arv.Data[j*arv.Inc]
 			d2 += d * d
 		}
 	} else {
-- 
2.43.0


From 581ffb286339f3985c1bc7c3d81a327f6f08e4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:18 +0000
Subject: [PATCH 027/156] fix: Rectangle.Split does not swap the bounds of its
 parts

---
 neighbors/kdtree.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index 789091b..d689935 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -55,10 +55,10 @@ func (r *Rectangle) Split(d int, split float64) (less, greater *Rectangle) {
 	cp := copyFloatSlice
 	mid := cp(r.Maxes)
 	mid[d] = split
-	less = NewRectangle(r.Mins, mid)
+	less = NewRectangle(mid, r.Mins)
 	mid = cp(r.Mins)
 	mid[d] = split
-	greater = NewRectangle(mid, r.Maxes)
+	greater = NewRectangle(r.Maxes, mid)
 	return less, greater
 }
 
-- 
2.43.0


From 5056b1c9957d2f18692e3704f6fc9ba16c5c33cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:31 +0000
Subject: [PATCH 028/156] fix: cluster distances handle vectors of length one
 and vectors with an increment

---
 cluster/distance.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cluster/distance.go b/cluster/distance.go
index 98ff7ed..e778248 100644
--- a/cluster/distance.go
+++ b/cluster/distance.go
@@ -11,17 +11,14 @@ type Distance func(a, b mat.Vector) float64
 
 // MinkowskiDistanceP ...
 func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
-	if a.Len() == 1 {
-		return math.Abs(b.At(0, 0) - a.At(0, 0))
-	}
 	var dp float64
 	rva, isrva := a.(mat.RawVectorer)
 	rvb, isrvb := b.(mat.RawVectorer)
 	if math.IsInf(p, 1) {
 
 		if isrva && isrvb {
-			for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-				dp = math.Max(dp, math.Abs(braw[j]-araw[j]))
+			for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+				dp = math.Max(dp, math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]))
 			}
 		} else {
 			for j := 0; j < b.Len(); j++ {
@@ -31,8 +28,8 @@ func MinkowskiDistanceP(a, b mat.Vector, p float64) float64 {
 		return dp
 	}
 	if isrva && isrvb {
-		for araw, braw, j := rva.RawVector().Data, rvb.RawVector().Data, 0; j < len(araw); j++ {
-			dp += math.Pow(math.Abs(braw[j]-araw[j]), p)
+		for araw, braw, j := rva.RawVector(), rvb.RawVector(), 0; j < araw.N; j++ {
+			dp += math.Pow(math.Abs(braw.Data[j*braw.Inc]-araw.Data[j*araw.Inc]), p)
 		}
 	} else {
 		for j := 0; j < b.Len(); j++ {
-- 
2.43.0


From e52a829bedf9eae87351f42effa586a504556827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 029/156] fix: KDTree building terminates when samples share a
 coordinate

---
 neighbors/kdtree.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index d689935..b924e7b 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -274,14 +274,22 @@ func (tr *KDTree) _build(idx []int, maxes, mins []float64) Node {
 				M = v
 			}
 		}
+		// the greatest values go to the greater side, the others to the less side
 		split = M
-		lessIdx, greaterIdx = lgfill(split)
+		lessIdx, greaterIdx = lessIdx[:0], greaterIdx[:0]
+		for _, i := range idx {
+			if tr.Data.At(i, d) < split {
+				lessIdx = append(lessIdx, i)
+			} else {
+				greaterIdx = append(greaterIdx, i)
+			}
+		}
 	}
 	if len(lessIdx) == 0 {
 		// # _still_ zero? all must have the same value
 		split = tr.Data.At(idx[0], d)
-		lessIdx = _arange(len(idx) - 1)
-		greaterIdx = []int{len(idx) - 1}
+		lessIdx = idx[:len(idx)-1]
+		greaterIdx = idx[len(idx)-1:]
 	}
 	lessmaxes := copyFloatSlice(maxes)
 	lessmaxes[d] = split
-- 
2.43.0


From b29026ab891d55f4b8704f185d7202f32a22964d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 030/156] fix: KDTree.Query honours distanceUpperBound and
 marks missing neighbors

---
 neighbors/kdtree.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/neighbors/kdtree.go b/neighbors/kdtree.go
index b924e7b..1bfa548 100644
--- a/neighbors/kdtree.go
+++ b/neighbors/kdtree.go
@@ -375,16 +375,15 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 
 			for _, fitSample := range idx {
 				ds := MinkowskiDistanceP(X, tr.Data.RowView(fitSample), p)
-				if ds < distanceUpperBound {
+				if ds < distanceUpperBound || (ds == distanceUpperBound && len(neighbors) < k) {
 					if len(neighbors) == k {
 						nHeappop()
 					}
+					nHeappush(nEle{float64: -ds, int: fitSample})
+					if len(neighbors) == k {
+						distanceUpperBound = -neighbors[0].float64
+					}
 				}
-				nHeappush(nEle{float64: -ds, int: fitSample})
-				if len(neighbors) == k {
-					distanceUpperBound = -neighbors[0].float64
-				}
-
 			}
 
 		} else {
@@ -478,6 +477,7 @@ func (tr *KDTree) _query(X mat.Vector, k int, eps, p float64, distanceUpperBound
 func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64) (dd, ii *mat.Dense) {
 	NSamples, NFeatures := X.Dims()
 	dd, ii = mat.NewDense(NSamples, k, nil), mat.NewDense(NSamples, k, nil)
+	n, _ := tr.Data.Dims()
 	base.Parallelize(runtime.NumCPU(), NSamples, func(th, start, end int) {
 		XRowViewer, _ := X.(mat.RowViewer)
 		var row []float64
@@ -485,6 +485,11 @@ func (tr *KDTree) Query(X mat.Matrix, k int, eps, p, distanceUpperBound float64)
 			row = make([]float64, NFeatures)
 		}
 		for sample := start; sample < end; sample++ {
+			// missing neighbors have an infinite distance
+			for ik := 0; ik < k; ik++ {
+				ii.Set(sample, ik, float64(n))
+				dd.Set(sample, ik, math.Inf(1))
+			}
 			callback := func(ik int, dist float64, ind int) {
 				ii.Set(sample, ik, float64(ind))
 				dd.Set(sample, ik, dist)
-- 
2.43.0


From bd8ee161182a0b121424af184e5f473b61070dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 031/156] fix: RadiusNeighbors keeps points on the boundary
 with a KDTree

---
 neighbors/unsupervised.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index a9cda8c..30d20ea 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -170,7 +170,8 @@ func (m *NearestNeighbors) RadiusNeighbors(X *mat.Dense, radius float64) (distan
 					}
 
 				}
-				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius, callback)
+				// search a bit wider because distances are compared after raising them to the power P
+				m.Tree._query(X.RowView(sample), NFitSamples, 0, m.P, radius*(1+1e-9), callback)
 			}
 		})
 	}
-- 
2.43.0


From 09e509bf2317c918fbae92a7f22127ddb7fdb50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 032/156] fix: NearestNeighbors.Fit forgets the tree of an
 earlier fit

---
 neighbors/unsupervised.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 30d20ea..5f782c9 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -51,6 +51,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 		m.NJobs = runtime.NumCPU()
 	}
 	m.X = mat.DenseCopyOf(X)
+	m.Tree = nil
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
 	if useKDTree {
 		if m.LeafSize <= 0 {
-- 
2.43.0


From bd714df4aaec2f95dd391b6dd4a1c4bc3117a5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 033/156] fix: KNeighborsGraph in distance mode puts distances
 on the edges

---
 neighbors/unsupervised.go | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 5f782c9..ede5618 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -105,22 +105,18 @@ func (m *NearestNeighbors) KNeighborsGraph(X *mat.Dense, NNeighbors int, mode st
 	NSamplesFit, _ := m.X.Dims()
 	distances, indices := m.KNeighbors(X, NNeighbors)
 	graph = mat.NewDense(NSamples, NSamplesFit, nil)
-	var source *mat.Dense
-
-	switch mode {
-	case "connectivity":
-		source = indices
-	default:
-		source = distances
-	}
 	base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 		for sample := start; sample < end; sample++ {
 			for ik := 0; ik < NNeighbors; ik++ {
-				index := int(source.At(sample, ik))
+				index := int(indices.At(sample, ik))
 				if sample == index && !includeSelf {
 					continue
 				}
-				graph.Set(sample, index, 1.)
+				if mode == "connectivity" {
+					graph.Set(sample, index, 1.)
+				} else {
+					graph.Set(sample, index, distances.At(sample, ik))
+				}
 			}
 		}
 	})
-- 
2.43.0


From b7b808aae9f6cdcb9b0200766c9fcf42c61118c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 034/156] fix: NearestNeighbors supports the documented metrics
 l1 and l2

---
 neighbors/unsupervised.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index ede5618..8a53f2a 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -38,10 +38,10 @@ func NewNearestNeighbors() *NearestNeighbors {
 func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	r, c := X.Dims()
 	switch m.Metric {
-	case "manhattan", "cityblock":
+	case "manhattan", "cityblock", "l1":
 		m.P = 1
 		m.Distance = MinkowskiDistance(m.P)
-	case "euclidean":
+	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
 	default:
-- 
2.43.0


From f586ba6c88fa4060da83f35927db527eb85177b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:34 +0000
Subject: [PATCH 035/156] fix: NearestNeighbors supports the documented cosine
 metric

---
 neighbors/distance.go     | 9 +++++++++
 neighbors/unsupervised.go | 4 +++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/neighbors/distance.go b/neighbors/distance.go
index bb42ec4..8d7a6f4 100644
--- a/neighbors/distance.go
+++ b/neighbors/distance.go
@@ -76,3 +76,12 @@ func EuclideanDistance(a, b mat.Vector) float64 {
 	}
 	return math.Sqrt(d2)
 }
+
+// CosineDistance returns 1 - cosine of the angle between a and b
+func CosineDistance(a, b mat.Vector) float64 {
+	na, nb := mat.Norm(a, 2), mat.Norm(b, 2)
+	if na == 0 || nb == 0 {
+		return 1
+	}
+	return 1 - mat.Dot(a, b)/(na*nb)
+}
diff --git a/neighbors/unsupervised.go b/neighbors/unsupervised.go
index 8a53f2a..f438115 100644
--- a/neighbors/unsupervised.go
+++ b/neighbors/unsupervised.go
@@ -44,6 +44,8 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	case "euclidean", "l2":
 		m.P = 2
 		m.Distance = MinkowskiDistance(m.P)
+	case "cosine":
+		m.Distance = CosineDistance
 	default:
 		m.Distance = MinkowskiDistance(m.P)
 	}
@@ -53,7 +55,7 @@ func (m *NearestNeighbors) Fit(X, Y mat.Matrix) {
 	m.X = mat.DenseCopyOf(X)
 	m.Tree = nil
 	useKDTree := strings.Contains(strings.ToLower(m.Algorithm), "tree") || (m.Algorithm == "auto" && r*c > 1000)
-	if useKDTree {
+	if useKDTree && m.Metric != "cosine" {
 		if m.LeafSize <= 0 {
 			m.LeafSize = 30
 		}
-- 
2.43.0


From df1e9dbf0c971a566107c4b0a0349ece9969d6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 036/156] fix: KNeighborsClassifier.PredictProba sets the
 probability of absent classes to zero

---
 neighbors/classification.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index dfa9770..c4aa8ea 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -133,9 +133,7 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 				}
 				if wantProba {
 					for icl, cl := range m.Classes[0] {
-						if clw, found := classw[cl]; found {
-							Y.Set(sample, icl, clw/sumweights)
-						}
+						Y.Set(sample, icl, classw[cl]/sumweights)
 					}
 				} else {
 					Y.Set(sample, o, clwmax)
-- 
2.43.0


From 1354fb2fe4367e5ddd4ffb784a742fecd15311ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 037/156] fix: KNeighborsClassifier ties go to the smallest
 class, not to a random one

---
 neighbors/classification.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index c4aa8ea..6e0eef9 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -125,8 +125,8 @@ func (m *KNeighborsClassifier) _predict(X, Y *mat.Dense, wantProba bool) *KNeigh
 					}
 				}
 				wmax, clwmax := 0., 0.
-				for cl, w := range classw {
-					if w > wmax {
+				for _, cl := range m.Classes[o] {
+					if w := classw[cl]; w > wmax {
 						wmax = w
 						clwmax = cl
 					}
-- 
2.43.0


From dd7b3b01a7a9eec05065801ac153653c3f874fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 038/156] fix: KNeighborsClassifier keeps its own copy of the
 labels

---
 neighbors/classification.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index 6e0eef9..e48f5d5 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -36,7 +36,7 @@ func NewKNeighborsClassifier(K int, Weights string) *KNeighborsClassifier {
 func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	m.Xscaled = mat.DenseCopyOf(X)
-	m.Y = Y
+	m.Y = mat.DenseCopyOf(Y)
 	m.nOutputs = Y.RawMatrix().Cols
 	if m.Distance == nil {
 		m.Distance = EuclideanDistance
-- 
2.43.0


From 6309ba9d975715297c97d81a8cd022bd0c57e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 039/156] fix: KNeighborsClassifier implements IsClassifier and
 PredicterClone instead of calling a nil Predicter

---
 neighbors/classification.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index e48f5d5..e20ee77 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -49,6 +49,15 @@ func (m *KNeighborsClassifier) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// IsClassifier returns true for KNeighborsClassifier
+func (*KNeighborsClassifier) IsClassifier() bool { return true }
+
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *KNeighborsClassifier) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
 // GetNOutputs returns output columns number for Y to pass to predict
 func (m *KNeighborsClassifier) GetNOutputs() int {
 	return m.nOutputs
-- 
2.43.0


From 585bdd92c654a01d3645897426e42698f89e1d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 040/156] fix: NearestCentroid implements GetNOutputs,
 IsClassifier and PredicterClone instead of calling a nil Predicter

---
 neighbors/nearest_centroid.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index e7c5aa0..c9fe84a 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -69,6 +69,18 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	return m
 }
 
+// IsClassifier returns true for NearestCentroid
+func (*NearestCentroid) IsClassifier() bool { return true }
+
+// PredicterClone return a (possibly unfitted) copy of predicter
+func (m *NearestCentroid) PredicterClone() base.Predicter {
+	clone := *m
+	return &clone
+}
+
+// GetNOutputs returns output columns number for Y to pass to predict
+func (*NearestCentroid) GetNOutputs() int { return 1 }
+
 // Predict  for NearestCentroid
 func (m *NearestCentroid) Predict(X mat.Matrix, Ymutable mat.Mutable) *mat.Dense {
 	Y := base.ToDense(Ymutable)
-- 
2.43.0


From 398ea334882938da7a79648c105361f19ec67f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 041/156] fix: NearestCentroid computes the median of unsorted
 samples

---
 neighbors/nearest_centroid.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index c9fe84a..0e4d73b 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -2,6 +2,7 @@ package neighbors
 
 import (
 	"runtime"
+	"sort"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/metrics"
@@ -58,7 +59,8 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				}
 			}
 			if useMedian {
-				centroidXfeat = stat.Quantile(.5, stat.Empirical, col[0:rows], nil)
+				sort.Float64s(col[0:rows])
+				centroidXfeat = (col[(rows-1)/2] + col[rows/2]) / 2
 			} else {
 				centroidXfeat = stat.Mean(col[0:rows], nil)
 			}
-- 
2.43.0


From 2837bb0fbf236418beba7fee09a166defc8fbf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:15 +0000
Subject: [PATCH 042/156] fix: NearestCentroid measures distances with its
 metric

---
 neighbors/nearest_centroid.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index 0e4d73b..6371034 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -28,7 +28,7 @@ type NearestCentroid struct {
 // NewNearestCentroid ...
 // if Metric is "manhattan", centroids are computed using median else mean
 func NewNearestCentroid(metric string, shrinkThreshold float64) *NearestCentroid {
-	return &NearestCentroid{Metric: metric, ShrinkThreshold: shrinkThreshold}
+	return &NearestCentroid{NearestNeighbors: *NewNearestNeighbors(), Metric: metric, ShrinkThreshold: shrinkThreshold}
 }
 
 // Fit ...
@@ -67,6 +67,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
 }
-- 
2.43.0


From 8fb18c470e3ee233092a1c747992287d2857aafb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:43 +0000
Subject: [PATCH 043/156] fix: KFold.GetNSplits announces the default number of
 splits

---
 model_selection/split.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/model_selection/split.go b/model_selection/split.go
index efc4397..b42c5a8 100644
--- a/model_selection/split.go
+++ b/model_selection/split.go
@@ -107,6 +107,9 @@ func (splitter *KFold) Split(X, Y *mat.Dense) (ch chan Split) {
 
 // GetNSplits for KFold
 func (splitter *KFold) GetNSplits(X, Y *mat.Dense) int {
+	if splitter.NSplits <= 0 {
+		return 3
+	}
 	return splitter.NSplits
 }
 
-- 
2.43.0


From e731be4e3b4d0a2debeb133b03f00b69ecfe09cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:43 +0000
Subject: [PATCH 044/156] fix: CrossValidate without a splitter uses its
 default KFold

---
 model_selection/validation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index 7e5fc44..f564140 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -39,13 +39,13 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 	if NJobs <= 0 {
 		NJobs = runtime.NumCPU()
 	}
+	if cv == Splitter(nil) {
+		cv = &KFold{NSplits: 3, Shuffle: true}
+	}
 	NSplits := cv.GetNSplits(X, Y)
 	if NJobs > NSplits {
 		NJobs = NSplits
 	}
-	if cv == Splitter(nil) {
-		cv = &KFold{NSplits: 3, Shuffle: true}
-	}
 	res.Estimator = make([]base.Predicter, NSplits)
 	res.TestScore = make([]float64, NSplits)
 	res.FitTime = make([]time.Duration, NSplits)
-- 
2.43.0


From c51f5053afee3c76bddfe26396cb6e5f36b89957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:27 +0000
Subject: [PATCH 045/156] fix: ParameterGrid enumerates the combinations in a
 fixed order

---
 model_selection/search.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 6550a8b..407e882 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -3,6 +3,7 @@ package modelselection
 import (
 	"fmt"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/pa-m/sklearn/base"
@@ -11,31 +12,29 @@ import (
 	"gonum.org/v1/gonum/mat"
 )
 
-// ParameterGrid ...
+// ParameterGrid returns all the combinations of parameter values, in the order of sorted parameter names
 func ParameterGrid(paramGrid map[string][]interface{}) (out []map[string]interface{}) {
 	makeArr := func(name string, values []interface{}, prevArr []map[string]interface{}) (out []map[string]interface{}) {
-
-		if len(prevArr) == 0 {
+		for _, map1 := range prevArr {
 			for _, v := range values {
-				out = append(out, map[string]interface{}{name: v})
-			}
-		} else {
-			for _, map1 := range prevArr {
-				for _, v := range values {
-					map2 := make(map[string]interface{})
-					for k1, v1 := range map1 {
-						map2[k1] = v1
-					}
-					map2[name] = v
-					out = append(out, map2)
+				map2 := make(map[string]interface{})
+				for k1, v1 := range map1 {
+					map2[k1] = v1
 				}
+				map2[name] = v
+				out = append(out, map2)
 			}
 		}
-
 		return
 	}
-	for k, v := range paramGrid {
-		out = makeArr(k, v, out)
+	names := make([]string, 0, len(paramGrid))
+	for k := range paramGrid {
+		names = append(names, k)
+	}
+	sort.Strings(names)
+	out = []map[string]interface{}{{}}
+	for _, k := range names {
+		out = makeArr(k, paramGrid[k], out)
 	}
 	return
 }
-- 
2.43.0


From 5b0f8c33d993420ee146f983512ffde9c001f29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:27 +0000
Subject: [PATCH 046/156] fix: GridSearchCV compares all candidates on the same
 splits

---
 model_selection/search.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/model_selection/search.go b/model_selection/search.go
index 407e882..d281cfb 100644
--- a/model_selection/search.go
+++ b/model_selection/search.go
@@ -82,6 +82,25 @@ func (gscv *GridSearchCV) IsClassifier() bool {
 	return false
 }
 
+// fixedSplits is a Splitter always giving the same splits
+type fixedSplits []Split
+
+// Split ...
+func (splits fixedSplits) Split(X, Y *mat.Dense) (ch chan Split) {
+	ch = make(chan Split, len(splits))
+	for _, split := range splits {
+		ch <- split
+	}
+	close(ch)
+	return ch
+}
+
+// GetNSplits ...
+func (splits fixedSplits) GetNSplits(X, Y *mat.Dense) int { return len(splits) }
+
+// SplitterClone ...
+func (splits fixedSplits) SplitterClone() Splitter { return splits }
+
 // Fit ...
 func (gscv *GridSearchCV) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
@@ -119,15 +138,20 @@ func (gscv *GridSearchCV) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	gscv.CVResults["score"] = make([]interface{}, len(paramArray))
 
+	// all candidates are compared on the same splits
+	var cv fixedSplits
+	for split := range gscv.CV.SplitterClone().Split(X, Y) {
+		cv = append(cv, split)
+	}
+
 	type structIn struct {
 		index     int
 		params    map[string]interface{}
 		estimator base.Predicter
-		cv        Splitter
 		score     float64
 	}
 	dowork := func(sin *structIn) {
-		cvres := CrossValidate(sin.estimator, X, Y, nil, gscv.Scorer, sin.cv, gscv.NJobs)
+		cvres := CrossValidate(sin.estimator, X, Y, nil, gscv.Scorer, cv, gscv.NJobs)
 		sin.score = floats.Sum(cvres.TestScore) / float64(len(cvres.TestScore))
 		bestFold := bestIdx(cvres.TestScore)
 		sin.estimator = cvres.Estimator[bestFold]
@@ -137,7 +161,7 @@ func (gscv *GridSearchCV) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	{
 		sin := make([]structIn, len(paramArray))
 		for i, params := range paramArray {
-			sin[i] = structIn{index: i, params: params, estimator: estCloner.PredicterClone(), cv: gscv.CV.SplitterClone()}
+			sin[i] = structIn{index: i, params: params, estimator: estCloner.PredicterClone()}
 			for k, v := range sin[i].params {
 				setParam(sin[i].estimator, k, v)
 			}
-- 
2.43.0


From d8356f2d9982320fc3bea7ed48a2fa1f60c65442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:27 +0000
Subject: [PATCH 047/156] fix: CrossValidate gives each estimator its own
 training data

---
 model_selection/validation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/model_selection/validation.go b/model_selection/validation.go
index f564140..ef815a4 100644
--- a/model_selection/validation.go
+++ b/model_selection/validation.go
@@ -58,12 +58,14 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 		iSplit int
 		score  float64
 	}
-	NSamples, NFeatures := X.Dims()
+	_, NFeatures := X.Dims()
 	_, NOutputs := Y.Dims()
-	processSplit := func(job int, Xjob, Yjob *mat.Dense, sin structIn) structOut {
+	processSplit := func(job int, sin structIn) structOut {
 		Xtrain, Xtest, Ytrain, Ytest := &mat.Dense{}, &mat.Dense{}, &mat.Dense{}, &mat.Dense{}
 		// fmt.Println("iSplit", sin.iSplit, "TrainIndex", sin.Split.TrainIndex[:10])
 		trainLen, testLen := len(sin.Split.TrainIndex), len(sin.Split.TestIndex)
+		// estimators may keep references on training data so they can't be shared between splits
+		Xjob, Yjob := mat.NewDense(trainLen+testLen, NFeatures, nil), mat.NewDense(trainLen+testLen, NOutputs, nil)
 		Xtrain.SetRawMatrix(base.MatGeneralRowSlice(Xjob.RawMatrix(), 0, trainLen))
 		Ytrain.SetRawMatrix(base.MatGeneralRowSlice(Yjob.RawMatrix(), 0, trainLen))
 		Xtest.SetRawMatrix(base.MatGeneralRowSlice(Xjob.RawMatrix(), trainLen, trainLen+testLen))
@@ -96,17 +98,15 @@ func CrossValidate(estimator base.Predicter, X, Y *mat.Dense, groups []int, scor
 			sin = append(sin, structIn{iSplit: len(sin), Split: split})
 		}
 		base.Parallelize(NJobs, NSplits, func(th, start, end int) {
-			var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 			for i := start; i < end; i++ {
-				sout := processSplit(th, Xjob, Yjob, sin[i])
+				sout := processSplit(th, sin[i])
 				res.TestScore[sout.iSplit] = sout.score
 			}
 		})
 	} else { // NJobs==1
-		var Xjob, Yjob = mat.NewDense(NSamples, NFeatures, nil), mat.NewDense(NSamples, NOutputs, nil)
 		var isplit int
 		for split := range cv.Split(X, Y) {
-			sout := processSplit(0, Xjob, Yjob, structIn{iSplit: isplit, Split: split})
+			sout := processSplit(0, structIn{iSplit: isplit, Split: split})
 			res.TestScore[sout.iSplit] = sout.score
 			isplit++
 		}
-- 
2.43.0


From 4be7bc1db9727687f2da0a4ccd04fe5dc4b90927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 048/156] fix: Pipeline.Predict accepts transformers without
 inverse

---
 pipeline/pipeline.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 19e0f0a..ad08223 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -127,8 +127,9 @@ func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 	}
 	for iStep := len(p.NamedSteps) - 2; iStep >= 0; iStep-- {
-		step := p.NamedSteps[iStep]
-		_, Ytmp = step.Fiter.(preprocessing.InverseTransformer).InverseTransform(nil, Ytmp)
+		if step, ok := p.NamedSteps[iStep].Fiter.(preprocessing.InverseTransformer); ok {
+			_, Ytmp = step.InverseTransform(nil, Ytmp)
+		}
 	}
 	return base.FromDense(Y, base.ToDense(Ytmp))
 }
-- 
2.43.0


From 9a2225319e2589d2afd8657c33d12dc54f79263c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 049/156] fix: Pipeline.Score scores with the targets
 transformed along with X

---
 pipeline/pipeline.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index ad08223..6c1c61e 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -108,7 +108,7 @@ func (p *Pipeline) Score(X, Y mat.Matrix) float64 {
 	if !ok {
 		panic(fmt.Errorf("pipeline.Score: last step is not a Predicter"))
 	}
-	return predicter.Score(Xtmp, Y)
+	return predicter.Score(Xtmp, Ytmp)
 }
 
 // GetNOutputs returns output columns number for Y
-- 
2.43.0


From b0b1a2b2ca8a45acb6c33eb5941bc9e2cec3da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 050/156] fix: Pipeline.Predict allocates the result with
 target transforming steps

---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 6c1c61e..077fc29 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -122,6 +122,10 @@ func (p *Pipeline) GetNOutputs() int {
 // Predict for pipeline calls steps Transform then InverseTransform for InverseTransformer steps
 func (p *Pipeline) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Xtmp, Ytmp := base.ToDense(X), base.ToDense(Y)
+	if Ytmp.IsEmpty() {
+		nSamples, _ := Xtmp.Dims()
+		Ytmp = mat.NewDense(nSamples, p.NOutputs, nil)
+	}
 	for istep := range p.NamedSteps {
 		p.transformStep(istep, &Xtmp, &Ytmp)
 
-- 
2.43.0


From 1eb94fad002b9d8ed153c84e65e27cf4cc37d634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 051/156] fix: Pipeline.GetNOutputs counts the outputs of the
 pipeline

---
 pipeline/pipeline.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pipeline/pipeline.go b/pipeline/pipeline.go
index 077fc29..b930776 100644
--- a/pipeline/pipeline.go
+++ b/pipeline/pipeline.go
@@ -116,6 +116,10 @@ func (p *Pipeline) GetNOutputs() int {
 	if len(p.NamedSteps) == 0 {
 		return 0
 	}
+	// steps may encode targets so last step outputs may differ from pipeline outputs
+	if p.NOutputs > 0 {
+		return p.NOutputs
+	}
 	return p.NamedSteps[len(p.NamedSteps)-1].Fiter.(base.Predicter).GetNOutputs()
 }
 
-- 
2.43.0


From fbc926a95764844422b2f598f69d20e4ed2a2636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 052/156] fix: OneHotEncoder, Shuffler and MaxAbsScaler
 inverses accept a nil X like the others

---
 preprocessing/data.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 8733496..99db2f4 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -10,6 +10,7 @@ import (
 	"github.com/pa-m/sklearn/base"
 
 	"github.com/pa-m/optimize"
+	"gonum.org/v1/gonum/blas/blas64"
 	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
 	"gonum.org/v1/gonum/stat"
@@ -770,6 +771,9 @@ func (m *OneHotEncoder) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform compute Yout classes from one hot encoded format
 func (m *OneHotEncoder) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	nSamples, _ := X.Dims()
 	nFeatures := len(m.NValues)
 	Yout = Y
@@ -844,8 +848,15 @@ func (m *Shuffler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for Shuffler
 func (m *Shuffler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
-	Xout, Yout = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
-	xmat, ymat := Xout.RawMatrix(), Yout.RawMatrix()
+	var xmat, ymat blas64.General
+	if X != nil {
+		Xout = mat.DenseCopyOf(X)
+		xmat = Xout.RawMatrix()
+	}
+	if Y != nil {
+		Yout = mat.DenseCopyOf(Y)
+		ymat = Yout.RawMatrix()
+	}
 	var srcxpos, srcypos, dstxpos, dstypos, j int
 	var v float64
 	for i := len(m.Perm) - 1; i >= 0; i-- {
@@ -986,6 +997,9 @@ func (m *MaxAbsScaler) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Dense) {
 
 // InverseTransform for MaxAbsScaler ...
 func (m *MaxAbsScaler) InverseTransform(X, Y *mat.Dense) (Xout, Yout *mat.Dense) {
+	if X == nil {
+		return X, Y
+	}
 	Xmat := X.RawMatrix()
 	Xout = mat.NewDense(Xmat.Rows, Xmat.Cols, nil)
 	Xoutmat := Xout.RawMatrix()
-- 
2.43.0


From a17f7ba9f4c4402c95cf5f444e1b2647601fea27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:38 +0000
Subject: [PATCH 053/156] fix: FunctionTransformer without inverse function
 works in a pipeline

---
 preprocessing/functiontransformer.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/preprocessing/functiontransformer.go b/preprocessing/functiontransformer.go
index ad2c425..743f8a9 100644
--- a/preprocessing/functiontransformer.go
+++ b/preprocessing/functiontransformer.go
@@ -43,6 +43,9 @@ func (m *FunctionTransformer) FitTransform(X, Y mat.Matrix) (Xout, Yout *mat.Den
 
 // InverseTransform ...
 func (m *FunctionTransformer) InverseTransform(X, Y *mat.Dense) (X1, Y1 *mat.Dense) {
+	if m.InverseFunc == nil {
+		return X, Y
+	}
 	X1, Y1 = m.InverseFunc(X, Y)
 	return
 }
-- 
2.43.0


From 695cbb0abe75c3a6ef47d5272e0e3328f9e4f866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:15 +0000
Subject: [PATCH 054/156] fix: a DBSCAN core sample has at least MinSamples
 neighbors, as documented

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index bdebd83..b22f078 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -113,7 +113,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
 	for sample := range NNeighbors {
-		if NNeighbors[sample] > m.MinSamples {
+		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
 			m.CoreSampleIndices = append(m.CoreSampleIndices, sample)
 		}
-- 
2.43.0


From 48eed0c937b077ad3ad1bf37d425c9defd4d6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:15 +0000
Subject: [PATCH 055/156] fix: DBSCAN.Fit forgets the core samples of the
 previous fit

---
 cluster/dbscan.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index b22f078..28b466a 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -112,6 +112,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	// # A list of all core samples found.
 	isCore := make([]bool, NSamples)
+	m.CoreSampleIndices = nil
 	for sample := range NNeighbors {
 		if NNeighbors[sample] >= m.MinSamples {
 			isCore[sample] = true
-- 
2.43.0


From 41e02a4d430b543b6eb5fc83f65a6f8d486dd2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:15 +0000
Subject: [PATCH 056/156] fix: DBSCAN passes its Minkowski power to the
 neighbors search

---
 cluster/dbscan.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cluster/dbscan.go b/cluster/dbscan.go
index 28b466a..3a0ce04 100644
--- a/cluster/dbscan.go
+++ b/cluster/dbscan.go
@@ -83,7 +83,7 @@ func (m *DBSCAN) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X := base.ToDense(Xmatrix)
 	m.NeighborsModel = neighbors.NewNearestNeighbors()
 	m.NeighborsModel.Algorithm = m.Algorithm
-	m.NeighborsModel.Distance = MinkowskiDistance(m.P)
+	m.NeighborsModel.P = m.P
 	m.NeighborsModel.Metric = m.Metric
 	m.NeighborsModel.NJobs = m.NJobs
 	m.NeighborsModel.LeafSize = m.LeafSize
-- 
2.43.0


From e6a87903f7bf6ff1506b2c67f1b34f19c8b448d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:15 +0000
Subject: [PATCH 057/156] fix: KMeans leaves the centroid of an empty cluster
 where it is

---
 cluster/kmeans.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cluster/kmeans.go b/cluster/kmeans.go
index c92be35..faf5635 100644
--- a/cluster/kmeans.go
+++ b/cluster/kmeans.go
@@ -78,8 +78,13 @@ func (m *KMeans) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		changed = false
 		// find nearest centroids
 		m.predict(X, NearestCentroid, CentroidCount, &changed)
-		// recompute centroids
-		m.Centroids.Sub(m.Centroids, m.Centroids)
+		// recompute centroids. an empty cluster keeps its centroid
+		for ic, count := range CentroidCount {
+			if count > 0 {
+				c := m.Centroids.RowView(ic).(*mat.VecDense)
+				c.SubVec(c, c)
+			}
+		}
 		var mu sync.Mutex // mu locks m.Centroids modifications
 		base.Parallelize(m.NJobs, NSamples, func(th, start, end int) {
 			row := make([]float64, NFeatures)
-- 
2.43.0


From 4564967eba4d83d2bdc15569783b97b257576fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:40 +0000
Subject: [PATCH 058/156] fix: Interp1d keeps its own copy of sorted points too

---
 interpolate/interpolate.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 42c073d..830a0da 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -32,13 +32,10 @@ func Interp1d(x, y []float64) func(x float64) float64 {
 		panic(fmt.Errorf("interp1d lenx:%d leny:%d", len(x), len(y)))
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(x) {
-		both = &xy{x, y}
-	} else {
-		both = &xy{make([]float64, len(x)), make([]float64, len(x))}
-		copy(both.x, x)
-		copy(both.y, y)
+	both := &xy{make([]float64, len(x)), make([]float64, len(x))}
+	copy(both.x, x)
+	copy(both.y, y)
+	if !sort.Float64sAreSorted(x) {
 		sort.Sort(both)
 	}
 	return func(x float64) float64 {
-- 
2.43.0


From d21adb6667440fe0d7c3883e6da460aeaeaa3fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:40 +0000
Subject: [PATCH 059/156] fix: CubicSpline keeps its own copy of sorted points
 too

---
 interpolate/cubic.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/interpolate/cubic.go b/interpolate/cubic.go
index b1a0364..b71b088 100644
--- a/interpolate/cubic.go
+++ b/interpolate/cubic.go
@@ -51,13 +51,10 @@ func CubicSpline(xs, ys []float64) func(x float64) float64 {
 
 	}
 
-	var both *xy
-	if sort.Float64sAreSorted(xs) {
-		both = &xy{xs, ys}
-	} else {
-		both = &xy{make([]float64, len(xs)), make([]float64, len(xs))}
-		copy(both.x, xs)
-		copy(both.y, ys)
+	both := &xy{make([]float64, len(xs)), make([]float64, len(xs))}
+	copy(both.x, xs)
+	copy(both.y, ys)
+	if !sort.Float64sAreSorted(xs) {
 		sort.Sort(both)
 	}
 
-- 
2.43.0


From 9c3acbafe8a33ca19fafd2b7637b5c6de233593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:40 +0000
Subject: [PATCH 060/156] fix: Interp2d extrapolates above the last x as it
 does below the first

---
 interpolate/interpolate.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/interpolate/interpolate.go b/interpolate/interpolate.go
index 830a0da..4996104 100644
--- a/interpolate/interpolate.go
+++ b/interpolate/interpolate.go
@@ -79,27 +79,25 @@ func Interp2d(x, y, z []float64) func(x, y float64) float64 {
 	return func(x, y float64) float64 {
 		ix0 := 0
 		l := len(xsorted)
-		ix2 := l - 1
+		// last x group before x, leaving at least one group after it
 		for i := range xsorted {
-			if xsorted[i] > xsorted[ix0] && xsorted[i] <= x && xsorted[i] <= xsorted[ix2] {
+			if xsorted[i] > xsorted[ix0] && xsorted[i] <= x && xsorted[i] < xsorted[l-1] {
 				ix0 = i
 			}
-			if xsorted[l-1-i] <= xsorted[ix2] && xsorted[l-1-i] >= x && xsorted[l-1-i] > xsorted[ix0] {
-				ix2 = l - 1 - i
-			}
 		}
 		ix1 := ix0
 		for ix1 < l && xsorted[ix1] == xsorted[ix0] {
 			ix1++
 		}
+		// next x group
+		ix2 := ix1
+		if ix2 == l {
+			ix2 = ix0
+		}
 		ix3 := ix2
 		for ix3 < l && xsorted[ix3] == xsorted[ix2] {
 			ix3++
 		}
-		x2 := xsorted[ix2]
-		for ix2 > 1 && xsorted[ix2-1] == x2 {
-			ix2--
-		}
 		zxlow := Interp1d(ysorted[ix0:ix1], zsorted[ix0:ix1])(y)
 		zxhi := Interp1d(ysorted[ix2:ix3], zsorted[ix2:ix3])(y)
 		//fmt.Println("xlow", xsorted[ix0:ix1], "xhi", xsorted[ix2:ix3], "yxlow", ysorted[ix0:ix1], "yxhi", ysorted[ix2:ix3], "zxlow", zsorted[ix0:ix1], zxlow, "zxhi", zsorted[ix2:ix3], zxhi)
-- 
2.43.0


From 4791e7adc93eaaee4c68affa50a3f52f29edfa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:27 +0000
Subject: [PATCH 061/156] fix: PreprocessData leaves the scale of constant
 features at 1

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 83e981d..4f005b8 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -625,7 +625,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 			scale := 1.
 			if FitIntercept && Normalize {
 				scale = mat.Norm(Xout.ColView(feature), 2)
-				if scale != 0. {
+				if scale == 0. {
+					scale = 1. // constant feature
+				} else {
 					for jXout := 0; jXout < Xoutmat.Rows*Xoutmat.Stride; jXout = jXout + Xoutmat.Stride {
 						Xoutmat.Data[jXout+feature] /= scale
 					}
-- 
2.43.0


From 5a57f08386b1bc7ac1baaaa7b8e57fbe37e76338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:27 +0000
Subject: [PATCH 062/156] fix: PreprocessData goroutines only write their own
 features

---
 linear_model/Base.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 4f005b8..e794414 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -620,7 +620,9 @@ func PreprocessData(X, Y *mat.Dense, FitIntercept, Normalize bool, SampleWeight
 					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature] - mean
 				}
 			} else {
-				Xout.Copy(X)
+				for jX, jXout := 0, 0; jX < Xmat.Rows*Xmat.Stride; jX, jXout = jX+Xmat.Stride, jXout+Xoutmat.Stride {
+					Xoutmat.Data[jXout+feature] = Xmat.Data[jX+feature]
+				}
 			}
 			scale := 1.
 			if FitIntercept && Normalize {
-- 
2.43.0


From 96847c7e31a2ec94289fd48fa07f455f5d4e2d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:27 +0000
Subject: [PATCH 063/156] fix: linear models fit a new intercept instead of
 reusing a previous or shared one

---
 linear_model/Base.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index e794414..aac63c0 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -558,9 +558,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 func (regr *LinearModel) setIntercept(XOffset, YOffset, XScale mat.Matrix) {
 	_, nOutputs := regr.Coef.Dims()
-	if regr.Intercept == nil {
-		regr.Intercept = mat.NewDense(1, nOutputs, nil)
-	}
+	regr.Intercept = mat.NewDense(1, nOutputs, nil)
 
 	regr.Coef.Apply(func(j, o int, coef float64) float64 { return coef / XScale.At(0, j) }, regr.Coef)
 	if regr.FitIntercept {
-- 
2.43.0


From a51b2beaf627fecdf501d1cdfccea073938cb058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:27 +0000
Subject: [PATCH 064/156] fix: LinearRegression finds least squares solutions
 with rank deficient data

---
 linear_model/Base.go | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index aac63c0..91ce48c 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -92,11 +92,37 @@ func (regr *LinearRegression) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y, regr.XOffset, YOffset, regr.XScale = PreprocessData(X0, Y0, regr.FitIntercept, regr.Normalize, nil)
 	// use least squares
 	regr.Coef = &mat.Dense{}
-	regr.Coef.Solve(X, Y)
+	if err := regr.Coef.Solve(X, Y); err != nil {
+		// X is rank deficient (constant or collinear features, few samples)
+		regr.Coef = minNormSolve(X, Y)
+	}
 	regr.LinearModel.setIntercept(regr.XOffset, YOffset, regr.XScale)
 	return regr
 }
 
+// minNormSolve returns the least squares solution of X*Coef=Y having the minimum norm
+func minNormSolve(X, Y *mat.Dense) *mat.Dense {
+	var svd mat.SVD
+	if !svd.Factorize(X, mat.SVDThin) {
+		panic("svd failed")
+	}
+	u, v, tmp, coef := &mat.Dense{}, &mat.Dense{}, &mat.Dense{}, &mat.Dense{}
+	svd.UTo(u)
+	svd.VTo(v)
+	s := svd.Values(nil)
+	nSamples, nFeatures := X.Dims()
+	threshold := s[0] * math.Max(float64(nSamples), float64(nFeatures)) * 2.220446049250313e-16
+	tmp.Mul(u.T(), Y)
+	tmp.Apply(func(i, o int, uty float64) float64 {
+		if s[i] > threshold {
+			return uty / s[i]
+		}
+		return 0
+	}, tmp)
+	coef.Mul(v, tmp)
+	return coef
+}
+
 // GetNOutputs returns output columns number for Y to pass to predict
 func (regr *LinearModel) GetNOutputs() int {
 	_, nOutputs := regr.Coef.Dims()
-- 
2.43.0


From a5aaa58033e39aca3600cc9f7bceb2e1c1487ad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:26:57 +0000
Subject: [PATCH 065/156] fix: ElasticNet warm start works on a first fit and
 on its own copy of Coef

---
 linear_model/coordinatedescent.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 37d1257..025f227 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -60,9 +60,14 @@ func (regr *ElasticNet) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 
 	l1reg := regr.Alpha * regr.L1Ratio * float64(NSamples)
 	l2reg := regr.Alpha * (1. - regr.L1Ratio) * float64(NSamples)
-	if !regr.WarmStart {
-		regr.Coef = mat.NewDense(NFeatures, NOutputs, nil)
+	coef := mat.NewDense(NFeatures, NOutputs, nil)
+	if regr.WarmStart && regr.Coef != nil {
+		if r, c := regr.Coef.Dims(); r == NFeatures && c == NOutputs {
+			// start from the previous solution, expressed for the scaled features
+			coef.Apply(func(j, o int, c float64) float64 { return c * regr.XScale.At(0, j) }, regr.Coef)
+		}
 	}
+	regr.Coef = coef
 	random := strings.EqualFold("random", regr.Selection)
 	if NOutputs == 1 {
 		y := &mat.VecDense{}
-- 
2.43.0


From 782e4eaac6cebc1d4640185ff1de2385615dafc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:32 +0000
Subject: [PATCH 066/156] fix: LinearRegression does not trust a QR solution of
 nearly singular data

---
 linear_model/Base.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 91ce48c..1147924 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -90,12 +90,8 @@ func (regr *LinearRegression) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X0, Y0 := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
 	var X, Y, YOffset *mat.Dense
 	X, Y, regr.XOffset, YOffset, regr.XScale = PreprocessData(X0, Y0, regr.FitIntercept, regr.Normalize, nil)
-	// use least squares
-	regr.Coef = &mat.Dense{}
-	if err := regr.Coef.Solve(X, Y); err != nil {
-		// X is rank deficient (constant or collinear features, few samples)
-		regr.Coef = minNormSolve(X, Y)
-	}
+	// use least squares. X may be rank deficient (constant or collinear features, few samples)
+	regr.Coef = minNormSolve(X, Y)
 	regr.LinearModel.setIntercept(regr.XOffset, YOffset, regr.XScale)
 	return regr
 }
-- 
2.43.0


From bc29297303da3234e5dafd3d0cb2a65786356f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 067/156] fix: loss functions only read the rows of their
 minibatch

---
 linear_model/loss.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 5b197a8..ad9589a 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -31,6 +31,7 @@ var LossFunctions = map[string]Loss{"square": SquareLoss, "log": LogLoss, "cross
 // grad:  hprime*(h-y)
 //
 func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L1Ratio float64, nSamples int, activation Activation, disableRegularizationOfFirstFeature bool) (J float64) {
+	nRows, _ := X.Dims() // may be less than nSamples for a minibatch
 	Ypred.Mul(X, Theta)
 	Ypred.Apply(func(i, o int, xtheta float64) float64 { return activation.F(xtheta) }, Ypred)
 	Ydiff.Sub(Ypred, Ytrue)
@@ -47,7 +48,7 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 		} else {
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					g += Ydiff.At(i, o) * X.At(i, j) * activation.Fprime(h)
 				}
@@ -67,6 +68,7 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 
 // LogLoss for one versus rest classifiers
 func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L1Ratio float64, nSamples int, activation Activation, disableRegularizationOfFirstFeature bool) (J float64) {
+	nRows, _ := X.Dims() // may be less than nSamples for a minibatch
 	Ypred.Mul(X, Theta)
 	Ypred.Apply(func(i, o int, xtheta float64) float64 { return activation.F(xtheta) }, Ypred)
 	Ydiff.Sub(Ypred, Ytrue)
@@ -93,7 +95,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 	if grad != nil {
 		grad.Apply(func(j, o int, theta float64) float64 {
 			g := 0.
-			for i := 0; i < nSamples; i++ {
+			for i := 0; i < nRows; i++ {
 				h := Ypred.At(i, o)
 				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
 			}
@@ -120,6 +122,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 // grad:  hprime*(-y/h + (1-y)/(1-h))
 //
 func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L1Ratio float64, nSamples int, activation Activation, disableRegularizationOfFirstFeature bool) (J float64) {
+	nRows, _ := X.Dims() // may be less than nSamples for a minibatch
 	Ypred.Mul(X, Theta)
 	Ypred.Apply(func(i, o int, xtheta float64) float64 { return panicIfNaN(activation.F(xtheta)) }, Ypred)
 	Ydiff.Sub(Ypred, Ytrue)
@@ -150,7 +153,7 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 			// // for Logistic activation only
 			grad.Apply(func(j, o int, theta float64) float64 {
 				g := 0.
-				for i := 0; i < nSamples; i++ {
+				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
 					hprime := activation.Fprime(h)
-- 
2.43.0


From 09bc7683e7ae3c6de139b2228d50fb4d18e895b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 068/156] fix: gradients of LogLoss and CrossEntropyLoss
 include the feature

---
 linear_model/loss.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index ad9589a..1969163 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -97,7 +97,7 @@ func LogLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha, L
 			g := 0.
 			for i := 0; i < nRows; i++ {
 				h := Ypred.At(i, o)
-				g += -Ytrue.At(i, o) * activation.Fprime(h) / h
+				g += -Ytrue.At(i, o) * X.At(i, j) * activation.Fprime(h) / h
 			}
 			return g
 		}, Theta)
@@ -156,7 +156,7 @@ func CrossEntropyLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense,
 				for i := 0; i < nRows; i++ {
 					h := Ypred.At(i, o)
 					y := Ytrue.At(i, o)
-					hprime := activation.Fprime(h)
+					hprime := activation.Fprime(h) * X.At(i, j)
 					if y == 1. {
 						g += -y * hprime / h
 					} else if y == 0. {
-- 
2.43.0


From 27d6fdea4813e7064409f7acac3b61d5f2f5a8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 069/156] fix: the gradient of the regularization takes Alpha
 and the scale of the loss into account

---
 linear_model/loss.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/linear_model/loss.go b/linear_model/loss.go
index 1969163..fe64af7 100644
--- a/linear_model/loss.go
+++ b/linear_model/loss.go
@@ -56,12 +56,15 @@ func SquareLoss(Ytrue, X mat.Matrix, Theta, Ypred, Ydiff, grad *mat.Dense, Alpha
 			}, Theta)
 		}
 	}
+	if grad != nil {
+		grad.Scale(2, grad)
+	}
 	if Alpha > 0. {
 		J += regularization(Theta, grad, Alpha, L1Ratio, disableRegularizationOfFirstFeature)
 	}
 	J /= 2. * float64(nSamples)
 	if grad != nil {
-		grad.Scale(1./float64(nSamples), grad)
+		grad.Scale(1./(2.*float64(nSamples)), grad)
 	}
 	return
 }
@@ -280,11 +283,11 @@ func regularization(Theta, grad *mat.Dense, Alpha, L1Ratio float64, disableRegul
 				for o := 0; o < NOutputs; o++ {
 					g := grad.At(j, o)
 					t := Theta.At(j, o)
-					if L1Ratio > 0. {
-						g += L1Ratio * t / featureL1
+					if L1Ratio > 0. && featureL1 > 0. {
+						g += Alpha * L1Ratio * t / featureL1
 					}
 					if L1Ratio < 1. {
-						g += (1. - L1Ratio) * t
+						g += Alpha * (1. - L1Ratio) * 2 * t
 					}
 					grad.Set(j, o, g)
 				}
-- 
2.43.0


From dcfa6a77087e545c455ffbff579be570f46d63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:10 +0000
Subject: [PATCH 070/156] fix: SGDRegressor gradient is the gradient of its
 loss

---
 linear_model/Base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 1147924..4b81070 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -256,7 +256,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 				return 0.
 			}
 			gradmat.Apply(func(j int, o int, gradj float64) float64 {
-				grad[j] = gradj + al1*sgn(gradj) + al2*gradj
+				grad[j] = gradj/float(nSamples) + al1*sgn(coef[j])/2. + al2*coef[j]
 				return grad[j]
 			}, gradmat)
 		}
-- 
2.43.0


From 69b916ff7e9dfedc01ddfd2e09a2e10e521ef40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 071/156] fix: concurrent evaluations of the SGDRegressor loss
 do not share Coef

---
 linear_model/Base.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 4b81070..06ddce6 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -194,10 +194,9 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	loss := func(coefSlice []float, o int) float {
 		// e = sumi { (yi -sumj cj Xij)² }
 		// de/dcj =
-		regr.Coef.SetCol(o, coefSlice)
 		tmp := mat.NewDense(nSamples, 1, nil)
 		// e will be sum of squares of errors
-		tmp.Mul(X, regr.Coef.ColView(o))
+		tmp.Mul(X, mat.NewVecDense(nFeatures, coefSlice))
 		tmp.Sub(tmp, Y.ColView(o))
 		tmp.MulElem(tmp, tmp)
 		e := mat.Sum(tmp) / 2. / float(nSamples)
@@ -210,7 +209,7 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			alphaL2 := regr.Alpha * (1. - regr.L1Ratio) / 2. / float64(nSamples)
 
 			for j := 0; j < nFeatures; j++ {
-				c := regr.Coef.At(j, o)
+				c := coefSlice[j]
 				L1 += alphaL1 * math.Abs(c)
 				L2 += alphaL2 * c * c
 			}
@@ -239,9 +238,8 @@ func (regr *SGDRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			}
 			// X dot Ydiff+ alpha*l1ratio*sign+alpha*(1-l1ratio)*coef
 			tmp := mat.NewDense(nSamples, 1, nil)
-			regr.Coef.SetCol(o, coef)
-			tmp.Mul(X, regr.Coef.ColView(o)) // X dot coef
-			tmp.Sub(tmp, Y.ColView(o))       // Ydiff
+			tmp.Mul(X, mat.NewVecDense(nFeatures, coef)) // X dot coef
+			tmp.Sub(tmp, Y.ColView(o))                   // Ydiff
 			gradmat := mat.NewDense(nFeatures, 1, nil)
 			gradmat.Mul(X.T(), tmp) // X dot Ydiff
 			al1 := regr.Alpha * regr.L1Ratio / float(nSamples)
-- 
2.43.0


From a866e67bdc9cafb098897848f13f4e873b961691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:37 +0000
Subject: [PATCH 072/156] fix: concurrent evaluations of the LinFitGOM loss do
 not share buffers

---
 linear_model/Base.go | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/linear_model/Base.go b/linear_model/Base.go
index 06ddce6..bddb300 100644
--- a/linear_model/Base.go
+++ b/linear_model/Base.go
@@ -510,11 +510,11 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 		chanret := make(chan fitOutputRes, nOutputs)
 
 		fitOutput := func(o int, chanret chan fitOutputRes) {
-			Ypred := mat.NewDense(nSamples, 1, nil)
-			Ydiff := mat.NewDense(nSamples, 1, nil)
 			thetao := make([]float64, nFeatures)
 			p := optimize.Problem{
 				Func: func(thetao []float64) float64 {
+					// Func and Grad may be called concurrently
+					Ypred, Ydiff := mat.NewDense(nSamples, 1, nil), mat.NewDense(nSamples, 1, nil)
 					J := opts.Loss(Ytrue.ColView(o), X, mat.NewDense(nFeatures, 1, thetao), Ypred, Ydiff, nil, opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 					return J
 				},
@@ -525,7 +525,7 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 					if len(thetao) != len(grad) {
 						panic("incorrect size of the gradient")
 					}
-
+					Ypred, Ydiff := mat.NewDense(nSamples, 1, nil), mat.NewDense(nSamples, 1, nil)
 					opts.Loss(Ytrue.ColView(o), X, mat.NewDense(nFeatures, 1, thetao), Ypred, Ydiff, mat.NewDense(nFeatures, 1, grad), opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 				},
 			}
@@ -550,11 +550,10 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 
 	} else {
 
-		Ypred := mat.NewDense(nSamples, nOutputs, nil)
-		Ydiff := mat.NewDense(nSamples, nOutputs, nil)
 		p := optimize.Problem{
 			Func: func(theta []float64) float64 {
-
+				// Func and Grad may be called concurrently
+				Ypred, Ydiff := mat.NewDense(nSamples, nOutputs, nil), mat.NewDense(nSamples, nOutputs, nil)
 				J := opts.Loss(Ytrue, X, mat.NewDense(nFeatures, nOutputs, theta), Ypred, Ydiff, nil, opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 				return J
 			},
@@ -562,11 +561,15 @@ func LinFitGOM(X, Ytrue *mat.Dense, opts *LinFitOptions) *LinFitResult {
 				if grad == nil {
 					grad = make([]float64, len(theta))
 				}
+				Ypred, Ydiff := mat.NewDense(nSamples, nOutputs, nil), mat.NewDense(nSamples, nOutputs, nil)
 				opts.Loss(Ytrue, X, mat.NewDense(nFeatures, nOutputs, theta), Ypred, Ydiff, mat.NewDense(nFeatures, nOutputs, grad), opts.Alpha, opts.L1Ratio, nSamples, opts.Activation, opts.DisableRegularizationOfFirstFeature)
 			},
 		}
 		ret, err = optimize.Minimize(p, theta, fSettings(), opts.GOMethodCreator())
 		copy(theta, ret.X)
+		Ydiff := &mat.Dense{}
+		Ydiff.Mul(X, thetaM)
+		Ydiff.Sub(Ydiff, Ytrue)
 		rmse = mat.Norm(Ydiff, 2) / float64(nOutputs)
 		epoch = ret.FuncEvaluations
 		converged = ret.Status != optimize.Failure
-- 
2.43.0


From 22807d1815bf21b263afb809a5f0630615b68cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 073/156] fix: coordinate descent does not report one iteration
 more than MaxIter

---
 linear_model/cdfast.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index bc90623..f410e22 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -154,7 +154,10 @@ func enetCoordinateDescent(w *mat.VecDense, alpha, beta float64, X *mat.Dense, Y
 		}
 
 	}
-	return &CDResult{Gap: gap, Eps: tol, NIter: nIter + 1}
+	if nIter < maxIter {
+		nIter++ // stopped in the middle of iteration nIter
+	}
+	return &CDResult{Gap: gap, Eps: tol, NIter: nIter}
 }
 
 func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.Dense, Y *mat.Dense, maxIter int, tol float64, rng *rand.Rand, random, positive bool) *CDResult {
@@ -329,5 +332,8 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 		}
 
 	}
-	return &CDResult{Gap: gap, Eps: tol, NIter: nIter + 1}
+	if nIter < maxIter {
+		nIter++ // stopped in the middle of iteration nIter
+	}
+	return &CDResult{Gap: gap, Eps: tol, NIter: nIter}
 }
-- 
2.43.0


From a1f016667b5035d4c6955e88f5540cd057a4271f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 074/156] fix: Positive applies to multi output elastic nets as
 well

---
 linear_model/cdfast.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/linear_model/cdfast.go b/linear_model/cdfast.go
index f410e22..595ec55 100644
--- a/linear_model/cdfast.go
+++ b/linear_model/cdfast.go
@@ -229,6 +229,11 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 
 			// # tmp = np.dot(X[:, ii][None, :], R).ravel()
 			tmp.MulVec(R.T(), X.ColView(ii))
+			if positive {
+				for o := 0; o < NTasks; o++ {
+					tmp.SetVec(o, math.Max(tmp.AtVec(o), 0))
+				}
+			}
 
 			// # nn = sqrt(np.sum(tmp ** 2))
 			nn = mat.Norm(tmp, 2)
@@ -289,6 +294,9 @@ func enetCoordinateDescentMultiTask(w *mat.Dense, l1reg, l2reg float64, X *mat.D
 			for jXtA, jW := 0, 0; jXtA < XtAmat.Rows*XtAmat.Stride; jXtA, jW = jXtA+XtAmat.Stride, jW+Wmat.Stride {
 				for i := range XtAmat.Data[jXtA : jXtA+XtAmat.Cols] {
 					XtAmat.Data[jXtA+i] -= l2reg * Wmat.Data[jW+i]
+					if positive {
+						XtAmat.Data[jXtA+i] = math.Max(XtAmat.Data[jXtA+i], 0)
+					}
 				}
 			}
 
-- 
2.43.0


From 5a9190325e6e25e2482b1e8c61b82776cb2d0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 075/156] fix: EnetPath uses all given alphas and no others

---
 linear_model/coordinatedescent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index 025f227..c8f6d17 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -146,7 +146,7 @@ func EnetPath(X, Y *mat.Dense, L1Ratio, eps float64, NAlphas int, Alphas *[]floa
 	if Alphas == nil {
 		alphaGrid(X, Y, L1Ratio, eps, alphas)
 	} else {
-		copy(alphas, *Alphas)
+		alphas = append([]float64{}, *Alphas...)
 	}
 	NAlphas = len(alphas)
 	coefs = make([]*mat.Dense, NAlphas)
-- 
2.43.0


From b099a951aaabbd82884fcc90dfa499d962efa540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:15 +0000
Subject: [PATCH 076/156] fix: automatic alphas of EnetPath reach from the zero
 solution down

---
 linear_model/coordinatedescent.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/linear_model/coordinatedescent.go b/linear_model/coordinatedescent.go
index c8f6d17..df8b870 100644
--- a/linear_model/coordinatedescent.go
+++ b/linear_model/coordinatedescent.go
@@ -119,18 +119,17 @@ func alphaGrid(X, Y *mat.Dense, L1Ratio, eps float64, alphas []float64) {
 	NAlphas := len(alphas)
 	alphaMax := 0.
 	NSamples, NFeatures := X.Dims()
-	_, NOutputs := Y.Dims()
-	row := make([]float64, NFeatures+NOutputs)
-	for sample := 0; sample < NSamples; sample++ {
-		copy(row[0:NFeatures], X.RawRowView(sample))
-		copy(row[NFeatures:NFeatures+NOutputs], Y.RawRowView(sample))
-		norm := mat.Norm(mat.NewVecDense(len(row), row), 2)
+	// alphaMax is the smallest alpha having all coefficients at zero
+	var XtY mat.Dense
+	XtY.Mul(X.T(), Y)
+	for feature := 0; feature < NFeatures; feature++ {
+		norm := mat.Norm(XtY.RowView(feature), 2)
 		if norm > alphaMax {
 			alphaMax = norm
 		}
 
 	}
-	alphaMax *= float64(NSamples) * L1Ratio
+	alphaMax /= float64(NSamples) * L1Ratio
 	minp, maxp := math.Log10(alphaMax*eps), math.Log10(alphaMax)
 	incp := (maxp - minp) / float64(NAlphas-1)
 	for i, p := 0, minp; i < NAlphas; i, p = i+1, p+incp {
-- 
2.43.0


From 971c61ddd77bf0b564aa85c88c22d011a39ee848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 077/156] fix: LogisticRegression accepts targets that are not
 *mat.Dense

---
 linear_model/logistic.go | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index ddeda9e..c90077d 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -336,15 +336,7 @@ func (m *LogisticRegression) IsClassifier() bool {
 
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
-	var xb, yb *mat.Dense
-	if xg, ok := X.(*mat.Dense); ok {
-		if yg, ok := Y.(*mat.Dense); ok {
-			xb, yb = xg, yg
-		}
-	} else {
-		xb = mat.DenseCopyOf(X)
-		yb = mat.DenseCopyOf(Y)
-	}
+	xb, yb := base.ToDense(X), base.ToDense(Y)
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From 6706f486f2d16930e13ae892c67a5b140131d218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 078/156] fix: LogisticRegression gradient of targets in a
 larger matrix

---
 linear_model/logistic.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index c90077d..f4bec4e 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -251,9 +251,9 @@ func (m *LogisticRegression) backprop(X, y blas64.General, activations []blas64.
 	{
 		H := activations[len(activations)-1]
 		D := deltas
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From f1e771ecdc012b8f79b9f138ea0b7f0e663d0c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 079/156] fix: LogisticRegression refitted with binarized
 targets forgets previous labels

---
 linear_model/logistic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index f4bec4e..094ea47 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -337,6 +337,7 @@ func (m *LogisticRegression) IsClassifier() bool {
 // Fit compute Coef and Intercept
 func (m *LogisticRegression) Fit(X, Y mat.Matrix) base.Fiter {
 	xb, yb := base.ToDense(X), base.ToDense(Y)
+	m.lb = nil
 	if m.IsClassifier() && !isBinarized(yb) {
 		m.lb = preprocessing.NewLabelBinarizer(0, 1)
 		xbin, ybin := m.lb.FitTransform(X, Y)
-- 
2.43.0


From 51ecb7c0152b8097d44d74727c7239b4c8416d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:45 +0000
Subject: [PATCH 080/156] fix: LogisticRegression keeps the best parameters and
 survives a failing line search

---
 linear_model/logistic.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 094ea47..656df5c 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -434,10 +434,16 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		m.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the best parameters, which are not always the last ones evaluated
+	copy(m.packedParameters, res.X)
+	m.Loss = res.F
+	m.NIter = res.MajorIterations
+	if err != nil {
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", m.MaxIter)
 	}
 }
-- 
2.43.0


From cdb53e6de910989d82dad165a5ff0605f875e973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 081/156] fix: LogisticRegression loss curve is the one of the
 last fit

---
 linear_model/logistic.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 656df5c..c49be01 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -270,6 +270,7 @@ func (m *LogisticRegression) initialize(yCols int, layerUnits []int, isMultiClas
 	// # set all attributes, allocate weights etc for first call
 	// # Initialize parameters
 	m.NIter = 0
+	m.LossCurve = nil
 	m.t = 0
 	m.NOutputs = yCols
 
-- 
2.43.0


From ddf15b81d2949e0d14ecd59f4c1f18cff7239b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:14 +0000
Subject: [PATCH 082/156] fix: LogisticRegression probabilities of large scores
 are not NaN

---
 linear_model/logistic.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index c49be01..95294ea 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -81,9 +81,10 @@ var logregActivation = map[string]func(z blas64.General){
 	"softmax": func(z blas64.General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			zmax := floats.Max(z.Data[zpos : zpos+z.Cols])
 			for col := 0; col < z.Cols; col++ {
-
-				z.Data[zpos+col] = math.Exp(z.Data[zpos+col])
+				// exp of large values would overflow
+				z.Data[zpos+col] = math.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From 63e93d09002476738e0f9689bc2dd440643107b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 083/156] fix: FromDense fills an empty mat.Dense

---
 base/matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/base/matrix.go b/base/matrix.go
index d1cb87f..1ff723f 100644
--- a/base/matrix.go
+++ b/base/matrix.go
@@ -222,6 +222,10 @@ func FromDense(dst mat.Mutable, dense *mat.Dense) *mat.Dense {
 	if dst == mat.Mutable(nil) {
 		return dense
 	}
+	if d, ok := dst.(*mat.Dense); ok && d.IsEmpty() {
+		d.CloneFrom(dense)
+		return dense
+	}
 	src := dense.RawMatrix()
 	if rawmatrixer, ok := dst.(mat.RawMatrixer); ok {
 		dstmat := rawmatrixer.RawMatrix()
-- 
2.43.0


From bf363fd28b9ef374733f9f4c764b701fa6454f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:03 +0000
Subject: [PATCH 084/156] fix: LogisticRegression keeps the best parameters
 seen even before a first major iteration

---
 linear_model/logistic.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/linear_model/logistic.go b/linear_model/logistic.go
index 95294ea..75faf37 100644
--- a/linear_model/logistic.go
+++ b/linear_model/logistic.go
@@ -404,6 +404,8 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		},
 	}
 
+	best := make([]float64, len(m.packedParameters))
+	copy(best, m.packedParameters)
 	var mu sync.Mutex // sync access to m.Loss on LossCurve
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
@@ -414,7 +416,10 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 			mu.Lock()
 			m.Loss = float64(loss)
 			m.LossCurve = append(m.LossCurve, m.Loss)
-			m.BestLoss = math.Min(m.BestLoss, m.Loss)
+			if m.Loss < m.BestLoss {
+				m.BestLoss = m.Loss
+				copy(best, w)
+			}
 			mu.Unlock()
 			return loss
 		},
@@ -440,8 +445,8 @@ func (m *LogisticRegression) fitLbfgs(X, y blas64.General, activations []blas64.
 		log.Panic(err)
 	}
 	// keep the best parameters, which are not always the last ones evaluated
-	copy(m.packedParameters, res.X)
-	m.Loss = res.F
+	copy(m.packedParameters, best)
+	m.Loss = m.BestLoss
 	m.NIter = res.MajorIterations
 	if err != nil {
 		log.Printf("lbfgs optimizer: %s\n", err)
-- 
2.43.0


From daa8b2fb92cf0252c11c06f9fea5ce5e956a3368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 085/156] fix: GaussianNB.PartialFit merges variances with the
 distance of the past mean

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 6869611..9295403 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -358,8 +358,8 @@ func (m *GaussianNB) updateMeanVariance(nPast float64, mu, va []float64, X matfi
 	newMu, newVa, nNew := meanvar(X, sw.sw)
 	nTotal := nPast + nNew
 	for c := 0; c < xc; c++ {
+		dmu := mu[c] - newMu[c] // before setTotalMu, which overwrites mu
 		setTotalMu(c, (nPast*mu[c]+nNew*newMu[c])/nTotal)
-		dmu := mu[c] - newMu[c]
 		setTotalVar(c, (nPast*va[c]+nNew*newVa[c]+nNew*nPast/nTotal*dmu*dmu)/nTotal)
 	}
 	setClassCount(nTotal)
-- 
2.43.0


From 06f2ab870ba63da19d1d7c2f759cc163315582af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 086/156] fix: GaussianNB.PartialFit takes out of Sigma the
 epsilon that was put in

---
 naive_bayes/naivebayes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 9295403..e347eeb 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -150,6 +150,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	_, xc := X.Dims()
 
 	_, varX, _ := meanvar(matfiltered{Matrix: X, filter: func(int) bool { return true }}, sampleWeight)
+	pastEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
 		m.Classes = nil
@@ -195,7 +196,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		}
 		//# Put epsilon back in each time
 		//self.sigma_[:, :] -= self.epsilon_
-		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - m.Epsilon }, m.Sigma)
+		m.Sigma.Apply(func(_, _ int, v float64) float64 { return v - pastEpsilon }, m.Sigma)
 	}
 	classes = m.Classes
 	uniqueY := npUnique(colAsVector(Y, 0))
-- 
2.43.0


From 3ee48df1deedfe128645ee84ae806ab715b40aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 087/156] fix: a refit of GaussianNB forgets the previous fit

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index e347eeb..60d7a69 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -153,7 +153,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	pastEpsilon := m.Epsilon
 	m.Epsilon = m.VarSmoothing * floats.Max(varX)
 	if refit {
-		m.Classes = nil
+		m.Classes, m.Theta = nil, nil
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-- 
2.43.0


From 4b507cd22d46aecdb824414f0115b4df5d6074c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 088/156] fix: GaussianNB.PartialFit keeps its own copy of
 classes

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 60d7a69..62720b2 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -157,7 +157,7 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 	}
 	firstCall := m.Theta == nil
 	if firstCall {
-		m.Classes = classes
+		m.Classes = append([]float64{}, classes...)
 		nFeatures := xc
 		nClasses := len(m.Classes)
 		m.Theta = mat.NewDense(nClasses, nFeatures, nil)
-- 
2.43.0


From 45b34b895d5a8099cca0b9c1b25237b33570031e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:22 +0000
Subject: [PATCH 089/156] fix: GaussianNB.Predict sizes an empty Y

---
 naive_bayes/naivebayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 62720b2..1a8d6aa 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -29,7 +29,7 @@ func (m *BaseNB) GetNOutputs() int {
 // Predict perform classification on an array of test vectors X
 func (m *BaseNB) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 	Ypred := base.ToDense(Y)
-	if Y == mat.Mutable(nil) {
+	if Ypred.IsEmpty() {
 		NSamples, _ := X.Dims()
 		Ypred = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	}
-- 
2.43.0


From 3233fa7c8e373c4b9a37867d3605b61e77056f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:22:40 +0000
Subject: [PATCH 090/156] fix: a clone of GaussianNB shares no state with its
 original

---
 naive_bayes/naivebayes.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/naive_bayes/naivebayes.go b/naive_bayes/naivebayes.go
index 1a8d6aa..dd78910 100644
--- a/naive_bayes/naivebayes.go
+++ b/naive_bayes/naivebayes.go
@@ -126,6 +126,17 @@ func (m *BaseNB) Score(X, Y mat.Matrix) float64 {
 // PredicterClone return a cloned GaussianNB as base.Predicter
 func (m *GaussianNB) PredicterClone() base.Predicter {
 	clone := *m
+	clone.Priors = append([]float64(nil), m.Priors...)
+	clone.SampleWeight = append([]float64(nil), m.SampleWeight...)
+	clone.ClassPrior = append([]float64(nil), m.ClassPrior...)
+	clone.ClassCount = append([]float64(nil), m.ClassCount...)
+	clone.Classes = append([]float64(nil), m.Classes...)
+	if m.Theta != nil {
+		clone.Theta, clone.Sigma = mat.DenseCopyOf(m.Theta), mat.DenseCopyOf(m.Sigma)
+	}
+	if m.jointLogLikelihood != nil {
+		clone.setJointLogLikelihood()
+	}
 	return &clone
 }
 
@@ -235,6 +246,11 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 		//self.class_prior_ = self.class_count_ / self.class_count_.sum()
 		floats.ScaleTo(m.ClassPrior, 1/floats.Sum(m.ClassCount), m.ClassCount)
 	}
+	m.setJointLogLikelihood()
+	return m
+}
+
+func (m *GaussianNB) setJointLogLikelihood() {
 	m.jointLogLikelihood = func(jll, xrow []float64) {
 		/*
 		   joint_log_likelihood = []
@@ -260,7 +276,6 @@ func (m *GaussianNB) PartialFit(X, Y mat.Matrix, classes []float64, refit bool,
 			jll[i] = jointi + nij
 		}
 	}
-	return m
 }
 
 type matfiltered struct {
-- 
2.43.0


From a604aee7c259e446ce5492dad056d4aef0a80d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 091/156] fix: SVC training can decrease the second multiplier
 of a pair

---
 svm/svm.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 06749b9..69e1678 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -112,7 +112,7 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
 				// % Check if change in alpha is significant
-				if alphas[j]-alphajold < Tol {
+				if math.Abs(alphas[j]-alphajold) < Tol {
 					alphas[j] = alphajold
 					continue
 				}
-- 
2.43.0


From 4299c40558ac638f65f5493d8721520a3e67622f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 092/156] fix: SVC takes 0 as the label of the negative class,
 as documented and as it predicts

---
 svm/svm.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/svm/svm.go b/svm/svm.go
index 69e1678..5451fa3 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -49,6 +49,12 @@ type Model struct {
 // %           SVMLight (http://svmlight.joachims.org/)
 func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func(X1, X2 []float64) float64, Tol float64, MaxPasses int, CacheSize uint, RandomState base.RandomState) *Model {
 	m, n := X.Dims()
+	Y = append([]float64{}, Y...)
+	for i, y := range Y {
+		if y == 0 { // the negative class, as in predictions
+			Y[i] = -1
+		}
+	}
 	alphas := make([]float64, m)
 	b := 0.
 	E := make([]float64, m)
-- 
2.43.0


From e1f47c7848a59e2ead6bf19e6f859057db1d64b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 093/156] fix: SVC does not panic when there is no support
 vector

---
 svm/svm.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 5451fa3..e27e7f6 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -160,13 +160,16 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		Y:              make([]float64, len(idx)),
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Y[ii] = Y[i]
-- 
2.43.0


From 857fb5cea1da0f5d37b87eb308247384d8b5fa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 094/156] fix: SVR does not panic when there is no support
 vector

---
 svm/svr.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/svm/svr.go b/svm/svr.go
index 780f841..a21b874 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -177,12 +177,15 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 	}
 
 	model := &Model{
-		X:              mat.NewDense(len(idx), n, nil),
+		X:              &mat.Dense{},
 		KernelFunction: KernelFunction,
 		B:              b,
 		Alphas:         make([]float64, len(idx)),
 		Support:        idx,
 	}
+	if len(idx) > 0 {
+		model.X = mat.NewDense(len(idx), n, nil)
+	}
 	for ii, i := range idx {
 		model.X.SetRow(ii, X.RawRowView(i))
 		model.Alphas[ii] = alphas[i]
-- 
2.43.0


From 67497a708d527823a09dad1e78b994cc40091e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 095/156] fix: SVC fitted on a single class predicts it instead
 of looping or panicking

---
 svm/svm.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/svm/svm.go b/svm/svm.go
index e27e7f6..9df5d38 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -78,6 +78,13 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 			randIntn = rand.New(RandomState).Intn
 		}
 	}
+	singleClass := true
+	for i := range Y {
+		singleClass = singleClass && Y[i] == Y[0]
+	}
+	if singleClass { // nothing to separate, no pair to optimize
+		b, passes = Y[0], MaxPasses
+	}
 	for passes < MaxPasses {
 		numChangedAlphas := 0
 		// Step 1 Find a Lagrange multiplier α 1 {that violates the Karush–Kuhn–Tucker (KKT) conditions for the optimization problem.
-- 
2.43.0


From 54bf4bd33e7b83b9a62a9a29b942708c91a1c956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:10 +0000
Subject: [PATCH 096/156] fix: SVC training moves the multipliers of identical
 samples instead of looping on them

---
 svm/svm.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svm/svm.go b/svm/svm.go
index 9df5d38..667cb0f 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -116,11 +116,14 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				Kij := K(i, j)
 				Kjj := K(j, j)
 				eta = 2*Kij - Kii - Kjj
-				if eta >= 0 {
-					continue
-				}
 				// % Compute and clip new value for alpha j using (12) and (15).
-				alphas[j] = alphas[j] - (Y[j]*(E[i]-E[j]))/eta
+				if eta < 0 {
+					alphas[j] = alphas[j] - (Y[j]*(E[i]-E[j]))/eta
+				} else if slope := Y[j] * (E[i] - E[j]); slope > 0 {
+					alphas[j] = H
+				} else if slope < 0 {
+					alphas[j] = L
+				}
 
 				// % Clip
 				alphas[j] = math.Max(L, math.Min(H, alphas[j]))
-- 
2.43.0


From 074c294798a7b4646db53c322aa876511e1c6ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:04 +0000
Subject: [PATCH 097/156] fix: SVC training puts b where the KKT conditions
 hold when the multipliers are optimal

---
 svm/svm.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svm/svm.go b/svm/svm.go
index 667cb0f..7a5f226 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -159,6 +159,18 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 		if numChangedAlphas == 0 {
 			passes++
+			// no multiplier moves: put b in the middle of what their KKT conditions allow
+			bmin, bmax := math.Inf(-1), math.Inf(1)
+			for i := 0; i < m; i++ {
+				bi := b - (f(i) - Y[i])
+				if (Y[i] > 0 && alphas[i] < C) || (Y[i] < 0 && alphas[i] > 0) {
+					bmin = math.Max(bmin, bi)
+				}
+				if (Y[i] > 0 && alphas[i] > 0) || (Y[i] < 0 && alphas[i] < C) {
+					bmax = math.Min(bmax, bi)
+				}
+			}
+			b = (bmin + bmax) / 2
 		} else {
 			passes = 0
 		}
-- 
2.43.0


From b237d92d0e57661ccf02a28cffbac3cd750958f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:04 +0000
Subject: [PATCH 098/156] fix: SVC training takes a multiplier at its bound up
 to rounding as being there

---
 svm/svm.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/svm/svm.go b/svm/svm.go
index 7a5f226..84d30ed 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -134,6 +134,14 @@ func svmTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				}
 				// % Determine value for alpha i using (16).
 				alphas[i] += Y[i] * Y[j] * (alphajold - alphas[j])
+				// a multiplier at a bound up to rounding is at the bound
+				for _, k := range [2]int{i, j} {
+					if alphas[k] < 1e-10*C {
+						alphas[k] = 0
+					} else if alphas[k] > C-1e-10*C {
+						alphas[k] = C
+					}
+				}
 				// % Compute b1 and b2 using (17) and (18) respectively.
 				b1 := b - E[i] - Y[i]*(alphas[i]-alphaiold)*Kii - Y[j]*(alphas[j]-alphajold)*Kij
 				b2 := b - E[j] - Y[i]*(alphas[i]-alphaiold)*Kij - Y[j]*(alphas[j]-alphajold)*Kjj
-- 
2.43.0


From 5d1c4a28fcded55a7f6e86f92a104e869ef85161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 099/156] fix: SVR training decreases its dual objective at
 every step, so it terminates, and puts b where the KKT conditions hold

---
 svm/svr.go | 85 ++++++++++++++++++++++++------------------------------
 1 file changed, 38 insertions(+), 47 deletions(-)

diff --git a/svm/svr.go b/svm/svr.go
index a21b874..0a0dbd2 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -60,21 +60,9 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 		return y
 	}
-	sgn := func(x float64) float64 {
-		if x >= 0 {
-			return 1
-		}
-		return -1
-	}
 	abs := math.Abs
 	max := math.Max
 	min := math.Min
-	step := func(x float64) float64 {
-		if x < 0 {
-			return 0
-		}
-		return 1
-	}
 	randIntn := rand.Intn
 	if RandomState != nil {
 		type Intner interface{ Intn(int) int }
@@ -101,55 +89,42 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 				if j >= i {
 					j++
 				}
-				for j2 := 0; j2 < m; j2++ {
-					j3 := (j + j2) % m
-					if j3 == i {
-						continue
-					}
-					E[j3] = f(j3) - Y[j3]
-					if (E[j3] < -Epsilon) || (E[j] > Epsilon) {
-						j = j3
-						break
-					}
-				}
-				//E[j] = f(j) - Y[j]
+				E[j] = f(j) - Y[j]
 				Kii := K(i, i)
 				Kij := K(i, j)
 				Kjj := K(j, j)
 				eta = 2*Kij - Kii - Kjj
 				alphaiold, alphajold := alphas[i], alphas[j]
 				s := alphaiold + alphajold
-				delta := -2 * Epsilon / eta
-				alphas[j] = alphajold - (E[i]-E[j])/eta
-				alphas[i] = s - alphas[j]
-
-				// if abs(alphas[j]) > abs(alphas[i]) {
-				// 	E[i], E[j] = E[j], E[i]
-				// 	Kij, Kjj = Kjj, Kii
-				// 	alphaiold, alphajold = alphajold, alphaiold
-				// 	alphas[i], alphas[j] = alphas[j], alphas[i]
-				// }
-
-				if alphas[i]*alphas[j] < 0 {
-					aai, aaj := abs(alphas[i]), abs(alphas[j])
-					if aai > delta || aaj > delta {
-						alphas[j] -= sgn(alphas[j]) * delta
-					} else {
-						alphas[j] = step(aaj-aai) * s
+				L, H = max(s-C, -C), min(C, C+s)
+				// the dual objective for alphas[j]=a, alphas[i]=s-a, less its present value
+				objective := func(a float64) float64 {
+					d := a - alphajold
+					return -eta/2*d*d + d*(E[j]-E[i]) + Epsilon*(abs(a)+abs(s-a)-abs(alphajold)-abs(alphaiold))
+				}
+				best := 0.
+				for _, a := range [7]float64{L, H, 0, s, // the kinks, then the minimum of each smooth piece
+					alphajold - (E[i]-E[j])/eta, alphajold - (E[i]-E[j]-2*Epsilon)/eta, alphajold - (E[i]-E[j]+2*Epsilon)/eta} {
+					a = min(H, max(L, a))
+					if v := objective(a); v < best {
+						best, alphas[j] = v, a
 					}
 				}
-				//% Compute L and H by (10) or (11).
-				L, H = max(s-C, -C), min(C, C+s)
-				alphas[j] = min(H, max(L, alphas[j]))
 				alphas[i] = s - alphas[j]
+				// a multiplier at a bound up to rounding is at the bound
+				for _, k := range [2]int{i, j} {
+					if C-abs(alphas[k]) < 1e-10*C {
+						alphas[k] = math.Copysign(C, alphas[k])
+					} else if abs(alphas[k]) < 1e-10*C {
+						alphas[k] = 0
+					}
+				}
 				Einew := E[i] + (alphas[i]-alphaiold)*Kii + (alphas[j]-alphajold)*Kij
 				Ejnew := E[j] + (alphas[i]-alphaiold)*Kij + (alphas[j]-alphajold)*Kjj
 				db := -(Einew + Ejnew) / 2
-				Einew, Ejnew = Einew+db, Ejnew+db
-				Edecrease := abs(E[i])+abs(E[j]) > abs(Einew)+abs(Ejnew)
 
 				// % Check if change in alpha is significant
-				if abs(alphas[j]-alphajold) < Tol || !Edecrease {
+				if abs(alphas[j]-alphajold) < Tol {
 					alphas[i], alphas[j] = alphaiold, alphajold
 					continue
 				}
@@ -165,6 +140,22 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 		if numChangedAlphas == 0 {
 			passes++
+			// no multiplier moves: put b in the middle of what their KKT conditions allow
+			bmin, bmax := math.Inf(-1), math.Inf(1)
+			for i := 0; i < m; i++ {
+				bi := b - (f(i) - Y[i])
+				if alphas[i] < 0 {
+					bmin = max(bmin, bi+Epsilon)
+				} else if alphas[i] < C {
+					bmin = max(bmin, bi-Epsilon)
+				}
+				if alphas[i] > 0 {
+					bmax = min(bmax, bi-Epsilon)
+				} else if alphas[i] > -C {
+					bmax = min(bmax, bi+Epsilon)
+				}
+			}
+			b = (bmin + bmax) / 2
 		} else {
 			passes = 0
 		}
-- 
2.43.0


From e2053e04b0c9b39aff59cc9bce96afb944f02787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:03 +0000
Subject: [PATCH 100/156] fix: SVR fitted on a single sample does not panic

---
 svm/svr.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svm/svr.go b/svm/svr.go
index 0a0dbd2..61c4c73 100644
--- a/svm/svr.go
+++ b/svm/svr.go
@@ -73,6 +73,9 @@ func svrTrain(X *mat.Dense, Y []float64, C, Epsilon float64, KernelFunction func
 		}
 	}
 
+	if m == 1 { // no pair to optimize
+		b, passes = Y[0], MaxPasses
+	}
 	for passes < MaxPasses {
 		numChangedAlphas := 0
 		// Step 1 Find a Lagrange multiplier α 1 {that violates the Karush–Kuhn–Tucker (KKT) conditions for the optimization problem.
-- 
2.43.0


From 791cd9b3fa0b53bb9d651c7819c60e966696f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:39:51 +0000
Subject: [PATCH 101/156] fix: outputs of SVC and SVR do not race for
 RandomState

---
 svm/svm.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/svm/svm.go b/svm/svm.go
index 84d30ed..428d4b2 100644
--- a/svm/svm.go
+++ b/svm/svm.go
@@ -331,7 +331,11 @@ func (m *BaseLibSVM) fit(X, Y *mat.Dense, svmTrain func(X *mat.Dense, Y []float6
 	}
 	m.Support = make([][]int, Noutputs)
 	m.SupportVectors = make([][][]float64, Noutputs)
-	base.Parallelize(-1, Noutputs, func(th, start, end int) {
+	threads := -1
+	if m.RandomState != nil { // draws of a single source are neither safe nor reproducible from several goroutines
+		threads = 1
+	}
+	base.Parallelize(threads, Noutputs, func(th, start, end int) {
 		y := make([]float64, NSamples)
 		for output := start; output < end; output++ {
 			mat.Col(y, output, Y)
-- 
2.43.0


From ad576f3f0f8f4b92680185d7ad6b79d1764b6067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:07 +0000
Subject: [PATCH 102/156] fix: the tanh activation is tanh, whose derivative
 backprop uses

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index bcdbc41..a0a23b3 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -88,7 +88,7 @@ var Activations32 = map[string]func(z blas32General){
 	"tanh": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M32.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index d50f893..bc64be9 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -88,7 +88,7 @@ var Activations64 = map[string]func(z blas64General){
 	"tanh": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			for col := 0; col < z.Cols; col++ {
-				z.Data[zpos+col] = M64.Tanh(-z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Tanh(z.Data[zpos+col])
 			}
 		}
 	},
-- 
2.43.0


From ae120368c1226fc4a60eeb15f65ccec515c54000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:07 +0000
Subject: [PATCH 103/156] fix: softmax of large scores is not NaN

---
 neural_network/basemlp32.go | 6 +++++-
 neural_network/basemlp64.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index a0a23b3..9f22a0a 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -104,9 +104,13 @@ var Activations32 = map[string]func(z blas32General){
 	"softmax": func(z blas32General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float32(0)
+			if z.Cols == 0 {
+				continue
+			}
+			zmax := z.Data[zpos+MaxIdx32(z.Data[zpos:zpos+z.Cols])]
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M32.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bc64be9..406b613 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -104,9 +104,13 @@ var Activations64 = map[string]func(z blas64General){
 	"softmax": func(z blas64General) {
 		for row, zpos := 0, 0; row < z.Rows; row, zpos = row+1, zpos+z.Stride {
 			sum := float64(0)
+			if z.Cols == 0 {
+				continue
+			}
+			zmax := z.Data[zpos+MaxIdx64(z.Data[zpos:zpos+z.Cols])]
 			for col := 0; col < z.Cols; col++ {
 
-				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col])
+				z.Data[zpos+col] = M64.Exp(z.Data[zpos+col] - zmax)
 				sum += z.Data[zpos+col]
 			}
 			for col := 0; col < z.Cols; col++ {
-- 
2.43.0


From fd8f0b1118ca75ff4bb19cae5c900d348f76e565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 104/156] fix: MLP backprop takes targets in a larger matrix

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 9f22a0a..3bbc304 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -378,9 +378,9 @@ func (mlp *BaseMultilayerPerceptron32) backprop(X, y blas32General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 406b613..6e5e6c3 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -378,9 +378,9 @@ func (mlp *BaseMultilayerPerceptron64) backprop(X, y blas64General, activations,
 	{
 		H := activations[len(activations)-1]
 		D := deltas[last]
-		for r, pos := 0, 0; r < y.Rows; r, pos = r+1, pos+y.Stride {
-			for o, posc := 0, pos; o < y.Cols; o, posc = o+1, posc+1 {
-				D.Data[posc] = H.Data[posc] - y.Data[posc]
+		for r := 0; r < y.Rows; r++ {
+			for o := 0; o < y.Cols; o++ {
+				D.Data[r*D.Stride+o] = H.Data[r*H.Stride+o] - y.Data[r*y.Stride+o]
 			}
 		}
 	}
-- 
2.43.0


From b243c8bf39a3b160b2327c6b61aece4d135bd0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:09 +0000
Subject: [PATCH 105/156] fix: MLP early stopping keeps its validation rows out
 of training and of the training loss

---
 neural_network/basemlp32.go | 4 ++--
 neural_network/basemlp64.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3bbc304..45a1342 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -789,7 +789,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general32FastSwap(X), Y: general32FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float32(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
@@ -813,7 +813,7 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float32(nSamples)
+			mlp.Loss = accumulatedLoss / float32(nSamples-testSize)
 
 			mlp.t += nSamples
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 6e5e6c3..330ee55 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -789,7 +789,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 		}
 		for it := 0; it < mlp.MaxIter; it++ {
 			if mlp.Shuffle {
-				rndShuffle(nSamples, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
+				rndShuffle(nSamples-testSize, indexedXY{idx: sort.IntSlice(idx), X: general64FastSwap(X), Y: general64FastSwap(y)}.Swap)
 			}
 			accumulatedLoss := float64(0.0)
 			for batch := [2]int{0, batchSize}; batch[0] < nSamples-testSize; batch = [2]int{batch[1], batch[1] + batchSize} {
@@ -813,7 +813,7 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 				mlp.optimizer.updateParams(packedGrads)
 			}
 			mlp.NIter++
-			mlp.Loss = accumulatedLoss / float64(nSamples)
+			mlp.Loss = accumulatedLoss / float64(nSamples-testSize)
 
 			mlp.t += nSamples
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
-- 
2.43.0


From fb04af3d808934730c858eeab44771e5bfd795e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:09 +0000
Subject: [PATCH 106/156] fix: training of an MLP starts without the counters
 of a previous one nor a best score of 0

---
 neural_network/basemlp32.go | 4 ++++
 neural_network/basemlp64.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 45a1342..fa4f461 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -484,6 +484,10 @@ func (mlp *BaseMultilayerPerceptron32) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M32.Inf(1)
+	mlp.BestValidationScore = M32.Inf(-1)
+	mlp.NoImprovementCount = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
 }
 
 func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool) {
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 330ee55..bdc5ae6 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -484,6 +484,10 @@ func (mlp *BaseMultilayerPerceptron64) initialize(yCols int, layerUnits []int, i
 	}
 
 	mlp.BestLoss = M64.Inf(1)
+	mlp.BestValidationScore = M64.Inf(-1)
+	mlp.NoImprovementCount = 0
+	mlp.LossCurve = nil
+	mlp.ValidationScores = nil
 }
 
 func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool) {
-- 
2.43.0


From abfd7a597410a99bdd027e249aedab9a488cf479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:10 +0000
Subject: [PATCH 107/156] fix: MLP R2 score takes targets in a larger matrix

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index fa4f461..5a063f8 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1115,7 +1115,7 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 		// yDen = YTrue-YTrueAvg
 
 		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+			t := yPred.Data[r*yPred.Stride+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index bdc5ae6..543416d 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1115,7 +1115,7 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 		// yDen = YTrue-YTrueAvg
 
 		for r, ypos := 0, 0; r < yTrue.Rows; r, ypos = r+1, ypos+yTrue.Stride {
-			t := yPred.Data[ypos+c] - yTrue.Data[ypos+c]
+			t := yPred.Data[r*yPred.Stride+c] - yTrue.Data[ypos+c]
 			yNum += t * t
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
-- 
2.43.0


From 39bb53715f20b03ad6431f951b2d696390e318eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:11 +0000
Subject: [PATCH 108/156] fix: MLP early stopping scores predictions as
 binarized as its targets

---
 neural_network/basemlp32.go | 7 +++++--
 neural_network/basemlp64.go | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 5a063f8..b2ba318 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -941,8 +941,11 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 }
 
 func (mlp *BaseMultilayerPerceptron32) score(X, Y blas32General) float32 {
-	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float32, len(Y.Data))}
-	mlp.predict(X, H)
+	H := blas32General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Cols, Data: make([]float32, Y.Rows*Y.Cols)}
+	mlp.predictProbas(X, H)
+	if mlp.LossFuncName != "square_loss" {
+		toLogits32(H)
+	}
 	if mlp.LossFuncName != "square_loss" {
 		// accuracy
 		return accuracyScore32(Y, H)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 543416d..691e8fe 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -941,8 +941,11 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 }
 
 func (mlp *BaseMultilayerPerceptron64) score(X, Y blas64General) float64 {
-	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Stride, Data: make([]float64, len(Y.Data))}
-	mlp.predict(X, H)
+	H := blas64General{Rows: Y.Rows, Cols: Y.Cols, Stride: Y.Cols, Data: make([]float64, Y.Rows*Y.Cols)}
+	mlp.predictProbas(X, H)
+	if mlp.LossFuncName != "square_loss" {
+		toLogits64(H)
+	}
 	if mlp.LossFuncName != "square_loss" {
 		// accuracy
 		return accuracyScore64(Y, H)
-- 
2.43.0


From 211cb9037727ec6fcf0db237731e99e8775e83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:41 +0000
Subject: [PATCH 109/156] fix: MLP looks only at the targets, not at what lies
 between their rows, to tell classes from values

---
 neural_network/basemlp32.go | 7 ++-----
 neural_network/basemlp64.go | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index b2ba318..2bdad53 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -511,11 +511,8 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
 		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
+		if !isBinarized32(y) {
+			isClassifier = false
 		}
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 691e8fe..341c251 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -511,11 +511,8 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
 		var isClassifier, isMulticlass = true, y.Cols > 1
-		for _, yval := range y.Data {
-			if yval != 0 && yval != 1 {
-				isClassifier = false
-				break
-			}
+		if !isBinarized64(y) {
+			isClassifier = false
 		}
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
-- 
2.43.0


From 70befe5dbee4b9903e28437cff575bd2888e37bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:42 +0000
Subject: [PATCH 110/156] fix: MLPRegressor stays a regressor when targets are
 only zeros and ones

---
 neural_network/basemlp32.go             | 3 ++-
 neural_network/basemlp64.go             | 3 ++-
 neural_network/multilayer_perceptron.go | 1 +
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 2bdad53..13b56ee 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -71,6 +71,7 @@ type BaseMultilayerPerceptron32 struct {
 	bestParameters      []float32
 	batchNorm           [][]float32
 	lb                  *LabelBinarizer32
+	regressor           bool // set by MLPRegressor: targets are values, even when all are 0 or 1
 	// beforeMinimize allow test to set weights
 	beforeMinimize func(optimize.Problem, []float64)
 }
@@ -511,7 +512,7 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
 		var isClassifier, isMulticlass = true, y.Cols > 1
-		if !isBinarized32(y) {
+		if mlp.regressor || !isBinarized32(y) {
 			isClassifier = false
 		}
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 341c251..50f7a5d 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -71,6 +71,7 @@ type BaseMultilayerPerceptron64 struct {
 	bestParameters      []float64
 	batchNorm           [][]float64
 	lb                  *LabelBinarizer64
+	regressor           bool // set by MLPRegressor: targets are values, even when all are 0 or 1
 	// beforeMinimize allow test to set weights
 	beforeMinimize func(optimize.Problem, []float64)
 }
@@ -511,7 +512,7 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	if !mlp.WarmStart && !incremental {
 		//# First time training the model
 		var isClassifier, isMulticlass = true, y.Cols > 1
-		if !isBinarized64(y) {
+		if mlp.regressor || !isBinarized64(y) {
 			isClassifier = false
 		}
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 436735f..f687fe8 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -45,6 +45,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	mlp.regressor = true
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
 }
-- 
2.43.0


From 65c34c51e9e514018505cdb776c3340b8b2b1f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:42 +0000
Subject: [PATCH 111/156] fix: MLP Fit and Predict take X and Y of different
 kinds

---
 neural_network/basemlp32.go | 16 ++++++++--------
 neural_network/basemlp64.go | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 13b56ee..4c8189e 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -584,10 +584,10 @@ func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 	var xb, yb blas32.General
-	if xg, ok := X.(RawMatrixer32); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	xg, xok := X.(RawMatrixer32)
+	yg, yok := Y.(RawMatrixer32)
+	if xok && yok && !mlp.Shuffle {
+		xb, yb = xg.RawMatrix(), yg.RawMatrix()
 	} else {
 		var tmp General32
 		tmp = General32(xb)
@@ -616,10 +616,10 @@ func (mlp *BaseMultilayerPerceptron32) GetNOutputs() int {
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron32) Predict(X mat.Matrix, Y Mutable) {
 	var xb, yb General32
-	if xg, ok := X.(RawMatrixer32); ok {
-		if yg, ok := Y.(RawMatrixer32); ok {
-			xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
-		}
+	xg, xok := X.(RawMatrixer32)
+	yg, yok := Y.(RawMatrixer32)
+	if xok && yok {
+		xb, yb = General32(xg.RawMatrix()), General32(yg.RawMatrix())
 	} else {
 		xb.Copy(X)
 		yb.Copy(Y)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 50f7a5d..7405003 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -584,10 +584,10 @@ func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 // Fit compute Coefs and Intercepts
 func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 	var xb, yb blas64.General
-	if xg, ok := X.(RawMatrixer64); ok && !mlp.Shuffle {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = xg.RawMatrix(), yg.RawMatrix()
-		}
+	xg, xok := X.(RawMatrixer64)
+	yg, yok := Y.(RawMatrixer64)
+	if xok && yok && !mlp.Shuffle {
+		xb, yb = xg.RawMatrix(), yg.RawMatrix()
 	} else {
 		var tmp General64
 		tmp = General64(xb)
@@ -616,10 +616,10 @@ func (mlp *BaseMultilayerPerceptron64) GetNOutputs() int {
 // Predict do forward pass and fills Y (Y must be Mutable)
 func (mlp *BaseMultilayerPerceptron64) Predict(X mat.Matrix, Y Mutable) {
 	var xb, yb General64
-	if xg, ok := X.(RawMatrixer64); ok {
-		if yg, ok := Y.(RawMatrixer64); ok {
-			xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
-		}
+	xg, xok := X.(RawMatrixer64)
+	yg, yok := Y.(RawMatrixer64)
+	if xok && yok {
+		xb, yb = General64(xg.RawMatrix()), General64(yg.RawMatrix())
 	} else {
 		xb.Copy(X)
 		yb.Copy(Y)
-- 
2.43.0


From e589c48fbd0e68271e0937ecc3cb3beaba7dcac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:43 +0000
Subject: [PATCH 112/156] fix: an MLP refitted with binarized targets forgets
 the labels of its previous fit

---
 neural_network/basemlp32.go | 1 +
 neural_network/basemlp64.go | 1 +
 2 files changed, 2 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 4c8189e..1e4e721 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -597,6 +597,7 @@ func (mlp *BaseMultilayerPerceptron32) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized32(yb) {
 		mlp.lb = NewLabelBinarizer32(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General32(xb), General32(yb))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 7405003..c1d4c6d 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -597,6 +597,7 @@ func (mlp *BaseMultilayerPerceptron64) Fit(X, Y Matrix) {
 		tmp.Copy(Y)
 		yb = tmp.RawMatrix()
 	}
+	mlp.lb = nil
 	if mlp.IsClassifier() && !isBinarized64(yb) {
 		mlp.lb = NewLabelBinarizer64(0, 1)
 		xbin, ybin := mlp.lb.FitTransform(General64(xb), General64(yb))
-- 
2.43.0


From c98dd3bbc5e91eecc59e191f7076efb51b9dd645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:43 +0000
Subject: [PATCH 113/156] fix: MLP writes predicted labels in the rows of Y,
 also in a larger matrix

---
 neural_network/basemlp32.go | 6 +++---
 neural_network/basemlp64.go | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 1e4e721..f93b45c 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -931,9 +931,9 @@ func (mlp *BaseMultilayerPerceptron32) predict(X, Y blas32General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General32(X), ybin)
-		var tmp = General32(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r := 0; r < Y.Rows; r++ {
+			copy(General32(Y).RawRowView(r), Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits32(Y)
 	}
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index c1d4c6d..ae42a75 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -931,9 +931,9 @@ func (mlp *BaseMultilayerPerceptron64) predict(X, Y blas64General) {
 	mlp.predictProbas(X, ybin.RawMatrix())
 	if mlp.lb != nil {
 		_, Yclasses := mlp.lb.InverseTransform(General64(X), ybin)
-		var tmp = General64(Y)
-		tmp.Copy(Yclasses)
-		Y = tmp.RawMatrix()
+		for r := 0; r < Y.Rows; r++ {
+			copy(General64(Y).RawRowView(r), Yclasses.RawRowView(r))
+		}
 	} else if mlp.IsClassifier() {
 		toLogits64(Y)
 	}
-- 
2.43.0


From 614eb08922a08b63e249a1b653b44ff9b3f51737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:44 +0000
Subject: [PATCH 114/156] fix: the MLP label binarizer marks every other class
 with NegLabel

---
 neural_network/basemlp32.go | 5 +++--
 neural_network/basemlp64.go | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index f93b45c..3d8991b 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1321,6 +1321,9 @@ func (m *LabelBinarizer32) Transform(X, Y mat.Matrix) (Xout, Yout General32) {
 	}
 
 	Yout = General32{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float32, NSamples*NOutputs)}
+	for i := range Yout.Data {
+		Yout.Data[i] = m.NegLabel
+	}
 	y, yo := ToDense32(Y).RawMatrix(), Yout.RawMatrix()
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
@@ -1332,8 +1335,6 @@ func (m *LabelBinarizer32) Transform(X, Y mat.Matrix) (Xout, Yout General32) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index ae42a75..0840616 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1321,6 +1321,9 @@ func (m *LabelBinarizer64) Transform(X, Y mat.Matrix) (Xout, Yout General64) {
 	}
 
 	Yout = General64{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float64, NSamples*NOutputs)}
+	for i := range Yout.Data {
+		Yout.Data[i] = m.NegLabel
+	}
 	y, yo := ToDense64(Y).RawMatrix(), Yout.RawMatrix()
 	baseCol := 0
 	for j := 0; j < y.Cols; j++ {
@@ -1332,8 +1335,6 @@ func (m *LabelBinarizer64) Transform(X, Y mat.Matrix) (Xout, Yout General64) {
 			val := y.Data[yi+j]
 			if classNo, ok := cmap[val]; ok {
 				yo.Data[yo0+baseCol+classNo] = m.PosLabel
-			} else {
-				yo.Data[yo0+baseCol+classNo] = m.NegLabel
 			}
 		}
 		baseCol += len(m.Classes[j])
-- 
2.43.0


From 9697a866f6260d71df01b64fc4af8c446ddf27c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:44 +0000
Subject: [PATCH 115/156] fix: the MLP label binarizer inverts every output

---
 neural_network/basemlp32.go | 2 +-
 neural_network/basemlp64.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3d8991b..00e02bb 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1356,7 +1356,7 @@ func (m *LabelBinarizer32) InverseTransform(X, Y General32) (Xout, Yout General3
 
 	Yout = General32{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float32, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx32(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 0840616..069835b 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1356,7 +1356,7 @@ func (m *LabelBinarizer64) InverseTransform(X, Y General64) (Xout, Yout General6
 
 	Yout = General64{Rows: NSamples, Cols: NOutputs, Stride: NOutputs, Data: make([]float64, NSamples*NOutputs)}
 	y, yo := Y.RawMatrix(), Yout.RawMatrix()
-	for j, baseCol := 0, 0; baseCol < y.Cols; j, baseCol = j+1, baseCol+len(m.Classes[j]) {
+	for j, baseCol := 0, 0; j < NOutputs; j++ {
 		for i, yi, yo0 := 0, 0, 0; i < y.Rows; i, yi, yo0 = i+1, yi+y.Stride, yo0+yo.Stride {
 			classNo := MaxIdx64(y.Data[yi+baseCol : yi+baseCol+len(m.Classes[j])])
 
-- 
2.43.0


From 681403dd839017c60a2ae67b7947505c0e67983b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:45 +0000
Subject: [PATCH 116/156] fix: batch normalization of a silent unit does not
 make NaN gradients

---
 neural_network/basemlp32.go | 4 +++-
 neural_network/basemlp64.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 00e02bb..ee81478 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -308,7 +308,9 @@ func (mlp *BaseMultilayerPerceptron32) batchNormalize(activations []blas32Genera
 func (mlp *BaseMultilayerPerceptron32) batchNormalizeDeltas(deltas blas32General, batchNorm []float32) {
 	for r, rpos := 0, 0; r < deltas.Rows; r, rpos = r+1, rpos+deltas.Stride {
 		for o := 0; o < deltas.Cols; o++ {
-			deltas.Data[rpos+o] /= batchNorm[o]
+			if batchNorm[o] > 0 { // activations were left alone otherwise
+				deltas.Data[rpos+o] /= batchNorm[o]
+			}
 		}
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 069835b..fee6fd7 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -308,7 +308,9 @@ func (mlp *BaseMultilayerPerceptron64) batchNormalize(activations []blas64Genera
 func (mlp *BaseMultilayerPerceptron64) batchNormalizeDeltas(deltas blas64General, batchNorm []float64) {
 	for r, rpos := 0, 0; r < deltas.Rows; r, rpos = r+1, rpos+deltas.Stride {
 		for o := 0; o < deltas.Cols; o++ {
-			deltas.Data[rpos+o] /= batchNorm[o]
+			if batchNorm[o] > 0 { // activations were left alone otherwise
+				deltas.Data[rpos+o] /= batchNorm[o]
+			}
 		}
 	}
 }
-- 
2.43.0


From d1334c0ad0a2d26d0395e1ec2c966609be1bfa28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:45 +0000
Subject: [PATCH 117/156] fix: MLP lbfgs keeps the best parameters seen and
 survives a failed line search

---
 neural_network/basemlp32.go | 19 +++++++++++++++++--
 neural_network/basemlp64.go | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index ee81478..521dead 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -694,6 +694,10 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		Concurrent: runtime.GOMAXPROCS(0),
 	}
 
+	best, bestLoss := make([]float64, len(mlp.packedParameters)), float64(M32.Inf(1))
+	for i, p := range mlp.packedParameters {
+		best[i] = float64(p)
+	}
 	var mu sync.Mutex // sync access to mlp.Loss on LossCurve
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
@@ -704,6 +708,10 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 			mu.Lock()
 			mlp.Loss = float32(loss)
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
+			if loss < bestLoss {
+				bestLoss = loss
+				copy(best, w)
+			}
 			if mlp.BestLoss > mlp.Loss {
 				mlp.BestLoss = mlp.Loss
 			}
@@ -728,10 +736,17 @@ func (mlp *BaseMultilayerPerceptron32) fitLbfgs(X, y blas32General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the best parameters, which are not always the last ones evaluated
+	for i, w := range best {
+		mlp.packedParameters[i] = float32(w)
+	}
+	mlp.Loss = float32(bestLoss)
+	if err != nil {
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index fee6fd7..a675fc0 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -694,6 +694,10 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		Concurrent: runtime.GOMAXPROCS(0),
 	}
 
+	best, bestLoss := make([]float64, len(mlp.packedParameters)), float64(M64.Inf(1))
+	for i, p := range mlp.packedParameters {
+		best[i] = float64(p)
+	}
 	var mu sync.Mutex // sync access to mlp.Loss on LossCurve
 	problem := optimize.Problem{
 		Func: func(w []float64) float64 {
@@ -704,6 +708,10 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 			mu.Lock()
 			mlp.Loss = float64(loss)
 			mlp.LossCurve = append(mlp.LossCurve, mlp.Loss)
+			if loss < bestLoss {
+				bestLoss = loss
+				copy(best, w)
+			}
 			if mlp.BestLoss > mlp.Loss {
 				mlp.BestLoss = mlp.Loss
 			}
@@ -728,10 +736,17 @@ func (mlp *BaseMultilayerPerceptron64) fitLbfgs(X, y blas64General, activations,
 		mlp.beforeMinimize(problem, w)
 	}
 	res, err := optimize.Minimize(problem, w, settings, method)
-	if err != nil {
+	if res == nil {
 		log.Panic(err)
 	}
-	if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
+	// keep the best parameters, which are not always the last ones evaluated
+	for i, w := range best {
+		mlp.packedParameters[i] = float64(w)
+	}
+	mlp.Loss = float64(bestLoss)
+	if err != nil {
+		log.Printf("lbfgs optimizer: %s\n", err)
+	} else if res.Status != optimize.GradientThreshold && res.Status != optimize.FunctionConvergence {
 		log.Printf("lbfgs optimizer: Maximum iterations (%d) reached and the optimization hasn't converged yet.\n", mlp.MaxIter)
 	}
 }
-- 
2.43.0


From 1a5994b9697d838e7fc8b3da7e7f389d1d7cfbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:18 +0000
Subject: [PATCH 118/156] fix: a fit of an MLP on few samples does not shrink
 the batches of the next one

---
 neural_network/basemlp32.go | 2 ++
 neural_network/basemlp64.go | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 521dead..3463e1c 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -520,6 +520,8 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
+	// BatchSize is a parameter: what this fit makes of it is not for the next one
+	defer func(batchSize int) { mlp.BatchSize = batchSize }(mlp.BatchSize)
 	//    # lbfgs does not support mini-batches
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
 		mlp.BatchSize = nSamples
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index a675fc0..5fda377 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -520,6 +520,8 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 		mlp.initialize(y.Cols, layerUnits, isClassifier, isMulticlass)
 	}
 
+	// BatchSize is a parameter: what this fit makes of it is not for the next one
+	defer func(batchSize int) { mlp.BatchSize = batchSize }(mlp.BatchSize)
 	//    # lbfgs does not support mini-batches
 	if strings.EqualFold(mlp.Solver, "lbfgs") {
 		mlp.BatchSize = nSamples
-- 
2.43.0


From 484df64a630534c6681c0ba98552f87e40c50122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 119/156] fix: a clone of an MLP shares no state with its
 original

---
 neural_network/basemlp32.go             | 26 +++++++++++++++++++++++++
 neural_network/basemlp64.go             | 26 +++++++++++++++++++++++++
 neural_network/multilayer_perceptron.go |  5 ++---
 3 files changed, 54 insertions(+), 3 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 3463e1c..133b07d 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -580,6 +580,32 @@ func (mlp *BaseMultilayerPerceptron32) fit(X, y blas32General, incremental bool)
 	mlp.packedGrads = packedGrads
 }
 
+// unshare gives mlp, a shallow copy, its own parameters
+func (mlp *BaseMultilayerPerceptron32) unshare() {
+	if sourceCloner, ok := mlp.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		mlp.RandomState = sourceCloner.SourceClone()
+	}
+	mlp.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	mlp.LossCurve = append([]float32(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float32(nil), mlp.ValidationScores...)
+	mlp.packedParameters = append([]float32(nil), mlp.packedParameters...)
+	intercepts, coefs, batchNorm := mlp.Intercepts, mlp.Coefs, mlp.batchNorm
+	mlp.Intercepts = make([][]float32, len(intercepts))
+	mlp.Coefs = make([]blas32General, len(coefs))
+	off := 0
+	for i, c := range coefs {
+		mlp.Intercepts[i] = mlp.packedParameters[off : off+len(intercepts[i])]
+		off += len(intercepts[i])
+		c.Data = mlp.packedParameters[off : off+len(c.Data)]
+		off += len(c.Data)
+		mlp.Coefs[i] = c
+	}
+	mlp.batchNorm = make([][]float32, len(batchNorm))
+	for i := range batchNorm {
+		mlp.batchNorm[i] = append([]float32(nil), batchNorm[i]...)
+	}
+}
+
 // IsClassifier return true if LossFuncName is not square_loss
 func (mlp *BaseMultilayerPerceptron32) IsClassifier() bool {
 	return mlp.LossFuncName != "square_loss"
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 5fda377..cfca921 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -580,6 +580,32 @@ func (mlp *BaseMultilayerPerceptron64) fit(X, y blas64General, incremental bool)
 	mlp.packedGrads = packedGrads
 }
 
+// unshare gives mlp, a shallow copy, its own parameters
+func (mlp *BaseMultilayerPerceptron64) unshare() {
+	if sourceCloner, ok := mlp.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
+		mlp.RandomState = sourceCloner.SourceClone()
+	}
+	mlp.HiddenLayerSizes = append([]int(nil), mlp.HiddenLayerSizes...)
+	mlp.LossCurve = append([]float64(nil), mlp.LossCurve...)
+	mlp.ValidationScores = append([]float64(nil), mlp.ValidationScores...)
+	mlp.packedParameters = append([]float64(nil), mlp.packedParameters...)
+	intercepts, coefs, batchNorm := mlp.Intercepts, mlp.Coefs, mlp.batchNorm
+	mlp.Intercepts = make([][]float64, len(intercepts))
+	mlp.Coefs = make([]blas64General, len(coefs))
+	off := 0
+	for i, c := range coefs {
+		mlp.Intercepts[i] = mlp.packedParameters[off : off+len(intercepts[i])]
+		off += len(intercepts[i])
+		c.Data = mlp.packedParameters[off : off+len(c.Data)]
+		off += len(c.Data)
+		mlp.Coefs[i] = c
+	}
+	mlp.batchNorm = make([][]float64, len(batchNorm))
+	for i := range batchNorm {
+		mlp.batchNorm[i] = append([]float64(nil), batchNorm[i]...)
+	}
+}
+
 // IsClassifier return true if LossFuncName is not square_loss
 func (mlp *BaseMultilayerPerceptron64) IsClassifier() bool {
 	return mlp.LossFuncName != "square_loss"
diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index f687fe8..18ffa8a 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -36,9 +36,7 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 		return nil
 	}
 	clone := *mlp
-	if sourceCloner, ok := clone.RandomState.(base.SourceCloner); ok && sourceCloner != base.SourceCloner(nil) {
-		clone.RandomState = sourceCloner.SourceClone()
-	}
+	clone.unshare()
 	return &clone
 }
 
@@ -93,6 +91,7 @@ func NewMLPClassifier(hiddenLayerSizes []int, activation string, solver string,
 // PredicterClone returns an (possibly unfitted) copy of predicter
 func (mlp *MLPClassifier) PredicterClone() base.Predicter {
 	clone := *mlp
+	clone.unshare()
 	return &clone
 }
 
-- 
2.43.0


From 39dcbc034802c0198da3726f4603aba063de5120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:19 +0000
Subject: [PATCH 120/156] fix: MLPRegressor.Fit does not shuffle the data of
 its caller

---
 neural_network/multilayer_perceptron.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neural_network/multilayer_perceptron.go b/neural_network/multilayer_perceptron.go
index 18ffa8a..313c904 100644
--- a/neural_network/multilayer_perceptron.go
+++ b/neural_network/multilayer_perceptron.go
@@ -43,6 +43,9 @@ func (mlp *MLPRegressor) PredicterClone() base.Predicter {
 // Fit ...
 func (mlp *MLPRegressor) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	X, Y := base.ToDense(Xmatrix), base.ToDense(Ymatrix)
+	if mlp.Shuffle {
+		X, Y = mat.DenseCopyOf(X), mat.DenseCopyOf(Y)
+	}
 	mlp.regressor = true
 	mlp.fit(X.RawMatrix(), Y.RawMatrix(), false)
 	return mlp
-- 
2.43.0


From 1ae2bbb4768348c7edb283ff5caca9c821eed76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 121/156] fix: General32.Copy and General64.Copy take matrices
 with any stride

---
 neural_network/general.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 849345d..4df572c 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -258,9 +258,7 @@ func (mat *General32) Copy(a Matrix) {
 	} else {
 		*mat = General32{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(*General32); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer32); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer32); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
@@ -284,9 +282,7 @@ func (mat *General64) Copy(a Matrix) {
 	} else {
 		*mat = General64{Rows: rows, Cols: cols, Stride: cols, Data: mat.Data[:size]}
 	}
-	if g, ok := a.(General64); ok {
-		copy(mat.Data, g.Data)
-	} else if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
+	if g, ok := a.(RawMatrixer64); ok && mat.Stride == g.RawMatrix().Stride {
 		copy(mat.Data, g.RawMatrix().Data)
 	} else if rrv, ok := a.(RawRowViewer64); ok {
 		for r, rowpos := 0, 0; r < rows; r, rowpos = r+1, rowpos+mat.Stride {
-- 
2.43.0


From be9d622568b1662a7f44fbe02a0a7770a4d2e59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 122/156] fix: SumRows sums

---
 neural_network/general.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index 4df572c..d4d66cb 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -299,18 +299,24 @@ func (mat *General64) Copy(a Matrix) {
 
 // SumRows sums rows of a into mat
 func (mat *General32) SumRows(a General32) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
 
 // SumRows sums rows of a into mat
 func (mat *General64) SumRows(a General64) {
-	for i, mpos, apos := 0, 0, 0; i < a.Rows; i, mpos, apos = i+1, mpos+mat.Stride, apos+a.Stride {
+	for c := 0; c < a.Cols; c++ {
+		mat.Data[c] = 0
+	}
+	for i, apos := 0, 0; i < a.Rows; i, apos = i+1, apos+a.Stride {
 		for c := 0; c < a.Cols; c++ {
-			mat.Data[c] = a.Data[apos+c]
+			mat.Data[c] += a.Data[apos+c]
 		}
 	}
 }
-- 
2.43.0


From 8c8c91b77f7922f9fd828db1f8870ee931a520c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 123/156] fix: dot32 gives both its vectors their length

---
 neural_network/mathCompat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neural_network/mathCompat.go b/neural_network/mathCompat.go
index 8fa6d81..1a95b79 100644
--- a/neural_network/mathCompat.go
+++ b/neural_network/mathCompat.go
@@ -57,7 +57,7 @@ type blas64Vector = blas64.Vector
 type blasXXVector = blas32.Vector
 
 func dot32(n, xinc, yinc int, x, y []float32) float32 {
-	return blas32.Dot(blas32.Vector{N: n, Inc: xinc, Data: x}, blas32.Vector{Inc: yinc, Data: y})
+	return blas32.Dot(blas32.Vector{N: n, Inc: xinc, Data: x}, blas32.Vector{N: n, Inc: yinc, Data: y})
 }
 func dot64(n, xinc, yinc int, x, y []float64) float64 {
 	return blas64.Dot(blas64.Vector{N: n, Inc: xinc, Data: x}, blas64.Vector{N: n, Inc: yinc, Data: y})
-- 
2.43.0


From c2daa90f5d6c2b24d87243d69bbe777cda2ca8b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:10 +0000
Subject: [PATCH 124/156] fix: MLP R2 score of constant targets does not panic,
 as it did in early stopping with few samples

---
 neural_network/basemlp32.go | 8 +++++---
 neural_network/basemlp64.go | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index 133b07d..d6c7070 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -1167,10 +1167,12 @@ func r2Score32(yTrue, yPred blas32General) float32 {
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
 		}
-		if yDen == 0 {
-			panic("yDen=0")
+		r2 := float32(1)
+		if yDen != 0 {
+			r2 = 1 - yNum/yDen
+		} else if yNum != 0 { // nothing to explain, as for a single row
+			r2 = 0
 		}
-		r2 := 1 - yNum/yDen
 		r2acc += r2
 	}
 	return r2acc / float32(yTrue.Cols)
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index cfca921..1cf1580 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -1167,10 +1167,12 @@ func r2Score64(yTrue, yPred blas64General) float64 {
 			t = yTrue.Data[ypos+c] - yTrueAvg
 			yDen += t * t
 		}
-		if yDen == 0 {
-			panic("yDen=0")
+		r2 := float64(1)
+		if yDen != 0 {
+			r2 = 1 - yNum/yDen
+		} else if yNum != 0 { // nothing to explain, as for a single row
+			r2 = 0
 		}
-		r2 := 1 - yNum/yDen
 		r2acc += r2
 	}
 	return r2acc / float64(yTrue.Cols)
-- 
2.43.0


From acc13db2b4c0d1be56e1f1dc18da2b42a864d4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:57 +0000
Subject: [PATCH 125/156] fix: RowSlice slices the rows of a view

---
 neural_network/general.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/neural_network/general.go b/neural_network/general.go
index d4d66cb..a7015f0 100644
--- a/neural_network/general.go
+++ b/neural_network/general.go
@@ -240,13 +240,27 @@ func (mat General64) Slice(i, j, k, l int) Matrix {
 // RowSlice provides view on submatrix(startRow,endRow) as General32
 // returned matrix can be casted to *General32
 func (mat General32) RowSlice(i, j int) General32 {
-	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	lo, hi := i*mat.Stride, j*mat.Stride
+	if hi > len(mat.Data) { // the last row of a view ends with its last column
+		hi = len(mat.Data)
+	}
+	if lo > hi {
+		lo = hi
+	}
+	return General32{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[lo:hi]}
 }
 
 // RowSlice provides view on submatrix(startRow,endRow) as General64
 // returned matrix can be casted to *General64
 func (mat General64) RowSlice(i, j int) General64 {
-	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[i*mat.Stride : j*mat.Stride]}
+	lo, hi := i*mat.Stride, j*mat.Stride
+	if hi > len(mat.Data) { // the last row of a view ends with its last column
+		hi = len(mat.Data)
+	}
+	if lo > hi {
+		lo = hi
+	}
+	return General64{Rows: j - i, Cols: mat.Cols, Stride: mat.Stride, Data: mat.Data[lo:hi]}
 }
 
 // Copy fills receiver with input matrix
-- 
2.43.0


From f47de046f7930b93a1cdc1da8b50cf4b4d74165f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:55:58 +0000
Subject: [PATCH 126/156] fix: MLP early stopping clips its batches to the rows
 left for training

---
 neural_network/basemlp32.go | 7 +++++++
 neural_network/basemlp64.go | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/neural_network/basemlp32.go b/neural_network/basemlp32.go
index d6c7070..8617f98 100644
--- a/neural_network/basemlp32.go
+++ b/neural_network/basemlp32.go
@@ -809,6 +809,13 @@ func (mlp *BaseMultilayerPerceptron32) fitStochastic(X, y blas32General, activat
 	testSize := 0
 	if earlyStopping {
 		testSize = int(M32.Ceil(mlp.ValidationFraction * float32(nSamples)))
+		// no batch is larger than the rows left for training
+		if mlp.BatchSize > nSamples-testSize {
+			mlp.BatchSize = nSamples - testSize
+			for i := range deltas {
+				activations[i+1].Rows, deltas[i].Rows = mlp.BatchSize, mlp.BatchSize
+			}
+		}
 		XVal = blas32General(General32(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas32General(General32(y).RowSlice(nSamples-testSize, nSamples))
 		mlp.bestParameters = make([]float32, len(mlp.packedParameters))
diff --git a/neural_network/basemlp64.go b/neural_network/basemlp64.go
index 1cf1580..1b71259 100644
--- a/neural_network/basemlp64.go
+++ b/neural_network/basemlp64.go
@@ -809,6 +809,13 @@ func (mlp *BaseMultilayerPerceptron64) fitStochastic(X, y blas64General, activat
 	testSize := 0
 	if earlyStopping {
 		testSize = int(M64.Ceil(mlp.ValidationFraction * float64(nSamples)))
+		// no batch is larger than the rows left for training
+		if mlp.BatchSize > nSamples-testSize {
+			mlp.BatchSize = nSamples - testSize
+			for i := range deltas {
+				activations[i+1].Rows, deltas[i].Rows = mlp.BatchSize, mlp.BatchSize
+			}
+		}
 		XVal = blas64General(General64(X).RowSlice(nSamples-testSize, nSamples))
 		yVal = blas64General(General64(y).RowSlice(nSamples-testSize, nSamples))
 		mlp.bestParameters = make([]float64, len(mlp.packedParameters))
-- 
2.43.0


From e1d219fb89717111290aff00eacf19080408f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 127/156] fix: BayesianRidge counts its effective parameters

---
 linear_model/bayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 87522b6..bbd05be 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -142,7 +142,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
 		{
-			var left, right []float
+			left, right := make([]float, len(eigenVals)), make([]float, len(eigenVals))
 			copy(left, eigenVals)
 
 			floats.Scale(alpha, left)
-- 
2.43.0


From ef11ac807a1afe408e06165fd063ca8a7b94a757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 128/156] fix: BayesianRidge updates alpha with the sum of
 squared errors, not its square root

---
 linear_model/bayes.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index bbd05be..a4ba1b6 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -138,6 +138,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		diff.Sub(diff, Y)
 
 		rmse := mat.Norm(diff, 2)
+		rmse *= rmse // the sum of squares, Norm is its root
 
 		// gamma = (np.sum((alpha * eigenVals) /(lambda + alpha*eigenVals)))
 		gamma := 0.
-- 
2.43.0


From e170089e9b3a34b926c3fbd787e7155738044fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 129/156] fix: BayesianRidge Alpha and Sigma are those of the
 coefficients returned

---
 linear_model/bayes.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index a4ba1b6..7e64fac 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -192,10 +192,9 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	}
 	//sigma = np.dot(Vh.T,Vh / (eigenVals + lambda / alpha)[:, np.newaxis])
 	//regr.sigma = (1. / alpha) * sigma
-	sigma = calcsigma(VhT, eigenVals, lambda, alpha)
-	regr.Alpha = alpha
+	sigma = calcsigma(VhT, eigenVals, regr.Lambda, regr.Alpha)
 	regr.Sigma = mat.NewDense(nFeatures, nFeatures, nil)
-	regr.Sigma.Scale(1./alpha, sigma)
+	regr.Sigma.Scale(1./regr.Alpha, sigma)
 
 	//set_intercept
 	regr.Coef = coef
-- 
2.43.0


From b2c24ccb267f719bd529ae9fb63c05458e234ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:00 +0000
Subject: [PATCH 130/156] fix: BayesianRidge.Predict2 returns the standard
 deviation, from the whole of Sigma

---
 linear_model/bayes.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 7e64fac..53f6335 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -253,12 +253,14 @@ func (regr *BayesianRidge) Predict2(X, Y, yStd *mat.Dense) {
 		v := 0.
 		for j := 0; j < nFeatures; j++ {
 			x := Xn.At(i, j)
-			v += x * regr.Sigma.At(0, j) * x
+			for k := 0; k < nFeatures; k++ {
+				v += x * regr.Sigma.At(j, k) * Xn.At(i, k)
+			}
 		}
 		return v
 	}, sigmasSquaredData)
 	*yStd = *mat.NewDense(nSamples, 1, nil)
 	yStd.Apply(func(i int, j int, sigmasSquaredData float64) float64 {
-		return sigmasSquaredData + 1./regr.Alpha
+		return math.Sqrt(sigmasSquaredData + 1./regr.Alpha)
 	}, sigmasSquaredData)
 }
-- 
2.43.0


From be8743c93bdecd14a0b1188e92cda5c1ca0af8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:31:00 +0000
Subject: [PATCH 131/156] fix: BayesianRidge takes constant targets

---
 linear_model/bayes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linear_model/bayes.go b/linear_model/bayes.go
index 53f6335..2401937 100644
--- a/linear_model/bayes.go
+++ b/linear_model/bayes.go
@@ -57,7 +57,7 @@ func (regr *BayesianRidge) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		alpha += y * y
 		return y
 	}, Y)
-	alpha = float64(nSamples*nOutputs) / alpha
+	alpha = 1. / (alpha/float64(nSamples*nOutputs) + 2.220446049250313e-16) // finite, also with constant targets
 
 	lambda := 1.
 	verbose := regr.Verbose
-- 
2.43.0


From 850d87468a57be4d4a00faac8f150ca08e8183b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 132/156] fix: WhiteKernel.CloneWithTheta gives the clone the
 noise level of theta

---
 gaussian_process/kernels/kernels.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 9302e93..2887f20 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -436,7 +436,7 @@ func (k WhiteKernel) Bounds() mat.Matrix {
 // CloneWithTheta ...
 func (k WhiteKernel) CloneWithTheta(theta mat.Matrix) Kernel {
 	clone := k
-	matCopy(k.Theta().(mat.Mutable), theta)
+	matCopy(clone.Theta().(mat.Mutable), theta)
 	return &clone
 }
 
-- 
2.43.0


From bbf511a0a60e564f6fdc790bc1a6acc035936c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 133/156] fix: CloneWithTheta(nil) of a kernel is a plain clone

---
 gaussian_process/kernels/matutil.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gaussian_process/kernels/matutil.go b/gaussian_process/kernels/matutil.go
index 6147008..9639747 100644
--- a/gaussian_process/kernels/matutil.go
+++ b/gaussian_process/kernels/matutil.go
@@ -48,7 +48,11 @@ func (m matFromFunc) T() mat.Matrix {
 	return transposed{Matrix: m}
 }
 
+// matCopy copies src into dst. a nil src leaves dst alone
 func matCopy(dst mat.Mutable, src mat.Matrix) {
+	if src == mat.Matrix(nil) {
+		return
+	}
 	r, c := src.Dims()
 	for i := 0; i < r; i++ {
 		for j := 0; j < c; j++ {
-- 
2.43.0


From 3434930de3e2cc8c72ac970172eac0df6f9c7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 134/156] fix: composite kernels are cloned when an operand has
 no free hyperparameter

---
 gaussian_process/kernels/kernels.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 2887f20..e501388 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -2,7 +2,6 @@ package kernels
 
 import (
 	"fmt"
-	"github.com/pa-m/sklearn/base"
 	"math"
 
 	"gonum.org/v1/gonum/floats"
@@ -101,6 +100,11 @@ func (k NormalizedKernelMixin) Diag(X mat.Matrix) (K *mat.DiagDense) {
 	return
 }
 
+// thetaSlice returns the n (maybe 0) elements of theta starting at start
+func thetaSlice(theta mat.Matrix, start, n int) mat.Matrix {
+	return matFromFunc{r: n, c: 1, at: func(i, j int) float64 { return theta.At(start+i, j) }}
+}
+
 // KernelOperator is a kernel based on two others
 type KernelOperator struct {
 	K1, K2 Kernel
@@ -126,12 +130,11 @@ func (k KernelOperator) CloneWithTheta(theta mat.Matrix) Kernel {
 	if theta == mat.Matrix(nil) {
 		return KernelOperator{K1: k.K1.CloneWithTheta(nil), K2: k.K2.CloneWithTheta(nil)}
 	}
-	var td = base.ToDense(theta)
 	n1, _ := k.K1.Theta().Dims()
 	n2, _ := k.K2.Theta().Dims()
 	return KernelOperator{
-		K1: k.K1.CloneWithTheta(td.Slice(0, n1, 0, 1)),
-		K2: k.K2.CloneWithTheta(td.Slice(n1, n1+n2, 0, 1)),
+		K1: k.K1.CloneWithTheta(thetaSlice(theta, 0, n1)),
+		K2: k.K2.CloneWithTheta(thetaSlice(theta, n1, n2)),
 	}
 }
 
-- 
2.43.0


From fe207e2e16531ca86f4f981d450f0e6e458ba9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 135/156] fix: an Exponentiation kernel has hyperparameters and
 keeps its exponent when cloned

---
 gaussian_process/kernels/kernels.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index e501388..a2b96e2 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -284,7 +284,7 @@ type Exponentiation struct {
 
 // hyperparameters ...
 func (k Exponentiation) hyperparameters() hyperparameters {
-	hps := k.hyperparameters()
+	hps := k.Kernel.hyperparameters()
 	params := make(hyperparameters, len(hps))
 	for i, p := range hps {
 		p.Name = "kernel_" + p.Name
@@ -293,6 +293,11 @@ func (k Exponentiation) hyperparameters() hyperparameters {
 	return params
 }
 
+// CloneWithTheta ...
+func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
+	return &Exponentiation{Kernel: k.Kernel.CloneWithTheta(theta), Exponent: k.Exponent}
+}
+
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-- 
2.43.0


From 697fc926f8d02787074076ce5acbb96b874e2fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 136/156] fix: the gradient of an Exponentiation kernel is that
 of the power of the kernel

---
 gaussian_process/kernels/kernels.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index a2b96e2..6f80a50 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -301,16 +301,17 @@ func (k Exponentiation) CloneWithTheta(theta mat.Matrix) Kernel {
 // Eval return the kernel k(X, Y) and optionally its gradient
 func (k *Exponentiation) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K, Kg := k.Kernel.Eval(X, Y, evalGradient)
-	K.Apply(func(_, _ int, v float64) float64 {
-		return math.Pow(v, k.Exponent)
-	}, K)
-	if evalGradient {
+	if Kg != nil {
 		Kdata := K.RawMatrix().Data
 		Kgdata := Kg.Data().([]float64)
+		nparams := Kg.Shape()[2]
 		for i := range Kgdata {
-			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i], k.Exponent-1)
+			Kgdata[i] *= k.Exponent * math.Pow(Kdata[i/nparams], k.Exponent-1)
 		}
 	}
+	K.Apply(func(_, _ int, v float64) float64 {
+		return math.Pow(v, k.Exponent)
+	}, K)
 	return K, Kg
 }
 
-- 
2.43.0


From 5f7a9eb3e06ce1cede8eb0340700de0744f45352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 137/156] fix: Sum and Product evaluate k(X, Y) when a gradient
 is asked but not defined

---
 gaussian_process/kernels/kernels.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 6f80a50..6e7ecb9 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -175,7 +175,7 @@ func (k *Sum) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense) {
 	K2, K2g := k.K2.Eval(X, Y, evalGradient)
 	K1.Add(K1, K2)
 	var Kg *t.Dense
-	if evalGradient {
+	if K1g != nil && K2g != nil {
 		s1, s2 := K1g.Shape(), K2g.Shape()
 		s := t.Shape{s1[0], s1[1], s1[2] + s2[2]}
 		Kg = t.NewDense(K1g.Dtype(), s)
@@ -231,7 +231,7 @@ func (k *Product) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.Dense
 	K := &mat.Dense{}
 	K.MulElem(K1, K2)
 	var Kg *t.Dense
-	if evalGradient {
+	if K1g != nil && K2g != nil {
 		s1, s2 := K1g.Shape(), K2g.Shape()
 		s := t.Shape{s1[0], s1[1], s1[2] + s2[2]}
 		Kg = t.NewDense(K1g.Dtype(), s)
-- 
2.43.0


From 6aa999c6d4ff5f6dc3b78281b89e6ab2c703fdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 138/156] fix: the gradient of a WhiteKernel counts equal
 samples as the kernel does

---
 gaussian_process/kernels/kernels.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 6e7ecb9..3cf0ee1 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -476,13 +476,7 @@ func (k *WhiteKernel) Eval(X, Y mat.Matrix, evalGradient bool) (*mat.Dense, *t.D
 			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0})
 		} else {
 			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				if i%(nx+1) == 0 {
-					Kgdata[i] = k.NoiseLevel
-				}
-			}
+			copy(Kg.Data().([]float64), Kr.Data)
 		}
 	}
 	return K, Kg
-- 
2.43.0


From cf1f53417a14f5cb1e3c0635ef26dfbc60e364ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 139/156] fix: the gradient of an anisotropic RBF kernel has a
 component for each free length scale

---
 gaussian_process/kernels/kernels.go | 43 +++++++++++++++--------------
 1 file changed, 22 insertions(+), 21 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index 3cf0ee1..b1f14a3 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -585,28 +585,29 @@ func (k *RBF) Eval(X, Y mat.Matrix, evalGradient bool) (K *mat.Dense, Kg *t.Dens
 		}
 	}
 	if evalGradient && Y == X {
-		if k.hyperparameters()[0].IsFixed() {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 0}, t.WithBacking(nil))
-		} else {
-			Kg = t.NewDense(t.Float64, t.Shape{nx, nx, 1}, t.WithBacking(make([]float64, nx*nx)))
-			it := Kg.Iterator()
-			Kgdata := Kg.Data().([]float64)
-			Kdata := K.RawMatrix().Data
-			xr, xc, xd := mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil), mat.NewVecDense(nfeat, nil)
-			for i, e := it.Start(); e == nil; i, e = it.Next() {
-				r, c := i/nx, i%nx
-				mat.Row(xr.RawVector().Data, r, X)
-				mat.Row(xc.RawVector().Data, c, X)
-				xd.SubVec(xr, xc)
-				switch len(k.LengthScale) {
-				case 1:
-					xd.ScaleVec(1/k.LengthScale[0], xd)
-				case nfeat:
-					xd.DivElemVec(xd, mat.NewVecDense(nfeat, k.LengthScale))
-				default:
-					panic("dim error")
+		// one component by free length scale, derivatives are with respect to its log
+		var free []int
+		for i, param := range k.hyperparameters() {
+			if !param.IsFixed() {
+				free = append(free, i)
+			}
+		}
+		Kg = t.NewDense(t.Float64, t.Shape{nx, nx, len(free)})
+		Kgdata := Kg.Data().([]float64)
+		for r := 0; r < nx; r++ {
+			mat.Row(Xrow, r, X)
+			for c := 0; c < nx; c++ {
+				mat.Row(Yrow, c, X)
+				for ifree, i := range free {
+					var d2 float64
+					for feat := 0; feat < nfeat; feat++ {
+						if len(k.LengthScale) == 1 || feat == i {
+							d := scale(Xrow, feat) - scale(Yrow, feat)
+							d2 += d * d
+						}
+					}
+					Kgdata[(r*nx+c)*len(free)+ifree] = Kr.Data[r*Kr.Stride+c] * d2
 				}
-				Kgdata[i] = Kdata[i] * mat.Dot(xd, xd)
 			}
 		}
 	}
-- 
2.43.0


From 69615e01422b28dabcbc355515af4345a3cf14d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:56 +0000
Subject: [PATCH 140/156] fix: a length scale of a RBF kernel with missing
 bounds is fixed

---
 gaussian_process/kernels/kernels.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gaussian_process/kernels/kernels.go b/gaussian_process/kernels/kernels.go
index b1f14a3..90b9434 100644
--- a/gaussian_process/kernels/kernels.go
+++ b/gaussian_process/kernels/kernels.go
@@ -519,8 +519,10 @@ type RBF struct {
 func (k *RBF) hyperparameters() hyperparameters {
 	params := make(hyperparameters, len(k.LengthScale))
 	for i := range k.LengthScale {
-		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i], PBounds: &k.LengthScaleBounds[i]}
-
+		params[i] = hyperparameter{Name: fmt.Sprintf("length_scale_%d", i), PValue: &k.LengthScale[i]}
+		if i < len(k.LengthScaleBounds) {
+			params[i].PBounds = &k.LengthScaleBounds[i]
+		}
 	}
 	return params
 }
-- 
2.43.0


From 0b7667b4a3cf29aeacb843327441e857d2474f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:29 +0000
Subject: [PATCH 141/156] fix: Alpha of a gaussian process has an entry for
 each sample, not for each output

---
 gaussian_process/gpr.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index d540063..7e637ca 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -74,10 +74,9 @@ func (m *Regressor) GetNOutputs() int {
 
 // Fit Gaussian process regression model
 func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
-	_, ry := Y.Dims()
 	m.Xtrain = mat.DenseCopyOf(X)
 	m.Ytrain = mat.DenseCopyOf(Y)
-	if len(m.Alpha) != 1 && len(m.Alpha) != ry {
+	if ry, _ := Y.Dims(); len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
 	return m
-- 
2.43.0


From ccc4f6351d42fdbc3de616f7476e615eecc319d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:29 +0000
Subject: [PATCH 142/156] fix: Score of a gaussian process does not refit on
 the scored samples

---
 gaussian_process/gpr.go | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 7e637ca..9c15969 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -130,7 +130,6 @@ func (m *Regressor) Predict(X mat.Matrix, Y mat.Mutable) *mat.Dense {
 
 // Score returns R2 score
 func (m *Regressor) Score(X, Y mat.Matrix) float64 {
-	m.Fit(X, Y)
 	pred := m.Predict(X, nil)
 	return metrics.R2Score(Y, pred, nil, "").At(0, 0)
 }
-- 
2.43.0


From 3a7ae8768cb5a828cbb1339a7e1887790ac91446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:29 +0000
Subject: [PATCH 143/156] fix: the clone of a gaussian process shares nothing
 with it

---
 gaussian_process/gpr.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 9c15969..e14b8e7 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -59,8 +59,13 @@ func (m *Regressor) PredicterClone() base.Predicter {
 		clone.KernelOpt = m.KernelOpt.CloneWithTheta(m.KernelOpt.Theta())
 	}
 	if m.L != nil {
+		clone.L = &mat.Cholesky{}
 		clone.L.Clone(m.L)
 	}
+	clone.Alpha = append([]float64(nil), m.Alpha...)
+	if m.YtrainMean != nil {
+		clone.YtrainMean = mat.DenseCopyOf(m.YtrainMean)
+	}
 	return &clone
 }
 
-- 
2.43.0


From 0082571bbb977c7f2c125b58f42e47c8d1307005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:29 +0000
Subject: [PATCH 144/156] fix: the prior mean of a gaussian process is zero
 whatever Y holds

---
 gaussian_process/gpr.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index e14b8e7..961fa90 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -92,11 +92,7 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 	NSamples, _ := X.Dims()
 	var Ymean, Ycov *mat.Dense
 	var Ystd *mat.DiagDense
-	if _, ok := Y.(*mat.Dense); ok {
-		Ymean = Y.(*mat.Dense)
-	} else {
-		Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
-	}
+	Ymean = mat.NewDense(NSamples, m.GetNOutputs(), nil)
 	if m.Xtrain == nil {
 		// # Unfitted;predict based on GP prior
 		// y_mean = np.zeros(X.shape[0])
-- 
2.43.0


From ad742e3fbb60f2c6345021ba987083b805b95777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:35:29 +0000
Subject: [PATCH 145/156] fix: a fitted gaussian process predicts its posterior
 mean, standard deviation and covariance

---
 gaussian_process/gpr.go | 86 ++++++++++++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 26 deletions(-)

diff --git a/gaussian_process/gpr.go b/gaussian_process/gpr.go
index 961fa90..9752cf9 100644
--- a/gaussian_process/gpr.go
+++ b/gaussian_process/gpr.go
@@ -84,9 +84,49 @@ func (m *Regressor) Fit(X, Y mat.Matrix) base.Fiter {
 	if ry, _ := Y.Dims(); len(m.Alpha) != 1 && len(m.Alpha) != ry {
 		panic(fmt.Errorf("alpha must be a scalar or an array with same number of entries as y.(%d != %d)", len(m.Alpha), ry))
 	}
+	if m.KernelOpt == kernels.Kernel(nil) {
+		m.KernelOpt = m.Kernel
+	}
+	_, cy := Y.Dims()
+	m.YtrainMean = mat.NewDense(1, cy, nil)
+	if m.NormalizeY {
+		for c := 0; c < cy; c++ {
+			col := m.Ytrain.ColView(c)
+			m.YtrainMean.Set(0, c, mat.Sum(col)/float64(col.Len()))
+		}
+		m.Ytrain.Apply(func(_, c int, y float64) float64 { return y - m.YtrainMean.At(0, c) }, m.Ytrain)
+	}
+	var posdef bool
+	if m.L, _, posdef = m.cholesky(m.KernelOpt, false); !posdef {
+		panic("the kernel of training samples is not positive definite. Try increasing Alpha")
+	}
+	m.LogMarginalLikelihoodValue, _ = m.LogMarginalLikelihood(m.KernelOpt.Theta(), false)
 	return m
 }
 
+// cholesky factorizes the kernel of training samples with Alpha added to its diagonal
+func (m *Regressor) cholesky(kernel kernels.Kernel, evalGradient bool) (cho *mat.Cholesky, Kg *tensor.Dense, posdef bool) {
+	var K *mat.Dense
+	K, Kg = kernel.Eval(m.Xtrain, nil, evalGradient)
+
+	// add m.Alpha to K diagonal
+	Kraw := K.RawMatrix()
+	Kdata := Kraw.Data
+	alphainc := 1
+	if len(m.Alpha) == 1 {
+		alphainc = 0
+	}
+	nx, _ := m.Xtrain.Dims()
+	for i := 0; i < nx; i++ {
+		Kdata[i*(nx+1)] += m.Alpha[i*alphainc]
+	}
+	Ksym := &mat.SymDense{}
+	Ksym.SetRawSymmetric(blas64.Symmetric{Uplo: blas.Upper, N: Kraw.Rows, Stride: Kraw.Stride, Data: Kraw.Data})
+	cho = &mat.Cholesky{}
+	posdef = cho.Factorize(Ksym)
+	return
+}
+
 // PredictEx predicts using the Gaussian process regression model, returning Ymean and std or cov
 func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov bool) (*mat.Dense, *mat.DiagDense, *mat.Dense) {
 	NSamples, _ := X.Dims()
@@ -111,13 +151,27 @@ func (m *Regressor) PredictEx(X mat.Matrix, Y mat.Mutable, returnStd, returnCov
 		//y_mean = K_trans.dot(self.alpha_)  # Line 4 (y_mean = f_star)
 		//y_mean = self._y_train_mean + y_mean  # undo normal.
 
-		Ktrans, _ := m.Kernel.Eval(X, m.Xtrain, false)
-		Ymean.Mul(Ktrans, mat.NewDense(NSamples, 1, m.Alpha))
-		Ymean.Add(Ymean, m.YtrainMean)
+		Ktrans, _ := m.KernelOpt.Eval(X, m.Xtrain, false)
+		var alpha, V, VK mat.Dense
+		if err := m.L.SolveTo(&alpha, m.Ytrain); err != nil {
+			panic(err)
+		}
+		Ymean.Mul(Ktrans, &alpha)
+		Ymean.Apply(func(_, c int, y float64) float64 { return y + m.YtrainMean.At(0, c) }, Ymean)
+		if returnStd || returnCov {
+			if err := m.L.SolveTo(&V, Ktrans.T()); err != nil {
+				panic(err)
+			}
+			VK.Mul(Ktrans, &V)
+		}
 		if returnStd {
-			// TODO
+			Ystd = m.KernelOpt.Diag(X)
+			for i := 0; i < NSamples; i++ {
+				Ystd.SetDiag(i, math.Sqrt(math.Max(0, Ystd.At(i, i)-VK.At(i, i))))
+			}
 		} else if returnCov {
-			// TODO
+			Ycov, _ = m.KernelOpt.Eval(X, nil, false)
+			Ycov.Sub(Ycov, &VK)
 		}
 	}
 	return base.FromDense(Y, Ymean), Ystd, Ycov
@@ -146,28 +200,8 @@ func (m *Regressor) LogMarginalLikelihood(Theta mat.Matrix, evalGradient bool) (
 		return m.LogMarginalLikelihoodValue, nil
 	}
 	kernel := m.KernelOpt.CloneWithTheta(Theta)
-	var K *mat.Dense
-	var Kg *tensor.Dense
-	_ = Kg
-
-	K, Kg = kernel.Eval(m.Xtrain, nil, evalGradient)
-
-	// add m.Alpha to K diagonal
-	Kraw := K.RawMatrix()
-	Kdata := Kraw.Data
-	alphainc := 1
-	if len(m.Alpha) == 1 {
-		alphainc = 0
-	}
 	nx, _ := m.Xtrain.Dims()
-	for i := 0; i < nx; i++ {
-		Kdata[i*(nx+1)] += m.Alpha[i*alphainc]
-	}
-	Ksym := &mat.SymDense{}
-	Ksym.SetRawSymmetric(blas64.Symmetric{Uplo: blas.Upper, N: Kraw.Rows, Stride: Kraw.Stride, Data: Kraw.Data})
-	cho := &mat.Cholesky{}
-
-	posdef := cho.Factorize(Ksym)
+	cho, Kg, posdef := m.cholesky(kernel, evalGradient)
 	thetarows, _ := Theta.Dims()
 	if evalGradient {
 		grad = make([]float64, thetarows)
-- 
2.43.0


From 0215a0faf52f54eb36dcfbd8792c99e680545fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:17 +0000
Subject: [PATCH 146/156] fix: Start of a tensor iterator starts again at 0

---
 gaussian_process/tensor/tensor.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/gaussian_process/tensor/tensor.go b/gaussian_process/tensor/tensor.go
index cf9e8a9..685879b 100644
--- a/gaussian_process/tensor/tensor.go
+++ b/gaussian_process/tensor/tensor.go
@@ -53,12 +53,8 @@ type DenseIterator struct {
 
 // Start returns 0
 func (it *DenseIterator) Start() (i int, e error) {
-	i = it.index
-	if i >= len(it.t.data.([]float64)) {
-		e = ErrEndReached
-	}
-	it.index++
-	return i, e
+	it.index = 0
+	return it.Next()
 }
 
 // Next return current index and advance
-- 
2.43.0


From ec1e0398c32aa06e0c5b4a6c77ea7d77d256a055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:15 +0000
Subject: [PATCH 147/156] fix: MakeBlobs makes as many features as its centers
 have

---
 datasets/samples_generator.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index ed296dd..8bb0c7c 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -133,6 +133,7 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 		Centers = mat.NewDense(c, config.NFeatures, nil)
 	case mat.Matrix:
 		Centers = mat.DenseCopyOf(c)
+		_, config.NFeatures = Centers.Dims()
 		randomizeCenters = false
 	default:
 		Centers = mat.NewDense(3, config.NFeatures, nil)
-- 
2.43.0


From 4b5fad462fed56acb7701e2e12a52821ab6ba8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:15 +0000
Subject: [PATCH 148/156] fix: MakeBlobs draws everything from its RandomState,
 in an order that does not depend on scheduling

---
 datasets/samples_generator.go | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/datasets/samples_generator.go b/datasets/samples_generator.go
index 8bb0c7c..73acc78 100644
--- a/datasets/samples_generator.go
+++ b/datasets/samples_generator.go
@@ -2,16 +2,13 @@ package datasets
 
 import (
 	"math"
-	"runtime"
 	"sort"
 
 	"golang.org/x/exp/rand"
 
 	"github.com/pa-m/sklearn/base"
 	"github.com/pa-m/sklearn/preprocessing"
-	"gonum.org/v1/gonum/floats"
 	"gonum.org/v1/gonum/mat"
-	"gonum.org/v1/gonum/stat/distmv"
 )
 
 // MakeRegression Generate a random regression problem
@@ -149,6 +146,8 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 	randNormFloat64 := rand.NormFloat64
 	randIntn := rand.Intn
 	if config.RandomState != nil {
+		rnd := rand.New(config.RandomState)
+		randNormFloat64, randIntn = rnd.NormFloat64, rnd.Intn
 		if normFloat64er, ok := config.RandomState.(base.NormFloat64er); ok {
 			randNormFloat64 = normFloat64er.NormFloat64
 		}
@@ -174,25 +173,18 @@ func MakeBlobs(config *MakeBlobsConfig) (X, Y *mat.Dense) {
 
 	X = mat.NewDense(config.NSamples, config.NFeatures, nil)
 	Y = mat.NewDense(config.NSamples, 1, nil)
-	base.Parallelize(runtime.NumCPU(), config.NSamples, func(th, start, end int) {
-		mu := make([]float64, config.NFeatures)
-		sigma := mat.NewSymDense(config.NFeatures, nil)
-
-		for i := 0; i < config.NFeatures; i++ {
-			sigma.SetSym(i, i, 1)
-		}
-		sigma.ScaleSym(config.ClusterStd*config.ClusterStd, sigma)
-		normal, _ := distmv.NewNormal(mu, sigma, nil)
-		_ = normal
-		for sample := start; sample < end; sample++ {
-			cluster := randIntn(NCenters)
-			Y.Set(sample, 0, float64(cluster))
-			normal.Rand(X.RawRowView(sample))
-			floats.Add(X.RawRowView(sample), Centers.RawRowView(cluster))
+	for sample := 0; sample < config.NSamples; sample++ {
+		cluster := randIntn(NCenters)
+		Y.Set(sample, 0, float64(cluster))
+		row := X.RawRowView(sample)
+		for i := range row {
+			row[i] = Centers.At(cluster, i) + config.ClusterStd*randNormFloat64()
 		}
-	})
+	}
 	if config.Shuffle {
-		X, Y = preprocessing.NewShuffler().FitTransform(X, Y)
+		shuffler := preprocessing.NewShuffler()
+		shuffler.RandomState = config.RandomState
+		X, Y = shuffler.FitTransform(X, Y)
 	}
 	return
 }
-- 
2.43.0


From 844b6afb5f40dc2b17fef149f1278596242d778d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:25:15 +0000
Subject: [PATCH 149/156] fix: LoadOctaveBin reads on when a read returns less
 than asked

---
 datasets/octave.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datasets/octave.go b/datasets/octave.go
index 57b53be..faa59e3 100644
--- a/datasets/octave.go
+++ b/datasets/octave.go
@@ -25,7 +25,7 @@ func LoadOctaveBin(filename string) map[string]*mat.Dense {
 	}
 	read := func(f *PosReader, n int) ([]byte, error) {
 		b := make([]byte, n)
-		nread, err := f.Reader.Read(b)
+		nread, err := io.ReadFull(f.Reader, b)
 		if err != nil {
 			return b, err
 		}
-- 
2.43.0


From 1f9536d42072dc92539f2702ec54982fda37f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:27:22 +0000
Subject: [PATCH 150/156] fix: class counts of neighbors are in the order of
 the classes

---
 neighbors/classification.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neighbors/classification.go b/neighbors/classification.go
index e20ee77..622e6b1 100644
--- a/neighbors/classification.go
+++ b/neighbors/classification.go
@@ -180,9 +180,11 @@ func getClasses(Y mat.Matrix) (classes [][]float64, counts [][]int) {
 		clcounts := make([]int, 0)
 		for cl := range clmap {
 			clvalues = append(clvalues, cl)
-			clcounts = append(clcounts, clcnt[cl])
 		}
 		sort.Float64s(clvalues)
+		for _, cl := range clvalues {
+			clcounts = append(clcounts, clcnt[cl])
+		}
 		classes = append(classes, clvalues)
 		counts = append(counts, clcounts)
 	}
-- 
2.43.0


From 9e2443fa47f986388e45ff61254f53378f010e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:28:15 +0000
Subject: [PATCH 151/156] fix: NearestCentroid.Fit fills Centroids

---
 neighbors/nearest_centroid.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neighbors/nearest_centroid.go b/neighbors/nearest_centroid.go
index 6371034..5de9ae7 100644
--- a/neighbors/nearest_centroid.go
+++ b/neighbors/nearest_centroid.go
@@ -67,6 +67,7 @@ func (m *NearestCentroid) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 			Centroids.Set(icl, feature, centroidXfeat)
 		}
 	})
+	m.Centroids = Centroids
 	m.NearestNeighbors.Metric = m.Metric
 	m.NearestNeighbors.Fit(Centroids, mat.Matrix(nil))
 	return m
-- 
2.43.0


From a52b198e85cbc779dea88a11b98b87af2b892a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:21 +0000
Subject: [PATCH 152/156] fix: clones of scalers share no statistics

PartialFit updates the statistics in place, so going on fitting a clone of a
MinMaxScaler, StandardScaler or MaxAbsScaler changed the original.
---
 preprocessing/data.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/preprocessing/data.go b/preprocessing/data.go
index 99db2f4..d4aec1f 100644
--- a/preprocessing/data.go
+++ b/preprocessing/data.go
@@ -42,9 +42,23 @@ func NewMinMaxScaler(featureRange []float) *MinMaxScaler {
 // TransformerClone ...
 func (scaler *MinMaxScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	// PartialFit updates these in place
+	clone.DataRange = cloneDense(scaler.DataRange)
+	clone.DataMin = cloneDense(scaler.DataMin)
+	clone.DataMax = cloneDense(scaler.DataMax)
+	clone.Min = cloneDense(scaler.Min)
+	clone.Scale = cloneDense(scaler.Scale)
 	return &clone
 }
 
+// cloneDense returns a copy of m, nil when m is nil
+func cloneDense(m *mat.Dense) *mat.Dense {
+	if m == nil {
+		return nil
+	}
+	return mat.DenseCopyOf(m)
+}
+
 // Reset resets scaler to its initial state
 func (scaler *MinMaxScaler) Reset() *MinMaxScaler {
 	scaler.NSamplesSeen = 0
@@ -144,6 +158,10 @@ func NewStandardScaler() *StandardScaler {
 // TransformerClone ...
 func (scaler *StandardScaler) TransformerClone() base.Transformer {
 	var clone = *scaler
+	// PartialFit updates these in place
+	clone.Var = cloneDense(scaler.Var)
+	clone.Mean = cloneDense(scaler.Mean)
+	clone.Scale = cloneDense(scaler.Scale)
 	return &clone
 }
 
@@ -934,6 +952,9 @@ func NewMaxAbsScaler() *MaxAbsScaler { return &MaxAbsScaler{} }
 // TransformerClone ...
 func (m *MaxAbsScaler) TransformerClone() base.Transformer {
 	var clone = *m
+	// PartialFit updates these in place
+	clone.MaxAbs = append([]float64(nil), m.MaxAbs...)
+	clone.Scale = append([]float64(nil), m.Scale...)
 	return &clone
 }
 
-- 
2.43.0


From 8a109a0e52f1fefdc425bc8a6bcc48e159ee2559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:22 +0000
Subject: [PATCH 153/156] fix: clones of LabelEncoder share no classes

PartialFit updates classes and support in place.
---
 preprocessing/label.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preprocessing/label.go b/preprocessing/label.go
index 7c91b74..b153edd 100644
--- a/preprocessing/label.go
+++ b/preprocessing/label.go
@@ -282,6 +282,12 @@ func NewLabelEncoder() *LabelEncoder { return &LabelEncoder{} }
 // TransformerClone ...
 func (m *LabelEncoder) TransformerClone() base.Transformer {
 	clone := *m
+	// PartialFit updates these in place
+	clone.Classes, clone.Support = nil, nil
+	for i := range m.Classes {
+		clone.Classes = append(clone.Classes, append([]float64(nil), m.Classes[i]...))
+		clone.Support = append(clone.Support, append([]float64(nil), m.Support[i]...))
+	}
 	return &clone
 }
 
-- 
2.43.0


From 1957600c0fa5f8b46ae9522ea4fa882cad9e3292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:22 +0000
Subject: [PATCH 154/156] fix: refitting a clone of PCA leaves the original
 alone

mat.SVD.Factorize reuses the storage of its receiver, which clones share.
---
 preprocessing/pca.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 0d5ff57..950e998 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -31,6 +31,8 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 	if r < c {
 		c = r
 	}
+	// Factorize reuses the storage of its receiver, which a clone shares
+	m.SVD = mat.SVD{}
 	m.SVD.Factorize(X, mat.SVDThin)
 	m.SingularValues = make([]float64, c)
 	m.ExplainedVarianceRatio = make([]float64, c)
-- 
2.43.0


From 3739b0ec3814673a5c4cc7c02934565cb1705563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:23 +0000
Subject: [PATCH 155/156] fix: PCA chooses its number of components again when
 refitted

The number chosen by a first fit was kept as if asked for, so a refit on data
with another number of features panicked or dropped components.
---
 preprocessing/pca.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 950e998..88123fa 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -13,6 +13,7 @@ type PCA struct {
 	MinVarianceRatio                       float64
 	NComponents                            int
 	SingularValues, ExplainedVarianceRatio []float64
+	autoComponents                         int // NComponents set by Fit when it was not chosen
 }
 
 // NewPCA returns a *PCA
@@ -49,8 +50,8 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		}
 		m.NComponents = nComponents
 	} else {
-		if m.NComponents == 0 {
-			m.NComponents = c
+		if m.NComponents == 0 || m.NComponents == m.autoComponents {
+			m.NComponents, m.autoComponents = c, c
 		}
 	}
 
-- 
2.43.0


From ee193993a90364385e5f582afc6a5fc02762873b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:18 +0000
Subject: [PATCH 156/156] fix: PCA keeps a number of components asked for

Undoes 3739b0e: a number asked for was taken for the one an earlier fit had
chosen when both were equal.
---
 preprocessing/pca.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/preprocessing/pca.go b/preprocessing/pca.go
index 88123fa..950e998 100644
--- a/preprocessing/pca.go
+++ b/preprocessing/pca.go
@@ -13,7 +13,6 @@ type PCA struct {
 	MinVarianceRatio                       float64
 	NComponents                            int
 	SingularValues, ExplainedVarianceRatio []float64
-	autoComponents                         int // NComponents set by Fit when it was not chosen
 }
 
 // NewPCA returns a *PCA
@@ -50,8 +49,8 @@ func (m *PCA) Fit(Xmatrix, Ymatrix mat.Matrix) base.Fiter {
 		}
 		m.NComponents = nComponents
 	} else {
-		if m.NComponents == 0 || m.NComponents == m.autoComponents {
-			m.NComponents, m.autoComponents = c, c
+		if m.NComponents == 0 {
+			m.NComponents = c
 		}
 	}
 
-- 
2.43.0

