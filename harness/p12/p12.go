// Package p12: nearest neighbour search.
package p12

import (
	"math"

	"github.com/pa-m/sklearn/neighbors"
	"github.com/pa-m/sklearn/vp"
	h "github.com/pa-m/sklearn/vph/hutil"
	"gonum.org/v1/gonum/mat"
)

var inf = math.Inf(1)

// layouts of fixed points in the plane: duplicates, lines, far outliers, mixed.
var layouts = [][]float64{
	{0, 0, 4, 0, 1, 3, -2, 1},
	{1, 1, 1, 1, 1, 1, 5, 1},
	{0, 5, 5, 5, 5, 5, 5, 5},
	{0, 0, 0, 4, 0, 4, 3, 4},
	{-8, 0, 7, 0, 7, 1, 7, 1},
	{2, 2, 2, 2, 2, 2, 2, 2},
}

// points are n samples: arbitrary on a line, or one of the layouts in the plane.
func points(full bool) (X *mat.Dense, planar bool) {
	if vp.Choose("planar", 2) == 0 {
		n := 3
		if vp.Thorough() {
			n = 4
		}
		X := h.DenseIn("X", n, 1, -9, 9)
		if full {
			X = h.MaybeView("X", X)
		}
		return X, false
	}
	if !full && !vp.Thorough() {
		return mat.NewDense(4, 2, append([]float64(nil), layouts[2+2*vp.Choose("layout", 2)]...)), true
	}
	return mat.NewDense(4, 2, append([]float64(nil), layouts[vp.Choose("layout", len(layouts))]...)), true
}

// dist is the distance raised to the power (squared for p=2), which orders the same way.
func dist(X *mat.Dense, i int, q *mat.Dense, s int, p float64) float64 {
	_, c := X.Dims()
	d := 0.
	for j := 0; j < c; j++ {
		a := math.Abs(X.At(i, j) - q.At(s, j))
		switch p {
		case 1:
			d += a
		case 2:
			d += a * a
		default:
			d = h.Max(d, a)
		}
	}
	return d
}

func raise(d, p float64) float64 {
	if p == 2 {
		return d * d
	}
	return d
}

// nearest checks row s of a neighbour query.
func nearest(X, q *mat.Dense, s, k int, p, tol float64, dd, ii *mat.Dense) {
	n, _ := X.Dims()
	used := make([]bool, n)
	last := 0.
	for r := 0; r < k; r++ {
		i := int(vp.Conc(int(ii.At(s, r))))
		vp.Assert(i >= 0 && i < n, "neighbour index in range")
		vp.Assert(!used[i], "a neighbour is listed once")
		used[i] = true
		got := dd.At(s, r)
		vp.Assert(got >= 0, "distance not negative")
		vp.Eq(raise(got, p), dist(X, i, q, s, p), "distance to the listed neighbour")
		vp.Assert(got >= last, "nearest first")
		last = got
	}
	for i := 0; i < n; i++ {
		if !used[i] {
			vp.Assert(dist(X, i, q, s, p) >= raise(last, p)*(1-tol), "no nearer sample is left out")
		}
	}
	vp.Reach("checked")
}

// query is a point to search for; in the plane with p=2 only its first coordinate is arbitrary in the quick check.
func query(c int, p float64) *mat.Dense {
	q := h.DenseIn("q", 1, c, -12, 12)
	if c > 1 && p == 2 && !vp.Thorough() {
		q.Set(0, 1, 2.5)
	}
	return q
}

var ps = []float64{1, 2, inf}

// HTree: queries of a k-d tree return the nearest points.
func HTree() {
	X, _ := points(true)
	n, c := X.Dims()
	keep := h.Copy(X)
	leaf := 2 * vp.Choose("leaf", 2) // 0 stands for 1
	tr := neighbors.NewKDTree(X, leaf)
	p := ps[vp.Choose("p", 3)]
	k := []int{1, n}[vp.Choose("k", 2)]
	q := query(c, p)
	dd, ii := tr.Query(q, k, 0, p, inf)
	nearest(X, q, 0, k, p, 0, dd, ii)
	h.EqMat(X, keep, "data left alone")
}

// HTreeBound: only neighbours within the bound are returned, the others are marked by infinite distances.
func HTreeBound() {
	X, _ := points(false)
	n, c := X.Dims()
	tr := neighbors.NewKDTree(X, 1)
	p := ps[vp.Choose("p", 3)]
	k := []int{1, n + 1}[vp.Choose("k", 2)]
	vp.Assume(c == 1 || p != inf || vp.Thorough())
	q := query(c, p)
	bound := inf
	if vp.Choose("bounded", 2) == 1 {
		bound = vp.FloatIn("bound", 0, 9)
	}
	dd, ii := tr.Query(q, k, 0, p, bound)
	found := 0
	for found < k && !math.IsInf(dd.At(0, found), 1) {
		found++
	}
	for r := found; r < k; r++ {
		vp.Assert(math.IsInf(dd.At(0, r), 1), "missing neighbours come last")
	}
	vp.Assert(found <= n, "no more neighbours than samples")
	if found > 0 {
		nearest(X, q, 0, found, p, 0, dd, ii)
	}
	inside := 0
	for i := 0; i < n; i++ {
		if math.IsInf(bound, 1) || dist(X, i, q, 0, p) < raise(bound, p) {
			inside++
		}
	}
	if found < k {
		vp.Assert(found >= inside, "every sample within the bound is found")
	}
	for r := 0; r < found; r++ {
		if !math.IsInf(bound, 1) {
			vp.Assert(dd.At(0, r) <= bound, "no sample beyond the bound is returned")
		}
	}
}

// HTreeEps: approximate queries are off by the allowed factor at most.
func HTreeEps() {
	X, _ := points(false)
	n, c := X.Dims()
	tr := neighbors.NewKDTree(X, 1)
	p := ps[vp.Choose("p", 3)]
	k := 1 + vp.Choose("k", 2)
	q := query(c, p)
	eps := []float64{.25, 1}[vp.Choose("eps", 2)]
	dd, ii := tr.Query(q, k, eps, p, inf)
	used := make([]bool, n)
	last := 0.
	for r := 0; r < k; r++ {
		i := int(vp.Conc(int(ii.At(0, r))))
		vp.Assert(i >= 0 && i < n && !used[i], "distinct samples")
		used[i] = true
		last = dd.At(0, r)
		vp.Eq(raise(last, p), dist(X, i, q, 0, p), "distance to the listed neighbour")
	}
	for i := 0; i < n; i++ {
		if !used[i] {
			vp.Assert(raise(1+eps, p)*dist(X, i, q, 0, p) >= raise(last, p), "the last is within the factor of any sample left out")
		}
	}
}

var metrics = []struct {
	name string
	p    float64
}{{"euclidean", 2}, {"l2", 2}, {"manhattan", 1}, {"cityblock", 1}, {"l1", 1}, {"minkowski", 2}, {"minkowski", 1}, {"minkowski", inf}}

// model is a fitted search model, possibly fitted before on other data.
func model(X *mat.Dense, full bool) (*neighbors.NearestNeighbors, float64) {
	m := neighbors.NewNearestNeighbors()
	m.Algorithm = []string{"auto", "brute", "kd_tree"}[vp.Choose("algorithm", 3)]
	m.LeafSize = 1
	mt := metrics[vp.Choose("metric", len(metrics))]
	if !full && !vp.Thorough() {
		// the names only select a power: HMetricNames covers them
		vp.Assume(mt.name == "minkowski" && m.Algorithm != "auto")
	}
	m.Metric = mt.name
	if mt.name == "minkowski" {
		m.P = mt.p
	}
	m.Fit(X, nil)
	return m, mt.p
}

// HKNeighbors: every algorithm and metric returns the nearest samples, for any number of queries.
func HKNeighbors() {
	X, planar := points(false)
	n, c := X.Dims()
	keep := h.Copy(X)
	m, p := model(X, false)
	k := []int{1, n}[vp.Choose("k", 2)]
	nq := 1
	if planar {
		nq = 1 + vp.Choose("nq", 2)
	}
	q := mat.NewDense(nq, c, nil)
	one := query(c, p)
	for j := 0; j < c; j++ {
		q.Set(0, j, one.At(0, j))
		if nq > 1 {
			q.Set(1, j, 3)
		}
	}
	q = h.MaybeView("q", q)
	dd, ii := m.KNeighbors(q, k)
	r, cc := dd.Dims()
	vp.Assert(r == nq && cc == k, "shape")
	for s := 0; s < nq; s++ {
		nearest(X, q, s, k, p, 1e-12, dd, ii)
	}
	h.EqMat(X, keep, "data left alone")
}

// HMetricNames: every metric name with every algorithm.
func HMetricNames() {
	X := mat.NewDense(4, 2, append([]float64(nil), layouts[0]...))
	m, p := model(X, true)
	q := query(2, p)
	dd, ii := m.KNeighbors(q, 2)
	nearest(X, q, 0, 2, p, 1e-12, dd, ii)
}

// HRefit: only the last fit counts, whatever algorithm the earlier fit chose.
func HRefit() {
	m := neighbors.NewNearestNeighbors()
	m.LeafSize = 1
	algos := []string{"auto", "brute", "kd_tree"}
	m.Algorithm = algos[vp.Choose("before", 3)]
	m.Fit(mat.NewDense(3, 1, []float64{5, 1, 2}), nil)
	m.Algorithm = algos[vp.Choose("after", 3)]
	X := h.DenseIn("X", 2, 1, -9, 9)
	m.Fit(X, nil)
	q := h.DenseIn("q", 1, 1, -12, 12)
	dd, ii := m.KNeighbors(q, 2)
	nearest(X, q, 0, 2, 2, 1e-12, dd, ii)
	// the model does not follow later changes of the caller's matrix
	X2 := h.Copy(X)
	X.Set(0, 0, 100)
	dd, ii = m.KNeighbors(q, 2)
	nearest(X2, q, 0, 2, 2, 1e-12, dd, ii)
}

// HRadius: exactly the samples within the radius are returned, with their distances.
func HRadius() {
	X, _ := points(false)
	n, c := X.Dims()
	m, p := model(X, false)
	q := query(c, p)
	radius := vp.FloatIn("radius", 0, 9)
	dd, ii := m.RadiusNeighbors(q, radius)
	vp.Assert(len(dd) == 1 && len(ii) == 1 && len(dd[0]) == len(ii[0]), "one list per query")
	used := make([]bool, n)
	for r, i := range ii[0] {
		i = vp.Conc(i)
		vp.Assert(i >= 0 && i < n && !used[i], "distinct samples")
		used[i] = true
		vp.Assert(dd[0][r] >= 0, "distance not negative")
		vp.Eq(raise(dd[0][r], p), dist(X, i, q, 0, p), "distance to the listed sample")
		vp.Assert(dd[0][r] <= radius, "listed samples are within the radius")
	}
	for i := 0; i < n; i++ {
		if !used[i] {
			vp.Assert(dist(X, i, q, 0, p) > raise(radius, p)*(1-1e-9), "every sample within the radius is listed")
		}
	}
}

// HLarge: 40 samples, more than fill a leaf of the tree, and queries on a segment.
func HLarge() {
	n, c := 40, 2+vp.Choose("c", 2)
	X := h.Fixed(n, c, 1)
	for i := 0; i < n; i++ {
		X.Set(i, 0, X.At(i, 0)+float64(i%7)/8)
	}
	m := neighbors.NewNearestNeighbors()
	m.Algorithm = []string{"auto", "brute", "kd_tree"}[vp.Choose("algorithm", 3)]
	if vp.Choose("leaf", 2) == 1 {
		m.LeafSize = 3
	}
	p := ps[vp.Choose("p", 3)]
	m.Metric, m.P = "minkowski", p
	m.Fit(X, nil)
	k := 6
	q := h.Fixed(3, c, 7)
	q.Set(1, 0, vp.FloatIn("q", 0, .5))
	if vp.Choose("radius", 2) == 0 {
		dd, ii := m.KNeighbors(q, k)
		for s := 0; s < 3; s++ {
			nearest(X, q, s, k, p, 1e-9, dd, ii)
		}
		return
	}
	radius := 2.125
	dd, ii := m.RadiusNeighbors(q, radius)
	for s := 0; s < 3; s++ {
		used := make([]bool, n)
		for r, i := range ii[s] {
			i = vp.Conc(i)
			vp.Assert(!used[i], "distinct samples")
			used[i] = true
			vp.Eq(raise(dd[s][r], p), dist(X, i, q, s, p), "distance to the listed sample")
			vp.Assert(dd[s][r] <= radius*(1+1e-9), "listed samples are within the radius")
		}
		for i := 0; i < n; i++ {
			if !used[i] {
				vp.Assert(dist(X, i, q, s, p) > raise(radius, p)*(1-1e-9), "every sample within the radius is listed")
			}
		}
	}
}

// HMany: several queries get their own answers, however many of them one goroutine handles.
func HMany() {
	vp.CPUs(1 + vp.Choose("cpus", 3))
	X := mat.NewDense(3, 1, []float64{0, 4, 10})
	m := neighbors.NewNearestNeighbors()
	m.Algorithm = []string{"brute", "kd_tree"}[vp.Choose("algo", 2)]
	m.NJobs = []int{1, 2, -1}[vp.Choose("jobs", 3)]
	m.LeafSize = 1
	m.Fit(X, nil)
	q := mat.NewDense(3, 1, []float64{3, 0, 9})
	q.Set(vp.Choose("which", 3), 0, vp.FloatIn("q", -12, 12))
	switch vp.Choose("call", 3) {
	case 0:
		dd, ii := m.KNeighbors(q, 2)
		for s := 0; s < 3; s++ {
			nearest(X, q, s, 2, 2, 1e-12, dd, ii)
		}
	case 1:
		tr := neighbors.NewKDTree(X, 1)
		dd, ii := tr.Query(q, 2, 0, 2, inf)
		for s := 0; s < 3; s++ {
			nearest(X, q, s, 2, 2, 1e-12, dd, ii)
		}
	default:
		dd, ii := m.RadiusNeighbors(q, 4.5)
		vp.Assert(len(dd) == 3 && len(ii) == 3, "one list per query")
		for s := 0; s < 3; s++ {
			in := make([]bool, 3)
			for r, i := range ii[s] {
				i = vp.Conc(i)
				vp.Assert(!in[i], "distinct samples")
				in[i] = true
				vp.Eq(raise(dd[s][r], 2), dist(X, i, q, s, 2), "distance to the listed sample")
			}
			for i := range in {
				d := dist(X, i, q, s, 2)
				if in[i] {
					vp.Assert(d <= 4.5*4.5*(1+1e-9), "listed samples are within the radius")
				} else {
					vp.Assert(d > 4.5*4.5*(1-1e-9), "every sample within the radius is listed")
				}
			}
		}
	}
}

// HGraph: the graph has an edge to every neighbour found, weighted by one or by the distance.
func HGraph() {
	vp.CPUs(1 + vp.Choose("cpus", 2))
	X, _ := points(false)
	n, c := X.Dims()
	m := neighbors.NewNearestNeighbors()
	m.Algorithm = []string{"brute", "kd_tree"}[vp.Choose("algorithm", 2)]
	m.Fit(X, nil)
	k := []int{1, 2, n}[vp.Choose("k", 3)]
	q := mat.NewDense(2, c, nil)
	for j := 0; j < c; j++ {
		q.Set(0, j, X.At(0, j))
		q.Set(1, j, vp.FloatIn("q"+h.Itoa(j), -12, 12))
	}
	mode := []string{"connectivity", "distance"}[vp.Choose("mode", 2)]
	self := vp.Choose("self", 2) == 1
	g := m.KNeighborsGraph(q, k, mode, self)
	dd, ii := m.KNeighbors(q, k)
	for s := 0; s < 2; s++ {
		want := make([]float64, n)
		for r := 0; r < k; r++ {
			i := vp.Conc(int(ii.At(s, r)))
			if i == s && !self {
				continue
			}
			want[i] = 1
			if mode == "distance" {
				want[i] = dd.At(s, r)
			}
		}
		for i := range want {
			vp.Eq(g.At(s, i), want[i], "edge weight")
		}
	}
}

// HCosine: the cosine metric orders samples by the angle.
func HCosine() {
	X := mat.NewDense(3, 2, []float64{1, 0, 3, 4, -1, 1})
	m := neighbors.NewNearestNeighbors()
	m.Metric = "cosine"
	m.Algorithm = []string{"auto", "kd_tree"}[vp.Choose("algorithm", 2)]
	m.Fit(X, nil)
	q := mat.NewDense(1, 2, [][]float64{{1, 0}, {0, 2}, {-3, 0}, {3, 4}}[vp.Choose("q", 4)])
	dd, ii := m.KNeighbors(q, 3)
	seen := make([]bool, 3)
	for r := 0; r < 3; r++ {
		i := int(ii.At(0, r))
		seen[i] = true
		dot, a, b := 0., 0., 0.
		for j := 0; j < 2; j++ {
			dot += X.At(i, j) * q.At(0, j)
			a += X.At(i, j) * X.At(i, j)
			b += q.At(0, j) * q.At(0, j)
		}
		vp.Near(dd.At(0, r), 1-dot/math.Sqrt(a*b), 1e-9, "cosine distance")
		vp.Assert(r == 0 || dd.At(0, r) >= dd.At(0, r-1)-1e-12, "nearest first")
	}
	vp.Assert(seen[0] && seen[1] && seen[2], "all samples")
}

// true distance of concrete points.
func real(X *mat.Dense, i int, q *mat.Dense, s int, p float64) float64 {
	_, c := X.Dims()
	d := 0.
	for j := 0; j < c; j++ {
		a := math.Abs(X.At(i, j) - q.At(s, j))
		if math.IsInf(p, 1) {
			d = math.Max(d, a)
		} else {
			d += math.Pow(a, p)
		}
	}
	if math.IsInf(p, 1) {
		return d
	}
	return math.Pow(d, 1/p)
}

// HDeep: hundreds of samples, deep trees, small leaves, refits.
func HDeep() {
	vp.NativeFloats(true)
	vp.MaxSteps(40000000)
	c := []int{1, 2, 5}[vp.Choose("c", 3)]
	n := 1300 / (c + 2)
	grid := vp.Choose("grid", 2) == 1
	data := func(r, seed int) *mat.Dense {
		X := h.Fixed(r, c, seed)
		X.Apply(func(i, j int, v float64) float64 {
			v = v*3 + float64((i*i+7*j*i)%17)/2
			if grid {
				return math.Floor(v) // many ties, samples on the limits
			}
			return v
		}, X)
		return X
	}
	m := neighbors.NewNearestNeighbors()
	algo := vp.Choose("algorithm", 2)
	if algo == 0 {
		n = 1005/c + 1 // enough for a tree to be chosen
	}
	m.Algorithm = []string{"auto", "kd_tree"}[algo]
	if algo == 1 {
		m.LeafSize = []int{1, 2, 10}[vp.Choose("leaf", 3)]
	}
	p := []float64{1, 2, 3, inf}[vp.Choose("p", 4)]
	m.Metric, m.P = "minkowski", p
	if algo == 1 && m.LeafSize == 1 { // fitted before, on as many samples
		m.Fit(data(n, 9), nil)
	}
	X := data(n, 1)
	m.Fit(X, nil)
	nq := 6
	q := data(nq, 5)
	k := []int{1, 9}[vp.Choose("k", 2)]
	dd, ii := m.KNeighbors(q, k)
	radius := 3.
	if k == 1 {
		radius = math.Sqrt(3)
	}
	rd, ri := m.RadiusNeighbors(q, radius)
	for s := 0; s < nq; s++ {
		used := make([]bool, n)
		last := 0.
		for r := 0; r < k; r++ {
			i := int(ii.At(s, r))
			vp.Assert(i >= 0 && i < n && !used[i], "distinct samples")
			used[i] = true
			vp.Near(dd.At(s, r), real(X, i, q, s, p), 1e-9, "distance to the listed neighbour")
			vp.Assert(dd.At(s, r) >= last-1e-9, "nearest first")
			last = dd.At(s, r)
		}
		listed := make([]bool, n)
		for r, i := range ri[s] {
			vp.Assert(i >= 0 && i < n && !listed[i], "distinct samples within the radius")
			listed[i] = true
			vp.Near(rd[s][r], real(X, i, q, s, p), 1e-9, "distance to the sample within the radius")
			vp.Assert(rd[s][r] <= radius+1e-9, "within the radius")
		}
		missed, left := 0, 0
		edge := 1e-9
		if grid && (p == 1 || p == 2 || math.IsInf(p, 1)) {
			edge = 0 // distances are exact: the limit itself is within
		}
		for i := 0; i < n; i++ {
			d := real(X, i, q, s, p)
			if !used[i] && d < last-1e-9 {
				missed++
			}
			if !listed[i] && (d < radius-1e-9 || edge == 0 && d == radius) {
				left++
			}
		}
		vp.Assert(missed == 0, "no nearer sample is left out")
		vp.Assert(left == 0, "every sample within the radius is listed")
	}
	vp.Reach("deep")
}
