package main

// Driver of C31: replays the histories of calls TLC enumerated from Calls.tla (and random ones with more threads)
// on one data set, with all pairs of library operations in turn.

import (
	"bytes"
	"container/list"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"sort"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C31"] = propDef{fn: c31, quick: 240, thorough: 4000, genFile: true, genChunk: 12}
}

// flatten lists everything a value consists of as numbers (also unexported fields; texts by a hash)
func flatten(v interface{}) []float64 {
	w := &flattener{seen: map[uintptr]bool{}}
	w.walk(reflect.ValueOf(v))
	return w.out
}

type flattener struct {
	out  []float64
	seen map[uintptr]bool
}

func (w *flattener) text(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	x := h.Sum64()
	w.out = append(w.out, float64(len(s)), float64(x%1000003), float64(x/1000003%1000003))
}

func (w *flattener) walk(v reflect.Value) {
	if !v.IsValid() {
		w.out = append(w.out, -7)
		return
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case *list.List:
			if x == nil {
				return
			}
			for e := x.Front(); e != nil; e = e.Next() {
				w.walk(reflect.ValueOf(e.Value))
			}
			return
		case *mat.Dense:
			if x == nil {
				w.out = append(w.out, -7)
				return
			}
			n, p := x.Dims()
			w.out = append(w.out, float64(n), float64(p))
			for i := 0; i < n; i++ {
				for j := 0; j < p; j++ {
					w.out = append(w.out, x.At(i, j))
				}
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Bool:
		b := 0.0
		if v.Bool() {
			b = 1
		}
		w.out = append(w.out, b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w.out = append(w.out, float64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		w.out = append(w.out, float64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		w.out = append(w.out, v.Float())
	case reflect.String:
		w.text(v.String())
	case reflect.Slice, reflect.Array:
		w.out = append(w.out, float64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Map:
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			w.walk(k)
			w.walk(v.MapIndex(k))
		}
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			w.out = append(w.out, -7)
			return
		}
		if v.Kind() == reflect.Ptr {
			if w.seen[v.Pointer()] {
				return
			}
			w.seen[v.Pointer()] = true
		}
		w.walk(v.Elem())
	case reflect.Struct:
		if v.Type().PkgPath() == "sync" {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	}
}

// distance of two flattened values in units of 1e-9
func distance(a, b []float64) int {
	if len(a) != len(b) {
		return numInf
	}
	m := 0.0
	for i := range a {
		if a[i] == b[i] || math.IsNaN(a[i]) && math.IsNaN(b[i]) {
			continue
		}
		d := math.Abs(a[i]-b[i]) / math.Max(1, math.Abs(b[i]))
		if math.IsNaN(d) {
			return numInf
		}
		m = math.Max(m, d)
	}
	if m > 0 && m < 1e-9 {
		return 1
	}
	return sc(m, 1e9)
}

// pdata are the arguments all operations of a history share. Everything in it belongs to the caller.
type pdata struct {
	X          *mat.Dense
	Y          []float64
	DS         *fs1.Dataset
	Names      []string
	X0, Coeff  []float64
	Lambs      []float64
	Vals       []float64
	Model      []bool
	Level      int
	Sel, Sel2  []int
	Node       *fs1.Node
	List       *fs1.Highscore
	Path       *fs1.LassoLarsPath
	Sparse     []fs1.SparseCoeff
	Params     *fs1.SelectModelOptParams
	Text, File []byte
	ND         [2]*fs1.NormalizedData // one per content, a normalised data set cannot be overwritten
	Pen        *fs1.ElasticNet
	Cov        *fs1.Empirical
	Ver, P     int
}

// fill overwrites the content in place
func (d *pdata) fill(v int, src *pdata) {
	d.Ver = v
	d.X.Copy(src.X)
	copy(d.Y, src.Y)
	d.DS.X.Copy(src.DS.X)
	copy(d.DS.Y, src.DS.Y)
	copy(d.DS.Names, src.DS.Names)
	copy(d.Names, src.Names)
	copy(d.X0, src.X0)
	copy(d.Coeff, src.Coeff)
	copy(d.Lambs, src.Lambs)
	copy(d.Vals, src.Vals)
	copy(d.Model, src.Model)
	d.Level = src.Level
	copy(d.Sel, src.Sel)
	copy(d.Sel2, src.Sel2)
	copy(d.Node.Model, src.Node.Model)
	copy(d.Node.Coeff, src.Node.Coeff)
	d.Node.Score, d.Node.Lower, d.Node.Upper, d.Node.Level = src.Node.Score, src.Node.Lower, src.Node.Upper, src.Node.Level
	d.List.Items.Init()
	for e := src.List.Items.Front(); e != nil; e = e.Next() {
		d.List.Items.PushBack(cloneNode(e.Value.(*fs1.Node)))
	}
	for i, n := range src.Path.LassoLarsNodes {
		d.Path.LassoLarsNodes[i] = fs1.NewLassoLarsNode(n.Coeff, n.Lamb, n.Selection)
	}
	copy(d.Path.Aicc, src.Path.Aicc)
	copy(d.Path.Bic, src.Path.Bic)
	for i := range src.Sparse {
		copy(d.Sparse[i].Coeff, src.Sparse[i].Coeff)
		copy(d.Sparse[i].Selection, src.Sparse[i].Selection)
	}
	copy(d.Params.RootModel, src.Params.RootModel)
	d.Params.Cutoff = src.Params.Cutoff
	d.Text = append([]byte{}, src.Text...)
	d.File = append([]byte{}, src.File...)
	d.Pen.Lamb = src.Pen.Lamb
}

func cloneNode(n *fs1.Node) *fs1.Node {
	m := fs1.NewNode(n.Level, n.Model)
	m.Coeff = append([]float64{}, n.Coeff...)
	m.Score, m.Lower, m.Upper, m.WasFlipped = n.Score, n.Lower, n.Upper, n.WasFlipped
	return m
}

// newPdata makes arguments with random content; all contents have the same shapes
func newPdata(r *rand.Rand, callN, callP int) *pdata {
	f := randF(r, callN, callP, false)
	for i := 0; i < callN; i++ { // moderate values, so that an absolute comparison is meaningful
		for j := 0; j < callP; j++ {
			f.X.Set(i, j, math.Round(f.X.At(i, j)*64)/64)
		}
		f.y[i] = math.Round(f.y[i]*64) / 64
	}
	d := &pdata{X: copyDense(f.X), Y: append([]float64{}, f.y...), Pen: &fs1.ElasticNet{Lamb: 0.1 + 0.2*r.Float64()}, Cov: &fs1.Empirical{}, P: callP}
	d.DS = &fs1.Dataset{X: copyDense(f.X), Y: append([]float64{}, f.y...), TargetCol: 2}
	for j := 0; j <= callP; j++ {
		d.Names = append(d.Names, fmt.Sprintf("f%d_%d", j, r.Intn(10)))
	}
	d.DS.Names = append([]string{}, d.Names...)
	for j := 0; j < callP; j++ {
		d.X0 = append(d.X0, r.NormFloat64())
		d.Coeff = append(d.Coeff, r.NormFloat64())
		d.Model = append(d.Model, false)
	}
	perm := r.Perm(callP)
	for _, j := range perm[:3] {
		d.Model[j] = true
	}
	d.Level = 1 + r.Intn(callP-1)
	d.Sel = append([]int{}, r.Perm(callP)[:3]...)
	d.Sel2 = append([]int{}, r.Perm(callP)[:2]...)
	for i := 0; i < 7; i++ {
		d.Vals = append(d.Vals, float64(r.Intn(1000))/64+float64(i)/1024)
	}
	l := 0.5 * r.Float64()
	for i := 0; i < 4; i++ {
		d.Lambs = append(d.Lambs, 0.02+l*math.Pow(0.5, float64(3-i)))
	}
	d.Node = fs1.NewNode(1, d.Model)
	d.Node.Score = r.NormFloat64()
	for i := range d.Node.Coeff {
		d.Node.Coeff[i] = r.NormFloat64()
	}
	d.List = fs1.NewHighscore(6)
	for i := 0; i < 4; i++ {
		n := cloneNode(d.Node)
		n.Score = float64(r.Intn(100)) + float64(i)/8
		d.List.Insert(n)
	}
	d.Path = &fs1.LassoLarsPath{Dset: d.DS}
	sel := []int{}
	for k, j := range r.Perm(callP) {
		sel = append(sel, j)
		s := append([]int{}, sel...)
		sort.Ints(s)
		co := make([]float64, len(s))
		for i := range co {
			co[i] = r.NormFloat64()
		}
		d.Path.LassoLarsNodes = append(d.Path.LassoLarsNodes, fs1.NewLassoLarsNode(co, math.Pow(0.6, float64(k))*(1+r.Float64()/8), s))
		d.Path.Aicc = append(d.Path.Aicc, r.NormFloat64())
		d.Path.Bic = append(d.Path.Bic, r.NormFloat64())
	}
	for i := 0; i < 7; i++ {
		d.Sparse = append(d.Sparse, fs1.SparseCoeff{Coeff: []float64{r.NormFloat64(), r.NormFloat64()}, Selection: r.Perm(callP)[:2]})
	}
	d.Params = fs1.NewSelectModelOptParams()
	d.Params.RootModel = make([]bool, callP)
	d.Params.RootModel[r.Intn(callP)] = true
	d.Text, _ = json.Marshal(d.List)
	var b bytes.Buffer
	for j, s := range d.Names {
		if j > 0 {
			b.WriteByte(',')
		}
		b.WriteString(s)
	}
	b.WriteByte('\n')
	for i := 0; i < callN; i++ {
		for j := 0; j < callP; j++ {
			fmt.Fprintf(&b, "%v,", d.X.At(i, j))
		}
		fmt.Fprintf(&b, "%v\n", d.Y[i])
	}
	d.File = b.Bytes()
	return d
}

func (d *pdata) nd() *fs1.NormalizedData { return d.ND[d.Ver] }

// helpers belong to one thread, which uses them again and again
type helpers struct {
	est *fs1.MorsePenroseCD
	cl  *fs1.CLasso
	sp  *fs1.SearchProgress
}

func newHelpers(p int) *helpers {
	return &helpers{est: &fs1.MorsePenroseCD{}, cl: fs1.NewCLasso(p, 0.2), sp: &fs1.SearchProgress{}}
}

type callOp struct {
	name string
	rnd  bool // the value is random, only its effects are of interest
	f    func(d *pdata, h *helpers) interface{}
}

type any2 struct{ A, B interface{} }
type any3 struct{ A, B, C interface{} }

var callOps = []callOp{
	{"Fit", false, func(d *pdata, h *helpers) interface{} { return fs1.Fit(d.X, d.Y) }},
	{"Fit of a model", false, func(d *pdata, h *helpers) interface{} {
		D := fs1.GetDesignMatrix(d.Model, d.X)
		co := fs1.Fit(D, d.Y)
		return any3{D, co, fs1.Rss(D, co, d.Y)}
	}},
	{"Predict", false, func(d *pdata, h *helpers) interface{} {
		return any3{fs1.Predict(d.X, d.Coeff), fs1.Rss(d.X, d.Coeff, d.Y), fs1.PredictOne(d.X0, d.Coeff)}
	}},
	{"Bounds", false, func(d *pdata, h *helpers) interface{} {
		a, b := fs1.BoundsAICC(d.Model, d.Level, d.X, d.Y)
		e, f := fs1.BoundsAIC(d.Model, d.Level, d.X, d.Y)
		return []float64{a, b, e, f}
	}},
	{"BruteForceSelect", false, func(d *pdata, h *helpers) interface{} { return fs1.BruteForceSelect(d.X, d.Y) }},
	{"SelectModel", false, func(d *pdata, h *helpers) interface{} {
		l := fs1.NewHighscore(3)
		fs1.SelectModel(d.X, d.Y, l, h.sp, d.Params)
		n := l.Items.Front().Value.(*fs1.Node)
		return any3{n.Model, n.Coeff, n.Score}
	}},
	{"CreateChild", false, func(d *pdata, h *helpers) interface{} {
		return any3{fs1.CreateChild(d.Node, true, d.X, d.Y, 0, fs1.NewHighscore(2)), fs1.CreateChild(d.Node, false, d.X, d.Y, 0, d.List), d.Node.GetChildNode(true)}
	}},
	{"SelectModelSA", true, func(d *pdata, h *helpers) interface{} { return fs1.SelectModelSA(d.X, d.Y, 1, fs1.Aicc) }},
	{"Omp", false, func(d *pdata, h *helpers) interface{} { return fs1.Omp(d.X, d.Y, 1e-3) }},
	{"LassoLars", false, func(d *pdata, h *helpers) interface{} { return fs1.LassoLars(d.nd(), 0.5, h.est) }},
	{"LassoLars, begin", false, func(d *pdata, h *helpers) interface{} {
		all := fs1.LassoLars(d.nd(), 0.5, &fs1.MorsePenroseCD{})
		if len(all) < 4 {
			return all
		}
		return any2{fs1.LassoLars(d.nd(), (all[0].Lamb+all[1].Lamb)/2, h.est), fs1.LassoLars(d.nd(), (all[2].Lamb+all[3].Lamb)/2, h.est)}
	}},
	{"LassoLars, one feature", false, func(d *pdata, h *helpers) interface{} {
		all := fs1.LassoLars(d.nd(), 0.01, &fs1.MorsePenroseCD{})
		if len(all) < 2 {
			return all
		}
		return fs1.LassoLars(d.nd(), (all[0].Lamb+all[1].Lamb)/2, h.est)
	}},
	{"LassoCrdDesc", false, func(d *pdata, h *helpers) interface{} {
		return fs1.LassoCrdDesc(d.nd(), d.Lambs[1], d.Cov, d.X0, 100000, 1e-10, &fs1.PureLasso{})
	}},
	{"LassoCrdDesc elastic net", false, func(d *pdata, h *helpers) interface{} {
		return fs1.LassoCrdDesc(d.nd(), d.Lambs[2], d.Cov, d.X0, 100000, 1e-10, d.Pen)
	}},
	{"LassoCrdDesc covariance lasso", false, func(d *pdata, h *helpers) interface{} {
		return fs1.LassoCrdDesc(d.nd(), d.Lambs[2], d.Cov, nil, 100000, 1e-10, h.cl)
	}},
	{"LassoCrdDescPath", false, func(d *pdata, h *helpers) interface{} {
		return fs1.LassoCrdDescPath(d.nd(), d.Cov, d.Lambs, 100000, 1e-10, d.Pen)
	}},
	{"NestedLasso", false, func(d *pdata, h *helpers) interface{} {
		return fs1.NestedLasso(d.DS, 0.5, 0.7, h.est).Paths // Dset is the caller's data set
	}},
	{"NewNormalizedData", false, func(d *pdata, h *helpers) interface{} {
		return fs1.NewNormalizedData(mat.DenseCopyOf(d.X), append([]float64{}, d.Y...))
	}},
	{"Path2Unnormalized", false, func(d *pdata, h *helpers) interface{} {
		p := []*fs1.LassoLarsNode{}
		for _, n := range d.Path.LassoLarsNodes {
			p = append(p, fs1.NewLassoLarsNode(n.Coeff, n.Lamb, n.Selection))
		}
		fs1.Path2Unnormalized(d.nd(), p)
		return p
	}},
	{"GetCriteria", false, func(d *pdata, h *helpers) interface{} {
		return any2{d.Path.GetCriteria(fs1.Aicc), d.Path.GetCriteria(fs1.Bic)}
	}},
	{"path summary", false, func(d *pdata, h *helpers) interface{} {
		a, b := d.Path.MaxMinFeatNo()
		fs1.PrintHighscore(d.Path, d.Path.Aicc, d.Path.Bic, 3)
		return any3{[]int{a, b}, d.Path.PickMostRelevantFeatures(3), d.Path.ExtractPath(2)}
	}},
	{"plots", true, func(d *pdata, h *helpers) interface{} {
		d.Path.PlotPath(nil)
		d.Path.PlotEntranceTimes()
		d.Path.PlotQualityScores()
		d.Path.PlotDeviations()
		return nil
	}},
	{"NewLazyMatrix", false, func(d *pdata, h *helpers) interface{} {
		m := fs1.NewLazyMatrix(d.X, 2)
		return any2{m.FullMatrix(), m.GetCol(m.NumCols() - 1)}
	}},
	{"Gcv", false, func(d *pdata, h *helpers) interface{} {
		D := fs1.DenumMatrixGcv(d.X)
		return any2{D, fs1.Gcv(D, d.Y, fs1.Predict(d.X, d.Coeff))}
	}},
	{"PseudoInverse", false, func(d *pdata, h *helpers) interface{} {
		var svd mat.SVD
		svd.Factorize(d.X, mat.SVDThin)
		return any2{fs1.PseudoInverse(&svd, 1e-6), fs1.PseudoInverseXTX(&svd, 1e-6)}
	}},
	{"covariance", false, func(d *pdata, h *helpers) interface{} {
		return any3{fs1.CovarianceMatrix(d.X), d.Cov.Get(d.X), mat.DenseCopyOf((&fs1.Identity{}).Get(d.X))}
	}},
	{"MulSlice", false, func(d *pdata, h *helpers) interface{} { return fs1.MulSlice(d.X, d.X0) }},
	{"UnsatisfiedKKTConditions", false, func(d *pdata, h *helpers) interface{} {
		return fs1.UnsatisfiedKKTConditions(mat.NewVecDense(d.P, append([]float64{}, d.X0...)), d.Coeff, make([]float64, d.P), 0.3, d.Pen)
	}},
	{"subset", false, func(d *pdata, h *helpers) interface{} {
		s := d.DS.GetSubset(d.Sel)
		return any3{s, d.DS.Copy(), s.FeatNoByName(d.DS.GetFeatName(d.Sel[1]))}
	}},
	{"ParseCSV", false, func(d *pdata, h *helpers) interface{} { return fs1.ParseCSV(bytes.NewReader(d.File), -1) }},
	{"SaveHandle", false, func(d *pdata, h *helpers) interface{} {
		var b bytes.Buffer
		d.DS.SaveHandle(&b)
		return any2{b.String(), fs1.ParseCSV(&b, 2)}
	}},
	{"encode", false, func(d *pdata, h *helpers) interface{} {
		a, _ := json.Marshal(d.List)
		b, _ := json.Marshal(d.Node)
		e, _ := json.Marshal(d.DS)
		return any3{a, b, e}
	}},
	{"decode", false, func(d *pdata, h *helpers) interface{} {
		var l fs1.Highscore
		err := json.Unmarshal(d.Text, &l)
		return any3{l.Items, l.MaxItems, err == nil}
	}},
	{"compare", false, func(d *pdata, h *helpers) interface{} {
		return any3{d.List.Equal(d.List), fs1.NodesEqual(d.Node, d.Node), any3{d.DS.IsEqual(d.DS.Copy()), d.List.Scores(), d.List.BestScore()}}
	}},
	{"CohenKappa", false, func(d *pdata, h *helpers) interface{} { return fs1.CohenKappa(d.Sel, d.Sel2, d.P) }},
	{"extremes", false, func(d *pdata, h *helpers) interface{} {
		return any3{fs1.Argsort(d.Vals), []float64{float64(fs1.Argmin(d.Vals)), float64(fs1.Argmax(d.Vals)), fs1.MinFloat(d.Vals), fs1.Mean(d.Vals), fs1.Std(d.Vals)},
			[]int{fs1.MaxInt(d.Sel), fs1.MinInt(d.Sel), fs1.Sum(d.Sel)}}
	}},
	{"WeightsFromAIC", false, func(d *pdata, h *helpers) interface{} { return fs1.WeightsFromAIC(d.Vals) }},
	{"WeightedAveragedCoeff", false, func(d *pdata, h *helpers) interface{} { return fs1.WeightedAveragedCoeff(d.P, d.Vals, d.Sparse) }},
	{"RearrangeDense", false, func(d *pdata, h *helpers) interface{} { return fs1.RearrangeDense(d.X, d.Sel) }},
	{"IterProduct", false, func(d *pdata, h *helpers) interface{} {
		return any2{fs1.IterProduct(d.Sel2, 3), fs1.Logspace(d.Lambs[0], d.Lambs[3], 5)}
	}},
	{"models", false, func(d *pdata, h *helpers) interface{} {
		return any3{fs1.Gcs(d.Model, d.Level), fs1.Lcs(d.Model, d.Level), any3{fs1.Selected2Model(d.Sel, d.P), fs1.SelectedFeatures(d.Model),
			fs1.FullCoeffVector(d.P, d.Sel2, d.Coeff)}}
	}},
	{"new nodes", false, func(d *pdata, h *helpers) interface{} {
		return any3{fs1.NewNode(1, d.Model), fs1.NewSAItem(d.Model), fs1.NewLassoLarsNode(d.Coeff[:3], 1, d.Sel)}
	}},
	{"insert", false, func(d *pdata, h *helpers) interface{} {
		l := fs1.NewHighscore(3)
		s := fs1.NewSAScore(2)
		for i, v := range d.Vals {
			n := cloneNode(d.Node)
			n.Score = v
			l.Insert(n)
			it := fs1.NewSAItem(d.Model)
			it.Selection[0] = i
			it.Score = v
			s.Insert(it)
		}
		return any2{l.Scores(), s.BestItem.Score}
	}},
	{"L2ConsistentCovTO", true, func(d *pdata, h *helpers) interface{} { return fs1.L2ConsistentCovTO(d.X, 3, 1, 1) }},
	{"RandomRowSplit", true, func(d *pdata, h *helpers) interface{} {
		a, b := fs1.RandomRowSplit(d.X, 4)
		return any2{a, b}
	}},
	{"GetCohensKappa", true, func(d *pdata, h *helpers) interface{} {
		t := fs1.NewPureLassoCohen()
		t.Dset, t.Lamb, t.Cov, t.MaxIter, t.Tol, t.Correction = d.nd(), d.Lambs[2], d.Cov, 1000, 1e-4, &fs1.PureLasso{}
		return fs1.GetCohensKappa(2, t)
	}},
}

// history performs one history; hist are the events of Calls.tla
func (c *ctx) history(hist []map[string]interface{}, ops [2]callOp, src [2]*pdata, obj *pdata) rec {
	events := []rec{}
	ref := map[string][2][]float64{}
	for _, op := range ops {
		var v [2][]float64
		for k := range v {
			d := newPdata(rand.New(rand.NewSource(1)), len(obj.Y), obj.P)
			d.fill(k, src[k])
			d.ND = obj.ND
			var res interface{}
			oc := c.guard(func() { res = op.f(d, newHelpers(obj.P)) })
			if oc != "ok" {
				return rec{"ops": []string{ops[0].name, ops[1].name}, "hist": []rec{{"k": "s", "i": 0, "op": op.name}, {"k": "e", "i": 0, "outcome": oc}}, "outcome": oc}
			}
			v[k] = flatten(res)
		}
		ref[op.name] = v
	}
	obj.fill(0, src[0])
	pristine := [2][]float64{}
	for k := range pristine {
		obj.fill(k, src[k])
		pristine[k] = flatten(obj)
	}
	obj.fill(0, src[0])
	type call struct {
		op   callOp
		res  interface{}
		flat []float64
		oc   string
		done chan bool
	}
	calls := []*call{}
	running := map[int]int{}
	help := map[int]*helpers{}
	args := func() {
		events = append(events, rec{"k": "a", "dev": []int{distance(flatten(obj), pristine[0]), distance(flatten(obj), pristine[1])}})
	}
	for _, ev := range hist {
		t := int(ev["t"].(float64))
		switch ev["k"] {
		case "s":
			op := ops[0]
			if ev["op"] == "b" {
				op = ops[1]
			}
			cl := &call{op: op, done: make(chan bool, 1)}
			running[t] = len(calls)
			if help[t] == nil {
				help[t] = newHelpers(obj.P)
			}
			events = append(events, rec{"k": "s", "i": len(calls), "op": op.name})
			calls = append(calls, cl)
			h := help[t]
			go func() {
				cl.oc = c.guard(func() { cl.res = op.f(obj, h) })
				cl.done <- true
			}()
		case "e":
			i := running[t]
			cl := calls[i]
			<-cl.done
			e := rec{"k": "e", "i": i, "outcome": cl.oc, "rnd": cl.op.rnd, "dev": []int{0, 0}}
			if cl.oc == "ok" {
				cl.flat = flatten(cl.res)
				v := ref[cl.op.name]
				e["dev"] = []int{distance(cl.flat, v[0]), distance(cl.flat, v[1])}
			}
			events = append(events, e)
			delete(running, t)
			if cl.oc == errHang {
				return rec{"ops": []string{ops[0].name, ops[1].name}, "hist": events, "outcome": errHang}
			}
			if len(running) == 0 {
				args()
			}
		case "w":
			v := int(ev["v"].(float64))
			obj.fill(v, src[v])
			events = append(events, rec{"k": "w", "v": v})
		}
	}
	for i, cl := range calls {
		events = append(events, rec{"k": "r", "i": i, "drift": distance(flatten(cl.res), cl.flat)})
	}
	return rec{"ops": []string{ops[0].name, ops[1].name}, "hist": events, "outcome": "ok"}
}

func c31(c *ctx) rec {
	r := c.rng
	all := []rec{}
	lines := c.genLines(12)
	n := len(lines)
	if lines == nil {
		n = 4
	}
	var src [2]*pdata
	var obj *pdata
	P := 4 + r.Intn(4)
	N := P + 4 + r.Intn(10)
	oc := c.guard(func() {
		for k := range src {
			src[k] = newPdata(r, N, P)
		}
		obj = newPdata(r, N, P)
		for k := range src {
			obj.ND[k] = fs1.NewNormalizedData(copyDense(src[k].X), append([]float64{}, src[k].Y...))
		}
	})
	if oc != "ok" {
		return rec{"hist": []rec{{"k": "s", "i": 0, "op": "setup"}, {"k": "e", "i": 0, "outcome": oc}}, "outcome": oc}
	}
	ops := []string{}
	for q := 0; q < n; q++ {
		var hist []map[string]interface{}
		var pair [2]callOp
		if lines != nil {
			if err := json.Unmarshal([]byte(lines[q]), &hist); err != nil {
				panic(err)
			}
			x := c.id*12 + q
			pair = [2]callOp{callOps[x%len(callOps)], callOps[(x+1+x/len(callOps))%len(callOps)]}
		} else { // more threads, all at once
			pair = [2]callOp{callOps[r.Intn(len(callOps))], callOps[r.Intn(len(callOps))]}
			hist = stormHistory(r)
		}
		c.setStage("history of %s and %s: %v", pair[0].name, pair[1].name, hist)
		h := c.history(hist, pair, src, obj)
		all = append(all, h)
		ops = append(ops, pair[0].name, pair[1].name)
		if h["outcome"] != "ok" {
			break
		}
	}
	// one trace for all histories of the case: the calls of each start with an untouched state
	return rec{"hists": all, "ops": ops, "outcome": all[len(all)-1]["outcome"]}
}

// stormHistory has up to six threads and overlaps at will
func stormHistory(r *rand.Rand) []map[string]interface{} {
	res := []map[string]interface{}{}
	T := 2 + r.Intn(5)
	busy := map[int]bool{}
	left := 4 + r.Intn(10)
	v := 0
	for left > 0 || len(busy) > 0 {
		t := r.Intn(T)
		switch {
		case busy[t]:
			if r.Intn(3) == 0 || left == 0 {
				delete(busy, t)
				res = append(res, map[string]interface{}{"k": "e", "t": float64(t)})
			}
		case left > 0:
			if len(busy) == 0 && len(res) > 0 && r.Intn(3) == 0 {
				v = 1 - v
				res = append(res, map[string]interface{}{"k": "w", "t": 0.0, "v": float64(v)})
			}
			busy[t] = true
			left--
			res = append(res, map[string]interface{}{"k": "s", "t": float64(t), "op": []string{"a", "b"}[r.Intn(2)]})
		}
	}
	return res
}
