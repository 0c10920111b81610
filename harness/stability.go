package main

// Drivers of stability selection (C22) and covariance thresholds (C23).

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C22"] = propDef{fn: c22, quick: 160, thorough: 4000, genFile: true, genChunk: 1}
	props["C23"] = propDef{fn: c23, quick: 320, thorough: 6000}
}

// probeTarget records on which rows it is evaluated
type probeTarget struct {
	id, nr, nc int
	kind       int
	seed       int64
	delay      time.Duration
	mu         sync.Mutex
	calls      []rec
	gate       *gate
	val        int // kind 5: kappa of the selections
}

func (t *probeTarget) GetX() mat.Matrix { return mat.NewDense(t.nr, t.nc, nil) }
func (t *probeTarget) HyperParameters() map[string]float64 {
	return map[string]float64{"id": float64(t.id), "x": float64(t.seed % 1000)}
}
func (t *probeTarget) StringRep() string { return fmt.Sprintf("target 100%% %d", t.id) }
func (t *probeTarget) GetSelection(indices []int) []int {
	idx := append([]int{}, indices...)
	if t.delay > 0 {
		time.Sleep(t.delay)
	} else if t.delay < 0 {
		runtime.Gosched()
	}
	if t.gate != nil {
		t.gate.pass(t.id)
	}
	srt := append([]int{}, idx...)
	sort.Ints(srt)
	h := fnv.New64a()
	switch t.kind {
	case 0: // always the same
		fmt.Fprint(h, t.seed)
	case 1: // depends on the rows
		fmt.Fprint(h, t.seed, srt)
	case 2, 3: // opposite on the two halves
		has := len(srt) > 0 && srt[0] == 0
		fmt.Fprint(h, t.seed)
		r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
		sel := []int{}
		for j := 0; j < t.nc; j++ {
			if (r.Intn(2) == 0) == has {
				sel = append(sel, j)
			}
		}
		t.record(idx, sel)
		return sel
	case 5: // a given kappa (nc is even)
		has := len(srt) > 0 && srt[0] == 0
		sel := []int{}
		for j := 0; j < t.nc; j++ {
			if t.val == 1 && j == 0 || t.val == 0 && j == 0 && has || t.val == -1 && (j%2 == 0) == has {
				sel = append(sel, j)
			}
		}
		t.record(idx, sel)
		return sel
	case 4: // nearly the same
		fmt.Fprint(h, t.seed)
		r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
		sel := []int{}
		flip := -1
		if len(srt) > 0 {
			flip = srt[len(srt)/2] % (2 * t.nc)
		}
		for j := 0; j < t.nc; j++ {
			if (r.Intn(2) == 0) != (j == flip) {
				sel = append(sel, j)
			}
		}
		t.record(idx, sel)
		return sel
	}
	r := rand.New(rand.NewSource(int64(h.Sum64() >> 1)))
	sel := append([]int{}, r.Perm(t.nc)[:r.Intn(t.nc+1)]...)
	t.record(idx, sel)
	return sel
}

func (t *probeTarget) record(idx, sel []int) {
	t.mu.Lock()
	t.calls = append(t.calls, rec{"i": idx, "s": append([]int{}, sel...)})
	t.mu.Unlock()
}

func (t *probeTarget) rec() rec {
	cl := t.calls
	if cl == nil {
		cl = []rec{}
	}
	return rec{"id": t.id, "x": t.seed % 1000, "nr": t.nr, "nc": t.nc, "calls": cl}
}

func c22(c *ctx) rec {
	r := c.rng
	mk := func(id int) *probeTarget {
		t := &probeTarget{id: id, nr: 1 + r.Intn(14), nc: 1 + r.Intn(7), kind: r.Intn(5), seed: r.Int63n(1 << 40)}
		switch r.Intn(4) {
		case 0:
			t.delay = time.Duration(r.Intn(300)) * time.Microsecond
		case 1:
			t.delay = -1
		}
		return t
	}
	var g *gate
	if ls := c.genLines(1); ls != nil { // values and a completion order found by TLC
		var gen struct {
			N     int   `json:"n"`
			Val   []int `json:"val"`
			Order []int `json:"order"`
		}
		if err := json.Unmarshal([]byte(ls[0]), &gen); err != nil {
			panic(err)
		}
		ts := make([]*probeTarget, gen.N)
		// each target passes the gate twice
		g = newGate(1<<30, func(keys []int) int {
			for _, o := range gen.Order {
				for i, k := range keys {
					if k == o {
						return i
					}
				}
			}
			return 0
		})
		for i := range ts {
			ts[i] = &probeTarget{id: i + 1, nr: 2 + r.Intn(4), nc: 2 * (1 + r.Intn(3)), kind: 5, seed: r.Int63n(1 << 40), val: gen.Val[i], gate: g}
		}
		return c.kappaSequence(1, ts, g)
	}
	if (c.id-len(c.gen))%16 == 3 { // the same estimate again and again
		ns, nr, seed := 1+r.Intn(3), 10+r.Intn(8), r.Int63n(1<<40)
		trs := []rec{}
		oc := "ok"
		for k := 0; k < 8 && oc == "ok"; k++ {
			t := &probeTarget{nr: nr, nc: 4, kind: 1, seed: seed}
			oc = c.guard(func() { fs1.GetCohensKappa(ns, t) })
			trs = append(trs, t.rec())
		}
		return rec{"type": "again", "outcome": oc, "ns": ns, "targets": trs}
	}
	if (c.id-len(c.gen))%4 == 0 { // one estimate
		t := mk(0)
		ns := 1 + r.Intn(6)
		if (c.id-len(c.gen))%8 == 0 {
			ns = 40
			t.nr = 6 + r.Intn(9)
			t.delay = 0
		}
		if (c.id-len(c.gen))%16 == 4 { // many rows
			t.nr = 15 + r.Intn(300)
		}
		var kappa float64
		c.setStage("GetCohensKappa %d", ns)
		oc := c.guard(func() { kappa = fs1.GetCohensKappa(ns, t) })
		return rec{"type": "one", "outcome": oc, "ns": ns, "targets": []rec{t.rec()}, "sum": sc(kappa*float64(ns), 1e6)}
	}
	if (c.id-len(c.gen))%4 == 1 {
		return c22lasso(c)
	}
	n := 1 + r.Intn(12)
	switch r.Intn(5) {
	case 0:
		n = 14 + r.Intn(30)
		if r.Intn(3) == 0 {
			n = 100 + r.Intn(200)
		}
	case 1:
		n = 15 + r.Intn(4)
	case 2:
		if r.Intn(4) == 0 {
			n = 0
		}
	}
	ns := 1 + r.Intn(3)
	ts := make([]*probeTarget, n)
	neg := r.Intn(3) == 0
	bad := r.Intn(3) == 0
	for i := range ts {
		ts[i] = mk(i + 1)
		if neg { // nothing is stable
			ts[i].kind = 2
		}
		if bad { // one slow, stable target among unstable ones
			ts[i].kind = 1 + r.Intn(2)
			ts[i].delay = 0
		}
	}
	if bad && n > 0 {
		k := r.Intn(n)
		ts[k].kind = 0
		ts[k].delay = time.Duration(r.Intn(2000)) * time.Microsecond
	}
	if r.Intn(4) == 0 && n > 0 {
		g = newGate(minI(n, 16), policy(r))
		for _, t := range ts {
			t.delay, t.gate = 0, g
		}
	}
	return c.kappaSequence(ns, ts, g)
}

func (c *ctx) kappaSequence(ns int, ts []*probeTarget, g *gate) rec {
	n := len(ts)
	if g != nil {
		defer g.close()
	}
	arg := make([]fs1.CohensKappaTarget, n)
	for i := range ts {
		arg[i] = ts[i]
	}
	base := runtime.NumGoroutine()
	var hyper map[string]float64
	leak := 0
	c.setStage("CalculateCohenSequence %d targets, %d samples", n, ns)
	oc := ""
	printed := c.captured(func() { oc = c.guard(func() { hyper = fs1.CalculateCohenSequence(ns, arg) }) })
	if g != nil {
		g.close()
		base-- // the goroutine of the gate
	}
	if oc == "ok" {
		leak = settle(base)
	}
	trs := []rec{}
	for _, t := range ts {
		t.mu.Lock()
		trs = append(trs, t.rec())
		t.mu.Unlock()
	}
	id, x := -1, -1
	if v, ok := hyper["id"]; ok && len(hyper) == 2 {
		id, x = int(v), int(hyper["x"])
	}
	return rec{"type": "seq", "outcome": oc, "ns": ns, "targets": trs, "best": id, "bestx": x, "leak": leak, "none": hyper == nil, "log": kappaLog(printed)}
}

// kappaLog lists the targets named in the output, with the agreement printed after the name in units of 1e-3
func kappaLog(out string) [][]int {
	log := [][]int{}
	for _, l := range strings.Split(out, "\n") {
		if i := strings.Index(l, "target"); i >= 0 {
			w := strings.Fields(l[i:])
			id, v := -1, float64(numInf)
			if len(w) > 3 && w[1] == "100%" {
				if k, err := strconv.Atoi(w[2]); err == nil {
					id = k
				}
				if x, err := strconv.ParseFloat(w[len(w)-1], 64); err == nil {
					v = x
				}
			}
			log = append(log, []int{id, sc(v, 1e3)})
		}
	}
	return log
}

// ownLasso is a plain coordinate descent on normalised data (the harness' own)
func ownLasso(q *zdata, lamb, l2 float64) []float64 {
	b := make([]float64, q.p)
	res := append([]float64{}, q.y...)
	n := float64(q.n)
	for it := 0; it < 20000; it++ {
		ch := 0.0
		for j := 0; j < q.p; j++ {
			ss, a := 0.0, 0.0
			for i := range res {
				ss += q.cols[j][i] * q.cols[j][i]
				a += q.cols[j][i] * res[i]
			}
			if ss < 1e-12 {
				continue
			}
			a = a/n + ss/n*b[j]
			v := 0.0
			if a > lamb {
				v = (a - lamb) / (ss/n + l2)
			} else if a < -lamb {
				v = (a + lamb) / (ss/n + l2)
			}
			if dv := v - b[j]; dv != 0 {
				for i := range res {
					res[i] -= dv * q.cols[j][i]
				}
				b[j] = v
				ch = math.Max(ch, math.Abs(dv))
			}
		}
		if ch < 1e-12 {
			break
		}
	}
	return b
}

// c22lasso: the lasso targets of the library select what the lasso on exactly the given rows selects
func c22lasso(c *ctx) rec {
	r := c.rng
	n, p := 20+r.Intn(30), 2+r.Intn(6)
	d := randF(r, n, p, p > 2 && r.Intn(3) == 0)
	lamb := math.Exp(-r.Float64()*4) * 0.8
	l2 := 0.0
	X, y := d.clone()
	type target interface {
		fs1.CohensKappaTarget
	}
	kind := r.Intn(3)
	var t target
	oc := c.guard(func() {
		pl := fs1.NewPureLassoCohen()
		cl := fs1.NewCLassoCohen()
		if kind == 2 {
			pl = cl.PLasso
			cl.Eta = 0.25
		}
		if r.Intn(2) == 0 { // a target that was used for other data
			pl.Dset = func() *fs1.NormalizedData {
				e := randF(r, 20, 1+r.Intn(8), false)
				X, y := e.clone()
				return fs1.NewNormalizedData(X, y)
			}()
			pl.Lamb, pl.Cov, pl.MaxIter, pl.Tol, pl.Correction = 0.1, &fs1.Empirical{}, 1000, 1e-6, &fs1.PureLasso{}
			pl.GetSelection(r.Perm(20))
		}
		pl.Dset = fs1.NewNormalizedData(X, y)
		pl.Lamb = lamb
		pl.Cov = &fs1.Empirical{}
		pl.MaxIter = 100000
		pl.Tol = 1e-9
		pl.Correction = &fs1.PureLasso{}
		if kind == 1 {
			l2 = 0.3
			pl.Correction = &fs1.ElasticNet{Lamb: l2}
		}
		if kind == 2 && r.Intn(2) == 0 { // the covariance lasso, whose correction has state
			l2 = 0.25
			pl.Correction = fs1.NewCLasso(p, l2)
		}
		t = pl
		if kind == 2 {
			t = cl
		}
	})
	out := rec{"type": "lasso", "outcome": oc, "nc": p}
	if oc != "ok" {
		return out
	}
	obs := []rec{}
	for k := 0; k < 3; k++ {
		rows := append([]int{}, r.Perm(n)[:10+r.Intn(n-10)]...)
		keep := append([]int{}, rows...)
		var sel []int
		c.setStage("lasso target GetSelection lamb=%g", lamb)
		oc := c.guard(func() { sel = t.GetSelection(rows) })
		if oc != "ok" {
			out["outcome"] = oc
			return out
		}
		sub := &fdata{n: len(rows), p: p, X: newDense(len(rows), p), y: make([]float64, len(rows))}
		for i, ri := range keep {
			for j := 0; j < p; j++ {
				sub.X.Set(i, j, d.X.At(ri, j))
			}
			sub.y[i] = d.y[ri]
		}
		q := sub.z()
		b := ownLasso(q, lamb, l2)
		g := q.corr(b)
		must, mustnot := []int{}, []int{}
		for j := range b {
			if math.Abs(b[j]) > 1e-4 {
				must = append(must, j)
			}
			if b[j] == 0 && math.Abs(g[j])/float64(q.n) < lamb*(1-1e-4) {
				mustnot = append(mustnot, j)
			}
		}
		obs = append(obs, rec{"sel": ints(sel), "must": must, "not": mustnot, "kept": fmt.Sprint(rows) == fmt.Sprint(keep)})
	}
	hyper := t.HyperParameters()
	out["hyper"] = hyper["lamb"] == lamb && (kind != 2 && len(hyper) == 1 || kind == 2 && hyper["eta"] == 0.25 && len(hyper) == 2)
	out["obs"] = obs
	nr, nc := t.GetX().Dims()
	out["dims"] = nr == n && nc == p
	return out
}

// ---------------------------------------------------------------------------------- C23

// thresholdOf finds the threshold of an operator through its effect (bisection on the logarithm)
func thresholdOf(op *fs1.ThresholdOperator) float64 {
	kept := func(x float64) bool {
		m := mat.NewDense(1, 1, []float64{x})
		op.Apply(m)
		return m.At(0, 0) != 0
	}
	lo, hi := math.Log(1e-300), math.Log(1e300)
	if !kept(1e300) {
		return math.Inf(1)
	}
	if kept(1e-300) {
		return 0
	}
	for i := 0; i < 200 && hi-lo > 1e-13; i++ {
		m := (lo + hi) / 2
		if kept(math.Exp(m)) {
			hi = m
		} else {
			lo = m
		}
	}
	return math.Exp(hi)
}

func covOf(rows [][]float64) *mat.SymDense {
	p := len(rows[0])
	n := float64(len(rows))
	mu := make([]float64, p)
	for _, x := range rows {
		for j := range x {
			mu[j] += x[j] / n
		}
	}
	cv := mat.NewSymDense(p, nil)
	for a := 0; a < p; a++ {
		for b := a; b < p; b++ {
			s := 0.0
			for _, x := range rows {
				s += (x[a] - mu[a]) * (x[b] - mu[b])
			}
			cv.SetSym(a, b, s/n)
		}
	}
	return cv
}

func fdist(a, b mat.Matrix, thr float64) float64 {
	nr, nc := a.Dims()
	s := 0.0
	for i := 0; i < nr; i++ {
		for j := 0; j < nc; j++ {
			v := a.At(i, j)
			if math.Abs(v) < thr {
				v = 0
			}
			s += (v - b.At(i, j)) * (v - b.At(i, j))
		}
	}
	return math.Sqrt(s)
}

func c23(c *ctx) rec {
	switch c.id % 9 {
	case 0, 4:
		return c23ops(c)
	case 1, 5:
		return c23search(c, true)
	case 8:
		return c23sparse(c)
	}
	return c23search(c, false)
}

// c23sparse: the sparse covariance estimator thresholds the empirical covariance with a threshold that is close to optimal
func c23sparse(c *ctx) rec {
	r := c.rng
	n, p := 5+r.Intn(3), 2+r.Intn(4)
	X := newDense(n, p)
	for j := 0; j < p; j++ {
		amp := math.Exp(0.5 - r.Float64()*5)
		for i := 0; i < n; i++ {
			X.Set(i, j, amp*r.NormFloat64())
		}
	}
	const ng, ns = 9, 1000
	n1 := int(float64(n) * (1. - 1./math.Log(float64(n))))
	vecs := [][]float64{}
	top := 1e-12
	for m := 0; m < 1<<uint(n); m++ {
		if popcount(m) != n1 {
			continue
		}
		var a, b [][]float64
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				a = append(a, X.RawRowView(i))
			} else {
				b = append(b, X.RawRowView(i))
			}
		}
		ca, cb := covOf(a), covOf(b)
		v := make([]float64, ng)
		for j := range v {
			v[j] = fdist(ca, cb, math.Exp(-10+float64(j)))
			top = math.Max(top, v[j])
		}
		vecs = append(vecs, v)
	}
	S := 1e6 / top
	means, slacks := [][]int{}, [][]int{}
	for j := 0; j < ng; j++ {
		mean, slack := make([]int, ng), make([]int, ng)
		for k := 0; k < ng; k++ {
			mu, s2 := 0.0, 0.0
			for _, v := range vecs {
				dv := v[j] - v[k]
				mu += dv
				s2 += dv * dv
			}
			mu /= float64(len(vecs))
			s2 = math.Max(0, s2/float64(len(vecs))-mu*mu)
			mean[k], slack[k] = sc(mu, S), sc(8*math.Sqrt(s2/float64(ns)), S)+2
		}
		means, slacks = append(means, mean), append(slacks, slack)
	}
	emp := mat.NewDense(p, p, nil)
	emp.Mul(X.T(), X)
	emp.Scale(1/float64(n), emp)
	// entries as the number of grid thresholds that keep them
	above := make([][]int, p)
	for i := range above {
		above[i] = make([]int, p)
		for j := range above[i] {
			for k := 0; k < ng; k++ {
				t := math.Exp(-10 + float64(k))
				if v := math.Abs(emp.At(i, j)); math.Abs(v/t-1) < 1e-9 {
					return c23ops(c)
				} else if v > t {
					above[i][j]++
				}
			}
		}
	}
	keep := mat.DenseCopyOf(X)
	var got, again mat.Matrix
	base := runtime.NumGoroutine()
	c.setStage("NewSparseThreshold n=%d p=%d", n, p)
	other := ""
	oc := c.guard(func() {
		sp := fs1.NewSparseThreshold(X)
		got = mat.DenseCopyOf(sp.Get(X))
		again = sp.Get(mat.DenseCopyOf(X))
		Z := mat.DenseCopyOf(X)
		zi, zj := r.Intn(n), r.Intn(p)
		Z.Set(zi, zj, Z.At(zi, zj)+[]float64{10, -10, 1e-2, 1e-5, -1e-6}[r.Intn(5)])
		defer func() {
			if recover() != nil {
				other = "refused"
			}
		}()
		sp.Get(Z)
	})
	out := rec{"type": "sparse", "outcome": oc}
	if oc != "ok" {
		return out
	}
	out["leak"], out["kept"] = settle(base), mat.Equal(X, keep)
	top = 1e-300
	for i := 0; i < p; i++ {
		top = math.Max(top, emp.At(i, i))
	}
	out["ng"], out["p"], out["mean"], out["slack"], out["above"], out["other"] = ng, p, means, slacks, above, other
	out["emp"], out["same"] = flat(emp, 1e9/top), mat.Equal(got, again)
	out["got"] = flat(got, 1e9/top)
	zero := make([][]bool, p)
	for i := range zero {
		zero[i] = make([]bool, p)
		for j := range zero[i] {
			zero[i][j] = got.At(i, j) == 0
		}
	}
	out["zero"] = zero
	return out
}

// c23search: few rows, so that all partitions can be listed; or many samples, so that their average is close to the expectation
func c23search(c *ctx, many bool) rec {
	r := c.rng
	n := []int{4, 5, 6, 6, 7, 7, 8}[r.Intn(7)]
	p := 1 + r.Intn(4)
	if many {
		n = []int{5, 6, 7}[r.Intn(3)]
	}
	X := newDense(n, p)
	amp := math.Exp(-r.Float64() * 3)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, amp*r.NormFloat64())
		}
		if p > 1 && r.Intn(2) == 0 {
			X.Set(i, 1, X.At(i, 0)*0.9+0.1*X.At(i, 1))
		}
	}
	step := []float64{0.1, 0.25, 0.5, 0.7, 1.0, 2.0, 4.0, 5.0, 9.0}[r.Intn(9)]
	if step < 0.2 && !many && r.Intn(2) == 0 {
		step = 0.5
	}
	ng := int(9.0 / step)
	ns := 1 + r.Intn(2)
	if many {
		ns = 400
	}
	n1 := int(float64(n) * (1. - 1./math.Log(float64(n))))
	// all partitions
	vecs := [][]float64{}
	for m := 0; m < 1<<uint(n); m++ {
		if popcount(m) != n1 {
			continue
		}
		var a, b [][]float64
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				a = append(a, X.RawRowView(i))
			} else {
				b = append(b, X.RawRowView(i))
			}
		}
		ca, cb := covOf(a), covOf(b)
		v := make([]float64, ng)
		for j := range v {
			v[j] = fdist(ca, cb, math.Exp(-10+float64(j)*step))
		}
		vecs = append(vecs, v)
	}
	top := 1e-12
	for _, v := range vecs {
		for _, x := range v {
			top = math.Max(top, x)
		}
	}
	S := 1e6 / top
	keep := mat.DenseCopyOf(X)
	base := runtime.NumGoroutine()
	leak := 0
	thr := 0.0
	c.setStage("L2ConsistentCovTO n=%d p=%d ns=%d step=%g", n, p, ns, step)
	oc := c.guard(func() {
		op := fs1.L2ConsistentCovTO(X, ns, 1.0, step)
		thr = thresholdOf(op)
	})
	if oc == "ok" {
		leak = settle(base)
	}
	j := int(math.Round((math.Log(thr) + 10) / step))
	exact := thr > 0 && !math.IsInf(thr, 0) && math.Abs(math.Log(thr)-(-10+float64(j)*step)) < 1e-9
	out := rec{"type": "few", "outcome": oc, "ns": ns, "ng": ng, "n": n, "p": p, "j": j, "exact": exact, "leak": leak, "kept": mat.Equal(X, keep)}
	// differences to the chosen grid point, distinct rows only: the specification looks for partitions that make j optimal
	if many {
		out["type"] = "many"
		// mean over all partitions and the size of its fluctuation: 8 standard errors of the paired difference
		mean := make([]int, ng)
		slack := make([]int, ng)
		for k := 0; k < ng; k++ {
			mu, s2 := 0.0, 0.0
			for _, v := range vecs {
				if j >= 0 && j < ng {
					dv := v[j] - v[k]
					mu += dv
					s2 += dv * dv
				}
			}
			mu /= float64(len(vecs))
			s2 = math.Max(0, s2/float64(len(vecs))-mu*mu)
			mean[k] = sc(mu, S)
			slack[k] = sc(8*math.Sqrt(s2/float64(ns)), S) + 2
		}
		out["mean"], out["slack"] = mean, slack
		return out
	}
	seen := map[string]bool{}
	rows := [][]int{}
	for _, v := range vecs {
		t := scs(v, S)
		k := fmt.Sprint(t)
		if !seen[k] {
			seen[k] = true
			rows = append(rows, t)
		}
	}
	out["vecs"] = rows
	return out
}

// c23ops: the operator, covariance matrices and row splits
func c23ops(c *ctx) rec {
	r := c.rng
	n, p := 4+r.Intn(8), 1+r.Intn(5)
	if r.Intn(8) == 0 {
		n = 100 + r.Intn(300)
	}
	d := newIdata(n, p, "ops")
	for i := range d.X {
		for j := range d.X[i] {
			d.X[i][j] = ri(r, -9, 9)
		}
	}
	X := newDense(n, p) // rows are told apart by their first column
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			X.Set(i, j, float64((i+1)*100+j))
		}
	}
	num := 1 + r.Intn(n-1)
	if n >= 100 && r.Intn(2) == 0 {
		num = n / 2
	}
	var a, b *mat.Dense
	var cov, emp, id mat.Matrix
	c.setStage("RandomRowSplit %d of %d", num, n)
	firsts := [][]int{}
	oc := c.guard(func() {
		a, b = fs1.RandomRowSplit(X, num)
		for k := 0; k < 40; k++ {
			u, _ := fs1.RandomRowSplit(X, num)
			f := make([]int, num)
			for i := range f {
				f[i] = int(u.At(i, 0))/100 - 1
			}
			firsts = append(firsts, f)
		}
	})
	out := rec{"type": "ops", "outcome": oc}
	if oc != "ok" {
		return out
	}
	ar, ac := a.Dims()
	br, bc := b.Dims()
	out["n"], out["p"], out["num"] = n, p, num
	out["a"], out["b"] = flat(a, 1), flat(b, 1)
	out["dims"] = ar == num && br == n-num && ac == p && bc == p
	out["firsts"] = firsts
	// covariance of integers: exact after multiplication with n^2 (or n)
	c.setStage("CovarianceMatrix")
	oc = c.guard(func() {
		D := d.dense()
		if n < 20 && r.Intn(3) == 0 { // the covariance does not depend on the origin
			for j := 0; j < p; j++ {
				off := float64(r.Intn(3)-1) * 3e5
				for i := 0; i < n; i++ {
					D.Set(i, j, D.At(i, j)+off)
				}
			}
		}
		cov = fs1.CovarianceMatrix(D)
		emp = (&fs1.Empirical{}).Get(d.dense())
		id = (&fs1.Identity{}).Get(d.dense())
	})
	if oc != "ok" {
		out["outcome"] = oc
		return out
	}
	out["X"] = intRows(d.X)
	nn := float64(n * n)
	out["cov"], out["emp"], out["ident"] = flat(cov, nn*100), flat(emp, float64(n)*100), flat(id, 100)
	// the operator of a search on a probe matrix
	step := []float64{0.5, 1.0, 2.0, 3.0}[r.Intn(4)]
	Y := newDense(n, p)
	for i := 0; i < n; i++ {
		for j := 0; j < p; j++ {
			Y.Set(i, j, math.Exp(-1.5*r.Float64())*r.NormFloat64())
		}
	}
	var op *fs1.ThresholdOperator
	c.setStage("L2ConsistentCovTO (probe)")
	thr := 0.0
	var before, after []int
	var cnt, cnt2 int
	kept := true
	oc = c.guard(func() {
		op = fs1.L2ConsistentCovTO(Y, 3, 1.0, step)
		thr = thresholdOf(op)
		nr, nc := 1+r.Intn(6), 1+r.Intn(6)
		if r.Intn(4) == 0 {
			nr, nc = 6+r.Intn(20), 6+r.Intn(20)
		}
		m := mat.NewDense(nr, nc, nil)
		q := mat.NewDense(nr, nc, nil)
		S := 1e8 / (3 * thr)
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				v := thr * (2*r.Float64() - 1) * 2
				switch r.Intn(6) {
				case 0:
					v = 0
				case 1:
					v = thr * (1 - 1e-6)
				case 2:
					v = -thr * (1 + 1e-6)
				case 3:
					v = -thr * (1 - 1e-6)
				}
				m.Set(i, j, v)
				q.Set(i, j, v)
				before = append(before, sc(v, S))
			}
		}
		op.Apply(m)
		cnt = removedOf(op)
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				v := m.At(i, j)
				kept = kept && (v == 0 || v == q.At(i, j))
				after = append(after, sc(v, S))
			}
		}
		op.Apply(m) // a second time: the zeros are below the threshold as well
		cnt2 = removedOf(op)
	})
	if oc != "ok" {
		out["outcome"] = oc
		return out
	}
	out["thr"] = int(math.Round(1e8 / 3))
	out["before"], out["after"], out["cnt"], out["cnt2"], out["unchanged"] = before, after, cnt, cnt2, kept
	// exactness of the comparison, when the operator can be looked into
	out["edge"] = true
	if f := reflect.ValueOf(op).Elem().FieldByName("threshold"); f.IsValid() && f.Kind() == reflect.Float64 {
		t := f.Float()
		m := mat.NewDense(1, 4, []float64{t, math.Nextafter(t, 0), -t, -math.Nextafter(t, 0)})
		op.Apply(m)
		out["edge"] = m.At(0, 0) == t && m.At(0, 1) == 0 && m.At(0, 2) == -t && m.At(0, 3) == 0
	}
	return out
}

// removedOf reads the counter of the operator (-1: there is none)
func removedOf(op *fs1.ThresholdOperator) int {
	if f := reflect.ValueOf(op).Elem().FieldByName("numRemoved"); f.IsValid() && f.Kind() == reflect.Int {
		return int(f.Int())
	}
	return -1
}
