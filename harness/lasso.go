package main

// Drivers of the lasso family: C12, C13, C14, C15, C16, C17.

import (
	"encoding/json"
	"fmt"
	"math"
	"math/bits"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/plotter"
)

func init() {
	props["C12"] = propDef{fn: c12, quick: 1440, thorough: 32000, genFile: true, genChunk: 20}
	props["C13"] = propDef{fn: c13, quick: 190, thorough: 4000, genFile: true, genChunk: 1}
	props["C14"] = propDef{fn: c14, quick: 1440, thorough: 32000, genFile: true, genChunk: 20}
	props["C15"] = propDef{fn: c15, quick: 1440, thorough: 32000}
	props["C16"] = propDef{fn: c16, quick: 900, thorough: 30000, genFile: true, genChunk: 1}
	props["C17"] = propDef{fn: c17, quick: 720, thorough: 16000, genFile: true, genChunk: 1}
}

// fdata is a data set of floats in general position
type fdata struct {
	n, p int
	X    *mat.Dense
	y    []float64
	bias bool
}

func (d *fdata) clone() (*mat.Dense, []float64) {
	return copyDense(d.X), append([]float64{}, d.y...)
}

func randF(r *rand.Rand, n, p int, bias bool) *fdata {
	d := &fdata{n: n, p: p, X: newDense(n, p), y: make([]float64, n), bias: bias}
	kind := r.Intn(5)
	for i := 0; i < n; i++ {
		z := r.NormFloat64()
		for j := 0; j < p; j++ {
			v := r.NormFloat64()
			switch kind {
			case 1: // one common factor
				v = v + 1.5*z
			case 2: // scales and offsets
				v = v*math.Exp(float64(j%5)-2) + float64(3*j-5)
			case 3: // chain
				if j > 0 {
					v = 0.8*d.X.At(i, j-1) + 0.6*v
				}
			case 4: // counts
				v = float64(r.Intn(12)) + 0.01*v
			}
			d.X.Set(i, j, v)
		}
		if bias {
			d.X.Set(i, 0, 1)
		}
	}
	nz := 1 + r.Intn(p)
	amp := math.Exp(r.Float64()*4 - 2)
	noise := math.Exp(r.Float64()*5 - 4)
	off := r.NormFloat64() * 3
	for i := range d.y {
		d.y[i] = off + noise*r.NormFloat64()
	}
	for _, j := range r.Perm(p)[:nz] {
		b := amp * r.NormFloat64()
		for i := range d.y {
			d.y[i] += b * d.X.At(i, j)
		}
	}
	return d
}

// zscore is the harness' own normalisation (unit variance with n-1, zero mean; a constant column becomes zero)
func zscore(v []float64) (z []float64, mu, std float64) {
	n := float64(len(v))
	for _, x := range v {
		mu += x
	}
	mu /= n
	for _, x := range v {
		std += (x - mu) * (x - mu)
	}
	std = math.Sqrt(std / (n - 1))
	z = make([]float64, len(v))
	if std < 1e-10 {
		return z, mu, 0
	}
	for i, x := range v {
		z[i] = (x - mu) / std
	}
	return z, mu, std
}

type zdata struct {
	n, p    int
	cols    [][]float64
	y       []float64
	mu, std []float64
	muY, sY float64
}

func (d *fdata) z() *zdata {
	q := &zdata{n: d.n, p: d.p}
	q.y, q.muY, q.sY = zscore(d.y)
	for j := 0; j < d.p; j++ {
		c, m, s := zscore(mat.Col(nil, j, d.X))
		q.cols = append(q.cols, c)
		q.mu = append(q.mu, m)
		q.std = append(q.std, s)
	}
	return q
}

// corr returns X^T (y - X beta)
func (q *zdata) corr(beta []float64) []float64 {
	res := append([]float64{}, q.y...)
	for j, b := range beta {
		if b != 0 {
			for i := range res {
				res[i] -= b * q.cols[j][i]
			}
		}
	}
	c := make([]float64, q.p)
	for j := range c {
		for i := range res {
			c[j] += q.cols[j][i] * res[i]
		}
	}
	return c
}

func maxAbs(v []float64) float64 {
	m := 0.0
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}

func full(p int, sel []int, co []float64) []float64 {
	b := make([]float64, p)
	for i, s := range sel {
		if s >= 0 && s < p && i < len(co) {
			b[s] = co[i]
		}
	}
	return b
}

func sgn(x float64) int {
	if x > 0 {
		return 1
	}
	if x < 0 {
		return -1
	}
	return 0
}

func sgns(v []float64, eps float64) []int {
	t := make([]int, len(v))
	for i, x := range v {
		if math.Abs(x) > eps {
			t[i] = sgn(x)
		}
	}
	return t
}

// ---------------------------------------------------------------------------------- C12

// countCorr counts the sweeps of a solver (it converged iff there were fewer than allowed) and can delay them
type countCorr struct {
	fs1.LassoCorrection
	n     int64
	delay func()
}

func (cc *countCorr) Update(beta []float64) {
	atomic.AddInt64(&cc.n, 1)
	if cc.delay != nil {
		cc.delay()
	}
	cc.LassoCorrection.Update(beta)
}

// mixedCov is an estimator with a diagonal different from one
type mixedCov struct{ scale, mix float64 }

func (m *mixedCov) Get(X mat.Matrix) mat.Matrix {
	n, p := X.Dims()
	S := newDense(p, p)
	for i := 0; i < p; i++ {
		for j := 0; j < p; j++ {
			v := 0.0
			for k := 0; k < n; k++ {
				v += X.At(k, i) * X.At(k, j)
			}
			v *= (1 - m.mix) / float64(n)
			if i == j {
				v += m.mix
			}
			S.Set(i, j, m.scale*v)
		}
	}
	return S
}

func c12(c *ctx) rec {
	r := c.rng
	if c.id*20 < len(c.gen) || r.Intn(12) == 0 {
		return c.tinyCd(c.tinyProblems(20, 8))
	}
	runs := []rec{}
	n := 5 + r.Intn(40)
	p := 2 + r.Intn(10)
	if r.Intn(6) == 0 { // more features than rows
		n, p = 5+r.Intn(4), 8+r.Intn(10)
	}
	if r.Intn(10) == 0 {
		n, p = 30+r.Intn(60), 12+r.Intn(30)
	}
	bias := r.Intn(3) == 0
	if bias && p < 3 {
		p = 3
	}
	d := randF(r, n, p, bias)
	q := d.z()
	Xy := q.corr(make([]float64, p))
	for j := range Xy {
		Xy[j] /= float64(n)
	}
	lmax := maxAbs(Xy)
	X, y := d.clone()
	var nd *fs1.NormalizedData
	oc := c.guard(func() { nd = fs1.NewNormalizedData(X, y) })
	if oc != "ok" {
		return rec{"runs": []rec{{"outcome": oc}}}
	}
	var prev []float64
	for k := 0; k < 5; k++ {
		lamb := lmax * math.Exp(-r.Float64()*5)
		if r.Intn(8) == 0 {
			lamb = lmax * (1 + r.Float64())
		}
		tol := []float64{1e-3, 1e-5, 1e-7, 1e-9}[r.Intn(4)]
		if r.Intn(6) == 0 && n*p < 400 { // almost no regularisation
			lamb, tol = lmax*math.Exp(-5-r.Float64()*8), 1e-10
		}
		if r.Intn(8) == 0 { // hardly anything is selected
			lamb = lmax * (1 - math.Exp(-2-7*r.Float64()))
		}
		l2 := 0.0
		var base fs1.LassoCorrection = &fs1.PureLasso{}
		kind := "pure"
		switch r.Intn(5) {
		case 0:
			l2 = r.Float64() * 0.4
			base, kind = &fs1.ElasticNet{Lamb: l2}, "elastic"
		case 1:
			l2 = r.Float64() * 0.4
			base, kind = fs1.NewCLasso(p, l2), "classo"
		}
		ident := r.Intn(5) == 0
		var cov fs1.CovMat = &fs1.Empirical{}
		cname := "empirical"
		scale, mix := 1.0, 0.0
		if ident {
			cov, cname = &fs1.Identity{}, "identity"
		} else if r.Intn(5) == 0 { // an estimator of the caller
			scale, mix = math.Exp(r.Float64()*1.4-0.7), r.Float64()
			l2 *= scale * 0.9
			if e, ok := base.(*fs1.ElasticNet); ok {
				e.Lamb = l2
			} else if kind == "classo" {
				base = fs1.NewCLasso(p, l2)
			}
			cov, cname = &mixedCov{scale, mix}, "shrunk"
		}
		var x0 []float64
		switch r.Intn(5) {
		case 0:
		case 1:
			x0 = make([]float64, p)
		case 2: // a previous solution
			x0 = append([]float64{}, prev...)
			if prev == nil {
				x0 = nil
			}
		case 3: // far away
			x0 = make([]float64, p)
			for j := range x0 {
				x0[j] = 3 * r.NormFloat64()
			}
			if bias && r.Intn(2) == 0 {
				x0[0] = 0
			}
		case 4: // sparse and wrong
			x0 = make([]float64, p)
			x0[p-1-r.Intn((p+1)/2)] = r.NormFloat64()
		}
		x0in := append([]float64{}, x0...)
		maxIter := 200000
		if r.Intn(12) == 0 {
			maxIter = 1 + r.Intn(3)
		}
		cc := &countCorr{LassoCorrection: base}
		var beta []float64
		c.setStage("LassoCrdDesc n=%d p=%d bias=%v lamb=%g kind=%s ident=%v x0=%v", n, p, bias, lamb, kind, ident, x0)
		oc := c.guard(func() { beta = fs1.LassoCrdDesc(nd, lamb, cov, x0, maxIter, tol, cc) })
		if oc == "ok" && r.Intn(2) == 0 { // the same problem without the counter around the correction
			if kind == "classo" {
				base = fs1.NewCLasso(p, l2)
			}
			oc = c.guard(func() { beta = fs1.LassoCrdDesc(nd, lamb, cov, x0, maxIter, tol, base) })
		}
		run := rec{"outcome": oc, "kind": kind, "cov": cname, "bias": bias}
		if oc == "ok" {
			// (1/n) X^T (y - X beta) - l2 beta, or with the identity (1/n) X^T y - beta - l2 beta
			g := q.corr(beta)
			for j := range g {
				g[j] /= float64(n)
				if ident {
					g[j] = Xy[j] - beta[j]
				} else if cname == "shrunk" { // Xy - scale*((1-mix)*S + mix*I) beta
					g[j] = Xy[j] - scale*((1-mix)*(Xy[j]-g[j])+mix*beta[j])
				}
				g[j] -= l2 * beta[j]
			}
			// what the stopping rule promises: every coordinate was optimal before the others moved by at most tol * max coefficient
			eps := (float64(p)*2+1)*tol*maxAbs(beta)*math.Max(1, scale) + 2e-6*lamb + 1e-9*math.Max(1, maxAbs(x0in)) + 1e-10
			small := 0.0
			for _, b := range beta {
				small += b * b
			}
			run["conv"] = cc.n < int64(maxIter)
			run["tiny"] = kind == "classo" && small < 1e-8
			run["len"] = len(beta)
			run["p"] = p
			S := 1e9 / math.Max(lamb, maxAbs(g))
			run["lamb"], run["tol"] = sc(lamb, S), minI(sc(eps, S)+3, 900000000)
			run["g"] = scs(g, S)
			run["s"] = sgns(beta, 1e-16)
			run["kept"] = fmt.Sprint(x0) == fmt.Sprint(x0in) || (x0 == nil && len(x0in) == 0)
			prev = beta
		} else {
			run["conv"] = true
		}
		runs = append(runs, run)
	}
	// the data are left alone
	Z := true
	for j := range q.cols {
		for i := range q.cols[j] {
			Z = Z && math.Abs(X.At(i, j)-q.cols[j][i]) < 1e-8
		}
	}
	corrs := []rec{}
	for k := 0; k < 3; k++ {
		corrs = append(corrs, c.corrections(1+r.Intn(6)))
	}
	return rec{"runs": runs, "data": Z, "corrs": corrs}
}

// corrections: the derivatives of the penalties for integer coefficients and strengths that are multiples of 1/4
func (c *ctx) corrections(p int) rec {
	r := c.rng
	eta := r.Intn(9)
	old, now := make([]int, p), make([]int, p)
	fo, fn := make([]float64, p), make([]float64, p)
	zero := r.Intn(6) == 0
	for i := range old {
		old[i], now[i] = r.Intn(11)-5, r.Intn(11)-5
		if zero {
			old[i] = 0
		}
		fo[i], fn[i] = float64(old[i]), float64(now[i])
	}
	f := r.Intn(p)
	var cl, fresh, el, pure float64
	kept := false
	c.setStage("corrections eta=%d/4 %v %v %d", eta, old, now, f)
	oc := c.guard(func() {
		a := fs1.NewCLasso(p, float64(eta)/4)
		fresh = a.Deriv(fn, f)
		if r.Intn(2) == 0 {
			a.Update(fn)
		}
		a.Update(fo)
		in := fmt.Sprint(fo, fn)
		cl = a.Deriv(fn, f)
		for i := range fo {
			fo[i] += 1 // the correction has its own copy
		}
		kept = cl == a.Deriv(fn, f)
		for i := range fo {
			fo[i]--
		}
		e := &fs1.ElasticNet{Lamb: float64(eta) / 4}
		e.Update(fo)
		el = e.Deriv(fn, f)
		q := &fs1.PureLasso{}
		q.Update(fo)
		pure = q.Deriv(fn, f)
		kept = kept && in == fmt.Sprint(fo, fn)
	})
	return rec{"outcome": oc, "p": p, "eta": eta, "old": old, "now": now, "f": f + 1, "classo": sc(cl, 1e5), "fresh": sc(fresh, 1e5), "elastic": sc(el, 1e5), "pure": sc(pure, 1e5), "kept": kept}
}

// ---------------------------------------------------------------------------------- C13

// delayCov delays the workers at random
type delayCov struct {
	fs1.CovMat
	mode int
	mu   sync.Mutex
	r    *rand.Rand
	gate *gate
}

func (d *delayCov) Get(X mat.Matrix) mat.Matrix {
	d.mu.Lock()
	v := d.r.Intn(100)
	d.mu.Unlock()
	if d.gate != nil {
		d.gate.pass(goid())
	}
	switch d.mode {
	case 1:
		if v < 30 {
			time.Sleep(time.Duration(20+7*v) * time.Microsecond)
		} else {
			runtime.Gosched()
		}
	case 2:
		if v < 8 {
			time.Sleep(time.Duration(1+v) * time.Millisecond)
		}
	}
	return d.CovMat.Get(X)
}

func c13(c *ctx) rec {
	r := c.rng
	if c.id >= len(c.gen) && r.Intn(4) == 0 {
		return c.tinyPath(c.tinyProblems(1, 12))
	}
	n, p := 6+r.Intn(30), 2+r.Intn(8)
	if r.Intn(10) == 0 {
		n, p = 20+r.Intn(30), 10+r.Intn(20)
	}
	bias := r.Intn(3) == 0
	if bias && p < 3 {
		p = 3
	}
	d := randF(r, n, p, bias)
	q := d.z()
	Xy := q.corr(make([]float64, p))
	lmax := maxAbs(Xy) / float64(n)
	sizes := []int{1, 2, 3, 5, 9, 10, 11, 12, 20, 35, 90, 90, 250}
	nl := sizes[r.Intn(len(sizes))]
	var g *gate
	if ls := c.genLines(1); ls != nil { // a completion order found by TLC
		var gen struct {
			N     int   `json:"n"`
			Order []int `json:"order"`
		}
		if err := json.Unmarshal([]byte(ls[0]), &gen); err != nil {
			panic(err)
		}
		nl = gen.N
		g = newGate(nl, byOrder(gen.Order))
	} else if r.Intn(3) == 0 {
		g = newGate(minI(nl, 10), policy(r))
	}
	if g != nil {
		defer g.close()
	}
	ls := make([]float64, 0, nl)
	mode := r.Intn(6)
	for len(ls) < nl {
		v := lmax * math.Exp(-r.Float64()*4+0.6)
		switch mode {
		case 0: // all solutions are empty
			v = lmax * (1.01 + r.Float64())
		case 1: // none is
			v = lmax * 0.98 * math.Exp(-r.Float64()*4)
		case 2: // close to each other
			v = lmax * (0.9 + 0.2*r.Float64())
		}
		if math.Abs(v/lmax-1) < 1e-4 {
			continue
		}
		ls = append(ls, v)
	}
	sort.Float64s(ls)
	for i := 1; i < nl; i++ {
		if ls[i] == ls[i-1] {
			ls[i] *= 1.0000001
		}
	}
	l2 := 0.0
	var base fs1.LassoCorrection = &fs1.PureLasso{}
	if r.Intn(4) == 0 {
		l2 = r.Float64() * 0.4
		base = &fs1.ElasticNet{Lamb: l2}
	}
	classo := g == nil && r.Intn(6) == 0 // a correction with state
	if classo {
		l2 = r.Float64() * 0.4
		base = fs1.NewCLasso(p, l2)
	}
	tol := 1e-8
	X, y := d.clone()
	in := append([]float64{}, ls...)
	var nodes []*fs1.LassoLarsNode
	baseG := runtime.NumGoroutine()
	if g != nil {
		baseG-- // the goroutine of the gate
	}
	cc := &countCorr{LassoCorrection: base}
	mode = r.Intn(3)
	if g != nil {
		mode = 0
	}
	if mode == 2 {
		var cnt int64
		cc.delay = func() {
			if atomic.AddInt64(&cnt, 1)%29 == 0 {
				time.Sleep(150 * time.Microsecond)
			}
		}
	}
	maxIter := 100000
	var corr fs1.LassoCorrection = cc
	if classo {
		corr = base
	}
	c.setStage("LassoCrdDescPath n=%d p=%d lambs=%v", n, p, ls)
	oc := c.guard(func() {
		nd := fs1.NewNormalizedData(X, y)
		nodes = fs1.LassoCrdDescPath(nd, &delayCov{CovMat: &fs1.Empirical{}, mode: mode, r: rand.New(rand.NewSource(r.Int63())), gate: g}, in, maxIter, tol, corr)
	})
	leak := 0
	if g != nil {
		g.close()
	}
	if oc != errHang {
		leak = settle(baseG)
	}
	// regularisations by their exact position in the ascending list
	index := map[float64]int{}
	for i, v := range ls {
		index[v] = i + 1
	}
	obs := []rec{}
	S := 1e9 / math.Max(lmax, 1.1*ls[nl-1])
	for _, nd := range nodes {
		if nd == nil {
			obs = append(obs, rec{"i": 0, "sel": []int{}, "g": make([]int, p), "s": make([]int, p), "lamb": 0, "tol": 0, "nco": 0})
			continue
		}
		beta := full(p, nd.Selection, nd.Coeff)
		g := q.corr(beta)
		for j := range g {
			g[j] = g[j]/float64(n) - l2*beta[j]
		}
		eps := (float64(p)*2+1)*tol*maxAbs(beta) + 2e-6*nd.Lamb + 1e-10
		obs = append(obs, rec{"i": index[nd.Lamb], "sel": ints(nd.Selection), "nco": len(nd.Coeff), "g": scs(g, S), "s": sgns(beta, 1e-16),
			"lamb": sc(nd.Lamb, S), "tol": minI(sc(eps, S)+3, 900000000)})
	}
	empty := make([]bool, nl)
	for i, v := range ls {
		empty[i] = v >= lmax
	}
	return rec{"p": p, "empty": empty, "obs": obs, "leak": leak, "outcome": oc, "kept": fmt.Sprint(in) == fmt.Sprint(ls), "slow": cc.n > int64(maxIter)}
}

// ---------------------------------------------------------------------------------- C14

// larsObs are the facts about the nodes of a lasso path: correlations and coefficients scaled by S (by the largest regularisation)
func larsObs(q *zdata, nodes []*fs1.LassoLarsNode, S float64) []rec {
	ls := []float64{}
	for _, nd := range nodes {
		ls = append(ls, nd.Lamb)
	}
	srt := append([]float64{}, ls...)
	sort.Float64s(srt)
	rank := func(x float64) int { return sort.SearchFloat64s(srt, x) }
	obs := []rec{}
	for k, nd := range nodes {
		beta := full(q.p, nd.Selection, nd.Coeff)
		o := rec{"sel": ints(nd.Selection), "nco": len(nd.Coeff), "rank": rank(nd.Lamb), "lamb": sc(nd.Lamb, S), "g": scs(q.corr(beta), S),
			"s": sgns(beta, 1e-7*math.Max(1e-3, maxAbs(beta))), "mid": []int{}, "mids": []int{}, "midl": 0}
		if k+1 < len(nodes) { // half way to the next node
			b2 := full(q.p, nodes[k+1].Selection, nodes[k+1].Coeff)
			m := make([]float64, q.p)
			for j := range m {
				m[j] = (beta[j] + b2[j]) / 2
			}
			o["mid"], o["mids"], o["midl"] = scs(q.corr(m), S), sgns(m, 1e-7*math.Max(1e-3, maxAbs(m))), sc((nd.Lamb+nodes[k+1].Lamb)/2, S)
		}
		obs = append(obs, o)
	}
	return obs
}

// extend continues the last segment of the path (active set and signs of its last node) to the regularisation l
func (q *zdata) extend(nd *fs1.LassoLarsNode, l float64) []float64 {
	beta := full(q.p, nd.Selection, nd.Coeff)
	g := q.corr(beta)
	k := len(nd.Selection)
	A := mat.NewDense(k, k, nil)
	s := mat.NewVecDense(k, nil)
	for a, i := range nd.Selection {
		s.SetVec(a, float64(sgn(g[i])))
		for b, j := range nd.Selection {
			v := 0.0
			for t := range q.y {
				v += q.cols[i][t] * q.cols[j][t]
			}
			A.Set(a, b, v)
		}
	}
	var dir mat.VecDense
	if err := dir.SolveVec(A, s); err != nil {
		return nil
	}
	for a, i := range nd.Selection {
		beta[i] += (nd.Lamb - l) * dir.AtVec(a)
	}
	return beta
}

func c14(c *ctx) rec {
	r := c.rng
	if c.id*20 < len(c.gen) || r.Intn(12) == 0 {
		return c.tinyLars(c.tinyProblems(20, 8))
	}
	n, p := 8+r.Intn(50), 1+r.Intn(12)
	if r.Intn(10) == 0 {
		n, p = 60+r.Intn(60), 13+r.Intn(28)
	}
	if n < p+4 {
		n = p + 4
	}
	wide := false
	if r.Intn(8) == 0 {
		n, p, wide = 8+r.Intn(8), 16+r.Intn(10), true
	}
	bias := r.Intn(3) == 0 && p > 1
	d := randF(r, n, p, bias)
	q := d.z()
	lmax := maxAbs(q.corr(make([]float64, p)))
	lmin := lmax * math.Exp(-r.Float64()*6)
	if wide {
		lmin = lmax * math.Exp(-r.Float64()*2)
	}
	if r.Intn(12) == 0 {
		lmin = lmax * 1.2 // nothing to do
	}
	S := 1e9 / lmax
	X, y := d.clone()
	var nodes []*fs1.LassoLarsNode
	c.setStage("LassoLars n=%d p=%d bias=%v lmin=%g", n, p, bias, lmin)
	oc := c.guard(func() {
		nd := fs1.NewNormalizedData(X, y)
		var cd fs1.MorsePenroseCD
		nodes = fs1.LassoLars(nd, lmin, &cd)
	})
	out := rec{"p": p, "n": n, "outcome": oc, "lmin": sc(lmin, S), "obs": []rec{}, "end": []int{}, "ends": []int{}}
	if oc == "ok" {
		out["obs"] = larsObs(q, nodes, S)
		if len(nodes) > 0 {
			if b := q.extend(nodes[len(nodes)-1], lmin); b != nil {
				out["end"], out["ends"] = scs(q.corr(b), S), sgns(b, 1e-7*math.Max(1e-3, maxAbs(b)))
			}
		}
	}
	return out
}

// ---------------------------------------------------------------------------------- C15

func c15(c *ctx) rec {
	r := c.rng
	n, p := 3+r.Intn(25), 1+r.Intn(8)
	if r.Intn(12) == 0 {
		n = 2
	}
	bias := r.Intn(2) == 0
	d := randF(r, n, p, false)
	// other scales, and columns far away from zero
	move := func(get func(i int) float64, set func(i int, v float64)) {
		s := math.Exp(r.Float64()*14 - 7)
		off := 0.0
		if r.Intn(2) == 0 {
			v := make([]float64, n)
			for i := range v {
				v[i] = get(i)
			}
			_, _, sd := zscore(v)
			off = s * sd * math.Pow(10, r.Float64()*7) * float64(1-2*r.Intn(2))
		}
		for i := 0; i < n; i++ {
			set(i, off+s*get(i))
		}
	}
	if r.Intn(2) == 0 {
		for j := 0; j < p; j++ {
			if r.Intn(2) == 0 {
				move(func(i int) float64 { return d.X.At(i, j) }, func(i int, v float64) { d.X.Set(i, j, v) })
			}
		}
		if r.Intn(2) == 0 {
			move(func(i int) float64 { return d.y[i] }, func(i int, v float64) { d.y[i] = v })
		}
	}
	constant := func() float64 {
		if r.Intn(3) == 0 {
			return r.NormFloat64() * math.Pow(10, r.Float64()*18-6)
		}
		return float64(r.Intn(9) - 4)
	}
	cst := 1.0
	if bias {
		if r.Intn(4) == 0 {
			cst = constant()
		}
		for i := 0; i < n; i++ {
			d.X.Set(i, 0, cst)
		}
	}
	second := -1
	if r.Intn(8) == 0 && p > 1 { // another constant column
		second = 1 + r.Intn(p-1)
		v := constant()
		for i := 0; i < n; i++ {
			d.X.Set(i, second, v)
		}
	}
	q := d.z()
	X, y := d.clone()
	var nd *fs1.NormalizedData
	c.setStage("NewNormalizedData n=%d p=%d bias=%v second=%d", n, p, bias, second)
	oc := c.guard(func() { nd = fs1.NewNormalizedData(X, y) })
	out := rec{"p": p, "bias": bias, "second": second, "outcome": oc, "paths": []rec{}, "stats": [][]int{}, "hasbias": false, "util": [][]int{}, "refbias": "",
		"shape": true, "one": cst == 1}
	if oc != "ok" {
		if strings.Contains(oc, "onstant") {
			out["outcome"] = "refused"
		}
		return out
	}
	stat := func(v []float64) []int { // mean and variance, and whether the values are an increasing affine image of the input
		mu, va := 0.0, 0.0
		for _, x := range v {
			mu += x
		}
		mu /= float64(len(v))
		for _, x := range v {
			va += (x - mu) * (x - mu)
		}
		return []int{sc(mu, 1e6), sc(va/float64(len(v)-1), 1e6)}
	}
	affine := func(v, z []float64) int {
		m := 0.0
		for i := range v {
			m = math.Max(m, math.Abs(v[i]-z[i]))
			if math.IsNaN(v[i]) {
				return numNaN
			}
		}
		return sc(m, 1e6)
	}
	stats := [][]int{append(stat(y), affine(y, q.y))}
	for j := 0; j < p; j++ {
		col := mat.Col(nil, j, X)
		stats = append(stats, append(stat(col), affine(col, q.cols[j])))
	}
	out["stats"], out["hasbias"] = stats, nd.HasBias
	// un-normalising paths
	nodes := []*fs1.LassoLarsNode{}
	feats := []int{}
	for j := 0; j < p; j++ {
		if !(bias && j == 0) {
			feats = append(feats, j)
		}
	}
	for k := 0; k < 3; k++ {
		sel := []int{}
		co := []float64{}
		for _, j := range feats {
			if r.Intn(2) == 0 {
				sel = append(sel, j)
				co = append(co, r.NormFloat64())
			}
		}
		nodes = append(nodes, fs1.NewLassoLarsNode(co, r.Float64(), sel))
	}
	before := []*fs1.LassoLarsNode{}
	for _, x := range nodes {
		before = append(before, fs1.NewLassoLarsNode(x.Coeff, x.Lamb, x.Selection))
	}
	c.setStage("Path2Unnormalized n=%d p=%d bias=%v", n, p, bias)
	oc = c.guard(func() { fs1.Path2Unnormalized(nd, nodes) })
	out["outcome"] = oc
	if oc != "ok" {
		return out
	}
	paths := []rec{}
	for k, x := range nodes {
		b0 := full(p, before[k].Selection, before[k].Coeff)
		b1 := full(p, x.Selection, x.Coeff)
		want, got := make([]float64, n), make([]float64, n)
		scale := 1.0
		for i := 0; i < n; i++ {
			for j := 0; j < p; j++ {
				want[i] += q.cols[j][i] * b0[j]
				v := d.X.At(i, j)
				if bias && j == 0 {
					v = 1 // the intercept
				}
				got[i] += v * b1[j]
				scale = math.Max(scale, math.Abs(v*b1[j]))
			}
			want[i] = q.muY + q.sY*want[i]
			scale = math.Max(scale, math.Abs(want[i]))
		}
		S := 1e8 / scale
		paths = append(paths, rec{"sel0": ints(before[k].Selection), "sel": ints(x.Selection), "nco": len(x.Coeff), "lamb": x.Lamb == before[k].Lamb,
			"want": scs(want, S), "got": scs(got, S)})
	}
	out["paths"] = paths
	// the array, row and column normalisers
	util := [][]int{}
	c.setStage("NormalizeArray/Rows/Cols")
	oc = c.guard(func() {
		a := append([]float64{}, d.y...)
		fs1.NormalizeArray(a)
		util = append(util, append(stat(a), affine(a, q.y)))
		if !bias && second < 0 {
			M := mat.DenseCopyOf(d.X)
			fs1.NormalizeCols(M)
			T := mat.DenseCopyOf(d.X.T())
			fs1.NormalizeRows(T)
			for j := 0; j < p; j++ {
				col := mat.Col(nil, j, M)
				util = append(util, append(stat(col), affine(col, q.cols[j])))
				row := mat.Row(nil, j, T)
				util = append(util, append(stat(row), affine(row, q.cols[j])))
			}
		}
	})
	out["outcome"], out["util"] = oc, util
	return out
}

// ---------------------------------------------------------------------------------- C16

// plottersOf returns what a plot draws
func plottersOf(p *plot.Plot) []plot.Plotter {
	v := reflect.ValueOf(p).Elem().FieldByName("plotters")
	if !v.IsValid() {
		panic("harness: plot.Plot has no field plotters")
	}
	return *(*[]plot.Plotter)(unsafe.Pointer(v.UnsafeAddr()))
}

func xyInts(xy plotter.XYs, sx, sy float64) [][]int {
	t := [][]int{}
	for _, v := range xy {
		t = append(t, []int{sc(v.X, sx), sc(v.Y, sy)})
	}
	return t
}

func lines(p *plot.Plot, sx, sy float64) (ls [][][]int, ss [][][]int) {
	ls, ss = [][][]int{}, [][][]int{}
	for _, x := range plottersOf(p) {
		switch q := x.(type) {
		case *plotter.Line:
			ls = append(ls, xyInts(q.XYs, sx, sy))
		case *plotter.Scatter:
			ss = append(ss, xyInts(q.XYs, sx, sy))
		}
	}
	return
}

func c16(c *ctx) rec {
	r := c.rng
	n, p := 3+r.Intn(10), 1+r.Intn(9)
	var hist struct { // a path that TLC found (PathHistory.tla)
		P    int
		Sels [][]int
	}
	shift := 0 // its features are some of those of the data
	if ls := c.genLines(1); ls != nil {
		if err := json.Unmarshal([]byte(ls[0]), &hist); err != nil {
			panic(err)
		}
		p = hist.P + r.Intn(4)
		shift = r.Intn(p - hist.P + 1)
	}
	X := newDense(n, p)
	xi := make([][]int, n)
	Y := make([]float64, n)
	yi := make([]int, n)
	for i := range xi {
		xi[i] = make([]int, p)
		for j := range xi[i] {
			xi[i][j] = r.Intn(11) - 5
			X.Set(i, j, float64(xi[i][j]))
		}
		yi[i] = r.Intn(41) - 20
		Y[i] = float64(yi[i])
	}
	path := &fs1.LassoLarsPath{Dset: &fs1.Dataset{X: X, Y: Y, Names: c.header(p + 1), TargetCol: p}}
	nn := 1 + r.Intn(7)
	if hist.Sels != nil {
		nn = len(hist.Sels)
	}
	lamb := math.Exp(r.Float64()*8 - 4)
	nodes := []rec{}
	cur := map[int]bool{}
	used := p
	if r.Intn(3) == 0 {
		used = 1 + r.Intn(p)
	}
	lo := 0
	if r.Intn(3) == 0 && used > 1 {
		lo = r.Intn(used)
	}
	for k := 0; k < nn; k++ {
		for q := 0; q < 1+r.Intn(2); q++ {
			f := lo + r.Intn(used-lo)
			if cur[f] && len(cur) > 1 && r.Intn(2) == 0 {
				delete(cur, f)
			} else {
				cur[f] = true
			}
		}
		sel := []int{}
		for f := range cur {
			sel = append(sel, f)
		}
		sort.Ints(sel)
		if hist.Sels != nil {
			sel = nil
			for _, f := range hist.Sels[k] {
				sel = append(sel, f+shift)
			}
		}
		co := make([]float64, len(sel))
		ci := make([]int, len(sel))
		for i := range co {
			ci[i] = r.Intn(13) - 6
			co[i] = float64(ci[i])
		}
		path.LassoLarsNodes = append(path.LassoLarsNodes, fs1.NewLassoLarsNode(co, lamb, sel))
		nodes = append(nodes, rec{"sel": sel, "co": ci, "ll": sc(math.Log10(lamb), 1e6)})
		lamb *= math.Exp(-0.05 - r.Float64())
	}
	calls := [][]int{}
	vals := []int{}
	picks := [][]int{}
	trajs := [][][]int{}
	var pl, el, es, ql, dl [][][]int
	mm := []int{}
	sparse := []rec{}
	aicc := []int{}
	printed := [][]int{}
	askN := r.Intn(nn + 3)
	prA, prB := make([]float64, nn), make([]float64, nn)
	for k := range prA {
		prA[k] = float64(r.Intn(4*nn) - 2*nn)
		prB[k] = float64(1000 + k)
	}
	before := fmt.Sprint(pathFields(path))
	c.setStage("path summaries p=%d nodes=%v", p, nodes)
	oc := c.guard(func() {
		vs := path.GetCriteria(func(k int, nd int, rss float64) float64 {
			calls = append(calls, []int{k, nd, sc(rss, 1)})
			return float64(1000 + len(calls))
		})
		vals = scs(vs, 1)
		aicc = scs(path.GetCriteria(fs1.Aicc), 1e3)
		for k := 1; k <= p+1; k++ {
			picks = append(picks, ints(path.PickMostRelevantFeatures(k)))
		}
		for f := 0; f <= p; f++ {
			trajs = append(trajs, xyInts(path.ExtractPath(f), 1e6, 1))
		}
		a, b := path.MaxMinFeatNo()
		mm = []int{a, b}
		var cr *fs1.AxisRange
		if r.Intn(2) == 0 {
			cr = &fs1.AxisRange{Min: -1, Max: 1}
		}
		pp := path.PlotPath(cr)
		pl, _ = lines(pp, 1e6, 1)
		if cr != nil && (pp.Y.Min != -1 || pp.Y.Max != 1) {
			pl = [][][]int{}
		}
		el, es = lines(path.PlotEntranceTimes(), 1, 1e6)
		ql, _ = lines(path.PlotQualityScores(), 1e6, 1e3)
		for _, s := range fs1.LassoNodesSlice2SparsCoeff(path.LassoLarsNodes) {
			sparse = append(sparse, rec{"sel": ints(s.Selection), "co": scs(s.Coeff, 1)})
		}
		printed = numberRows(c.captured(func() { fs1.PrintHighscore(path, prA, prB, askN) }))
	})
	hasDev := false
	if oc == "ok" {
		zero := false
		for _, v := range calls {
			zero = zero || v[2] == 0
		}
		if !zero { // the deviation of an exact fit has no logarithm
			hasDev = true
			oc = c.guard(func() { dl, _ = lines(path.PlotDeviations(), 1e6, 1e4) })
		}
	}
	dev := []int{} // log10 of the root mean square deviation
	for _, nd := range path.LassoLarsNodes {
		rss := 0.0
		for i := 0; i < n; i++ {
			v := Y[i]
			for j, f := range nd.Selection {
				v -= X.At(i, f) * nd.Coeff[j]
			}
			rss += v * v
		}
		dev = append(dev, sc(math.Log10(math.Sqrt(rss/float64(n))), 1e4))
	}
	if dl == nil {
		dl = [][][]int{}
	}
	if oc != "ok" {
		return rec{"outcome": oc}
	}
	return rec{"n": n, "p": p, "x": xi, "y": yi, "nodes": nodes, "calls": calls, "vals": vals, "picks": picks, "trajs": trajs, "mm": mm, "pl": pl, "el": el, "es": es,
		"ql": ql, "dl": dl, "dev": dev, "hasdev": hasDev, "aicc": aicc, "ask": askN, "pra": scs(prA, 1), "printed": printed, "sparse": sparse, "kept": before == fmt.Sprint(pathFields(path)), "outcome": oc}
}

// captured returns what f prints
func (c *ctx) captured(f func()) string {
	tmp, err := os.CreateTemp(c.dir, "stdout")
	if err != nil {
		panic("harness: " + err.Error())
	}
	old := os.Stdout
	os.Stdout = tmp
	defer func() {
		os.Stdout = old
		tmp.Close()
		os.Remove(tmp.Name())
	}()
	f()
	b, _ := os.ReadFile(tmp.Name())
	return string(b)
}

// numberRows are the rows of a printed table that consist of numbers; the second column to three digits
func numberRows(s string) [][]int {
	out := [][]int{}
	for _, l := range strings.Split(s, "\n") {
		row := []int{}
		ok := true
		for k, w := range strings.FieldsFunc(l, func(r rune) bool { return r == '|' || r == ' ' }) {
			v, err := strconv.ParseFloat(w, 64)
			ok = ok && err == nil
			if k == 1 {
				v = math.Log10(v) * 100
			}
			row = append(row, sc(v, 1))
		}
		if ok && len(row) > 0 {
			out = append(out, row)
		}
	}
	return out
}

// ---------------------------------------------------------------------------------- C17

func c17(c *ctx) rec {
	r := c.rng
	n, p := 14+r.Intn(30), 3+r.Intn(9)
	if r.Intn(8) == 0 {
		n, p = 40+r.Intn(30), 12+r.Intn(15)
	}
	if n < p+6 {
		n = p + 6
	}
	bias := r.Intn(2) == 0
	d := randF(r, n, p, bias)
	q := d.z()
	lmax := maxAbs(q.corr(make([]float64, p)))
	lmin := lmax * math.Exp(-1-r.Float64()*5)
	keep := 0.2 + 0.75*r.Float64()
	chain := [][]int{}
	if ls := c.genLines(1); ls != nil { // a run that TLC found (Nested.tla)
		var g struct {
			P, Keep, M int
			Bias       bool
			Order      []int
			Entries    [][]int
		}
		if err := json.Unmarshal([]byte(ls[0]), &g); err != nil {
			panic(err)
		}
		p, bias, keep, chain = g.P, g.Bias, float64(g.Keep)/8, g.Entries
		nf := len(g.Order)
		n = 16
		if nf > 13 {
			n = 32
		}
		d = &fdata{n: n, p: p, X: newDense(n, p), y: make([]float64, n), bias: bias}
		wht := func(i, j int) float64 { return 1 - 2*float64(bits.OnesCount(uint(i&j))%2) }
		cols := r.Perm(n - 1)
		for i := 0; i < n; i++ {
			d.y[i] = 3 + 0.5*wht(i, cols[nf]+1)
			if bias {
				d.X.Set(i, 0, 1)
			}
		}
		for k, f := range g.Order {
			off, scale, w := float64(r.Intn(9)-4), float64(1+r.Intn(5)), float64(nf-k)
			if r.Intn(2) == 0 {
				w = -w
			}
			for i := 0; i < n; i++ {
				h := wht(i, cols[k]+1)
				d.X.Set(i, f, off+scale*h)
				d.y[i] += w * h
			}
		}
		q = d.z()
		lmax = maxAbs(q.corr(make([]float64, p)))
		lmin = lmax * (float64(nf-g.M) + 0.5) / float64(nf)
	}
	t := r.Intn(p + 1)
	X, y := d.clone()
	ds := &fs1.Dataset{X: X, Y: y, Names: c.header(p + 1), TargetCol: t}
	if r.Intn(4) == 0 { // names need not be unique
		for i := range ds.Names {
			ds.Names[i] = ds.Names[r.Intn(i+1)]
		}
	}
	before := dsetFields(ds)
	var res fs1.NestedLassoLars
	var cd fs1.MorsePenroseCD
	c.setStage("NestedLasso n=%d p=%d bias=%v keep=%g target=%d", n, p, bias, keep, t)
	oc := c.guard(func() { res = fs1.NestedLasso(ds, lmin, keep, &cd) })
	out := rec{"p": p, "bias": bias, "outcome": oc, "kept": sameFields(before, dsetFields(ds)), "paths": []rec{}, "floor": []int{}, "S": 1000000000, "same": false, "chain": chain}
	if oc != "ok" {
		return out
	}
	out["same"] = res.Dset == ds || (res.Dset != nil && sameFields(before, dsetFields(res.Dset)))
	fl := []int{}
	for k := 0; k <= p; k++ {
		fl = append(fl, int(keep*float64(k)))
	}
	out["floor"] = fl
	S := 1e9 / lmax
	paths := []rec{}
	for _, ph := range res.Paths {
		obs := []rec{}
		for _, nd := range ph.Nodes {
			// back to normalised coefficients
			beta := make([]float64, p)
			icpt, shift := 0.0, q.muY
			for i, f := range nd.Selection {
				if f < 0 || f >= p {
					continue
				}
				if bias && f == 0 {
					icpt += nd.Coeff[i]
					continue
				}
				beta[f] += nd.Coeff[i] * q.std[f] / q.sY
				shift -= nd.Coeff[i] * q.mu[f]
			}
			obs = append(obs, rec{"sel": ints(nd.Selection), "nco": len(nd.Coeff), "g": scs(q.corr(beta), S), "lamb": sc(nd.Lamb, S),
				"s":    sgns(beta, 1e-7*math.Max(1e-3, maxAbs(beta))),
				"icpt": sc(icpt, 1e7/math.Max(1, math.Abs(shift))), "want": sc(shift, 1e7/math.Max(1, math.Abs(shift)))})
		}
		end, ends := []int{}, []int{}
		if len(ph.Nodes) > 0 {
			last := ph.Nodes[len(ph.Nodes)-1]
			sel := []int{}
			co := []float64{}
			for i, f := range last.Selection {
				if !(bias && f == 0) && f >= 0 && f < p {
					sel = append(sel, f)
					co = append(co, last.Coeff[i]*q.std[f]/q.sY)
				}
			}
			if b := q.extend(fs1.NewLassoLarsNode(co, last.Lamb, sel), lmin); b != nil {
				end, ends = scs(q.corr(b), S), sgns(b, 1e-7*math.Max(1e-3, maxAbs(b)))
			}
		}
		paths = append(paths, rec{"nodes": obs, "aicc": len(ph.Aicc), "bic": len(ph.Bic), "end": end, "ends": ends})
	}
	out["paths"], out["lmin"] = paths, sc(lmin, S)
	return out
}
