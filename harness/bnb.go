package main

// Driver of the branch-and-bound search and its relatives: C01-C05, C07, C11.

import (
	"container/list"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"runtime"
	"sync"
	"time"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

const coefScale = 1e4

func init() {
	props["C01"] = propDef{fn: c01, quick: 260, thorough: 6000}
	props["C02"] = propDef{fn: c02, quick: 200, thorough: 4000}
	props["C03"] = propDef{fn: c03, quick: 300, thorough: 6000}
	props["C04"] = propDef{fn: c04, quick: 240, thorough: 5000}
	props["C05"] = propDef{fn: c05, quick: 960, thorough: 12000, genFile: true, genChunk: 1}
	props["C07"] = propDef{fn: c07, quick: 90, thorough: 1500}
	props["C11"] = propDef{fn: c11, quick: 960, thorough: 12000, genFile: true, genChunk: 1}
}

// pickData makes the data set of a case; p features
func (c *ctx) pickData(pmin, pmax int, kind int) (*idata, *facts) {
	for {
		p := pmin + c.rng.Intn(pmax-pmin+1)
		n := p + 2 + c.rng.Intn(7)
		switch c.rng.Intn(6) {
		case 0:
			n = p + 1 // AICc denominators hit their special case
		case 1:
			n = p
		case 2:
			if c.rng.Intn(4) == 0 {
				n = p + 10 + c.rng.Intn(120)
			}
		}
		if n < 3 {
			n = 3
		}
		d := genData(c.rng, kind, p, n)
		d.rescale(c.rng, 10)
		f := newFacts(d)
		if f.ok {
			return d, f
		}
		kind++
	}
}

// genSpace is the design of this case that TLC found, with the table of AICc that TLC computed (ModelSpace.tla)
func (c *ctx) genSpace() (*idata, *facts) {
	ls := c.genLines(1)
	if ls == nil {
		return nil, nil
	}
	var t struct {
		X    [][]int
		Y    []int
		Pen  []int
		Logr []int
	}
	if err := json.Unmarshal([]byte(ls[0]), &t); err != nil {
		panic(err)
	}
	r := c.rng
	n, p := len(t.Y), len(t.X)
	d := &idata{n: n, p: p, kind: "space", X: make([][]int64, n), y: make([]int64, n)}
	rows, cols := r.Perm(n), r.Perm(p)
	for i := range rows {
		d.y[i] = int64(t.Y[rows[i]])
		d.X[i] = make([]int64, p)
	}
	for j := range cols {
		sg := int64(1 - 2*r.Intn(2))
		for i := range rows {
			d.X[i][j] = sg * int64(t.X[cols[j]][rows[i]])
		}
	}
	f := newFacts(d)
	f.penTLC, f.logrTLC = t.Pen, make([]int, 1<<uint(p))
	own, pens := f.logr(), f.pens()
	for m := range f.logrTLC {
		q := 0
		for j := range cols {
			q |= m >> uint(j) & 1 << uint(cols[j])
		}
		f.logrTLC[m] = t.Logr[q]
		if absI(own[m]-t.Logr[q]) > 3 || absI(pens[popcount(m)]-t.Pen[popcount(m)]) > 3 {
			fmt.Fprintln(os.Stderr, "the tables of ModelSpace.tla and exact.go differ:", d.X, d.y, m, own[m], t.Logr[q])
			os.Exit(98)
		}
		if clamp := sc(float64(n)*math.Log(rssTol), scoreScale); own[m] == clamp {
			f.logrTLC[m] = clamp
		}
	}
	return d, f
}

func (f *facts) header() rec {
	pen, logr := f.pens(), f.logr()
	if f.logrTLC != nil {
		pen, logr = f.penTLC, f.logrTLC
	}
	return rec{"p": f.d.p, "n": f.d.n, "kind": f.d.kind, "pen": pen, "logr": logr,
		"clamp": sc(float64(f.d.n)*math.Log(rssTol), scoreScale)}
}

type runOpt struct {
	root   int // mask, -1: nil
	cap    int
	cutoff float64
	qlim   int // -1: default
	nilOpt bool
	mode   int

	rootModel []bool // for more features than fit a mask
}

func (o runOpt) rec() rec {
	return rec{"root": o.root, "cap": o.cap, "cutoff": sc(o.cutoff, scoreScale), "qlim": o.qlim, "mode": o.mode}
}

func (d *idata) entryRec(n *fs1.Node) rec {
	return rec{"m": maskOf(n.Model), "len": len(n.Model), "lvl": n.Level, "s": sc(n.Score, scoreScale),
		"lo": sc(n.Lower, scoreScale), "up": sc(n.Upper, scoreScale), "c": scs(d.un(maskOf(n.Model), n.Coeff), coefScale)}
}

func listNodes(h *fs1.Highscore) []*fs1.Node {
	res := []*fs1.Node{}
	for e := h.Items.Front(); e != nil; e = e.Next() {
		res = append(res, e.Value.(*fs1.Node))
	}
	return res
}

// runSearch performs one search with the code under test. If during is not nil it is started before and
// stopped after the search.
func (c *ctx) runSearch(d *idata, o runOpt, sp *fs1.SearchProgress, h *fs1.Highscore) (outcome string, excess int) {
	var X mat.Matrix = d.dense()
	if o.mode > 0 {
		X = &delayX{Dense: d.dense(), mode: o.mode, seed: uint64(c.rng.Int63())}
	}
	y := d.yf()
	var params *fs1.SelectModelOptParams
	if !o.nilOpt {
		params = fs1.NewSelectModelOptParams()
		if o.cutoff != 0 || c.rng.Intn(2) == 0 { // otherwise the default
			params.Cutoff = o.cutoff
		}
		if o.root >= 0 {
			params.RootModel = bools(o.root, d.p)
		}
		if o.rootModel != nil {
			params.RootModel = o.rootModel
		}
		if o.qlim >= 0 {
			params.MaxQueueSize = o.qlim
		}
	}
	base := runtime.NumGoroutine()
	c.setStage("search p=%d n=%d kind=%s opts=%v", d.p, d.n, d.kind, o.rec())
	outcome = c.guard(func() { fs1.SelectModel(X, y, h, sp, params) })
	if outcome == "ok" {
		excess = settle(base)
	}
	return outcome, excess
}

// earlier fills the list with the results of an incomplete search on the same data, which a later search carries on
// from (possibly after the list was stored). It returns the models in the list.
func (c *ctx) earlier(d *idata, h *fs1.Highscore, sp *fs1.SearchProgress) (ms []int, outcome string) {
	o := runOpt{root: c.randRoot(d.p), cap: h.MaxItems, qlim: -1, mode: c.mode()}
	switch c.rng.Intn(3) {
	case 0:
		o.qlim = c.rng.Intn(4)
	case 1:
		o.cutoff = 1e6 // stops as soon as there is a model
	}
	first := fs1.NewHighscore(h.MaxItems)
	if outcome, _ = c.runSearch(d, o, sp, first); outcome != "ok" {
		return nil, outcome
	}
	outcome = c.guard(func() {
		if c.rng.Intn(2) == 0 {
			b, err := json.Marshal(first)
			if err != nil {
				panic(err)
			}
			first = &fs1.Highscore{}
			if err := json.Unmarshal(b, first); err != nil {
				panic(err)
			}
		}
		for _, n := range listNodes(first) {
			h.Insert(n)
		}
	})
	for _, n := range listNodes(h) {
		ms = append(ms, maskOf(n.Model))
	}
	return ms, outcome
}

func (c *ctx) mode() int {
	if c.rng.Intn(3) == 0 {
		return 0
	}
	return 1 + c.rng.Intn(5)
}

func (c *ctx) randRoot(p int) int {
	switch c.rng.Intn(5) {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return 1<<uint(p) - 1
	}
	return c.rng.Intn(1 << uint(p))
}

// best sub-models, used as root to make pruning aggressive
func (f *facts) bestMask() int {
	best, bs := 0, math.Inf(1)
	for m := 1; m < len(f.rss); m++ {
		if popcount(m) < f.d.n {
			if a := f.aicc(m); a < bs {
				best, bs = m, a
			}
		}
	}
	return best
}

func c01(c *ctx) rec {
	if c.id%9 == 8 {
		return c01large(c)
	}
	pmax := 6
	if c.id%20 == 19 {
		pmax = 9
	}
	if c.id%64 == 63 {
		pmax = 10
	}
	pmin := 3
	if pmax > 6 {
		pmin = pmax
	}
	d, f := c.pickData(pmin, pmax, c.id)
	out := f.header()
	runs := []rec{}
	k := 8
	if d.p > 7 {
		k = 3
	}
	for i := 0; i < k; i++ {
		o := runOpt{root: c.randRoot(d.p), cap: 1 + c.rng.Intn(6), qlim: -1, mode: c.mode()}
		switch i {
		case 0: // the command line tool's situation: the root is already very good
			o.root = f.bestMask()
			o.cap = 10
		case 1:
			o.root = f.bestMask() ^ (1 << uint(c.rng.Intn(d.p)))
		case 2:
			o.nilOpt, o.root = true, -1
		}
		var sp fs1.SearchProgress
		h := fs1.NewHighscore(o.cap)
		oc := "ok"
		if i == 3 || i == 6 { // carries on from an earlier search
			_, oc = c.earlier(d, h, &sp)
		}
		if oc == "ok" {
			oc, _ = c.runSearch(d, o, &sp, h)
		}
		r := o.rec()
		r["outcome"] = oc
		r["best"] = -1
		r["score"] = 0
		r["len"] = 0
		if oc == "ok" {
			ns := listNodes(h)
			r["len"] = len(ns)
			if len(ns) > 0 {
				r["best"] = maskOf(ns[0].Model)
				r["score"] = sc(ns[0].Score, scoreScale)
			}
		}
		runs = append(runs, r)
		if oc == errHang {
			break
		}
	}
	out["runs"] = runs
	return out
}

func truthFor(f *facts, nodes []*fs1.Node, seen map[int]bool, truth *[]rec) {
	for _, n := range nodes {
		m := maskOf(n.Model)
		if m > 0 && !seen[m] && len(n.Model) == f.d.p {
			seen[m] = true
			*truth = append(*truth, rec{"m": m, "c": scs(f.g.solve(m), coefScale)})
		}
	}
}

func c02(c *ctx) rec {
	if c.id%8 == 7 {
		return c02large(c)
	}
	d, f := c.pickData(3, 6, c.id)
	out := f.header()
	runs := []rec{}
	seen := map[int]bool{}
	truth := []rec{}
	for i := 0; i < 5; i++ {
		o := runOpt{root: c.randRoot(d.p), cap: 1 + c.rng.Intn(12), qlim: -1, mode: c.mode()}
		if c.rng.Intn(3) == 0 {
			o.cap = 1<<uint(d.p) + 2
		}
		switch c.rng.Intn(5) {
		case 0:
			o.cutoff = float64(c.rng.Intn(40) - 20)
		case 1:
			o.cutoff = -1e6 // explores everything
		}
		if c.rng.Intn(5) == 0 {
			o.qlim = c.rng.Intn(6)
		}
		var sp fs1.SearchProgress
		h := fs1.NewHighscore(o.cap)
		oc, times := "ok", 1
		if i == 3 {
			times = 2
			_, oc = c.earlier(d, h, &sp)
		}
		if oc == "ok" {
			oc, _ = c.runSearch(d, o, &sp, h)
		}
		r := o.rec()
		r["times"] = times
		r["outcome"] = oc
		es := []rec{}
		if oc == "ok" {
			ns := listNodes(h)
			for _, n := range ns {
				es = append(es, d.entryRec(n))
			}
			truthFor(f, ns, seen, &truth)
		}
		r["entries"] = es
		runs = append(runs, r)
		if oc == errHang {
			break
		}
	}
	out["runs"] = runs
	out["truth"] = truth
	return out
}

func c03(c *ctx) rec {
	if c.id%8 == 7 {
		return c03large(c)
	}
	d, f := c.pickData(3, 6, c.id)
	runs := []rec{}
	for i := 0; i < 8; i++ {
		o := runOpt{root: c.randRoot(d.p), cap: 1 + c.rng.Intn(10), qlim: -1, mode: c.mode()}
		switch c.rng.Intn(4) {
		case 0:
			o.cutoff = []float64{-1e9, 1e9, -7.5, 3, 12, 1e300, -1e300, math.Inf(1), math.Inf(-1)}[c.rng.Intn(9)]
		case 1:
			o.qlim = c.rng.Intn(5)
		case 2:
			o.qlim = c.rng.Intn(3)
			o.cutoff = float64(c.rng.Intn(30) - 15)
		}
		if i == 0 {
			o.root = f.bestMask()
		}
		var sp fs1.SearchProgress
		h := fs1.NewHighscore(o.cap)
		oc, ex := c.runSearch(d, o, &sp, h)
		r := o.rec()
		r["outcome"] = oc
		r["excess"] = ex
		runs = append(runs, r)
		if oc == errHang {
			break
		}
	}
	return rec{"p": d.p, "n": d.n, "kind": d.kind, "runs": runs}
}

func c04(c *ctx) rec {
	d, f := c.pickData(3, 6, c.id)
	out := f.header()
	runs := []rec{}
	// spread of the criterion, to choose cutoffs that matter
	lo, hi := math.Inf(1), math.Inf(-1)
	for m := 1; m < len(f.rss); m++ {
		if popcount(m) < d.n {
			a := f.aicc(m)
			lo, hi = math.Min(lo, a), math.Max(hi, a)
		}
	}
	for i := 0; i < 10; i++ {
		o := runOpt{root: c.randRoot(d.p), cap: 1<<uint(d.p) + 2, qlim: -1, mode: c.mode()}
		switch i {
		case 0, 1, 2:
			o.cutoff = math.Round((c.rng.Float64()*1.2)*(hi-lo)*4) / 4
		case 3, 4:
			o.cutoff = -math.Round((c.rng.Float64()*1.2)*(hi-lo)*4) / 4
		case 5:
			o.cutoff = 1e4
			o.root = 1 << uint(c.rng.Intn(d.p))
		case 6:
			o.qlim = c.rng.Intn(8)
		case 7: // never reached
			o.qlim = 1 << uint(d.p+1)
		}
		if i < 2 {
			o.root = f.bestMask()
		}
		var sp fs1.SearchProgress
		prior, oc := []int{}, "ok"
		if i >= 8 { // carries on from an earlier search
			o.cap *= 2
			o.cutoff = float64(c.rng.Intn(9)-4) / 8 * math.Round(hi-lo)
		}
		h := fs1.NewHighscore(o.cap)
		if i >= 8 {
			prior, oc = c.earlier(d, h, &sp)
			prior = append([]int{}, prior...)
		}
		if oc == "ok" {
			oc, _ = c.runSearch(d, o, &sp, h)
		}
		r := o.rec()
		r["prior"] = prior
		r["outcome"] = oc
		ms := []int{}
		ss := []int{}
		if oc == "ok" {
			for _, n := range listNodes(h) {
				ms = append(ms, maskOf(n.Model))
				ss = append(ss, sc(n.Score, scoreScale))
			}
		}
		r["ms"] = ms
		r["ss"] = ss
		runs = append(runs, r)
		if oc == errHang {
			break
		}
	}
	out["runs"] = runs
	out["queues"] = c.queueOps()
	return out
}

// queueOps cuts queues of nodes with known lower bounds
func (c *ctx) queueOps() []rec {
	res := []rec{}
	for i := 0; i < 6; i++ {
		n := c.rng.Intn(9)
		op := "clean"
		if i%2 == 1 {
			op = "least"
			n++
		}
		q := list.New()
		lows := []int{}
		for k := 0; k < n; k++ {
			v := c.rng.Intn(21) - 10
			if c.rng.Intn(4) == 0 && k > 0 {
				v = lows[k-1]
			}
			nd := fs1.NewNode(k, []bool{true, false, true})
			nd.Lower = float64(v)
			nd.Score = float64(-k)
			lows = append(lows, v)
			q.PushBack(nd)
		}
		thr := c.rng.Intn(23) - 11
		c.setStage("queue op %s lows=%v thr=%d", op, lows, thr)
		oc := c.guard(func() {
			if op == "clean" {
				fs1.CleanQueue(q, float64(thr))
			} else {
				fs1.RemoveLeastPromising(q)
			}
		})
		keep := []int{}
		if oc == "ok" {
			for e := q.Front(); e != nil; e = e.Next() {
				keep = append(keep, e.Value.(*fs1.Node).Level+1)
			}
		}
		res = append(res, rec{"op": op, "lows": lows, "thr": thr, "keep": keep, "outcome": oc})
	}
	return res
}

func c05(c *ctx) rec {
	pmax := 5
	if c.id%8 == 7 {
		pmax = 7
	}
	d, f := c.genSpace()
	if d == nil {
		d, f = c.pickData(1, pmax, c.id)
	}
	out := f.header()
	penAic := []int{}
	for k := 0; k <= d.p; k++ {
		penAic = append(penAic, sc(2*float64(k), scoreScale))
	}
	out["penaic"] = penAic
	X, y := d.dense(), d.yf()
	obs := []rec{}
	nAll := (1 << uint(d.p)) * (d.p + 1)
	oc := "ok"
	skip := false
	for q := 0; q < nAll && oc == "ok"; q++ {
		m, lvl := q/(d.p+1), q%(d.p+1)
		if lvl == 0 {
			skip = nAll > 200 && c.rng.Intn(nAll) > 200
		}
		if skip || (m == 0 && lvl == d.p) { // the empty model has no sub-models and no criterion
			continue
		}
		model := bools(m, d.p)
		var l1, u1, l2, u2 float64
		c.setStage("bounds p=%d n=%d kind=%s model=%d level=%d", d.p, d.n, d.kind, m, lvl)
		oc = c.guard(func() {
			l1, u1 = fs1.BoundsAICC(model, lvl, X, y)
			l2, u2 = fs1.BoundsAIC(model, lvl, X, y)
		})
		obs = append(obs, rec{"m": m, "lvl": lvl, "lo": sc(l1, scoreScale), "up": sc(u1, scoreScale),
			"loa": sc(l2, scoreScale), "upa": sc(u2, scoreScale), "same": maskOf(model) == m})
	}
	out["obs"] = obs
	out["outcome"] = oc
	return out
}

// c07: readers poll the list and the progress record while the search runs
func c07(c *ctx) rec {
	if c.id%5 == 4 {
		return c07register(c)
	}
	d, f := c.pickData(4, 6, c.id)
	out := f.header()
	runs := []rec{}
	for i := 0; i < 3; i++ {
		o := runOpt{root: c.randRoot(d.p), cap: []int{1, 2, 3, 10, 1 << uint(d.p+1)}[c.rng.Intn(5)], qlim: -1, mode: 1 + c.rng.Intn(5)}
		switch c.rng.Intn(8) {
		case 0, 1:
			o.cutoff = -1e6 // nothing is pruned
		case 2:
			o.cutoff = 1e6 // everything is pruned once a model is listed
		}
		var sp fs1.SearchProgress
		h := fs1.NewHighscore(o.cap)
		done := make(chan struct{})
		nread := 3
		polls := make([][]rec, nread)
		var wg sync.WaitGroup
		fail := make([]string, nread)
		for q := 0; q < nread; q++ {
			wg.Add(1)
			go func(q int, jit int64) {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fail[q] = fmt.Sprint("panic: ", r)
					}
				}()
				last := ""
				for k := 0; ; k++ {
					final := false
					select {
					case <-done:
						final = true
					default:
					}
					var p rec
					switch (k + q) % 4 {
					case 0:
						p = rec{"k": "best", "v": sc(h.BestScore(), scoreScale)}
						// an empty list has no best score: the length is read afterwards, and an empty
						// list now means it was empty before
						if h.Len() == 0 {
							p = rec{"k": "none"}
						} else if p["v"] == 0 {
							p = rec{"k": "none"}
						}
					case 1:
						p = rec{"k": "scores", "vs": scs(h.Scores(), scoreScale)}
					case 2:
						b, err := json.Marshal(h)
						p = rec{"k": "json", "ok": err == nil, "ms": []int{}, "vs": []int{}}
						if err == nil {
							var hh fs1.Highscore
							hh.Items = fs1.NewHighscore(1).Items
							if e := json.Unmarshal(b, &hh); e != nil {
								p["ok"] = false
							} else {
								ms, vs := []int{}, []int{}
								for _, n := range listNodes(&hh) {
									ms = append(ms, maskOf(n.Model))
									vs = append(vs, sc(n.Score, scoreScale))
								}
								p["ms"], p["vs"] = ms, vs
							}
						}
					case 3:
						bs, ne, np := sp.Get()
						p = rec{"k": "prog", "v": sc(bs, scoreScale), "ne": ne, "np": sc(np, 1e4)}
					}
					if p["k"] != "none" {
						js, _ := json.Marshal(p)
						if s := string(js); s != last && len(polls[q]) < 120 {
							polls[q] = append(polls[q], p)
							last = s
						}
					}
					if final {
						break
					}
					if k%7 == 0 {
						runtime.Gosched()
					}
				}
			}(q, c.rng.Int63())
		}
		oc := func() string {
			var X mat.Matrix = &delayX{Dense: d.dense(), mode: o.mode, seed: uint64(c.rng.Int63())}
			params := fs1.NewSelectModelOptParams()
			params.Cutoff = o.cutoff
			if o.root >= 0 {
				params.RootModel = bools(o.root, d.p)
			}
			c.setStage("observed search p=%d n=%d kind=%s opts=%v", d.p, d.n, d.kind, o.rec())
			return c.guard(func() { fs1.SelectModel(X, d.yf(), h, &sp, params) })
		}()
		close(done)
		wg.Wait()
		r := o.rec()
		r["outcome"] = oc
		for _, s := range fail {
			if s != "" {
				r["outcome"] = s
			}
		}
		r["polls"] = polls
		bs, ne, np := sp.Get()
		r["fbs"], r["fne"], r["fnp"] = sc(bs, scoreScale), ne, sc(np, 1e4)
		ms, vs := []int{}, []int{}
		if oc == "ok" {
			for _, n := range listNodes(h) {
				ms = append(ms, maskOf(n.Model))
				vs = append(vs, sc(n.Score, scoreScale))
			}
		}
		r["ms"], r["vs"] = ms, vs
		for q := range polls {
			if polls[q] == nil {
				polls[q] = []rec{}
			}
		}
		runs = append(runs, r)
		if oc == errHang {
			break
		}
	}
	out["runs"] = runs
	out["type"] = "search"
	return out
}

// c07register hammers the progress record with known combinations
func c07register(c *ctx) rec {
	var sp fs1.SearchProgress
	stop := make(chan struct{})
	const readers = 4
	got := make([][][]int, readers)
	var wg sync.WaitGroup
	for q := 0; q < readers; q++ {
		wg.Add(1)
		go func(q int) {
			defer wg.Done()
			last := -1
			for {
				bs, ne, np := sp.Get()
				cons := 1
				if float64(ne) != bs || float64(ne) != np {
					cons = 0
				}
				if ne != last || cons == 0 {
					if len(got[q]) < 60 || cons == 0 && len(got[q]) < 70 {
						got[q] = append(got[q], []int{int(bs), ne, int(np)})
					}
					last = ne
				}
				select {
				case <-stop:
					got[q] = append(got[q], []int{int(bs), ne, int(np)})
					return
				default:
				}
			}
		}(q)
	}
	nw := 4000
	for k := 1; k <= nw; k++ {
		sp.Set(float64(k), k, float64(k))
		if k%97 == 0 {
			time.Sleep(time.Microsecond)
		}
	}
	close(stop)
	wg.Wait()
	bs, ne, np := sp.Get()
	g := [][][]int{}
	for q := range got {
		g = append(g, got[q])
	}
	return rec{"type": "register", "writes": nw, "gets": g, "final": []int{int(bs), ne, int(np)}, "outcome": "ok"}
}

func c11(c *ctx) rec {
	d, f := c.genSpace()
	if d == nil {
		d, f = c.pickDataTall(1, 6, c.id)
	}
	out := f.header()
	seen := map[int]bool{}
	truth := []rec{}
	var h *fs1.Highscore
	X, y := d.dense(), d.yf()
	c.setStage("bruteforce p=%d n=%d kind=%s", d.p, d.n, d.kind)
	oc := c.guard(func() { h = fs1.BruteForceSelect(X, y) })
	es := []rec{}
	if oc == "ok" {
		ns := listNodes(h)
		for _, n := range ns {
			es = append(es, d.entryRec(n))
		}
		truthFor(f, ns, seen, &truth)
	}
	out["outcome"], out["entries"], out["truth"] = oc, es, truth
	// the same optimum from branch and bound
	bb := runOpt{root: c.randRoot(d.p), cap: 1 + c.rng.Intn(5), qlim: -1, mode: c.mode()}
	out["bbscore"], out["bbdone"] = 0, false
	if d.p >= 3 && oc == "ok" {
		var sp fs1.SearchProgress
		hh := fs1.NewHighscore(bb.cap)
		if o, _ := c.runSearch(d, bb, &sp, hh); o == "ok" && hh.Len() > 0 {
			out["bbscore"], out["bbdone"] = sc(hh.BestScore(), scoreScale), true
		}
	}
	return out
}

func (c *ctx) pickDataTall(pmin, pmax int, kind int) (*idata, *facts) {
	for {
		d, f := c.pickData(pmin, pmax, kind)
		if d.n > d.p {
			return d, f
		}
		kind++
	}
}
