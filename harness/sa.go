package main

// Driver of simulated annealing (C10): the cost function passed in observes the chain.

import (
	"fmt"
	"math"
	"math/rand"
	"sort"

	fs1 "github.com/davidkleiven/goselect/featselect"
)

func init() {
	props["C10"] = propDef{fn: c10, quick: 120, thorough: 2500}
}

type costCall struct {
	k, n int
	rss  float64
	cost float64
}

func c10(c *ctx) rec {
	r := c.rng
	var d *idata
	var f *facts
	// many features and few rows: models have one or two features; they are numbered
	var models []int
	var rssOf func(m int) float64
	var solveOf func(m int) []float64
	wide := r.Intn(5) == 0
	if wide {
		d, models, rssOf, solveOf = wideModels(r)
	}
	for !wide {
		p := 1 + r.Intn(6)
		n := 4 + r.Intn(12)
		switch r.Intn(8) {
		case 0:
			n = 4 + r.Intn(3)
		case 1:
			p = 5 + r.Intn(3)
		case 2:
			p, n = 7+r.Intn(3), 12+r.Intn(14)
		}
		d = genData(r, r.Intn(10), maxI(p, 2), n)
		if p == 1 {
			d = d.cols(1)
		}
		if d.n < 4 {
			continue
		}
		ws := d.wellScaled()
		if ws {
			d.rescale(r, 10)
		}
		f = newFacts(d)
		if f.ok && ws {
			models = make([]int, 1<<uint(d.p)-1)
			for i := range models {
				models[i] = i + 1
			}
			rssOf = func(m int) float64 { return f.rss[m] }
			solveOf = f.g.solve
			break
		}
	}
	id := map[int]int{}
	for i, m := range models {
		id[m] = i + 1
	}
	// cost functions
	kind := []string{"aicc", "aicc", "aic", "bic", "rss", "size", "constant", "table", "negative", "steep"}[r.Intn(10)]
	salt := r.Int63()
	cost := func(k, n int, rss float64) float64 {
		switch kind {
		case "aicc":
			return fs1.Aicc(k, n, rss)
		case "aic":
			return fs1.Aic(k, n, rss)
		case "bic":
			return fs1.Bic(k, n, rss)
		case "rss":
			return rss
		case "size": // many ties
			return float64(k % 2)
		case "constant":
			return 1
		case "table": // arbitrary, but a function of the model
			h := uint64(math.Round(rss*1e4))*0x9E3779B97F4A7C15 ^ uint64(k)*0xBF58476D1CE4E5B9 ^ uint64(salt)
			h ^= h >> 29
			h *= 0x94D049BB133111EB
			return float64(h>>40) / 1e4
		case "steep": // worse models are hardly ever accepted while the temperature is low
			return 1e9*float64((k*7+3)%5) + 1e3*math.Min(rss, 1e5)
		}
		return -1e5 - 10*float64(k) + rss
	}
	X, y := d.dense(), d.yf()
	calls := []costCall{}
	limit := 6000
	full := false
	var res *fs1.SARes
	sweeps := 1 + r.Intn(3)
	if r.Intn(10) == 0 {
		sweeps = 8
	}
	c.setStage("SelectModelSA n=%d p=%d kind=%s cost=%s sweeps=%d", d.n, d.p, d.kind, kind, sweeps)
	oc := c.guard(func() {
		res = fs1.SelectModelSA(X, y, sweeps, func(k, n int, rss float64) float64 {
			v := cost(k, n, rss)
			if len(calls) < limit {
				calls = append(calls, costCall{k, n, rss, v})
			} else {
				full = true
			}
			return v
		})
	})
	out := rec{"outcome": oc, "p": d.p, "n": d.n, "kind": d.kind, "cost": kind, "sweeps": sweeps}
	// wide: the models one move away, by number
	nb := [][]int{}
	if wide {
		for _, m := range models {
			b := []int{}
			for j := 0; j < d.p; j++ {
				if k := id[m^1<<uint(j)]; k > 0 {
					b = append(b, k)
				}
			}
			if popcount(m) == 1 {
				b = append(b, id[m])
			}
			nb = append(nb, b)
		}
	}
	out["nb"] = nb
	if oc != "ok" {
		return out
	}
	if full { // too long to follow: only the result is checked
		out["truncated"] = true
	} else {
		out["truncated"] = false
	}
	// classes of models with the same size and (within rounding) the same residual sum of squares
	close := func(a, b float64) bool { return math.Abs(a-b) <= 1e-7*(1+math.Max(a, b)) }
	clamped := make([]float64, len(models)+1)
	for i, m := range models {
		clamped[i+1] = math.Max(rssOf(m), rssTol)
	}
	byCall := map[string]int{}
	classes := [][]int{}
	classOf := func(k int, rss float64) int {
		ms := []int{}
		for i, m := range models {
			if popcount(m) == k && rss >= rssTol && close(clamped[i+1], rss) {
				ms = append(ms, i+1)
			}
		}
		key := fmt.Sprint(ms)
		if len(ms) == 0 {
			return 0
		}
		if i, ok := byCall[key]; ok {
			return i
		}
		classes = append(classes, ms)
		byCall[key] = len(classes)
		return len(classes)
	}
	// ranks of the returned costs
	costs := []float64{}
	for _, q := range calls {
		costs = append(costs, q.cost)
	}
	sort.Float64s(costs)
	uniq := costs[:0]
	for i, v := range costs {
		if i == 0 || v != uniq[len(uniq)-1] {
			uniq = append(uniq, v)
		}
	}
	rank := func(v float64) int {
		i := sort.SearchFloat64s(uniq, v)
		if i < len(uniq) && uniq[i] == v {
			return i + 1
		}
		return 0
	}
	obs := make([][]int, len(calls))
	nok := true
	memo := map[[2]uint64]int{}
	for i, q := range calls {
		key := [2]uint64{uint64(q.k), math.Float64bits(q.rss)}
		cl, ok := memo[key]
		if !ok {
			cl = classOf(q.k, q.rss)
			memo[key] = cl
		}
		obs[i] = []int{q.k, cl, rank(q.cost)}
		nok = nok && q.n == d.n
	}
	out["nok"] = nok
	out["obs"] = obs
	out["classes"] = classes
	item := func(sel []int, co []float64, score float64) rec {
		m := 0
		okk := len(sel) == len(co)
		for i, s := range sel {
			if s < 0 || s >= d.p || (i > 0 && s <= sel[i-1]) {
				okk = false
				break
			}
			m |= 1 << uint(s)
		}
		mid := id[m]
		okk = okk && (m == 0 || mid > 0)
		e := rec{"m": mid, "ok": okk && m > 0, "r": rank(-score)}
		if okk && m > 0 {
			t := solveOf(m)
			Q := 1e8 / math.Max(1e-3, maxAbs(t))
			e["co"], e["truth"] = scs(d.un(m, co), Q), scs(t, Q)
			// the cost of the true model
			e["own"] = math.Abs(-score-cost(popcount(m), d.n, clamped[mid])) <= 1e-6*(1+math.Abs(score)) || rssOf(m) < 1e-7 && -score <= cost(popcount(m), d.n, 1e-7) || kind == "table" || full
		} else {
			e["co"], e["truth"], e["own"] = []int{}, []int{}, false
		}
		return e
	}
	if res.Scores == nil || res.Scores.BestItem == nil || res.Scores.WorstItem == nil {
		out["outcome"] = "nothing-recorded"
		return out
	}
	items := []rec{}
	for _, it := range res.Scores.Items {
		items = append(items, item(it.Selection, it.Coeff, it.Score))
	}
	out["items"] = items
	out["cap"] = res.Scores.Cap
	out["best"] = item(res.Scores.BestItem.Selection, res.Scores.BestItem.Coeff, res.Scores.BestItem.Score)
	out["worst"] = rank(-res.Scores.WorstItem.Score)
	out["final"] = item(res.Selected, res.Coeff, 0)
	out["kept"] = fmtEq(y, d.yf()) && matEq(X, d)
	return out
}

// wideModels is data with many columns and so few rows that models have at most two features
func wideModels(r *rand.Rand) (*idata, []int, func(int) float64, func(int) []float64) {
	n := 5 + r.Intn(3)
	p := []int{31, 32, 33, 34, 40, 48, 60}[r.Intn(7)]
	if n > 5 && p > 48 {
		p = 40
	}
	for {
		d := &idata{n: n, p: p, kind: "wide"}
		for i := 0; i < n; i++ {
			row := make([]int64, p)
			for j := range row {
				row[j] = int64(r.Intn(15) - 7)
			}
			d.X = append(d.X, row)
			d.y = append(d.y, int64(r.Intn(41)-20))
		}
		for j := 0; j < p; j++ {
			if all(n, func(i int) bool { return d.X[i][j] == 0 }) {
				d.X[0][j] = 1
			}
		}
		models := []int{}
		rss := map[int]float64{}
		co := map[int][]float64{}
		okk := true
		for a := 0; a < p && okk; a++ {
			for b := a; b < p && okk; b++ {
				if n == 5 && b > a {
					continue
				}
				q := &idata{n: n, p: 2, y: d.y, kind: "pair"}
				for i := range d.X {
					q.X = append(q.X, []int64{d.X[i][a], d.X[i][b]})
				}
				f := newFacts(q)
				m, s := 1<<uint(a)|1<<uint(b), 3
				if a == b {
					s = 1
				} else if f.g.rank(3) < 2 {
					okk = false
				}
				okk = okk && !f.zero[s] && f.rss[s] > 1e-7
				models = append(models, m)
				rss[m], co[m] = f.rss[s], f.g.solve(s)
			}
		}
		if okk {
			sort.Ints(models)
			return d, models, func(m int) float64 { return rss[m] }, func(m int) []float64 { return co[m] }
		}
	}
}

func all(n int, f func(int) bool) bool {
	for i := 0; i < n; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func matEq(X interface {
	At(i, j int) float64
}, d *idata) bool {
	for i := range d.X {
		for j := range d.X[i] {
			if X.At(i, j) != d.at(i, j) {
				return false
			}
		}
	}
	return true
}

func maxI(a, b int) int {
	if a > b {
		return a
	}
	return b
}
