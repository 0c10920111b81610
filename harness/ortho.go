package main

// Searches over many features. The design has orthogonal columns of +-1 entries, so that facts about all 2^p
// models follow from p numbers: the residual sum of squares times n is n*y'y minus the sum of (x_j'y)^2 over the
// features of the model.

import (
	"math"
	"math/bits"

	fs1 "github.com/davidkleiven/goselect/featselect"
)

type ortho struct {
	d    *idata
	gain []int // (x_j'y)^2
	yy   int   // n*y'y
	dot  []int // x_j'y
	top  []int // top[k]: n * smallest residual sum of squares with k features
}

// pickOrtho makes data with p features of which at most weak ones are unimportant (they decide the size of the search)
func (c *ctx) pickOrtho(pmin, pmax, weak int) *ortho {
	r := c.rng
	p := pmin + r.Intn(pmax-pmin+1)
	n := 16
	for n < 2*p {
		n *= 2
	}
	d := newIdata(n, p, "hadamard")
	idx := r.Perm(n)[:p] // columns of the matrix of all sign patterns
	b := make([]int64, p)
	for j := range b {
		b[j] = ri(r, 7, 12) * int64(1-2*r.Intn(2))
	}
	where := r.Perm(p)
	for k := 0; k < weak && k < p; k++ {
		b[where[k]] = int64(r.Intn(2)) * ri(r, -1, 1)
	}
	for i := 0; i < n; i++ {
		d.y[i] = ri(r, -1, 1)
		if r.Intn(3) == 0 {
			d.y[i] = ri(r, -3, 3)
		}
		for j := 0; j < p; j++ {
			d.X[i][j] = 1
			if bits.OnesCount(uint(i&idx[j]))%2 == 1 {
				d.X[i][j] = -1
			}
			d.y[i] += b[j] * d.X[i][j]
		}
	}
	o := &ortho{d: d, gain: make([]int, p), dot: make([]int, p)}
	for i := 0; i < n; i++ {
		o.yy += n * int(d.y[i]*d.y[i])
		for j := 0; j < p; j++ {
			o.dot[j] += int(d.y[i] * d.X[i][j])
		}
	}
	for j := range o.gain {
		o.gain[j] = o.dot[j] * o.dot[j]
	}
	s := append([]int{}, o.gain...)
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] > s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
	o.top = []int{o.yy}
	for k, v := range s {
		o.top = append(o.top, o.top[k]-v)
	}
	if o.top[p] <= 0 { // keep away from the clamp
		return c.pickOrtho(pmin, pmax, weak)
	}
	return o
}

func (o *ortho) crit(k, r int) float64 {
	return penAicc(k, o.d.n) + float64(o.d.n)*math.Log(float64(r)/float64(o.d.n))
}

func (o *ortho) header() rec {
	crit := []int{}
	for k, r := range o.top {
		crit = append(crit, sc(o.crit(k, r), scoreScale))
	}
	cf := make([]float64, o.d.p)
	for j := range cf {
		cf[j] = float64(o.dot[j]) / float64(o.d.n)
	}
	return rec{"p": o.d.p, "n": o.d.n, "kind": "hadamard", "gain": o.gain, "yy": o.yy, "top": o.top, "crit": crit, "coef": scs(cf, coefScale)}
}

// entry translates an entry of a result list
func (o *ortho) entry(n *fs1.Node) rec {
	sel := []int{}
	r := o.yy
	for j, v := range n.Model {
		if v {
			sel = append(sel, j)
			if j < o.d.p {
				r -= o.gain[j]
			}
		}
	}
	return rec{"len": len(n.Model), "sel": sel, "r": r, "own": sc(o.crit(len(sel), r), scoreScale), "s": sc(n.Score, scoreScale),
		"lo": sc(n.Lower, scoreScale), "up": sc(n.Upper, scoreScale), "c": scs(n.Coeff, coefScale)}
}

// best model: the k features with the largest gain
func (o *ortho) best() []bool {
	k := 0
	for i, r := range o.top {
		if i > 0 && (k == 0 || o.crit(i, r) < o.crit(k, o.top[k])) {
			k = i
		}
	}
	m := make([]bool, o.d.p)
	for ; k > 0; k-- {
		b := -1
		for j, g := range o.gain {
			if !m[j] && (b < 0 || g > o.gain[b]) {
				b = j
			}
		}
		m[b] = true
	}
	return m
}

// randRootLarge is a root for many features
func (c *ctx) randRootLarge(o *ortho) []bool {
	k := c.rng.Intn(4)
	if o.d.p > 13 && (k == 0 || k == 3) { // nothing is pruned before a good model is found
		k = 2
	}
	switch k {
	case 0:
		return nil
	case 1:
		return o.best()
	case 2:
		m := o.best()
		j := c.rng.Intn(len(m))
		if o.d.p <= 13 || o.gain[j] < 9*o.d.n*o.d.n {
			m[j] = !m[j]
		}
		return m
	}
	m := make([]bool, o.d.p)
	for j := range m {
		m[j] = c.rng.Intn(2) == 0
	}
	return m
}

func (o *ortho) run(c *ctx, opt runOpt, root []bool) rec {
	var sp fs1.SearchProgress
	h := fs1.NewHighscore(opt.cap)
	opt.rootModel = root
	oc, ex := c.runSearch(o.d, opt, &sp, h)
	r := opt.rec()
	r["root"] = selOfBools(root)
	r["outcome"], r["excess"] = oc, ex
	es := []rec{}
	if oc == "ok" {
		for _, n := range listNodes(h) {
			es = append(es, o.entry(n))
		}
	}
	r["entries"] = es
	return r
}

func selOfBools(b []bool) []int {
	s := []int{}
	for i, v := range b {
		if v {
			s = append(s, i)
		}
	}
	return s
}

// c01large: the optimum over up to 2^40 models
func c01large(c *ctx) rec {
	o := c.pickOrtho(9, 12, 9)
	if c.rng.Intn(2) == 0 {
		o = c.pickOrtho(14, 31, 4)
		if c.rng.Intn(3) == 0 {
			o = c.pickOrtho(32, 68, 1)
		}
	}
	out := o.header()
	runs := []rec{}
	for i := 0; i < 2; i++ {
		opt := runOpt{root: -1, cap: 2 + c.rng.Intn(10), qlim: -1}
		if o.d.p < 10 {
			opt.mode = c.mode()
		}
		runs = append(runs, o.run(c, opt, c.randRootLarge(o)))
		if runs[i]["outcome"] == errHang {
			break
		}
	}
	out["runs"] = runs
	return out
}

// c02large: entries of searches with many features, also with cutoffs and queue limits
func c02large(c *ctx) rec {
	o := c.pickOrtho(7, 31, 4)
	out := o.header()
	runs := []rec{}
	for i := 0; i < 3; i++ {
		opt := runOpt{root: -1, cap: 2 + c.rng.Intn(60), qlim: -1}
		switch c.rng.Intn(4) {
		case 0:
			opt.qlim = 1 + c.rng.Intn(40)
		case 1:
			opt.cutoff = float64(c.rng.Intn(60))
		case 2:
			if o.d.p < 10 {
				opt.cutoff = -1e9
			}
		}
		runs = append(runs, o.run(c, opt, c.randRootLarge(o)))
		if runs[i]["outcome"] == errHang {
			break
		}
	}
	out["runs"] = runs
	return out
}

// c03large: termination with many features, long queues, tight limits
func c03large(c *ctx) rec {
	o := c.pickOrtho(9, 31, 4)
	switch c.rng.Intn(3) {
	case 0:
		o = c.pickOrtho(8, 10, 10)
	}
	out := o.header()
	runs := []rec{}
	for i := 0; i < 3; i++ {
		opt := runOpt{root: -1, cap: 1 + c.rng.Intn(30), qlim: -1, mode: c.mode()}
		if o.d.p > 9 {
			opt.mode = 0
		}
		switch c.rng.Intn(4) {
		case 0:
			opt.qlim = c.rng.Intn(40)
		case 1:
			opt.cutoff = float64(c.rng.Intn(90))
		case 2:
			if o.d.p < 12 {
				opt.cutoff = -1e9 // everything: long queues
				opt.mode = 0
			}
		}
		runs = append(runs, o.run(c, opt, c.randRootLarge(o)))
		if runs[i]["outcome"] == errHang {
			break
		}
	}
	out["runs"] = runs
	return out
}
