package main

// Lasso problems with small integer data, whose solutions LassoExact.tla knows exactly (C12, C13, C14).

import (
	"encoding/json"
	"math"
	"math/rand"
	"sort"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

// tinyProblem has columns and target that are permutations of the same integers with mean zero
type tinyProblem struct {
	Cols [][]int `json:"x"`
	Y    []int   `json:"y"`
	U    int     `json:"u"`
	Tie  bool    `json:"tie"`
	unit float64 // a regularisation of 1 in LassoExact.tla is this one for the normalised data
}

var tinyBases = [][]int{{-3, -1, 1, 3}, {-2, -1, 0, 1, 2}, {-1, 0, 1}, {-2, -1, -1, 1, 1, 2}, {-1, -1, 1, 1}}

// shuffled puts rows and features into another order
func (t *tinyProblem) shuffled(r *rand.Rand) *tinyProblem {
	s := &tinyProblem{U: t.U, Tie: t.Tie}
	rows, cols := r.Perm(len(t.Y)), r.Perm(len(t.Cols))
	for _, j := range cols {
		col := make([]int, len(rows))
		for i, k := range rows {
			col[i] = t.Cols[j][k]
		}
		s.Cols = append(s.Cols, col)
	}
	for _, k := range rows {
		s.Y = append(s.Y, t.Y[k])
	}
	s.finish()
	return s
}

func dotInt(a, b []int) int {
	s := 0
	for i := range a {
		s += a[i] * b[i]
	}
	return s
}

func (t *tinyProblem) finish() {
	gcd := func(a, b int) int {
		for b != 0 {
			a, b = b, a%b
		}
		return absI(a)
	}
	u := 0
	for i := range t.Cols {
		u = gcd(u, dotInt(t.Cols[i], t.Y))
		for j := range t.Cols {
			u = gcd(u, dotInt(t.Cols[i], t.Cols[j]))
		}
	}
	t.U = u
	t.unit = float64(u) * float64(len(t.Y)-1) / float64(dotInt(t.Y, t.Y))
}

// regular: the columns are linearly independent
func (t *tinyProblem) regular() bool {
	M := mat.NewDense(len(t.Cols), len(t.Cols), nil)
	for i := range t.Cols {
		for j := range t.Cols {
			M.Set(i, j, float64(dotInt(t.Cols[i], t.Cols[j])))
		}
	}
	return math.Abs(mat.Det(M)) > 0.5
}

func randTiny(r *rand.Rand) *tinyProblem {
	for {
		base := tinyBases[r.Intn(len(tinyBases))]
		t := &tinyProblem{}
		perm := func() []int {
			v := make([]int, len(base))
			for i, k := range r.Perm(len(base)) {
				v[i] = base[k]
			}
			return v
		}
		p := 1 + r.Intn(minI(3, len(base)-1))
		for j := 0; j < p; j++ {
			t.Cols = append(t.Cols, perm())
		}
		t.Y = perm()
		t.finish()
		if t.regular() {
			return t
		}
	}
}

// data are the numbers in arbitrary units, which normalisation removes
func (t *tinyProblem) data(r *rand.Rand) (*mat.Dense, []float64) {
	n, p := len(t.Y), len(t.Cols)
	X := mat.NewDense(n, p, nil)
	y := make([]float64, n)
	f := func() (float64, float64) {
		if r.Intn(2) == 0 {
			return 1, 0
		}
		return math.Exp(4*r.Float64() - 2), float64(r.Intn(21) - 10)
	}
	for j := range t.Cols {
		a, m := f()
		for i, v := range t.Cols[j] {
			X.Set(i, j, a*float64(v)+m)
		}
	}
	a, m := f()
	for i, v := range t.Y {
		y[i] = a*float64(v) + m
	}
	return X, y
}

func (t *tinyProblem) rec(oc string) rec {
	return rec{"x": t.Cols, "y": t.Y, "u": t.U, "outcome": oc}
}

// tinyProblems are those of this case: found by TLC, or random ones
func (c *ctx) tinyProblems(chunk, n int) []*tinyProblem {
	ps := []*tinyProblem{}
	if ls := c.genLines(chunk); ls != nil {
		for _, l := range ls {
			var t tinyProblem
			if err := json.Unmarshal([]byte(l), &t); err != nil {
				panic(err)
			}
			ps = append(ps, t.shuffled(c.rng))
		}
		return ps
	}
	for k := 0; k < n; k++ {
		ps = append(ps, randTiny(c.rng))
	}
	return ps
}

// tinyLars: the least angle path of each problem, down to a seventh
func (c *ctx) tinyLars(ps []*tinyProblem) rec {
	runs := []rec{}
	r := c.rng
	for _, t := range ps {
		X, y := t.data(r)
		num := []int{1, 1, 1, 3, 5, 9, 17}[r.Intn(7)]
		lmin := float64(num) / 7 * t.unit
		nodes := []*fs1.LassoLarsNode{}
		oc := "ok"
		if !t.Tie {
			c.setStage("LassoLars of %v %v down to %d/7", t.Cols, t.Y, num)
			oc = c.guard(func() { nodes = fs1.LassoLars(fs1.NewNormalizedData(X, y), lmin, &fs1.MorsePenroseCD{}) })
		}
		run := t.rec(oc)
		run["skip"] = t.Tie
		run["lmin"] = []int{num, 7}
		obs := []rec{}
		for _, nd := range nodes {
			obs = append(obs, rec{"l": sc(nd.Lamb/t.unit, 1e4), "sel": ints(nd.Selection), "b": scs(nd.Coeff, 1e4)})
		}
		run["obs"] = obs
		runs = append(runs, run)
	}
	return rec{"type": "exact", "runs": runs, "outcome": "ok"}
}

// tinyCd: coordinate descent for some regularisations, each solution starting from the one before, from nothing or far away
func (c *ctx) tinyCd(ps []*tinyProblem) rec {
	runs := []rec{}
	r := c.rng
	for _, t := range ps {
		X, y := t.data(r)
		run := t.rec("ok")
		obs := []rec{}
		var nd *fs1.NormalizedData
		oc := c.guard(func() { nd = fs1.NewNormalizedData(X, y) })
		var prev []float64
		for k := 0; k < 3 && oc == "ok"; k++ {
			num := 1 + r.Intn(14)
			lamb := float64(num) / 2 * t.unit / float64(len(y))
			var x0 []float64
			switch r.Intn(4) {
			case 0:
				x0 = append([]float64{}, prev...)
				if prev == nil {
					x0 = nil
				}
			case 1:
				for range t.Cols {
					x0 = append(x0, 3*r.NormFloat64())
				}
			case 2:
				x0 = make([]float64, len(t.Cols))
				x0[r.Intn(len(x0))] = float64(r.Intn(5) - 2)
			}
			c.setStage("LassoCrdDesc of %v %v at %d/2 from %v", t.Cols, t.Y, num, x0)
			// the covariance of the standard scores has (n-1)/n on its diagonal
			oc = c.guard(func() { prev = fs1.LassoCrdDesc(nd, lamb, &fs1.Empirical{}, x0, 1000000, 1e-9, &fs1.PureLasso{}) })
			if oc == "ok" {
				obs = append(obs, rec{"lam": []int{num, 2}, "b": scs(prev, 1e4)})
			}
		}
		run["outcome"], run["obs"] = oc, obs
		runs = append(runs, run)
	}
	return rec{"type": "exact", "runs": runs}
}

// tinyPath: a path of coordinate descent
func (c *ctx) tinyPath(ps []*tinyProblem) rec {
	runs := []rec{}
	r := c.rng
	for _, t := range ps {
		X, y := t.data(r)
		nums := map[int]bool{}
		for k := 1 + r.Intn(8); k > 0; k-- {
			nums[2*r.Intn(22)+1] = true
		}
		list := []int{}
		for k := range nums {
			list = append(list, k)
		}
		sort.Ints(list)
		lambs := []float64{}
		for _, k := range list {
			lambs = append(lambs, float64(k)/4*t.unit/float64(len(y)))
		}
		var nodes []*fs1.LassoLarsNode
		c.setStage("LassoCrdDescPath of %v %v at %v/4", t.Cols, t.Y, list)
		oc := c.guard(func() {
			nodes = fs1.LassoCrdDescPath(fs1.NewNormalizedData(X, y), &fs1.Empirical{}, lambs, 1000000, 1e-9, &fs1.PureLasso{})
		})
		run := t.rec(oc)
		run["lams"] = list
		obs := []rec{}
		for _, nd := range nodes {
			o := rec{"i": 0, "sel": []int{}, "b": []int{}}
			if nd != nil {
				o["sel"], o["b"] = ints(nd.Selection), scs(nd.Coeff, 1e4)
				for i, l := range lambs {
					if l == nd.Lamb {
						o["i"] = i + 1
					}
				}
			}
			obs = append(obs, o)
		}
		run["obs"] = obs
		runs = append(runs, run)
	}
	return rec{"type": "exact", "runs": runs, "outcome": "ok"}
}
