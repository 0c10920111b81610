package main

// Designs with small integers, whose fits and matching pursuits LeastSquares.tla knows exactly (C18, C27).

import (
	"encoding/json"
	"math"
	"math/rand"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

type tinyDesign struct {
	Cols [][]int `json:"x"`
	Y    []int   `json:"y"`
}

func (t *tinyDesign) shuffled(r *rand.Rand) *tinyDesign {
	p := (&tinyProblem{Cols: t.Cols, Y: t.Y}).shuffled(r)
	s := &tinyDesign{Cols: p.Cols, Y: p.Y}
	for j := range s.Cols {
		if r.Intn(2) == 0 {
			for i := range s.Cols[j] {
				s.Cols[j][i] *= -1
			}
		}
	}
	return s
}

// noZero: no column vanishes
func (t *tinyDesign) noZero() bool {
	for _, col := range t.Cols {
		if dotInt(col, col) == 0 {
			return false
		}
	}
	return true
}

// randDesign has more rows and features than those of the design model when it has full rank
func randDesign(r *rand.Rand) *tinyDesign {
	for {
		n, p, top := 2+r.Intn(4), 1+r.Intn(4), 1
		if p <= 2 {
			top = 2
		}
		t := &tinyDesign{Y: make([]int, n)}
		for i := range t.Y {
			t.Y[i] = r.Intn(9) - 4
		}
		for j := 0; j < p; j++ {
			col := make([]int, n)
			for i := range col {
				col[i] = r.Intn(2*top+1) - top
			}
			t.Cols = append(t.Cols, col)
		}
		if (p <= 3 && n <= 4 && top == 1) || (&tinyProblem{Cols: t.Cols, Y: t.Y}).regular() {
			return t
		}
	}
}

func (c *ctx) tinyDesigns(n int) []*tinyDesign {
	ts := []*tinyDesign{}
	if ls := c.genLines(60); ls != nil {
		for _, l := range ls {
			var t tinyDesign
			if err := json.Unmarshal([]byte(l), &t); err != nil {
				panic(err)
			}
			ts = append(ts, t.shuffled(c.rng))
		}
		return ts
	}
	for k := 0; k < n; k++ {
		ts = append(ts, randDesign(c.rng))
	}
	return ts
}

// data in one of several layouts; the target is multiplied with 2^e
func (t *tinyDesign) data(r *rand.Rand) (*mat.Dense, []float64, int) {
	n, p := len(t.Y), len(t.Cols)
	e := 0
	if r.Intn(4) == 0 {
		e = r.Intn(31) - 15
	}
	y := make([]float64, n)
	for i, v := range t.Y {
		y[i] = math.Ldexp(float64(v), e)
	}
	X := mat.NewDense(n, p, nil)
	if r.Intn(3) == 0 { // a view of something larger
		big := mat.NewDense(n+2, p+2, nil)
		big.Apply(func(i, j int, v float64) float64 { return 7 + float64(i) }, big)
		X = big.Slice(1, n+1, 1, p+1).(*mat.Dense)
	}
	for j := range t.Cols {
		for i, v := range t.Cols[j] {
			X.Set(i, j, float64(v))
		}
	}
	return X, y, e
}

func scaled(x []float64, e int) []float64 {
	s := make([]float64, len(x))
	for i := range x {
		s[i] = math.Ldexp(x[i], e)
	}
	return s
}

func rows4(m *mat.Dense) [][]int {
	n, _ := m.Dims()
	o := [][]int{}
	for i := 0; i < n; i++ {
		o = append(o, scs(m.RawRowView(i), 1e4))
	}
	return o
}

// tinyFits: everything that C27 says about a design
func (c *ctx) tinyFits(ts []*tinyDesign) rec {
	runs := []rec{}
	for _, t := range ts {
		X, y, e := t.data(c.rng)
		run := rec{"k": "tiny", "x": t.Cols, "y": t.Y}
		c.setStage("Fit, PseudoInverse, Gcv of %v %v", t.Cols, t.Y)
		run["outcome"] = c.guard(func() {
			fit := fs1.Fit(X, y)
			pred := fs1.Predict(X, fit)
			rss := fs1.Rss(X, fit, y)
			var svd mat.SVD
			svd.Factorize(X, mat.SVDThin)
			a := fs1.PseudoInverse(&svd, 1e-6)
			b := fs1.PseudoInverseXTX(&svd, 1e-6)
			h := fs1.DenumMatrixGcv(X)
			run["c"], run["pred"], run["rss"] = scs(scaled(fit, -e), 1e4), scs(scaled(pred, -e), 1e4), sc(math.Ldexp(rss, -2*e), 1e4)
			run["a"], run["b"], run["h"] = rows4(a), rows4(b), rows4(h)
			run["g2n"] = numNaN
			one := false
			for i := range y {
				one = one || math.Abs(h.At(i, i)-1) < 1e-9
			}
			if !one {
				g := math.Ldexp(fs1.Gcv(h, y, pred), -e)
				run["g2n"] = sc(g*g*float64(len(y)), 1e4)
			}
		})
		runs = append(runs, run)
	}
	return rec{"runs": runs}
}

// tinyOmps: a matching pursuit with a tolerance between nothing and everything
func (c *ctx) tinyOmps(ts []*tinyDesign) rec {
	r := c.rng
	runs := []rec{}
	for _, t := range ts {
		zero := true
		for _, v := range t.Y {
			zero = zero && v == 0
		}
		if zero || !t.noZero() {
			continue
		}
		X, y, e := t.data(r)
		run := rec{"x": t.Cols, "y": t.Y}
		a, b := 0, 1
		if r.Intn(2) == 0 {
			a, b = 1+r.Intn(16), 1+r.Intn(9)
			if r.Intn(4) == 0 {
				a = 1 + r.Intn(100)
			}
		}
		q := a
		for k := b; k != 0; {
			q, k = k, q%k
		}
		run["tol"] = []int{a / q, b / q}
		run["outcome"] = c.guard(func() {
			c.setStage("Omp of %v %v tol^2=%d/%d", t.Cols, t.Y, a, b)
			res := fs1.Omp(X, y, math.Ldexp(math.Sqrt(float64(a)/float64(b)), e))
			order := []int{}
			for _, f := range res.Order {
				order = append(order, f+1)
			}
			run["order"], run["c"] = order, scs(scaled(res.Coeff, -e), 1e4)
		})
		runs = append(runs, run)
	}
	return rec{"type": "exact", "runs": runs, "outcome": "ok"}
}
