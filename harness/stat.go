package main

// Drivers of fits and criteria (C27), matching pursuit (C18), annealing (C10), stability selection (C22)
// and covariance thresholds (C23).

import (
	"math"
	"math/big"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C27"] = propDef{fn: c27, quick: 960, thorough: 18000, genFile: true, genChunk: 60}
	props["C18"] = propDef{fn: c18, quick: 1440, thorough: 24000, genFile: true, genChunk: 60}
}

// cols returns the sub-matrix with the features of the mask
func (d *idata) cols(mask int) *idata {
	sel := selOf(mask, d.p)
	e := newIdata(d.n, len(sel), d.kind)
	for i := range d.X {
		for j, s := range sel {
			e.X[i][j] = d.X[i][s]
		}
		e.y[i] = d.y[i]
	}
	return e
}

// wellScaled: no singular value is close to (but different from) zero
func (d *idata) wellScaled() bool {
	g := mat.NewSymDense(d.p, nil)
	for a := 0; a < d.p; a++ {
		for b := a; b < d.p; b++ {
			s := 0.0
			for i := 0; i < d.n; i++ {
				s += float64(d.X[i][a] * d.X[i][b])
			}
			g.SetSym(a, b, s)
		}
	}
	var e mat.EigenSym
	if !e.Factorize(g, false) {
		return false
	}
	rk := newGram(d).rank(1<<uint(d.p) - 1)
	v := e.Values(nil) // ascending
	for i, x := range v {
		if i >= d.p-rk && x < 5e-2 {
			return false
		}
	}
	return true
}

func flat(m mat.Matrix, s float64) [][]int {
	nr, nc := m.Dims()
	t := make([][]int, nr)
	for i := range t {
		t[i] = make([]int, nc)
		for j := range t[i] {
			t[i][j] = sc(m.At(i, j), s)
		}
	}
	return t
}

func ints64(v []int64) []int {
	t := make([]int, len(v))
	for i, x := range v {
		t[i] = int(x)
	}
	return t
}

func intRows(v [][]int64) [][]int {
	t := make([][]int, len(v))
	for i := range v {
		t[i] = ints64(v[i])
	}
	return t
}

func maxInt64(m [][]int64) int64 {
	x := int64(1)
	for _, r := range m {
		for _, v := range r {
			if v > x {
				x = v
			}
			if -v > x {
				x = -v
			}
		}
	}
	return x
}

func c27(c *ctx) rec {
	r := c.rng
	if c.genLines(60) != nil || r.Intn(20) == 0 {
		return c.tinyFits(c.tinyDesigns(20))
	}
	runs := []rec{}
	var d *idata
	mixed := 0
	for {
		p := 1 + r.Intn(6)
		n := 3 + r.Intn(12)
		d = genData(r, c.id, p+1, n) // structured kinds want a few features
		if r.Intn(10) == 0 {
			p = 6 + r.Intn(8)
			d = genData(r, r.Intn(3), p, p+3+r.Intn(30))
		}
		if r.Intn(2) == 0 {
			m := 1 + r.Intn(1<<uint(d.p)-1)
			d = d.cols(m)
		}
		if d.wellScaled() {
			mixed = 0
			if r.Intn(2) == 0 {
				mixed = 14
			}
			d.rescale(r, mixed)
			break
		}
	}
	g := newGram(d)
	full := 1<<uint(d.p) - 1
	// fit
	{
		X, y := d.dense(), d.yf()
		var fit, pred []float64
		var rss float64
		var mx mat.Matrix = X
		if r.Intn(3) == 0 {
			mx = mat.Transpose{Matrix: mat.DenseCopyOf(X.T())}
		}
		c.setStage("Fit n=%d p=%d kind=%s", d.n, d.p, d.kind)
		oc := c.guard(func() {
			fit = fs1.Fit(mx, y)
			pred = fs1.Predict(mx, fit)
			rss = fs1.Rss(mx, fit, y)
		})
		run := rec{"k": "fit", "outcome": oc, "X": intRows(d.X), "y": ints64(d.y)}
		if oc == "ok" {
			truth := g.solve(full)
			fit = d.un(full, fit)
			unit := func(x []float64) []float64 {
				t := make([]float64, len(x))
				for i := range t {
					t[i] = math.Ldexp(x[i], -d.ye)
				}
				return t
			}
			given := y
			pred, y = unit(pred), unit(y)
			rss = math.Ldexp(rss, -2*d.ye)
			mX := float64(maxInt64(d.X))
			mY := float64(maxInt64([][]int64{d.y}))
			bound := float64(d.n) * mX * (mY + float64(d.p)*mX*math.Max(maxAbs(fit), maxAbs(truth)))
			S := math.Min(1e5, 1.2e9/bound)
			ss := 0.0
			for i := range pred {
				ss += (pred[i] - y[i]) * (pred[i] - y[i])
			}
			R := math.Min(1e3, math.Sqrt(1e9/(ss+1e-9)))
			run["len"] = len(fit) == d.p && len(pred) == d.n
			run["c"], run["truth"], run["pred"] = scs(fit, S), scs(truth, S), scs(pred, S)
			run["S"] = int(S)
			// scaled by the truncated scale
			run["sy"] = func() []int {
				t := make([]int, d.n)
				for i := range t {
					t[i] = sc(y[i], S)
				}
				return t
			}()
			res := make([]int, d.n)
			for i := range res {
				res[i] = sc(y[i]-pred[i], R)
			}
			run["res"], run["rss"] = res, sc(rss, R*R)
			run["kept"] = mat.Equal(X, d.dense()) && fmtEq(given, d.yf())
		}
		runs = append(runs, run)
	}
	// predictions and residuals of integer coefficients are exact
	{
		big := d
		if r.Intn(5) == 0 { // also of many rows
			big = newIdata(20+r.Intn(180), 1+r.Intn(9), "tall")
			for i := range big.X {
				for j := range big.X[i] {
					big.X[i][j] = ri(r, -5, 5)
				}
			}
		}
		d := big
		co := make([]float64, d.p)
		ci := make([]int, d.p)
		for j := range co {
			ci[j] = int(ri(r, -20, 20))
			co[j] = float64(ci[j])
		}
		y := make([]float64, d.n)
		yi := make([]int, d.n)
		for i := range y {
			yi[i] = int(ri(r, -300, 300))
			y[i] = float64(yi[i])
		}
		var pred []float64
		one := make([]int, d.n)
		rss := 0.0
		c.setStage("Predict/Rss")
		oc := c.guard(func() {
			D := (&idata{n: d.n, p: d.p, X: d.X}).dense()
			pred = fs1.Predict(D, co)
			rss = fs1.Rss(D, co, y)
			for i := range one {
				row := make([]float64, d.p)
				for j := range row {
					row[j] = float64(d.X[i][j])
				}
				one[i] = sc(fs1.PredictOne(row, co), 1)
			}
		})
		runs = append(runs, rec{"k": "exact", "outcome": oc, "X": intRows(d.X), "y": yi, "c": ci, "pred": scs(pred, 1), "one": one, "rss": sc(rss, 1),
			"inexact": oc == "ok" && (rss != math.Round(rss))})
	}
	// criteria
	{
		pts := []rec{}
		c.setStage("criteria")
		oc := c.guard(func() {
			n := 1 + r.Intn(30)
			if r.Intn(6) == 0 {
				n = 30 + r.Intn(170)
			}
			for k := 0; k <= n+2; k++ {
				if n > 30 && k < n-3 && r.Intn(10) > 0 {
					continue
				}
				rss := math.Exp(r.Float64()*24 - 12)
				if r.Intn(10) == 0 {
					rss = 1e-12
				}
				S := 1e5
				if n > 30 {
					S = 1e4
				}
				pts = append(pts, rec{"k": k, "n": n, "S": int(S), "nlr": sc(float64(n)*math.Log(rss), S), "kln": sc(float64(k)*math.Log(float64(n)), S),
					"aic": sc(fs1.Aic(k, n, rss), S), "aicc": sc(fs1.Aicc(k, n, rss), S), "bic": sc(fs1.Bic(k, n, rss), S)})
			}
		})
		runs = append(runs, rec{"k": "crit", "outcome": oc, "pts": pts})
	}
	// pseudo inverses (truth: minimum norm solutions for the unit vectors)
	{
		pinv := mat.NewDense(d.p, d.n, nil)
		for i := 0; i < d.n; i++ {
			e := &idata{n: d.n, p: d.p, X: d.X, y: make([]int64, d.n)}
			e.y[i] = 1
			pinv.SetCol(i, newGram(e).solve(full))
		}
		var xtx, hat mat.Dense
		xtx.Mul(pinv, pinv.T())
		hat.Mul((&idata{n: d.n, p: d.p, X: d.X}).dense(), pinv)
		var a, b, h *mat.Dense
		wide := d.dense()
		eWide := append([]int{}, d.e...)
		if mixed > 0 && d.e != nil && d.e[0] != d.e[d.p-1] { // the gram matrix squares the condition number
			for j := range d.e {
				d.e[j] /= 3
			}
		}
		if d.e != nil { // the tolerance applies to the squares
			s, lo := d.minSing(g), 0
			for _, e := range d.e {
				lo = minI(lo, e)
			}
			for math.Ldexp(s, lo) < 1.3e-3 {
				lo++
				for j := range d.e {
					d.e[j]++
				}
			}
		}
		c.setStage("PseudoInverse n=%d p=%d", d.n, d.p)
		oc := c.guard(func() {
			var svd, svd2 mat.SVD
			svd.Factorize(wide, mat.SVDThin)
			a = fs1.PseudoInverse(&svd, 1e-6)
			svd2.Factorize(d.dense(), mat.SVDThin)
			b = fs1.PseudoInverseXTX(&svd2, 1e-6)
			h = fs1.DenumMatrixGcv(d.dense())
		})
		run := rec{"k": "pinv", "outcome": oc}
		if oc == "ok" {
			if d.e != nil {
				scaleBack(a, &idata{p: d.p, e: eWide}, true, false)
			}
			scaleBack(b, d, true, true)
			sa := 1e7 / math.Max(1e-3, mat.Max(absM(pinv)))
			sb := 1e7 / math.Max(1e-3, mat.Max(absM(&xtx)))
			run["a"], run["ta"] = flat(a, sa), flat(pinv, sa)
			run["b"], run["tb"] = flat(b, sb), flat(&xtx, sb)
			run["h"], run["th"] = flat(h, 1e4), flat(&hat, 1e4)
			run["rank"] = g.rank(full)
			run["X"] = intRows(d.X)
		}
		runs = append(runs, run)
	}
	// generalised cross validation
	{
		n := 2 + r.Intn(12)
		data, pred := make([]float64, n), make([]float64, n)
		den := mat.NewDense(n, n, nil)
		terms := make([]float64, n)
		tot := 0.0
		for i := range data {
			data[i], pred[i] = r.NormFloat64()*3, r.NormFloat64()*3
			for j := range data {
				den.Set(i, j, r.NormFloat64())
			}
			den.Set(i, i, 0.98*r.Float64())
			if r.Intn(6) == 0 {
				den.Set(i, i, 0)
			}
			terms[i] = (data[i] - pred[i]) * (data[i] - pred[i]) / (1 - den.At(i, i))
			tot += terms[i]
		}
		S := 1e7 / tot
		gcv := 0.0
		c.setStage("Gcv")
		oc := c.guard(func() { gcv = fs1.Gcv(den, data, pred) })
		runs = append(runs, rec{"k": "gcv", "outcome": oc, "terms": scs(terms, S), "g2n": sc(gcv*gcv*float64(n), S), "pos": gcv >= 0})
	}
	return rec{"runs": runs}
}

// scaleBack translates rows (and columns) that belong to features to the problem without scaling
func scaleBack(m *mat.Dense, d *idata, rows, cols bool) {
	if d.e == nil {
		return
	}
	nr, nc := m.Dims()
	m.Apply(func(i, j int, v float64) float64 {
		if rows && nr == d.p {
			v = math.Ldexp(v, d.e[i])
		}
		if cols && nc == d.p {
			v = math.Ldexp(v, d.e[j])
		}
		return v
	}, m)
}

func fmtEq(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func absM(m *mat.Dense) *mat.Dense {
	var o mat.Dense
	o.Apply(func(i, j int, v float64) float64 { return math.Abs(v) }, m)
	return &o
}

// ---------------------------------------------------------------------------------- C18

// exactResiduals returns, for a model, the cosines of all features with the residual and its root mean square
func (d *idata) exactResiduals(mask int, g *gram) (cos []float64, rms float64, zero bool) {
	co := []float64{}
	if mask != 0 {
		co = g.solve(mask)
	}
	sel := selOf(mask, d.p)
	res := make([]float64, d.n)
	ss := 0.0
	for i := range res {
		res[i] = float64(d.y[i])
		for k, s := range sel {
			res[i] -= co[k] * float64(d.X[i][s])
		}
		ss += res[i] * res[i]
	}
	cos = make([]float64, d.p)
	for j := range cos {
		a, b := 0.0, 0.0
		for i := range res {
			a += res[i] * float64(d.X[i][j])
			b += float64(d.X[i][j]) * float64(d.X[i][j])
		}
		if mask>>uint(j)&1 == 0 && ss > 0 {
			cos[j] = math.Abs(a) / math.Sqrt(b*ss)
		}
	}
	return cos, math.Ldexp(math.Sqrt(ss/float64(d.n)), d.ye), false
}

// unAll is un for a coefficient for every feature
func (d *idata) unAll(co []float64) []float64 {
	return d.un(1<<uint(d.p)-1, co)
}

func c18(c *ctx) rec {
	r := c.rng
	if c.genLines(60) != nil || r.Intn(20) == 0 {
		return c.tinyOmps(c.tinyDesigns(20))
	}
	var d *idata
	large := r.Intn(8) == 0 // many features in general position
	for {
		p := 2 + r.Intn(6)
		n := 3 + r.Intn(12)
		d = genData(r, r.Intn(10), p, n)
		if large {
			p = 8 + r.Intn(15)
			d = genData(r, r.Intn(3), p, p+4+r.Intn(40))
		}
		ny := false
		for _, v := range d.y {
			ny = ny || v != 0
		}
		if ny && d.wellScaled() {
			d.rescale(r, 10)
			if r.Intn(4) == 0 { // residuals far below and above one
				d.ye += r.Intn(61) - 40
			}
			break
		}
	}
	g := newGram(d)
	var rss []*big.Rat
	if !large {
		rss = g.allRss()
	}
	zero := func(mask int) bool {
		if large {
			_, rms, _ := d.exactResiduals(mask, g)
			return math.Ldexp(rms, -d.ye) < 1e-6
		}
		return rss[mask].Sign() == 0
	}
	rmsOf := func(m int) float64 {
		v, _ := rss[m].Float64()
		return math.Ldexp(math.Sqrt(v/float64(d.n)), d.ye)
	}
	// tolerances: zero, tiny, huge, and between the residuals of two random models
	tol := 0.0
	switch r.Intn(6) {
	case 0:
		tol = 1e-6
	case 1:
		tol = 1e6
	case 2, 3, 4:
		if large {
			_, rms, _ := d.exactResiduals(0, g)
			tol = rms * r.Float64()
		} else {
			tol = rmsOf(r.Intn(1<<uint(d.p))) * (0.5 + r.Float64())
		}
	}
	for m := range rss { // no decision at the edge of the tolerance
		if v := rmsOf(m); tol > 0 && math.Abs(v-tol) < 1e-6*tol {
			tol *= 1.00001
		}
	}
	X, y := d.dense(), d.yf()
	var res *fs1.OmpResult
	c.setStage("Omp n=%d p=%d kind=%s tol=%g", d.n, d.p, d.kind, tol)
	oc := c.guard(func() { res = fs1.Omp(X, y, tol) })
	out := rec{"outcome": oc, "p": d.p, "kind": d.kind}
	if oc != "ok" {
		return out
	}
	S := 1e8 / math.Ldexp(math.Max(1, math.Sqrt(float64(d.n)*float64(maxInt64([][]int64{d.y}))*float64(maxInt64([][]int64{d.y})))), d.ye)
	steps := []rec{}
	mask := 0
	legal := true
	for _, f := range res.Order {
		if f < 0 || f >= d.p {
			legal = false
			break
		}
		cos, rms, _ := d.exactResiduals(mask, g)
		steps = append(steps, rec{"f": f, "cos": scs(cos, 1e8), "rms": sc(rms, S), "stop": tol > 0 && rms < tol, "zero": zero(mask)})
		mask |= 1 << uint(f)
	}
	out["legal"] = legal
	out["steps"] = steps
	cos, rms, _ := d.exactResiduals(mask, g)
	out["end"] = rec{"cos": scs(cos, 1e8), "rms": sc(rms, S), "stop": tol > 0 && rms < tol, "zero": zero(mask)}
	truth := make([]float64, d.p)
	if mask != 0 {
		for k, s := range selOf(mask, d.p) {
			truth[s] = g.solve(mask)[k]
		}
	}
	Q := 1e8 / math.Max(1e-3, maxAbs(truth))
	out["len"] = len(res.Coeff)
	out["co"], out["truth"] = scs(d.unAll(res.Coeff), Q), scs(truth, Q)
	out["kept"] = mat.Equal(X, d.dense()) && fmtEq(y, d.yf())
	return out
}
