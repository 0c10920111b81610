package main

// Exact facts about integer data sets (rational arithmetic, independent of the code under test).

import (
	"math"
	"math/big"
)

type gram struct {
	p int
	g [][]*big.Rat // (p+1)x(p+1), last row/column is the target
}

func newGram(d *idata) *gram {
	p := d.p
	g := &gram{p: p, g: make([][]*big.Rat, p+1)}
	at := func(i, j int) int64 {
		if j == p {
			return d.y[i]
		}
		return d.X[i][j]
	}
	for a := 0; a <= p; a++ {
		g.g[a] = make([]*big.Rat, p+1)
		for b := 0; b <= p; b++ {
			s := int64(0)
			for i := 0; i < d.n; i++ {
				s += at(i, a) * at(i, b)
			}
			g.g[a][b] = new(big.Rat).SetInt64(s)
		}
	}
	return g
}

// allRss computes the exact residual sum of squares of every sub-model (index: bit mask)
func (g *gram) allRss() []*big.Rat {
	p := g.p
	res := make([]*big.Rat, 1<<uint(p))
	var rec func(j int, mask int, m [][]*big.Rat)
	rec = func(j int, mask int, m [][]*big.Rat) {
		if j == p {
			res[mask] = m[p][p]
			return
		}
		rec(j+1, mask, m)
		// pivot on feature j
		if m[j][j].Sign() == 0 {
			rec(j+1, mask|1<<uint(j), m)
			return
		}
		m2 := make([][]*big.Rat, p+1)
		inv := new(big.Rat).Inv(m[j][j])
		for a := j + 1; a <= p; a++ {
			m2[a] = make([]*big.Rat, p+1)
		}
		for a := j + 1; a <= p; a++ {
			f := new(big.Rat).Mul(m[a][j], inv)
			for b := a; b <= p; b++ {
				v := new(big.Rat)
				if f.Sign() != 0 && m[j][b].Sign() != 0 {
					v.Mul(f, m[j][b])
					v.Sub(m[a][b], v)
				} else {
					v = m[a][b]
				}
				m2[a][b] = v
				m2[b][a] = v
			}
		}
		rec(j+1, mask|1<<uint(j), m2)
	}
	rec(0, 0, g.g)
	return res
}

// solve returns the least-squares solution of minimum norm for the features in mask (ascending)
func (g *gram) solve(mask int) []float64 {
	if x := g.solveRegular(mask); x != nil {
		return x
	}
	return g.solveAny(mask)
}

// solveRegular is fraction-free elimination (nil for singular systems)
func (g *gram) solveRegular(mask int) []float64 {
	sel := selOf(mask, g.p)
	k := len(sel)
	a := make([][]*big.Int, k)
	get := func(q *big.Rat) *big.Int {
		if !q.IsInt() {
			return nil
		}
		return new(big.Int).Set(q.Num())
	}
	for i := range a {
		a[i] = make([]*big.Int, k+1)
		for j := 0; j <= k; j++ {
			c := g.p
			if j < k {
				c = sel[j]
			}
			if a[i][j] = get(g.g[sel[i]][c]); a[i][j] == nil {
				return nil
			}
		}
	}
	prev := big.NewInt(1)
	var t, u big.Int
	for q := 0; q < k; q++ { // a Gram matrix that is regular has regular leading minors
		if a[q][q].Sign() == 0 {
			return nil
		}
		for i := 0; i < k; i++ {
			if i == q {
				continue
			}
			for j := q + 1; j <= k; j++ {
				t.Mul(a[q][q], a[i][j])
				u.Mul(a[i][q], a[q][j])
				t.Sub(&t, &u)
				a[i][j].Quo(&t, prev)
			}
			a[i][q].SetInt64(0)
		}
		for i := 0; i < q; i++ { // the rows above are kept on the same denominator
			a[i][i].Set(a[q][q])
		}
		prev = new(big.Int).Set(a[q][q])
	}
	res := make([]float64, k)
	for i := range res {
		res[i], _ = new(big.Rat).SetFrac(a[i][k], prev).Float64()
	}
	return res
}

func (g *gram) solveAny(mask int) []float64 {
	sel := selOf(mask, g.p)
	k := len(sel)
	// particular solution by elimination with skipping of dependent columns, and null space basis
	a := make([][]*big.Rat, k)
	for i := range a {
		a[i] = make([]*big.Rat, k+1)
		for j := 0; j < k; j++ {
			a[i][j] = new(big.Rat).Set(g.g[sel[i]][sel[j]])
		}
		a[i][k] = new(big.Rat).Set(g.g[sel[i]][g.p])
	}
	piv := []int{} // pivot column of row r
	row := 0
	for col := 0; col < k && row < k; col++ {
		pr := -1
		for r := row; r < k; r++ {
			if a[r][col].Sign() != 0 {
				pr = r
				break
			}
		}
		if pr < 0 {
			continue
		}
		a[row], a[pr] = a[pr], a[row]
		inv := new(big.Rat).Inv(a[row][col])
		for c := 0; c <= k; c++ {
			a[row][c] = new(big.Rat).Mul(a[row][c], inv)
		}
		for r := 0; r < k; r++ {
			if r != row && a[r][col].Sign() != 0 {
				f := new(big.Rat).Set(a[r][col])
				for c := 0; c <= k; c++ {
					t := new(big.Rat).Mul(f, a[row][c])
					a[r][c] = new(big.Rat).Sub(a[r][c], t)
				}
			}
		}
		piv = append(piv, col)
		row++
	}
	c0 := make([]*big.Rat, k)
	for i := range c0 {
		c0[i] = new(big.Rat)
	}
	isPiv := make([]bool, k)
	for r, c := range piv {
		c0[c] = new(big.Rat).Set(a[r][k])
		isPiv[c] = true
	}
	var null [][]*big.Rat
	for f := 0; f < k; f++ {
		if isPiv[f] {
			continue
		}
		v := make([]*big.Rat, k)
		for i := range v {
			v[i] = new(big.Rat)
		}
		v[f].SetInt64(1)
		for r, c := range piv {
			v[c] = new(big.Rat).Neg(a[r][f])
		}
		null = append(null, v)
	}
	// project c0 orthogonally to the null space (Gram-Schmidt)
	dot := func(x, y []*big.Rat) *big.Rat {
		s := new(big.Rat)
		for i := range x {
			s.Add(s, new(big.Rat).Mul(x[i], y[i]))
		}
		return s
	}
	sub := func(x, y []*big.Rat, f *big.Rat) {
		for i := range x {
			x[i] = new(big.Rat).Sub(x[i], new(big.Rat).Mul(f, y[i]))
		}
	}
	for i := range null {
		for j := 0; j < i; j++ {
			sub(null[i], null[j], new(big.Rat).Quo(dot(null[i], null[j]), dot(null[j], null[j])))
		}
		sub(c0, null[i], new(big.Rat).Quo(dot(c0, null[i]), dot(null[i], null[i])))
	}
	res := make([]float64, k)
	for i := range res {
		res[i], _ = c0[i].Float64()
	}
	return res
}

// rank of the features in mask
func (g *gram) rank(mask int) int {
	if g.solveRegular(mask) != nil {
		return popcount(mask)
	}
	sel := selOf(mask, g.p)
	k := len(sel)
	a := make([][]*big.Rat, k)
	for i := range a {
		a[i] = make([]*big.Rat, k)
		for j := range a[i] {
			a[i][j] = new(big.Rat).Set(g.g[sel[i]][sel[j]])
		}
	}
	r := 0
	for c := 0; c < k; c++ {
		pr := -1
		for i := r; i < k; i++ {
			if a[i][c].Sign() != 0 {
				pr = i
				break
			}
		}
		if pr < 0 {
			continue
		}
		a[r], a[pr] = a[pr], a[r]
		for i := r + 1; i < k; i++ {
			f := new(big.Rat).Quo(a[i][c], a[r][c])
			for j := c; j < k; j++ {
				a[i][j] = new(big.Rat).Sub(a[i][j], new(big.Rat).Mul(f, a[r][j]))
			}
		}
		r++
	}
	return r
}

// facts are the tables the specification works with
type facts struct {
	d    *idata
	g    *gram
	rss  []float64 // exact, rounded to float64
	zero []bool    // exactly zero
	ok   bool      // no residual is so small that clamping is in doubt

	penTLC, logrTLC []int // the table as computed by TLC
}

func newFacts(d *idata) *facts {
	g := newGram(d)
	rs := g.allRss()
	f := &facts{d: d, g: g, rss: make([]float64, len(rs)), zero: make([]bool, len(rs)), ok: true}
	for i, r := range rs {
		f.rss[i], _ = r.Float64()
		f.rss[i] = math.Ldexp(f.rss[i], 2*d.ye)
		f.zero[i] = r.Sign() == 0
		if !f.zero[i] && f.rss[i] < 1e-7 {
			f.ok = false
		}
	}
	return f
}

const rssTol = 1e-12
const scoreScale = 1e4

// pen is the penalty part of AICc (independent formulation)
func penAicc(k, n int) float64 {
	den := float64(n - k - 1)
	if k >= n-1 {
		den = 1
	}
	return 2*float64(k) + 2*float64(k)*float64(k+1)/den
}

func (f *facts) aicc(mask int) float64 {
	return penAicc(popcount(mask), f.d.n) + float64(f.d.n)*math.Log(math.Max(f.rss[mask], rssTol))
}

// logr[m] = n log(clamped rss)
func (f *facts) logr() []int {
	r := make([]int, len(f.rss))
	for i, v := range f.rss {
		x := float64(f.d.n) * math.Log(math.Max(v, rssTol))
		if popcount(i) >= f.d.n {
			x = float64(f.d.n) * math.Log(rssTol)
		}
		r[i] = sc(x, scoreScale)
	}
	return r
}

func (f *facts) pens() []int {
	r := make([]int, f.d.p+1)
	for k := range r {
		r[k] = sc(penAicc(k, f.d.n), scoreScale)
	}
	return r
}
