package main

// Drivers of the data sets, selections and utilities: C19, C20, C21, C24, C25, C28.

import (
	"bytes"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C19"] = propDef{fn: c19, quick: 600, thorough: 24000, genFile: true, genChunk: 60}
	props["C20"] = propDef{fn: c20, quick: 200, thorough: 8000, genFile: true, genChunk: 60}
	props["C21"] = propDef{fn: c21, quick: 160, thorough: 6000, genFile: true, genChunk: 200}
	props["C24"] = propDef{fn: c24, quick: 600, thorough: 12000, genFile: true, genChunk: 10}
	props["C25"] = propDef{fn: c25, quick: 240, thorough: 9000, genFile: true, genChunk: 60}
	props["C28"] = propDef{fn: c28, quick: 1500, thorough: 40000, genFile: true, genChunk: 60}
}

// ---------------------------------------------------------------------------------- C19

// token returns a number as it may stand in a CSV file, and its value
func (c *ctx) token() (string, float64) {
	r := c.rng
	val := func(s string) float64 {
		q, ok := new(big.Rat).SetString(strings.TrimSuffix(s, "."))
		if !ok {
			panic("harness: " + s)
		}
		f, _ := q.Float64()
		return f
	}
	var s string
	switch r.Intn(12) {
	case 0: // not a number
		s = []string{"abc", "", "NA", "1.2.3", "--1", "12abc", "1e", "n/a", "1,5", "1 2", "-", "0x", "1e5e3", "½", "1e+", "e5", "."}[r.Intn(17)]
		return s, 0
	case 1:
		s = fmt.Sprintf("%d", r.Intn(2001)-1000)
	case 2:
		s = fmt.Sprintf("%.3e", r.NormFloat64()*1e3)
	case 3:
		s = fmt.Sprintf("+%.2f", math.Abs(r.NormFloat64())*10)
	case 4:
		s = fmt.Sprintf(".%d", 1+r.Intn(999))
	case 5:
		s = fmt.Sprintf("%d.", r.Intn(99))
	case 6:
		s = fs(r.NormFloat64() * math.Pow(10, float64(r.Intn(21)-10)))
	case 7:
		s = fmt.Sprintf("%.*f", 1+r.Intn(20), r.NormFloat64()*100)
	case 8:
		s = fmt.Sprintf("%dE%d", r.Intn(99)-49, r.Intn(9)-4)
	case 9:
		s = fmt.Sprintf("%08.3f", r.Float64()*100)
	default:
		s = fs(r.NormFloat64())
	}
	v := val(s)
	if r.Intn(4) == 0 {
		s = []string{" ", "  ", "\t", ""}[r.Intn(4)] + s + []string{" ", "   ", "\t", ""}[r.Intn(4)]
	}
	return s, v
}

func (c *ctx) header(n int) []string {
	names := []string{}
	if n > 20 {
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("column %d", i))
		}
		return names
	}
	seen := map[string]bool{}
	for len(names) < n {
		s := c.name()
		if c.rng.Intn(2) == 0 {
			s = fmt.Sprintf("f%d", c.rng.Intn(30))
		}
		if len(names) == 0 {
			s = strings.TrimLeft(s, "#")
			s = []string{"n", "n", "#", "# n", " n"}[c.rng.Intn(5)] + s
		}
		if !seen[s] {
			seen[s] = true
			names = append(names, s)
		}
	}
	return names
}

// micro splits x*1e6 (rounded) into two integers TLC can handle
func micro(x float64) []int {
	if math.IsNaN(x) || math.IsInf(x, 0) || math.Abs(x) > 1e11 {
		return []int{numNaN, 0}
	}
	q := new(big.Rat).SetFloat64(x)
	q.Mul(q, big.NewRat(1000000, 1))
	n := new(big.Int)
	// floor(q + 1/2)
	q.Add(q, big.NewRat(1, 2))
	m := new(big.Int)
	n.DivMod(q.Num(), q.Denom(), m)
	h, l := new(big.Int), new(big.Int)
	h.DivMod(n, big.NewInt(1000000000), l)
	return []int{int(h.Int64()), int(l.Int64())}
}

func microTok(s string) []int {
	q, ok := new(big.Rat).SetString(s)
	if !ok {
		return []int{numNaN, 0}
	}
	f, _ := q.Float64()
	return micro(f)
}

func dsetProj(d *fs1.Dataset, f func(float64) interface{}) rec {
	nr, nc := d.X.Dims()
	X := make([][]interface{}, nr)
	for i := range X {
		X[i] = make([]interface{}, nc)
		for j := range X[i] {
			X[i][j] = f(d.X.At(i, j))
		}
	}
	Y := make([]interface{}, len(d.Y))
	for i := range Y {
		Y[i] = f(d.Y[i])
	}
	return rec{"x": X, "y": Y, "names": append([]string{}, d.Names...), "t": d.TargetCol}
}

// c19hist reads and writes a table of few cells again and again (CsvFile.tla)
func (c *ctx) c19hist(line string) rec {
	r := c.rng
	var t struct {
		Cells [][]int
		Vals  [][]int
		Hist  []int
	}
	if err := json.Unmarshal([]byte(line), &t); err != nil {
		panic(err)
	}
	texts := [][]string{{"0", "0.0", "-0", "0e3", "000", "+0"}, {"1", "1.0", "1e0", "01", "+1", "10E-1", "0.1e1"},
		{"-2.5", "-2.50", "-25e-1", "-02.5", "-0.25E1"}, {"x", "", "1,0", "1 2", "--1", "\"", "1.2.3", "e1", "2-", "one"}, {"31415", "31415.0", "3.1415e4", "3.1415E+04"}}
	names := c.header(len(t.Cells[0]))
	rows := [][]string{}
	for _, row := range t.Cells {
		line := []string{}
		for _, k := range row {
			tx := texts[k-1][r.Intn(len(texts[k-1]))]
			if tx != "" && tx != "\"" && r.Intn(5) == 0 {
				tx = []string{" ", "\t", ""}[r.Intn(3)] + tx + []string{" ", "\t", ""}[r.Intn(3)]
			}
			line = append(line, tx)
		}
		rows = append(rows, line)
	}
	var buf bytes.Buffer
	w := csv.NewWriter(&buf)
	w.Write(names)
	w.WriteAll(rows)
	w.Flush()
	files := r.Intn(2) == 0
	fn := filepath.Join(c.dir, "hist.csv")
	if files {
		os.WriteFile(fn, buf.Bytes(), 0644)
	}
	mil := func(x float64) interface{} { return sc(x, 1000) }
	obs := []rec{}
	c.setStage("history %v of %q", t.Hist, buf.String())
	oc := c.guard(func() {
		for _, target := range t.Hist {
			var d *fs1.Dataset
			if files {
				d = fs1.ReadCSV(fn, target)
				d.Save(fn)
				b, _ := os.ReadFile(fn)
				buf.Reset()
				buf.Write(b)
			} else {
				d = fs1.ParseCSV(bytes.NewReader(buf.Bytes()), target)
				buf.Reset()
				d.SaveHandle(&buf)
			}
			feat := []string{}
			for j := 0; j+1 < len(names); j++ {
				feat = append(feat, d.GetFeatName(j))
			}
			o := rec{"d": dsetProj(d, mil), "feat": feat, "head": []string{}, "file": [][]int{}}
			recs, err := csv.NewReader(bytes.NewReader(buf.Bytes())).ReadAll()
			if err == nil && len(recs) > 0 {
				o["head"] = recs[0]
				tab := [][]int{}
				for _, row := range recs[1:] {
					vals := []int{}
					for _, s := range row {
						v, err := strconv.ParseFloat(s, 64)
						if err != nil {
							v = math.NaN()
						}
						vals = append(vals, sc(v, 1000))
					}
					tab = append(tab, vals)
				}
				o["file"] = tab
			}
			obs = append(obs, o)
		}
	})
	return rec{"k": "hist", "outcome": oc, "names": names, "vals": t.Vals, "hist": t.Hist, "obs": obs}
}

func c19(c *ctx) rec {
	r := c.rng
	if ls := c.genLines(60); ls != nil {
		runs := []rec{}
		for _, l := range ls {
			runs = append(runs, c.c19hist(l))
		}
		return rec{"runs": runs}
	}
	runs := []rec{}
	exact := func(x float64) interface{} { return fs(x + 0) }
	mic := func(x float64) interface{} { return micro(x) }
	empty := rec{"x": [][]int{}, "y": []int{}, "names": []string{}, "t": -99}
	// ---- reading
	for k := 0; k < 2; k++ {
		nr, nc := 1+r.Intn(8), 2+r.Intn(7)
		switch r.Intn(40) {
		case 0:
			nr, nc = 200+r.Intn(1500), 2+r.Intn(3)
		case 1: // lines longer than usual buffers
			nr, nc = 1+r.Intn(2), 4000+r.Intn(3000)
		}
		names := c.header(nc)
		vals := make([][]string, nr)
		rows := [][]string{}
		for i := range vals {
			row := []string{}
			for j := 0; j < nc; j++ {
				t, v := c.token()
				if v == 0 {
					v = 0 // drop the sign of zero
				}
				row = append(row, t)
				vals[i] = append(vals[i], fs(v+0))
			}
			rows = append(rows, row)
		}
		var buf bytes.Buffer
		w := csv.NewWriter(&buf)
		w.UseCRLF = r.Intn(4) == 0
		w.Write(names)
		w.WriteAll(rows)
		w.Flush()
		target := r.Intn(2*nc) - nc
		var d *fs1.Dataset
		c.setStage("ParseCSV target=%d %.500q", target, buf.String())
		oc := c.guard(func() {
			if k == 0 {
				d = fs1.ParseCSV(bytes.NewReader(buf.Bytes()), target)
			} else {
				fn := filepath.Join(c.dir, "in.csv")
				os.WriteFile(fn, buf.Bytes(), 0644)
				d = fs1.ReadCSV(fn, target)
			}
		})
		run := rec{"k": "parse", "vals": vals, "names": names, "target": target, "outcome": oc, "d": empty}
		if oc == "ok" && d != nil {
			run["d"] = dsetProj(d, func(x float64) interface{} {
				if x == 0 {
					x = 0
				}
				return exact(x)
			})
		}
		runs = append(runs, run)
	}
	// ---- writing and reading back
	for k := 0; k < 2; k++ {
		nr, nc := 1+r.Intn(8), 1+r.Intn(6)
		switch r.Intn(40) {
		case 0:
			nr, nc = 200+r.Intn(800), 1+r.Intn(3)
		case 1:
			nr, nc = 1+r.Intn(2), 2000+r.Intn(6000)
		}
		d := &fs1.Dataset{X: newDense(nr, nc), Y: make([]float64, nr), TargetCol: r.Intn(nc + 1), Names: c.header(nc + 1)}
		num := func() float64 {
			switch r.Intn(5) {
			case 0:
				return float64(r.Intn(41) - 20)
			case 1:
				return r.NormFloat64() * 1e-6
			case 2:
				return r.NormFloat64() * 1e8
			}
			return r.NormFloat64() * 10
		}
		for i := 0; i < nr; i++ {
			d.Y[i] = num()
			for j := 0; j < nc; j++ {
				d.X.Set(i, j, num())
			}
		}
		run := rec{"k": "save", "in": dsetProj(d, mic), "text": [][]string{}, "back": empty, "after": empty, "num": [][][]int{}}
		var buf bytes.Buffer
		fn := filepath.Join(c.dir, "out.csv")
		var d2 *fs1.Dataset
		t := d.TargetCol
		if r.Intn(3) == 0 {
			t -= nc + 1
		}
		c.setStage("Save/ReadCSV target=%d", d.TargetCol)
		oc := c.guard(func() {
			if k == 0 {
				d.SaveHandle(&buf)
				d2 = fs1.ParseCSV(bytes.NewReader(buf.Bytes()), t)
			} else {
				os.WriteFile(fn, []byte(strings.Repeat("old content\n", 300)), 0644)
				d.Save(fn)
				b, _ := os.ReadFile(fn)
				buf.Write(b)
				d2 = fs1.ReadCSV(fn, t)
			}
		})
		run["outcome"] = oc
		if oc == "ok" && d2 != nil {
			recs, err := csv.NewReader(&buf).ReadAll()
			if err == nil && len(recs) > 0 {
				run["text"] = recs[:1]
				nums := [][][]int{}
				for _, row := range recs[1:] {
					ns := [][]int{}
					for _, s := range row {
						ns = append(ns, microTok(s))
					}
					nums = append(nums, ns)
				}
				run["num"] = nums
			}
			run["back"] = dsetProj(d2, mic)
			run["after"] = dsetProj(d, mic)
		}
		runs = append(runs, run)
	}
	return rec{"runs": runs}
}

// ---------------------------------------------------------------------------------- C20

type dsOp struct {
	Op    string `json:"op"`
	D     int    `json:"d"`
	Feats []int  `json:"feats"`
	I     int    `json:"i"`
	J     int    `json:"j"`
	V     int    `json:"v"`
	S     string `json:"s"`
}

func c20(c *ctx) rec {
	r := c.rng
	type seq struct {
		N   int    `json:"n"`
		P   int    `json:"p"`
		T   int    `json:"t"`
		Ops []dsOp `json:"ops"`
	}
	seqs := []seq{}
	if ls := c.genLines(60); ls != nil {
		for _, l := range ls {
			var s seq
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				panic(err)
			}
			seqs = append(seqs, s)
		}
	} else {
		for k := 0; k < 2; k++ {
			s := seq{N: 1 + r.Intn(4), P: 1 + r.Intn(6)}
			if r.Intn(8) == 0 {
				s.P = 7 + r.Intn(34)
			}
			s.T = r.Intn(s.P + 1)
			width := []int{s.P}
			for q := 0; q < 3+r.Intn(12); q++ {
				d := r.Intn(len(width))
				if r.Intn(2) == 0 {
					d = len(width) - 1
				}
				o := dsOp{D: d + 1, Feats: []int{}}
				switch r.Intn(6) {
				case 0, 1:
					o.Op = "sub"
					o.Feats = r.Perm(width[d])[:1+r.Intn(width[d])]
					width = append(width, len(o.Feats))
				case 2:
					o.Op = "copy"
					width = append(width, width[d])
				case 3:
					o.Op, o.I, o.J, o.V = "wx", r.Intn(s.N), r.Intn(width[d]), 1000+r.Intn(9000)
				case 4:
					o.Op, o.I, o.V = "wy", r.Intn(s.N), 1000+r.Intn(9000)
				case 5:
					o.Op, o.I, o.S = "wn", r.Intn(width[d]+1), fmt.Sprintf("w%d", r.Intn(1000000))
				}
				s.Ops = append(s.Ops, o)
			}
			seqs = append(seqs, s)
		}
	}
	runs := []rec{}
	for _, s := range seqs {
		d := &fs1.Dataset{X: newDense(s.N, s.P), Y: make([]float64, s.N), TargetCol: s.T}
		for j := 0; j <= s.P; j++ {
			d.Names = append(d.Names, fmt.Sprintf("n%d", j))
		}
		for i := 0; i < s.N; i++ {
			d.Y[i] = float64(-1 - i)
			for j := 0; j < s.P; j++ {
				d.X.Set(i, j, float64(10*(i+1)+j+1))
			}
		}
		proj := func(x float64) interface{} { return sc(x, 1) }
		heap := []*fs1.Dataset{d}
		init := dsetProj(d, proj)
		obs := []rec{}
		c.setStage("dataset ops %v", s)
		oc := c.guard(func() {
			for _, o := range s.Ops {
				x := heap[o.D-1]
				switch o.Op {
				case "sub":
					f := append([]int{}, o.Feats...)
					heap = append(heap, x.GetSubset(f))
					for i := range f {
						f[i] = -7 // the list of the caller is not part of the subset
					}
				case "copy":
					heap = append(heap, x.Copy())
				case "wx":
					x.X.Set(o.I, o.J, float64(o.V))
				case "wy":
					x.Y[o.I] = float64(o.V)
				case "wn":
					x.Names[o.I] = o.S
				}
				hs := []rec{}
				for _, h := range heap {
					p := dsetProj(h, proj)
					_, nc := h.X.Dims()
					fn, no := []string{}, []int{}
					for q := 0; q < nc; q++ {
						nm := h.GetFeatName(q)
						fn = append(fn, nm)
						no = append(no, h.FeatNoByName(nm))
					}
					p["fn"], p["no"] = fn, no
					hs = append(hs, p)
				}
				eq := [][]bool{}
				for _, a := range heap {
					row := []bool{}
					for _, b := range heap {
						row = append(row, a.IsEqual(b))
					}
					eq = append(eq, row)
				}
				obs = append(obs, rec{"heap": hs, "eq": eq})
			}
		})
		runs = append(runs, rec{"init": init, "ops": s.Ops, "obs": obs, "outcome": oc})
	}
	return rec{"runs": runs}
}

// ---------------------------------------------------------------------------------- C21

func c21(c *ctx) rec {
	r := c.rng
	type pr struct {
		N int   `json:"n"`
		A []int `json:"a"`
		B []int `json:"b"`
	}
	prs := []pr{}
	if ls := c.genLines(200); ls != nil {
		for _, l := range ls {
			var s pr
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				panic(err)
			}
			prs = append(prs, s)
		}
	} else {
		for k := 0; k < 6; k++ {
			n := 1 + r.Intn(40)
			if r.Intn(3) == 0 {
				n = 1 + r.Intn(300)
			}
			a := append([]int{}, r.Perm(n)[:r.Intn(n+1)]...)
			b := append([]int{}, r.Perm(n)[:r.Intn(n+1)]...)
			switch r.Intn(6) {
			case 0:
				b = append([]int{}, a...)
			case 1:
				b = []int{}
				for i := 0; i < n; i++ {
					if !fs1.ExistInt(a, i) {
						b = append(b, i)
					}
				}
			case 2:
				b = append([]int{}, a[:len(a)/2]...)
			}
			prs = append(prs, pr{n, a, b})
		}
	}
	runs := []rec{}
	if c.gen == nil || len(prs) > 0 && r.Intn(3) == 0 { // every feature is replaced by many
		n := 25 + r.Intn(60)
		t := 1 + r.Intn(70000/n)
		A, B := append([]int{}, r.Perm(n)[:r.Intn(4)]...), append([]int{}, r.Perm(n)[:r.Intn(4)]...)
		if r.Intn(2) == 0 {
			A = append([]int{}, r.Perm(n)[:1]...)
			B = append([]int{}, A...)
			if r.Intn(2) == 0 {
				B = append(B, (A[0]+1)%n)
			}
		}
		many := func(s []int) []int {
			u := []int{}
			for _, v := range s {
				for k := 0; k < t; k++ {
					u = append(u, v+k*n)
				}
			}
			return u
		}
		a, b := many(A), many(B)
		var k1, k2 float64
		c.setStage("CohenKappa(%v,%v,%d) %d times as large", A, B, n, t)
		oc := c.guard(func() {
			k1 = fs1.CohenKappa(a, b, n*t)
			k2 = fs1.CohenKappa(b, a, n*t)
		})
		S := 100000.0
		runs = append(runs, rec{"n": n, "a": ints(A), "b": ints(B), "S": int(S), "outcome": oc, "times": t,
			"ab": sc(k1, S), "ba": sc(k2, S), "ren": sc(k1, S), "aa": "1", "bb": "1", "range": k1 <= 1 && k1 >= -1-1e-12 && k2 <= 1, "kept": true})
	}
	for _, p := range prs {
		perm := r.Perm(p.N)
		ren := func(s []int) []int {
			t := make([]int, len(s))
			for i, j := range r.Perm(len(s)) {
				t[i] = perm[s[j]]
			}
			return t
		}
		a, b := append([]int{}, p.A...), append([]int{}, p.B...)
		var k1, k2, k3, ka, kb float64
		c.setStage("CohenKappa(%v,%v,%d)", a, b, p.N)
		oc := c.guard(func() {
			k1 = fs1.CohenKappa(a, b, p.N)
			k2 = fs1.CohenKappa(b, a, p.N)
			k3 = fs1.CohenKappa(ren(p.A), ren(p.B), p.N)
			ka = fs1.CohenKappa(a, ren2(r.Perm(len(a)), a), p.N)
			kb = fs1.CohenKappa(b, b, p.N)
		})
		S := 100000.0
		if p.N > 100 {
			S = 5000
		}
		runs = append(runs, rec{"n": p.N, "a": ints(p.A), "b": ints(p.B), "S": int(S), "outcome": oc,
			"ab": sc(k1, S), "ba": sc(k2, S), "ren": sc(k3, S), "aa": fs(ka), "bb": fs(kb),
			"range": k1 <= 1 && k1 >= -1-1e-12 && k2 <= 1, "kept": fs1.EqualInt(a, p.A) && fs1.EqualInt(b, p.B)})
	}
	return rec{"runs": runs}
}

func ren2(perm, a []int) []int {
	t := make([]int, len(a))
	for i, j := range perm {
		t[i] = a[j]
	}
	return t
}

// ---------------------------------------------------------------------------------- C24

func c24(c *ctx) rec {
	r := c.rng
	runs := []rec{}
	intCol := func(v []float64) []int {
		t := make([]int, len(v))
		for i, x := range v {
			n := math.Round(x)
			if math.Abs(x-n) > 1e-9*math.Max(1, math.Abs(n)) || math.Abs(n) > 1.5e9 {
				t[i] = numNaN
			} else {
				t[i] = int(n)
			}
		}
		return t
	}
	primes := []int{2, 3, 5, 7, 11, 13}
	type expansion struct { // a history that TLC found (Expansion.tla)
		P      int
		Blocks []struct {
			K    string
			Cols []int
			D    int
			Pw   []int
		}
	}
	found := []expansion{}
	for _, l := range c.genLines(10) {
		var e expansion
		if err := json.Unmarshal([]byte(l), &e); err != nil {
			panic(err)
		}
		found = append(found, e)
	}
	nrun := 2
	if len(found) > 0 {
		nrun = len(found)
	}
	for k := 0; k < nrun; k++ {
		n, p := 1+r.Intn(3), 1+r.Intn(4)
		if len(found) > 0 {
			p = found[k].P
		} else if r.Intn(5) == 0 {
			p = 5 + r.Intn(2)
		} else if r.Intn(8) == 0 {
			n = 20 + r.Intn(60)
		}
		X := newDense(n, p)
		xi := make([][]int, n)
		perm := r.Perm(len(primes))
		for i := range xi {
			xi[i] = make([]int, p)
			for j := range xi[i] {
				xi[i][j] = r.Intn(7) - 3
				if i == 0 {
					xi[i][j] = primes[perm[j]]
				}
				X.Set(i, j, float64(xi[i][j]))
			}
		}
		d0 := r.Intn(5)
		most := map[int]int{4: 4, 5: 3, 6: 2}[p]
		if r.Intn(8) == 0 {
			most = map[int]int{4: 5, 5: 4, 6: 3}[p]
			d0 += r.Intn(2)
		}
		if p >= 4 && d0 > most {
			d0 = most
		}
		if p == 1 && r.Intn(2) == 0 {
			d0 = 5 + r.Intn(4)
		}
		if p == 2 && r.Intn(3) == 0 {
			d0 = 5 + r.Intn(3)
		}
		blocks := []rec{{"k": "seq", "cols": r.Perm(p)[:0], "d": 0}}
		all := []int{}
		for j := 0; j < p; j++ {
			all = append(all, j)
		}
		own := len(found) == 0 && r.Intn(3) == 0 // an own start without NewLazyMatrix
		if own {
			d0 = 0
		}
		if len(found) > 0 {
			d0 = found[k].Blocks[0].D
		}
		blocks[0] = rec{"k": "seq", "cols": all, "d": d0, "pw": []int{}}
		if len(found) > 0 {
			for _, b := range found[k].Blocks[1:] {
				blocks = append(blocks, rec{"k": b.K, "cols": b.Cols, "d": b.D, "pw": append([]int{}, b.Pw...)})
			}
		}
		for q := 0; len(found) == 0 && q < r.Intn(3); q++ {
			cols := append([]int{}, r.Perm(p)[:1+r.Intn(minI(p, 4))]...)
			if r.Intn(3) == 0 {
				pw := make([]int, p)
				for _, j := range cols {
					pw[j] = r.Intn(3)
				}
				blocks = append(blocks, rec{"k": "one", "cols": cols, "d": 0, "pw": pw})
			} else {
				blocks = append(blocks, rec{"k": "seq", "cols": cols, "d": r.Intn(4), "pw": []int{}})
			}
		}
		var counts []int
		var cols, full [][]int
		numCols := 0
		c.setStage("lazy matrix p=%d d=%d blocks=%v", p, d0, blocks)
		oc := c.guard(func() {
			var m *fs1.LazyPowerMatrix
			if own {
				m = &fs1.LazyPowerMatrix{X: X}
			} else {
				m = fs1.NewLazyMatrix(X, d0)
			}
			counts = append(counts, m.NumCols())
			for _, b := range blocks[1:] {
				if b["k"] == "one" {
					pw := map[int]int{}
					for j, e := range b["pw"].([]int) {
						if e > 0 || r.Intn(2) == 0 {
							pw[j] = e
						}
					}
					m.AddPower(pw)
				} else {
					m.AddPowerSequence(append([]int{}, b["cols"].([]int)...), b["d"].(int))
				}
				counts = append(counts, m.NumCols())
			}
			numCols = m.NumCols()
			for j := 0; j < numCols; j++ {
				col := m.GetCol(j)
				cols = append(cols, intCol(col))
				for i := range col {
					col[i] = -1 // a returned column is a copy
				}
			}
			f := m.FullMatrix()
			fr, fc := f.Dims()
			for j := 0; j < fc; j++ {
				v := make([]float64, fr)
				for i := range v {
					v[i] = f.At(i, j)
				}
				full = append(full, intCol(v))
			}
		})
		if cols == nil {
			cols, full = [][]int{}, [][]int{}
		}
		runs = append(runs, rec{"k": "lazy", "x": xi, "blocks": blocks, "counts": ints(counts), "cols": cols, "full": full, "outcome": oc})
	}
	// Cartesian product
	nv, k := 1+r.Intn(4), r.Intn(6)
	for pow(nv, k) > 700 {
		k--
	}
	vals := []int{}
	for _, j := range r.Perm(9)[:nv] {
		vals = append(vals, j-4)
	}
	in := append([]int{}, vals...)
	var tuples [][]int
	clobbered := 0
	c.setStage("IterProduct(%v,%d)", vals, k)
	oc := c.guard(func() {
		res := fs1.IterProduct(in, k)
		for _, t := range res {
			tuples = append(tuples, append([]int{}, t...))
		}
		for i := range res { // write to (and append to) tuple i: no other tuple changes
			for j := range res[i] {
				res[i][j] = 1000 + i
			}
			_ = append(res[i], 5555)
		}
		for i := range res {
			for j := range res[i] {
				if res[i][j] != 1000+i {
					clobbered++
				}
			}
		}
	})
	if tuples == nil {
		tuples = [][]int{}
	}
	runs = append(runs, rec{"k": "product", "vals": vals, "rep": k, "tuples": tuples, "clobbered": clobbered, "outcome": oc,
		"kept": fs1.EqualInt(in, vals)})
	return rec{"runs": runs}
}

func pow(a, b int) int {
	r := 1
	for ; b > 0; b-- {
		r *= a
	}
	return r
}

// ---------------------------------------------------------------------------------- C25

func c25(c *ctx) rec {
	r := c.rng
	type seq struct {
		N   int     `json:"n"`
		Ops [][]int `json:"ops"` // <<kind, index>>: kind 1 is set, 2 is flip
	}
	seqs := []seq{}
	generated := false
	if ls := c.genLines(60); ls != nil {
		generated = true
		for _, l := range ls {
			var s seq
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				panic(err)
			}
			seqs = append(seqs, s)
		}
	} else {
		sizes := []int{1, 2, 7, 8, 9, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 63, 64, 65, 70, 130, 200, 256, 257, 300}
		s := seq{N: sizes[r.Intn(len(sizes))]}
		for q := 0; q < 2+r.Intn(30); q++ {
			s.Ops = append(s.Ops, []int{1 + r.Intn(2), r.Intn(s.N)})
		}
		seqs = append(seqs, s)
	}
	idx := func(b []bool) []int {
		t := []int{}
		for i, v := range b {
			if v {
				t = append(t, i)
			}
		}
		return t
	}
	runs := []rec{}
	for _, s := range seqs {
		obs := []rec{}
		c.setStage("model n=%d ops=%v", s.N, s.Ops)
		oc := c.guard(func() {
			m := fs1.NewModel(s.N)
			for k := 0; k <= len(s.Ops); k++ {
				if k > 0 {
					if s.Ops[k-1][0] == 1 {
						m.Set(s.Ops[k-1][1])
					} else {
						m.Flip(s.Ops[k-1][1])
					}
				}
				get := []int{}
				for i := 0; i < s.N; i++ {
					if m.Get(i) {
						get = append(get, i)
					}
				}
				b := m.ToBools()
				o := rec{"get": get, "bools": idx(b), "len": len(b), "num": fs1.NumFeatures(b), "sel": ints(fs1.SelectedFeatures(b))}
				obs = append(obs, o)
			}
		})
		runs = append(runs, rec{"k": "ops", "n": s.N, "ops": s.Ops, "obs": obs, "outcome": oc})
	}
	if generated {
		return rec{"runs": runs}
	}
	// conversions of one random feature set
	n := 1 + r.Intn(12)
	if r.Intn(4) == 0 {
		n = 1 + r.Intn(130)
	}
	S := []int{}
	for i := 0; i < n; i++ {
		if r.Intn(2) == 0 {
			S = append(S, i)
		}
	}
	if r.Intn(6) == 0 {
		S = []int{}
	}
	b := make([]bool, n)
	for _, i := range S {
		b[i] = true
	}
	keep := append([]bool{}, b...)
	rows := 1 + r.Intn(4)
	X := newDense(rows, n)
	for i := 0; i < rows; i++ {
		for j := 0; j < n; j++ {
			X.Set(i, j, float64(1000*(i+1)+j))
		}
	}
	matInts := func(m mat.Matrix) [][]int {
		a, k := m.Dims()
		t := make([][]int, a)
		for i := range t {
			t[i] = make([]int, k)
			for j := range t[i] {
				t[i][j] = sc(m.At(i, j), 1)
			}
		}
		return t
	}
	var fromSel, gcs, lcs [][]int
	var nodeSel, itemSel, sel, full, sparse []int
	nodeLen, itemLen, num := -1, -1, -1
	design, view, viewT := [][]int{}, [][]int{}, [][]int{}
	full, sparse = []int{}, []int{}
	vec, vecT, slice := []int{}, []int{}, []int{}
	rowsIdx := []int{}
	for i := 0; i < r.Intn(6); i++ {
		rowsIdx = append(rowsIdx, r.Intn(rows))
	}
	colsIdx := []int{}
	for i := 0; i < 1+r.Intn(5); i++ {
		colsIdx = append(colsIdx, r.Intn(n))
	}
	vlen, indep, vdims := -1, true, []int{}
	wasFlip := false
	child0, child1, childLvl := []int{}, []int{}, []int{}
	lvl := r.Intn(n)
	c.setStage("conversions n=%d S=%v", n, S)
	oc := c.guard(func() {
		sh := append([]int{}, S...)
		r.Shuffle(len(sh), func(i, j int) { sh[i], sh[j] = sh[j], sh[i] })
		fb := fs1.Selected2Model(sh, n)
		fromSel = [][]int{idx(fb), {len(fb)}}
		sel = ints(fs1.SelectedFeatures(b))
		num = fs1.NumFeatures(b)
		nd := fs1.NewNode(lvl, append([]bool{}, b...))
		sp := nd.ToSparseCoeff()
		nodeSel, nodeLen = ints(sp.Selection), len(sp.Coeff)
		it := fs1.NewSAItem(b)
		itemSel, itemLen = ints(it.Selection), len(it.Coeff)
		coeff := make([]float64, len(S))
		for i := range coeff {
			coeff[i] = float64(7*i + 1)
		}
		full = scs(fs1.FullCoeffVector(n, append([]int{}, S...), coeff), 1)
		nd.Coeff = coeff
		sparse = scs(nd.ToSparseCoeff().Coeff, 1)
		for st := 0; st <= n; st++ {
			g, l := fs1.Gcs(b, st), fs1.Lcs(b, st)
			gcs = append(gcs, idx(g))
			lcs = append(lcs, idx(l))
			indep = indep && len(g) == n && len(l) == n
			for i := range g { // the results are copies
				g[i], l[i] = !g[i], !l[i]
			}
		}
		if len(S) > 0 {
			dm := fs1.GetDesignMatrix(b, X)
			design = matInts(dm)
		}
		iv := fs1.NewIndexedColView(X, append([]int{}, colsIdx...))
		view, viewT = matInts(&iv), matInts(iv.T())
		cv := fs1.NewIndexedColVecView(X.ColView(colsIdx[0]), append([]int{}, rowsIdx...))
		vlen = cv.Len()
		a1, a2 := cv.Dims()
		vdims = []int{a1, a2}
		for i := 0; i < cv.Len(); i++ {
			vec = append(vec, sc(cv.AtVec(i), 1))
			vecT = append(vecT, sc(cv.T().At(0, i), 1))
		}
		sv := fs1.NewSliceVec([]float64{3, 1, 4, 1, 5}[:1+r.Intn(5)])
		d1, d2 := sv.Dims()
		slice = []int{sv.Len(), d1, d2}
		for i := 0; i < sv.Len(); i++ {
			slice = append(slice, sc(sv.AtVec(i), 1), sc(sv.At(i, 0), 1), sc(sv.T().At(0, i), 1))
		}
		pn := fs1.NewNode(lvl, append([]bool{}, b...))
		k0, k1 := pn.GetChildNode(false), pn.GetChildNode(true)
		child0, child1, childLvl = idx(k0.Model), idx(k1.Model), []int{k0.Level, k1.Level, len(k0.Model), len(k1.Model)}
		wasFlip = k1.WasFlipped && !k0.WasFlipped
		for i := range k0.Model {
			k0.Model[i], k1.Model[i] = !k0.Model[i], !k1.Model[i]
		}
		indep = indep && fmt.Sprint(pn.Model) == fmt.Sprint(keep)
	})
	if oc == "ok" {
		indep = indep && fmt.Sprint(b) == fmt.Sprint(keep)
		runs = append(runs, rec{"k": "conv", "n": n, "s": S, "rows": rows, "lvl": lvl, "fromsel": fromSel, "sel": sel, "num": num,
			"nodesel": nodeSel, "nodelen": nodeLen, "itemsel": itemSel, "itemlen": itemLen, "full": full, "sparse": sparse, "gcs": gcs, "lcs": lcs,
			"design": design, "view": view, "viewt": viewT, "colsidx": colsIdx, "rowsidx": rowsIdx, "vec": vec, "vect": vecT, "vlen": vlen,
			"vdims": vdims, "slice": slice, "indep": indep, "child0": child0, "child1": child1, "childlvl": childLvl, "wasflip": wasFlip, "outcome": oc})
	} else {
		runs = append(runs, rec{"k": "conv", "outcome": oc})
	}
	return rec{"runs": runs}
}

// ---------------------------------------------------------------------------------- C28

func c28(c *ctx) rec {
	r := c.rng
	runs := []rec{}
	add := func(k string, m rec, oc string) {
		m["k"], m["outcome"] = k, oc
		runs = append(runs, m)
	}
	randInts := func(n, span int) []int {
		t := make([]int, n)
		for i := range t {
			t[i] = r.Intn(2*span+1) - span
		}
		return t
	}
	toF := func(a []int) []float64 {
		f := make([]float64, len(a))
		for i, v := range a {
			f[i] = float64(v) / 8
		}
		return f
	}
	same := func(a, b []float64) bool { return fmt.Sprint(a) == fmt.Sprint(b) }
	spans := []int{1, 3, 50, 100000}
	orderRun := func(a []int) {
		f := toF(a)
		g := toF(a)
		ai := append([]int{}, a...)
		var perm []int
		var amin, amax, mx, mn, mf, sum int
		abs := []int{}
		c.setStage("sort/extremes %v", a)
		oc := c.guard(func() {
			perm = fs1.Argsort(f)
			amin, amax = fs1.Argmin(f), fs1.Argmax(f)
			mx, mn = fs1.MaxInt(ai), fs1.MinInt(ai)
			mf = sc(fs1.MinFloat(f), 8)
			sum = fs1.Sum(ai)
			abs = scs(fs1.Abs(append([]float64{}, f...)), 8)
		})
		add("order", rec{"a": a, "perm": ints(perm), "amin": amin, "amax": amax, "max": mx, "min": mn, "minf": mf, "sum": sum, "abs": abs,
			"kept": same(f, g) && fs1.EqualInt(a, ai)}, oc)
	}
	unionRun := func(s1, s2 []int) {
		a, b := append(make([]int, 0, len(s1)+r.Intn(5)), s1...), append([]int{}, s2...)
		if r.Intn(4) == 0 && len(a) == 0 {
			a = nil
		}
		var u []int
		ex := []bool{}
		all := []bool{}
		eq := []bool{}
		c.setStage("UnionInt(%v,%v)", s1, s2)
		oc := c.guard(func() {
			for v := -1; v < 16; v++ {
				ex = append(ex, fs1.ExistInt(b, v))
			}
			for v := 0; v < 3; v++ {
				all = append(all, fs1.All(b, v))
			}
			o := append([]int{}, b...)
			if len(o) > 0 && r.Intn(2) == 0 {
				o[r.Intn(len(o))] = r.Intn(15)
			}
			if len(o) > 0 && r.Intn(3) == 0 {
				o[len(o)-1] = r.Intn(15)
			}
			eq = append(eq, fs1.EqualInt(b, o) == (fmt.Sprint(b) == fmt.Sprint(o)), !fs1.EqualInt(b, append(append([]int{}, b...), 3)))
			u = fs1.UnionInt(a, b)
		})
		add("union", rec{"s1": s1, "s2": s2, "u": ints(u), "ex": ex, "all": all, "eq": eq, "kept": fs1.EqualInt(b, s2)}, oc)
	}
	rearrangeRun := func(nr, nc int, ord []int) {
		X := newDense(nr, nc)
		for i := 0; i < nr; i++ {
			for j := 0; j < nc; j++ {
				X.Set(i, j, float64(100*i+j))
			}
		}
		cols := [][]int{}
		kept := true
		c.setStage("RearrangeDense(%d,%v)", nc, ord)
		oc := c.guard(func() {
			Y := fs1.RearrangeDense(X, append([]int{}, ord...))
			a, b := Y.Dims()
			for j := 0; j < b; j++ {
				col := []int{}
				for i := 0; i < a; i++ {
					col = append(col, sc(Y.At(i, j), 1))
				}
				cols = append(cols, col)
			}
			Y.Set(0, 0, -5)
			for i := 0; i < nr; i++ {
				for j := 0; j < nc; j++ {
					kept = kept && X.At(i, j) == float64(100*i+j)
				}
			}
		})
		add("rearrange", rec{"nr": nr, "nc": nc, "ord": ord, "cols": cols, "kept": kept}, oc)
	}
	if ls := c.genLines(60); ls != nil { // inputs that TLC enumerated (Utilities.tla)
		for _, l := range ls {
			var g struct {
				Kind string
				A, B []int
			}
			if err := json.Unmarshal([]byte(l), &g); err != nil {
				panic(err)
			}
			a, b := append([]int{}, g.A...), append([]int{}, g.B...)
			switch g.Kind {
			case "order":
				orderRun(a)
			case "union":
				unionRun(a, b)
			case "cols":
				rearrangeRun(1+r.Intn(3), len(b), a)
			}
		}
		return rec{"runs": runs}
	}
	// sorting, extremes
	{
		n := 1 + r.Intn(20)
		if r.Intn(5) == 0 {
			n = 20 + r.Intn(60)
		}
		a := randInts(n, spans[r.Intn(4)])
		if r.Intn(4) == 0 {
			sort.Ints(a)
		}
		if r.Intn(4) == 0 {
			for i := range a {
				a[i] = -absI(a[i]) - 1
			}
		}
		orderRun(a)
	}
	// unions and membership
	{
		n := 1 + r.Intn(12)
		s1 := append([]int{}, r.Perm(15)[:r.Intn(n+1)]...)
		if r.Intn(6) == 0 {
			s1 = append([]int{}, r.Perm(100)[:r.Intn(100)]...)
		}
		s2 := []int{}
		for i := 0; i < r.Intn(10); i++ {
			s2 = append(s2, r.Intn(15))
		}
		if r.Intn(4) == 0 { // long, nearly constant
			v := r.Intn(3)
			s2 = s2[:0]
			for i := 20 + r.Intn(300); i > 0; i-- {
				s2 = append(s2, v)
			}
			if r.Intn(3) != 0 {
				k := len(s2) - 1
				if r.Intn(2) == 0 {
					k = r.Intn(len(s2))
				}
				s2[k] = r.Intn(15)
			}
		}
		unionRun(s1, s2)
	}
	// column rearrangement
	{
		nr, nc := 1+r.Intn(3), 1+r.Intn(7)
		if r.Intn(5) == 0 {
			nc = 8 + r.Intn(70)
		}
		rearrangeRun(nr, nc, append([]int{}, r.Perm(nc)[:r.Intn(nc+1)]...))
	}
	// model weights
	{
		n := 1 + r.Intn(8)
		if r.Intn(6) == 0 {
			n = 9 + r.Intn(60)
		}
		a := make([]float64, n)
		off := float64(r.Intn(3)) * 1000 * (r.Float64() - 0.5)
		span := []int{4000, 40000, 600000}[r.Intn(3)]
		for i := range a {
			a[i] = off + float64(r.Intn(span))/1000
		}
		in := append([]float64{}, a...)
		var w []float64
		c.setStage("WeightsFromAIC(%v)", a)
		oc := c.guard(func() { w = fs1.WeightsFromAIC(in) })
		sum := 0.0
		lw := []int{}
		for _, v := range w {
			sum += v
			lw = append(lw, sc(math.Log(v), 1e4))
		}
		add("weights", rec{"a": scs(a, 1e4), "lw": lw, "sum": sc(sum, 1e8)}, oc)
	}
	// weighted averages
	{
		nf := 1 + r.Intn(6)
		nm := r.Intn(5)
		scale := math.Ldexp(1, -r.Intn(2)*r.Intn(60)) // tiny weights count as well
		ws := make([]float64, nm)
		wi := []int{}
		sps := []fs1.SparseCoeff{}
		ss, cs := [][]int{}, [][]int{}
		for i := 0; i < nm; i++ {
			v := r.Intn(21) - 4
			wi = append(wi, v)
			ws[i] = float64(v) * scale
			s := append([]int{}, r.Perm(nf)[:r.Intn(nf+1)]...)
			if r.Intn(3) == 0 { // the whole model, in any order
				s = append([]int{}, r.Perm(nf)...)
			}
			co := randInts(len(s), 50)
			ss, cs = append(ss, s), append(cs, co)
			f := make([]float64, len(co))
			for j := range f {
				f[j] = float64(co[j])
			}
			sps = append(sps, fs1.SparseCoeff{Coeff: f, Selection: s})
		}
		var avg []float64
		c.setStage("WeightedAveragedCoeff(%v %v %v)", wi, ss, cs)
		oc := c.guard(func() { avg = fs1.WeightedAveragedCoeff(nf, ws, sps) })
		add("average", rec{"nf": nf, "w": wi, "ss": ss, "cs": cs, "avg": scs(avg, 1/scale)}, oc)
	}
	// coefficients of all features
	{
		nf := 1 + r.Intn(9)
		if r.Intn(6) == 0 {
			nf = 10 + r.Intn(200)
		}
		s := append([]int{}, r.Perm(nf)[:r.Intn(nf+1)]...)
		if r.Intn(2) == 0 {
			sort.Ints(s)
		}
		co := randInts(len(s), 2)
		f := make([]float64, len(co))
		for i := range f {
			f[i] = float64(co[i])
		}
		var v []float64
		c.setStage("FullCoeffVector(%d %v %v)", nf, s, co)
		oc := c.guard(func() { v = fs1.FullCoeffVector(nf, s, f) })
		add("full", rec{"nf": nf, "s": s, "co": co, "v": scs(v, 1)}, oc)
	}
	// log-spaced values
	{
		n := r.Intn(12)
		if r.Intn(6) == 0 {
			n = 12 + r.Intn(200)
		}
		lo := math.Exp(r.Float64()*10 - 8)
		hi := lo * math.Exp(r.Float64()*8)
		if r.Intn(4) == 0 {
			lo, hi = hi, lo
		}
		var v []float64
		c.setStage("Logspace(%v,%v,%d)", lo, hi, n)
		oc := c.guard(func() { v = fs1.Logspace(lo, hi, n) })
		ls := []int{}
		for _, x := range v {
			ls = append(ls, sc(math.Log(x), 1e6))
		}
		add("logspace", rec{"n": n, "lo": sc(math.Log(lo), 1e6), "hi": sc(math.Log(hi), 1e6), "logs": ls,
			"ends": n < 2 || oc != "ok" || len(v) != n || (math.Abs(v[0]-lo) <= 1e-12*lo && math.Abs(v[n-1]-hi) <= 1e-12*hi)}, oc)
	}
	// running logarithm of pruned counts
	{
		ks := []int{}
		vals := []int{}
		cur := -1.0
		var oc string
		n := 1 + r.Intn(8)
		k0 := r.Intn(20)
		c.setStage("NewLog2Pruned from %d", k0)
		oc = c.guard(func() {
			cur = float64(k0)
			for i := 0; i < n; i++ {
				k := r.Intn(24)
				ks = append(ks, k)
				cur = fs1.NewLog2Pruned(cur, k)
				x := math.Exp2(cur)
				if math.Abs(x-math.Round(x)) > 1e-6*math.Max(1, x) {
					x = math.NaN()
				}
				vals = append(vals, sc(x, 1))
			}
		})
		add("log2", rec{"k0": k0, "ks": ks, "vals": vals}, oc)
		// far apart magnitudes: the result is the larger one plus log2(1+2^-d)
		a, b := float64(r.Intn(2000)), r.Intn(2000)
		v := math.NaN()
		oc = c.guard(func() { v = fs1.NewLog2Pruned(a, b) })
		hi := math.Max(a, float64(b))
		d := int(hi - math.Min(a, float64(b)))
		add("log2far", rec{"d": d, "above": sc(v-hi, 1e6)}, oc)
	}
	return rec{"runs": runs}
}

func absI(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}
