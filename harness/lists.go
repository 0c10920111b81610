package main

// Drivers of the result lists and their codecs: C06, C08, C09.

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"sort"
	"strings"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C06"] = propDef{fn: c06, quick: 60, thorough: 3000, genFile: true, genChunk: 60}
	props["C08"] = propDef{fn: c08, quick: 750, thorough: 24000, genFile: true, genChunk: 150}
	props["C09"] = propDef{fn: c09, quick: 60, thorough: 3000, genFile: true, genChunk: 200}
}

// genLines returns the generated behaviours of this case (nil: a random case)
func (c *ctx) genLines(chunk int) []string {
	a := c.id * chunk
	if a >= len(c.gen) {
		return nil
	}
	b := a + chunk
	if b > len(c.gen) {
		b = len(c.gen)
	}
	return c.gen[a:b]
}

// rankValues returns n ascending floats, now and then with infinities, negative numbers and close neighbours
func (c *ctx) rankValues(n int) []float64 {
	for {
		v := make([]float64, n)
		for i := range v {
			switch c.rng.Intn(6) {
			case 0:
				v[i] = -math.Exp(c.rng.Float64()*20 - 10)
			case 1:
				v[i] = math.Exp(c.rng.Float64()*20 - 10)
			case 2:
				v[i] = float64(c.rng.Intn(7) - 3)
			case 3:
				v[i] = 1 + float64(c.rng.Intn(50))*1e-15
			default:
				v[i] = c.rng.NormFloat64() * 100
			}
		}
		if c.rng.Intn(8) == 0 {
			v[0] = math.Inf(-1)
		}
		if c.rng.Intn(8) == 0 {
			v[n-1] = math.Inf(1)
		}
		sort.Float64s(v)
		ok := true
		for i := 1; i < n; i++ {
			if v[i] == v[i-1] {
				ok = false
			}
		}
		if ok {
			return v
		}
	}
}

func c06(c *ctx) rec {
	type seq struct {
		Cap int   `json:"cap"`
		Ss  []int `json:"ss"`
	}
	seqs := []seq{}
	if ls := c.genLines(60); ls != nil {
		for _, l := range ls {
			var s seq
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				panic(err)
			}
			seqs = append(seqs, s)
		}
	} else {
		for i := 0; i < 4; i++ {
			s := seq{Cap: 1 + c.rng.Intn(12)}
			if c.rng.Intn(4) == 0 {
				s.Cap = 1 + c.rng.Intn(40)
			}
			nr := 1 + c.rng.Intn(12)
			n := 1 + c.rng.Intn(40)
			if c.rng.Intn(8) == 0 { // long lists are looked at now and then
				s.Cap, n, nr = 20+c.rng.Intn(120), 60+c.rng.Intn(200), 1+c.rng.Intn(100)
			}
			mode := c.rng.Intn(4)
			for k := 0; k < n; k++ {
				v := 1 + c.rng.Intn(nr)
				switch mode {
				case 1:
					v = 1 + k*nr/n // ascending
				case 2:
					v = nr - k*nr/n
					if v < 1 {
						v = 1
					}
				}
				s.Ss = append(s.Ss, v)
			}
			seqs = append(seqs, s)
		}
	}
	runs := []rec{}
	for _, s := range seqs {
		nr := 1
		for _, v := range s.Ss {
			if v > nr {
				nr = v
			}
		}
		vals := c.rankValues(nr)
		rank := func(x float64) int {
			for i, v := range vals {
				if v == x {
					return i + 1
				}
			}
			return 0
		}
		obs := []rec{}
		c.setStage("highscore cap=%d seq=%v", s.Cap, s.Ss)
		oc := c.guard(func() {
			h := fs1.NewHighscore(s.Cap)
			codec := c.rng.Intn(4) == 0
			for k, v := range s.Ss {
				nd := fs1.NewNode(k+1, []bool{true})
				nd.Score = vals[v-1]
				h.Insert(nd)
				if codec && c.rng.Intn(6) == 0 && !math.IsInf(vals[0], 0) && !math.IsInf(vals[nr-1], 0) { // go on with the decoded list
					h2 := &fs1.Highscore{}
					if b, err := json.Marshal(h); err != nil || json.Unmarshal(b, h2) != nil {
						panic("goselect codec error")
					}
					h = h2
				}
				if len(s.Ss) > 45 && k+1 < len(s.Ss) && k%17 != 0 {
					continue
				}
				ids, sr := []int{}, []int{}
				for _, x := range listNodes(h) {
					ids = append(ids, x.Level)
				}
				for _, x := range h.Scores() {
					sr = append(sr, rank(x))
				}
				obs = append(obs, rec{"k": k + 1, "ids": ids, "sc": sr, "len": h.Len(), "best": rank(h.BestScore())})
			}
		})
		runs = append(runs, rec{"cap": s.Cap, "ss": s.Ss, "obs": obs, "outcome": oc})
	}
	return rec{"runs": runs}
}

func c09(c *ctx) rec {
	type seq struct {
		Cap   int   `json:"cap"`
		Score []int `json:"score"`
		Ops   []int `json:"ops"`
	}
	seqs := []seq{}
	if ls := c.genLines(200); ls != nil {
		for _, l := range ls {
			var s seq
			if err := json.Unmarshal([]byte(l), &s); err != nil {
				panic(err)
			}
			seqs = append(seqs, s)
		}
	} else {
		for i := 0; i < 4; i++ {
			s := seq{Cap: 1 + c.rng.Intn(12)}
			nk := 1 + c.rng.Intn(16)
			for k := 0; k < nk; k++ {
				s.Score = append(s.Score, 1+c.rng.Intn(nk))
			}
			nops := 3 + c.rng.Intn(50)
			if c.rng.Intn(8) == 0 { // long lists are looked at now and then
				s.Cap, nk, nops = 10+c.rng.Intn(30), 63, 60+c.rng.Intn(200)
				s.Score = nil
				for k := 0; k < nk; k++ {
					s.Score = append(s.Score, 1+c.rng.Intn(nk))
				}
			}
			for k := 0; k < nops; k++ {
				s.Ops = append(s.Ops, 1+c.rng.Intn(nk))
			}
			seqs = append(seqs, s)
		}
	}
	runs := []rec{}
	for _, s := range seqs {
		nk := len(s.Score)
		// selection of every key: pairwise different, also nested in each other
		p := 6
		sels := make([][]bool, nk)
		for k, m := range c.rng.Perm(63)[:nk] {
			sels[k] = bools(m+1, p)
		}
		if nk >= 2 && c.rng.Intn(2) == 0 { // one selection is a prefix of another one
			sels[0], sels[1] = bools(3, p), bools(1, p)
			for k := 2; k < nk; k++ {
				if m := maskOf(sels[k]); m == 3 || m == 1 {
					sels[k] = bools(63-m-(k%2)*8, p)
				}
			}
			seen := map[int]bool{}
			dup := false
			for _, b := range sels {
				dup = dup || seen[maskOf(b)]
				seen[maskOf(b)] = true
			}
			if dup {
				for k, m := range c.rng.Perm(63)[:nk] {
					sels[k] = bools(m+1, p)
				}
			}
		}
		// the features stand far apart in a large number of features, where short
		// descriptions of a selection (words of bits) do not tell them apart
		pos := []int{0, 1, 2, 3, 4, 5}
		switch c.rng.Intn(4) {
		case 0:
			step := []int{8, 16, 31, 32, 63, 64, 10}[c.rng.Intn(7)]
			for i := range pos {
				pos[i] = i * step
			}
		case 1:
			for i := 1; i < len(pos); i++ {
				pos[i] = pos[i-1] + 1 + c.rng.Intn(60)
			}
		}
		for k := range sels {
			w := make([]bool, pos[5]+1)
			for i, on := range sels[k] {
				w[pos[i]] = on
			}
			sels[k] = w
		}
		key := func(sel []int) int {
			for k := range sels {
				if fmt.Sprint(trueIdx(sels[k])) == fmt.Sprint(sel) {
					return k + 1
				}
			}
			return 0
		}
		nr := 1
		for _, v := range s.Score {
			if v > nr {
				nr = v
			}
		}
		vals := c.rankValues(nr)
		rank := func(x float64) int {
			for i, v := range vals {
				if v == x {
					return i + 1
				}
			}
			return 0
		}
		mk := func(k int) *fs1.SAItem {
			it := fs1.NewSAItem(sels[k-1])
			for j := range it.Coeff {
				it.Coeff[j] = float64(k*100 + j)
			}
			it.Score = vals[s.Score[k-1]-1]
			return it
		}
		ckey := func(it *fs1.SAItem) int {
			if len(it.Coeff) != len(it.Selection) || len(it.Coeff) == 0 {
				return 0
			}
			k := int(it.Coeff[0]) / 100
			for j, v := range it.Coeff {
				if v != float64(k*100+j) {
					return 0
				}
			}
			return k
		}
		obs := []rec{}
		c.setStage("saScore cap=%d score=%v ops=%v", s.Cap, s.Score, s.Ops)
		oc := c.guard(func() {
			h := fs1.NewSAScore(s.Cap)
			for q, k := range s.Ops {
				h.Insert(mk(k))
				if len(s.Ops) > 55 && q+1 < len(s.Ops) && q%17 != 0 {
					continue
				}
				items := []rec{}
				for _, it := range h.Items {
					items = append(items, rec{"k": key(it.Selection), "ck": ckey(it), "s": rank(it.Score)})
				}
				ex := []bool{}
				for q := 1; q <= nk; q++ {
					ex = append(ex, h.Exists(mk(q)))
				}
				obs = append(obs, rec{"n": q + 1, "items": items, "bk": key(h.BestItem.Selection), "bck": ckey(h.BestItem), "bs": rank(h.BestItem.Score),
					"wk": key(h.WorstItem.Selection), "wck": ckey(h.WorstItem), "ws": rank(h.WorstItem.Score), "exists": ex})
			}
		})
		runs = append(runs, rec{"cap": s.Cap, "score": s.Score, "ops": s.Ops, "obs": obs, "outcome": oc})
	}
	return rec{"runs": runs}
}

// trueIdx lists the positions of the set elements
func trueIdx(b []bool) []int {
	res := []int{}
	for i, v := range b {
		if v {
			res = append(res, i)
		}
	}
	return res
}

// ---------------------------------------------------------------------------------- codecs

func (c *ctx) finite() float64 {
	switch c.rng.Intn(8) {
	case 0:
		return 0
	case 1:
		return float64(c.rng.Intn(200) - 100)
	case 2:
		return c.rng.NormFloat64() * math.Pow(10, float64(c.rng.Intn(40)-20))
	case 3:
		return math.Float64frombits(c.rng.Uint64()&^(0x7ff<<52) | uint64(c.rng.Intn(2047))<<52)
	case 4:
		return 0.1 + 0.2*float64(c.rng.Intn(3))
	}
	return c.rng.NormFloat64()
}

func (c *ctx) name() string {
	al := []rune("abcXYZ 019_,\"'\\/<>&äλ\t;:|#")
	n := 1 + c.rng.Intn(7)
	s := []rune{}
	for i := 0; i < n; i++ {
		s = append(s, al[c.rng.Intn(len(al))])
	}
	return string(s)
}

func (c *ctx) node(p int) *fs1.Node {
	mdl := make([]bool, p)
	for i := range mdl {
		mdl[i] = c.rng.Intn(2) == 0
	}
	nd := fs1.NewNode(c.rng.Intn(p+1), mdl)
	for i := range nd.Coeff {
		nd.Coeff[i] = c.finite()
	}
	nd.Lower, nd.Upper, nd.Score = c.finite(), c.finite(), c.finite()
	return nd
}

func nodeFields(n *fs1.Node, pre string, out map[string]string) {
	out[pre+"model"] = fmt.Sprint(n.Model)
	out[pre+"coeff"] = strings.Join(fss(n.Coeff), " ")
	out[pre+"level"] = fmt.Sprint(n.Level)
	out[pre+"lower"] = fs(n.Lower)
	out[pre+"upper"] = fs(n.Upper)
	out[pre+"score"] = fs(n.Score)
}

func listFields(h *fs1.Highscore) map[string]string {
	out := map[string]string{"cap": fmt.Sprint(h.MaxItems)}
	ns := listNodes(h)
	out["len"] = fmt.Sprint(len(ns))
	for i, n := range ns {
		nodeFields(n, fmt.Sprintf("item%d-", i), out)
	}
	return out
}

func dsetFields(d *fs1.Dataset) map[string]string {
	if d.X == nil {
		return map[string]string{"x": "nil"}
	}
	r, k := d.X.Dims()
	xs := []string{}
	for i := 0; i < r; i++ {
		for j := 0; j < k; j++ {
			xs = append(xs, fs(d.X.At(i, j)))
		}
	}
	return map[string]string{"dims": fmt.Sprint(r, k), "x": strings.Join(xs, " "), "y": strings.Join(fss(d.Y), " "),
		"names": fmt.Sprintf("%q", d.Names), "target": fmt.Sprint(d.TargetCol)}
}

func pathFields(p *fs1.LassoLarsPath) map[string]string {
	out := map[string]string{"dset": "nil"}
	if p.Dset != nil {
		out = dsetFields(p.Dset)
	}
	out["aicc"] = strings.Join(fss(p.Aicc), " ")
	out["bic"] = strings.Join(fss(p.Bic), " ")
	out["nodes"] = fmt.Sprint(len(p.LassoLarsNodes))
	for i, n := range p.LassoLarsNodes {
		out[fmt.Sprintf("node%d-lamb", i)] = fs(n.Lamb)
		out[fmt.Sprintf("node%d-coeff", i)] = strings.Join(fss(n.Coeff), " ")
		out[fmt.Sprintf("node%d-selection", i)] = fmt.Sprint(n.Selection)
	}
	return out
}

func (c *ctx) randDset(maxR, maxC int) *fs1.Dataset {
	r, k := 1+c.rng.Intn(maxR), 1+c.rng.Intn(maxC)
	d := &fs1.Dataset{X: newDense(r, k), Y: make([]float64, r), TargetCol: c.rng.Intn(k + 1)}
	seen := map[string]bool{}
	for len(d.Names) < k+1 {
		n := c.name()
		if !seen[n] {
			seen[n] = true
			d.Names = append(d.Names, n)
		}
	}
	for i := 0; i < r; i++ {
		d.Y[i] = c.finite()
		for j := 0; j < k; j++ {
			d.X.Set(i, j, c.finite())
		}
	}
	return d
}

func (c *ctx) randList() *fs1.Highscore {
	h := fs1.NewHighscore(1 + c.rng.Intn(6))
	n := c.rng.Intn(12)
	p := 1 + c.rng.Intn(10)
	if c.rng.Intn(8) == 0 {
		h, n = fs1.NewHighscore(1+c.rng.Intn(60)), c.rng.Intn(80)
	}
	vals := []float64{c.finite(), c.finite(), c.finite()}
	for i := 0; i < n; i++ {
		nd := c.node(p)
		if c.rng.Intn(2) == 0 {
			nd.Score = vals[c.rng.Intn(len(vals))]
		}
		h.Insert(nd)
	}
	return h
}

func (c *ctx) randPath() *fs1.LassoLarsPath {
	p := &fs1.LassoLarsPath{Dset: c.randDset(5, 5)}
	n := c.rng.Intn(5)
	for i := 0; i < n; i++ {
		k := 1 + c.rng.Intn(4)
		sel := c.rng.Perm(8)[:k]
		sort.Ints(sel)
		co := make([]float64, k)
		for j := range co {
			co[j] = c.finite()
		}
		p.LassoLarsNodes = append(p.LassoLarsNodes, fs1.NewLassoLarsNode(co, c.finite(), sel))
		p.Aicc = append(p.Aicc, c.finite())
		p.Bic = append(p.Bic, c.finite())
	}
	return p
}

func sameFields(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

// c08hist replays a history of Codec.tla: insertions into two lists and passages through the codec
func (c *ctx) c08hist(line string) rec {
	var g struct {
		Cap []int
		Ops []struct {
			K    string
			R, S int
		}
	}
	if err := json.Unmarshal([]byte(line), &g); err != nil {
		panic(err)
	}
	hs := [2]*fs1.Highscore{}
	for i, k := range g.Cap {
		hs[i] = &fs1.Highscore{}
		if k > 0 {
			hs[i] = fs1.NewHighscore(k)
		}
	}
	ops, obs := []rec{}, []rec{}
	for _, o := range g.Ops {
		ops = append(ops, rec{"k": o.K, "r": o.R, "s": o.S})
	}
	// scores that need all their digits, negative ones too
	unit, off := math.Exp(40*c.rng.Float64()-20), (c.rng.Float64()-0.5)*8
	full := []map[string]string{}
	c.setStage("highscore history %s", line)
	oc := c.guardErr(func() {
		for _, o := range g.Ops {
			if o.K == "ins" {
				nd := c.node(1 + c.rng.Intn(9))
				nd.Score = unit * (off + float64(o.S))
				nd.Level = len(full) + 1 // the number of the node
				f := map[string]string{}
				nodeFields(nd, "", f)
				full = append(full, f)
				hs[o.R-1].Insert(nd)
			} else {
				b, err := json.Marshal(hs[o.R-1])
				if err == nil {
					err = json.Unmarshal(b, hs[2-o.R])
				}
				if err != nil {
					panic("goselect codec error: " + err.Error())
				}
			}
			ids, same := [2][]int{{}, {}}, true
			for i, h := range hs {
				if h.Items == nil {
					continue
				}
				for _, nd := range listNodes(h) {
					k := nd.Level
					f := map[string]string{}
					nodeFields(nd, "", f)
					if k < 1 || k > len(full) {
						k, same = 0, false
					} else {
						same = same && sameFields(f, full[k-1])
					}
					ids[i] = append(ids[i], k)
				}
			}
			eq := false
			if hs[0].Items != nil && hs[1].Items != nil {
				eq = hs[0].Equal(hs[1])
				if eq != hs[1].Equal(hs[0]) {
					same = false
				}
			}
			obs = append(obs, rec{"l": ids, "cap": []int{hs[0].MaxItems, hs[1].MaxItems}, "same": same, "eq": eq})
		}
	})
	return rec{"k": "hist", "cap": g.Cap, "ops": ops, "obs": obs, "outcome": oc}
}

func c08(c *ctx) rec {
	runs := []rec{}
	if ls := c.genLines(150); ls != nil {
		for _, l := range ls {
			runs = append(runs, c.c08hist(l))
		}
		return rec{"runs": runs}
	}
	add := func(what string, before map[string]string, after *map[string]string, eq *bool, kept *bool, oc string) {
		r := rec{"k": "trip", "what": what, "before": before, "after": map[string]string{}, "eq": *eq, "kept": *kept, "outcome": oc}
		if *after != nil {
			r["after"] = *after
		}
		runs = append(runs, r)
	}
	fail := func(err error) {
		if err != nil {
			panic("goselect codec error: " + err.Error())
		}
	}
	// nodes
	for i := 0; i < 2; i++ {
		nd := c.node(1 + c.rng.Intn(20))
		if c.rng.Intn(5) == 0 {
			nd = c.node(1 + c.rng.Intn(200))
		}
		before := map[string]string{}
		nodeFields(nd, "", before)
		var after map[string]string
		eq, kept := false, false
		c.setStage("node codec %v", before)
		oc := c.guardErr(func() {
			b, err := json.Marshal(nd)
			fail(err)
			var n2 fs1.Node
			if c.rng.Intn(2) == 0 {
				n2 = *c.node(1 + c.rng.Intn(20)) // a used receiver
			}
			oldC, oldM := n2.Coeff, n2.Model // handed out before
			keepC, keepM := append([]float64{}, oldC...), append([]bool{}, oldM...)
			fail(json.Unmarshal(b, &n2))
			handed := fmt.Sprint(oldC) == fmt.Sprint(keepC) && fmt.Sprint(oldM) == fmt.Sprint(keepM)
			after = map[string]string{}
			nodeFields(&n2, "", after)
			eq = fs1.NodesEqual(nd, &n2) && fs1.NodesEqual(&n2, nd)
			now := map[string]string{}
			nodeFields(nd, "", now)
			kept = sameFields(before, now) && handed
		})
		add("node", before, &after, &eq, &kept, oc)
	}
	// highscore lists
	for i := 0; i < 2; i++ {
		h := c.randList()
		before := listFields(h)
		var after map[string]string
		eq, kept := false, false
		used := c.rng.Intn(2) == 0
		c.setStage("highscore codec %v", before)
		oc := c.guardErr(func() {
			b, err := json.Marshal(h)
			fail(err)
			h2 := &fs1.Highscore{}
			if used {
				h2 = c.randList()
			}
			fail(json.Unmarshal(b, h2))
			after = listFields(h2)
			eq = h.Equal(h2) && h2.Equal(h)
			kept = sameFields(before, listFields(h))
		})
		add("highscore", before, &after, &eq, &kept, oc)
	}
	// data sets
	{
		d := c.randDset(6, 5)
		if c.rng.Intn(10) == 0 {
			d = c.randDset(60, 40)
		}
		before := dsetFields(d)
		var after map[string]string
		eq, kept := false, false
		c.setStage("dataset codec %v", before)
		oc := c.guardErr(func() {
			b, err := json.Marshal(d)
			fail(err)
			d2 := &fs1.Dataset{}
			if c.rng.Intn(2) == 0 {
				d2 = c.randDset(3, 3)
			}
			old := *d2 // handed out before
			handed := true
			if old.X != nil {
				keep := old.Copy()
				defer func() { kept = kept && handed && old.IsEqual(keep) }()
			}
			fail(json.Unmarshal(b, d2))
			after = dsetFields(d2)
			eq = d.IsEqual(d2) && d2.IsEqual(d)
			kept = sameFields(before, dsetFields(d))
		})
		add("dataset", before, &after, &eq, &kept, oc)
	}
	// lasso paths, from bytes and from files
	for i := 0; i < 2; i++ {
		p := c.randPath()
		before := pathFields(p)
		var after map[string]string
		eq, kept := true, false
		c.setStage("path codec %v", before)
		oc := c.guardErr(func() {
			b, err := json.Marshal(p)
			fail(err)
			var p2 *fs1.LassoLarsPath
			if i == 0 {
				p2 = fs1.LassoLarsPathFromBytes(b)
			} else {
				fn := filepath.Join(c.dir, "path.json")
				fail(os.WriteFile(fn, b, 0644))
				p2 = fs1.LassoLarsPathFromJSON(fn)
			}
			after = pathFields(p2)
			kept = sameFields(before, pathFields(p))
		})
		add("path", before, &after, &eq, &kept, oc)
	}
	// equality functions: one field differs by d tolerances
	for i := 0; i < 12; i++ {
		runs = append(runs, c.eqRun(i))
	}
	return rec{"runs": runs}
}

// guardErr is guard for bodies that report codec errors by panicking themselves
func (c *ctx) guardErr(f func()) string {
	var msg string
	oc := c.guard(func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); ok && strings.HasPrefix(s, "goselect codec error: ") {
					msg = s
					return
				}
				panic(r)
			}
		}()
		f()
	})
	if oc == "ok" && msg != "" {
		return msg
	}
	return oc
}

// eqRun compares two values that agree (d = 0, deviations far below the tolerance) or differ in one field
func (c *ctx) eqRun(i int) rec {
	mag := func() float64 { return float64(c.rng.Intn(19) - 9) }
	d := c.rng.Intn(2)
	delta := []float64{1e-13, 1e-12, -1e-12}[c.rng.Intn(3)]
	if d == 1 {
		delta = []float64{1e-3, 0.5, 2, -1e-3, -3, 1e-8, -1e-8}[c.rng.Intn(7)]
	}
	field := "none"
	var eq, rev bool
	var oc string
	if i%3 == 0 { // nodes
		p := 2 + c.rng.Intn(6)
		a := c.node(p)
		a.Model[0] = true
		a.Coeff = make([]float64, fs1.NumFeatures(a.Model))
		for k := range a.Coeff {
			a.Coeff[k] = mag()
		}
		a.Lower, a.Upper, a.Score = mag(), mag(), mag()
		b := *a
		b.Model = append([]bool{}, a.Model...)
		b.Coeff = append([]float64{}, a.Coeff...)
		field = []string{"lower", "upper", "score", "coeff", "level", "model", "size", "coefflen"}[c.rng.Intn(8)]
		switch field {
		case "lower":
			b.Lower += delta
		case "upper":
			b.Upper += delta
		case "score":
			b.Score += delta
		case "coeff":
			b.Coeff[c.rng.Intn(len(b.Coeff))] += delta
		case "level":
			d = 1
			b.Level++
		case "model":
			d = 1
			k := 1 + c.rng.Intn(p-1)
			b.Model[k] = !b.Model[k]
		case "size":
			d = 1
			b.Model = append(b.Model, false)
		case "coefflen":
			d = 1
			b.Coeff = append(b.Coeff, 0)
		}
		c.setStage("NodesEqual field %s", field)
		oc = c.guard(func() { eq, rev = fs1.NodesEqual(a, &b), fs1.NodesEqual(&b, a) })
	} else if i%3 == 1 { // data sets
		a := c.randDset(4, 4)
		nr, nc := a.X.Dims()
		for r := 0; r < nr; r++ {
			a.Y[r] = mag()
			for k := 0; k < nc; k++ {
				a.X.Set(r, k, mag())
			}
		}
		b := &fs1.Dataset{X: mat.DenseCopyOf(a.X), Y: append([]float64{}, a.Y...), Names: append([]string{}, a.Names...), TargetCol: a.TargetCol}
		field = []string{"x", "y", "target", "names", "rows", "numnames"}[c.rng.Intn(6)]
		switch field {
		case "x":
			r, k := c.rng.Intn(nr), c.rng.Intn(nc)
			b.X.Set(r, k, b.X.At(r, k)+delta)
		case "y":
			b.Y[c.rng.Intn(nr)] += delta
		case "target":
			d = 1
			b.TargetCol = (a.TargetCol + 1) % (nc + 1)
		case "names":
			d = 1
			b.Names[c.rng.Intn(nc+1)] += "x"
		case "rows":
			d = 1
			b.X = mat.NewDense(nr+1, nc, nil)
			b.Y = append(b.Y, 0)
		case "numnames":
			d = 1
			b.Names = append(b.Names, "extra")
		}
		c.setStage("Dataset.IsEqual field %s", field)
		oc = c.guard(func() { eq, rev = a.IsEqual(b), b.IsEqual(a) })
	} else { // lists
		mk := func() *fs1.Highscore { return fs1.NewHighscore(8) }
		a, b := mk(), mk()
		n := 1 + c.rng.Intn(6)
		k := c.rng.Intn(n)
		field = []string{"item", "cap", "len"}[c.rng.Intn(3)]
		for j := 0; j < n; j++ {
			nd := c.node(4)
			nd.Score, nd.Lower, nd.Upper = float64(100-10*j), mag(), mag()
			for q := range nd.Coeff {
				nd.Coeff[q] = mag()
			}
			n2 := *nd
			if field == "item" && j == k {
				n2.Score += delta
			}
			a.Insert(nd)
			b.Insert(&n2)
		}
		switch field {
		case "cap":
			d = 1
			b.MaxItems++
		case "len":
			d = 1
			nd := c.node(4)
			nd.Score = -1e6
			b.Insert(nd)
		}
		c.setStage("Highscore.Equal field %s", field)
		oc = c.guard(func() { eq, rev = a.Equal(b), b.Equal(a) })
	}
	return rec{"k": "eq", "field": field, "d": d, "eq": eq, "eqrev": rev, "outcome": oc}
}
