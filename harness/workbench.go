package main

// Driver of histories of tool runs in one folder (C32): histories enumerated by Workbench.tla, strung together,
// are carried out with the real binaries; what each file holds is told from the exact facts about the data sets.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"sync"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C32"] = propDef{fn: c32, quick: 0, thorough: 0, genFile: true, genChunk: 6}
}

type benchCmd struct {
	Tool   string `json:"tool"`
	Data   string `json:"data"`
	Target int    `json:"target"`
	Out    string `json:"out"`
	Fault  string `json:"fault"`
}

type held struct {
	Tool   string `json:"tool"`
	Data   string `json:"data"`
	Target int    `json:"target"`
}

// content of a data file, with the exact facts for the two targets that are used
type content struct {
	name string
	cols [][]int64
	of   map[int]*facts
}

func (c *ctx) benchContent(name string) *content {
	r := c.rng
	for {
		n, k := 10+r.Intn(6), 4+r.Intn(2)
		q := &content{name: name, of: map[int]*facts{}}
		for j := 0; j < k; j++ {
			col := make([]int64, n)
			for i := range col {
				col[i] = ri(r, -6, 6)
			}
			q.cols = append(q.cols, col)
		}
		ok := true
		for _, t := range []int{-1, 0} {
			d := newIdata(n, k-1, "random")
			tc := (t + k) % k
			a := 0
			for j := range q.cols {
				for i := 0; i < n; i++ {
					if j == tc {
						d.y[i] = q.cols[j][i]
					} else {
						d.X[i][a] = q.cols[j][i]
					}
				}
				if j != tc {
					a++
				}
			}
			f := newFacts(d)
			q.of[t] = f
			ok = ok && f.ok && d.wellScaled()
			best := 0.0
			for j := 0; j < d.p; j++ {
				best = math.Max(best, math.Abs(d.correlation(j)))
			}
			ok = ok && best > 0.15 // paths with more than one node
		}
		for j := 0; j < k && ok; j++ {
			lo, hi := q.cols[j][0], q.cols[j][0]
			for _, v := range q.cols[j] {
				lo, hi = minI64(lo, v), maxI64(hi, v)
			}
			ok = hi-lo > 3
		}
		if ok {
			return q
		}
	}
}

// correlation of a column with the target
func (d *idata) correlation(j int) float64 {
	n := float64(d.n)
	sx, sy, xx, yy, xy := 0.0, 0.0, 0.0, 0.0, 0.0
	for i := 0; i < d.n; i++ {
		x, y := float64(d.X[i][j]), float64(d.y[i])
		sx, sy, xx, yy, xy = sx+x, sy+y, xx+x*x, yy+y*y, xy+x*y
	}
	return (xy - sx*sy/n) / math.Sqrt((xx-sx*sx/n)*(yy-sy*sy/n))
}

func minI64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
func maxI64(a, b int64) int64 { return -minI64(-a, -b) }

func (q *content) csv() []byte {
	var b strings.Builder
	for j := range q.cols {
		if j > 0 {
			b.WriteString(",")
		}
		fmt.Fprintf(&b, "f%d", j)
	}
	b.WriteString("\n")
	for i := range q.cols[0] {
		for j := range q.cols {
			if j > 0 {
				b.WriteString(",")
			}
			fmt.Fprintf(&b, "%d", q.cols[j][i])
		}
		b.WriteString("\n")
	}
	return []byte(b.String())
}

func (q *content) dset(t int) map[string]string {
	f := q.of[t]
	d := &fs1.Dataset{X: mat.DenseCopyOf(f.d.dense()), Y: f.d.yf(), TargetCol: (t + len(q.cols)) % len(q.cols)}
	for j := range q.cols {
		d.Names = append(d.Names, fmt.Sprintf("f%d", j))
	}
	return dsetFields(d)
}

type bench struct {
	c    *ctx
	dir  string
	all  []*content
	junk []byte
	lmin float64
	cd   [2]float64
	num  int
	grid []float64
}

// classify lists what a file may be the result of
func (w *bench) classify(b []byte) []held {
	none, out := held{"none", "-", 0}, []held{}
	if b == nil {
		return []held{none}
	}
	if bytes.Equal(b, w.junk) {
		return []held{{"junk", "-", 0}}
	}
	var sa struct {
		Items []struct {
			Selection []int
			Score     float64
		}
	}
	saOk := json.Unmarshal(b, &sa) == nil && len(sa.Items) > 0
	h := fs1.NewHighscore(1)
	bnbOk := json.Unmarshal(b, h) == nil && h.Items.Len() > 0
	var path fs1.LassoLarsPath
	pathOk := json.Unmarshal(b, &path) == nil && path.Dset != nil && path.Dset.X != nil && len(path.LassoLarsNodes) > 0
	var nested fs1.NestedLassoLars
	nestOk := json.Unmarshal(b, &nested) == nil && nested.Dset != nil && nested.Dset.X != nil && len(nested.Paths) > 0
	score := func(f *facts, m int, s float64) bool {
		return m > 0 && m < len(f.rss) && (f.zero[m] || math.Abs(s+f.aicc(m)) < 1e-3)
	}
	for _, q := range w.all {
		for t, f := range q.of {
			if bnbOk {
				ok, first := true, true
				for el := h.Items.Front(); el != nil; el = el.Next() {
					it := el.Value.(*fs1.Node)
					ok = ok && len(it.Model) == f.d.p && score(f, maskOf(it.Model), it.Score)
					if ok && first {
						ok = f.zero[maskOf(it.Model)] || f.aicc(maskOf(it.Model)) < f.aicc(f.bestMask())+1e-3
					}
					first = false
				}
				if ok {
					out = append(out, held{"bnb", q.name, t})
				}
			}
			if saOk {
				ok := true
				for _, it := range sa.Items {
					m := 0
					for _, v := range it.Selection {
						if v < 0 || v >= f.d.p {
							ok = false
							break
						}
						m |= 1 << uint(v)
					}
					ok = ok && score(f, m, it.Score)
				}
				if ok {
					out = append(out, held{"sa", q.name, t})
				}
			}
			if pathOk && sameFields(dsetFields(path.Dset), q.dset(t)) {
				cd := true
				low := math.Inf(1)
				for _, nd := range path.LassoLarsNodes {
					on := false
					for _, g := range w.grid {
						on = on || math.Abs(nd.Lamb/g-1) < 1e-9
					}
					cd = cd && on
					low = math.Min(low, nd.Lamb)
				}
				if cd {
					out = append(out, held{"cd", q.name, t})
				} else if low >= w.lmin*(1-1e-9) {
					out = append(out, held{"lars", q.name, t})
				}
			}
			if nestOk && sameFields(dsetFields(nested.Dset), q.dset(t)) {
				out = append(out, held{"nested", q.name, t})
			}
		}
	}
	return out
}

func (w *bench) args(k *benchCmd, at int) (string, []string) {
	r := w.c.rng
	args := []string{}
	dash := "--"
	if k.Tool == "nested" || k.Tool == "plot" {
		dash = "-"
	}
	opt := func(name string, v interface{}) {
		if r.Intn(2) == 0 {
			args = append(args, fmt.Sprintf("%s%s=%v", dash, name, v))
		} else {
			args = append(args, dash+name, fmt.Sprint(v))
		}
	}
	csv := k.Data + ".csv"
	switch k.Fault {
	case "nofile":
		csv = "nothere.csv"
	case "ragged":
		csv = "ragged.csv"
	}
	if r.Intn(2) == 0 {
		csv = filepath.Join(w.dir, csv)
	}
	bin := os.Getenv("GOSELECT_BIN")
	switch k.Tool {
	case "bnb":
		args = append(args, "bnb")
	case "sa":
		args = append(args, "sasearch")
	case "lars", "cd":
		args = append(args, "lasso")
	}
	if k.Tool == "plot" {
		in := "lasso.json"
		if k.Out == "x" {
			in = "x.json"
		}
		opt("json", in)
		opt("prefix", fmt.Sprintf("fig%d", at))
		opt("ext", "svg")
		return filepath.Join(os.Getenv("GOSELECT_TOOLS"), "goselect-plotlasso"), args
	}
	if k.Tool == "nested" {
		bin = filepath.Join(os.Getenv("GOSELECT_TOOLS"), "goselect-nestedlasso")
		opt("csvfile", csv)
	} else {
		opt("csv", csv)
	}
	switch {
	case k.Fault == "target":
		args = append(args, dash+"target=99")
	case k.Fault == "number":
		args = append(args, dash+"target=1x")
	case k.Target == 0 || r.Intn(2) == 0:
		args = append(args, fmt.Sprintf("%starget=%d", dash, k.Target))
	}
	if k.Fault == "flag" {
		args = append(args, dash+"nosuchflag")
	}
	switch {
	case k.Fault == "outdir":
		opt("out", "not/there/x.json")
	case k.Out == "x" && r.Intn(2) == 0:
		opt("out", filepath.Join(w.dir, "x.json"))
	case k.Out == "x":
		opt("out", "x.json")
	}
	switch k.Tool {
	case "sa":
		opt("sweeps", 20+r.Intn(30))
	case "nested":
		opt("lambMin", fs(w.lmin))
	case "lars":
		if r.Intn(2) == 0 {
			opt("type", "lars")
		}
		opt("lmin", fs(w.lmin))
	case "cd":
		if k.Fault == "type" {
			opt("type", "dc")
		} else {
			opt("type", "cd")
		}
		if k.Fault == "cov" {
			opt("cov", "nosuch")
		}
		opt("lmin", fs(w.cd[0]))
		opt("lmax", fs(w.cd[1]))
		opt("num", w.num)
	}
	return bin, args
}

// look reads the folder
func (w *bench) look() map[string][]byte {
	m := map[string][]byte{}
	filepath.Walk(w.dir, func(f string, st os.FileInfo, err error) error {
		if err == nil && f != w.dir {
			rel, _ := filepath.Rel(w.dir, f)
			if st.IsDir() {
				m[rel] = []byte("folder")
			} else if b, err := os.ReadFile(f); err == nil {
				if b == nil {
					b = []byte{}
				}
				m[rel] = b
			}
		}
		return nil
	})
	return m
}

func c32(c *ctx) rec {
	r := c.rng
	dir, err := os.MkdirTemp(c.dir, "bench")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	w := &bench{c: c, dir: dir, all: []*content{c.benchContent("A"), c.benchContent("B"), c.benchContent("C")}}
	w.lmin = math.Exp(-7 + 5*r.Float64())
	w.num = 3 + r.Intn(5)
	w.cd = [2]float64{0.003 + 0.02*r.Float64(), 0.02 + 0.02*r.Float64()}
	w.grid = nil
	for k := 0; k < w.num; k++ {
		w.grid = append(w.grid, math.Exp(math.Log(w.cd[0])+(math.Log(w.cd[1])-math.Log(w.cd[0]))*float64(k)/float64(w.num-1)))
	}
	w.junk = []byte(strings.Repeat("not the result of any tool\n", 1+r.Intn(2000)))
	put := func(name string, b []byte) {
		if err := os.WriteFile(filepath.Join(dir, name), b, 0644); err != nil {
			panic(err)
		}
	}
	hold := "A"
	put("a.csv", w.all[0].csv())
	put("b.csv", w.all[1].csv())
	put("ragged.csv", append(w.all[0].csv(), []byte("1,2\n")...))
	junk := r.Intn(2) == 0
	if junk {
		put("x.json", w.junk)
	}
	// the histories of a permutation of the lines, strung together
	perm := caseRng(c.seed, "C32/order", 0).Perm(len(c.gen))
	if !c.quick() {
		perm = append(perm, caseRng(c.seed, "C32/order", 1).Perm(len(c.gen))...)
	}
	hist := []rec{}
	files := []string{"x.json", "bnbSearch.json", "saSearch.json", "lasso.json", "nesteLasso.json"}
	inputs := []string{"a.csv", "b.csv", "ragged.csv"}
	before := w.look()
	run := func(group []benchCmd) bool {
		status := make([]string, len(group))
		texts := make([]string, len(group))
		bins, argv := make([]string, len(group)), make([][]string, len(group))
		for i := range group {
			if group[i].Tool != "edit" {
				bins[i], argv[i] = w.args(&group[i], i)
			}
		}
		c.setStage("runs %v", argv)
		var wg sync.WaitGroup
		for i := range group {
			if group[i].Tool == "edit" {
				hold = map[string]string{"A": "C", "C": "A"}[hold]
				b := w.all[map[string]int{"A": 0, "C": 2}[hold]].csv()
				put("a.csv", b)
				before["a.csv"] = b
				status[i] = "ok"
				continue
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				status[i], texts[i] = c.runBin(bins[i], dir, argv[i])
			}(i)
		}
		wg.Wait()
		after := w.look()
		o := rec{"cmds": group, "status": status, "args": fmt.Sprint(argv)}
		figs := 0
		for f := range after {
			if strings.HasPrefix(f, "fig") && strings.HasSuffix(f, ".svg") && len(after[f]) > 100 {
				figs++
				os.Remove(filepath.Join(dir, f))
				delete(after, f)
			}
		}
		fsObs, kept, others, in := rec{}, []string{}, []string{}, true
		known := map[string]bool{}
		for _, f := range files {
			known[f] = true
			_, was := before[f]
			_, is := after[f]
			if was == is && bytes.Equal(before[f], after[f]) {
				kept = append(kept, f)
			}
			fsObs[f] = w.classify(after[f])
		}
		for _, f := range inputs {
			known[f] = true
			in = in && bytes.Equal(before[f], after[f])
		}
		for f := range after {
			if !known[f] {
				others = append(others, f)
			}
		}
		o["fs"], o["kept"], o["others"], o["inputs"], o["figures"] = fsObs, kept, others, in, figs
		hist = append(hist, o)
		before = after
		for i, s := range status {
			if s == errHang {
				return false
			}
			if s != "ok" && group[i].Fault == "none" && group[i].Tool != "plot" {
				o["text"] = tail(texts[i])
			}
		}
		return true
	}
	for pass := 0; pass*len(c.gen) < len(perm); pass++ {
		for k := c.id * 6; k < (c.id+1)*6 && k < len(c.gen); k++ {
			var in struct{ Hist [][]benchCmd }
			if err := json.Unmarshal([]byte(c.gen[perm[pass*len(c.gen)+k]]), &in); err != nil {
				panic(err)
			}
			for _, g := range in.Hist {
				if !run(g) {
					return rec{"hist": hist, "junk": junk, "outcome": errHang}
				}
			}
		}
	}
	return rec{"hist": hist, "junk": junk, "outcome": "ok"}
}
