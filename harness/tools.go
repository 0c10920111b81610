package main

// Driver of the stand-alone tools (C30): requests enumerated by Tools.tla are made of the real binaries.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/plot"
	"gonum.org/v1/plot/vg"
)

func init() {
	props["C30"] = propDef{fn: c30, quick: 0, thorough: 0, genFile: true, genChunk: 10}
}

const none30 = 99

type toolReq struct {
	Tool, Lamb, Out, Lmin, Lmax, Ext, Prefix, Cmin, Cmax, Fault string
	Target, Keep, Num, Samples, Mem, Feat                       int
}

type toolEff struct {
	Target, Keep, Num, Mem, Feat int
	Lamb, Lmin, Lmax, Cmin, Cmax string
	Range                        bool
}

func c30(c *ctx) rec {
	obs := []rec{}
	reps := 1
	if !c.quick() {
		reps = 40
	}
	for _, l := range c.genLines(10) {
		var in struct {
			Q json.RawMessage
			E toolEff
		}
		if err := json.Unmarshal([]byte(l), &in); err != nil {
			panic(err)
		}
		var q toolReq
		var raw map[string]interface{}
		if err := json.Unmarshal(in.Q, &raw); err != nil {
			panic(err)
		}
		if err := json.Unmarshal(in.Q, &q); err != nil {
			panic(err)
		}
		for k := 0; k < reps; k++ {
			c.setStage("tool request %s", l)
			o := c.tool(&q, &in.E)
			o["q"] = raw
			obs = append(obs, o)
			if o["status"] == errHang {
				return rec{"obs": obs, "outcome": errHang}
			}
		}
	}
	return rec{"obs": obs, "outcome": "ok"}
}

func (c *ctx) tool(q *toolReq, e *toolEff) rec {
	r := c.rng
	dir, err := os.MkdirTemp(c.dir, "tool")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	args := []string{}
	opt := func(name string, v interface{}) {
		s := fmt.Sprint(v)
		if s == "-" || s == "99" {
			return
		}
		if r.Intn(2) == 0 {
			args = append(args, "-"+name+"="+s)
		} else {
			args = append(args, "-"+name, s)
		}
	}
	num := func(s string) float64 {
		v, err := strconv.ParseFloat(s, 64)
		if err != nil && s != "" {
			panic(err)
		}
		return v
	}
	if q.Fault == "flag" {
		args = append(args, "-nosuchflag")
	}
	in := ""
	var path *fs1.LassoLarsPath
	p := 3 + r.Intn(4)
	n := 12 + r.Intn(30)
	number := map[string]string{"nested": "lambMin", "kappa": "tol", "plot": "coeffmin", "mem": "mem"}[q.Tool]
	if q.Fault == "number" {
		args = append(args, "-"+number+"=1x")
	}
	switch q.Tool {
	case "nested", "kappa":
		d := randF(r, n, p, false)
		t := &table{X: d.X, y: d.y, target: p}
		for j := 0; j <= p; j++ {
			t.names = append(t.names, fmt.Sprintf("f%d", j))
		}
		in = filepath.Join(dir, "data.csv")
		c.writeCSV(t, in)
		if q.Fault == "ragged" {
			b, _ := os.ReadFile(in)
			os.WriteFile(in, append(bytes.TrimRight(b, "\n"), []byte(",1.5\n")...), 0644)
		}
		if q.Fault == "nofile" {
			in = filepath.Join(dir, "nothere.csv")
		}
		opt("csvfile", in)
		opt("target", q.Target)
	case "plot":
		for path == nil {
			path = c.plotPath()
		}
		b, err := json.Marshal(path)
		if err != nil {
			panic(err)
		}
		in = filepath.Join(dir, "path.json")
		if q.Fault == "damaged" {
			b = b[:len(b)/2]
		}
		os.WriteFile(in, b, 0644)
		if q.Fault == "nofile" {
			in = filepath.Join(dir, "nothere.json")
		}
		opt("json", in)
	}
	switch q.Tool {
	case "nested":
		if q.Keep != none30 {
			opt("keep", fmt.Sprintf("0.%d", q.Keep))
		}
		opt("lambMin", q.Lamb)
		if q.Fault == "outdir" {
			opt("out", "not/there/res.json")
		} else {
			opt("out", q.Out)
		}
	case "kappa":
		opt("numLamb", q.Num)
		opt("numSamp", q.Samples)
		opt("lambMin", q.Lmin)
		opt("lambMax", q.Lmax)
	case "plot":
		if q.Fault == "ext" {
			opt("ext", "nosuchformat")
		} else {
			opt("ext", q.Ext)
		}
		if q.Fault == "outdir" {
			opt("prefix", "not/there/fig")
		} else {
			opt("prefix", q.Prefix)
		}
		opt("coeffmin", q.Cmin)
		opt("coeffmax", q.Cmax)
	case "mem":
		opt("mem", q.Mem)
		opt("nfeat", q.Feat)
	}
	bin := filepath.Join(os.Getenv("GOSELECT_TOOLS"), map[string]string{"nested": "goselect-nestedlasso", "kappa": "goselect-cohenlasso", "plot": "goselect-plotlasso", "mem": "goselect-mem"}[q.Tool])
	oc, txt := c.runBin(bin, dir, args)
	o := rec{"status": oc, "args": strings.Join(args, " ")}
	files := []string{}
	filepath.Walk(dir, func(f string, st os.FileInfo, err error) error {
		if err == nil && !st.IsDir() && f != in {
			rel, _ := filepath.Rel(dir, f)
			files = append(files, rel)
		}
		return nil
	})
	sort.Strings(files)
	o["files"] = files
	if oc != "ok" || q.Fault != "none" {
		return o
	}
	switch q.Tool {
	case "nested":
		o["same"], o["dset"] = false, false
		if len(files) != 1 {
			return o
		}
		b, err := os.ReadFile(filepath.Join(dir, files[0]))
		var got fs1.NestedLassoLars
		if err != nil || json.Unmarshal(b, &got) != nil {
			return o
		}
		dset := fs1.ReadCSV(in, e.Target)
		o["dset"] = got.Dset != nil && sameFields(dsetFields(dset), dsetFields(got.Dset))
		want := fs1.NestedLasso(dset, num(e.Lamb), float64(e.Keep)/10, &fs1.MorsePenroseCD{})
		same := len(want.Paths) == len(got.Paths)
		for i := 0; same && i < len(want.Paths); i++ {
			a := pathFields(&fs1.LassoLarsPath{LassoLarsNodes: want.Paths[i].Nodes, Aicc: want.Paths[i].Aicc, Bic: want.Paths[i].Bic})
			g := pathFields(&fs1.LassoLarsPath{LassoLarsNodes: got.Paths[i].Nodes, Aicc: got.Paths[i].Aicc, Bic: got.Paths[i].Bic})
			same = sameFields(a, g)
		}
		o["same"] = same
	case "kappa":
		c.kappaReport(txt, e, o, num)
	case "plot":
		ext := q.Ext
		if ext == "-" {
			ext = "png"
		}
		complete := len(files) == 4
		for _, f := range files {
			st, err := os.Stat(filepath.Join(dir, f))
			complete = complete && err == nil && st.Size() > 100
		}
		o["complete"], o["exact"] = complete, ext == "svg" || ext == "png"
		if !complete || !(ext == "svg" || ext == "png") {
			o["exact"] = false
			return o
		}
		lib := fs1.LassoLarsPathFromJSON(in)
		draw := func(p *plot.Plot) []byte {
			w, err := p.WriterTo(4*vg.Inch, 4*vg.Inch, ext)
			if err != nil {
				panic(err)
			}
			var b bytes.Buffer
			w.WriteTo(&b)
			return b.Bytes()
		}
		have := func(name string) []byte {
			for _, f := range files {
				if strings.HasSuffix(f, "_"+name+"."+ext) {
					b, _ := os.ReadFile(filepath.Join(dir, f))
					return b
				}
			}
			return nil
		}
		o["entrance"] = bytes.Equal(have("entrance"), draw(lib.PlotEntranceTimes()))
		o["quality"] = bytes.Equal(have("quality"), draw(lib.PlotQualityScores()))
		o["dev"] = bytes.Equal(have("dev"), draw(lib.PlotDeviations()))
		o["auto"] = bytes.Equal(have("path"), draw(lib.PlotPath(nil)))
		o["given"] = bytes.Equal(have("path"), draw(lib.PlotPath(&fs1.AxisRange{Min: num(e.Cmin), Max: num(e.Cmax)})))
	case "mem":
		m := regexp.MustCompile(`(\d+)[^\d\n]*: *(\d+)`).FindAllStringSubmatch(txt, -1)
		o["lines"], o["rest"], o["gb"], o["bytes"] = len(m), -1, -1, -1
		if len(m) == 1 {
			gb, _ := strconv.ParseInt(m[0][1], 10, 64)
			cnt, _ := strconv.ParseInt(m[0][2], 10, 64)
			size := int64(9*e.Feat + 29)
			rest := int64(e.Mem)*1000000000 - cnt*size
			if rest < 0 || rest > 1000000000 {
				rest = -1
			}
			o["gb"], o["rest"] = gb, rest
		}
		nd := fs1.NewNode(0, make([]bool, e.Feat))
		for i := range nd.Model {
			nd.Model[i] = true
		}
		nd.Coeff = make([]float64, e.Feat)
		o["bytes"] = nd.EstimateMemory()
	}
	return o
}

// plotPath is a path with at least two nodes
func (c *ctx) plotPath() *fs1.LassoLarsPath {
	r := c.rng
	n, p := 10+r.Intn(20), 2+r.Intn(4)
	d := randF(r, n, p, false)
	X, y := d.clone()
	path := &fs1.LassoLarsPath{Dset: &fs1.Dataset{X: X, Y: y, TargetCol: p}}
	for j := 0; j <= p; j++ {
		path.Dset.Names = append(path.Dset.Names, fmt.Sprintf("f%d", j))
	}
	X2, y2 := d.clone()
	nd := fs1.NewNormalizedData(X2, y2)
	path.LassoLarsNodes = fs1.LassoLars(nd, 1e-3, &fs1.MorsePenroseCD{})
	if len(path.LassoLarsNodes) < 2 {
		return nil
	}
	path.Aicc, path.Bic = path.GetCriteria(fs1.Aicc), path.GetCriteria(fs1.Bic)
	return path
}

// kappaReport reads the progress lines and the summary
func (c *ctx) kappaReport(txt string, e *toolEff, o rec, num func(string) float64) {
	index := map[string]int{}
	lo, hi := math.Log(num(e.Lmin)), math.Log(num(e.Lmax))
	empty := []int{}
	for i := 0; i < e.Num; i++ {
		v := num(e.Lmin)
		if e.Num > 1 {
			v = math.Exp(lo + (hi-lo)*float64(i)/float64(e.Num-1))
		}
		index[fmt.Sprintf("%5.3e", v)] = i + 1
		if v > 1-1e-9 {
			empty = append(empty, i+1)
		}
	}
	re := regexp.MustCompile(`([-+0-9.eE]+) +([Kk])appa: *([-+0-9.eENa]+)`)
	first, firstk, idx, kap := []int{}, []int{}, []int{}, []int{}
	for _, m := range re.FindAllStringSubmatch(txt, -1) {
		k, err := strconv.ParseFloat(m[3], 64)
		kk := 99999
		if err == nil && !math.IsNaN(k) {
			kk = int(math.Round(1000 * k))
		}
		if m[2] == "k" {
			first, firstk = append(first, index[m[1]]), append(firstk, kk)
		} else {
			idx, kap = append(idx, index[m[1]]), append(kap, kk)
		}
	}
	o["index"], o["kappa"], o["first"], o["firstk"], o["empty"] = idx, kap, first, firstk, empty
}
