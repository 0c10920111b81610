package main

// Driver of C29: makes the requests TLC enumerated from Requests.tla and records which were refused.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C29"] = propDef{fn: c29, quick: 0, thorough: 0, genFile: true, genChunk: 12}
}

type request struct {
	Op, Kind, Damage, Where, Diff, Sub, Fault string
	Rows                                      json.RawMessage
	Cols, N, K, A, B, P, Sel, Root, T, I, J   int
	Head                                      int
	There, Bias                               bool
}

func c29(c *ctx) rec {
	obs := []rec{}
	reps := 6
	if !c.quick() {
		reps = 300
	}
	for _, l := range c.genLines(12) {
		var q request
		var raw map[string]interface{}
		if err := json.Unmarshal([]byte(l), &raw); err != nil {
			panic(err)
		}
		if err := json.Unmarshal([]byte(l), &q); err != nil {
			panic(err)
		}
		k := reps
		if q.Op == "cli" || q.Op == "cov" {
			k = reps / 6
			if k == 0 {
				k = 1
			}
		}
		for ; k > 0; k-- {
			c.setStage("request %s", l)
			got, kept, note := c.request(&q)
			o := rec{"q": raw, "got": got, "kept": kept, "note": note}
			obs = append(obs, o)
			if got == errHang {
				return rec{"obs": obs, "outcome": errHang}
			}
		}
	}
	return rec{"obs": obs}
}

func (c *ctx) randDense(r, n int) *mat.Dense {
	X := mat.NewDense(r, n, nil)
	for i := 0; i < r; i++ {
		for j := 0; j < n; j++ {
			X.Set(i, j, c.rng.NormFloat64())
		}
	}
	return X
}

func (c *ctx) randVec(n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = c.rng.NormFloat64()
	}
	return v
}

// anyVec is randVec, now and then with nothing but zeros or equal values
func (c *ctx) anyVec(n int) []float64 {
	v := c.randVec(n)
	if k := c.rng.Intn(6); k < 2 {
		for i := range v {
			v[i] = float64(k)
		}
	}
	return v
}

// request makes a request: "answer", "refuse" or "hang"; whether the surroundings are as before; a note
func (c *ctx) request(q *request) (string, bool, string) {
	rows := 0
	json.Unmarshal(q.Rows, &rows)
	refused := false
	kept := true
	r := c.rng
	var f func()
	after := func() {}
	switch q.Op {
	case "fit":
		X, y := c.randDense(rows, q.Cols), c.anyVec(q.N)
		f = func() { fs1.Fit(X, y) }
	case "rss":
		X, co, y := c.randDense(rows, q.Cols), c.anyVec(q.K), c.anyVec(q.N)
		f = func() { fs1.Rss(X, co, y) }
	case "predict":
		X, co := c.randDense(rows, q.Cols), c.anyVec(q.K)
		f = func() { fs1.Predict(X, co) }
	case "weighted":
		w := c.anyVec(q.A)
		co := make([]fs1.SparseCoeff, q.B)
		for i := range co {
			co[i] = fs1.SparseCoeff{Coeff: c.randVec(2), Selection: []int{r.Intn(2), 2 + r.Intn(2)}}
		}
		f = func() { fs1.WeightedAveragedCoeff(4, w, co) }
	case "mul":
		X, v := c.randDense(rows, q.Cols), c.anyVec(q.N)
		f = func() { fs1.MulSlice(X, v) }
	case "node":
		f = func() { fs1.NewLassoLarsNode(c.anyVec(q.A), 1.0, r.Perm(q.B)) }
	case "design":
		X := c.randDense(1+r.Intn(4), q.P)
		m := make([]bool, q.P)
		for _, k := range r.Perm(q.P)[:q.Sel] {
			m[k] = true
		}
		f = func() { fs1.GetDesignMatrix(m, X) }
	case "search":
		X, y := c.randDense(8, q.Cols), c.randVec(8)
		p := fs1.NewSelectModelOptParams()
		if q.Root > 0 {
			p.RootModel = make([]bool, q.Root)
			for i := range p.RootModel {
				p.RootModel[i] = r.Intn(2) == 0
			}
		}
		h := fs1.NewHighscore(5)
		var sp fs1.SearchProgress
		f = func() { fs1.SelectModel(X, y, h, &sp, p) }
		after = func() { kept = h.Len() == 0 }
	case "anneal":
		X, y := c.randDense(rows, 3), c.randVec(q.N)
		f = func() { fs1.SelectModelSA(X, y, 1, fs1.Aicc) }
	case "name":
		d := &fs1.Dataset{X: c.randDense(2, q.Cols), Y: c.randVec(2), TargetCol: q.T}
		for j := 0; j <= q.Cols; j++ {
			d.Names = append(d.Names, fmt.Sprintf("n%d", j))
		}
		nm := fmt.Sprintf("n%d", q.I)
		if q.I > q.Cols {
			nm = []string{"n", "", "N0", "n0 ", "n10"}[r.Intn(5)]
		}
		f = func() { d.FeatNoByName(nm) }
	case "subset":
		d := &fs1.Dataset{X: c.randDense(3, q.Cols), Y: c.randVec(3), TargetCol: r.Intn(q.Cols + 1)}
		for j := 0; j <= q.Cols; j++ {
			d.Names = append(d.Names, fmt.Sprintf("n%d", j))
		}
		f = func() { d.GetSubset([]int{q.I, q.J}) }
	case "constant":
		n := 2 + r.Intn(6)
		X, y := c.randDense(n, q.Cols), c.randVec(n)
		if q.I < q.Cols {
			v := []float64{0, 1, 0.1, -3.7, 1e6, 123456.789}[r.Intn(6)]
			for i := 0; i < n; i++ {
				X.Set(i, q.I, v)
			}
		}
		f = func() { fs1.NewNormalizedData(X, y) }
	case "unnorm":
		n := 3 + r.Intn(6)
		X, y := c.randDense(n, q.Cols), c.randVec(n)
		if q.Bias {
			v := []float64{1, 1, 2, -0.1}[r.Intn(4)]
			for i := 0; i < n; i++ {
				X.Set(i, 0, v)
			}
		}
		nd := fs1.NewNormalizedData(X, y)
		f = func() { nd.LinearNormalizationTransformation(q.I, r.NormFloat64()) }
	case "csv":
		var lens []int
		if err := json.Unmarshal(q.Rows, &lens); err != nil {
			panic(err)
		}
		var b strings.Builder
		line := func(n int, s func() string) {
			for j := 0; j < n; j++ {
				if j > 0 {
					b.WriteString(",")
				}
				b.WriteString(s())
			}
			b.WriteString("\n")
		}
		line(q.Head, func() string { return "name" })
		for _, n := range lens {
			line(n, func() string { return fmt.Sprintf("%.3f", r.NormFloat64()) })
		}
		f = func() { fs1.ParseCSV(strings.NewReader(b.String()), q.T) }
	case "quote":
		s := map[string]string{"none": "a,b\n1,2\n\"3\",4\n", "bare": "a,b\n1,2\n3\",4\n", "open": "a,b\n1,2\n\"3,4\n"}[q.Where]
		f = func() { fs1.ParseCSV(strings.NewReader(s), -1) }
	case "decode":
		f, after = c.decodeReq(q, &refused, &kept)
	case "file":
		dir, err := os.MkdirTemp(c.dir, "req")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "in")
		if q.Kind == "csv" {
			if q.There {
				os.WriteFile(fn, []byte("a,b\n1,2\n3,4\n"), 0644)
			}
			f = func() { refused = fs1.ReadCSV(fn, -1) == nil }
		} else {
			if q.There {
				b, err := json.Marshal(c.somePath())
				if err != nil {
					panic(err)
				}
				os.WriteFile(fn, b, 0644)
			}
			f = func() { refused = fs1.LassoLarsPathFromJSON(fn) == nil }
		}
	case "cov":
		X := c.randDense(6, 3)
		X2 := mat.DenseCopyOf(X)
		switch q.Diff {
		case "same":
			X2 = X
		case "entry":
			i, j := r.Intn(6), r.Intn(3)
			X2.Set(i, j, X2.At(i, j)+[]float64{1, -1, 1e-3, 100, 1e-5, -1e-6}[r.Intn(6)])
		case "row":
			X2 = mat.DenseCopyOf(X.Grow(1, 0))
		case "column":
			X2 = mat.DenseCopyOf(X.Slice(0, 6, 0, 2))
		}
		f = func() {
			s := fs1.NewSparseThreshold(X)
			if oc := c.guard(func() { s.Get(X2) }); oc != "ok" {
				refused = true
			}
		}
	case "cli":
		return c.cliReq(q)
	default:
		panic("harness: unknown request " + q.Op)
	}
	oc := c.guard(f)
	after()
	switch {
	case oc == errHang:
		return errHang, kept, ""
	case oc != "ok":
		return "refuse", kept, oc
	case refused:
		return "refuse", kept, ""
	}
	return "answer", kept, ""
}

func (c *ctx) somePath() *fs1.LassoLarsPath {
	p := &fs1.LassoLarsPath{Dset: c.someDset(), Aicc: c.randVec(2), Bic: c.randVec(2)}
	p.LassoLarsNodes = append(p.LassoLarsNodes, fs1.NewLassoLarsNode(c.randVec(1), 1.5, []int{1}), fs1.NewLassoLarsNode(c.randVec(2), 0.5, []int{0, 1}))
	return p
}

func (c *ctx) someDset() *fs1.Dataset {
	return &fs1.Dataset{X: c.randDense(3, 2), Y: c.randVec(3), TargetCol: c.rng.Intn(3), Names: []string{"a", "b", "c"}}
}

func (c *ctx) someNode() *fs1.Node {
	n := fs1.NewNode(1+c.rng.Intn(3), []bool{true, c.rng.Intn(2) == 0, true, false})
	n.Score, n.Lower, n.Upper = c.rng.NormFloat64(), c.rng.NormFloat64(), c.rng.NormFloat64()
	n.Coeff = c.randVec(fs1.NumFeatures(n.Model))
	return n
}

func (c *ctx) someList() *fs1.Highscore {
	h := fs1.NewHighscore(6)
	for k := 1 + c.rng.Intn(4); k > 0; k-- {
		h.Insert(c.someNode())
	}
	return h
}

// decodeReq damages an encoding and decodes it
func (c *ctx) decodeReq(q *request, refused, kept *bool) (func(), func()) {
	enc := func(v interface{}) []byte {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		return b
	}
	var b []byte
	switch q.Kind {
	case "node":
		b = enc(c.someNode())
	case "list":
		b = enc(c.someList())
	case "data":
		b = enc(c.someDset())
	case "path":
		b = enc(c.somePath())
	}
	r := c.rng
	// a value of the encoding is replaced; the key is one that all versions of the format must have
	repl := func(keys []string, by string) {
		var places []int
		for _, k := range keys {
			pat := []byte("\"" + k + "\":")
			for off := 0; ; {
				i := bytes.Index(b[off:], pat)
				if i < 0 {
					break
				}
				places = append(places, off+i+len(pat))
				off += i + len(pat)
			}
		}
		if len(places) == 0 {
			panic("harness: the encoding has none of " + strings.Join(keys, " ") + ": " + string(b))
		}
		at := places[r.Intn(len(places))]
		var v json.RawMessage
		if err := json.NewDecoder(bytes.NewReader(b[at:])).Decode(&v); err != nil {
			panic(err)
		}
		b = append(append(append([]byte{}, b[:at]...), by...), b[at+len(v):]...)
	}
	numbers := map[string][]string{"node": c.numKeys(b), "list": c.numKeys(b), "data": c.numKeys(b), "path": c.numKeys(b)}[q.Kind]
	switch q.Damage {
	case "none":
	case "cut1", "cut2", "cut3", "cut4", "cut5", "cut6", "cut7":
		k := int(q.Damage[3] - '0')
		lo, hi := len(b)*(k-1)/7, len(b)*k/7
		b = b[:lo+r.Intn(hi-lo)]
	case "last":
		b = b[:len(b)-1]
	case "more":
		b = append(append([]byte{}, b...), []string{"}", "]", ",", "{}", " x"}[r.Intn(5)]...)
	case "type":
		repl(numbers, []string{"\"x\"", "true", "{\"a\":1}", "[\"y\"]"}[r.Intn(4)])
	case "index":
		key := c.selKey()
		repl([]string{key}, []string{"[7]", "[-1]", "[0,4]"}[r.Intn(3)])
	case "dims":
		repl([]string{"Nr", "Nc"}, []string{"1", "7", "-2"}[r.Intn(3)])
	default:
		panic("harness: damage " + q.Damage)
	}
	c.setStage("decode %s %s: %s", q.Kind, q.Damage, b)
	var err error
	atomic := q.Damage != "index" && q.Damage != "dims"
	var f func()
	after := func() {}
	switch q.Kind {
	case "node":
		n := c.someNode()
		was := string(enc(n))
		f = func() { err = json.Unmarshal(b, n); *refused = err != nil }
		after = func() { *kept = !atomic || q.Damage == "none" || string(enc(n)) == was }
	case "list":
		h := c.someList()
		was := string(enc(h))
		f = func() { err = json.Unmarshal(b, h); *refused = err != nil }
		after = func() { *kept = !atomic || q.Damage == "none" || string(enc(h)) == was }
	case "data":
		d := c.someDset()
		was := string(enc(d))
		f = func() { err = json.Unmarshal(b, d); *refused = err != nil }
		after = func() { *kept = !atomic || q.Damage == "none" || string(enc(d)) == was }
	case "path":
		f = func() { fs1.LassoLarsPathFromBytes(b) }
	}
	return f, after
}

// numKeys are the keys of all numbers and lists of numbers in an encoding
func (c *ctx) numKeys(b []byte) []string {
	seen := map[string]bool{}
	var out []string
	var walk func(key string, v interface{})
	walk = func(key string, v interface{}) {
		switch t := v.(type) {
		case float64:
			if key != "" && !seen[key] {
				seen[key] = true
				out = append(out, key)
			}
		case []interface{}:
			for _, e := range t {
				if _, isObj := e.(map[string]interface{}); isObj {
					walk("", e)
				}
			}
		case map[string]interface{}:
			for k, e := range t {
				walk(k, e)
			}
		}
	}
	var v interface{}
	if err := json.Unmarshal(b, &v); err != nil {
		panic(err)
	}
	walk("", v)
	// map order must not make the cases differ from run to run
	for i := range out {
		for j := i + 1; j < len(out); j++ {
			if out[j] < out[i] {
				out[i], out[j] = out[j], out[i]
			}
		}
	}
	return out
}

// selKey is the key under which a node's features are encoded
func (c *ctx) selKey() string {
	n := fs1.NewNode(1, []bool{false, false, true, false})
	n.Coeff = []float64{0.5}
	b, err := json.Marshal(n)
	if err != nil {
		panic(err)
	}
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	for k, v := range m {
		if l, ok := v.([]interface{}); ok && len(l) == 1 && l[0] == 2.0 {
			return k
		}
	}
	panic("harness: no list of features in " + string(b))
}

func (c *ctx) cliReq(q *request) (string, bool, string) {
	r := c.rng
	dir, err := os.MkdirTemp(c.dir, "req")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	p := 3 + r.Intn(3)
	if q.Fault == "few" {
		p = 2
	}
	n := p + 8
	d := randF(r, n, p, false)
	t := &table{X: d.X, y: d.y, target: p}
	for j := 0; j <= p; j++ {
		t.names = append(t.names, fmt.Sprintf("f%d", j))
	}
	if q.Fault == "constant" {
		j := 1 + r.Intn(p-1)
		for i := 0; i < n; i++ {
			t.X.Set(i, j, 2.5)
		}
	}
	csv, out := filepath.Join(dir, "data.csv"), filepath.Join(dir, "out.json")
	c.writeCSV(t, csv)
	edit := func(g func(lines []string) []string) {
		b, err := os.ReadFile(csv)
		if err != nil {
			panic(err)
		}
		l := g(strings.Split(strings.TrimSuffix(string(b), "\n"), "\n"))
		s := strings.Join(l, "\n")
		if len(l) > 0 {
			s += "\n"
		}
		os.WriteFile(csv, []byte(s), 0644)
	}
	old := []byte(strings.Repeat("an older result ", 1+r.Intn(3000)))
	hadOld := r.Intn(3) != 0
	if hadOld {
		os.WriteFile(out, old, 0644)
	}
	sub := map[string]string{"lars": "lasso", "cd": "lasso", "none": "bnb"}[q.Sub]
	if sub == "" {
		sub = q.Sub
	}
	target := "-1"
	typ := map[string]string{"lars": "lars", "cd": "cd"}[q.Sub]
	cov := ""
	extra := []string{}
	csvArg, outArg := csv, out
	switch q.Fault {
	case "nofile":
		csvArg = filepath.Join(dir, "other.csv")
	case "nocsv":
		csvArg = ""
	case "ragged":
		edit(func(l []string) []string {
			k := 1 + r.Intn(len(l)-1)
			if r.Intn(2) == 0 {
				l[k] += ",1.5"
			} else {
				l[k] = l[k][:strings.LastIndex(l[k], ",")]
			}
			return l
		})
	case "empty":
		edit(func(l []string) []string { return nil })
	case "headeronly":
		edit(func(l []string) []string { return l[:1] })
	case "targethigh":
		target = fmt.Sprint(p + 1 + r.Intn(3))
	case "targetlow":
		target = fmt.Sprint(-p - 2 - r.Intn(3))
	case "flag":
		extra = []string{[]string{"--bogus=1", "--csvfile=x", "-z"}[r.Intn(3)]}
	case "badnumber":
		target = []string{"x", "1.5", "--"}[r.Intn(3)]
	case "badcutoff":
		extra = []string{map[string]string{"bnb": "--cutoff=low", "lasso": "--lmin=low"}[sub]}
	case "outdir":
		outArg = filepath.Join(dir, "nowhere", "out.json")
	case "outisdir":
		outArg = filepath.Join(dir, "sub")
		os.Mkdir(outArg, 0755)
	case "type":
		typ = []string{"lar", "LARS", "ridge", ""}[r.Intn(4)]
	case "cov":
		cov = []string{"emp", "Identity", "sparse"}[r.Intn(3)]
	case "command":
		sub = []string{"bnbx", "search", "las so"}[r.Intn(3)]
	case "rootflag":
		sub = "--bogus"
	}
	args := []string{sub}
	if q.Fault != "rootflag" {
		args = append(args, "--target="+target, "--out="+outArg)
		if csvArg != "" {
			args = append(args, "--csv="+csvArg)
		}
		if typ != "" || q.Fault == "type" {
			args = append(args, "--type="+typ)
		}
		if sub == "lasso" && q.Fault != "badcutoff" {
			args = append(args, "--lmin=0.01")
		}
		if cov != "" {
			args = append(args, "--cov="+cov)
		}
		args = append(args, extra...)
	}
	c.setStage("goselect %v", args)
	oc, txt := c.runCLI(dir, args)
	got := "answer"
	if oc == errHang {
		got = errHang
	} else if oc != "ok" {
		got = "refuse"
	}
	b, err := os.ReadFile(out)
	kept := hadOld && err == nil && bytes.Equal(b, old) || !hadOld && err != nil
	if got == "answer" && q.Fault == "none" && kept {
		got = "refuse" // nothing was delivered
	}
	if len(txt) > 300 {
		txt = txt[len(txt)-300:]
	}
	return got, kept, strings.Join(args, " ") + ": " + oc + ": " + txt
}
