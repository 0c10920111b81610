package main

// Driver of the command line tools (C26): runs the built binary in a scratch directory.

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	fs1 "github.com/davidkleiven/goselect/featselect"
	"gonum.org/v1/gonum/mat"
)

func init() {
	props["C26"] = propDef{fn: c26, quick: 350, thorough: 6000}
}

// table is the content of a CSV file: features and target in the order of the file
type table struct {
	names  []string
	X      *mat.Dense
	y      []float64
	target int // column of the target in the file
}

func (c *ctx) writeCSV(t *table, file string) {
	r := c.rng
	nr, nc := t.X.Dims()
	pad := r.Intn(2) == 0
	var b strings.Builder
	for j := 0; j <= nc; j++ {
		if j > 0 {
			b.WriteString(",")
		}
		b.WriteString(t.names[j])
	}
	b.WriteString("\n")
	for i := 0; i < nr; i++ {
		k := 0
		for j := 0; j <= nc; j++ {
			v := 0.0
			if j == t.target {
				v = t.y[i]
			} else {
				v = t.X.At(i, k)
				k++
			}
			if j > 0 {
				b.WriteString(",")
			}
			s := strconv.FormatFloat(v, 'g', -1, 64)
			if pad {
				s = fmt.Sprintf("%12s", s)
			}
			b.WriteString(s)
		}
		b.WriteString("\n")
	}
	if err := os.WriteFile(file, []byte(b.String()), 0644); err != nil {
		panic(err)
	}
}

// runCLI runs the binary; outcome "ok", "exit <n>", "panic" or "hang"
func (c *ctx) runCLI(dir string, args []string) (string, string) {
	return c.runBin(os.Getenv("GOSELECT_BIN"), dir, args)
}

func (c *ctx) runBin(bin, dir string, args []string) (string, string) {
	cmd := exec.Command(bin, args...)
	cmd.Dir = dir
	cmd.Env = []string{"HOME=" + c.dir, "PATH=/usr/bin:/bin", "GOTRACEBACK=all", "TMPDIR=" + dir}
	var sb strings.Builder
	cmd.Stdout, cmd.Stderr = &sb, &sb
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-PANIC cannot start", err)
		os.Exit(97)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return fmt.Sprint(err), sb.String()
		}
		return "ok", sb.String()
	case <-time.After(2 * c.deadline):
		cmd.Process.Kill()
		<-done
		return errHang, sb.String()
	}
}

func c26(c *ctx) rec {
	dir, err := os.MkdirTemp(c.dir, "cli")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	switch c.id % 5 {
	case 0, 1:
		return c26search(c, dir, "bnb")
	case 2:
		return c26search(c, dir, "sasearch")
	}
	return c26lasso(c, dir, []string{"lars", "cd"}[c.id%5-3])
}

// common arguments; returns the arguments and the path of the output file
func (c *ctx) cliArgs(dir, sub string, t *table, ncol int) ([]string, string) {
	r := c.rng
	csv := filepath.Join(dir, "data.csv")
	c.writeCSV(t, csv)
	args := []string{sub}
	if r.Intn(2) == 0 {
		args = append(args, "--csv", csv)
	} else {
		args = append(args, "--csv=data.csv")
	}
	switch {
	case t.target == ncol-1 && r.Intn(2) == 0: // the default
	case r.Intn(2) == 0:
		args = append(args, "--target="+strconv.Itoa(t.target-ncol))
	default:
		args = append(args, "--target="+strconv.Itoa(t.target))
	}
	out := map[string]string{"bnb": "bnbSearch.json", "sasearch": "saSearch.json", "lasso": "lasso.json"}[sub]
	if r.Intn(4) != 0 {
		out = fmt.Sprintf("result%d.json", r.Intn(100))
		if r.Intn(2) == 0 {
			args = append(args, "--out", filepath.Join(dir, out))
		} else {
			args = append(args, "--out="+out)
		}
	}
	if r.Intn(3) == 0 { // an old, longer file is in the way
		os.WriteFile(filepath.Join(dir, out), []byte(strings.Repeat("old content ", 5000)), 0644)
	}
	return args, filepath.Join(dir, out)
}

func (c *ctx) tableOf(X *mat.Dense, y []float64) *table {
	_, p := X.Dims()
	t := &table{X: X, y: y, target: p}
	if c.rng.Intn(2) == 0 {
		t.target = c.rng.Intn(p + 1)
	}
	for j := 0; j <= p; j++ {
		t.names = append(t.names, fmt.Sprintf("f%d", j))
	}
	if c.rng.Intn(3) == 0 {
		t.names[0] = "# " + t.names[0]
	}
	return t
}

func c26search(c *ctx, dir, sub string) rec {
	r := c.rng
	var d *idata
	var f *facts
	for {
		p := 3 + r.Intn(3) // the search wants at least three
		if sub == "sasearch" {
			p = 2 + r.Intn(3)
		}
		n := 6 + r.Intn(10)
		d = genData(r, r.Intn(10), p, n)
		ws := d.wellScaled()
		if ws {
			d.rescale(r, 10)
		}
		if d.n < 6 {
			continue
		}
		f = newFacts(d)
		if f.ok && ws {
			break
		}
	}
	t := c.tableOf(d.dense(), d.yf())
	args, out := c.cliArgs(dir, sub, t, d.p+1)
	o := f.header()
	o["type"] = sub
	cutoff := 0.0
	qlim := -1
	if sub == "bnb" {
		lo, hi := math.Inf(1), math.Inf(-1)
		for m := 1; m < len(f.rss); m++ {
			if popcount(m) < d.n {
				a := f.aicc(m)
				lo, hi = math.Min(lo, a), math.Max(hi, a)
			}
		}
		switch r.Intn(5) {
		case 0:
			cutoff = math.Round(r.Float64()*(hi-lo)*4) / 4
		case 1:
			cutoff = -math.Round(r.Float64()*(hi-lo)*4) / 4
		case 2:
			cutoff = []float64{1e4, -1e4}[r.Intn(2)]
		}
		if cutoff != 0 {
			args = append(args, fmt.Sprintf("--cutoff=%g", cutoff))
		}
		if r.Intn(6) == 0 {
			qlim = 1 << uint(d.p+2)
			args = append(args, fmt.Sprintf("--maxqueue=%d", qlim))
		}
	} else {
		sw := 60 + r.Intn(60)
		if r.Intn(2) == 0 {
			args = append(args, fmt.Sprintf("--sweeps=%d", sw))
		}
	}
	o["cutoff"] = sc(cutoff, scoreScale)
	o["args"] = strings.Join(args, " ")
	c.setStage("goselect %v", args)
	oc, txt := c.runCLI(dir, args)
	o["outcome"] = oc
	if oc != "ok" {
		o["text"] = tail(txt)
		return o
	}
	b, err := os.ReadFile(out)
	items := []rec{}
	o["cap"] = 0
	o["best"], o["worst"] = rec{"m": 0, "s": 0}, rec{"m": 0, "s": 0}
	if err == nil {
		if sub == "bnb" {
			h := fs1.NewHighscore(1)
			err = json.Unmarshal(b, h)
			for el := h.Items.Front(); el != nil; el = el.Next() {
				it := el.Value.(*fs1.Node)
				m := 0
				if len(it.Model) == d.p {
					m = maskOf(it.Model)
				}
				items = append(items, itemRec(f, m, it.Coeff, it.Score))
			}
			o["cap"] = h.MaxItems
		} else {
			type item struct {
				Selection []int
				Coeff     []float64
				Score     float64
			}
			var s struct {
				Cap                 int
				Items               []item
				BestItem, WorstItem item
			}
			err = json.Unmarshal(b, &s)
			conv := func(it item) rec {
				m := 0
				for k, v := range it.Selection {
					if v < 0 || v >= d.p || (k > 0 && v <= it.Selection[k-1]) {
						m = 0
						break
					}
					m |= 1 << uint(v)
				}
				return itemRec(f, m, it.Coeff, it.Score)
			}
			for _, it := range s.Items {
				items = append(items, conv(it))
			}
			o["cap"] = s.Cap
			o["best"], o["worst"] = conv(s.BestItem), conv(s.WorstItem)
		}
	}
	o["decoded"] = err == nil
	o["items"] = items
	return o
}

func itemRec(f *facts, m int, co []float64, score float64) rec {
	e := rec{"m": m, "s": sc(score, scoreScale), "co": []int{}, "truth": []int{0}}
	if m > 0 {
		t := f.g.solve(m)
		Q := 1e8 / math.Max(1e-3, maxAbs(t))
		e["co"], e["truth"] = scs(f.d.un(m, co), Q), scs(t, Q)
	}
	return e
}

func tail(s string) string {
	if k := strings.Index(s, "panic:"); k >= 0 {
		s = s[k:]
	}
	if len(s) > 3000 {
		s = s[:2500] + " ... " + s[len(s)-500:]
	}
	return s
}

func c26lasso(c *ctx, dir, typ string) rec {
	r := c.rng
	n, p := 10+r.Intn(30), 2+r.Intn(7)
	if n < p+5 {
		n = p + 5
	}
	bias := r.Intn(2) == 0
	if bias && p < 3 {
		p = 3
	}
	d := randF(r, n, p, bias)
	// what the file holds is what the tool reads
	t := c.tableOf(d.X, d.y)
	args, out := c.cliArgs(dir, "lasso", t, p+1)
	q := d.z()
	Xy := q.corr(make([]float64, p))
	lmax := maxAbs(Xy)
	o := rec{"type": typ, "p": p, "n": n, "bias": bias}
	var lmin float64
	ls := []float64{}
	cov := "empirical"
	tol := 1e-4
	if typ == "lars" {
		lmin = lmax * math.Exp(-r.Float64()*6)
		if r.Intn(2) == 0 {
			args = append(args, "--type=lars")
		}
		args = append(args, fmt.Sprintf("--lmin=%s", fs(lmin)))
	} else {
		lmax /= float64(n)
		lmin = lmax * math.Exp(-0.5-r.Float64()*5)
		top := 1.0
		num := 50
		args = append(args, "--type", "cd", "--lmin", fs(lmin))
		if r.Intn(3) != 0 {
			top = lmax * (0.3 + 1.4*r.Float64())
			if top <= lmin*1.05 {
				top = lmin * 2
			}
			args = append(args, "--lmax", fs(top))
		}
		if r.Intn(3) != 0 {
			num = 1 + r.Intn(25)
			args = append(args, fmt.Sprintf("--num=%d", num))
		}
		if r.Intn(3) != 0 {
			tol = []float64{1e-5, 1e-6, 1e-8}[r.Intn(3)]
			args = append(args, fmt.Sprintf("--tol=%g", tol))
		}
		switch r.Intn(8) {
		case 0, 1:
			cov = "identity"
			args = append(args, "--cov=identity")
		case 2:
			args = append(args, "--cov=empirical")
		case 3:
			cov = "threshold"
			args = append(args, "--cov=threshold")
		}
		for k := 0; k < num; k++ {
			v := lmin
			if num > 1 {
				v = math.Exp(math.Log(lmin) + (math.Log(top)-math.Log(lmin))*float64(k)/float64(num-1))
			}
			ls = append(ls, v)
		}
		if ls[0] > lmax*0.999 { // everything would be empty
			return nil
		}
		for _, v := range ls {
			if math.Abs(v/lmax-1) < 1e-4 {
				return nil
			}
		}
	}
	o["args"] = strings.Join(args, " ")
	o["cov"] = cov
	c.setStage("goselect %v", args)
	oc, txt := c.runCLI(dir, args)
	o["outcome"] = oc
	if oc != "ok" {
		o["text"] = tail(txt)
		return o
	}
	var path struct {
		Dset struct {
			X         []float64
			Y         []float64
			TargetCol int
			Names     []string
			Nr, Nc    int
		}
		LassoLarsNodes []struct {
			Coeff     []float64
			Lamb      float64
			Selection []int
		}
		Aicc, Bic []float64
	}
	b, err := os.ReadFile(out)
	if err == nil {
		err = json.Unmarshal(b, &path)
	}
	o["decoded"] = err == nil
	ds := path.Dset
	o["dset"] = ds.Nr == n && ds.Nc == p && fmtEq(ds.X, mat.DenseCopyOf(d.X).RawMatrix().Data) && fmtEq(ds.Y, d.y) && ds.TargetCol == t.target && fmt.Sprint(ds.Names) == fmt.Sprint(t.names)
	// back to normalised units; the intercept is looked at separately
	nodes := []*fs1.LassoLarsNode{}
	crit := []rec{}
	okSel := true
	for k, nd := range path.LassoLarsNodes {
		sel, co := nd.Selection, nd.Coeff
		for _, s := range sel {
			okSel = okSel && s >= 0 && s < p
		}
		okSel = okSel && len(sel) == len(co)
		if !okSel {
			break
		}
		rss, mres, scale := 0.0, 0.0, 0.0
		for i := 0; i < n; i++ {
			v := d.y[i]
			for a, s := range sel {
				v -= d.X.At(i, s) * co[a]
				scale = math.Max(scale, math.Abs(d.X.At(i, s)*co[a]))
			}
			rss += v * v
			mres += v / float64(n)
			scale = math.Max(scale, math.Abs(d.y[i]))
		}
		e := rec{"k": len(sel), "nlr": sc(float64(n)*math.Log(math.Max(rss, rssTol)), 1e4), "pen": sc(penAicc(len(sel), n), 1e4),
			"kln": sc(float64(len(sel))*math.Log(float64(n)), 1e4), "aicc": numNaN, "bic": numNaN, "mres": sc(mres/scale, 1e9)}
		if k < len(path.Aicc) && k < len(path.Bic) {
			e["aicc"], e["bic"] = sc(path.Aicc[k], 1e4), sc(path.Bic[k], 1e4)
		}
		crit = append(crit, e)
		zs, zc := []int{}, []float64{}
		lead := 0
		if bias {
			if len(sel) == 0 || sel[0] != 0 {
				okSel = false
				break
			}
			lead = 1
		}
		for a := lead; a < len(sel); a++ {
			zs = append(zs, sel[a])
			zc = append(zc, co[a]*q.std[sel[a]]/q.sY)
		}
		nodes = append(nodes, fs1.NewLassoLarsNode(zc, nd.Lamb, zs))
	}
	o["oksel"], o["crit"] = okSel, crit
	o["ncrit"] = len(path.Aicc) == len(path.LassoLarsNodes) && len(path.Bic) == len(path.LassoLarsNodes)
	o["obs"] = []rec{}
	if !okSel || err != nil {
		return o
	}
	if typ == "lars" {
		S := 1e9 / lmax
		o["lmin"] = sc(lmin, S)
		o["obs"] = larsObs(q, nodes, S)
		o["end"], o["ends"] = []int{}, []int{}
		if len(nodes) > 0 {
			if b := q.extend(nodes[len(nodes)-1], lmin); b != nil {
				o["end"], o["ends"] = scs(q.corr(b), S), sgns(b, 1e-7*math.Max(1e-3, maxAbs(b)))
			}
		}
		return o
	}
	S := 1e9 / math.Max(lmax, 1.1*ls[len(ls)-1])
	thrs := []float64{0}
	if cov == "threshold" { // the threshold is not reported: one of the grid
		thrs = nil
		for j := 0; j < 9; j++ {
			thrs = append(thrs, math.Exp(-10+float64(j)))
		}
	}
	alts := [][]rec{}
	for _, thr := range thrs {
		obs := []rec{}
		for _, nd := range nodes {
			beta := full(p, nd.Selection, nd.Coeff)
			g := q.corr(beta)
			for j := range g {
				g[j] /= float64(n)
				if cov == "identity" {
					g[j] = Xy[j]/float64(n) - beta[j]
				}
				if cov == "threshold" {
					g[j] = Xy[j] / float64(n)
					for k := range beta {
						v := 0.0
						for i := 0; i < n; i++ {
							v += q.cols[j][i] * q.cols[k][i]
						}
						if v /= float64(n); math.Abs(v) >= thr {
							g[j] -= v * beta[k]
						}
					}
				}
			}
			idx := 0
			for k, v := range ls {
				if math.Abs(nd.Lamb/v-1) < 1e-9 {
					idx = k + 1
				}
			}
			eps := (float64(p)*2+1)*tol*maxAbs(beta) + 2e-6*nd.Lamb + 1e-10
			obs = append(obs, rec{"i": idx, "sel": ints(nd.Selection), "nco": len(nd.Coeff), "g": scs(g, S), "s": sgns(beta, 1e-16),
				"lamb": sc(nd.Lamb, S), "tol": minI(sc(eps, S)+3, 900000000)})
		}
		alts = append(alts, obs)
	}
	empty := make([]bool, len(ls))
	for i, v := range ls {
		empty[i] = v >= lmax
	}
	o["empty"], o["alts"], o["slow"] = empty, alts, false
	return o
}
