package main

// Shared helpers of the driver: command line, case loop, guarded calls into the code under test,
// scaling of floats to the 32-bit integers TLC works with, and data generation.

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"gonum.org/v1/gonum/mat"
)

// rec is one JSON object of a trace
type rec map[string]interface{}

const (
	numNaN = 2000000000  // a float that is not a number
	numInf = 1900000000  // +Inf or too large to scale
	numMin = -1900000000 // -Inf or too small to scale
)

// sc scales x to an integer TLC can handle
func sc(x, scale float64) int {
	if math.IsNaN(x) {
		return numNaN
	}
	v := x * scale
	if v >= numInf {
		return numInf
	}
	if v <= numMin {
		return numMin
	}
	return int(math.Round(v))
}

func scs(x []float64, scale float64) []int {
	r := make([]int, len(x))
	for i, v := range x {
		r[i] = sc(v, scale)
	}
	return r
}

// fs is an exact textual form of a float (equality of strings is equality of floats)
func fs(x float64) string { return strconv.FormatFloat(x, 'g', -1, 64) }

func fss(x []float64) []string {
	r := make([]string, len(x))
	for i, v := range x {
		r[i] = fs(v)
	}
	return r
}

func ints(x []int) []int {
	if x == nil {
		return []int{}
	}
	return x
}

type ctx struct {
	prop     string
	seed     int64
	tier     string
	id       int
	rng      *rand.Rand
	deadline time.Duration
	stage    string
	dir      string
	gen      []string // lines of the file with spec-generated behaviours
}

func (c *ctx) quick() bool { return c.tier != "thorough" }

// stageFile is written before every call into the code under test so that a crash or hang can be attributed
var stageFile string

func (c *ctx) setStage(format string, a ...interface{}) {
	c.stage = fmt.Sprintf(format, a...)
	if stageFile != "" {
		os.WriteFile(stageFile, []byte(fmt.Sprintf("%d\n%s\n", c.id, c.stage)), 0644)
	}
}

var errHang = "hang"

// guard runs f, reporting "ok", "panic: ..." or "hang"
func (c *ctx) guard(f func()) string {
	ch := make(chan string, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				if !strings.Contains(st, "davidkleiven/goselect") {
					fmt.Fprintf(os.Stderr, "HARNESS-PANIC %v\n%s\n", r, st)
					os.Exit(97)
				}
				msg := fmt.Sprint(r)
				if len(msg) > 200 {
					msg = msg[:200]
				}
				ch <- "panic: " + msg
			}
		}()
		f()
		ch <- "ok"
	}()
	t := time.NewTimer(c.deadline)
	defer t.Stop()
	select {
	case s := <-ch:
		return s
	case <-t.C:
		return errHang
	}
}

// settle waits until the number of goroutines is back at base and returns the excess
func settle(base int) int {
	for i := 0; i < 600; i++ {
		d := runtime.NumGoroutine() - base
		if d <= 0 {
			return 0
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(time.Duration(1+i/20) * time.Millisecond)
		}
	}
	d := runtime.NumGoroutine() - base
	if d < 0 {
		return 0
	}
	leaks++
	return d
}

// leaks counts the cases with goroutines that did not end; waiting for them costs time, so a few are enough
var leaks int

type propFn func(c *ctx) rec

type propDef struct {
	fn       propFn
	quick    int // number of cases
	thorough int
	genFile  bool // the number of cases is the number of lines of the generated-behaviours file
	genChunk int
}

var props = map[string]propDef{}

func caseRng(seed int64, prop string, id int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, id)
	return rand.New(rand.NewSource(int64(h.Sum64() & 0x7fffffffffffffff)))
}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("out", "", "output file (ndjson)")
	shard := flag.Int("shard", 0, "shard")
	shards := flag.Int("shards", 1, "number of shards")
	from := flag.Int("from", 0, "first case")
	only := flag.Int("only", -1, "only this case")
	n := flag.Int("n", 0, "number of cases (default: by tier)")
	deadline := flag.Float64("deadline", 20, "seconds per call")
	genf := flag.String("gen", "", "file with behaviours generated from the specification")
	budget := flag.Float64("budget", 0, "stop starting new cases after this many seconds (0: never)")
	list := flag.Bool("count", false, "print the number of cases")
	flag.Parse()

	def, ok := props[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(98)
	}
	num := def.quick
	if *tier == "thorough" {
		num = def.thorough
	}
	if *n > 0 {
		num = *n
	}
	var genLines []string
	if *genf != "" {
		b, err := os.ReadFile(*genf)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(98)
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) != "" {
				genLines = append(genLines, l)
			}
		}
		if def.genFile {
			num += (len(genLines) + def.genChunk - 1) / def.genChunk
		}
	}
	if *list {
		fmt.Println(num)
		return
	}
	real := os.Stdout
	if dn, err := os.OpenFile(os.DevNull, os.O_RDWR, 0); err == nil {
		os.Stdout = dn
	}
	_ = real
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(98)
	}
	stageFile = *out + ".stage"
	dir, err := os.MkdirTemp("", "gsverif")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(98)
	}
	defer os.RemoveAll(dir)
	w := bufio.NewWriter(f)
	start := time.Now()
	for id := *from; id < num; id++ {
		if *only >= 0 && id != *only {
			continue
		}
		if id%*shards != *shard {
			continue
		}
		if leaks >= 2 {
			break
		}
		if *budget > 0 && time.Since(start).Seconds() > *budget {
			break
		}
		c := &ctx{prop: *prop, seed: *seed, tier: *tier, id: id, rng: caseRng(*seed, *prop, id),
			deadline: time.Duration(*deadline * float64(time.Second)), dir: dir, gen: genLines}
		rand.Seed(c.rng.Int63())
		c.setStage("start")
		r := def.fn(c)
		if r == nil {
			continue
		}
		r["id"] = id
		b, err := json.Marshal(r)
		if err != nil {
			fmt.Fprintln(os.Stderr, "marshal:", err)
			os.Exit(98)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
		if hung(r) {
			// goroutines of the hung call may still spin: leave the rest to a fresh process
			os.RemoveAll(dir)
			os.Exit(77)
		}
	}
	w.Flush()
	f.Close()
}

func hung(r rec) bool {
	if r["outcome"] == errHang {
		return true
	}
	if rs, ok := r["runs"].([]rec); ok {
		for _, x := range rs {
			if x["outcome"] == errHang {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------------- data

// idata is a data set with integer entries, so that exact facts about it can be computed
type idata struct {
	n, p int
	X    [][]int64
	y    []int64
	kind string
	e    []int // column j is scaled by 2^e[j] (nil: not scaled), exactly
	ye   int   // the target is scaled by 2^ye
}

// newDense is a zero matrix; for some sizes it is a window of a wider matrix (with another stride), as a user
// gets it from Slice
func newDense(n, p int) *mat.Dense {
	if (n+2*p)%3 != 0 {
		return mat.NewDense(n, p, nil)
	}
	big := mat.NewDense(n+2, p+3, nil)
	for i := 0; i < n+2; i++ {
		for j := 0; j < p+3; j++ {
			big.Set(i, j, math.NaN())
		}
	}
	m := big.Slice(1, n+1, 2, p+2).(*mat.Dense)
	m.Zero()
	return m
}

func (d *idata) dense() *mat.Dense {
	m := newDense(d.n, d.p)
	for i := range d.X {
		for j := range d.X[i] {
			m.Set(i, j, d.at(i, j))
		}
	}
	return m
}

func (d *idata) yf() []float64 {
	r := make([]float64, d.n)
	for i := range r {
		r[i] = math.Ldexp(float64(d.y[i]), d.ye)
	}
	return r
}

// at is an element of the design matrix
func (d *idata) at(i, j int) float64 {
	if d.e == nil {
		return float64(d.X[i][j])
	}
	return math.Ldexp(float64(d.X[i][j]), d.e[j])
}

// un translates the coefficients of a model to the problem without scaling
func (d *idata) un(mask int, co []float64) []float64 {
	if d.e == nil && d.ye == 0 || popcount(mask) != len(co) {
		return co
	}
	r := make([]float64, len(co))
	for k, j := range selOf(mask, d.p) {
		e := 0
		if d.e != nil {
			e = d.e[j]
		}
		r[k] = math.Ldexp(co[k], e-d.ye)
	}
	return r
}

// rescale multiplies columns and target by powers of two. A common factor is applied to any kind of data;
// it may bring the smallest singular value of a model close to the tolerance of Fit (10^-6), from above.
// Different factors are only applied where the least-squares solutions are unique and no residual vanishes.
func (d *idata) rescale(r *rand.Rand, mixed int) {
	if r.Intn(2) == 0 {
		return
	}
	if r.Intn(2) == 0 {
		d.ye = r.Intn(17) - 8
	}
	full := 1<<uint(d.p) - 1
	g := newGram(d)
	if mixed > 0 && r.Intn(2) == 0 && g.rank(full) == d.p {
		_, rms, _ := d.exactResiduals(full, g) // no other model leaves less
		ok := math.Ldexp(rms, -d.ye) > 0.02
		s := d.minSing(g)
		if ok && math.Ldexp(s, -mixed) > 4e-6 {
			d.e = make([]int, d.p)
			for j := range d.e {
				d.e[j] = r.Intn(2*mixed+1) - mixed
			}
			return
		}
	}
	s := d.minSing(g)
	low := int(math.Ceil(math.Log2(4e-6 / s)))
	if low < -18 {
		low = -18
	}
	if low > 0 {
		return
	}
	e := low
	switch r.Intn(3) {
	case 0:
		e = low + r.Intn(14)
	case 1:
		e = r.Intn(14)
	}
	d.e = make([]int, d.p)
	for j := range d.e {
		d.e[j] = e
	}
}

// minSing is the smallest positive singular value of all models
func (d *idata) minSing(g *gram) float64 {
	full := 1<<uint(d.p) - 1
	res := math.Inf(1)
	one := func(mask int) {
		sel := selOf(mask, d.p)
		k := len(sel)
		m := mat.NewSymDense(k, nil)
		for a := range sel {
			for b := a; b < k; b++ {
				v, _ := g.g[sel[a]][sel[b]].Float64()
				m.SetSym(a, b, v)
			}
		}
		var e mat.EigenSym
		if !e.Factorize(m, false) {
			res = 0
			return
		}
		v := e.Values(nil)
		res = math.Min(res, math.Sqrt(math.Max(v[k-g.rank(mask)], 0)))
	}
	if g.rank(full) == d.p { // the eigenvalues of the others lie between
		one(full)
		return res
	}
	for m := 1; m <= full; m++ {
		one(m)
	}
	return res
}

func newIdata(n, p int, kind string) *idata {
	d := &idata{n: n, p: p, kind: kind, X: make([][]int64, n), y: make([]int64, n)}
	for i := range d.X {
		d.X[i] = make([]int64, p)
	}
	return d
}

func ri(r *rand.Rand, lo, hi int) int64 { return int64(lo + r.Intn(hi-lo+1)) }

var hadamard8 = [8][8]int64{
	{1, 1, 1, 1, 1, 1, 1, 1}, {1, -1, 1, -1, 1, -1, 1, -1}, {1, 1, -1, -1, 1, 1, -1, -1}, {1, -1, -1, 1, 1, -1, -1, 1},
	{1, 1, 1, 1, -1, -1, -1, -1}, {1, -1, 1, -1, -1, 1, -1, 1}, {1, 1, -1, -1, -1, -1, 1, 1}, {1, -1, -1, 1, -1, 1, 1, -1}}

// genData makes a data set of one of several structural kinds
func genData(r *rand.Rand, kind int, p, n int) *idata {
	names := []string{"random", "sparse", "correlated", "collinear", "exact", "wide", "bias", "orthogonal", "weak", "duplicate"}
	kind = kind % len(names)
	if names[kind] == "wide" && n > p && p >= 3 {
		n = 3 + r.Intn(p-2)
	}
	if names[kind] == "orthogonal" {
		n = 8
		if p > 8 {
			p = 8
		}
	}
	d := newIdata(n, p, names[kind])
	for i := range d.X {
		for j := range d.X[i] {
			d.X[i][j] = ri(r, -5, 5)
		}
		d.y[i] = ri(r, -9, 9)
	}
	lin := func(k int, noise int, amp int) {
		beta := make([]int64, p)
		if k > p {
			k = p
		}
		for _, j := range r.Perm(p)[:k] {
			beta[j] = ri(r, 1, 3)
			if r.Intn(2) == 0 {
				beta[j] = -beta[j]
			}
		}
		for i := range d.X {
			s := int64(0)
			for j := range beta {
				s += beta[j] * d.X[i][j]
			}
			d.y[i] = s * int64(amp)
			if noise > 0 {
				d.y[i] += ri(r, -noise, noise)
			}
		}
	}
	kk := 1 + r.Intn(p)
	switch d.kind {
	case "sparse":
		lin(1+r.Intn((p+1)/2), 3, 2)
	case "correlated":
		for i := range d.X {
			for j := 1; j < p; j++ {
				if j%2 == 1 {
					d.X[i][j] = 2*d.X[i][j-1] + ri(r, -1, 1)
				}
			}
		}
		lin(kk, 4, 1)
	case "collinear":
		for i := range d.X {
			d.X[i][p-1] = d.X[i][0] + d.X[i][1%p]
			if p > 3 {
				d.X[i][2] = -2 * d.X[i][0]
			}
		}
		if r.Intn(2) == 0 {
			lin(kk, 2, 1)
		}
	case "exact":
		lin(1+r.Intn(2), 0, 1)
	case "bias":
		for i := range d.X {
			d.X[i][0] = 1
		}
		lin(kk, 3, 1)
	case "orthogonal":
		perm := r.Perm(8)
		for i := range d.X {
			for j := range d.X[i] {
				d.X[i][j] = hadamard8[i][perm[j]]
			}
		}
		lin(kk, r.Intn(3), 1+r.Intn(3))
	case "weak":
		lin(p, 12, 1)
	case "duplicate":
		a, b := r.Intn(p), r.Intn(p)
		for i := range d.X {
			d.X[i][b] = d.X[i][a]
		}
		lin(kk, 3, 1)
	}
	// no all-zero columns
	for j := 0; j < p; j++ {
		z := true
		for i := range d.X {
			if d.X[i][j] != 0 {
				z = false
			}
		}
		if z {
			d.X[r.Intn(n)][j] = 1
		}
	}
	return d
}

func maskOf(model []bool) int {
	m := 0
	for i, v := range model {
		if v {
			m |= 1 << uint(i)
		}
	}
	return m
}

func bools(mask, p int) []bool {
	b := make([]bool, p)
	for i := range b {
		b[i] = mask>>uint(i)&1 == 1
	}
	return b
}

func popcount(m int) int {
	c := 0
	for ; m > 0; m >>= 1 {
		c += m & 1
	}
	return c
}

func selOf(mask, p int) []int {
	s := []int{}
	for i := 0; i < p; i++ {
		if mask>>uint(i)&1 == 1 {
			s = append(s, i)
		}
	}
	return s
}

// ---------------------------------------------------------------------------------- schedule perturbation

// delayX is a design matrix whose element accesses yield or sleep now and then. It only delays; which
// accesses are delayed depends on the mode, so that workers of one kind can be slowed down as a group.
type delayX struct {
	*mat.Dense
	mode int
	seed uint64
	cnt  uint64
	mu   sync.Mutex
}

func (d *delayX) T() mat.Matrix { return mat.Transpose{Matrix: d} }

func (d *delayX) At(i, j int) float64 {
	if i == 0 {
		c := atomic.AddUint64(&d.cnt, 1)
		h := (c*0x9E3779B97F4A7C15 + d.seed) ^ uint64(j)*0xBF58476D1CE4E5B9
		h ^= h >> 31
		h *= 0x94D049BB133111EB
		h ^= h >> 29
		switch d.mode {
		case 1:
			runtime.Gosched()
		case 2:
			if h%16 == 0 {
				time.Sleep(time.Duration(10+h%60) * time.Microsecond)
			} else if h%4 == 1 {
				runtime.Gosched()
			}
		case 3, 4: // slow down either the scoring or the bounding goroutines
			if h%3 == 0 && roleIsChild() == (d.mode == 4) {
				time.Sleep(time.Duration(20+h%100) * time.Microsecond)
			}
		case 5: // rare long stalls
			if h%61 == 0 {
				time.Sleep(time.Duration(300+h%700) * time.Microsecond)
			}
		}
	}
	return d.Dense.At(i, j)
}

func roleIsChild() bool {
	var pcs [24]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "ound") || strings.Contains(f.Function, "Child") {
			return true
		}
		if !more {
			return false
		}
	}
}

func copyDense(X *mat.Dense) *mat.Dense {
	n, p := X.Dims()
	m := newDense(n, p)
	m.Copy(X)
	return m
}
