// Package lrx holds the oracle for the four logistic-regression programs: data
// generation, a plaintext model of the training, output parsing and the property
// bodies. The programs themselves are compiled from /repo through an overlay; see
// lr_*/prog_test.go.
package lrx

import (
	"encoding/csv"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"pgregory.net/rapid"

	"verifharness/hx"
)

// Config is what a case sets before running a program.
type Config struct {
	LogN       int
	NumCompany int
	NumData    int
	BatchSize  int
	NumTrain   int     // minibatch programs
	NumBatch   int     // minibatch programs
	NumIter    int     // 0: as shipped
	GammaMul   float64 // factor applied to the shipped learning rate (float programs)
}

// Prog describes one program.
type Prog struct {
	Name      string
	Toy, Mini bool
	File      string    // data file read by main
	Row       int       // index of the classified row, -1 if all rows are
	ShipIter  int       // iterations run by the program as shipped
	FixedIter bool      // the number of iterations is not configurable
	Gamma     float64   // shipped learning rate
	Eta       []float64 // shipped momentum weights
	Set       func(Config)
	SetRead   func(numData, numFeature int)
	Main      func()
	SumRow    func(*mkckks.Evaluator, *mkrlwe.RotationKeySet, *mkckks.Ciphertext, int, int) *mkckks.Ciphertext
	SumCol    func(*mkckks.Evaluator, *mkrlwe.RelinearizationKeySet, *mkrlwe.RotationKeySet, *mkckks.Ciphertext, *ckks.Plaintext, int, int) *mkckks.Ciphertext
	Read      func(string) ([][]complex128, []complex128)
}

const (
	c3 = -0.0015
	c1 = 0.15
	c0 = 0.5
)

// Delta is the relative accuracy demanded of each accumulated term after the first
// iteration. The programs add ciphertexts whose scales differ by up to 2^-15 without
// adjusting, and use 2^-38 fixed point; see DESIGN.md for the measured errors.
const Delta = 2e-4

func (p *Prog) nf() int {
	if p.Toy {
		return 20
	}
	return 7
}

func (p *Prog) cols() int {
	if p.Toy {
		return 32
	}
	return 8
}

func (p *Prog) rows() int { return (1 << 14) / p.cols() }

func (p *Prog) normalised(j int) bool { return p.Toy && j != 1 && j != 3 && j != 5 && j < 17 }

// Data is a generated data set.
type Data struct {
	X     [][]float64
	Y     []float64 // raw labels
	Mean  []float64
	Std   []float64
	Z     [][]float64
	T     []float64 // mapped labels
	train int
}

// prep computes the preprocessing the programs define.
func (p *Prog) prep(d *Data, n int) {
	nf := p.nf()
	d.Mean, d.Std = make([]float64, nf), make([]float64, nf)
	for j := 0; j < nf; j++ {
		for i := 0; i < n; i++ {
			d.Mean[j] += d.X[i][j]
		}
		d.Mean[j] /= float64(n)
		for i := 0; i < n; i++ {
			d.Std[j] += (d.X[i][j] - d.Mean[j]) * (d.X[i][j] - d.Mean[j])
		}
		div := float64(n)
		if p.Mini {
			div--
		}
		d.Std[j] = math.Sqrt(d.Std[j] / div)
	}
	d.train = n
	d.Z, d.T = nil, nil
	for i := range d.X {
		z := make([]float64, nf)
		for j := range z {
			z[j] = d.X[i][j]
			if p.normalised(j) {
				z[j] = (z[j] - d.Mean[j]) / d.Std[j]
			}
		}
		d.Z = append(d.Z, z)
		t := 0.0
		if d.Y[i] == 0 {
			t = 1
		}
		d.T = append(d.T, t)
	}
}

// State is the model state after an iteration, with per-entry accuracy bounds.
type State struct {
	Beta, V, BetaErr, VErr []float64
	MaxM                   float64 // largest inner product of a row with the weights so far
	enc                    float64 // encryption error of a slot of a classified row
}

// perturbation is one way in which the encrypted computation may deviate: a relative
// error of one term (the same for all rows, as it comes from a mismatch of scales) or an
// absolute error of one entry of v (entry < nf) or of beta (nf <= entry).
type perturbation struct {
	iter, term, entry int
}

const terms = 10

// train is the plaintext model. noise[a][j] receives the absolute noise of entry j of the
// summed gradient of iteration a.
func (p *Prog) train(d *Data, c Config, q perturbation, noise [][]float64) (out []State) {
	nf := p.nf()
	gamma := p.Gamma * c.GammaMul
	wrap := 1.0
	if !p.Mini {
		// the row summation of the one-batch programs always covers 2^14 slots
		wrap = float64(p.rows()) / float64((1<<(c.LogN-1))/p.cols())
	}
	enc := encNoise(c)
	beta, v := make([]float64, nf), make([]float64, nf)
	top := 0.0
	for a := 0; a < p.iters(c); a++ {
		var k [terms]float64
		for i := range k {
			k[i] = 1
			if q.iter == a && q.term == i {
				k[i] += Delta
			}
		}
		lo := 0
		if p.Mini {
			lo = (a % c.NumBatch) * c.BatchSize
		}
		g, u := make([]float64, nf), make([]float64, nf)
		f := wrap * gamma / float64(c.BatchSize)
		for i := lo; i < lo+c.BatchSize; i++ {
			m := 0.0
			for j := 0; j < nf; j++ {
				m += d.Z[i][j] * v[j]
			}
			top = math.Max(top, math.Abs(m))
			m *= k[0]
			rg := k[1]*c3*m*m*m + k[2]*c1*m + k[3]*(c0-d.T[i])
			ru := k[4]*c3*m*m*m + k[5]*c1*m + k[6]*(c0-d.T[i])
			for j := 0; j < nf; j++ {
				g[j] -= f * d.Z[i][j] * rg
				u[j] -= f * d.Z[i][j] * ru
				if noise != nil {
					noise[a][j] += f * math.Abs(d.Z[i][j]) * (3*math.Abs(c3)*m*m + c1) * enc * (norm2(v) + norm2(d.Z[i]) + 1)
				}
			}
		}
		if noise != nil {
			for j := 0; j < nf; j++ {
				// fixed point noise of the encodings of the small constants, summed over rows
				noise[a][j] += wrap * (8e-6 + 4e-8*float64(c.BatchSize)*(1+maxAbsCol(d.Z, lo, lo+c.BatchSize, j)))
			}
		}
		nb, nv := make([]float64, nf), make([]float64, nf)
		e := p.Eta[a]
		for j := 0; j < nf; j++ {
			nb[j] = k[7]*v[j] + g[j]
			nv[j] = k[8]*(1-e)*v[j] + k[9]*e*beta[j] + (1-e)*u[j]
		}
		if q.iter == a && q.entry >= nf {
			nb[q.entry-nf] += Delta
		} else if q.iter == a && q.entry >= 0 {
			nv[q.entry] += Delta
		}
		beta, v = nb, nv
		out = append(out, State{Beta: beta, V: v, MaxM: top})
	}
	return
}

func (p *Prog) iters(c Config) int {
	if c.NumIter > 0 && !p.FixedIter {
		return c.NumIter
	}
	return p.ShipIter
}

// Train runs the plaintext model and bounds the deviation of an encrypted run from it by
// the sum of the effects of all perturbations.
func (p *Prog) Train(d *Data, c Config) []State {
	nf, n := p.nf(), p.iters(c)
	noise := make([][]float64, n)
	for a := range noise {
		noise[a] = make([]float64, nf)
	}
	out := p.train(d, c, perturbation{-1, -1, -1}, noise)
	// the gradient enters v multiplied by 1-eta; the rest of the noise of v is far smaller
	vnoise := func(a, j int) float64 { return noise[a][j] * (math.Abs(1-p.Eta[a]) + 0.05) }
	for a := range out {
		out[a].BetaErr, out[a].VErr = make([]float64, nf), make([]float64, nf)
		for j := 0; j < nf; j++ {
			out[a].BetaErr[j] += noise[a][j]
			out[a].VErr[j] += math.Max(noise[a][j], vnoise(a, j))
		}
	}
	add := func(q perturbation, f float64) {
		for a, st := range p.train(d, c, q, nil) {
			if q.entry >= 0 && a <= q.iter {
				continue // counted above
			}
			for j := 0; j < nf; j++ {
				out[a].BetaErr[j] += f * math.Abs(st.Beta[j]-out[a].Beta[j])
				out[a].VErr[j] += f * math.Abs(st.V[j]-out[a].V[j])
			}
		}
	}
	for a := 0; a < n; a++ {
		for k := 0; k < terms; k++ {
			add(perturbation{a, k, -1}, 1)
		}
		if a == n-1 {
			break
		}
		for j := 0; j < nf; j++ {
			// one entry of v or beta off by Delta, scaled to its actual noise
			add(perturbation{a, -1, j}, vnoise(a, j)/Delta)
			add(perturbation{a, -1, nf + j}, noise[a][j]/Delta)
		}
	}
	return out
}

func maxAbsCol(z [][]float64, lo, hi, j int) float64 {
	m := 0.0
	for i := lo; i < hi; i++ {
		m = math.Max(m, math.Abs(z[i][j]))
	}
	return m
}

func writeCSV(path string, x [][]float64, y []float64) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	w := csv.NewWriter(f)
	head := make([]string, len(x[0])+1)
	for j := range head {
		head[j] = "c" + strconv.Itoa(j)
	}
	w.Write(head)
	for i := range x {
		row := make([]string, 0, len(head))
		for _, v := range x[i] {
			row = append(row, strconv.FormatFloat(v, 'g', -1, 64))
		}
		row = append(row, strconv.FormatFloat(y[i], 'g', -1, 64))
		w.Write(row)
	}
	w.Flush()
}

// capture runs f in dir with standard output collected.
func capture(dir string, f func()) (out string, pan interface{}) {
	old, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	file, err := os.Create(filepath.Join(dir, "stdout"))
	if err != nil {
		panic(err)
	}
	so := os.Stdout
	os.Stdout = file
	func() {
		defer func() { pan = recover() }()
		f()
	}()
	os.Stdout = so
	file.Close()
	b, _ := os.ReadFile(filepath.Join(dir, "stdout"))
	return string(b), pan
}

var cplx = regexp.MustCompile(`\(([^()]*)i\)`)

func parseList(s string) (o []complex128) {
	for _, m := range cplx.FindAllString(s, -1) {
		v, err := strconv.ParseComplex(strings.Trim(m, "()"), 128)
		if err == nil {
			o = append(o, v)
		}
	}
	return
}

var (
	reBeta = regexp.MustCompile(`(?m)beta: *\[([^\]]*)\]`)
	reV    = regexp.MustCompile(`(?m)(?:^|[^a-z])v: *\[([^\]]*)\]`)
	reCor  = regexp.MustCompile(`Correct[?:] *(-?\d+)`)
	reList = regexp.MustCompile(`\[([^\]]*)\]`)
)

func gauss(r *hx.Rng) float64 {
	s := 0.0
	for i := 0; i < 6; i++ {
		s += r.F()
	}
	return s / 1.4
}

// Run is the property body: one run of a program on a generated data set.
func (p *Prog) Run(c *hx.Case, logNs []int) {
	cfg := Config{GammaMul: 1}
	cfg.LogN = rapid.SampledFrom(logNs).Draw(c.T, "logN")
	S := 1 << (cfg.LogN - 1)
	per := S / p.cols()
	comp := []int{1, 2, 3, 4, 1, 2, 3, 5}
	if cfg.LogN >= 14 {
		comp = []int{1, 2} // memory: every company holds rotation keys
	}
	cfg.NumCompany = rapid.SampledFrom(comp).Draw(c.T, "companies")
	train := 0
	if p.Mini {
		// a batch either fits into one ciphertext or fills several
		if rapid.Bool().Draw(c.T, "multi") {
			cfg.BatchSize = per * rapid.IntRange(1, 2).Draw(c.T, "cts")
		} else {
			cfg.BatchSize = rapid.IntRange(2, per).Draw(c.T, "batch")
		}
		cfg.NumBatch = rapid.IntRange(1, 4).Draw(c.T, "batches")
		cfg.NumTrain = cfg.BatchSize * cfg.NumBatch
		train = cfg.NumTrain
	} else {
		cfg.BatchSize = per
		if rapid.Bool().Draw(c.T, "partial") {
			cfg.BatchSize = rapid.IntRange(3, per).Draw(c.T, "batch")
		}
		train = cfg.BatchSize
		if !p.Toy && !missing("gamma") {
			// undo the repeated row summation, and vary the effective learning rate
			cfg.GammaMul = float64(per) / float64(p.rows()) * rapid.SampledFrom([]float64{16, 64, 256}).Draw(c.T, "rate")
		}
	}
	if !p.FixedIter {
		cfg.NumIter = p.ShipIter
		if p.Toy {
			// the shipped two iterations never reach the cubic term; three do
			cfg.NumIter = rapid.IntRange(2, 3).Draw(c.T, "iters")
		}
	}
	cfg.NumData = train + rapid.IntRange(4, 8).Draw(c.T, "extra")
	if p.Row >= 0 && cfg.NumData <= p.Row {
		cfg.NumData = p.Row + 1 + cfg.NumData%5
	}
	rng := hx.NewRng(rapid.Uint64().Draw(c.T, "data"))
	bias := rapid.SampledFrom([]float64{0, 0, 1, 3}).Draw(c.T, "correlation")
	ones := rapid.IntRange(0, 10).Draw(c.T, "labels")
	fraction := rapid.Bool().Draw(c.T, "fractional flags")
	nf := p.nf()
	d := &Data{}
	loc, sca := make([]float64, nf), make([]float64, nf)
	for j := range loc {
		loc[j], sca[j] = 0, 1
		if p.Toy {
			sca[j] = math.Exp2(8 * rng.F())
			loc[j] = 10 * sca[j] * rng.F()
		}
	}
	labels := []float64{0, 1}
	if p.Toy {
		labels = []float64{0, 1, 2, 3}
	}
	for i := 0; i < cfg.NumData; i++ {
		y := labels[1+rng.Intn(len(labels)-1)]
		if (ones == 0 && i%2 == 0) || (ones > 0 && rng.Intn(11) < ones) {
			y = 0
		}
		x := make([]float64, nf)
		for j := range x {
			s := 0.0
			if y == 0 {
				s = bias * float64(j%3-1)
			}
			if p.Toy && !p.normalised(j) {
				x[j] = float64(rng.Intn(2))
				if fraction {
					x[j] = rng.F()
				}
			} else {
				x[j] = loc[j] + sca[j]*(gauss(rng)+s)
			}
		}
		d.X, d.Y = append(d.X, x), append(d.Y, y)
	}
	p.prep(d, train)
	for j := 0; j < nf; j++ {
		if p.normalised(j) && !(d.Std[j] > 1e-3*sca[j]) {
			c.Skip("degenerate column")
		}
	}
	states := p.Train(d, cfg)
	for states[len(states)-1].MaxM > 6 && !p.Toy && !p.Mini {
		// a diverging training overflows the plaintext space
		if missing("gamma") {
			for i := range d.X {
				for j := range d.X[i] {
					d.X[i][j] /= 2
				}
			}
			p.prep(d, train)
		} else {
			cfg.GammaMul /= 2
		}
		states = p.Train(d, cfg)
	}
	if p.Toy && !p.Mini && len(states) > 2 {
		// The repeated row summation at small ring degrees multiplies the learning rate of
		// this program, so a third iteration diverges on most data. The part of the columns
		// that correlates with the labels is scaled down, which keeps the gradient small.
		base := d.X
		mix := 0
		for i := 0; i < train; i++ {
			if d.Y[i] == 0 {
				mix++
			}
		}
		if mix == 0 || mix == train {
			for i := 0; i < train; i++ {
				d.Y[i] = float64(i % 2)
			}
		}
		s, mean := make([]float64, train), 0.0
		for i := range s {
			s[i] = 1
			if d.Y[i] == 0 {
				s[i] = -1
			}
			mean += s[i] / float64(train)
		}
		for eps := 1.0; states[len(states)-1].MaxM > 6 && eps > 1e-6; eps /= 2 {
			d.X = append([][]float64(nil), base...)
			for i := 0; i < train; i++ {
				d.X[i] = append([]float64(nil), base[i]...)
			}
			for j := 0; j < nf; j++ {
				m := 0.0
				if p.normalised(j) {
					m = mean
				}
				sx, ss := 0.0, 0.0
				for i := range s {
					sx += (s[i] - m) * base[i][j]
					ss += (s[i] - m) * (s[i] - m)
				}
				for i := range s {
					d.X[i][j] -= (1 - eps) * sx / ss * (s[i] - m)
				}
			}
			p.prep(d, train)
			states = p.Train(d, cfg)
		}
		c.Class("%s third iteration max product below 2^%d", p.Name, int(math.Ceil(math.Log2(states[len(states)-1].MaxM))))
	}
	last := states[len(states)-1]
	last.enc = encNoise(cfg)
	// Classified rows outside the training set are made adversarial: almost orthogonal to
	// the expected weights, so that a small error in any weight flips the decision.
	lo, hi := train, cfg.NumData
	if p.Row >= 0 {
		lo, hi = p.Row, p.Row+1
	}
	for i := lo; i < hi; i++ {
		p.adversarial(rng, d, i, last)
	}
	p.prep(d, train)

	dir, err := os.MkdirTemp("", "lrx")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	writeCSV(filepath.Join(dir, p.File), d.X, d.Y)
	what := fmt.Sprintf("%s %+v corr=%v", p.Name, cfg, bias)
	p.Set(cfg)
	out, pan := capture(dir, p.Main)
	if pan != nil {
		c.Fatalf("%s: the program panicked: %v", what, pan)
	}
	if os.Getenv("VERIF_LR_PRINT") != "" {
		fmt.Println(what)
		fmt.Println(out)
	}
	rel := 0.0

	worst, worstAt := 0.0, ""
	cmp := func(name string, it int, got []complex128, want, bound []float64) {
		if len(got) == 0 {
			c.Fatalf("%s: no values printed for %s after iteration %d:\n%s", what, name, it, out)
		}
		for j := 0; j < len(got) && j < len(want); j++ {
			diff := math.Hypot(real(got[j])-want[j], imag(got[j]))
			if diff/bound[j] > worst {
				worst = diff / bound[j]
				worstAt = fmt.Sprintf("%s[%d]@%d diff %.3g bound %.3g got %.5g want %.5g", name, j, it, diff, bound[j], got[j], want[j])
			}
			if it == len(states)-1 {
				m := 0.0
				for _, x := range want {
					m = math.Max(m, math.Abs(x))
				}
				rel = math.Max(rel, bound[j]/m)
			}
			if !(diff <= bound[j]) {
				c.Fatalf("%s: %s[%d] after iteration %d: printed %v, plaintext training gives %v (|diff| %.3g, bound %.3g)", what, name, j, it, got[j], want[j], diff, bound[j])
			}
		}
	}
	if !(p.Toy && !p.Mini) { // lr_toy prints no weights
		bs, vs := reBeta.FindAllStringSubmatch(out, -1), reV.FindAllStringSubmatch(out, -1)
		if len(bs) != len(states) || len(vs) != len(states) {
			c.Fatalf("%s: %d beta and %d v lines printed, want %d:\n%s", what, len(bs), len(vs), len(states), out)
		}
		for it := range states {
			cmp("beta", it, parseList(bs[it][1]), states[it].Beta, states[it].BetaErr)
			cmp("v", it, parseList(vs[it][1]), states[it].V, states[it].VErr)
		}
	} else {
		k := strings.Index(out, "z:")
		if k < 0 {
			c.Fatalf("%s: packed data not printed:\n%s", what, out)
		}
		ls := reList.FindAllStringSubmatch(out[k:], 5)
		for b, at := range []int{0, 5, 10, 15, 200} {
			got := parseList(ls[b][1])
			for j := range got {
				want := 0.0
				r, col := (at+j)/p.cols(), (at+j)%p.cols()
				if r < cfg.BatchSize && col < nf {
					want = d.Z[r][col]
				}
				if !(math.Hypot(real(got[j])-want, imag(got[j])) <= 1e-4*(1+math.Abs(want))) {
					c.Fatalf("%s: packed slot %d is %v, preprocessed data is %v", what, at+j, got[j], want)
				}
			}
		}
	}

	if os.Getenv("VERIF_LR_PRINT") != "" {
		fmt.Printf("WORST %s error/bound %.4f  bound/weight %.3g %s\n", p.Name, worst, rel, worstAt)
	}
	// classification
	sure, unsure := 0, 0
	rows := []int{p.Row}
	if p.Row < 0 {
		rows = rows[:0]
		for i := 0; i < cfg.NumData; i++ {
			rows = append(rows, i)
		}
	}
	for _, i := range rows {
		ip, dev := 0.0, ipDev(d.Z[i], last)
		for j := 0; j < nf; j++ {
			ip += d.Z[i][j] * last.Beta[j]
		}
		pos := func(x float64) bool { return c3*x*x*x+c1*x >= 0 }
		near := func(x float64) bool { return math.Abs(ip-x) <= dev+1e-3*math.Abs(x) }
		if math.Abs(ip) > 50 || near(0) || near(10) || near(-10) {
			unsure++
			continue
		}
		if pos(ip) == (d.T[i] == 1) {
			sure++
		}
	}
	m := reCor.FindAllStringSubmatch(out, -1)
	if len(m) == 0 {
		c.Fatalf("%s: no classification result printed:\n%s", what, out)
	}
	n, _ := strconv.Atoi(m[len(m)-1][1])
	if n < sure || n > sure+unsure {
		c.Fatalf("%s: %d rows reported as correctly classified, the plaintext model gives %d (+ at most %d undecidable)", what, n, sure, unsure)
	}
	if unsure == len(rows) {
		if os.Getenv("VERIF_LR_PRINT") != "" {
			fmt.Printf("UNDECIDED enc part %.3g\n", last.enc*norm2(last.Beta))
		}
		c.Class("%s classification undecided", p.Name)
	} else {
		c.Class("%s classification decided", p.Name)
	}
	if cfg.NumCompany > 1 {
		c.Class("several companies")
	}
	for k := 1; k <= 10; k++ {
		if worst > float64(k)/10 {
			c.Class("weight error above %d%% of the bound", 10*k)
		}
	}
	c.Class("%s run", p.Name)
	c.Sig("%s data=%x", what, rng.U64())
	c.Nontrivial()
}

// ipDev bounds the error of the computed inner product of z with the trained weights.
func ipDev(z []float64, st State) (dev float64) {
	for j := range z {
		dev += math.Abs(z[j])*st.BetaErr[j] + Delta/4*math.Abs(z[j]*st.Beta[j])
	}
	// the encrypted row has an absolute error, multiplied by the weights
	dev += st.enc * norm2(st.Beta)
	// the sum of the sigmoid's terms inherits the mismatch of their scales (2^-15 of 0.5)
	return dev + 5e-4
}

func norm2(v []float64) (s float64) {
	for _, b := range v {
		s += b * b
	}
	return math.Sqrt(s)
}

// encNoise is six standard deviations of the error of one slot of a fresh encryption at
// the programs' scale of 2^38.
func encNoise(c Config) float64 {
	n := math.Exp2(float64(c.LogN))
	return 6 * 3.2 * math.Sqrt(4*n/3+1) * math.Sqrt(n) / math.Exp2(38)
}

// adversarial rewrites row i to have an inner product with the expected weights that is
// as small as the accuracy bounds allow, so that small errors of the weights flip the decision.
func (p *Prog) adversarial(rng *hx.Rng, d *Data, i int, st State) {
	nf := p.nf()
	w := st.Beta
	x := make([]float64, nf)
	ww, xw := 0.0, 0.0
	for j := range x {
		x[j] = gauss(rng)
		ww += w[j] * w[j]
		xw += x[j] * w[j]
	}
	if ww == 0 {
		return
	}
	for j := range x {
		x[j] -= w[j] * xw / ww
	}
	// a longer row makes the fixed part of the tolerance less important, but the inner
	// product has to stay well below ten, where the cubic changes sign again
	free := st
	free.enc = 0
	f := math.Min(16, 1.5/ipDev(x, free))
	for j := range x {
		x[j] *= f
	}
	target := 0.0
	if rng.U64()&1 == 0 {
		// close to ten, the other place where the decision changes: this is where the
		// length of the weight vector shows and not only its direction
		g := 0.25 * rng.F01()
		y := make([]float64, nf)
		for j := range x {
			y[j] = x[j]*g + 10/ww*w[j]
		}
		if ipDev(y, st) < 2 {
			x, target = y, 10
		}
	}
	ip := 2 * (ipDev(x, st) + 1e-3*target)
	if rng.U64()&1 == 0 {
		ip = -ip
	}
	for j := range x {
		x[j] += ip / ww * w[j]
	}
	if rng.U64()&1 == 0 {
		for j := range x {
			x[j] = -x[j]
		}
	}
	for j := range x {
		if p.normalised(j) {
			x[j] = x[j]*d.Std[j] + d.Mean[j]
		}
		d.X[i][j] = x[j]
	}
}

// Sums checks the summation helpers on random packed matrices.
func (p *Prog) Sums(c *hx.Case) {
	cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinQ: 2, MaxQ: 4, MinLogN: 5, MaxLogN: 7, Depth: true, FullSlots: true})
	w := hx.NewWorld(c, cfg, rapid.IntRange(1, 2).Draw(c.T, "parties"))
	w.GenRot()
	S := 1 << cfg.LogSlots
	lc := rapid.IntRange(0, cfg.LogSlots).Draw(c.T, "logCols")
	cols := 1 << lc
	rows := S / cols
	ct := w.DrawCT("m", 0, 1)
	hops := 0
	for k := 1; k < rows; k *= 2 {
		hops++
	}
	want := make([]complex128, S)
	for i := range want {
		for r := 0; r < rows; r++ {
			want[i] += ct.V[r*cols+i%cols]
		}
	}
	// each doubling doubles the error so far and adds one key switch
	e := ct.E
	for k := 0; k < hops; k++ {
		e = 2*e + w.RotErr(len(ct.IDs), ct.Lvl, 1, ct.C.Scale)
	}
	got := p.SumRow(w.Eval, w.RTK, ct.C, rows, cols)
	o := &hx.CT{C: got, V: want, E: e, IDs: ct.IDs, Lvl: ct.Lvl}
	what := fmt.Sprintf("%s: row sums of %dx%d %q@%d", p.Name, rows, cols, ct.IDs, ct.Lvl)
	if w.Fits(hx.MaxV(want)+e, ct.C.Scale, ct.Lvl) {
		w.Verify(what, o, true)
		c.Nontrivial()
	}
	w.Unchanged(what, ct)

	mask := make([]complex128, S)
	for i := range mask {
		if i%cols == 0 {
			mask[i] = 1
		}
	}
	msg := mkckks.NewMessage(w.P)
	copy(msg.Value, mask)
	pt := w.Enc.EncodeMsgNew(msg)
	want = make([]complex128, S)
	for i := range want {
		for k := 0; k < cols; k++ {
			want[i] += ct.V[i/cols*cols+k]
		}
	}
	e = ct.E
	for k := 0; k < lc; k++ {
		e = 2*e + w.RotErr(len(ct.IDs), ct.Lvl, 1, ct.C.Scale)
	}
	ws, wl := w.MulScale(ct.C.Scale, pt.Scale, ct.Lvl)
	ep := w.EncodeErr(1, w.P.Scale())
	mx := hx.MaxV(ct.V) * float64(cols)
	e = e*(1+ep) + mx*ep + w.RescaleErr(len(ct.IDs), ct.Lvl-wl, ws) + (mx+1)*math.Exp2(-42)
	mid := mx + e
	for k := 0; k < lc; k++ {
		// a negative power-of-two rotation is composed of up to logN-1 hops
		e = 2*e + w.RotErr(len(ct.IDs), wl, cfg.LogN, ws)
	}
	what = fmt.Sprintf("%s: column sums of %dx%d %q@%d", p.Name, rows, cols, ct.IDs, ct.Lvl)
	got = p.SumCol(w.Eval, w.RLK, w.RTK, ct.C, pt, rows, cols)
	o = &hx.CT{C: got, V: want, E: e, IDs: ct.IDs, Lvl: wl}
	if w.Fits(mid+e, ct.C.Scale*pt.Scale, ct.Lvl) && w.Fits(mx+e, ws, wl) {
		w.Verify(what, o, true)
		c.Nontrivial()
	}
	w.Unchanged(what, ct)
	c.Class("%s sums cols=%d", p.Name, cols)
	c.Sig("%s %v", what, cfg)
}

// ReadBack checks the data reader.
func (p *Prog) ReadBack(c *hx.Case) {
	n := rapid.IntRange(1, 40).Draw(c.T, "rows")
	nf := rapid.IntRange(1, 9).Draw(c.T, "features")
	val := rapid.Custom(func(t *rapid.T) float64 {
		switch rapid.IntRange(0, 3).Draw(t, "k") {
		case 0:
			return float64(rapid.IntRange(-5, 5).Draw(t, "i"))
		case 1:
			return rapid.Float64Range(-1e6, 1e6).Draw(t, "f")
		case 2:
			return rapid.Float64Range(-1e-6, 1e-6).Draw(t, "s")
		}
		return rapid.Float64Range(-3, 3).Draw(t, "n")
	})
	var sb strings.Builder
	x := make([][]float64, n)
	head := make([]string, nf+1)
	for j := range head {
		head[j] = rapid.SampledFrom([]string{"h", "12", "a b", "\"q,q\""}).Draw(c.T, "h")
	}
	sb.WriteString(strings.Join(head, ",") + "\n")
	for i := range x {
		x[i] = make([]float64, nf+1)
		for j := range x[i] {
			x[i][j] = val.Draw(c.T, "v")
			s := strconv.FormatFloat(x[i][j], rapid.SampledFrom([]byte{'g', 'e', 'f'}).Draw(c.T, "fmt"), -1, 64)
			if rapid.IntRange(0, 5).Draw(c.T, "quote") == 0 {
				s = "\"" + s + "\""
			}
			if j > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(s)
		}
		sb.WriteByte('\n')
	}
	dir, err := os.MkdirTemp("", "lrx")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "in.csv")
	os.WriteFile(path, []byte(sb.String()), 0o644)
	p.SetRead(n, nf)
	feat, lab := p.Read(path)
	if len(feat) != n || len(lab) != n {
		c.Fatalf("%s: read %d feature rows and %d labels from %d rows", p.Name, len(feat), len(lab), n)
	}
	for i := range x {
		if len(feat[i]) != nf {
			c.Fatalf("%s: row %d has %d features, want %d", p.Name, i, len(feat[i]), nf)
		}
		for j := 0; j < nf; j++ {
			if feat[i][j] != complex(x[i][j], 0) {
				c.Fatalf("%s: row %d column %d read as %v, file has %v", p.Name, i, j, feat[i][j], x[i][j])
			}
		}
		if lab[i] != complex(x[i][nf], 0) {
			c.Fatalf("%s: label of row %d read as %v, file has %v", p.Name, i, lab[i], x[i][nf])
		}
	}
	if n > 1 && nf > 1 {
		c.Nontrivial()
	}
	c.Class("%s read", p.Name)
	c.Sig("%s read %d x %d %s", p.Name, n, nf, sb.String())
}

// missing tells that the program under test has no such settable variable or callable
// helper (run.py leaves out the lines of prog_test.go that need it).
func missing(name string) bool {
	for _, x := range strings.Split(os.Getenv("VERIF_LR_WITHOUT"), ",") {
		if x == name {
			return true
		}
	}
	return false
}

// Suite runs the properties of one program. VERIF_LR_RUNS is the number of program
// runs, VERIF_LR_LOGN a ring degree to use instead of the small ones.
func (p *Prog) Suite(t *testing.T) {
	if missing("numIter") {
		p.FixedIter = true
	}
	logNs := []int{9, 9, 10}
	if v, err := strconv.Atoi(os.Getenv("VERIF_LR_LOGN")); err == nil && v > 0 {
		logNs = []int{v}
	}
	runs, err := strconv.Atoi(os.Getenv("VERIF_LR_RUNS"))
	if err != nil {
		runs = 2
	}
	if runs > 0 {
		t.Run("Run", func(t *testing.T) { hx.CheckN(t, runs, func(c *hx.Case) { p.Run(c, logNs) }) })
	}
	if !missing("SumRowVec") && !missing("SumColVec") {
		t.Run("Sums", func(t *testing.T) { hx.Check(t, 1, p.Sums) })
	}
	if !missing("readData") {
		t.Run("Read", func(t *testing.T) { hx.Check(t, 3, p.ReadBack) })
	}
}
