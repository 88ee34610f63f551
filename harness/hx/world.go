package hx

import (
	"fmt"
	"math"
	"math/big"
	"math/cmplx"
	"sort"
	"strings"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// Cfg describes a generated parameter set.
type Cfg struct {
	LogN, LogSlots int
	LogQ, LogP     []int
	LogScale       float64
	Sigma          float64
}

func (c Cfg) String() string {
	return fmt.Sprintf("logN=%d slots=2^%d Q=%v P=%v scale=2^%.2f sigma=%.1f", c.LogN, c.LogSlots, c.LogQ, c.LogP, c.LogScale, c.Sigma)
}

// CfgOpt bounds the parameter-set generator.
type CfgOpt struct {
	MinQ, MaxQ int  // number of Q moduli
	MaxLogN    int  // default 8
	MinLogN    int  // default 4
	FullSlots  bool // logSlots = logN-1
	Depth      bool // moduli close to the scale (multiplicative chains)
	P          []int
	LargeLogN  int // largest ring degree of the large runs, default 13
}

// Large selects realistic ring degrees (2^10 and up) instead of small ones: 1 up to 2^13,
// 2 up to 2^15.
var Large = envInt("VERIF_LARGE", 0)

// DrawCfg draws a parameter set. Preconditions built in (each is what every caller
// in the repository respects): at least two special primes, special primes at least
// as large as the rescaling primes, first modulus at least 8 bits above the scale.
func DrawCfg(t *rapid.T, o CfgOpt) Cfg {
	if o.MaxLogN == 0 {
		o.MaxLogN = 8
	}
	if o.MinLogN == 0 {
		o.MinLogN = 4
	}
	if o.MinQ == 0 {
		o.MinQ = 1
	}
	if o.MaxQ == 0 {
		o.MaxQ = 6
	}
	var c Cfg
	// small rings dominate: structure does not depend on the degree
	c.LogN = o.MinLogN + rapid.IntRange(0, (o.MaxLogN-o.MinLogN)*2).Draw(t, "logN")/2
	if c.LogN > 6 && !rapid.Bool().Draw(t, "bigN") {
		c.LogN = 4 + c.LogN%3
		if c.LogN < o.MinLogN {
			c.LogN = o.MinLogN
		}
	}
	c.LogSlots = c.LogN - 1
	if !o.FullSlots && rapid.IntRange(0, 2).Draw(t, "sparse?") == 0 {
		c.LogSlots = rapid.IntRange(0, c.LogN-1).Draw(t, "logSlots")
	}
	if Large > 0 {
		hi := 11 + 2*Large
		if o.LargeLogN != 0 && hi > o.LargeLogN {
			hi = o.LargeLogN
		}
		full := c.LogSlots == c.LogN-1
		c.LogN = rapid.IntRange(10, hi).Draw(t, "largeLogN")
		c.LogSlots = c.LogN - 1
		if !full {
			c.LogSlots = rapid.IntRange(0, c.LogN-1).Draw(t, "largeLogSlots")
		}
	}
	nq := rapid.IntRange(o.MinQ, o.MaxQ).Draw(t, "nQ")
	// long chains, as in the shipped parameters (16 moduli), on small rings
	if o.MaxQ >= 6 && rapid.IntRange(0, 11).Draw(t, "deep") == 11 {
		nq = rapid.IntRange(8, 16).Draw(t, "nQdeep")
		if Large > 0 {
			c.LogN, c.LogSlots = 10, 9
		} else if c.LogN > 5 && o.MinLogN <= 5 {
			c.LogN = 5
			if c.LogSlots > 4 {
				c.LogSlots = 4
			}
		}
	}
	sb := rapid.IntRange(30, 45).Draw(t, "scaleBits")
	c.LogQ = make([]int, nq)
	c.LogQ[0] = rapid.IntRange(sb+8, 59).Draw(t, "logq0")
	maxq := 0
	// moduli as wide as the library takes: sums of products come closest to 64 bits
	wide := !o.Depth && rapid.IntRange(0, 9).Draw(t, "wideQ") == 6
	if wide {
		c.LogQ[0] = rapid.IntRange(58, 60).Draw(t, "logq0w")
	}
	for i := 1; i < nq; i++ {
		lo, hi := 28, 55
		if o.Depth {
			lo, hi = sb-1, sb+1
		}
		if wide {
			lo, hi = 57, 60
		}
		c.LogQ[i] = rapid.IntRange(lo, hi).Draw(t, "logq")
		if c.LogQ[i] > maxq {
			maxq = c.LogQ[i]
		}
	}
	// first modulus may exceed the special primes (as in the shipped parameters), but by little
	if maxq < c.LogQ[0]-5 {
		maxq = c.LogQ[0] - 5
	}
	pc := o.P
	if pc == nil {
		pc = []int{2, 2, 2, 3, 4, 4, 5, 6}
	}
	np := rapid.SampledFrom(pc).Draw(t, "nP")
	c.LogP = make([]int, np)
	for i := range c.LogP {
		c.LogP[i] = rapid.IntRange(maxq, 60).Draw(t, "logp")
	}
	c.LogScale = float64(sb)
	if rapid.IntRange(0, 3).Draw(t, "oddScale?") == 0 {
		c.LogScale = float64(sb) - rapid.Float64Range(0, 0.9).Draw(t, "scaleFrac")
	}
	c.Sigma = rapid.SampledFrom([]float64{3.2, 3.2, 3.2, 2, 5}).Draw(t, "sigma")
	return c
}

var paramCache = map[string]ckks.Parameters{}

// CKKS returns the (cached, immutable) lattigo parameters of the configuration.
func (c Cfg) CKKS() ckks.Parameters {
	key := c.String()
	if p, ok := paramCache[key]; ok {
		return p
	}
	p, err := ckks.NewParametersFromLiteral(ckks.ParametersLiteral{
		LogN: c.LogN, LogSlots: c.LogSlots, LogQ: c.LogQ, LogP: c.LogP,
		Scale: math.Exp2(c.LogScale), Sigma: c.Sigma,
	})
	if err != nil {
		panic(fmt.Sprintf("hx: invalid generated parameters %v: %v", c, err))
	}
	if len(paramCache) > 4000 {
		paramCache = map[string]ckks.Parameters{}
	}
	paramCache[key] = p
	return p
}

// RLWE returns the underlying rlwe parameters.
func (c Cfg) RLWE() rlwe.Parameters { return c.CKKS().Parameters }

// Party is one data owner.
type Party struct {
	ID string
	SK *mkrlwe.SecretKey
	PK *mkrlwe.PublicKey
	S  []int64
}

// World is a set of parties sharing public parameters.
type World struct {
	C    *Case
	Cfg  Cfg
	P    mkckks.Parameters
	KG   *mkrlwe.KeyGenerator
	Enc  *mkckks.Encryptor
	Dec  *mkckks.Decryptor
	Eval *mkckks.Evaluator

	Parties []*Party
	SKs     *mkrlwe.SecretKeySet
	RLK     *mkrlwe.RelinearizationKeySet
	RTK     *mkrlwe.RotationKeySet
	CJK     *mkrlwe.ConjugationKeySet
	sks     map[string][]int64
	dirt    *dirt
	ks      *mkrlwe.KeySwitcher
}

var idAlphabet = []string{"a", "b", "user0", "user1", "company0", "company10", "00", "1", "-1", " ", "", "α", "a ", "A", "0 ", "0a", "USER0", "a\x00", "\x00", "ab", "long-identifier-with-many-characters-0123456789",
	"long-identifier-with-many-characters-0123456788", "Long-identifier-with-many-characters-0123456789", "ba", "ad", "bc", "Aa", "BB", "aaaaaaaaaaaaaaaa",
	"aaaaaaaaaaaaaaab", "1.0", "01", "+1", "0x0", "-2", "user00", "user", "a,b", "a|b", "nil", "%d", "é", "e\u0301", "\xff"}

// DrawIDs draws k distinct party identifiers (never the reserved "0").
func DrawIDs(t *rapid.T, k int) []string {
	perm := rapid.Permutation(idAlphabet).Draw(t, "ids")
	return append([]string{}, perm[:k]...)
}

// NewWorld builds a world with k parties (secret/public keys only).
func NewWorld(c *Case, cfg Cfg, k int) *World {
	w := &World{C: c, Cfg: cfg}
	w.P = mkckks.NewParameters(cfg.CKKS())
	w.KG = mkckks.NewKeyGenerator(w.P)
	w.SKs = mkrlwe.NewSecretKeySet()
	w.RLK = mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters)
	w.RTK = mkrlwe.NewRotationKeySet()
	w.CJK = mkrlwe.NewConjugationKeySet()
	w.sks = map[string][]int64{}
	w.Enc = mkckks.NewEncryptor(w.P)
	w.Dec = mkckks.NewDecryptor(w.P)
	w.Eval = mkckks.NewEvaluator(w.P)
	for _, id := range DrawIDs(c.T, k) {
		w.Join(id)
	}
	return w
}

// Join adds a party.
func (w *World) Join(id string) *Party {
	sk, pk := w.KG.GenKeyPair(id)
	p := &Party{ID: id, SK: sk, PK: pk, S: SKCoeffs(w.P.Parameters, sk)}
	w.Parties = append(w.Parties, p)
	w.SKs.AddSecretKey(sk)
	w.sks[id] = p.S
	return p
}

// Secrets returns the integer secrets by id.
func (w *World) Secrets() map[string][]int64 { return w.sks }

// GenRLK generates relinearisation keys for all parties lacking one.
func (w *World) GenRLK() {
	for _, p := range w.Parties {
		if _, ok := w.RLK.Value[p.ID]; !ok {
			w.RLK.AddRelinearizationKey(w.KG.GenRelinearizationKey(p.SK, w.KG.GenSecretKey(p.ID)))
		}
	}
}

// GenRot generates the power-of-two rotation keys plus the given extra indices.
func (w *World) GenRot(extra ...int) {
	for _, p := range w.Parties {
		w.KG.GenDefaultRotationKeys(p.SK, w.RTK)
		for _, e := range extra {
			w.RTK.AddRotationKey(w.KG.GenRotationKey(e, p.SK))
		}
	}
}

// GenConj generates conjugation keys.
func (w *World) GenConj() {
	for _, p := range w.Parties {
		w.CJK.AddConjugationKey(w.KG.GenConjugationKey(p.SK))
	}
}

// IDs returns the sorted ids of an IDSet.
func IDs(s *mkrlwe.IDSet) []string {
	var o []string
	for id := range s.Value {
		o = append(o, id)
	}
	sort.Strings(o)
	return o
}

// SetOf builds an IDSet.
func SetOf(ids ...string) *mkrlwe.IDSet {
	s := mkrlwe.NewIDSet()
	for _, id := range ids {
		s.Add(id)
	}
	return s
}

// Union of sorted id lists.
func Union(a, b []string) []string {
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	for _, x := range b {
		m[x] = true
	}
	var o []string
	for x := range m {
		o = append(o, x)
	}
	sort.Strings(o)
	return o
}

func SameIDs(a, b []string) bool {
	return len(a) == len(b) && strings.Join(a, "\x00") == strings.Join(b, "\x00")
}

// CT couples a ciphertext with its plaintext model.
type CT struct {
	C    *mkckks.Ciphertext
	V    []complex128 // expected slots
	E    float64      // rigorous bound on the slot error
	IDs  []string     // expected member set
	Lvl  int          // expected level
	Hash uint64       // digest when last known good
}

func MaxV(v []complex128) float64 {
	m := 0.0
	for _, x := range v {
		if a := cmplx.Abs(x); a > m {
			m = a
		}
	}
	return m
}

// QBits returns log2 of the modulus at level.
func (w *World) QBits(level int) float64 {
	b := 0.0
	for i := 0; i <= level; i++ {
		b += math.Log2(float64(w.P.RingQ().Modulus[i]))
	}
	return b
}

// Fits reports whether values of magnitude m at the scale fit below the modulus at level with margin.
func (w *World) Fits(m, scale float64, level int) bool {
	return math.Log2(m+1e-9)+math.Log2(scale)+1.5 < w.QBits(level)
}

// MaxMag is the largest message magnitude (log2) representable at level/scale.
func (w *World) MaxMag(scale float64, level int) float64 {
	return w.QBits(level) - math.Log2(scale) - 3
}

// DrawVec draws a slot vector of magnitude at most 2^mag.
func (w *World) DrawVec(label string, mag float64) []complex128 {
	n := w.P.Slots()
	v := make([]complex128, n)
	rng := NewRng(rapid.Uint64().Draw(w.C.T, label+".data"))
	m := math.Exp2(mag)
	switch rapid.IntRange(0, 6).Draw(w.C.T, label+".shape") {
	case 0: // zero
	case 1: // one hot
		v[rng.Intn(n)] = complex(m*rng.F(), m*rng.F())
	case 2: // constant
		x := complex(m*rng.F()/1.5, m*rng.F()/1.5)
		for i := range v {
			v[i] = x
		}
	case 3: // reals
		for i := range v {
			v[i] = complex(m*rng.F(), 0)
		}
	case 4: // imaginary ramp
		for i := range v {
			v[i] = complex(0, m*float64(i+1)/float64(n))
		}
	default:
		for i := range v {
			v[i] = complex(m*rng.F()/1.5, m*rng.F()/1.5)
		}
	}
	return v
}

// B is the truncation bound of the error distribution.
func (w *World) B() float64 { return float64(int(6 * w.Cfg.Sigma)) }

func (w *World) N() float64 { return float64(int(1) << w.Cfg.LogN) }

// EncodeErr bounds the slot error of encoding (rounding + float).
func (w *World) EncodeErr(m, scale float64) float64 { return w.N()*1/scale + m*math.Exp2(-42) }

// FreshErr bounds the slot error of a fresh encryption.
func (w *World) FreshErr(m, scale float64) float64 {
	return w.EncodeErr(m, scale) + w.N()*w.B()*(2*w.N()+1)/scale
}

// digit data -----------------------------------------------------------------

func (w *World) alpha() int { return w.P.PCount() / 2 }

func (w *World) beta(level int) float64 {
	return math.Ceil(float64(level+1) / float64(w.alpha()))
}

// logD is log2 of the largest digit modulus.
func (w *World) logD() float64 {
	best := 0.0
	for i := 0; i < w.P.QCount(); i += w.alpha() {
		s := 0.0
		for j := i; j < i+w.alpha() && j < w.P.QCount(); j++ {
			s += math.Log2(float64(w.P.RingQ().Modulus[j]))
		}
		best = math.Max(best, s)
	}
	return best + 1 // lazily reduced digits
}

func (w *World) logP() float64 {
	s := 0.0
	for _, p := range w.P.RingP().Modulus {
		s += math.Log2(float64(p))
	}
	return s
}

// SwitchNoise bounds the coefficient noise of one key switch (one party).
func (w *World) SwitchNoise(level int) float64 {
	N := w.N()
	return w.beta(level)*N*w.B()*math.Exp2(w.logD()-w.logP()) + 3 + 3*N
}

// RotErr bounds the slot error added by hops key switches for k parties.
func (w *World) RotErr(k, level, hops int, scale float64) float64 {
	return float64(hops) * float64(k) * w.N() * w.SwitchNoise(level) / scale
}

// MulNoise bounds the coefficient noise added by multiplication+relinearisation before rescaling.
func (w *World) MulNoise(k0, k1, level int) float64 {
	N := w.N()
	inner := w.beta(level)*N*N*w.B()*math.Exp2(2*w.logD()-w.logP()) + 3
	return float64(k0*k1)*2*N*inner + float64(k0)*(w.SwitchNoise(level)+3*N) + 3*N*float64(k0+k1)
}

// RescaleModel returns the number of moduli removed and the resulting scale.
func (w *World) RescaleModel(level int, scale, minScale float64) (nb int, out float64) {
	out = scale
	for level-nb > 0 && out/float64(w.P.RingQ().Modulus[level-nb]) >= minScale/2 {
		out /= float64(w.P.RingQ().Modulus[level-nb])
		nb++
	}
	return
}

// RescaleErr bounds the slot error of nb rescales for k parties ending at scale.
func (w *World) RescaleErr(k, nb int, scale float64) float64 {
	return float64(nb) * w.N() * (1 + float64(k)*w.N()) / scale
}

// Encrypt encrypts v for party p at the given level (fresh ciphertext), returning the model.
func (w *World) Encrypt(v []complex128, p *Party, level int) *CT {
	msg := mkckks.NewMessage(w.P)
	copy(msg.Value, v)
	ct := mkckks.NewCiphertext(w.P, SetOf(p.ID), level, w.P.Scale())
	w.Enc.EncryptMsg(msg, p.PK, ct)
	o := &CT{C: ct, V: append([]complex128{}, v...), E: w.FreshErr(MaxV(v), w.P.Scale()), IDs: []string{p.ID}, Lvl: level}
	o.Hash = HashCKKS(ct)
	return o
}

// EncryptJoint produces a ciphertext involving exactly the given parties, whose
// expected value is v (v split additively over the parties), at level.
func (w *World) EncryptJoint(v []complex128, ps []*Party, level int) *CT {
	var acc *CT
	for i, p := range ps {
		part := make([]complex128, len(v))
		if i == 0 {
			copy(part, v)
		} else {
			for j := range part {
				part[j] = complex(float64((i*7+j)%5)*0.125, -0.25*float64(j%3))
			}
		}
		ct := w.Encrypt(part, p, level)
		if acc == nil {
			acc = ct
		} else {
			acc = w.AddModel(acc, ct, w.rawAdd(acc.C, ct.C), 1)
		}
	}
	acc.Hash = HashCKKS(acc.C)
	return acc
}

// rawAdd adds two fresh equal-scale ciphertexts without using the code under test,
// so that a set-up step never masks or causes a failure of an operation under test.
func (w *World) rawAdd(a, b *mkckks.Ciphertext) *mkckks.Ciphertext {
	o := a.CopyNew()
	lvl := a.Level()
	for id, p := range b.Value {
		if q, ok := o.Value[id]; ok {
			w.P.RingQ().AddLvl(lvl, q, p, q)
		} else {
			o.Value[id] = p.CopyNew()
		}
	}
	return o
}

// AddModel computes the model of a + sign*b for a result ciphertext out.
func (w *World) AddModel(a, b *CT, out *mkckks.Ciphertext, sign float64) *CT {
	v := make([]complex128, len(a.V))
	for j := range v {
		v[j] = a.V[j] + complex(sign, 0)*b.V[j]
	}
	lvl := a.Lvl
	if b.Lvl < lvl {
		lvl = b.Lvl
	}
	s0, s1 := a.C.Scale, b.C.Scale
	// relative mismatch left after multiplying the smaller scale by the integer part of the ratio
	mis := func(s, l float64) float64 {
		r := l / s
		k := math.Floor(r)
		return math.Abs(1 - k/r)
	}
	e := a.E + b.E
	if s0 > s1 {
		e += (MaxV(b.V) + b.E) * mis(s1, s0)
	} else if s1 > s0 {
		e += (MaxV(a.V) + a.E) * mis(s0, s1)
	}
	e += (MaxV(a.V) + MaxV(b.V)) * math.Exp2(-44)
	return &CT{C: out, V: v, E: e, IDs: Union(a.IDs, b.IDs), Lvl: lvl}
}

// Compat reports whether two scales can be added exactly enough: (nearly) equal or
// the larger a (nearly) exact integer multiple of the smaller, from above.
func Compat(s0, s1 float64) bool {
	if s0 < s1 {
		s0, s1 = s1, s0
	}
	r := s0 / s1
	k := math.Floor(r)
	return 1-k/r < 1e-3
}

// MulModel is the model of the product of a and b after relinearisation and rescaling.
func (w *World) MulModel(a, b *CT, out *mkckks.Ciphertext) *CT {
	v := make([]complex128, len(a.V))
	for j := range v {
		v[j] = a.V[j] * b.V[j]
	}
	lvl := a.Lvl
	if b.Lvl < lvl {
		lvl = b.Lvl
	}
	ma, mb := MaxV(a.V), MaxV(b.V)
	s := a.C.Scale * b.C.Scale
	ids := Union(a.IDs, b.IDs)
	e := ma*b.E + mb*a.E + a.E*b.E + w.N()*w.MulNoise(len(a.IDs), len(b.IDs), lvl)/s + ma*mb*math.Exp2(-42)
	nb, so := 0, s
	if lvl > 0 {
		nb, so = w.RescaleModel(lvl, s, w.P.Scale())
		e += w.RescaleErr(len(ids), nb, so)
	}
	return &CT{C: out, V: v, E: e, IDs: ids, Lvl: lvl - nb}
}

// MulScale is the scale expected after multiplication of scales s0, s1 at level lvl.
func (w *World) MulScale(s0, s1 float64, lvl int) (float64, int) {
	if lvl == 0 {
		return s0 * s1, 0
	}
	nb, so := w.RescaleModel(lvl, s0*s1, w.P.Scale())
	return so, lvl - nb
}

// RotV rotates a slot vector left by k.
func RotV(v []complex128, k int) []complex128 {
	n := len(v)
	o := make([]complex128, n)
	for j := range o {
		o[j] = v[((j+k)%n+n)%n]
	}
	return o
}

// ConjV conjugates.
func ConjV(v []complex128) []complex128 {
	o := make([]complex128, len(v))
	for j := range o {
		o[j] = cmplx.Conj(v[j])
	}
	return o
}

// Tol is the acceptance tolerance for a model ciphertext.
func (ct *CT) Tol() float64 { return ct.E*1.01 + MaxV(ct.V)*math.Exp2(-38) + math.Exp2(-48) }

// Compare checks got against the model and fails the case otherwise.
func (w *World) Compare(what string, ct *CT, got []complex128) {
	if len(got) != len(ct.V) {
		w.C.Fatalf("%s: decrypted message has %d slots, want %d (%v)", what, len(got), len(ct.V), w.Cfg)
	}
	tol := ct.Tol()
	for j := range got {
		if d := cmplx.Abs(got[j] - ct.V[j]); !(d <= tol) {
			w.C.Fatalf("%s: slot %d: got %v want %v (|diff|=%.3g, bound %.3g, level %d, ids %q, %v)", what, j, got[j], ct.V[j], d, tol, ct.Lvl, ct.IDs, w.Cfg)
		}
	}
}

// RefDecrypt decrypts with the harness's own phase computation and decoding.
func (w *World) RefDecrypt(ct *mkckks.Ciphertext) []complex128 {
	return DecodeRef(w.Cfg.LogN, Phase(w.P.Parameters, ct.Ciphertext, w.sks), ct.Scale, w.P.Slots())
}

// CheckShape verifies member set and level of the result.
func (w *World) CheckShape(what string, ct *CT) {
	if got := IDs(ct.C.IDSet()); !SameIDs(got, ct.IDs) {
		w.C.Fatalf("%s: member set %q, want %q (%v)", what, got, ct.IDs, w.Cfg)
	}
	if ct.C.Level() != ct.Lvl {
		w.C.Fatalf("%s: level %d, want %d (%v)", what, ct.C.Level(), ct.Lvl, w.Cfg)
	}
	for id, p := range ct.C.Value {
		if len(p.Coeffs) != ct.Lvl+1 {
			w.C.Fatalf("%s: component %q carries %d moduli, level is %d (%v)", what, id, len(p.Coeffs), ct.Lvl, w.Cfg)
		}
	}
}

// Verify checks shape and value: value through the independent reference decryption
// and, when lib is set, also through the library's decryptor.
func (w *World) Verify(what string, ct *CT, lib bool) {
	w.CheckShape(what, ct)
	w.Compare(what+" [reference decryption]", ct, w.RefDecrypt(ct.C))
	if lib {
		w.Compare(what+" [library decryption]", ct, w.Dec.Decrypt(ct.C, w.SKs).Value)
	}
}

// Unchanged checks that a ciphertext has not been modified since its digest was taken.
func (w *World) Unchanged(what string, cts ...*CT) {
	for _, ct := range cts {
		if HashCKKS(ct.C) != ct.Hash {
			w.C.Fatalf("%s: an input ciphertext was modified (ids %q level %d, %v)", what, ct.IDs, ct.Lvl, w.Cfg)
		}
	}
}

// Snap records the digest.
func (ct *CT) Snap() *CT { ct.Hash = HashCKKS(ct.C); return ct }

// DrawParties draws a non-empty subset of the parties (order preserved).
func (w *World) DrawParties(label string) []*Party {
	mask := rapid.IntRange(1, (1<<len(w.Parties))-1).Draw(w.C.T, label)
	var o []*Party
	for i, p := range w.Parties {
		if mask>>i&1 == 1 {
			o = append(o, p)
		}
	}
	return o
}

// DropTo lowers a model ciphertext to level (harness-side, on a private copy).
func (w *World) DropTo(ct *CT, level int) *CT {
	o := &CT{C: ct.C.CopyNew(), V: ct.V, E: ct.E, IDs: ct.IDs, Lvl: level}
	for id := range o.C.Value {
		o.C.Value[id].Coeffs = o.C.Value[id].Coeffs[:level+1]
	}
	return o.Snap()
}

// DrawCT draws a joint ciphertext over a drawn subset at a drawn level with magnitude 2^mag.
func (w *World) DrawCT(label string, mag float64, minLevel int) *CT {
	ps := w.DrawParties(label + ".parties")
	lvl := rapid.IntRange(minLevel, w.P.MaxLevel()).Draw(w.C.T, label+".level")
	v := w.DrawVec(label, mag)
	start := lvl
	if rapid.Bool().Draw(w.C.T, label+".viaDrop") {
		start = w.P.MaxLevel()
	}
	ct := w.EncryptJoint(v, ps, start)
	if start != lvl {
		ct = w.DropTo(ct, lvl)
	}
	return ct
}

// HashKeys digests every key and the common reference string of the world.
func (w *World) HashKeys() uint64 {
	var s uint64
	for _, p := range w.Parties {
		h := hashStr(11, p.ID)
		h = HashPoly(h, p.SK.Value.Q)
		h = HashPoly(h, p.SK.Value.P)
		for i := 0; i < 2; i++ {
			h = HashPoly(h, p.PK.Value[i].Q)
			h = HashPoly(h, p.PK.Value[i].P)
		}
		s += h
	}
	for id, k := range w.RLK.Value {
		h := hashStr(12, id)
		for i := 0; i < 3; i++ {
			h = HashSwk(h, k.Value[i])
		}
		s += h
	}
	for id, m := range w.RTK.Value {
		for i, k := range m {
			s += HashSwk(hashStr(13+uint64(i)*977, id), k.Value)
		}
	}
	for id, k := range w.CJK.Value {
		s += HashSwk(hashStr(14, id), k.Value)
	}
	for i, k := range w.P.CRS {
		s += HashSwk(uint64(i)*7919+5, k)
	}
	return s
}

// BigPow2 is 2^n.
func BigPow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
