package hx

import (
	"math"
	"math/big"
	"math/bits"
	"math/cmplx"
	"sync"

	"github.com/ldsec/lattigo/v2/ring"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
)

// QAt returns the product of the first level+1 moduli of r.
func QAt(r *ring.Ring, level int) *big.Int {
	q := big.NewInt(1)
	for i := 0; i <= level; i++ {
		q.Mul(q, new(big.Int).SetUint64(r.Modulus[i]))
	}
	return q
}

// CRTBig reconstructs the integer in [0,Q) of residue rows (coefficient domain,
// residues may be unreduced).
func CRTBig(moduli []uint64, rows [][]uint64) []*big.Int {
	n := len(rows[0])
	out := make([]*big.Int, n)
	Q := big.NewInt(1)
	for _, q := range moduli {
		Q.Mul(Q, new(big.Int).SetUint64(q))
	}
	for j := range out {
		out[j] = new(big.Int)
	}
	tmp := new(big.Int)
	for i, q := range moduli {
		qi := new(big.Int).SetUint64(q)
		Qi := new(big.Int).Div(Q, qi)
		inv := new(big.Int).ModInverse(new(big.Int).Mod(Qi, qi), qi)
		f := new(big.Int).Mul(Qi, inv)
		f.Mod(f, Q)
		for j := 0; j < n; j++ {
			tmp.SetUint64(rows[i][j] % q)
			tmp.Mul(tmp, f)
			out[j].Add(out[j], tmp)
		}
	}
	for j := range out {
		out[j].Mod(out[j], Q)
	}
	return out
}

// Center maps values mod Q to (-Q/2, Q/2].
func Center(v []*big.Int, Q *big.Int) []*big.Int {
	h := new(big.Int).Rsh(Q, 1)
	for _, x := range v {
		x.Mod(x, Q)
		if x.Cmp(h) > 0 {
			x.Sub(x, Q)
		}
	}
	return v
}

// SKCoeffs returns the secret's coefficients as centered integers recovered from
// the Q part (row 0 suffices for small secrets, but all rows are cross-checked by C13).
func SKCoeffs(p mkrlwe.Parameters, sk *mkrlwe.SecretKey) []int64 {
	r := p.RingQ()
	tmp := r.NewPoly()
	lvl := p.QCount() - 1
	r.InvMFormLvl(lvl, sk.Value.Q, tmp)
	r.InvNTTLvl(lvl, tmp, tmp)
	q := r.Modulus[0]
	out := make([]int64, r.N)
	for j := range out {
		x := tmp.Coeffs[0][j] % q
		if x > q/2 {
			out[j] = -int64(q - x)
		} else {
			out[j] = int64(x)
		}
	}
	return out
}

// SmallToNTT lifts a small integer polynomial to level and the NTT domain (standard form).
func SmallToNTT(r *ring.Ring, level int, c []int64) *ring.Poly {
	p := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		for j, x := range c {
			if x < 0 {
				p.Coeffs[i][j] = (q - uint64(-x)%q) % q
			} else {
				p.Coeffs[i][j] = uint64(x) % q
			}
		}
	}
	r.NTTLvl(level, p, p)
	return p
}

// mulPoly returns a*b (both coefficient domain unless flagged) at level, coefficient domain, reduced.
func mulNTT(r *ring.Ring, level int, aNTT, bNTT *ring.Poly) *ring.Poly {
	o := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		q := r.Modulus[i]
		br := r.BredParams[i]
		for j := 0; j < r.N; j++ {
			o.Coeffs[i][j] = ring.BRed(ring.BRedAdd(aNTT.Coeffs[i][j], q, br), ring.BRedAdd(bNTT.Coeffs[i][j], q, br), q, br)
		}
	}
	return o
}

// Phase computes ct_0 + sum ct_i*s_i mod Q_level as centered integers, independently
// of the library's decryptor. Components flagged as NTT are handled.
func Phase(p mkrlwe.Parameters, ct *mkrlwe.Ciphertext, sks map[string][]int64) []*big.Int {
	r := p.RingQ()
	level := ct.Level()
	acc := ring.NewPoly(r.N, level+1)
	toNTT := func(x *ring.Poly) *ring.Poly {
		c := ring.NewPoly(r.N, level+1)
		for i := 0; i <= level; i++ {
			for j := 0; j < r.N; j++ {
				c.Coeffs[i][j] = ring.BRedAdd(x.Coeffs[i][j], r.Modulus[i], r.BredParams[i])
			}
		}
		if !x.IsNTT {
			r.NTTLvl(level, c, c)
		}
		return c
	}
	for id, comp := range ct.Value {
		cn := toNTT(comp)
		if id != "0" {
			s, ok := sks[id]
			if !ok {
				panic("hx.Phase: no secret for " + id)
			}
			cn = mulNTT(r, level, cn, SmallToNTT(r, level, s))
		}
		r.AddLvl(level, acc, cn, acc)
	}
	r.InvNTTLvl(level, acc, acc)
	return Center(CRTBig(r.Modulus[:level+1], acc.Coeffs), QAt(r, level))
}

// PolyBig returns centered integer coefficients of a Q-polynomial at level (NTT handled).
func PolyBig(r *ring.Ring, level int, x *ring.Poly, isNTT bool) []*big.Int {
	c := ring.NewPoly(r.N, level+1)
	for i := 0; i <= level; i++ {
		for j := 0; j < r.N; j++ {
			c.Coeffs[i][j] = ring.BRedAdd(x.Coeffs[i][j], r.Modulus[i], r.BredParams[i])
		}
	}
	if isNTT {
		r.InvNTTLvl(level, c, c)
	}
	return Center(CRTBig(r.Modulus[:level+1], c.Coeffs), QAt(r, level))
}

// MaxAbs returns max |v_j| as float64.
func MaxAbs(v []*big.Int) float64 {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m = x
		}
	}
	f, _ := new(big.Float).SetInt(m).Float64()
	return math.Abs(f)
}

// SubMod returns a-b mod Q centered.
func SubMod(a, b []*big.Int, Q *big.Int) []*big.Int {
	o := make([]*big.Int, len(a))
	for j := range a {
		o[j] = new(big.Int).Sub(a[j], b[j])
	}
	return Center(o, Q)
}

// roots caches e^(i*pi*k/m), k < 2m, computed directly (not by recurrence).
var (
	roots   = map[int][]complex128{}
	rootsMu sync.Mutex
)

func rootsOf(m int) []complex128 {
	rootsMu.Lock()
	defer rootsMu.Unlock()
	w, ok := roots[m]
	if !ok {
		w = make([]complex128, 2*m)
		for k := range w {
			s, c := math.Sincos(math.Pi * float64(k) / float64(m))
			w[k] = complex(c, s)
		}
		roots[m] = w
	}
	return w
}

// dft returns sum_k a[k]*e^(2*pi*i*dir*k*t/m) for t < m, m = len(a) a power of two.
func dft(a []complex128, dir int) []complex128 {
	m := len(a)
	w := rootsOf(m)
	out := make([]complex128, m)
	shift := 64
	for x := m; x > 1; x >>= 1 {
		shift--
	}
	for k, v := range a {
		if m == 1 {
			out[0] = v
		} else {
			out[bits.Reverse64(uint64(k))>>uint(shift)] = v
		}
	}
	for size := 2; size <= m; size *= 2 {
		step := 2 * m / size
		for at := 0; at < m; at += size {
			for k := 0; k < size/2; k++ {
				r := w[k*step]
				if dir < 0 {
					r = cmplx.Conj(r)
				}
				u, v := out[at+k], out[at+k+size/2]*r
				out[at+k], out[at+k+size/2] = u+v, u-v
			}
		}
	}
	return out
}

// EncodeRef computes the exact (float) polynomial coefficients of the canonical
// embedding of slot values: slot j of 2^logSlots is the evaluation at zeta^(5^j),
// with a sparse message repeated over all N/2 slots.
func EncodeRef(logN int, vals []complex128) []float64 {
	N := 1 << logN
	at := make([]complex128, N) // at[t]: value at zeta^(2t+1)
	five := 1
	for j := 0; j < N/2; j++ {
		v := vals[j%len(vals)]
		at[(five-1)/2] = v
		at[(2*N-five-1)/2] = cmplx.Conj(v)
		five = five * 5 % (2 * N)
	}
	w := rootsOf(N)
	out := make([]float64, N)
	for k, x := range dft(at, -1) {
		out[k] = real(x*cmplx.Conj(w[k])) / float64(N)
	}
	return out
}

// DecodeRef evaluates integer coefficients / scale at the slot points.
func DecodeRef(logN int, coeffs []*big.Int, scale float64, slots int) []complex128 {
	N := 1 << logN
	m := 2 * slots
	// a sparse message lives in X^(N/m): other coefficients carry only noise
	w := rootsOf(m)
	f := make([]complex128, m)
	for k := range f {
		x, _ := new(big.Float).SetInt(coeffs[k*(N/m)]).Float64()
		f[k] = complex(x/scale, 0) * w[k]
	}
	f = dft(f, 1)
	out := make([]complex128, slots)
	five := 1
	for j := range out {
		out[j] = f[(five-1)/2]
		five = five * 5 % (2 * m)
	}
	return out
}

// HashPoly mixes a polynomial (all rows, flags) into h.
func HashPoly(h uint64, p *ring.Poly) uint64 {
	if p == nil {
		return h*31 + 7
	}
	h = (h ^ uint64(len(p.Coeffs))) * 0x9E3779B97F4A7C15
	if p.IsNTT {
		h ^= 0x1234567
	}
	if p.IsMForm {
		h ^= 0x89ABCDE
	}
	for _, row := range p.Coeffs {
		for _, x := range row {
			h = (h ^ x) * 0x100000001B3
			h ^= h >> 29
		}
	}
	return h
}

func hashStr(h uint64, s string) uint64 {
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h*31 + 1
}

// HashCt is an order-independent digest of a ciphertext's components.
func HashCt(ct *mkrlwe.Ciphertext) uint64 {
	var s uint64
	for id, p := range ct.Value {
		s += HashPoly(hashStr(0xCBF29CE484222325, id), p)
	}
	return s + uint64(len(ct.Value))
}

// HashCKKS digests ciphertext and scale.
func HashCKKS(ct *mkckks.Ciphertext) uint64 {
	return HashCt(ct.Ciphertext) ^ math.Float64bits(ct.Scale)
}

// HashSwk digests a switching key.
func HashSwk(h uint64, k *mkrlwe.SwitchingKey) uint64 {
	for i := range k.Value {
		h = HashPoly(h, k.Value[i].Q)
		h = HashPoly(h, k.Value[i].P)
	}
	return h
}

func HashHoisted(c *mkrlwe.HoistedCiphertext) uint64 {
	var s uint64
	for id, k := range c.Value {
		s += HashSwk(hashStr(3, id), k)
	}
	return s
}
