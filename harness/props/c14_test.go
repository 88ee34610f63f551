package props

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// constPK returns a "public key" (K0, K1) of constant polynomials: encrypting under it
// exposes the encryption randomness: component 0 is K0*u + e0 + m, component 1 is K1*u + e1.
func constPK(p mkrlwe.Parameters, id string, k0, k1 uint64) *mkrlwe.PublicKey {
	pk := mkrlwe.NewPublicKey(p, id)
	for n, k := range []uint64{k0, k1} {
		for i := range pk.Value[n].Q.Coeffs {
			for j := range pk.Value[n].Q.Coeffs[i] {
				pk.Value[n].Q.Coeffs[i][j] = k // NTT of a constant is that constant everywhere
			}
		}
		for i := range pk.Value[n].P.Coeffs {
			for j := range pk.Value[n].P.Coeffs[i] {
				pk.Value[n].P.Coeffs[i][j] = k
			}
		}
	}
	return pk
}

// TestC14Fresh : the masks and errors of a sequence of encryptions.
func TestC14Fresh(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinLogN: 5, MaxQ: 6})
		w := mkckks.NewParameters(cfg.CKKS())
		p := w.Parameters
		r := p.RingQ()
		c.Sig("%v", cfg)
		bound := int64(6 * cfg.Sigma)
		const K = 4096
		encs := []*mkrlwe.Encryptor{mkrlwe.NewEncryptor(p), mkrlwe.NewEncryptor(p)}
		ck := mkckks.NewEncryptor(w)
		es := &errStats{}
		us := map[string]string{}
		var n, zero, plus, minus float64
		steps := hx.Steps(c, 2, 6, 160, 200)
		lvls := map[int]bool{}
		for st := 0; st < steps; st++ {
			id := rapid.SampledFrom([]string{"a", "b"}).Draw(c.T, "id")
			k0 := uint64(K) * uint64(intr(c, 1, 2, "k0"))
			k1 := uint64(K) * uint64(intr(c, 1, 3, "k1"))
			pk := constPK(p, id, k0, k1) // a new key of an already seen name
			ptl := intr(c, 0, p.MaxLevel(), "ptl")
			ctl := intr(c, 0, p.MaxLevel(), "ctl")
			lvl := minI(ptl, ctl)
			ptNTT, ctNTT := coin(c, "ptNTT"), coin(c, "ctNTT")
			m := r.NewPolyLvl(ptl)
			rng := hx.NewRng(rapid.Uint64().Draw(c.T, "m"))
			if coin(c, "nonzero") {
				for i := range m.Coeffs {
					for j := range m.Coeffs[i] {
						m.Coeffs[i][j] = rng.U64() % r.Modulus[i]
					}
				}
			}
			mc := m.CopyNew()
			if ptNTT {
				r.NTTLvl(ptl, m, m)
			}
			m.IsNTT = ptNTT
			var ct *mkrlwe.Ciphertext
			if ctNTT {
				ct = mkrlwe.NewCiphertextNTT(p, hx.SetOf(id), ctl)
			} else {
				ct = mkrlwe.NewCiphertext(p, hx.SetOf(id), ctl)
			}
			// 0-2: ring-level encryptors, 3-6: every entry point of the CKKS encryptor
			which := intr(c, 0, 6, "encryptor")
			var ckCT *mkckks.Ciphertext
			if which >= 3 {
				var vals mkckks.Message
				vals.Value = make([]complex128, w.Slots())
				for j := range vals.Value {
					vals.Value[j] = complex(rng.F(), rng.F())
				}
				pt := ck.EncodeMsgNew(&vals)
				ptl, ptNTT = p.MaxLevel(), pt.Value.IsNTT
				lvl = minI(ptl, ctl)
				mc = pt.Value.CopyNew()
				if ptNTT {
					r.InvNTTLvl(ptl, mc, mc)
				}
				members := hx.SetOf(id)
				for j := intr(c, 0, 6, "members"); j > 0; j-- {
					members.Add(fmt.Sprintf("m%d", j))
				}
				switch which {
				case 3:
					ckCT = mkckks.NewCiphertext(w, members, ctl, 1)
					ck.EncryptPtxt(pt, pk, ckCT)
				case 4:
					ckCT = mkckks.NewCiphertext(w, members, ctl, 1)
					ck.EncryptMsg(&vals, pk, ckCT)
				case 5:
					ckCT = ck.EncryptMsgNew(&vals, pk)
				case 6:
					ckCT = ck.EncryptMsgNewExpand(&vals, pk, members)
				}
				if which >= 5 {
					ctl, lvl = p.MaxLevel(), p.MaxLevel()
				}
				c.Sig("entry%d members=%d", which, len(members.Value))
				for o, comp := range ckCT.Value {
					if o == "0" || o == id {
						continue
					}
					for i := range comp.Coeffs {
						for _, x := range comp.Coeffs[i] {
							if x != 0 {
								c.Fatalf("entry point %d: the component of %q, for whom nothing was encrypted, is not zero (%v)", which, o, cfg)
							}
						}
					}
				}
				ct = ckCT.Ciphertext
				ctNTT = ct.Value["0"].IsNTT
			}
			what := fmt.Sprintf("encryption %d (pt level %d ntt %v, ct level %d ntt %v, encryptor %d, %v)", st, ptl, ptNTT, ctl, ctNTT, which, cfg)
			switch {
			case which >= 3:
			case which == 2:
				ck.Encryptor.Encrypt(&rlwe.Plaintext{Value: m}, pk, ct)
			default:
				encs[which].Encrypt(&rlwe.Plaintext{Value: m}, pk, ct)
			}
			// exact small integers behind both components
			small := func(comp *ring.Poly, sub *ring.Poly) []int64 {
				x := hx.PolyBig(r, lvl, comp, ctNTT)
				if sub != nil {
					x = hx.SubMod(x, hx.PolyBig(r, lvl, sub, false), hx.QAt(r, lvl))
				}
				o := make([]int64, len(x))
				for j := range x {
					if x[j].BitLen() > 20 {
						c.Fatalf("%s: coefficient %d of a component is not mask*constant + small error", what, j)
					}
					o[j] = x[j].Int64()
				}
				return o
			}
			c0 := small(ct.Value["0"], mc)
			c1 := small(ct.Value[id], nil)
			split := func(x []int64, k int64) (u, e []int64) {
				u, e = make([]int64, len(x)), make([]int64, len(x))
				for j, v := range x {
					u[j] = int64(math.Round(float64(v) / float64(k)))
					e[j] = v - u[j]*k
				}
				return
			}
			u0, e0 := split(c0, int64(k0))
			u1, e1 := split(c1, int64(k1))
			nz := false
			for j := range u0 {
				if u0[j] < -1 || u0[j] > 1 {
					c.Fatalf("%s: mask coefficient %d is %d, not ternary", what, j, u0[j])
				}
				if u0[j] != u1[j] {
					c.Fatalf("%s: the two components are masked with different polynomials (coefficient %d: %d and %d)", what, j, u0[j], u1[j])
				}
				if e0[j] > bound || e0[j] < -bound || e1[j] > bound || e1[j] < -bound {
					c.Fatalf("%s: error %d/%d beyond bound %d at coefficient %d", what, e0[j], e1[j], bound, j)
				}
				n++
				switch u0[j] {
				case 0:
					zero++
				case 1:
					plus++
					nz = true
				default:
					minus++
					nz = true
				}
			}
			if !nz {
				c.Fatalf("%s: the mask is zero", what)
			}
			k := fmt.Sprint(u0)
			if o, dup := us[k]; dup {
				c.Fatalf("%s reuses the mask of %s", what, o)
			}
			us[k] = what
			es.add(what+" e0", e0)
			es.add(what+" e1", e1)
			lvls[lvl] = true
			c.Sig("pt%d/%v ct%d/%v e%d", ptl, ptNTT, ctl, ctNTT, which)
			c.Class("C14 ptNTT=%v ctNTT=%v", ptNTT, ctNTT)
		}
		es.check(c, cfg.Sigma)
		f := zero / n
		if f < 1.0/3-8*math.Sqrt(0.25/n)-0.01 || f > 0.5+8*math.Sqrt(0.25/n)+0.01 {
			c.Fatalf("encryption masks: fraction of zeros %.3f over %g coefficients (%v)", f, n, cfg)
		}
		if math.Abs(plus-minus) > 8*math.Sqrt(plus+minus) {
			c.Fatalf("encryption masks: %g positive, %g negative coefficients (%v)", plus, minus, cfg)
		}
		c.Nontrivial()
	})
}

// spread reports whether centered values cover the modulus.
func spread(v []*big.Int, Q *big.Int) bool {
	m := new(big.Int)
	for _, x := range v {
		if x.CmpAbs(m) > 0 {
			m.Abs(x)
		}
	}
	return new(big.Int).Lsh(m, 3).Cmp(Q) > 0
}

// TestC14Hiding : without the right keys the decryption phase covers the modulus.
func TestC14Hiding(t *testing.T) {
	hx.Check(t, 0.7, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinLogN: 5})
		w := hx.NewWorld(c, cfg, intr(c, 2, 4, "parties"))
		a := w.DrawCT("a", 0, 0)
		Q := hx.QAt(w.P.RingQ(), a.Lvl)
		c.Sig("%v %q@%d", cfg, a.IDs, a.Lvl)
		for id, comp := range a.C.Value {
			if !spread(hx.PolyBig(w.P.RingQ(), a.Lvl, comp, false), Q) {
				c.Fatalf("component %q of a ciphertext of %q at level %d is not spread over the modulus (%v)", id, a.IDs, a.Lvl, cfg)
			}
		}
		// a subset of the keys is right, at least one is wrong or missing
		bad := intr(c, 0, len(a.IDs)-1, "bad")
		sks := map[string][]int64{}
		zero := make([]int64, w.P.N())
		for i, id := range a.IDs {
			right := w.Secrets()[id]
			if i == bad || coin(c, "alsoBad") {
				switch intr(c, 0, 1, "how") {
				case 0:
					sks[id] = zero
				default:
					for _, p := range w.Parties {
						if p.ID != id {
							sks[id] = p.S
						}
					}
				}
			} else {
				sks[id] = right
			}
		}
		if coin(c, "library") {
			// the library decryptor, after it has seen the right keys, given wrong keys of the same names
			w.Dec.Decrypt(a.C, w.SKs)
			keys, secrets := mkrlwe.NewSecretKeySet(), map[string][]int64{}
			for i, id := range a.IDs {
				sk := w.SKs.GetSecretKey(id)
				if i == bad {
					sk = w.KG.GenSecretKey(id)
				}
				keys.AddSecretKey(sk)
				secrets[id] = hx.SKCoeffs(w.P.Parameters, sk)
			}
			if !spread(hx.Phase(w.P.Parameters, a.C.Ciphertext, secrets), Q) {
				c.Fatalf("ciphertext of %q at level %d decrypts to a small phase with a wrong key (%v)", a.IDs, a.Lvl, cfg)
			}
			x := a.C.CopyNew()
			for _, id := range a.IDs {
				w.Dec.PartialDecrypt(x, keys.GetSecretKey(id))
			}
			if !spread(hx.PolyBig(w.P.RingQ(), a.Lvl, x.Value["0"], false), Q) {
				c.Fatalf("ciphertext of %q at level %d: the decryptor opened it with a wrong key (%v)", a.IDs, a.Lvl, cfg)
			}
			c.Class("C14 library decryptor with a wrong key")
		}
		ph := hx.Phase(w.P.Parameters, a.C.Ciphertext, sks)
		if !spread(ph, Q) {
			c.Fatalf("ciphertext of %q at level %d decrypts to a small phase without all keys (%v)", a.IDs, a.Lvl, cfg)
		}
		// two encryptions of the same message share no component
		v := w.DrawVec("same", 0)
		p := w.Parties[0]
		x, y := w.Encrypt(v, p, a.Lvl), w.Encrypt(v, p, a.Lvl)
		for id := range x.C.Value {
			d := ring.NewPoly(w.P.N(), a.Lvl+1)
			w.P.RingQ().SubLvl(a.Lvl, x.C.Value[id], y.C.Value[id], d)
			if !spread(hx.PolyBig(w.P.RingQ(), a.Lvl, d, false), Q) {
				c.Fatalf("two encryptions of the same message have close components %q (%v)", id, cfg)
			}
			w.P.RingQ().AddLvl(a.Lvl, x.C.Value[id], y.C.Value[id], d)
			if !spread(hx.PolyBig(w.P.RingQ(), a.Lvl, d, false), Q) {
				c.Fatalf("two encryptions of the same message have nearly opposite components %q (%v)", id, cfg)
			}
		}
		if len(a.IDs) >= 2 {
			c.Nontrivial()
			c.Class("C14 subset of keys")
		}
	})
}

// normRow divides a row of residues by its first non-zero entry, so that proportional rows
// become equal.
func normRow(p *ring.Poly, q uint64) *ring.Poly {
	row := p.Coeffs[0]
	var inv *big.Int
	Q := new(big.Int).SetUint64(q)
	out := make([]uint64, len(row))
	for j, x := range row {
		if x %= q; x == 0 {
			continue
		}
		if inv == nil {
			inv = new(big.Int).ModInverse(new(big.Int).SetUint64(x), Q)
		}
		hi, lo := bits.Mul64(x, inv.Uint64())
		out[j] = bits.Rem64(hi, lo, q)
	}
	return &ring.Poly{Coeffs: [][]uint64{out}}
}

// TestC14CRS : common reference strings.
func TestC14CRS(t *testing.T) {
	hx.Check(t, 0.5, func(c *hx.Case) {
		cfg, p, desc := drawParams(c, hx.CfgOpt{MinLogN: 5, MaxLogN: 7, MaxQ: 6})
		h := p.N() / 2
		q := mkrlwe.NewParameters(cfg.RLWE(), p.Gamma())
		ops := intr(c, 0, 3, "ops")
		for i := 0; i < ops; i++ {
			e := intr(c, 1, h-1, "idx")
			x := p
			if p.CRS[e] == nil {
				x.AddCRS(e)
			}
			if q.CRS[e] == nil {
				q.AddCRS(e)
			}
			if p.CRS[e] == nil || q.CRS[e] == nil {
				c.Fatalf("registered index %d has no common reference string (%s)", e, desc)
			}
		}
		want := []int{0, -1, -2}
		for k := 1; k < h; k *= 2 {
			want = append(want, k)
		}
		for _, k := range want {
			if p.CRS[k] == nil {
				c.Fatalf("no common reference string for index %d (%s)", k, desc)
			}
		}
		seen := map[uint64]string{}
		var n, sum, sq float64
		for which, par := range []mkrlwe.Parameters{p, q} {
			for idx, k := range par.CRS {
				if len(k.Value) != par.Beta(par.MaxLevel()) {
					c.Fatalf("common reference string %d has %d digits, want %d (%s)", idx, len(k.Value), par.Beta(par.MaxLevel()), desc)
				}
				for d := range k.Value {
					what := fmt.Sprintf("parameters %d index %d digit %d", which, idx, d)
					do := func(rg *ring.Ring, pol *ring.Poly, part string) {
						for i := range pol.Coeffs {
							row := &ring.Poly{Coeffs: pol.Coeffs[i : i+1]}
							hsh := hx.HashPoly(rg.Modulus[i], normRow(row, rg.Modulus[i]))
							if o, dup := seen[hsh]; dup {
								c.Fatalf("common reference strings %s and %s modulo %d are equal up to a factor (%s)", o, what, rg.Modulus[i], desc)
							}
							seen[hsh] = what
							for _, x := range pol.Coeffs[i] {
								if x >= rg.Modulus[i] {
									c.Fatalf("%s: residue %d not reduced modulo %d (%s)", what, x, rg.Modulus[i], desc)
								}
								f := float64(x) / float64(rg.Modulus[i])
								n++
								sum += f
								sq += f * f
							}
						}
					}
					do(par.RingQ(), k.Value[d].Q, "Q")
					do(par.RingP(), k.Value[d].P, "P")
				}
			}
		}
		mean, m2 := sum/n, sq/n
		if math.Abs(mean-0.5) > 8/math.Sqrt(12*n) || math.Abs(m2-1.0/3) > 8*math.Sqrt(4.0/45/n) {
			c.Fatalf("common reference strings are not uniform: mean %.4f, second moment %.4f over %g residues (%s)", mean, m2, n, desc)
		}
		c.Nontrivial()
		c.Sig("%s ops=%d", desc, ops)
	})
}
