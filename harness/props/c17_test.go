package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"

	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// TestC17 : generic encryption and decryption.
func TestC17(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg, p, desc := drawParams(c, hx.CfgOpt{MaxQ: 6})
		r := p.RingQ()
		kg := mkrlwe.NewKeyGenerator(p)
		enc, dec := mkrlwe.NewEncryptor(p), mkrlwe.NewDecryptor(p)
		ids := hx.DrawIDs(c.T, hx.DrawK(c, 3))
		type generation struct {
			set *mkrlwe.SecretKeySet
			sks map[string][]int64
			pks []*mkrlwe.PublicKey
		}
		var gens []generation
		for g := intr(c, 1, 2, "generations"); g > 0; g-- { // several keys of the same names
			n := generation{set: mkrlwe.NewSecretKeySet(), sks: map[string][]int64{}}
			for _, id := range ids {
				sk, pk := kg.GenKeyPair(id)
				n.set.AddSecretKey(sk)
				n.sks[id] = hx.SKCoeffs(p, sk)
				n.pks = append(n.pks, pk)
			}
			gens = append(gens, n)
		}
		c.Sig("%s k=%d", desc, len(ids))
		N := float64(p.N())
		B := float64(int(6 * cfg.Sigma))
		bound := B * (2*N + 1)
		var reuse *mkrlwe.Ciphertext
		var outs []*rlwe.Plaintext
		for st := hx.Steps(c, 1, 5, 80, 400); st > 0; st-- {
			gen := gens[intr(c, 0, len(gens)-1, "generation")]
			set, sks := gen.set, gen.sks
			pk := gen.pks[intr(c, 0, len(gen.pks)-1, "who")]
			pkh := hx.HashPoly(hx.HashPoly(1, pk.Value[0].Q), pk.Value[1].Q)
			ptl, ctl, otl := intr(c, 0, p.MaxLevel(), "ptl"), intr(c, 0, p.MaxLevel(), "ctl"), intr(c, 0, p.MaxLevel(), "otl")
			ptNTT, ctNTT, otNTT := coin(c, "ptNTT"), coin(c, "ctNTT"), coin(c, "otNTT")
			m := ring.NewPoly(p.N(), ptl+1)
			fill(r, ptl, drawBigs(c, "m", p.N(), hx.QAt(r, ptl), r.Modulus[:ptl+1]), m)
			mc := m.CopyNew()
			if ptNTT {
				r.NTTLvl(ptl, m, m)
				m.IsNTT = true
			}
			mh := hx.HashPoly(1, m)
			var ct *mkrlwe.Ciphertext
			members := []string{pk.ID}
			reused := reuse != nil && coin(c, "reuse")
			if reused {
				ct = reuse
				ctl = ct.Level()
				ctNTT = ct.Value["0"].IsNTT
				members = hx.IDs(ct.IDSet())
				has := false
				for _, id := range members {
					has = has || id == pk.ID
				}
				if !has {
					ct.PadCiphertext(hx.SetOf(pk.ID))
					members = hx.Union(members, []string{pk.ID})
				}
				c.Class("C17 reused receiver")
			} else {
				for _, id := range ids {
					if oneIn(c, 3, "extra") {
						members = hx.Union(members, []string{id})
					}
				}
				if ctNTT {
					ct = mkrlwe.NewCiphertextNTT(p, hx.SetOf(members...), ctl)
				} else {
					ct = mkrlwe.NewCiphertext(p, hx.SetOf(members...), ctl)
				}
			}
			lvl := minI(ptl, ctl)
			what := fmt.Sprintf("pt@%d ntt %v -> ct@%d ntt %v (reused %v, members %q) -> out@%d ntt %v (%s)", ptl, ptNTT, ctl, ctNTT, reused, members, otl, otNTT, desc)
			enc.Encrypt(&rlwe.Plaintext{Value: m}, pk, ct)
			if hx.HashPoly(1, m) != mh {
				c.Fatalf("encryption modified the plaintext: %s", what)
			}
			if hx.HashPoly(hx.HashPoly(1, pk.Value[0].Q), pk.Value[1].Q) != pkh {
				c.Fatalf("encryption modified the public key: %s", what)
			}
			if ct.Level() != lvl {
				c.Fatalf("ciphertext level %d, want %d: %s", ct.Level(), lvl, what)
			}
			if got := hx.IDs(ct.IDSet()); !hx.SameIDs(got, hx.Union(members, nil)) {
				c.Fatalf("ciphertext members %q: %s", got, what)
			}
			for id, comp := range ct.Value {
				if len(comp.Coeffs) != lvl+1 {
					c.Fatalf("component %q carries %d moduli at level %d: %s", id, len(comp.Coeffs), lvl, what)
				}
				if comp.IsNTT != ctNTT {
					c.Fatalf("component %q announces ntt=%v: %s", id, comp.IsNTT, what)
				}
			}
			Q := hx.QAt(r, lvl)
			d := hx.SubMod(hx.Phase(p, ct, sks), hx.PolyBig(r, lvl, mc, false), Q)
			if e := hx.MaxAbs(d); e > bound {
				c.Fatalf("encryption phase differs from the plaintext by %.4g, bound %.4g: %s", e, bound, what)
			}
			// decrypt into a fresh or a previously used output
			var out *rlwe.Plaintext
			if len(outs) > 0 && coin(c, "reuseOut") {
				out = outs[intr(c, 0, len(outs)-1, "which")]
				otl = out.Level()
				otNTT = out.Value.IsNTT
			} else {
				out = &rlwe.Plaintext{Value: ring.NewPoly(p.N(), otl+1)}
				out.Value.IsNTT = otNTT
				for i := range out.Value.Coeffs {
					for j := range out.Value.Coeffs[i] {
						out.Value.Coeffs[i][j] = uint64(i+j+1) % r.Modulus[i]
					}
				}
				outs = append(outs, out)
			}
			h := hx.HashCt(ct)
			dec.Decrypt(ct, set, out)
			if hx.HashCt(ct) != h {
				c.Fatalf("decryption modified the ciphertext: %s", what)
			}
			ol := minI(lvl, otl)
			if out.Level() != ol {
				c.Fatalf("decrypted level %d, want %d: %s", out.Level(), ol, what)
			}
			if out.Value.IsNTT != otNTT {
				c.Fatalf("decryption changed the announced form: %s", what)
			}
			Qo := hx.QAt(r, ol)
			d = hx.SubMod(hx.PolyBig(r, ol, out.Value, otNTT), hx.PolyBig(r, ol, mc, false), Qo)
			if e := hx.MaxAbs(d); e > bound {
				c.Fatalf("decryption differs from the plaintext by %.4g, bound %.4g: %s", e, bound, what)
			}
			// one by one, in any order
			cp := ct.CopyNew()
			mem := hx.IDs(cp.IDSet())
			for _, i := range perm(c, len(mem), "order") {
				dec.PartialDecrypt(cp, set.GetSecretKey(mem[i]))
			}
			if len(cp.Value) != 1 {
				c.Fatalf("components left after partial decryption by all members: %s", what)
			}
			d = hx.SubMod(hx.PolyBig(r, lvl, cp.Value["0"], cp.Value["0"].IsNTT), hx.PolyBig(r, lvl, mc, false), Q)
			if e := hx.MaxAbs(d); e > bound {
				c.Fatalf("partial decryptions differ from the plaintext by %.4g, bound %.4g: %s", e, bound, what)
			}
			reuse = ct
			c.Class("C17 %v/%v/%v", ptNTT, ctNTT, otNTT)
			if ptl != ctl || otl != ctl || ptNTT != ctNTT || ctNTT != otNTT || reused {
				c.Nontrivial()
			}
			c.Sig("%s", what)
			_ = math.Pi
		}
	})
}
