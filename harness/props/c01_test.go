package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// TestC01 : histories of encryptions and decryptions on shared objects.
func TestC01(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		c.Sig("%v k=%d", cfg, len(w.Parties))
		steps := hx.Steps(c, 1, 5, 80, 400)
		var live []*hx.CT
		var last *mkckks.Message
		levels := map[int]bool{}
		keys := w.HashKeys()
		for s := 0; s < steps; s++ {
			w.Dirty(lbl("pre", s), 1)
			p := w.Parties[intr(c, 0, len(w.Parties)-1, "who")]
			lvl := intr(c, 0, w.P.MaxLevel(), "level")
			scale := w.P.Scale()
			entry := intr(c, 0, 5, "entry")
			if entry == 1 || entry == 2 {
				lvl = w.P.MaxLevel()
			}
			if entry == 4 {
				// the caller may choose the scale of an encoded message
				scale = math.Exp2(rapid.Float64Range(20, math.Min(w.QBits(lvl)-6, 60)).Draw(c.T, "scale"))
			}
			v := w.DrawVec(lbl("m", s), drawMag(w, lbl("m", s), scale, lvl))
			short := len(v)
			if oneIn(c, 3, "short?") {
				short = intr(c, 0, len(v), "len")
				for j := short; j < len(v); j++ {
					v[j] = 0
				}
			}
			msg := &mkckks.Message{}
			if last != nil && coin(c, "same message object?") {
				msg = last // the caller refills one message object
				c.Class("C01 message object refilled")
			}
			last = msg
			if len(msg.Value) != short {
				msg.Value = make([]complex128, short)
			}
			copy(msg.Value, v)
			ids := []string{p.ID}
			o := &hx.CT{V: v, Lvl: lvl}
			switch entry {
			case 0, 5:
				o.C = mkckks.NewCiphertext(w.P, hx.SetOf(p.ID), lvl, w.P.Scale())
				if entry == 5 {
					o.C.Scale = 1 // the stale scale of the receiver must not matter
				}
				w.Enc.EncryptMsg(msg, p.PK, o.C)
			case 1:
				o.C = w.Enc.EncryptMsgNew(msg, p.PK)
			case 2:
				var extra []string
				for _, q := range w.Parties {
					if coin(c, "expand?") {
						extra = append(extra, q.ID)
					}
				}
				ids = hx.Union(ids, extra)
				set := hx.SetOf(ids...)
				o.C = w.Enc.EncryptMsgNewExpand(msg, p.PK, set)
				if !hx.SameIDs(hx.IDs(set), ids) {
					c.Fatalf("EncryptMsgNewExpand modified the requested member set")
				}
			case 3:
				pt := w.Enc.EncodeMsgNew(msg)
				o.C = mkckks.NewCiphertext(w.P, hx.SetOf(p.ID), lvl, w.P.Scale())
				w.Enc.EncryptPtxt(pt, p.PK, o.C)
			case 4:
				ptl := intr(c, lvl, w.P.MaxLevel(), "ptlevel")
				cp := cfg.CKKS()
				pt := ckks.NewPlaintext(cp, ptl, scale)
				enc := ckks.NewEncoder(cp)
				if coin(c, "ntt") {
					enc.EncodeNTT(pt, v, w.P.LogSlots())
				} else {
					enc.Encode(pt, v, w.P.LogSlots())
				}
				ctl := lvl
				if coin(c, "ptlow") {
					ptl, ctl = lvl, ptl
					pt.Value.Coeffs = pt.Value.Coeffs[:ptl+1]
				}
				h := hx.HashPoly(1, pt.Value)
				o.C = mkckks.NewCiphertext(w.P, hx.SetOf(p.ID), ctl, w.P.Scale())
				w.Enc.EncryptPtxt(pt, p.PK, o.C)
				if hx.HashPoly(1, pt.Value) != h {
					c.Fatalf("EncryptPtxt modified the plaintext (%v)", cfg)
				}
			}
			for j := range msg.Value {
				if msg.Value[j] != v[j] {
					c.Fatalf("encryption modified the message (%v)", cfg)
				}
			}
			if !relEq(o.C.Scale, scale) {
				c.Fatalf("fresh ciphertext has scale %v, want %v (entry %d, %v)", o.C.Scale, scale, entry, cfg)
			}
			o.IDs = hx.Union(ids, nil)
			o.E = w.FreshErr(hx.MaxV(v), scale)
			what := fmt.Sprintf("step %d entry %d", s, entry)
			w.Verify(what, o, true)
			o.Snap()
			live = append(live, o)
			levels[lvl] = true
			c.Sig("e%d l%d s%d m%.2g", entry, lvl, short, hx.MaxV(v))
			c.Class("C01 entry=%d", entry)
			// any earlier ciphertext must still decrypt on the shared decryptor
			back := live[intr(c, 0, len(live)-1, "again")]
			w.Unchanged(what+": earlier ciphertext", back)
			w.Verify(what+": decrypting an earlier ciphertext", back, true)
			w.Unchanged(what+": decryption", back)
			if oneIn(c, 4, "change?") {
				w.Mutate(lbl("again", s), back)
				w.Verify(what+": decrypting a ciphertext changed in place", back, true)
			}
		}
		if w.HashKeys() != keys {
			c.Fatalf("encryption/decryption modified a key (%v)", cfg)
		}
		if steps >= 2 && len(levels) >= 2 {
			c.Class("C01 several levels")
		}
		if steps >= 2 || cfg.LogSlots < cfg.LogN-1 || live[0].Lvl < w.P.MaxLevel() {
			c.Nontrivial()
		}
	})
}

// TestC02 : distributed decryption in any order.
func TestC02(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 5))
		w.Dirty("pre", 2)
		lvl := intr(c, 0, w.P.MaxLevel(), "level")
		ps := w.DrawParties("members")
		mag := drawMag(w, "m", w.P.Scale(), lvl)
		if mag > w.MaxMag(w.P.Scale(), lvl)-3 {
			mag -= 3 // room for the other members' shares
		}
		ct := w.EncryptJoint(w.DrawVec("m", mag), ps, lvl)
		c.Sig("%v k=%d members=%q l%d", cfg, len(w.Parties), ct.IDs, lvl)
		keys := w.HashKeys()

		// joint, with extra keys in the set
		w.Verify("joint decryption", ct, true)
		w.Unchanged("joint decryption", ct)

		// a missing key is refused, and the decryptor stays usable
		if coin(c, "missing?") {
			miss := ps[intr(c, 0, len(ps)-1, "missing")]
			set := mkrlwe.NewSecretKeySet()
			for _, p := range w.Parties {
				if p != miss && (coin(c, "have") || p.ID == "") {
					set.AddSecretKey(p.SK)
				}
			}
			mustPanic(c, fmt.Sprintf("joint decryption without the key of %q (%v)", miss.ID, cfg), func() { w.Dec.Decrypt(ct.C, set) })
			w.Unchanged("refused joint decryption", ct)
			w.Verify("joint decryption after a refusal", ct, true)
			c.Class("C02 missing key")
		}

		// the generic joint decryption underneath, on shared objects
		if coin(c, "generic?") {
			genericDec(c, w, ct, ps)
		}

		// two different runs of partial decryptions followed by a joint one
		for run := 0; run < 2; run++ {
			cur := ct.C.CopyNew()
			rest := append([]*hx.Party{}, ps...)
			order := perm(c, len(rest), lbl("order", run))
			n := intr(c, 0, len(rest), lbl("partial", run))
			done := map[string]bool{}
			for _, i := range order[:n] {
				w.Dec.PartialDecrypt(cur, ps[i].SK)
				done[ps[i].ID] = true
				var left []string
				for _, p := range ps {
					if !done[p.ID] {
						left = append(left, p.ID)
					}
				}
				m := &hx.CT{C: cur, V: ct.V, E: ct.E, IDs: hx.Union(left, nil), Lvl: lvl}
				if cur.Scale != ct.C.Scale {
					c.Fatalf("partial decryption changed the scale (%v)", cfg)
				}
				w.CheckShape("after partial decryption", m)
				w.Compare("phase after partial decryption", m, w.RefDecrypt(cur))
			}
			set := mkrlwe.NewSecretKeySet()
			for _, p := range w.Parties {
				if !done[p.ID] || coin(c, "alsoDone") {
					set.AddSecretKey(p.SK)
				}
			}
			if len(set.Value) == 0 && coin(c, "emptyset") {
				c.Class("C02 empty key set after full partial decryption")
			}
			h := hx.HashCKKS(cur)
			w.Compare("joint decryption after partial decryptions", ct, w.Dec.Decrypt(cur, set).Value)
			if hx.HashCKKS(cur) != h {
				c.Fatalf("joint decryption modified its input (%v)", cfg)
			}
			w.Unchanged("partial decryption of a copy", ct)
			c.Sig("run%d order=%v n=%d", run, order, n)
			if n > 0 && n < len(ps) {
				c.Class("C02 mixed partial/joint")
			}
			if n == len(ps) {
				c.Class("C02 all partial")
			}
		}
		if w.HashKeys() != keys {
			c.Fatalf("decryption modified a key (%v)", cfg)
		}
		if len(ps) >= 2 {
			c.Nontrivial()
		}
	})
}

// genericDec checks mkrlwe's joint decryption of a ciphertext of the world.
func genericDec(c *hx.Case, w *hx.World, ct *hx.CT, ps []*hx.Party) {
	r := w.P.RingQ()
	ptl := intr(c, 0, w.P.MaxLevel(), "ptlevel")
	pt := &rlwe.Plaintext{Value: ring.NewPoly(w.P.N(), ptl+1)}
	pt.Value.IsNTT = coin(c, "ptNTT")
	lvl := ct.Lvl
	if ptl < lvl {
		lvl = ptl
	}
	if coin(c, "genMissing") {
		miss := ps[intr(c, 0, len(ps)-1, "genMiss")]
		set := mkrlwe.NewSecretKeySet()
		for _, p := range w.Parties {
			if p != miss {
				set.AddSecretKey(p.SK)
			}
		}
		mustPanic(c, fmt.Sprintf("generic joint decryption without the key of %q", miss.ID), func() { w.Dec.Decryptor.Decrypt(ct.C.Ciphertext, set, pt) })
		w.Unchanged("refused generic joint decryption", ct)
		pt = &rlwe.Plaintext{Value: ring.NewPoly(w.P.N(), ptl+1)}
		pt.Value.IsNTT = coin(c, "ptNTT2")
	}
	// with the right keys, or with other keys of the same names for some of the members: in
	// either case the result is the phase under the keys that were handed over
	keys, secrets := w.SKs, w.Secrets()
	if coin(c, "namesakes") {
		keys, secrets = mkrlwe.NewSecretKeySet(), map[string][]int64{}
		for _, p := range w.Parties {
			sk := p.SK
			if coin(c, "other key") {
				sk = w.KG.GenSecretKey(p.ID)
				c.Class("C02 other key of the same name")
			}
			keys.AddSecretKey(sk)
			secrets[p.ID] = hx.SKCoeffs(w.P.Parameters, sk)
		}
	}
	w.Dec.Decryptor.Decrypt(ct.C.Ciphertext, keys, pt)
	w.Unchanged("generic joint decryption", ct)
	Q := hx.QAt(r, lvl)
	got := hx.PolyBig(r, lvl, pt.Value, pt.Value.IsNTT)
	want := hx.Phase(w.P.Parameters, ct.C.Ciphertext, secrets)
	for j := range want {
		want[j].Mod(want[j], Q)
		if d := hx.SubMod(got[j:j+1], want[j:j+1], Q)[0]; d.Sign() != 0 {
			c.Fatalf("generic joint decryption: coefficient %d is off by %v from the phase (level %d, %v)", j, d, lvl, w.Cfg)
		}
	}
	c.Class("C02 generic joint decryption")
}
