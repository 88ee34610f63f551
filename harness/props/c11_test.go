package props

import (
	"fmt"
	"testing"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// TestC11Circuit : random circuits with parties joining at any point.
func TestC11Circuit(t *testing.T) {
	hx.Check(t, 0.5, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinQ: 3, MaxQ: 6, MaxLogN: 5, Depth: true})
		runCircuit(c, cfg, 2, hx.Steps(c, 4, 16, 120, 300), true)
	})
}

// TestC11Members : extension, copies, reserved identifier.
func TestC11Members(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, intr(c, 2, 5, "parties"))
		c.Sig("%v k=%d", cfg, len(w.Parties))
		a := w.DrawCT("a", 0, 0)
		cur := &hx.CT{C: a.C.CopyNew(), V: a.V, E: a.E, IDs: a.IDs, Lvl: a.Lvl}
		w.Unchanged("copy", a)
		if hx.HashCKKS(cur.C) != a.Hash {
			c.Fatalf("copy differs from the original (%v)", cfg)
		}
		ext := 0
		for st := hx.Steps(c, 1, 5, 80, 300); st > 0; st-- {
			switch intr(c, 0, 4, "op") {
			case 0, 1: // extend in place
				var ids []string
				for _, p := range w.Parties {
					if coin(c, "ext") {
						ids = append(ids, p.ID)
					}
				}
				set := hx.SetOf(ids...)
				cur.C.PadCiphertext(set)
				if !hx.SameIDs(hx.IDs(set), hx.Union(ids, nil)) {
					c.Fatalf("extending a ciphertext modified the identifier set (%v)", cfg)
				}
				cur.IDs = hx.Union(cur.IDs, ids)
				ext++
				w.Verify(fmt.Sprintf("extension to %q", ids), cur, true)
				c.Sig("pad%q", ids)
			case 2: // copy into a ciphertext with at least these members
				dst := mkckks.NewCiphertext(w.P, cur.C.IDSet(), cur.Lvl, 1)
				dst.Ciphertext.Copy(cur.C.Ciphertext)
				dst.Scale = cur.C.Scale
				h := hx.HashCKKS(cur.C)
				if hx.HashCKKS(dst) != h {
					c.Fatalf("Copy does not reproduce the ciphertext (%v)", cfg)
				}
				for id := range dst.Value {
					flip(dst.Value[id])
				}
				if hx.HashCKKS(cur.C) != h {
					c.Fatalf("Copy shares memory with its source (%v)", cfg)
				}
				c.Sig("copy")
			case 3: // deep copy
				d := cur.C.CopyNew()
				h := hx.HashCKKS(cur.C)
				if hx.HashCKKS(d) != h {
					c.Fatalf("CopyNew does not reproduce the ciphertext (%v)", cfg)
				}
				for id := range d.Value {
					flip(d.Value[id])
				}
				d.PadCiphertext(hx.SetOf("zz-extra"))
				if hx.HashCKKS(cur.C) != h {
					c.Fatalf("CopyNew shares memory with its source (%v)", cfg)
				}
				c.Sig("copynew")
			case 4: // add somebody's ciphertext
				b := w.DrawCT("b", 0, 0)
				o := w.AddModel(cur, b, w.Eval.AddNew(cur.C, b.C), 1)
				w.Verify("sum with an extended ciphertext", o, true)
				cur = o
				c.Sig("add%q", b.IDs)
			}
			// the set of needed keys is exactly the member set
			if len(cur.IDs) > 0 && coin(c, "needed") {
				miss := cur.IDs[intr(c, 0, len(cur.IDs)-1, "miss")]
				set := mkrlwe.NewSecretKeySet()
				exact := mkrlwe.NewSecretKeySet()
				for _, p := range w.Parties {
					if p.ID != miss {
						set.AddSecretKey(p.SK)
					}
					for _, id := range cur.IDs {
						if id == p.ID {
							exact.AddSecretKey(p.SK)
						}
					}
				}
				mustPanic(c, fmt.Sprintf("decryption without member %q of %q", miss, cur.IDs), func() { w.Dec.Decrypt(cur.C, set) })
				w.Compare("decryption with exactly the members' keys", cur, w.Dec.Decrypt(cur.C, exact).Value)
			}
		}
		// a fresh ciphertext of any shape is an (extended) encryption of zero
		ids := hx.SetOf()
		for _, p := range w.Parties {
			if coin(c, "in") {
				ids.Add(p.ID)
			}
		}
		lvl := intr(c, 0, w.P.MaxLevel(), "lvl")
		z := mkckks.NewCiphertext(w.P, ids, lvl, w.P.Scale())
		w.Verify("new ciphertext", &hx.CT{C: z, V: make([]complex128, w.P.Slots()), IDs: hx.IDs(ids), Lvl: lvl}, true)
		// the reserved identifier
		mustPanic(c, "adding the reserved identifier to a member set", func() { mkrlwe.NewIDSet().Add("0") })
		if coin(c, "reserved") {
			sk := w.KG.GenSecretKey("0")
			pk := w.KG.GenPublicKey(sk)
			mustPanic(c, "encrypting under the reserved identifier", func() { w.Enc.EncryptMsgNew(msgOf(w, a.V), pk) })
		}
		if ext > 0 && len(cur.IDs) > len(a.IDs) {
			c.Nontrivial()
			c.Class("C11 extended")
		}
	})
}
