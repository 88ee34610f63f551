package props

import (
	"fmt"
	"testing"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// checkMul verifies a product ciphertext against the model, including scale and level.
func checkMul(w *hx.World, what string, a, b *hx.CT, out *mkckks.Ciphertext, s0, s1 float64) *hx.CT {
	lvl := a.Lvl
	if b.Lvl < lvl {
		lvl = b.Lvl
	}
	o := w.MulModel(a, b, out)
	ws, wl := w.MulScale(s0, s1, lvl)
	if !relEq(out.Scale, ws) {
		w.C.Fatalf("%s: result scale %v, want %v (%v)", what, out.Scale, ws, w.Cfg)
	}
	o.Lvl = wl
	if !w.Fits(hx.MaxV(o.V)+o.E+1e-3, out.Scale, wl) {
		// product of scales does not fit below the modulus left: only the shape is defined
		w.CheckShape(what, o)
		w.C.Class("mul overflow (shape only)")
		return o
	}
	w.Verify(what, o, true)
	return o
}

// TestC04 : ciphertext multiplication.
func TestC04(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxQ: 7, Depth: coin(c, "depth")})
		k := hx.DrawK(c, 4)
		w := hx.NewWorld(c, cfg, k)
		w.GenRLK()
		c.Sig("%v k=%d", cfg, k)
		if oneIn(c, 3, "extra key holder") {
			// a key of somebody not involved in any ciphertext
			sk := w.KG.GenSecretKey("uninvolved")
			w.RLK.AddRelinearizationKey(w.KG.GenRelinearizationKey(sk, w.KG.GenSecretKey("uninvolved")))
			c.Class("C04 extra key")
		}
		keys := w.HashKeys()
		rounds := hx.Steps(c, 1, 3, 50, 400)
		var a, b *hx.CT
		for r := 0; r < rounds; r++ {
			w.Dirty(lbl("pre", r), 1)
			if oneIn(c, 6, "rekey?") {
				// a party starts over with new keys of the same name
				w.Rekey(intr(c, 0, len(w.Parties)-1, "rekeyed"))
				keys, a = w.HashKeys(), nil
				c.Class("C04 rekeyed")
			}
			if r > 0 && a != nil && coin(c, "again?") {
				// the same objects once more, one of them changed in place in between
				if coin(c, "mutA") {
					w.Mutate(lbl("a", r), a)
				} else {
					w.Mutate(lbl("b", r), b)
				}
			} else {
				a = w.DrawCT(lbl("a", r), 0, 0)
				b = a
				switch intr(c, 0, 9, "operands") {
				case 0, 1: // square
				case 2: // an equal ciphertext with further members, or an equal copy
					b = w.Padded(lbl("b", r), a)
					if coin(c, "flip") {
						a, b = b, a
					}
					c.Class("C04 padded copy")
				default:
					b = w.DrawCT(lbl("b", r), 0, 0)
				}
			}
			s0, s1 := a.C.Scale, b.C.Scale
			lvl := a.Lvl
			if b.Lvl < lvl {
				lvl = b.Lvl
			}
			what := fmt.Sprintf("mul %q@%d x %q@%d", a.IDs, a.Lvl, b.IDs, b.Lvl)
			variant := intr(c, 0, 3, "variant")
			switch variant {
			case 0, 1:
				w.NoShare(what, checkMul(w, what, a, b, w.Eval.MulRelinNew(a.C, b.C, w.RLK), s0, s1).C, a, b)
				if variant == 1 {
					checkMul(w, what+" swapped", b, a, w.Eval.MulRelinNew(b.C, a.C, w.RLK), s1, s0)
				}
			default:
				// the key switcher's own entry points: no rescaling, coefficient form
				ks := w.Switcher("ks", func(ks *mkrlwe.KeySwitcher) {
					junk := mkckks.NewCiphertext(w.P, hx.SetOf(b.IDs...), b.Lvl, 1)
					ks.MulAndRelin(b.C.Ciphertext, b.C.Ciphertext, w.RLK, junk.Ciphertext)
				})
				out, ol := lowerOut(c, w, &hx.CT{C: a.C, IDs: hx.Union(a.IDs, b.IDs), Lvl: lvl})
				out.Scale = s0 * s1
				lvl = ol
				if variant == 2 {
					ks.MulAndRelin(a.C.Ciphertext, b.C.Ciphertext, w.RLK, out.Ciphertext)
				} else {
					ks.MulAndRelinHoisted(a.C.Ciphertext, b.C.Ciphertext, nil, nil, w.RLK, out.Ciphertext)
				}
				o := w.MulModel(&hx.CT{C: a.C, V: a.V, E: a.E, IDs: a.IDs, Lvl: lvl}, b, out)
				o.Lvl = lvl
				if w.Fits(hx.MaxV(o.V)+o.E+1e-3, out.Scale, lvl) {
					w.Verify(what+" [key switcher]", o, true)
				} else {
					w.CheckShape(what, o)
				}
			}
			w.Unchanged(what, a, b)
			c.Class("C04 variant=%d", variant)
			if lvl == w.P.MaxLevel() {
				c.Class("C04 top level")
			} else {
				c.Class("C04 below top level")
			}
			if a.Lvl != b.Lvl {
				c.Class("C04 level mismatch")
			}
			if a == b {
				c.Class("C04 square")
			}
			if len(cfg.LogP) > 3 {
				c.Class("C04 grouped digits")
			}
			if len(hx.Union(a.IDs, b.IDs)) >= 2 || a.Lvl != b.Lvl || lvl < w.P.MaxLevel() {
				c.Nontrivial()
			}
			c.Sig("%s v%d", what, variant)
		}
		if w.HashKeys() != keys {
			c.Fatalf("multiplication modified a key (%v)", cfg)
		}
		// a missing relinearisation key never goes unnoticed
		if oneIn(c, 4, "missing key?") && k >= 2 {
			p := w.Parties[0]
			a := w.Encrypt(w.DrawVec("ma", 0), p, w.P.MaxLevel())
			b := w.Encrypt(w.DrawVec("mb", 0), w.Parties[1], w.P.MaxLevel())
			w.RLK.DelRelinearizationKey(p.ID)
			mustPanic(c, fmt.Sprintf("multiplication without the relinearisation key of %q", p.ID), func() { w.Eval.MulRelinNew(a.C, b.C, w.RLK) })
			c.Class("C04 missing key refused")
		}
	})
}
