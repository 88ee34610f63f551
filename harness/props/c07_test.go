package props

import (
	"fmt"
	"testing"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// TestC07 : hoisted operations.
func TestC07(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxLogN: 7})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		w.GenRLK()
		h := 1 << (cfg.LogN - 1)
		var extra []int
		if coin(c, "extra") {
			if e := intr(c, 1, h-1, "extraIdx"); w.P.CRS[e] == nil {
				w.P.AddCRS(e)
				extra = append(extra, e)
			}
		}
		w.GenRot(extra...)
		idxs := append([]int{0}, extra...)
		for k := 1; k < h; k *= 2 {
			idxs = append(idxs, k)
		}
		c.Sig("%v k=%d", cfg, len(w.Parties))
		n := intr(c, 1, 3, "pool")
		var cts []*hx.CT
		var hs []*mkrlwe.HoistedCiphertext
		var hh []uint64
		for i := 0; i < n; i++ {
			a := w.DrawCT(lbl("a", i), 0, 0)
			f := w.Eval.HoistedForm(a.C)
			w.Unchanged("hoisting", a)
			if len(f.Value) != len(a.IDs) {
				c.Fatalf("hoisted form has %d members, ciphertext %d (%v)", len(f.Value), len(a.IDs), cfg)
			}
			cts, hs, hh = append(cts, a), append(hs, f), append(hh, hx.HashHoisted(f))
		}
		keys := w.HashKeys()
		uses := 0
		for s := hx.Steps(c, 1, 5, 60, 400); s > 0; s-- {
			i := intr(c, 0, n-1, "i")
			a := cts[i]
			w.Dirty("pre", 1)
			if oneIn(c, 5, "rehoist") {
				// the ciphertext changes in place and is hoisted again
				w.Mutate(lbl("a", i), a)
				hs[i] = w.Eval.HoistedForm(a.C)
				w.Unchanged("hoisting again", a)
				hh[i] = hx.HashHoisted(hs[i])
				c.Class("C07 hoisted again")
			}
			var what string
			if coin(c, "rotate?") {
				k := idxs[intr(c, 0, len(idxs)-1, "rot")] + h*intr(c, -2, 2, "wrap")
				what = fmt.Sprintf("hoisted rotation %q@%d by %d", a.IDs, a.Lvl, k)
				o := &hx.CT{C: w.Eval.RotateHoistedNew(a.C, k, hs[i], w.RTK), V: hx.RotV(a.V, k), IDs: a.IDs, Lvl: a.Lvl}
				o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, 1, a.C.Scale)
				if o.C.Scale != a.C.Scale {
					c.Fatalf("%s: scale changed (%v)", what, cfg)
				}
				w.Verify(what, o, true)
				c.Class("C07 rotation")
				if nk := norm(k, h); nk != 0 && coin(c, "direct") {
					out, lvl := lowerOut(c, w, a)
					in := nk
					if coin(c, "negdirect") {
						in -= h * intr(c, 1, 3, "negwrap")
					}
					ks := w.Switcher("ks", func(ks *mkrlwe.KeySwitcher) {
						junk := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl, 1)
						ks.Rotate(a.C.Ciphertext, 1, w.RTK, junk.Ciphertext)
					})
					ks.RotateHoisted(a.C.Ciphertext, in, hs[i], w.RTK, out.Ciphertext)
					d := &hx.CT{C: out, V: hx.RotV(a.V, nk), IDs: a.IDs, Lvl: lvl}
					d.E = a.E + w.RotErr(len(a.IDs), lvl, 1, a.C.Scale)
					if w.Fits(hx.MaxV(d.V)+d.E+1e-3, out.Scale, lvl) {
						w.Verify(what+fmt.Sprintf(" [key switcher, amount %d into level %d]", in, lvl), d, false)
					}
					c.Class("C07 key switcher rotation")
				}
			} else {
				j := intr(c, 0, n-1, "j")
				b := cts[j]
				ha, hb := hs[i], hs[j]
				m := intr(c, 0, 3, "hoist")
				if m&1 == 0 {
					ha = nil
				}
				if m&2 == 0 {
					hb = nil
				}
				what = fmt.Sprintf("hoisted mul (mask %d) %q@%d x %q@%d", m, a.IDs, a.Lvl, b.IDs, b.Lvl)
				checkMul(w, what, a, b, w.Eval.MulRelinHoistedNew(a.C, b.C, ha, hb, w.RLK), a.C.Scale, b.C.Scale)
				w.Unchanged(what, b)
				c.Class("C07 mul mask=%d", m)
				if a.Lvl != b.Lvl && m != 0 {
					c.Class("C07 hoisted form above operation level")
				}
			}
			uses++
			w.Unchanged(what, a)
			for q := range hs {
				if hx.HashHoisted(hs[q]) != hh[q] {
					c.Fatalf("%s: a hoisted form was modified (%v)", what, cfg)
				}
			}
			c.Sig("%s", what)
		}
		if w.HashKeys() != keys {
			c.Fatalf("hoisted operation modified a key (%v)", cfg)
		}
		if oneIn(c, 3, "refuse?") {
			k := intr(c, 1, h-1, "refused")
			if w.P.CRS[k] == nil {
				k += h * intr(c, -1, 1, "wrapr")
				mustPanic(c, fmt.Sprintf("hoisted rotation by the unregistered amount %d", k), func() { w.Eval.RotateHoistedNew(cts[0].C, k, hs[0], w.RTK) })
				w.Unchanged("refused hoisted rotation", cts[0])
				c.Class("C07 refusal")
			}
		}
		if uses >= 2 {
			c.Nontrivial()
		}
	})
}
