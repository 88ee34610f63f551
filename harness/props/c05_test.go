package props

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"pgregory.net/rapid"
	"verifharness/hx"
)

// drawRot draws a rotation amount: small, around multiples of the slot count, or anything.
func drawRot(c *hx.Case, w *hx.World, label string) int {
	h := 1 << (w.Cfg.LogN - 1)
	switch intr(c, 0, 5, label+"?") {
	case 4: // any int at all
		k := rapid.Int().Draw(c.T, label+".int")
		if coin(c, label+".far") {
			k = []int{math.MinInt64, math.MaxInt64}[intr(c, 0, 1, label+".end")]
			k -= k / 1000 * intr(c, 0, 3, label+".in")
		}
		c.Class("rotation by any int")
		return k
	case 0:
		return intr(c, -h, h, label)
	case 1:
		return h*intr(c, -3, 3, label+".m") + intr(c, -2, 2, label+".d")
	case 2:
		return intr(c, -1000000, 1000000, label)
	case 3:
		return 1 << uint(intr(c, 0, w.Cfg.LogN, label+".p"))
	default:
		return intr(c, 0, h-1, label)
	}
}

func norm(k, h int) int { return ((k % h) + h) % h }

// lowerOut draws an output ciphertext for one of the key switcher's entry points: same members,
// equal or lower level, holding old contents.
func lowerOut(c *hx.Case, w *hx.World, a *hx.CT) (*mkckks.Ciphertext, int) {
	lvl := intr(c, 0, a.Lvl, "outLevel")
	if coin(c, "sameLevel") {
		lvl = a.Lvl
	}
	out := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), lvl, a.C.Scale)
	if coin(c, "dirty") {
		for _, p := range out.Value {
			for i := range p.Coeffs {
				for j := range p.Coeffs[i] {
					p.Coeffs[i][j] = uint64(i*31+j*7+5) % w.P.RingQ().Modulus[i]
				}
			}
		}
	}
	return out, lvl
}

// TestC05 : rotations.
func TestC05(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxLogN: 7})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		h := 1 << (cfg.LogN - 1)
		c.Sig("%v k=%d", cfg, len(w.Parties))
		// default reference strings: every power of two below N/2
		for k := 1; k < h; k *= 2 {
			if _, ok := w.P.CRS[k]; !ok {
				c.Fatalf("no default common reference string for rotation by %d (%v)", k, cfg)
			}
		}
		var extra []int
		for i := intr(c, 0, 2, "extra"); i > 0; i-- {
			e := intr(c, 1, h-1, "extraIdx")
			if _, ok := w.P.CRS[e]; ok {
				continue
			}
			p := w.P // a copy of the parameters: registration is shared
			p.AddCRS(e)
			extra = append(extra, e)
		}
		w.GenRot(extra...)
		if len(extra) > 0 && oneIn(c, 3, "negkey") {
			// generating the key through the equivalent negative amount
			e := extra[0]
			k := w.KG.GenRotationKey(e-h, w.Parties[0].SK)
			if int(k.RotIdx) != e {
				c.Fatalf("key generated for rotation %d (= %d mod %d) is filed under %d (%v)", e-h, e, h, k.RotIdx, cfg)
			}
			w.RTK.AddRotationKey(k)
			c.Class("C05 negative key index")
		}
		keys := w.HashKeys()
		rounds := hx.Steps(c, 1, 4, 60, 400)
		var a *hx.CT
		for r := 0; r < rounds; r++ {
			w.Dirty(lbl("pre", r), 1)
			if oneIn(c, 6, "rekey?") {
				// a party starts over with new keys of the same name
				w.Rekey(intr(c, 0, len(w.Parties)-1, "rekeyed"))
				keys, a = w.HashKeys(), nil
				c.Class("C05 rekeyed")
			}
			if r > 0 && a != nil && coin(c, "again?") {
				w.Mutate(lbl("a", r), a)
			} else {
				a = w.DrawCT(lbl("a", r), 0, 0)
			}
			k := drawRot(c, w, lbl("rot", r))
			if len(extra) > 0 && oneIn(c, 3, "useExtra") {
				k = extra[intr(c, 0, len(extra)-1, "which")] + h*intr(c, -2, 2, "wrap")
			}
			nk := norm(k, h)
			hops := 0
			for x := nk; x > 0; x /= 2 {
				hops += x & 1
			}
			o := &hx.CT{C: w.Eval.RotateNew(a.C, k, w.RTK), V: hx.RotV(a.V, k), IDs: a.IDs, Lvl: a.Lvl}
			o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, hops, a.C.Scale)
			what := fmt.Sprintf("rotate %q@%d by %d (mod %d: %d, registered %v)", a.IDs, a.Lvl, k, h, nk, extra)
			if o.C.Scale != a.C.Scale {
				c.Fatalf("%s: scale changed from %v to %v (%v)", what, a.C.Scale, o.C.Scale, cfg)
			}
			w.Verify(what, o, true)
			w.Unchanged(what, a)
			// the key switcher's own entry point, for an amount with its own key
			if _, ok := w.P.CRS[nk]; ok && nk != 0 && coin(c, "direct") {
				out, lvl := lowerOut(c, w, a)
				in := nk
				if coin(c, "negdirect") {
					in -= h * intr(c, 1, 3, "negwrap")
				}
				ks := w.Switcher("ks", func(ks *mkrlwe.KeySwitcher) {
					junk := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl, 1)
					ks.Rotate(a.C.Ciphertext, 1, w.RTK, junk.Ciphertext)
				})
				ks.Rotate(a.C.Ciphertext, in, w.RTK, out.Ciphertext)
				d := &hx.CT{C: out, V: hx.RotV(a.V, nk), IDs: a.IDs, Lvl: lvl}
				d.E = a.E + w.RotErr(len(a.IDs), lvl, 1, a.C.Scale)
				if w.Fits(hx.MaxV(d.V)+d.E+1e-3, out.Scale, lvl) {
					w.Verify(what+fmt.Sprintf(" [key switcher, amount %d into level %d]", in, lvl), d, false)
				}
				w.Unchanged(what+" [key switcher]", a)
				c.Class("C05 key switcher")
			}
			// result independent of the operand object
			w.NoShare(what, o.C, a)
			switch {
			case k < 0:
				c.Class("C05 negative")
			case k >= h:
				c.Class("C05 wrapping")
			}
			if hops >= 2 {
				c.Class("C05 composed")
			}
			sort.Ints(extra)
			if i := sort.SearchInts(extra, nk); i < len(extra) && extra[i] == nk {
				c.Class("C05 registered index")
			}
			if nk != 0 && (hops >= 2 || len(a.IDs) >= 2 || a.Lvl < w.P.MaxLevel()) {
				c.Nontrivial()
			}
			c.Sig("%s", what)
		}
		if w.HashKeys() != keys {
			c.Fatalf("rotation modified a key (%v)", cfg)
		}
		if oneIn(c, 3, "missing?") {
			a := w.DrawCT("miss", 0, 0)
			k := 1 << uint(intr(c, 0, cfg.LogN-2, "missIdx"))
			id := a.IDs[intr(c, 0, len(a.IDs)-1, "missWho")]
			w.RTK.DelRotationKey(id, uint(k))
			mustPanic(c, fmt.Sprintf("rotation by %d without the key of %q", k, id), func() { w.Eval.RotateNew(a.C, k, w.RTK) })
			w.Unchanged("refused rotation", a)
			c.Class("C05 missing key refused")
			// an amount composed of several keys, one of which is missing: refused or still right
			if k2 := intr(c, 1, h-1, "missComposed"); k2 != k {
				nk := k2 | k
				var out *mkckks.Ciphertext
				if _, did := hx.Panics(func() { out = w.Eval.RotateNew(a.C, nk, w.RTK) }); !did {
					o := &hx.CT{C: out, V: hx.RotV(a.V, nk), IDs: a.IDs, Lvl: a.Lvl}
					o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, cfg.LogN, a.C.Scale)
					w.Verify(fmt.Sprintf("rotation by %d with the key of %q for %d missing", nk, id, k), o, false)
				}
				w.Unchanged("refused composed rotation", a)
			}
		}
		if len(extra) > 0 && coin(c, "dedicated only?") {
			// the dedicated keys alone are enough for a registered index
			e := extra[intr(c, 0, len(extra)-1, "dedicated")]
			set := mkrlwe.NewRotationKeySet()
			for _, p := range w.Parties {
				if coin(c, "regenerate") {
					set.AddRotationKey(w.KG.GenRotationKey(e, p.SK))
				} else {
					set.AddRotationKey(w.RTK.GetRotationKey(p.ID, uint(e)))
				}
			}
			a := w.DrawCT("ded", 0, 0)
			var out *mkckks.Ciphertext
			if v, did := hx.Panics(func() { out = w.Eval.RotateNew(a.C, e, set) }); did {
				c.Fatalf("rotation of %q@%d by the registered index %d with its dedicated keys fails: %v (%v)", a.IDs, a.Lvl, e, v, cfg)
			}
			o := &hx.CT{C: out, V: hx.RotV(a.V, e), IDs: a.IDs, Lvl: a.Lvl}
			o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, 1, a.C.Scale)
			w.Verify(fmt.Sprintf("rotation of %q@%d by the registered index %d with dedicated keys only", a.IDs, a.Lvl, e), o, true)
			c.Class("C05 dedicated keys only")
		}
		if oneIn(c, 3, "unregistered key?") {
			k := intr(c, 1, h-1, "unregistered")
			if _, ok := w.P.CRS[k]; !ok {
				mustPanic(c, fmt.Sprintf("generating a key for the unregistered rotation %d", k), func() { w.KG.GenRotationKey(k, w.Parties[0].SK) })
				c.Class("C05 unregistered refused")
			}
		}
	})
}

// TestC06 : conjugation.
func TestC06(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 4))
		w.GenConj()
		c.Sig("%v k=%d", cfg, len(w.Parties))
		keys := w.HashKeys()
		rounds := hx.Steps(c, 1, 3, 50, 400)
		var a *hx.CT
		for r := 0; r < rounds; r++ {
			w.Dirty(lbl("pre", r), 1)
			if oneIn(c, 6, "rekey?") {
				// a party starts over with new keys of the same name
				w.Rekey(intr(c, 0, len(w.Parties)-1, "rekeyed"))
				keys, a = w.HashKeys(), nil
				c.Class("C06 rekeyed")
			}
			if r > 0 && a != nil && coin(c, "again?") {
				w.Mutate(lbl("a", r), a)
			} else {
				a = w.DrawCT(lbl("a", r), 0, 0)
			}
			what := fmt.Sprintf("conjugate %q@%d", a.IDs, a.Lvl)
			cur := a
			for n := intr(c, 1, 3, "times"); n > 0; n-- {
				o := &hx.CT{C: w.Eval.ConjugateNew(cur.C, w.CJK), V: hx.ConjV(cur.V), IDs: a.IDs, Lvl: a.Lvl}
				o.E = cur.E + w.RotErr(len(a.IDs), a.Lvl, 1, a.C.Scale)
				if o.C.Scale != a.C.Scale {
					c.Fatalf("%s: scale changed (%v)", what, cfg)
				}
				w.Verify(what, o, true)
				w.Unchanged(what, cur)
				w.NoShare(what, o.C, cur)
				cur = o.Snap()
			}
			if coin(c, "direct") {
				out, lvl := lowerOut(c, w, a)
				ks := w.Switcher("ks", func(ks *mkrlwe.KeySwitcher) {
					junk := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl, 1)
					ks.Conjugate(a.C.Ciphertext, w.CJK, junk.Ciphertext)
				})
				ks.Conjugate(a.C.Ciphertext, w.CJK, out.Ciphertext)
				d := &hx.CT{C: out, V: hx.ConjV(a.V), IDs: a.IDs, Lvl: lvl}
				d.E = a.E + w.RotErr(len(a.IDs), lvl, 1, a.C.Scale)
				if w.Fits(hx.MaxV(d.V)+d.E+1e-3, out.Scale, lvl) {
					w.Verify(what+fmt.Sprintf(" [key switcher, into level %d]", lvl), d, false)
				}
				w.Unchanged(what+" [key switcher]", a)
				c.Class("C06 key switcher")
			}
			if a.Lvl < w.P.MaxLevel() {
				c.Class("C06 below top level")
			}
			if a.Lvl < w.P.MaxLevel() || len(a.IDs) >= 2 {
				c.Nontrivial()
			}
			c.Sig("%s", what)
		}
		if w.HashKeys() != keys {
			c.Fatalf("conjugation modified a key (%v)", cfg)
		}
		if oneIn(c, 3, "missing?") {
			a := w.DrawCT("miss", 0, 0)
			id := a.IDs[intr(c, 0, len(a.IDs)-1, "missWho")]
			w.CJK.DelConjugationKey(id)
			mustPanic(c, fmt.Sprintf("conjugation without the key of %q", id), func() { w.Eval.ConjugateNew(a.C, w.CJK) })
			w.Unchanged("refused conjugation", a)
			c.Class("C06 missing key refused")
		}
	})
}
