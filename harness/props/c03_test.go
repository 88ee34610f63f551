package props

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"verifharness/hx"
)

// TestC03 : addition and subtraction.
func TestC03(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 4))
		c.Sig("%v k=%d", cfg, len(w.Parties))
		rounds := hx.Steps(c, 1, 3, 50, 400)
		for r := 0; r < rounds; r++ {
			w.Dirty(lbl("pre", r), 1)
			a := w.DrawCT(lbl("a", r), 0, 0)
			b := a
			if !oneIn(c, 6, "self?") {
				b = w.DrawCT(lbl("b", r), 0, 0)
				if oneIn(c, 6, "padded?") {
					b = w.Padded("b", a)
				}
			}
			// scale relation: equal, integer multiple, or nearly equal
			rel := intr(c, 0, 4, "rel")
			lvl := a.Lvl
			if b.Lvl < lvl {
				lvl = b.Lvl
			}
			k := 1
			if b != a && rel >= 3 {
				kmax := math.Min(1000, math.Exp2(w.QBits(lvl)-math.Log2(w.P.Scale())-6))
				if kmax < 2 {
					kmax = 2
				}
				k = intr(c, 2, int(kmax), "ratio")
				x := a
				if rel == 4 {
					x = b
				}
				// reinterpret at a scale k times larger: the message shrinks by k
				x.C.Scale *= float64(k)
				nv := make([]complex128, len(x.V))
				for j := range nv {
					nv[j] = x.V[j] / complex(float64(k), 0)
				}
				x.V, x.E = nv, x.E/float64(k)
				x.Snap()
				c.Class("C03 integer ratio")
			} else if b != a && rel == 2 {
				eps := 1 + float64(intr(c, 1, 1000, "eps"))*1e-9
				b.C.Scale *= eps
				nv := make([]complex128, len(b.V))
				for j := range nv {
					nv[j] = b.V[j] / complex(eps, 0)
				}
				b.V = nv
				b.Snap()
				c.Class("C03 nearly equal scales")
			}
			sign := 1.0
			op := "add"
			if coin(c, "sub?") {
				sign, op = -1, "sub"
			}
			pa := hx.Phase(w.P.Parameters, a.C.Ciphertext, w.Secrets())
			pb := hx.Phase(w.P.Parameters, b.C.Ciphertext, w.Secrets())
			s0, s1 := a.C.Scale, b.C.Scale
			var o *hx.CT
			if sign > 0 {
				o = w.AddModel(a, b, w.Eval.AddNew(a.C, b.C), 1)
			} else {
				o = w.AddModel(a, b, w.Eval.SubNew(a.C, b.C), -1)
			}
			what := fmt.Sprintf("%s %q@%d*%g %q@%d*%g", op, a.IDs, a.Lvl, s0, b.IDs, b.Lvl, s1)
			w.Unchanged(what, a, b)
			if want := math.Max(s0, s1); o.C.Scale != want {
				c.Fatalf("%s: result scale %v, want %v (%v)", what, o.C.Scale, want, cfg)
			}
			w.CheckShape(what, o)
			// exact phase relation: no noise at all
			ka, kb := big.NewInt(1), big.NewInt(1)
			if s0 > s1 {
				kb.SetInt64(int64(math.Floor(s0 / s1)))
			} else if s1 > s0 {
				ka.SetInt64(int64(math.Floor(s1 / s0)))
			}
			po := hx.Phase(w.P.Parameters, o.C.Ciphertext, w.Secrets())
			Q := hx.QAt(w.P.RingQ(), lvl)
			for j := range po {
				e := new(big.Int).Mul(pa[j], ka)
				f := new(big.Int).Mul(pb[j], kb)
				if sign > 0 {
					e.Add(e, f)
				} else {
					e.Sub(e, f)
				}
				e.Sub(e, po[j])
				if e.Mod(e, Q).Sign() != 0 {
					c.Fatalf("%s: decryption phase is not the exact %s of the operands' phases at coefficient %d (%v)", what, op, j, cfg)
				}
			}
			w.Verify(what, o, true)
			w.Unchanged(what, a, b)
			w.NoShare(what, o.C, a, b)
			inter := len(a.IDs) + len(b.IDs) - len(o.IDs)
			switch {
			case b == a:
				c.Class("C03 self")
			case inter == 0:
				c.Class("C03 disjoint")
			case len(o.IDs) > inter:
				c.Class("C03 partial overlap")
			}
			if a.Lvl != b.Lvl {
				c.Class("C03 level mismatch")
			}
			if a != b && (a.Lvl != b.Lvl || len(o.IDs) > inter || k > 1) {
				c.Nontrivial()
			}
			c.Sig("%s", what)
		}
	})
}
