package props

import (
	"fmt"
	"math"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"verifharness/hx"
)

// TestC09Rescale : rescaling.
func TestC09Rescale(t *testing.T) {
	hx.Check(t, 1.5, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinQ: 1})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		c.Sig("%v k=%d", cfg, len(w.Parties))
		for r := hx.Steps(c, 1, 3, 60, 400); r > 0; r-- {
			w.Dirty(lbl("pre", r), 1)
			a := w.DrawCT(lbl("a", r), 0, 0)
			// reinterpret the ciphertext at a larger scale so that there is something to remove
			f := 1.0
			if !oneIn(c, 4, "plain?") {
				f = math.Exp2(rapid.Float64Range(0, math.Max(1, w.QBits(a.Lvl)-math.Log2(w.P.Scale()))).Draw(c.T, "factor"))
				// multiply the encrypted values accordingly (exact integer multiplication), keeping message = V
				fi := new(big.Int)
				new(big.Float).SetFloat64(math.Floor(f)).Int(fi)
				for id := range a.C.Value {
					w.P.RingQ().MulScalarBigintLvl(a.Lvl, a.C.Value[id], fi, a.C.Value[id])
				}
				f = math.Floor(f)
				a.C.Scale *= f
				a.Snap()
			}
			min := w.P.Scale()
			switch intr(c, 0, 4, "min?") {
			case 4:
				// exactly on (or next to) the boundary of removing one modulus; scale and minimum
				// are such that any way of computing the quotient is exact
				if q := w.P.RingQ().Modulus[a.Lvl]; q < 1<<53 {
					t := math.Exp2(float64(intr(c, 5, 40, "log2 remaining")))
					s := float64(q) * t
					a.V = scaleV(a.V, a.C.Scale/s)
					a.E *= a.C.Scale / s
					a.C.Scale = s
					a.Snap()
					min = 2 * t * (1 + math.Exp2(-20)*float64(intr(c, -1, 1, "off")))
					c.Class("C09 boundary of the minimum scale")
				}
			case 0:
				min = math.Exp2(rapid.Float64Range(-10, 70).Draw(c.T, "min"))
			case 1:
				min = a.C.Scale * rapid.Float64Range(0.1, 4).Draw(c.T, "minrel")
			}
			s0 := a.C.Scale
			pa := hx.Phase(w.P.Parameters, a.C.Ciphertext, w.Secrets())
			variant := intr(c, 0, 2, "variant")
			what := fmt.Sprintf("rescale %q@%d scale 2^%.2f min 2^%.2f variant %d", a.IDs, a.Lvl, math.Log2(s0), math.Log2(min), variant)
			// error cases
			bad := intr(c, 0, 9, "bad")
			if bad == 0 || bad == 1 || a.Lvl == 0 {
				switch {
				case a.Lvl == 0:
				case bad == 0:
					min = -math.Abs(min) * float64(intr(c, 0, 1, "zeromin"))
				case bad == 1:
					a.C.Scale = 0
					a.Snap()
				}
				var err error
				if variant == 0 {
					_, err = w.Eval.RescaleNew(a.C, min)
				} else {
					err = w.Eval.Rescale(a.C, min, a.C)
				}
				if err == nil {
					c.Fatalf("%s: no error for level %d, scale %v, minimum %v (%v)", what, a.Lvl, a.C.Scale, min, cfg)
				}
				w.Unchanged(what+" (rejected)", a)
				c.Class("C09 error case")
				continue
			}
			nb, ws := w.RescaleModel(a.Lvl, s0, min)
			var out *mkckks.Ciphertext
			var err error
			switch variant {
			case 0:
				out, err = w.Eval.RescaleNew(a.C, min)
			case 1:
				out = a.C
				err = w.Eval.Rescale(a.C, min, a.C)
			default:
				out = mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl, 1)
				err = w.Eval.Rescale(a.C, min, out)
			}
			if err != nil {
				c.Fatalf("%s: unexpected error %v (%v)", what, err, cfg)
			}
			if variant != 1 {
				w.Unchanged(what, a)
			}
			if !relEq(out.Scale, ws) {
				c.Fatalf("%s: scale 2^%.3f, want 2^%.3f after removing %d moduli (%v)", what, math.Log2(out.Scale), math.Log2(ws), nb, cfg)
			}
			o := &hx.CT{C: out, V: a.V, E: a.E + w.RescaleErr(len(a.IDs), nb, ws), IDs: a.IDs, Lvl: a.Lvl - nb}
			w.CheckShape(what, o)
			if variant != 1 {
				w.NoShare(what, out, a)
			}
			// phase relation on the integers: |D*phase_out - phase_in| small modulo Q, for any scale
			D := big.NewInt(1)
			for i := 0; i < nb; i++ {
				D.Mul(D, new(big.Int).SetUint64(w.P.RingQ().Modulus[a.Lvl-i]))
			}
			po := hx.Phase(w.P.Parameters, out.Ciphertext, w.Secrets())
			Q := hx.QAt(w.P.RingQ(), a.Lvl)
			lim := new(big.Int).Mul(D, big.NewInt(int64(float64(len(a.IDs))*w.N()+2)))
			for j := range po {
				d := new(big.Int).Mul(po[j], D)
				d.Sub(d, pa[j])
				hx.Center([]*big.Int{d}, Q)
				if nb == 0 && d.Sign() != 0 || d.CmpAbs(lim) > 0 {
					c.Fatalf("%s: decryption phase is not the rounded quotient (coefficient %d, removed %d moduli, %v)", what, j, nb, cfg)
				}
			}
			if w.Fits(hx.MaxV(o.V)+o.E+1e-3, ws, o.Lvl) && w.Fits(hx.MaxV(o.V)+a.E+1e-3, s0, a.Lvl) {
				w.Verify(what, o, true)
			}
			c.Class("C09 removed=%d", nb)
			if nb != 1 {
				c.Nontrivial()
			}
			if a.Lvl < w.P.MaxLevel() {
				c.Nontrivial()
			}
			c.Sig("%s", what)
		}
	})
}

// TestC09Drop : level dropping.
func TestC09Drop(t *testing.T) {
	hx.Check(t, 0.5, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		a := w.DrawCT("a", 0, 0)
		cur := a
		c.Sig("%v %q@%d", cfg, a.IDs, a.Lvl)
		for r := hx.Steps(c, 1, 3, 60, 400); r > 0; r-- {
			n := intr(c, 0, cur.Lvl, "levels")
			o := &hx.CT{V: a.V, E: a.E, IDs: a.IDs, Lvl: cur.Lvl - n}
			inplace := coin(c, "inplace")
			if inplace {
				o.C = cur.C.CopyNew()
				w.Eval.DropLevel(o.C, n)
			} else {
				o.C = w.Eval.DropLevelNew(cur.C, n)
			}
			w.Unchanged("level drop", cur)
			if o.C.Scale != a.C.Scale {
				c.Fatalf("level drop changed the scale (%v)", cfg)
			}
			w.Verify(fmt.Sprintf("drop %d levels from %d", n, cur.Lvl), o, true)
			// independence of the returned ciphertext
			w.NoShare("level drop", o.C, cur)
			if n > 0 {
				c.Nontrivial()
			}
			c.Sig("%d", n)
			cur = o.Snap()
		}
	})
}

func scaleV(v []complex128, k float64) []complex128 {
	o := make([]complex128, len(v))
	for j := range v {
		o[j] = v[j] * complex(k, 0)
	}
	return o
}
