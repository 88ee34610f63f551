package props

import (
	"fmt"
	"math"
	"math/cmplx"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"verifharness/hx"
)

// TestC08Ptxt : plaintext multiplication.
func TestC08Ptxt(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxQ: 6, Depth: coin(c, "depth")})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		c.Sig("%v k=%d", cfg, len(w.Parties))
		pv := w.DrawVec("p", 0)
		var pt *ckks.Plaintext
		ptl := w.P.MaxLevel()
		own := oneIn(c, 3, "own scale")
		if own {
			// caller-encoded plaintext with its own scale and level
			ptl = intr(c, 0, w.P.MaxLevel(), "ptlevel")
			pt = ckks.NewPlaintext(cfg.CKKS(), ptl, math.Exp2(float64(intr(c, 25, 45, "ptscale"))))
			ckks.NewEncoder(cfg.CKKS()).Encode(pt, pv, w.P.LogSlots())
		} else {
			pt = w.Enc.EncodeMsgNew(msgOf(w, pv))
		}
		ph := hx.HashPoly(1, pt.Value)
		ps := pt.Scale
		for r, first := hx.Steps(c, 1, 3, 60, 400), true; r > 0; r, first = r-1, false {
			w.Dirty(lbl("pre", r), 1)
			if !first && coin(c, "re-encode") {
				// another message encoded into the same object
				pv = w.DrawVec(lbl("p", r), 0)
				ckks.NewEncoder(cfg.CKKS()).Encode(pt, pv, w.P.LogSlots())
				ph = hx.HashPoly(1, pt.Value)
				c.Class("C08 ptxt re-encoded")
			}
			a := w.DrawCT(lbl("a", r), 0, 0)
			if a.Lvl > ptl {
				a = w.DropTo(a, ptl)
			}
			what := fmt.Sprintf("plaintext mul %q@%d pt@%d scale %g", a.IDs, a.Lvl, ptl, pt.Scale)
			out := w.Eval.MulPtxtNew(a.C, pt)
			w.Unchanged(what, a)
			if hx.HashPoly(1, pt.Value) != ph || pt.Scale != ps {
				c.Fatalf("%s: the encoded message was modified (%v)", what, cfg)
			}
			ws, wl := w.MulScale(a.C.Scale, pt.Scale, a.Lvl)
			if !relEq(out.Scale, ws) {
				c.Fatalf("%s: result scale %v, want %v (%v)", what, out.Scale, ws, cfg)
			}
			v := make([]complex128, len(pv))
			for j := range v {
				v[j] = pv[j] * a.V[j]
			}
			ep := w.EncodeErr(hx.MaxV(pv), pt.Scale)
			e := a.E*(hx.MaxV(pv)+ep) + hx.MaxV(a.V)*ep + w.RescaleErr(len(a.IDs), a.Lvl-wl, ws) + math.Exp2(-42)
			o := &hx.CT{C: out, V: v, E: e, IDs: a.IDs, Lvl: wl}
			if w.Fits(hx.MaxV(v)+e+1e-3, ws, wl) {
				w.Verify(what, o, true)
				w.NoShare(what, out, a)
				c.Class("C08 ptxt value")
			} else {
				w.CheckShape(what, o)
				c.Class("C08 ptxt shape only")
			}
			if a.Lvl < w.P.MaxLevel() || own || len(a.IDs) >= 2 {
				c.Nontrivial()
			}
			c.Sig("%s", what)
		}
	})
}

// TestC08Const : constant multiplication.
func TestC08Const(t *testing.T) {
	hx.Check(t, 1.5, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		c.Sig("%v k=%d", cfg, len(w.Parties))
		w.Dirty("pre", 1)
		a := w.DrawCT("a", 0, 0)
		lvl := a.Lvl
		// receiver: in place, or another ciphertext of equal or lower level, or higher level
		recv := intr(c, 0, 3, "receiver")
		outLvl := lvl
		var out *mkckks.Ciphertext
		switch recv {
		case 0:
			out = a.C
		case 1:
			out = mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), lvl, 1)
		default:
			outLvl = intr(c, 0, lvl, "outLevel")
			out = mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), outLvl, 1)
		}
		// a receiver with previous contents
		if recv == 3 {
			for id := range out.Value {
				for i := range out.Value[id].Coeffs {
					for j := range out.Value[id].Coeffs[i] {
						out.Value[id].Coeffs[i][j] = uint64(i + 3*j + 1)
					}
				}
			}
		}
		room := math.Max(1, w.QBits(outLvl)-math.Log2(w.P.Scale())-4)
		bound := math.Floor(math.Exp2(math.Min(room, 62)))
		huge := math.Floor(math.Exp2(math.Min(room, 100)))
		big := false // only the floating point types reach beyond 63 bits
		integer := func(label string) float64 {
			switch intr(c, 0, 4, label+"?") {
			case 0:
				return float64(intr(c, -3, 3, label))
			case 1:
				// logarithmic in magnitude, up to the largest constant that can be judged
				e := math.Log2(bound)
				if big {
					e = math.Log2(huge)
				}
				x := math.Trunc(math.Exp2(rapid.Float64Range(0, e).Draw(c.T, label+".log")))
				if coin(c, label+".neg") {
					x = -x
				}
				return x
			default:
				return math.Trunc(rapid.Float64Range(-bound, bound).Draw(c.T, label))
			}
		}
		frac := func(label string) float64 {
			switch intr(c, 0, 3, label+"?") {
			case 3: // a few units of the fixed-point representation, where its rounding decides
				x := rapid.Float64Range(-40, 40).Draw(c.T, label+".units")
				return x / float64(w.P.RingQ().Modulus[outLvl])
			case 0:
				return rapid.Float64Range(-1, 1).Draw(c.T, label)
			case 1:
				return integer(label + ".i")
			default:
				return rapid.Float64Range(-8, 8).Draw(c.T, label)
			}
		}
		var k interface{}
		var kc complex128
		typ := intr(c, 0, 6, "type")
		big = typ >= 3
		switch typ {
		case 0:
			x := uint64(math.Abs(integer("u")))
			if oneIn(c, 3, "u64") && room >= 64 {
				x = rapid.Uint64().Draw(c.T, "u64")
			}
			k, kc = x, complex(float64(x), 0)
		case 1:
			x := int64(integer("i"))
			k, kc = x, complex(float64(x), 0)
		case 2:
			x := int(integer("n"))
			k, kc = x, complex(float64(x), 0)
		case 3:
			x := integer("fi")
			k, kc = x, complex(x, 0)
		case 4:
			x := frac("f")
			k, kc = x, complex(x, 0)
		case 5:
			kc = complex(integer("cr"), integer("ci"))
			k = kc
		default:
			kc = complex(frac("zr"), frac("zi"))
			k = kc
		}
		integral := real(kc) == math.Trunc(real(kc)) && imag(kc) == math.Trunc(imag(kc))
		wantScale := a.C.Scale
		g := 1.0
		if !integral {
			g = float64(w.P.RingQ().Modulus[outLvl])
			wantScale *= g
		}
		s0 := a.C.Scale
		what := fmt.Sprintf("const mul %q@%d by %T(%v) receiver %d@%d", a.IDs, lvl, k, k, recv, outLvl)
		w.Eval.MultByConst(a.C, k, out)
		if recv != 0 {
			w.Unchanged(what, a)
		} else if a.C.Level() != lvl {
			c.Fatalf("%s: level changed (%v)", what, cfg)
		}
		if !relEq(out.Scale, wantScale) {
			c.Fatalf("%s: scale %v, want %v (input scale %v, %v)", what, out.Scale, wantScale, s0, cfg)
		}
		v := make([]complex128, len(a.V))
		for j := range v {
			v[j] = a.V[j] * kc
		}
		// rounding of the scaled constant: half a unit per part, plus float precision
		dk := 0.0
		if !integral {
			dk = 0.501/g + cmplx.Abs(kc)*math.Exp2(-51)
			if imag(kc) != 0 {
				dk *= math.Sqrt2
			}
		}
		e := a.E*(cmplx.Abs(kc)*1.5+dk) + hx.MaxV(a.V)*dk*1.0001
		o := &hx.CT{C: out, V: v, E: e, IDs: a.IDs, Lvl: outLvl}
		// judge the decrypted value only where value*scale fits below the modulus
		mag := hx.MaxV(v) + e + a.E*cmplx.Abs(kc)
		if w.Fits(mag+1e-3, wantScale, outLvl) {
			w.Verify(what, o, true)
			c.Class("C08 const value")
			if cmplx.Abs(kc) > 0 && hx.MaxV(a.V) > 0 {
				c.Nontrivial()
			}
		} else {
			w.CheckShape(what, o)
			c.Class("C08 const shape only")
		}
		if imag(kc) != 0 {
			c.Class("C08 const complex")
		}
		if cmplx.Abs(kc) >= math.Exp2(63) {
			c.Class("C08 const >= 2^63")
		}
		c.Class("C08 const type=%T integral=%v", k, integral)
		c.Sig("%s", what)
	})
}
