package props

import (
	"fmt"
	"math"
	"sort"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// circuit is the state of a random homomorphic computation.
type circuit struct {
	w    *hx.World
	c    *hx.Case
	pool []*hx.CT
	pts  []*ckks.Plaintext
	ptv  [][]complex128
	pth  []uint64
	keys uint64
	kpos map[string]bool
	ops  int
	muls int
	log  []string
}

func (s *circuit) pick(label string) *hx.CT {
	return s.pool[intr(s.c, 0, len(s.pool)-1, label)]
}

// settle checks non-interference with everything alive and adds the result.
func (s *circuit) settle(what string, o *hx.CT) {
	s.ops++
	s.log = append(s.log, what)
	s.w.Unchanged(what+": some live ciphertext", s.pool...)
	for i := range s.pts {
		if hx.HashPoly(1, s.pts[i].Value) != s.pth[i] {
			s.c.Fatalf("%s: an encoded message was modified (%v)", what, s.w.Cfg)
		}
	}
	if s.w.HashKeys() != s.keys {
		s.c.Fatalf("%s: a key or the common reference string was modified (%v)", what, s.w.Cfg)
	}
	if o == nil {
		return
	}
	if !s.w.Fits(hx.MaxV(o.V)+o.E+1e-3, o.C.Scale, o.Lvl) || o.E > math.Exp2(10) {
		// not representable any more: out of the modelled domain, shape only
		s.w.CheckShape(what, o)
		return
	}
	s.w.CheckShape(what, o)
	s.w.Compare(what, o, s.w.RefDecrypt(o.C))
	// sharing: writing into the result must not be visible anywhere else
	for id := range o.C.Value {
		o.C.Value[id].Coeffs[o.Lvl][0] ^= 1
	}
	s.w.Unchanged(what+": writing to the result", s.pool...)
	if s.w.HashKeys() != s.keys {
		s.c.Fatalf("%s: the result shares memory with a key (%v)", what, s.w.Cfg)
	}
	for id := range o.C.Value {
		o.C.Value[id].Coeffs[o.Lvl][0] ^= 1
	}
	o.Snap()
	if len(s.pool) < 7 {
		s.pool = append(s.pool, o)
	} else {
		s.pool[intr(s.c, 0, len(s.pool)-1, "replace")] = o
	}
}

func (s *circuit) join() {
	if len(s.w.Parties) >= 5 {
		return
	}
	id := fmt.Sprintf("late%d", len(s.w.Parties))
	p := s.w.Join(id)
	s.w.RLK.AddRelinearizationKey(s.w.KG.GenRelinearizationKey(p.SK, s.w.KG.GenSecretKey(id)))
	s.w.KG.GenDefaultRotationKeys(p.SK, s.w.RTK)
	s.w.CJK.AddConjugationKey(s.w.KG.GenConjugationKey(p.SK))
	s.keys = s.w.HashKeys()
	s.log = append(s.log, "join "+id)
}

func runCircuit(c *hx.Case, cfg hx.Cfg, maxParties, steps int, joins bool) {
	w := hx.NewWorld(c, cfg, hx.DrawK(c, maxParties))
	w.GenRLK()
	w.GenRot()
	w.GenConj()
	s := &circuit{w: w, c: c}
	s.keys = w.HashKeys()
	c.Sig("%v k=%d", cfg, len(w.Parties))
	n0 := intr(c, 1, 3, "initial")
	for i := 0; i < n0; i++ {
		p := w.Parties[intr(c, 0, len(w.Parties)-1, "owner")]
		s.pool = append(s.pool, w.Encrypt(w.DrawVec(lbl("x", i), 0), p, w.P.MaxLevel()))
	}
	if len(w.Parties) > 3 || oneIn(c, 3, "joint") {
		// one ciphertext of everybody
		s.pool = append(s.pool, w.EncryptJoint(w.DrawVec("joint", 0), w.Parties, w.P.MaxLevel()))
	}
	kinds := map[string]bool{}
	for st := 0; st < steps; st++ {
		op := intr(c, 0, 15, "op")
		if op == 13 && !joins {
			op = 3
		}
		switch op {
		case 0: // fresh encryption
			p := w.Parties[intr(c, 0, len(w.Parties)-1, "owner")]
			v := w.DrawVec(lbl("f", st), 0)
			ct := &hx.CT{V: v, E: w.FreshErr(hx.MaxV(v), w.P.Scale()), IDs: []string{p.ID}, Lvl: w.P.MaxLevel()}
			ct.C = w.Enc.EncryptMsgNew(msgOf(w, v), p.PK)
			s.settle("encrypt", ct)
			kinds["encrypt"] = true
		case 1, 2: // add, sub
			a, b := s.pick("a"), s.pick("b")
			if !hx.Compat(a.C.Scale, b.C.Scale) {
				continue
			}
			if op == 1 {
				s.settle("add", w.AddModel(a, b, w.Eval.AddNew(a.C, b.C), 1))
			} else {
				s.settle("sub", w.AddModel(a, b, w.Eval.SubNew(a.C, b.C), -1))
			}
			kinds["add"] = true
		case 3, 4, 5: // mul
			a, b := s.pick("a"), s.pick("b")
			var out *mkckks.Ciphertext
			if op == 5 {
				var ha, hb *mkrlwe.HoistedCiphertext
				if coin(c, "ha") {
					ha = w.Eval.HoistedForm(a.C)
				}
				if coin(c, "hb") {
					hb = w.Eval.HoistedForm(b.C)
				}
				out = w.Eval.MulRelinHoistedNew(a.C, b.C, ha, hb, w.RLK)
			} else {
				out = w.Eval.MulRelinNew(a.C, b.C, w.RLK)
			}
			o := w.MulModel(a, b, out)
			ws, wl := w.MulScale(a.C.Scale, b.C.Scale, minI(a.Lvl, b.Lvl))
			o.Lvl = wl
			if !relEq(out.Scale, ws) {
				c.Fatalf("mul: scale %v, want %v (%v)", out.Scale, ws, cfg)
			}
			s.muls++
			s.settle("mul", o)
			kinds["mul"] = true
		case 6: // rotate
			a := s.pick("a")
			k := drawRot(c, w, "rot")
			hops := 0
			for x := norm(k, 1<<(cfg.LogN-1)); x > 0; x /= 2 {
				hops += x & 1
			}
			o := &hx.CT{C: w.Eval.RotateNew(a.C, k, w.RTK), V: hx.RotV(a.V, k), IDs: a.IDs, Lvl: a.Lvl, E: a.E + w.RotErr(len(a.IDs), a.Lvl, hops, a.C.Scale)}
			s.settle("rotate", o)
			kinds["rotate"] = true
		case 7: // conjugate
			a := s.pick("a")
			o := &hx.CT{C: w.Eval.ConjugateNew(a.C, w.CJK), V: hx.ConjV(a.V), IDs: a.IDs, Lvl: a.Lvl, E: a.E + w.RotErr(len(a.IDs), a.Lvl, 1, a.C.Scale)}
			s.settle("conjugate", o)
			kinds["conjugate"] = true
		case 8: // plaintext multiplication
			if len(s.pts) == 0 || oneIn(c, 3, "newpt") {
				v := w.DrawVec(lbl("p", st), 0)
				pt := w.Enc.EncodeMsgNew(msgOf(w, v))
				s.pts, s.ptv, s.pth = append(s.pts, pt), append(s.ptv, v), append(s.pth, hx.HashPoly(1, pt.Value))
			} else if oneIn(c, 3, "re-encode") {
				i := intr(c, 0, len(s.pts)-1, "ptre")
				s.ptv[i] = w.DrawVec(lbl("pr", st), 0)
				ckks.NewEncoder(cfg.CKKS()).Encode(s.pts[i], s.ptv[i], w.P.LogSlots())
				s.pth[i] = hx.HashPoly(1, s.pts[i].Value)
			}
			i := intr(c, 0, len(s.pts)-1, "pt")
			a := s.pick("a")
			out := w.Eval.MulPtxtNew(a.C, s.pts[i])
			v := make([]complex128, len(a.V))
			for j := range v {
				v[j] = a.V[j] * s.ptv[i][j]
			}
			ws, wl := w.MulScale(a.C.Scale, s.pts[i].Scale, a.Lvl)
			ep := w.EncodeErr(hx.MaxV(s.ptv[i]), w.P.Scale())
			o := &hx.CT{C: out, V: v, IDs: a.IDs, Lvl: wl,
				E: a.E*(hx.MaxV(s.ptv[i])+ep) + hx.MaxV(a.V)*ep + w.RescaleErr(len(a.IDs), a.Lvl-wl, ws) + (hx.MaxV(v)+1)*math.Exp2(-42)}
			s.settle("mulptxt", o)
			kinds["mulptxt"] = true
		case 9: // constant, fresh receiver
			a := s.pick("a")
			k := float64(intr(c, -4, 4, "const"))
			out := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl, 1)
			w.Eval.MultByConst(a.C, k, out)
			v := make([]complex128, len(a.V))
			for j := range v {
				v[j] = a.V[j] * complex(k, 0)
			}
			s.settle("const", &hx.CT{C: out, V: v, IDs: a.IDs, Lvl: a.Lvl, E: a.E * math.Abs(k)})
			kinds["const"] = true
		case 10: // drop level / copy
			a := s.pick("a")
			n := intr(c, 0, a.Lvl, "drop")
			o := &hx.CT{V: a.V, E: a.E, IDs: a.IDs, Lvl: a.Lvl - n}
			if n == 0 {
				o.C = a.C.CopyNew()
			} else {
				o.C = w.Eval.DropLevelNew(a.C, n)
			}
			s.settle("drop", o)
			kinds["drop"] = true
		case 11: // rescale into a new ciphertext after a fractional constant
			a := s.pick("a")
			if a.Lvl == 0 {
				continue
			}
			k := rapid.Float64Range(-2, 2).Draw(c.T, "fconst")
			tmp := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl, 1)
			w.Eval.MultByConst(a.C, k, tmp)
			g := tmp.Scale / a.C.Scale
			v := make([]complex128, len(a.V))
			for j := range v {
				v[j] = a.V[j] * complex(k, 0)
			}
			e := a.E*(math.Abs(k)+2/g) + hx.MaxV(a.V)*(2/g+math.Abs(k)*math.Exp2(-51))
			m := &hx.CT{C: tmp, V: v, E: e, IDs: a.IDs, Lvl: a.Lvl}
			if !w.Fits(hx.MaxV(v)+e+1e-3, tmp.Scale, a.Lvl) {
				continue
			}
			m.Snap()
			s.settle("fconst", m)
			out, err := w.Eval.RescaleNew(tmp, w.P.Scale())
			if err != nil {
				c.Fatalf("rescale: %v (%v)", err, cfg)
			}
			nb, ws := w.RescaleModel(a.Lvl, tmp.Scale, w.P.Scale())
			s.settle("rescale", &hx.CT{C: out, V: v, IDs: a.IDs, Lvl: a.Lvl - nb, E: e + w.RescaleErr(len(a.IDs), nb, ws)})
			kinds["rescale"] = true
		case 12: // decrypt through the library
			a := s.pick("a")
			w.Compare("library decryption", a, w.Dec.Decrypt(a.C, w.SKs).Value)
			s.settle("decrypt", nil)
		case 13:
			s.join()
			kinds["join"] = true
		case 14: // change a live ciphertext in place
			i := intr(c, 0, len(s.pool)-1, "a")
			w.Mutate("mut", s.pool[i])
			a := s.pool[i]
			if !w.Fits(hx.MaxV(a.V)+a.E+1e-3, a.C.Scale, a.Lvl) {
				// no longer representable after the level drop
				s.pool[i] = w.Encrypt(w.DrawVec(lbl("mf", st), 0), w.Parties[0], w.P.MaxLevel())
				continue
			}
			s.settle("mutate", nil)
			w.Verify("change in place", a, false)
			kinds["mutate"] = true
		case 15: // a party replaces all its keys: the ciphertexts involving it are gone
			if !oneIn(c, 3, "rekey?") {
				continue
			}
			p := w.Rekey(intr(c, 0, len(w.Parties)-1, "who"))
			var keep []*hx.CT
			for _, a := range s.pool {
				if i := sort.SearchStrings(a.IDs, p.ID); i >= len(a.IDs) || a.IDs[i] != p.ID {
					keep = append(keep, a)
				}
			}
			s.pool = append(keep, w.Encrypt(w.DrawVec(lbl("rk", st), 0), p, w.P.MaxLevel()))
			s.keys = w.HashKeys()
			s.settle("rekey", nil)
			kinds["rekey"] = true
		}
	}
	for _, a := range s.pool {
		w.Compare("final library decryption", a, w.Dec.Decrypt(a.C, w.SKs).Value)
	}
	w.Unchanged("final decryption", s.pool...)
	c.Sig("%v", s.log)
	for k := range kinds {
		c.Class("op %s", k)
	}
	if s.ops >= 4 && len(kinds) >= 3 {
		c.Nontrivial()
	}
	if s.muls >= 2 {
		c.Class(">=2 muls")
	}
}

func minI(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// TestC10 : random circuits, all parties present from the start.
func TestC10(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinQ: 3, MaxQ: 7, MaxLogN: 6, Depth: true})
		runCircuit(c, cfg, 3, hx.Steps(c, 3, 18, 150, 250), false)
	})
}
