package props

import (
	"fmt"
	"math"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// refusals is the state of a history in which calls are refused.
type refusals struct {
	w    *hx.World
	c    *hx.Case
	pool []*hx.CT
	hs   []*mkrlwe.HoistedCiphertext // of pool[i]
	hh   []uint64
	keys uint64
}

func (s *refusals) same(what string) {
	s.w.Unchanged(what, s.pool...)
	for i := range s.hs {
		if hx.HashHoisted(s.hs[i]) != s.hh[i] {
			s.c.Fatalf("%s: a hoisted form was modified (%v)", what, s.w.Cfg)
		}
	}
	if s.w.HashKeys() != s.keys {
		s.c.Fatalf("%s: a key, a key set or the common reference string was modified (%v)", what, s.w.Cfg)
	}
}

// refused runs a call that cannot succeed; must demands that it fails, otherwise a call without
// effect is as good.
func (s *refusals) refused(what string, must bool, f func()) {
	s.keys = s.w.HashKeys()
	_, did := hx.Panics(f)
	if must && !did {
		s.c.Fatalf("%s: expected a refusal (panic), but the call returned normally (%v)", what, s.w.Cfg)
	}
	s.same("refused " + what)
}

func (s *refusals) add(a *hx.CT) {
	a.Snap()
	h := s.w.Eval.HoistedForm(a.C)
	if len(s.pool) < 4 {
		s.pool, s.hs, s.hh = append(s.pool, a), append(s.hs, h), append(s.hh, hx.HashHoisted(h))
		return
	}
	i := intr(s.c, 0, len(s.pool)-1, "replace")
	s.pool[i], s.hs[i], s.hh[i] = a, h, hx.HashHoisted(h)
}

// call is one operation with all it needs: fetch removes a needed key and returns how to put it back.
type call struct {
	what string
	run  func() *hx.CT
	take func() (what string, undo func())
}

func (s *refusals) member(a *hx.CT) string { return a.IDs[intr(s.c, 0, len(a.IDs)-1, "member")] }

func (s *refusals) draw(label string) call {
	w, c := s.w, s.c
	i := intr(c, 0, len(s.pool)-1, label+".a")
	a := s.pool[i]
	h := 1 << (w.Cfg.LogN - 1)
	takeRot := func(hops []int) (string, func()) {
		id, k := s.member(a), uint(hops[intr(c, 0, len(hops)-1, "hop")])
		key := w.RTK.GetRotationKey(id, k)
		w.RTK.DelRotationKey(id, k)
		return fmt.Sprintf("rotation key %d of %q", k, id), func() { w.RTK.AddRotationKey(key) }
	}
	switch intr(c, 0, 6, label+".op") {
	case 0: // rotation, several hops
		k := drawRot(c, w, label+".rot")
		nk := norm(k, h)
		if nk == 0 {
			k, nk = 1, 1
		}
		var hops []int
		for b := 1; b <= nk; b *= 2 {
			if nk&b != 0 {
				hops = append(hops, b)
			}
		}
		return call{fmt.Sprintf("rotate %q@%d by %d", a.IDs, a.Lvl, k), func() *hx.CT {
			o := &hx.CT{C: w.Eval.RotateNew(a.C, k, w.RTK), V: hx.RotV(a.V, k), IDs: a.IDs, Lvl: a.Lvl}
			o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, len(hops), a.C.Scale)
			return o
		}, func() (string, func()) { return takeRot(hops) }}
	case 1: // hoisted rotation
		k := 1 << uint(intr(c, 0, w.Cfg.LogN-2, label+".pow"))
		return call{fmt.Sprintf("hoisted rotate %q@%d by %d", a.IDs, a.Lvl, k), func() *hx.CT {
			o := &hx.CT{C: w.Eval.RotateHoistedNew(a.C, k, s.hs[i], w.RTK), V: hx.RotV(a.V, k), IDs: a.IDs, Lvl: a.Lvl}
			o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, 1, a.C.Scale)
			return o
		}, func() (string, func()) { return takeRot([]int{k}) }}
	case 2: // conjugation
		return call{fmt.Sprintf("conjugate %q@%d", a.IDs, a.Lvl), func() *hx.CT {
			o := &hx.CT{C: w.Eval.ConjugateNew(a.C, w.CJK), V: hx.ConjV(a.V), IDs: a.IDs, Lvl: a.Lvl}
			o.E = a.E + w.RotErr(len(a.IDs), a.Lvl, 1, a.C.Scale)
			return o
		}, func() (string, func()) {
			id := s.member(a)
			key := w.CJK.GetConjugationKey(id)
			w.CJK.DelConjugationKey(id)
			return fmt.Sprintf("conjugation key of %q", id), func() { w.CJK.AddConjugationKey(key) }
		}}
	case 3, 4: // product
		j := intr(c, 0, len(s.pool)-1, label+".b")
		b := s.pool[j]
		hoist := intr(c, 0, 3, label+".hoist")
		return call{fmt.Sprintf("mul (mask %d) %q@%d x %q@%d", hoist, a.IDs, a.Lvl, b.IDs, b.Lvl), func() *hx.CT {
			var out *mkckks.Ciphertext
			var ha, hb *mkrlwe.HoistedCiphertext
			if hoist&1 != 0 {
				ha = s.hs[i]
			}
			if hoist&2 != 0 {
				hb = s.hs[j]
			}
			if hoist == 0 {
				out = w.Eval.MulRelinNew(a.C, b.C, w.RLK)
			} else {
				out = w.Eval.MulRelinHoistedNew(a.C, b.C, ha, hb, w.RLK)
			}
			o := w.MulModel(a, b, out)
			_, o.Lvl = w.MulScale(a.C.Scale, b.C.Scale, minI(a.Lvl, b.Lvl))
			return o
		}, func() (string, func()) {
			ids := hx.Union(a.IDs, b.IDs)
			id := ids[intr(c, 0, len(ids)-1, "member")]
			key := w.RLK.GetRelinearizationKey(id)
			w.RLK.DelRelinearizationKey(id)
			return fmt.Sprintf("relinearisation key of %q", id), func() { w.RLK.AddRelinearizationKey(key) }
		}}
	default: // joint decryption; the result is the ciphertext itself
		generic := coin(c, label+".generic")
		return call{fmt.Sprintf("decrypt %q@%d", a.IDs, a.Lvl), func() *hx.CT {
			if generic {
				pt := ckks.NewPlaintext(w.Cfg.CKKS(), a.Lvl, a.C.Scale)
				pt.Value.IsNTT = coin(c, label+".ntt")
				w.Dec.Decryptor.Decrypt(a.C.Ciphertext, w.SKs, pt.Plaintext)
				w.Compare("generic decryption", a, ckks.NewEncoder(w.Cfg.CKKS()).Decode(pt, w.P.LogSlots()))
				return nil
			}
			w.Compare("library decryption", a, w.Dec.Decrypt(a.C, w.SKs).Value)
			return nil
		}, func() (string, func()) {
			id := s.member(a)
			key := w.SKs.GetSecretKey(id)
			w.SKs.DelSecretKey(id)
			return fmt.Sprintf("secret key of %q", id), func() { w.SKs.AddSecretKey(key) }
		}}
	}
}

func (s *refusals) good(what string, o *hx.CT) {
	s.same(what)
	if o == nil {
		return
	}
	if !s.w.Fits(hx.MaxV(o.V)+o.E+1e-3, o.C.Scale, o.Lvl) || o.E > math.Exp2(10) {
		s.w.CheckShape(what, o)
		return
	}
	s.w.Verify(what, o, false)
	if coin(s.c, "keep") {
		s.add(o)
	}
}

// invalid makes one call with an argument that cannot be served.
func (s *refusals) invalid() string {
	w, c := s.w, s.c
	h := 1 << (w.Cfg.LogN - 1)
	i := intr(c, 0, len(s.pool)-1, "inv.a")
	a := s.pool[i]
	kind := intr(c, 0, 9, "invalid")
	switch kind {
	case 0: // rescaling
		ms := []float64{0, -1, -w.P.Scale(), math.Inf(-1)}[intr(c, 0, 3, "minScale")]
		var err error
		if coin(c, "new") {
			s.refused("rescale", false, func() { _, err = w.Eval.RescaleNew(a.C, ms) })
		} else {
			s.refused("rescale", false, func() { err = w.Eval.Rescale(a.C, ms, a.C) })
		}
		if err == nil {
			c.Fatalf("rescale with minimum scale %v reported no error (%v)", ms, w.Cfg)
		}
	case 1: // rescaling at level 0 or with scale 0
		z := w.DropTo(a, 0)
		if coin(c, "zero scale") {
			z = &hx.CT{C: a.C.CopyNew(), IDs: a.IDs, V: a.V}
			z.C.Scale = 0
		}
		z.Snap()
		var err error
		if coin(c, "new") {
			_, err = w.Eval.RescaleNew(z.C, w.P.Scale())
		} else {
			err = w.Eval.Rescale(z.C, w.P.Scale(), z.C)
		}
		if err == nil {
			c.Fatalf("rescale at level %d, scale %v reported no error (%v)", z.C.Level(), z.C.Scale, w.Cfg)
		}
		w.Unchanged("refused rescale", z)
	case 2: // dropping more levels than there are
		n := a.Lvl + 2 + intr(c, 0, 3, "excess")
		if coin(c, "new") {
			s.refused("level drop", true, func() { w.Eval.DropLevelNew(a.C, n) })
		} else {
			s.refused("level drop", true, func() { w.Eval.DropLevel(a.C, n) })
		}
	case 3: // contribution of somebody not involved
		sk := w.KG.GenSecretKey("nobody")
		s.refused("partial decryption by a non-member", false, func() { w.Dec.PartialDecrypt(a.C, sk) })
	case 4: // rotation without reference string
		k := intr(c, 1, h-1, "unregistered")
		if w.P.CRS[k] != nil {
			return ""
		}
		if coin(c, "key") {
			p := w.Parties[intr(c, 0, len(w.Parties)-1, "who")]
			s.refused("rotation key without reference string", true, func() { w.KG.GenRotationKey(k, p.SK) })
		} else {
			s.refused("hoisted rotation without reference string", true, func() { w.Eval.RotateHoistedNew(a.C, k, s.hs[i], w.RTK) })
		}
	case 5: // absent keys
		s.refused("lookup", true, func() { w.RLK.GetRelinearizationKey("nobody") })
		s.refused("lookup", true, func() { w.RTK.GetRotationKey("nobody", 1) })
		s.refused("lookup", true, func() { w.RTK.GetRotationKey(w.Parties[0].ID, uint(h)) })
		s.refused("lookup", true, func() { w.CJK.GetConjugationKey("nobody") })
		s.refused("lookup", true, func() { w.SKs.GetSecretKey("nobody") })
	case 6: // the reserved identifier
		set := a.C.IDSet()
		s.refused("reserved identifier", true, func() { set.Add("0") })
		if !hx.SameIDs(hx.IDs(set), a.IDs) {
			c.Fatalf("refused reserved identifier: the set is now %q, want %q", hx.IDs(set), a.IDs)
		}
	case 7: // too many values
		m := &mkckks.Message{Value: make([]complex128, w.P.Slots()*2+1)}
		p := w.Parties[intr(c, 0, len(w.Parties)-1, "who")]
		for j := range m.Value {
			m.Value[j] = complex(float64(j%7)-3, 1)
		}
		s.refused("encryption of an over-long message", false, func() { w.Enc.EncryptMsgNew(m, p.PK) })
	case 8: // output above the input, key switcher
		if a.Lvl == w.P.MaxLevel() {
			return ""
		}
		ks := w.Switcher("ks", func(ks *mkrlwe.KeySwitcher) {})
		out := mkckks.NewCiphertext(w.P, hx.SetOf(a.IDs...), a.Lvl+1, 1)
		switch intr(c, 0, 3, "which") {
		case 0:
			s.refused("rotation upwards", true, func() { ks.Rotate(a.C.Ciphertext, 1, w.RTK, out.Ciphertext) })
		case 1:
			s.refused("conjugation upwards", true, func() { ks.Conjugate(a.C.Ciphertext, w.CJK, out.Ciphertext) })
		case 2:
			s.refused("product upwards", true, func() { ks.MulAndRelin(a.C.Ciphertext, a.C.Ciphertext, w.RLK, out.Ciphertext) })
		case 3:
			s.refused("hoisted rotation upwards", true, func() { ks.RotateHoisted(a.C.Ciphertext, 1, s.hs[i], w.RTK, out.Ciphertext) })
		}
	case 9: // a key of somebody under the reserved identifier
		sk := w.KG.GenSecretKey("0")
		pk := w.KG.GenPublicKey(sk)
		s.refused("encryption under the reserved identifier", true, func() { w.Enc.EncryptMsgNew(msgOf(w, a.V), pk) })
	}
	c.Class("C22 invalid %d", kind)
	return fmt.Sprintf("invalid %d", kind)
}

// TestC22 : histories with refused calls.
func TestC22(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxLogN: 6, MaxQ: 6})
		w := hx.NewWorld(c, cfg, hx.DrawK(c, 3))
		w.GenRLK()
		w.GenRot()
		w.GenConj()
		c.Sig("%v k=%d", cfg, len(w.Parties))
		s := &refusals{w: w, c: c}
		for n := intr(c, 1, 3, "pool"); n > 0; n-- {
			s.add(w.DrawCT(lbl("x", n), 0, 0))
		}
		missing := 0
		for st := hx.Steps(c, 2, 6, 60, 400); st > 0; st-- {
			if oneIn(c, 3, "invalid?") {
				if x := s.invalid(); x != "" {
					c.Sig("%s", x)
				}
			} else {
				op := s.draw(lbl("op", st))
				before := w.HashKeys()
				lack, undo := op.take()
				what := op.what + " without the " + lack
				for n := intr(c, 1, 2, "attempts"); n > 0; n-- {
					s.refused(what, true, func() { op.run() })
				}
				// other work meanwhile, with what is left
				if coin(c, "meanwhile") {
					p := w.Parties[intr(c, 0, len(w.Parties)-1, "who")]
					v := w.DrawVec(lbl("m", st), 0)
					o := &hx.CT{V: v, E: w.FreshErr(hx.MaxV(v), w.P.Scale()), IDs: []string{p.ID}, Lvl: w.P.MaxLevel()}
					o.C = w.Enc.EncryptMsgNew(msgOf(w, v), p.PK)
					w.Verify("encryption after a refused "+op.what, o, false)
					b := s.pool[intr(c, 0, len(s.pool)-1, "b")]
					if !w.Fits(2*(hx.MaxV(b.V)+b.E)+1e-3, b.C.Scale, b.Lvl) {
						b = o.Snap()
					}
					w.Verify("sum after a refused "+op.what, w.AddModel(b, b, w.Eval.AddNew(b.C, b.C), 1), false)
					s.same("work after a refused " + what)
				}
				undo()
				s.keys = w.HashKeys()
				if s.keys != before {
					c.Fatalf("%s, then put back: a key set is not what it was (%v)", what, cfg)
				}
				if !oneIn(c, 4, "again?") {
					s.good(op.what+" after the missing key was supplied", op.run())
				}
				missing++
				c.Class("C22 %s", op.what[:3])
				c.Sig("%s", what)
			}
			if coin(c, "other") {
				op := s.draw(lbl("next", st))
				s.keys = w.HashKeys()
				s.good(op.what+" after refusals", op.run())
				c.Sig("%s", op.what)
			}
		}
		for _, a := range s.pool {
			w.Compare("final library decryption", a, w.Dec.Decrypt(a.C, w.SKs).Value)
		}
		if missing > 0 {
			c.Nontrivial()
		}
	})
}
