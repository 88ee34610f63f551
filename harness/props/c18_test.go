package props

import (
	"fmt"
	"sort"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"pgregory.net/rapid"

	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// TestC18Sets : identifier sets against a map model.
func TestC18Sets(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		type ms = map[string]bool
		sets := []*mkrlwe.IDSet{mkrlwe.NewIDSet()}
		models := []ms{{}}
		// identifiers from arbitrary strings, with repetition
		pool := []string{"", "a", "b", "00", "1", "-1", "0 "}
		for i := 0; i < 4; i++ {
			s := rapid.String().Draw(c.T, "id")
			if s != "0" {
				pool = append(pool, s)
			}
		}
		if hx.Rare(c, 60, "crowd") {
			c.Class("C18 crowd")
			for i := intr(c, 8, 300, "crowd size"); i > 0; i-- {
				id := fmt.Sprintf("p%d", i)
				pool = append(pool, id)
				sets[0].Add(id)
				models[0][id] = true
			}
		}
		check := func(what string) {
			for i, s := range sets {
				m := models[i]
				if s.Size() != len(m) {
					c.Fatalf("%s: set %d has size %d, want %d", what, i, s.Size(), len(m))
				}
				for _, id := range append([]string{"0"}, pool...) {
					if s.Has(id) != m[id] {
						c.Fatalf("%s: set %d membership of %q is %v, want %v", what, i, id, s.Has(id), m[id])
					}
				}
				var w []string
				for id := range m {
					w = append(w, id)
				}
				sort.Strings(w)
				if !hx.SameIDs(hx.IDs(s), w) {
					c.Fatalf("%s: set %d is %q, want %q", what, i, hx.IDs(s), w)
				}
			}
		}
		binary := 0
		for n := hx.Steps(c, 1, 25, 200, 400); n > 0; n-- {
			i := intr(c, 0, len(sets)-1, "i")
			id := rapid.SampledFrom(pool).Draw(c.T, "x")
			op := intr(c, 0, 7, "op")
			what := fmt.Sprintf("op %d set %d %q", op, i, id)
			addSet := func(s *mkrlwe.IDSet, m ms) {
				if len(sets) < 6 {
					sets, models = append(sets, s), append(models, m)
				} else {
					j := intr(c, 0, 5, "slot")
					sets[j], models[j] = s, m
				}
			}
			switch op {
			case 0, 1, 2:
				sets[i].Add(id)
				models[i][id] = true
			case 3:
				sets[i].Remove(id)
				delete(models[i], id)
			case 4:
				m := ms{}
				for k := range models[i] {
					m[k] = true
				}
				addSet(sets[i].CopyNew(), m)
			case 5, 6:
				j := intr(c, 0, len(sets)-1, "j")
				m := ms{}
				if op == 5 {
					for k := range models[i] {
						m[k] = true
					}
					for k := range models[j] {
						m[k] = true
					}
					addSet(sets[i].Union(sets[j]), m)
				} else {
					for k := range models[i] {
						if models[j][k] {
							m[k] = true
						}
					}
					addSet(sets[i].Intersection(sets[j]), m)
				}
				if len(models[i]) > 0 && len(models[j]) > 0 && i != j {
					binary++
				}
			case 7:
				mustPanic(c, "adding the reserved identifier", func() { sets[i].Add("0") })
			}
			check(what)
			c.Sig("%d,%d,%q", op, i, id)
		}
		if binary > 0 {
			c.Nontrivial()
			c.Class("C18 set algebra")
		}
	})
}

// TestC18Keys : key sets against map models, and deep copies.
func TestC18Keys(t *testing.T) {
	hx.Check(t, 0.5, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxLogN: 4, MaxQ: 3, P: []int{2, 4}})
		p := mkrlwe.NewParameters(cfg.RLWE(), 2)
		kg := mkrlwe.NewKeyGenerator(p)
		ids := hx.DrawIDs(c.T, 3)
		if s := rapid.StringN(0, 4, 8).Draw(c.T, "free id"); s != "0" && s != ids[0] && s != ids[1] {
			ids[2] = s
		}
		type rotKey struct {
			id string
			k  uint
		}
		sks, pks, rks, cks, ros := mkrlwe.NewSecretKeySet(), mkrlwe.NewPublicKeyKeySet(), mkrlwe.NewRelinearizationKeyKeySet(p), mkrlwe.NewConjugationKeySet(), mkrlwe.NewRotationKeySet()
		msk, mpk, mrk, mck, mro := map[string]*mkrlwe.SecretKey{}, map[string]*mkrlwe.PublicKey{}, map[string]*mkrlwe.RelinearizationKey{}, map[string]*mkrlwe.ConjugationKey{}, map[rotKey]*mkrlwe.RotationKey{}
		// any two indices are different keys, however far apart
		rot := []uint{1, 2, 4, 3, 0}
		for i := 0; i < 2; i++ {
			rot = append(rot, uint(rapid.Uint64().Draw(c.T, "rotidx")))
			rot = append(rot, rot[intr(c, 0, 4, "near")]+1<<uint(intr(c, 3, 62, "far")))
		}
		check := func(what string) {
			for _, id := range ids {
				if k, ok := msk[id]; ok {
					if sks.GetSecretKey(id) != k {
						c.Fatalf("%s: wrong secret key for %q", what, id)
					}
				} else {
					mustPanic(c, what+": lookup of an absent secret key", func() { sks.GetSecretKey(id) })
				}
				if k, ok := mpk[id]; ok {
					if pks.GetPublicKey(id) != k {
						c.Fatalf("%s: wrong public key for %q", what, id)
					}
				} else {
					mustPanic(c, what+": lookup of an absent public key", func() { pks.GetPublicKey(id) })
				}
				if k, ok := mrk[id]; ok {
					if rks.GetRelinearizationKey(id) != k {
						c.Fatalf("%s: wrong relinearisation key for %q", what, id)
					}
				} else {
					mustPanic(c, what+": lookup of an absent relinearisation key", func() { rks.GetRelinearizationKey(id) })
				}
				if k, ok := mck[id]; ok {
					if cks.GetConjugationKey(id) != k {
						c.Fatalf("%s: wrong conjugation key for %q", what, id)
					}
				} else {
					mustPanic(c, what+": lookup of an absent conjugation key", func() { cks.GetConjugationKey(id) })
				}
				for _, r := range rot {
					if k, ok := mro[rotKey{id, r}]; ok {
						if ros.GetRotationKey(id, r) != k {
							c.Fatalf("%s: wrong rotation key %d for %q", what, r, id)
						}
					} else {
						mustPanic(c, what+": lookup of an absent rotation key", func() { ros.GetRotationKey(id, r) })
					}
				}
			}
		}
		dels, adds := 0, 0
		for n := hx.Steps(c, 1, 20, 200, 400); n > 0; n-- {
			id := rapid.SampledFrom(ids).Draw(c.T, "id")
			r := rapid.SampledFrom(rot).Draw(c.T, "rot")
			op := intr(c, 0, 11, "op")
			what := fmt.Sprintf("op %d %q %d", op, id, r)
			switch op {
			case 0:
				msk[id] = mkrlwe.NewSecretKey(p, id)
				sks.AddSecretKey(msk[id])
			case 1:
				delete(msk, id)
				sks.DelSecretKey(id)
			case 2:
				mpk[id] = mkrlwe.NewPublicKey(p, id)
				pks.AddPublicKey(mpk[id])
			case 3:
				delete(mpk, id)
				pks.DelPublicKey(id)
			case 4:
				mrk[id] = mkrlwe.NewRelinearizationKey(p, id)
				rks.AddRelinearizationKey(mrk[id])
			case 5:
				delete(mrk, id)
				rks.DelRelinearizationKey(id)
			case 6:
				mck[id] = mkrlwe.NewConjugationKey(p, id)
				cks.AddConjugationKey(mck[id])
			case 7:
				delete(mck, id)
				cks.DelConjugationKey(id)
			case 8, 9:
				k := mkrlwe.NewRotationKey(p, r, id)
				if k.RotIdx != r || k.ID != id {
					c.Fatalf("%s: new rotation key labelled %q %d", what, k.ID, k.RotIdx)
				}
				mro[rotKey{id, r}] = k
				ros.AddRotationKey(k)
			case 10:
				delete(mro, rotKey{id, r})
				ros.DelRotationKey(id, r)
			case 11:
				// deep copies
				sk, pk := kg.GenKeyPair(id)
				sh, ph := hx.HashPoly(hx.HashPoly(1, sk.Value.Q), sk.Value.P), hx.HashPoly(hx.HashPoly(hx.HashPoly(hx.HashPoly(1, pk.Value[0].Q), pk.Value[0].P), pk.Value[1].Q), pk.Value[1].P)
				s2, p2 := sk.CopyNew(), pk.CopyNew()
				if s2.ID != id || p2.ID != id || hx.HashPoly(hx.HashPoly(1, s2.Value.Q), s2.Value.P) != sh ||
					hx.HashPoly(hx.HashPoly(hx.HashPoly(hx.HashPoly(1, p2.Value[0].Q), p2.Value[0].P), p2.Value[1].Q), p2.Value[1].P) != ph {
					c.Fatalf("%s: a key copy differs from the original", what)
				}
				flip(s2.Value.Q)
				flip(s2.Value.P)
				for i := 0; i < 2; i++ {
					flip(p2.Value[i].Q)
					flip(p2.Value[i].P)
				}
				if hx.HashPoly(hx.HashPoly(1, sk.Value.Q), sk.Value.P) != sh || hx.HashPoly(hx.HashPoly(hx.HashPoly(hx.HashPoly(1, pk.Value[0].Q), pk.Value[0].P), pk.Value[1].Q), pk.Value[1].P) != ph {
					c.Fatalf("%s: a key copy shares memory with the original", what)
				}
			}
			if op%2 == 1 || op == 10 {
				dels++
			} else {
				adds++
			}
			check(what)
			c.Sig("%d,%q,%d", op, id, r)
		}
		if dels > 0 && adds > 0 {
			c.Nontrivial()
			c.Class("C18 keys add+delete")
		}
	})
}

// flip changes every row of a polynomial.
func flip(p *ring.Poly) {
	for i := range p.Coeffs {
		p.Coeffs[i][len(p.Coeffs[i])-1] ^= 1
	}
}
