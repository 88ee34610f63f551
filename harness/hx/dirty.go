package hx

import (
	"sort"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"

	"pgregory.net/rapid"
)

// dirt holds what Dirty needs: a throw-away party with keys of its own.
type dirt struct {
	id  string
	sk  *mkrlwe.SecretKey
	pk  *mkrlwe.PublicKey
	rlk *mkrlwe.RelinearizationKeySet
	rtk *mkrlwe.RotationKeySet
	cjk *mkrlwe.ConjugationKeySet
}

// Dirty performs up to n unrelated operations on the world's shared encryptor, decryptor
// and evaluator, for a party that is in no checked ciphertext, so that scratch buffers hold
// old contents at drawn levels when the operation under test runs. That party may be a
// namesake of one of the world's (same identifier, other keys, own key sets): nothing may be
// remembered by identifier.
func (w *World) Dirty(label string, n int) {
	t := w.C.T
	n = rapid.IntRange(0, n).Draw(t, label+".dirty")
	if n == 0 {
		return
	}
	if w.dirt == nil {
		d := &dirt{rlk: mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters), rtk: mkrlwe.NewRotationKeySet(), cjk: mkrlwe.NewConjugationKeySet()}
		d.id = "dirt"
		if len(w.Parties) > 0 && rapid.Bool().Draw(t, label+".namesake") {
			d.id = w.Parties[rapid.IntRange(0, len(w.Parties)-1).Draw(t, label+".who")].ID
			w.C.Class("namesake with other keys")
		}
		d.sk, d.pk = w.KG.GenKeyPair(d.id)
		w.dirt = d
	}
	d := w.dirt
	w.C.Class("dirty buffers")
	for ; n > 0; n-- {
		lvl := rapid.IntRange(0, w.P.MaxLevel()).Draw(t, label+".dlvl")
		msg := mkckks.NewMessage(w.P)
		for j := range msg.Value {
			msg.Value[j] = complex(float64(j%5)-2.25, float64(j%3)-1.5)
		}
		ct := mkckks.NewCiphertext(w.P, SetOf(d.id), lvl, w.P.Scale())
		w.Enc.EncryptMsg(msg, d.pk, ct)
		switch rapid.IntRange(0, 7).Draw(t, label+".dop") {
		case 0:
			if _, ok := d.rlk.Value[d.id]; !ok {
				d.rlk.AddRelinearizationKey(w.KG.GenRelinearizationKey(d.sk, w.KG.GenSecretKey(d.id)))
			}
			w.Eval.MulRelinNew(ct, ct, d.rlk)
		case 1:
			k := 1 << uint(rapid.IntRange(0, w.Cfg.LogN-2).Draw(t, label+".drot"))
			if _, ok := d.rtk.Value[d.id][uint(k)]; !ok {
				d.rtk.AddRotationKey(w.KG.GenRotationKey(k, d.sk))
			}
			w.Eval.RotateNew(ct, k, d.rtk)
		case 2:
			if _, ok := d.cjk.Value[d.id]; !ok {
				d.cjk.AddConjugationKey(w.KG.GenConjugationKey(d.sk))
			}
			w.Eval.ConjugateNew(ct, d.cjk)
		case 3:
			b := ct.CopyNew()
			b.Scale *= 3
			w.Eval.AddNew(ct, b)
		case 4:
			b := ct.CopyNew()
			b.Scale *= 2
			w.Eval.SubNew(b, ct)
		case 5:
			w.Eval.MulPtxtNew(ct, w.Enc.EncodeMsgNew(msg))
		case 6:
			f := w.Eval.HoistedForm(ct)
			k := 1 << uint(rapid.IntRange(0, w.Cfg.LogN-2).Draw(t, label+".dhrot"))
			if _, ok := d.rtk.Value[d.id][uint(k)]; !ok {
				d.rtk.AddRotationKey(w.KG.GenRotationKey(k, d.sk))
			}
			w.Eval.RotateHoistedNew(ct, k, f, d.rtk)
		default:
			s := mkrlwe.NewSecretKeySet()
			s.AddSecretKey(d.sk)
			w.Dec.Decrypt(ct, s)
		}
	}
}

// Switcher returns a key switcher: one kept over the history, with old contents in its
// buffers (of warm, a throw-away operation), or a new one.
func (w *World) Switcher(label string, warm func(ks *mkrlwe.KeySwitcher)) *mkrlwe.KeySwitcher {
	n := rapid.IntRange(0, 2).Draw(w.C.T, label+".switcher")
	if w.ks == nil || n == 0 {
		w.ks = mkrlwe.NewKeySwitcher(w.P.Parameters)
	}
	if n == 2 {
		warm(w.ks)
		w.C.Class("used key switcher")
	}
	return w.ks
}

// NoShare checks that writing to a result is not visible in the given ciphertexts.
func (w *World) NoShare(what string, o *mkckks.Ciphertext, in ...*CT) {
	flip := func() {
		for id := range o.Value {
			for i := range o.Value[id].Coeffs {
				o.Value[id].Coeffs[i][0] ^= 1
			}
		}
	}
	flip()
	w.Unchanged(what+": writing to the result", in...)
	flip()
}

// Mutate changes a ciphertext in place, keeping the object and its model in step.
func (w *World) Mutate(label string, ct *CT) {
	t := w.C.T
	switch rapid.IntRange(0, 3).Draw(t, label+".mut") {
	case 0: // exact negation, written by hand
		for id := range ct.C.Value {
			w.P.RingQ().NegLvl(ct.Lvl, ct.C.Value[id], ct.C.Value[id])
		}
		ct.V = scaleV(ct.V, -1)
	case 1:
		k := float64(rapid.SampledFrom([]int{-1, 2, -3, 0}).Draw(t, label+".mk"))
		if !w.Fits((MaxV(ct.V)+ct.E)*3+1e-3, ct.C.Scale, ct.Lvl) {
			k = -1
		}
		w.Eval.MultByConst(ct.C, k, ct.C)
		ct.V = scaleV(ct.V, k)
		ct.E *= 3
	case 2:
		n := rapid.IntRange(0, ct.Lvl).Draw(t, label+".mdrop")
		for n > 0 && !w.Fits((MaxV(ct.V)+ct.E)*2+1e-3, ct.C.Scale, ct.Lvl-n) {
			n-- // keep the message representable
		}
		w.Eval.DropLevel(ct.C, n)
		ct.Lvl -= n
	default: // overwritten by a fresh encryption of something else
		for _, p := range w.Parties {
			if len(ct.IDs) > 0 && p.ID == ct.IDs[0] {
				ct.V = w.DrawVec(label+".mv", 0)
				msg := mkckks.NewMessage(w.P)
				copy(msg.Value, ct.V)
				w.Enc.EncryptMsg(msg, p.PK, ct.C)
				ct.E = w.FreshErr(MaxV(ct.V), w.P.Scale())
			}
		}
	}
	ct.Snap()
	w.C.Class("operand changed in place")
}

func scaleV(v []complex128, k float64) []complex128 {
	o := make([]complex128, len(v))
	for j := range v {
		o[j] = v[j] * complex(k, 0)
	}
	return o
}

// Padded returns a copy of ct extended by parties not in it (zero components), made by hand.
func (w *World) Padded(label string, ct *CT) *CT {
	o := &CT{C: ct.C.CopyNew(), V: ct.V, E: ct.E, Lvl: ct.Lvl}
	ids := append([]string{}, ct.IDs...)
	for _, p := range w.Parties {
		if _, ok := o.C.Value[p.ID]; !ok && rapid.Bool().Draw(w.C.T, label+".pad") {
			z := ct.C.Value["0"].CopyNew()
			z.Zero()
			o.C.Value[p.ID] = z
			ids = append(ids, p.ID)
		}
	}
	o.IDs = Union(ids, nil)
	return o.Snap()
}

// DrawK draws a number of parties, usually 1..max, sometimes up to 7.
func DrawK(c *Case, max int) int {
	k := rapid.IntRange(1, max*8).Draw(c.T, "parties")
	if k == max*8 {
		if Large == 0 && Rare(c, 20, "crowd") {
			c.Class("8 to 17 parties")
			return rapid.IntRange(8, 17).Draw(c.T, "many")
		}
		c.Class("5 to 7 parties")
		return rapid.IntRange(5, 7).Draw(c.T, "many")
	}
	return (k-1)%max + 1
}

// Rekey gives party i a new key pair and new evaluation keys of every kind it had, filed under
// the same identifier.
func (w *World) Rekey(i int) *Party {
	old := w.Parties[i]
	sk, pk := w.KG.GenKeyPair(old.ID)
	p := &Party{ID: old.ID, SK: sk, PK: pk, S: SKCoeffs(w.P.Parameters, sk)}
	w.Parties[i] = p
	w.SKs.AddSecretKey(sk)
	w.sks[p.ID] = p.S
	if _, ok := w.RLK.Value[p.ID]; ok {
		w.RLK.AddRelinearizationKey(w.KG.GenRelinearizationKey(sk, w.KG.GenSecretKey(p.ID)))
	}
	var idx []int
	for k := range w.RTK.Value[p.ID] {
		idx = append(idx, int(k))
	}
	sort.Ints(idx)
	for _, k := range idx {
		w.RTK.AddRotationKey(w.KG.GenRotationKey(k, sk))
	}
	if _, ok := w.CJK.Value[p.ID]; ok {
		w.CJK.AddConjugationKey(w.KG.GenConjugationKey(sk))
	}
	return p
}
