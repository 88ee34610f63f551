package conc

import (
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"

	"github.com/ldsec/lattigo/v2/ckks"
	"github.com/ldsec/lattigo/v2/rlwe"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }

func intr(c *hx.Case, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }

// shared is what all workers of one parameter set use read-only.
type shared struct {
	w    *hx.World
	cts  []*hx.CT
	pts  []*ckks.Plaintext
	msgs []*mkckks.Message
	hs   []*mkrlwe.HoistedCiphertext
	be   *mkrlwe.FastBasisExtender
	idx  []int // registered rotation indices
}

func newShared(c *hx.Case, label string) *shared {
	cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinQ: 2, MaxQ: 5, MaxLogN: 6, Depth: true})
	w := hx.NewWorld(c, cfg, intr(c, 1, 3, label+".k"))
	// without some of the keys the operations needing them are refused, and nothing has
	// generated such a key before the workers do
	if intr(c, 0, 3, label+".rlk") > 0 {
		w.GenRLK()
	}
	if intr(c, 0, 3, label+".rot") > 0 {
		w.GenRot()
	}
	if intr(c, 0, 3, label+".conj") > 0 {
		w.GenConj()
	}
	s := &shared{w: w, be: mkrlwe.NewFastBasisExtender(w.P.RingQ(), w.P.RingP())}
	h := w.P.N() / 2
	for i := 1; i < h; i *= 2 {
		s.idx = append(s.idx, i)
	}
	for i := intr(c, 0, 3, label+".extra"); i > 0; i-- {
		e := intr(c, 1, h-1, label+".idx")
		if w.P.CRS[e] == nil {
			w.P.AddCRS(e)
			s.idx = append(s.idx, e)
		}
	}
	for i := intr(c, 1, 3, label+".cts"); i > 0; i-- {
		ct := w.DrawCT(fmt.Sprintf("%s.ct%d", label, i), 0, 0)
		s.cts = append(s.cts, ct.Snap())
		s.hs = append(s.hs, w.Eval.HoistedForm(ct.C))
	}
	for i := 0; i < 2; i++ {
		m := mkckks.NewMessage(w.P)
		copy(m.Value, w.DrawVec(fmt.Sprintf("%s.m%d", label, i), 0))
		s.msgs = append(s.msgs, m)
		s.pts = append(s.pts, w.Enc.EncodeMsgNew(m))
	}
	c.Sig("%v k=%d cts=%d", cfg, len(w.Parties), len(s.cts))
	return s
}

func (s *shared) hash() uint64 {
	h := s.w.HashKeys()
	for _, ct := range s.cts {
		h = h*31 + hx.HashCKKS(ct.C)
	}
	for _, p := range s.pts {
		h = h*31 + hx.HashPoly(1, p.Value)
	}
	for _, x := range s.hs {
		h = h*31 + hx.HashHoisted(x)
	}
	return h
}

// step is one operation of a worker; arguments are reduced modulo what is available.
type step struct {
	op, a, b, k int
	x           float64
}

var opNames = []string{"add", "sub", "mul", "mulhoisted", "rotate", "rotatehoisted", "conjugate", "mulptxt", "const",
	"drop", "rescale", "hoist", "decrypt", "partial", "encrypt", "keygen", "idset", "generic", "evalkey", "evalkey", "extend", "params"}

// worker is a sequence of steps on objects of its own.
type worker struct {
	s     *shared
	who   int
	inner bool // creates its objects itself
	steps []step

	enc  *mkckks.Encryptor
	dec  *mkckks.Decryptor
	eval *mkckks.Evaluator
	kg   *mkrlwe.KeyGenerator
	be   *mkrlwe.FastBasisExtender
	rlk  *mkrlwe.RelinearizationKeySet // the same keys, but the set carries working memory

	out   []string             // results that do not depend on randomness
	fresh []*mkckks.Ciphertext // ciphertexts encrypted here
	fmsg  []*mkckks.Message
	post  []func() // what to check after everything has ended
	rand  []uint64 // fingerprints of fresh randomness
}

func (wk *worker) open() {
	p := wk.s.w.P
	wk.enc, wk.dec, wk.eval, wk.kg = mkckks.NewEncryptor(p), mkckks.NewDecryptor(p), mkckks.NewEvaluator(p), mkckks.NewKeyGenerator(p)
	wk.be = wk.s.be.ShallowCopy()
	wk.rlk = mkrlwe.NewRelinearizationKeyKeySet(p.Parameters)
	for _, q := range wk.s.w.Parties {
		if k := wk.s.w.RLK.Value[q.ID]; k != nil {
			wk.rlk.AddRelinearizationKey(k)
		}
	}
}

// run executes the steps; nothing here draws, fails or touches another worker.
func (wk *worker) run() {
	if wk.inner {
		wk.open()
	}
	var mine []*mkckks.Ciphertext
	for _, st := range wk.steps {
		wk.out = append(wk.out, opNames[st.op]+"="+wk.do(st, &mine))
	}
}

func (wk *worker) do(st step, mine *[]*mkckks.Ciphertext) (res string) {
	s := wk.s
	w := s.w
	pick := func(i int) (*mkckks.Ciphertext, *mkrlwe.HoistedCiphertext) {
		i %= len(s.cts) + len(*mine)
		if i < len(s.cts) {
			return s.cts[i].C, s.hs[i]
		}
		return (*mine)[i-len(s.cts)], nil
	}
	a, ha := pick(st.a)
	b, hb := pick(st.b)
	var out *mkckks.Ciphertext
	val, did := hx.Panics(func() {
		switch opNames[st.op] {
		case "add":
			out = wk.eval.AddNew(a, b)
		case "sub":
			out = wk.eval.SubNew(a, b)
		case "mul":
			out = wk.eval.MulRelinNew(a, b, wk.rlk)
		case "mulhoisted":
			out = wk.eval.MulRelinHoistedNew(a, b, ha, hb, wk.rlk)
		case "rotate":
			out = wk.eval.RotateNew(a, st.k, w.RTK)
		case "rotatehoisted":
			if ha == nil {
				ha = wk.eval.HoistedForm(a)
			}
			k := 1
			if st.k%2 == 0 {
				k = 2
			}
			out = wk.eval.RotateHoistedNew(a, k, ha, w.RTK)
		case "conjugate":
			out = wk.eval.ConjugateNew(a, w.CJK)
		case "mulptxt":
			out = wk.eval.MulPtxtNew(a, s.pts[(st.b+1<<20)%len(s.pts)])
		case "const":
			out = mkckks.NewCiphertext(w.P, a.IDSet(), a.Level(), 1)
			if st.k%2 == 0 {
				wk.eval.MultByConst(a, float64(st.k%8), out)
			} else {
				wk.eval.MultByConst(a, complex(st.x, -st.x), out)
			}
		case "drop":
			out = wk.eval.DropLevelNew(a, (st.b+1<<20)%(a.Level()+1))
		case "rescale":
			var err error
			if out, err = wk.eval.RescaleNew(a, w.P.Scale()*(1.5+st.x)); err != nil {
				res = "error " + err.Error()
			}
		case "hoist":
			res = fmt.Sprint(hx.HashHoisted(wk.eval.HoistedForm(a)))
		case "decrypt":
			m := wk.dec.Decrypt(a, w.SKs)
			res = fmt.Sprintf("%x", m.Value)
		case "partial":
			x := a.CopyNew()
			for _, id := range hx.IDs(a.IDSet()) {
				wk.dec.PartialDecrypt(x, w.SKs.GetSecretKey(id))
			}
			res = fmt.Sprint(hx.HashCKKS(x))
		case "encrypt":
			m := s.msgs[(st.b+1<<20)%len(s.msgs)]
			ct := wk.enc.EncryptMsgNew(m, w.Parties[0].PK)
			wk.fresh, wk.fmsg = append(wk.fresh, ct), append(wk.fmsg, m)
			wk.rand = append(wk.rand, hx.HashPoly(1, ct.Value[w.Parties[0].ID]))
		case "keygen":
			sk, pk := wk.kg.GenKeyPair(w.Parties[0].ID)
			wk.rand = append(wk.rand, hx.HashPoly(2, sk.Value.Q), hx.HashPoly(3, pk.Value[0].Q))
			m := s.msgs[(st.b+1<<20)%len(s.msgs)]
			ct := wk.enc.EncryptMsgNew(m, pk)
			set := mkrlwe.NewSecretKeySet()
			set.AddSecretKey(sk)
			got := &hx.CT{C: ct, V: m.Value, E: w.FreshErr(hx.MaxV(m.Value), w.P.Scale())}
			dec := wk.dec.Decrypt(ct, set).Value
			res = "ok"
			for j := range dec {
				if d := dec[j] - m.Value[j]; real(d)*real(d)+imag(d)*imag(d) > got.Tol()*got.Tol() {
					res = fmt.Sprintf("BAD own key pair: slot %d decrypts to %v instead of %v", j, dec[j], m.Value[j])
				}
			}
		case "evalkey":
			p := w.Parties[0]
			m := s.msgs[(st.b+1<<20)%len(s.msgs)]
			ct := wk.enc.EncryptMsgNew(m, p.PK)
			wk.rand = append(wk.rand, hx.HashPoly(1, ct.Value[p.ID]))
			in := &hx.CT{C: ct, V: m.Value, E: w.FreshErr(hx.MaxV(m.Value), w.P.Scale()), IDs: []string{p.ID}, Lvl: w.P.MaxLevel()}
			res = "ok"
			switch (st.a + st.b) % 4 {
			case 0:
				set := mkrlwe.NewConjugationKeySet()
				k := wk.kg.GenConjugationKey(p.SK)
				set.AddConjugationKey(k)
				wk.rand = append(wk.rand, hx.HashSwk(5, k.Value))
				o := wk.eval.ConjugateNew(ct, set)
				wk.post = append(wk.post, func() {
					w.Compare("conjugation with a key generated at the same time as others", &hx.CT{C: o, V: hx.ConjV(in.V), E: in.E + w.RotErr(1, in.Lvl, 1, ct.Scale)}, w.RefDecrypt(o))
				})
			case 1:
				set := mkrlwe.NewRelinearizationKeyKeySet(w.P.Parameters)
				k := wk.kg.GenRelinearizationKey(p.SK, wk.kg.GenSecretKey(p.ID))
				set.AddRelinearizationKey(k)
				wk.rand = append(wk.rand, hx.HashSwk(6, k.Value[0]), hx.HashSwk(7, k.Value[1]), hx.HashSwk(8, k.Value[2]))
				o := wk.eval.MulRelinNew(ct, ct, set)
				wk.post = append(wk.post, func() {
					r := w.MulModel(in, in, o)
					if w.Fits(hx.MaxV(r.V)+r.E+1e-3, o.Scale, r.Lvl) {
						w.Compare("square with a key generated at the same time as others", r, w.RefDecrypt(o))
					}
				})
			default:
				idx := s.idx[(st.k+1<<20)%len(s.idx)]
				k := wk.kg.GenRotationKey(idx, p.SK)
				set := mkrlwe.NewRotationKeySet()
				set.AddRotationKey(k)
				wk.rand = append(wk.rand, hx.HashSwk(4, k.Value))
				o := wk.eval.RotateNew(ct, idx, set)
				wk.post = append(wk.post, func() {
					w.Compare("rotation with a key generated at the same time as others", &hx.CT{C: o, V: hx.RotV(in.V, idx), E: in.E + w.RotErr(1, in.Lvl, 1, ct.Scale)}, w.RefDecrypt(o))
				})
			}
		case "params":
			p := mkckks.NewParameters(w.Cfg.CKKS())
			for _, i := range []int{0, -1, -2, 1} {
				wk.rand = append(wk.rand, hx.HashSwk(9, p.CRS[i]))
			}
			res = fmt.Sprint(len(p.CRS), p.Alpha(), p.Beta(p.MaxLevel()), p.Slots(), p.Scale())
		case "idset":
			u := a.IDSet().Union(b.IDSet())
			x := a.CopyNew()
			x.PadCiphertext(u)
			res = fmt.Sprintf("%q %d", hx.IDs(u), hx.HashCKKS(x))
		case "extend":
			rq, rp := w.P.RingQ(), w.P.RingP()
			lq, lp := a.Level(), (st.b+1<<20)%len(rp.Modulus)
			xq, xp := a.Value["0"].CopyNew(), rp.NewPoly()
			wk.be.ModUpQtoP(lq, lp, xq, xp)
			yq, yp := rq.NewPoly(), rp.NewPoly()
			switch (st.k + 1<<20) % 3 {
			case 0:
				wk.be.ModDownQPtoQ(lq, lp, xq, xp, yq)
			case 1:
				wk.be.ModDownQPtoQNTT(lq, lp, xq, xp, yq)
			default:
				wk.be.ModDownQPtoP(lq, lp, xq, xp, yp)
			}
			res = fmt.Sprint(hx.HashPoly(1, xp), hx.HashPoly(2, yq), hx.HashPoly(3, yp))
		case "generic":
			pt := rlwe.NewPlaintext(w.P.Parameters.Parameters, a.Level())
			pt.Value.IsNTT = st.k%2 == 0
			wk.dec.Decryptor.Decrypt(a.Ciphertext, w.SKs, pt)
			res = fmt.Sprint(hx.HashPoly(1, pt.Value))
		}
	})
	if did {
		return fmt.Sprintf("panic %v", val)
	}
	if out != nil {
		*mine = append(*mine, out)
		res = fmt.Sprintf("%q@%d*%v:%d", hx.IDs(out.IDSet()), out.Level(), out.Scale, hx.HashCKKS(out))
	}
	return
}

// TestC21 : workers with objects of their own, at the same time and one after another.
func TestC21(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		worlds := []*shared{newShared(c, "w0")}
		if intr(c, 0, 2, "worlds") == 2 {
			worlds = append(worlds, newShared(c, "w1"))
		}
		n := intr(c, 2, 6, "workers")
		var plan [][]step
		var at []*shared
		var inner []bool
		kinds := map[string]bool{}
		for i := 0; i < n; i++ {
			at = append(at, worlds[intr(c, 0, len(worlds)-1, "world")])
			inner = append(inner, rapid.Bool().Draw(c.T, "inner"))
			var p []step
			var names []string
			for j := intr(c, 1, 6, "steps"); j > 0; j-- {
				st := step{op: intr(c, 0, len(opNames)-1, "op"), a: intr(c, 0, 7, "a"), b: intr(c, 0, 7, "b"),
					k: intr(c, -40, 40, "k"), x: float64(intr(c, -8, 8, "x")) / 8}
				p = append(p, st)
				kinds[opNames[st.op]] = true
				names = append(names, fmt.Sprintf("%s(%d,%d,%d)", opNames[st.op], st.a, st.b, st.k))
			}
			plan = append(plan, p)
			c.Sig("%s", strings.Join(names, ";"))
		}
		make1 := func() []*worker {
			var ws []*worker
			for i := range plan {
				wk := &worker{s: at[i], who: i, inner: inner[i], steps: plan[i]}
				if !wk.inner {
					wk.open()
				}
				ws = append(ws, wk)
			}
			return ws
		}
		var before []uint64
		for _, s := range worlds {
			before = append(before, s.hash())
		}
		rounds := intr(c, 1, 3, "rounds")
		parFirst := rapid.Bool().Draw(c.T, "parallelFirst")
		var seq, all []*worker
		alone := func() {
			seq = make1()
			for _, wk := range seq {
				wk.run()
			}
			all = append(all, seq...)
		}
		if !parFirst {
			alone()
		}
		for r := 0; r < rounds; r++ {
			races := raceReports()
			par := make1()
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, wk := range par {
				wg.Add(1)
				go func(wk *worker) {
					defer wg.Done()
					<-start
					wk.run()
				}(wk)
			}
			runtime.Gosched()
			close(start)
			wg.Wait()
			if raceReports() != races {
				c.Fatalf("data race between objects used by different goroutines (report above; %v)", worlds[0].w.Cfg)
			}
			if seq == nil {
				alone()
			}
			for i := range par {
				for j := range par[i].out {
					if par[i].out[j] != seq[i].out[j] {
						c.Fatalf("worker %d of %d, step %d: %.300s when run alone, %.300s when run at the same time as the others", i, n, j, seq[i].out[j], par[i].out[j])
					}
				}
			}
			all = append(all, par...)
		}
		for i, s := range worlds {
			if s.hash() != before[i] {
				c.Fatalf("a key, ciphertext, encoded message or hoisted form shared by the workers was modified (%v)", s.w.Cfg)
			}
		}
		seen := map[uint64]int{}
		for i, wk := range all {
			for j, o := range wk.out {
				if strings.Contains(o, "BAD ") {
					c.Fatalf("worker %d step %d: %s (%v)", i%n, j, o, wk.s.w.Cfg)
				}
			}
			for _, f := range wk.post {
				f()
			}
			for j, ct := range wk.fresh {
				v := wk.fmsg[j].Value
				m := &hx.CT{C: ct, V: v, E: wk.s.w.FreshErr(hx.MaxV(v), wk.s.w.P.Scale())}
				wk.s.w.Compare("encryption made at the same time as others", m, wk.s.w.RefDecrypt(ct))
			}
			for _, h := range wk.rand {
				if o, dup := seen[h]; dup {
					c.Fatalf("workers %d and %d drew the same randomness", o%n, i%n)
				}
				seen[h] = i
			}
		}
		for k := range kinds {
			c.Class("op %s", k)
		}
		c.Class("%d worlds, race detector %v", len(worlds), raceOn)
		if len(kinds) >= 2 {
			c.Nontrivial()
		}
	})
}
