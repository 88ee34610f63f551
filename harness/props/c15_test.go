package props

import (
	"fmt"
	"math"
	"math/big"
	"sync"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"pgregory.net/rapid"

	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// drawBigs draws n integers in [0,M): uniform, tiny, near the ends, structured multiples.
func drawBigs(c *hx.Case, label string, n int, M *big.Int, factors []uint64) []*big.Int {
	rng := hx.NewRng(rapid.Uint64().Draw(c.T, label))
	mode := intr(c, 0, 5, label+".mode")
	out := make([]*big.Int, n)
	uni := func() *big.Int {
		x := new(big.Int)
		for i := 0; i < len(M.Bits())+1; i++ {
			x.Lsh(x, 64)
			x.Add(x, new(big.Int).SetUint64(rng.U64()))
		}
		return x.Mod(x, M)
	}
	for j := range out {
		m := mode
		if m == 5 {
			m = rng.Intn(5)
		}
		var x *big.Int
		switch m {
		case 0:
			x = uni()
		case 1: // tiny
			x = new(big.Int).SetUint64(rng.U64() >> uint(rng.Intn(64)))
		case 2: // just below M
			x = new(big.Int).Sub(M, new(big.Int).SetUint64(1+rng.U64()>>uint(1+rng.Intn(62))))
		case 3: // near k*M/16
			x = new(big.Int).Mul(M, big.NewInt(int64(rng.Intn(17))))
			x.Rsh(x, 4)
			x.Add(x, big.NewInt(int64(rng.Intn(5)-2)))
		default: // multiples of one factor, extreme residues
			f := new(big.Int).SetUint64(factors[rng.Intn(len(factors))])
			x = uni()
			x.Div(x, f)
			x.Mul(x, f)
			x.Add(x, big.NewInt(int64(rng.Intn(3)-1)))
		}
		out[j] = x.Mod(x, M)
	}
	return out
}

// fill writes the residues of v into the rows of pol.
func fill(r *ring.Ring, level int, v []*big.Int, pol *ring.Poly) {
	t := new(big.Int)
	for i := 0; i <= level; i++ {
		q := new(big.Int).SetUint64(r.Modulus[i])
		for j := range v {
			pol.Coeffs[i][j] = t.Mod(v[j], q).Uint64()
		}
	}
}

// TestC15 : decomposition and external product.
func TestC15(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg, p, desc := drawParams(c, hx.CfgOpt{MaxLogN: 6, MaxQ: 9, P: []int{2, 3, 4, 4, 5, 6, 6, 7, 8}, LargeLogN: 10})
		r, rp := p.RingQ(), p.RingP()
		kg := mkrlwe.NewKeyGenerator(p)
		ks := mkrlwe.NewKeySwitcher(p)
		sk := kg.GenSecretKey("u")
		s := hx.SKCoeffs(p, sk)
		swk := mkrlwe.NewSwitchingKey(p)
		kg.GenSwitchingKey(sk, swk)
		swkHash := hx.HashSwk(1, swk)
		c.Sig("%s", desc)
		alpha := p.Alpha()
		nq := len(r.Modulus)
		logP := 0.0
		for _, x := range rp.Modulus {
			logP += math.Log2(float64(x))
		}
		for rd := hx.Steps(c, 1, 3, 40, 400); rd > 0; rd-- {
			lvl := intr(c, 0, p.MaxLevel(), "level")
			Q := hx.QAt(r, lvl)
			av := drawBigs(c, "a", p.N(), Q, r.Modulus[:lvl+1])
			a := ring.NewPoly(p.N(), lvl+1)
			if coin(c, "tall") {
				a = r.NewPoly() // rows above the level carry unrelated values
				for i := range a.Coeffs {
					for j := range a.Coeffs[i] {
						a.Coeffs[i][j] = uint64(i*31+j*7) % r.Modulus[i]
					}
				}
			}
			fill(r, lvl, av, a)
			ntt := coin(c, "ntt")
			if ntt {
				r.NTTLvl(lvl, a, a)
				a.IsNTT = true
			}
			ah := hx.HashPoly(1, a)
			what := fmt.Sprintf("level %d ntt %v (%s)", lvl, ntt, desc)

			ad := mkrlwe.NewSwitchingKey(p)
			ks.Decompose(lvl, a, ad)
			if hx.HashPoly(1, a) != ah {
				c.Fatalf("decomposition modified its input: %s", what)
			}
			// digits
			beta := p.Beta(lvl)
			if want := (lvl + alpha) / alpha; beta != want {
				c.Fatalf("number of digits at level %d is %d, want %d (%s)", lvl, beta, want, desc)
			}
			logD := 0.0
			for i := 0; i < beta; i++ {
				lo, hi := i*alpha, minI((i+1)*alpha, lvl+1)
				D := big.NewInt(1)
				ld := 0.0
				for k := lo; k < hi; k++ {
					D.Mul(D, new(big.Int).SetUint64(r.Modulus[k]))
					ld += math.Log2(float64(r.Modulus[k]))
				}
				logD = math.Max(logD, ld)
				dq := ring.NewPoly(p.N(), lvl+1)
				dp := rp.NewPoly()
				r.InvNTTLvl(lvl, ad.Value[i].Q, dq)
				rp.InvNTT(ad.Value[i].P, dp)
				tmp, m := new(big.Int), new(big.Int)
				for j := 0; j < p.N(); j++ {
					base := new(big.Int).Mod(av[j], D)
					ok := false
					for _, k := range []int64{0, 1, -1, 2} {
						x := new(big.Int).Add(base, tmp.Mul(D, big.NewInt(k)))
						good := true
						for q := 0; q <= lvl && good; q++ {
							m.SetUint64(r.Modulus[q])
							good = tmp.Mod(x, m).Uint64() == dq.Coeffs[q][j]%r.Modulus[q]
						}
						for q := 0; q < len(rp.Modulus) && good; q++ {
							m.SetUint64(rp.Modulus[q])
							good = tmp.Mod(x, m).Uint64() == dp.Coeffs[q][j]%rp.Modulus[q]
						}
						if good {
							ok = true
							break
						}
					}
					if !ok {
						c.Fatalf("digit %d of coefficient %d does not represent the residue modulo its group: %s", i, j, what)
					}
				}
			}
			// external product
			out := ring.NewPoly(p.N(), lvl+1)
			ks.ExternalProduct(lvl, a, swk, out)
			if hx.HashPoly(1, a) != ah {
				c.Fatalf("external product modified its input: %s", what)
			}
			if hx.HashSwk(1, swk) != swkHash {
				c.Fatalf("external product modified the key: %s", what)
			}
			bound := float64(beta)*float64(p.N())*6*cfg.Sigma*math.Exp2(logD+2-logP) + 4
			check := func(o *ring.Poly, l int, slack float64, name string) {
				// want = a*s mod Q_l, by schoolbook in row arithmetic
				ref := ring.NewPoly(p.N(), l+1)
				for q := 0; q <= l; q++ {
					row := make([]uint64, p.N())
					mm := new(big.Int).SetUint64(r.Modulus[q])
					for j := range row {
						row[j] = new(big.Int).Mod(av[j], mm).Uint64()
					}
					copy(ref.Coeffs[q], mulSmall(row, s, r.Modulus[q]))
				}
				d := hx.SubMod(hx.PolyBig(r, l, o, false), hx.PolyBig(r, l, ref, false), hx.QAt(r, l))
				if e := hx.MaxAbs(d); !(e <= bound*slack) {
					c.Fatalf("%s: differs from the product by %.4g, bound %.4g: %s", name, e, bound*slack, what)
				}
			}
			check(out, lvl, 1, "external product")
			// hoisted: digits reused, also below the level they were computed at
			adh := hx.HashSwk(1, ad)
			for n := intr(c, 1, 2, "hoisted uses"); n > 0; n-- {
				l2 := lvl
				slack := 1.0
				if coin(c, "lower") {
					l2 = intr(c, 0, lvl, "lvl2")
					slack = 2
				}
				o2 := ring.NewPoly(p.N(), l2+1)
				ks.ExternalProductHoisted(l2, ad, swk, o2)
				if hx.HashSwk(1, ad) != adh {
					c.Fatalf("hoisted product modified the digits: %s", what)
				}
				check(o2, l2, slack, fmt.Sprintf("hoisted product at level %d", l2))
				if l2 == lvl {
					for q := 0; q <= lvl; q++ {
						for j := range o2.Coeffs[q] {
							if (o2.Coeffs[q][j]+2*r.Modulus[q]-out.Coeffs[q][j]%r.Modulus[q])%r.Modulus[q] != 0 {
								c.Fatalf("hoisted and direct products differ at coefficient %d: %s", j, what)
							}
						}
					}
				}
			}
			c.Class("C15 alpha=%d", alpha)
			if lvl < nq-1 {
				c.Class("C15 below top")
			}
			if (lvl+1)%alpha != 0 {
				c.Class("C15 partial group")
			}
			if lvl < nq-1 || alpha > 1 {
				c.Nontrivial()
			}
			c.Sig("l%d ntt%v", lvl, ntt)
		}
	})
}

// near reports whether x/M is within 2^-40 of an integer (where a floating-point
// quotient may fall on either side).
func near(x, M *big.Int) bool {
	y := new(big.Int).Mod(x, M)
	z := new(big.Int).Sub(M, y)
	if z.Cmp(y) < 0 {
		y = z
	}
	return new(big.Int).Lsh(y, 40).Cmp(M) < 0
}

// TestC16 : basis extension.
func TestC16(t *testing.T) {
	hx.Check(t, 1.5, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxLogN: 6, MaxQ: 9, P: []int{1, 2, 3, 4, 5, 7}, LargeLogN: 13})
		rl := cfg.RLWE()
		rq, rp := rl.RingQ(), rl.RingP()
		be := mkrlwe.NewFastBasisExtender(rq, rp)
		objs := []*mkrlwe.FastBasisExtender{be, be.ShallowCopy(), be.ShallowCopy().ShallowCopy()}
		c.Sig("%v", cfg)
		N := rq.N
		for rd := hx.Steps(c, 1, 4, 60, 400); rd > 0; rd-- {
			b := objs[intr(c, 0, 2, "obj")]
			lq, lp := intr(c, 0, len(rq.Modulus)-1, "lq"), intr(c, 0, len(rp.Modulus)-1, "lp")
			Q, P := hx.QAt(rq, lq), hx.QAt(rp, lp)
			op := intr(c, 0, 4, "op")
			what := fmt.Sprintf("op %d levels %d/%d (%v)", op, lq, lp, cfg)
			switch op {
			case 0, 1:
				src, dst, ls, ld, M := rq, rp, lq, lp, Q
				if op == 1 {
					src, dst, ls, ld, M = rp, rq, lp, lq, P
				}
				v := drawBigs(c, "x", N, M, src.Modulus[:ls+1])
				a, o := src.NewPoly(), dst.NewPoly()
				fill(src, ls, v, a)
				h := hx.HashPoly(1, a)
				if op == 0 {
					b.ModUpQtoP(lq, lp, a, o)
				} else {
					b.ModUpPtoQ(lp, lq, a, o)
				}
				if hx.HashPoly(1, a) != h {
					c.Fatalf("basis extension modified its input: %s", what)
				}
				tmp, m := new(big.Int), new(big.Int)
				for j := range v {
					ks := []int64{0}
					if near(v[j], M) {
						ks = []int64{0, 1, -1}
						c.Class("C16 boundary")
					}
					ok := false
					for _, k := range ks {
						x := new(big.Int).Add(v[j], tmp.Mul(M, big.NewInt(k)))
						good := true
						for i := 0; i <= ld && good; i++ {
							m.SetUint64(dst.Modulus[i])
							good = tmp.Mod(x, m).Uint64() == o.Coeffs[i][j]%dst.Modulus[i]
						}
						if good {
							ok = true
							break
						}
					}
					if !ok {
						c.Fatalf("extended residues of %v are wrong at coefficient %d: %s", v[j], j, what)
					}
				}
			default:
				M := new(big.Int).Mul(Q, P)
				v := drawBigs(c, "x", N, M, append(append([]uint64{}, rq.Modulus[:lq+1]...), rp.Modulus[:lp+1]...))
				aq, ap := rq.NewPoly(), rp.NewPoly()
				fill(rq, lq, v, aq)
				fill(rp, lp, v, ap)
				oq, op2 := rq.NewPoly(), rp.NewPoly()
				if coin(c, "alias") {
					oq, op2 = aq, ap
				}
				div, res, ro, lo := P, oq, rq, lq
				switch op {
				case 2:
					b.ModDownQPtoQ(lq, lp, aq, ap, oq)
				case 3:
					rq.NTTLvl(lq, aq, aq)
					rp.NTTLvl(lp, ap, ap)
					b.ModDownQPtoQNTT(lq, lp, aq, ap, oq)
					rq.InvNTTLvl(lq, oq, oq)
				default:
					b.ModDownQPtoP(lq, lp, aq, ap, op2)
					div, res, ro, lo = Q, op2, rp, lp
				}
				got := hx.CRTBig(ro.Modulus[:lo+1], res.Coeffs[:lo+1])
				R := hx.QAt(ro, lo)
				for j := range v {
					want := new(big.Int).Div(v[j], div)
					d := new(big.Int).Sub(got[j], want)
					hx.Center([]*big.Int{d}, R)
					lim0, lim1 := int64(0), int64(1)
					if near(v[j], div) {
						lim0, lim1 = -1, 2
					}
					// tiny result moduli cannot distinguish; they are at least 28 bits here
					if d.Cmp(big.NewInt(lim0)) < 0 || d.Cmp(big.NewInt(lim1)) > 0 {
						c.Fatalf("quotient of %v is off by %v at coefficient %d: %s", v[j], d, j, what)
					}
				}
			}
			c.Class("C16 op=%d", op)
			if lq != lp && (lq < len(rq.Modulus)-1 || lp < len(rp.Modulus)-1) {
				c.Nontrivial()
			}
			c.Sig("op%d %d/%d", op, lq, lp)
		}
	})
}

// TestC16Copies : copies of one extender, used at the same time on different inputs.
func TestC16Copies(t *testing.T) {
	hx.Check(t, 0.03, func(c *hx.Case) {
		cfg := hx.DrawCfg(c.T, hx.CfgOpt{MinLogN: 6, MaxLogN: 8, MaxQ: 5, P: []int{1, 2, 3, 4}, LargeLogN: 11})
		rl := cfg.RLWE()
		rq, rp := rl.RingQ(), rl.RingP()
		be := mkrlwe.NewFastBasisExtender(rq, rp)
		objs := []*mkrlwe.FastBasisExtender{be, be.ShallowCopy(), be.ShallowCopy()}
		lq, lp := intr(c, 0, len(rq.Modulus)-1, "lq"), intr(c, 0, len(rp.Modulus)-1, "lp")
		op := intr(c, 0, 2, "op")
		rng := hx.NewRng(rapid.Uint64().Draw(c.T, "data"))
		const rounds = 40
		var in [3][2]*ring.Poly
		for i := range in {
			in[i] = [2]*ring.Poly{rq.NewPoly(), rp.NewPoly()}
			for k, r := range []*ring.Ring{rq, rp} {
				for j := range r.Modulus {
					for x := range in[i][k].Coeffs[j] {
						in[i][k].Coeffs[j][x] = rng.U64() % r.Modulus[j]
					}
				}
			}
		}
		apply := func(i int) uint64 {
			oq, op2 := rq.NewPoly(), rp.NewPoly()
			switch op {
			case 0:
				objs[i].ModDownQPtoQ(lq, lp, in[i][0].CopyNew(), in[i][1].CopyNew(), oq)
			case 1:
				objs[i].ModDownQPtoQNTT(lq, lp, in[i][0].CopyNew(), in[i][1].CopyNew(), oq)
			default:
				objs[i].ModDownQPtoP(lq, lp, in[i][0].CopyNew(), in[i][1].CopyNew(), op2)
			}
			return hx.HashPoly(1, oq)*31 + hx.HashPoly(2, op2)
		}
		var want [3]uint64
		var bad [3]int
		for i := range objs {
			want[i] = apply(i)
		}
		var wg sync.WaitGroup
		for i := range objs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < rounds; k++ {
					if apply(i) != want[i] {
						bad[i]++
					}
				}
			}(i)
		}
		wg.Wait()
		for i := range bad {
			if bad[i] > 0 {
				c.Fatalf("copy %d of an extender gave another result %d times of %d while the other copies were in use (op %d levels %d/%d, %v)", i, bad[i], rounds, op, lq, lp, cfg)
			}
		}
		c.Sig("copies op%d %d/%d %v", op, lq, lp, cfg)
		c.Nontrivial()
	})
}
