package props

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"verifharness/hx"
)

// TestC20 : numeric helpers.
func TestC20(t *testing.T) {
	hx.Check(t, 2, func(c *hx.Case) {
		switch k := intr(c, 0, 4, "helper"); k {
		case 0, 1, 2:
			logn := intr(c, 0, 9, "log")
			n := 1 << uint(logn)
			extra := intr(c, 0, 5, "extra")
			src := make([]int, n+extra)
			for i := range src {
				if i < n && logn > 0 {
					src[i] = int(bits.Reverse32(uint32(i)) >> (32 - uint(logn)))
				} else {
					src[i] = i
				}
			}
			f := make([]float64, n+extra)
			z := make([]complex128, n+extra)
			rc := make([]*ring.Complex, n+extra)
			for i := range f {
				f[i] = float64(i)
				z[i] = complex(float64(i), -float64(i))
				rc[i] = ring.NewComplex(ring.NewFloat(float64(i), 53), ring.NewFloat(0, 53))
			}
			orig := append([]*ring.Complex{}, rc...)
			rep := intr(c, 1, 2, "twice")
			for i := 0; i < rep; i++ {
				switch k {
				case 0:
					mkckks.SliceBitReverseInPlaceFloat64(f, n)
				case 1:
					mkckks.SliceBitReverseInPlaceComplex128(z, n)
				default:
					mkckks.SliceBitReverseInPlaceRingComplex(rc, n)
				}
			}
			for i := range f {
				w := src[i]
				if rep == 2 {
					w = i
				}
				ok := true
				switch k {
				case 0:
					ok = f[i] == float64(w)
				case 1:
					ok = z[i] == complex(float64(w), -float64(w))
				default:
					ok = rc[i] == orig[w]
				}
				if !ok {
					c.Fatalf("bit reversal helper %d over N=%d (slice of %d, applied %d times): wrong entry at %d", k, n, n+extra, rep, i)
				}
			}
			if logn >= 2 {
				c.Nontrivial()
			}
			c.Class("C20 bitrev %d", k)
			c.Sig("bitrev%d n%d+%d x%d", k, n, extra, rep)
		case 3:
			n := intr(c, 1, 40, "n")
			off := rapid.Float64Range(-1e3, 1e3).Draw(c.T, "off")
			// a realistic scale: a subnormal one would tell apart rearrangements of the
			// same formula (scaling before or after squaring) by underflow alone
			sc := 0.0
			if e := rapid.IntRange(-61, 60).Draw(c.T, "log2scale"); e >= -60 {
				sc = math.Ldexp(rapid.Float64Range(1, 2).Draw(c.T, "scale"), e)
			}
			v := rapid.SliceOfN(rapid.Float64Range(-100, 100), n, n).Draw(c.T, "v")
			x := make([]float64, n)
			// two-pass reference in high precision
			sum := new(big.Float).SetPrec(300)
			for i := range v {
				x[i] = v[i] + off
				sum.Add(sum, new(big.Float).SetFloat64(x[i]))
			}
			mean := new(big.Float).SetPrec(300).Quo(sum, new(big.Float).SetInt64(int64(n)))
			va := new(big.Float).SetPrec(300)
			for i := range x {
				d := new(big.Float).SetPrec(300).Sub(new(big.Float).SetFloat64(x[i]), mean)
				va.Add(va, d.Mul(d, d))
			}
			va.Quo(va, new(big.Float).SetInt64(int64(n)))
			w, _ := va.Float64()
			w = math.Sqrt(w) * sc
			in := append([]float64{}, x...)
			got := mkckks.StandardDeviation(x, sc)
			if math.Abs(got-w) > 1e-9*w+1e-9*sc*(math.Abs(off)+100)*1e-3 {
				c.Fatalf("standard deviation of %v times %v is %v, want %v", x, sc, got, w)
			}
			for i := range in {
				if in[i] != x[i] {
					c.Fatalf("standard deviation modified its input")
				}
			}
			if n >= 2 {
				c.Nontrivial()
			}
			c.Class("C20 std")
			c.Sig("std n%d off%.3g sc%.3g", n, off, sc)
		case 4:
			cfg := hx.DrawCfg(c.T, hx.CfgOpt{MaxLogN: 4, MaxQ: 8, P: []int{1, 2, 3, 4, 5}})
			Q, P := cfg.RLWE().RingQ().Modulus, cfg.RLWE().RingP().Modulus
			Q = Q[:intr(c, 1, len(Q), "nq")]
			P = P[:intr(c, 0, len(P), "np")]
			got := mkckks.GenSwitchkeysRescalingParams(Q, P)
			if len(got) != len(Q) {
				c.Fatalf("%d rescaling parameters for %d moduli", len(got), len(Q))
			}
			for i, q := range Q {
				b := new(big.Int).SetUint64(q)
				w := big.NewInt(1)
				for _, p := range P {
					w.Mul(w, new(big.Int).SetUint64(p))
				}
				w.ModInverse(w.Mod(w, b), b)
				w.Lsh(w, 64)
				w.Mod(w, b)
				if got[i] != w.Uint64() {
					c.Fatalf("rescaling parameter %d for moduli %v / %v is %d, want %d", i, Q, P, got[i], w.Uint64())
				}
			}
			c.Nontrivial()
			c.Class("C20 rescaling params")
			c.Sig("%s", fmt.Sprint(Q, P))
		}
	})
}
