package hx

import (
	"math"
	"math/big"
	"math/cmplx"
	"testing"
)

// The transforms against their definitions.
func TestEmbedding(t *testing.T) {
	r := NewRng(3)
	for logN := 2; logN <= 8; logN++ {
		N := 1 << logN
		for logS := 0; logS < logN; logS++ {
			slots := 1 << logS
			coeffs := make([]*big.Int, N)
			for k := range coeffs {
				coeffs[k] = big.NewInt(int64(r.Intn(2000)) - 1000)
			}
			got := DecodeRef(logN, coeffs, 8, slots)
			five := 1
			for j := range got {
				var want complex128
				for k := 0; k < N; k += N / 2 / slots {
					a := math.Pi * float64((five*k)%(2*N)) / float64(N)
					x, _ := new(big.Float).SetInt(coeffs[k]).Float64()
					want += complex(x/8, 0) * cmplx.Exp(complex(0, a))
				}
				if cmplx.Abs(got[j]-want) > 1e-8 {
					t.Fatal("decode", logN, logS, j, got[j], want)
				}
				five = five * 5 % (2 * N)
			}
			enc := EncodeRef(logN, got)
			for k := range enc {
				x, _ := new(big.Float).SetInt(coeffs[k]).Float64()
				if k%(N/2/slots) != 0 {
					x = 0
				}
				if math.Abs(enc[k]-x/8) > 1e-8 {
					t.Fatal("encode", logN, logS, k, enc[k], x/8)
				}
			}
		}
	}
}
