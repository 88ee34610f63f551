// Package hx is the support library of the property checks: deterministic
// randomness, generators for parameter sets / parties / messages, the plaintext
// reference model with rigorous error bounds, snapshots and case accounting.
package hx

import (
	"crypto/rand"
	"math"
	"sync"
)

// detReader is a deterministic replacement for crypto/rand.Reader. The library
// under test seeds every PRNG from crypto/rand, so replacing the reader makes a
// case a pure function of the drawn seed and of the code.
type detReader struct {
	mu sync.Mutex
	s  uint64
}

func (d *detReader) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for i := 0; i < len(p); {
		v := splitmix(&d.s)
		for k := 0; k < 8 && i < len(p); k++ {
			p[i] = byte(v >> (8 * uint(k)))
			i++
		}
	}
	return len(p), nil
}

func splitmix(s *uint64) uint64 {
	*s += 0x9E3779B97F4A7C15
	z := *s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// SetRand makes all randomness of the library under test a function of seed.
func SetRand(seed uint64) { rand.Reader = &detReader{s: seed ^ 0xA5A5A5A55A5A5A5A} }

// Rng is a tiny deterministic generator used to expand a drawn seed into bulk data.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed*0x2545F4914F6CDD1D + 1} }

func (r *Rng) U64() uint64 { return splitmix(&r.s) }

func (r *Rng) Intn(n int) int { return int(r.U64() % uint64(n)) }

// F returns a float in [-1,1).
func (r *Rng) F() float64 { return float64(int64(r.U64())>>10) / float64(uint64(1)<<53) }

func (r *Rng) F01() float64 { return math.Abs(r.F()) }

func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
