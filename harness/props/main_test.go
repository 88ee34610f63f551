package props

import (
	"fmt"
	"math"
	"testing"

	"pgregory.net/rapid"
	"verifharness/hx"

	"mk-lr/mkckks"
)

func TestMain(m *testing.M) { hx.Main(m) }

func intr(c *hx.Case, lo, hi int, label string) int { return rapid.IntRange(lo, hi).Draw(c.T, label) }
func coin(c *hx.Case, label string) bool            { return rapid.Bool().Draw(c.T, label) }
func oneIn(c *hx.Case, n int, label string) bool    { return rapid.IntRange(0, n-1).Draw(c.T, label) == 0 }

func perm(c *hx.Case, n int, label string) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	if n < 2 {
		return x
	}
	return rapid.Permutation(x).Draw(c.T, label)
}

// mustPanic fails the case if f returns normally.
func mustPanic(c *hx.Case, what string, f func()) {
	if _, did := hx.Panics(f); !did {
		c.Fatalf("%s: expected a refusal (panic), but the call returned normally", what)
	}
}

func relEq(a, b float64) bool {
	if a == b {
		return true
	}
	return math.Abs(a-b) <= 1e-12*math.Max(math.Abs(a), math.Abs(b))
}

func msgOf(w *hx.World, v []complex128) *mkckks.Message {
	m := mkckks.NewMessage(w.P)
	copy(m.Value, v)
	return m
}

// drawMag draws a log2 magnitude up to what fits at level and scale.
func drawMag(w *hx.World, label string, scale float64, level int) float64 {
	hi := w.MaxMag(scale, level)
	if hi > 60 {
		hi = 60
	}
	switch intr(w.C, 0, 4, label+".mag?") {
	case 0:
		return hi
	case 1:
		return rapid.Float64Range(-20, 0).Draw(w.C.T, label+".mag")
	case 2:
		return rapid.Float64Range(0, hi).Draw(w.C.T, label+".mag")
	default:
		return 0
	}
}

func lbl(s string, i int) string { return fmt.Sprintf("%s%d", s, i) }
