package props

import (
	"fmt"
	"math"
	"math/big"
	"reflect"
	"testing"

	"github.com/ldsec/lattigo/v2/ring"
	"github.com/ldsec/lattigo/v2/rlwe"
	"pgregory.net/rapid"

	"mk-lr/mkckks"
	"mk-lr/mkrlwe"
	"verifharness/hx"
)

// residual computes, row by row, x + y*s - z (all integer polynomials modulo each of
// the ciphertext and special moduli) and returns the common small integer polynomial;
// ok=false with a reason if the rows do not represent one polynomial bounded by lim.
type rows struct {
	mod  []uint64
	r    []*ring.Ring
	idx  []int
	poly [][]uint64
}

// toCoeffs returns the coefficient-domain rows of a QP polynomial stored in NTT form,
// optionally removing the Montgomery factor.
func toCoeffs(p mkrlwe.Parameters, x rlwe.PolyQP, mform bool) rows {
	var o rows
	do := func(r *ring.Ring, pol *ring.Poly) {
		lvl := len(r.Modulus) - 1
		t := ring.NewPoly(r.N, lvl+1)
		for i := range t.Coeffs {
			for j := range t.Coeffs[i] {
				t.Coeffs[i][j] = pol.Coeffs[i][j] % r.Modulus[i]
			}
		}
		if mform {
			r.InvMFormLvl(lvl, t, t)
		}
		r.InvNTTLvl(lvl, t, t)
		for i := range t.Coeffs {
			o.mod = append(o.mod, r.Modulus[i])
			o.r = append(o.r, r)
			o.idx = append(o.idx, i)
			o.poly = append(o.poly, t.Coeffs[i])
		}
	}
	do(p.RingQ(), x.Q)
	do(p.RingP(), x.P)
	return o
}

// negacyclic product of a row (mod q) with a small integer polynomial, O(N^2) reference.
func mulSmall(a []uint64, s []int64, q uint64) []uint64 {
	n := len(a)
	out := make([]uint64, n)
	bred := ring.BRedParams(q)
	for k, c := range s {
		if c == 0 {
			continue
		}
		neg := c < 0
		u := uint64(c)
		if neg {
			u = uint64(-c)
		}
		u %= q
		for j, x := range a {
			v := x
			if u != 1 {
				v = ring.BRed(x, u, q, bred)
			}
			i := j + k
			sg := neg
			if i >= n {
				i -= n
				sg = !sg
			}
			if sg {
				out[i] += q - v
			} else {
				out[i] += v
			}
			if out[i] >= q {
				out[i] -= q
			}
		}
	}
	return out
}

// applyAut returns s(X^g).
func applyAut(s []int64, g int) []int64 {
	n := len(s)
	o := make([]int64, n)
	for k, c := range s {
		i := (k * g) % (2 * n)
		if i < 0 {
			i += 2 * n
		}
		if i >= n {
			o[i-n] -= c
		} else {
			o[i] += c
		}
	}
	return o
}

// keyErr checks x = e - a*t + P*g_i*z for a small e and returns e.
// digit < 0 means there is no gadget term.
func keyErr(c *hx.Case, p mkrlwe.Parameters, what string, x, a rlwe.PolyQP, mx, ma bool, t []int64, digit int, z []int64, bound int64) []int64 {
	rx, ra := toCoeffs(p, x, mx), rows{}
	if t != nil {
		ra = toCoeffs(p, a, ma)
	}
	alpha := p.Alpha()
	nq := len(p.RingQ().Modulus)
	P := p.RingP().ModulusBigint
	n := p.N()
	out := make([]int64, n)
	for i, q := range rx.mod {
		e := append([]uint64{}, rx.poly[i]...)
		if t != nil {
			pr := mulSmall(ra.poly[i], t, q)
			for j := range e {
				e[j] = (e[j] + pr[j]) % q
			}
		}
		if digit >= 0 && i < nq && i/alpha == digit {
			pm := new(big.Int).Mod(P, new(big.Int).SetUint64(q)).Uint64()
			bred := ring.BRedParams(q)
			for j := range e {
				zz := uint64((z[j]%int64(q) + int64(q))) % q
				e[j] = (e[j] + q - ring.BRed(zz, pm, q, bred)) % q
			}
		}
		for j := range e {
			v := int64(e[j])
			if e[j] > q/2 {
				v = -int64(q - e[j])
			}
			if i == 0 {
				out[j] = v
			} else if v != out[j] {
				c.Fatalf("%s: error of coefficient %d is %d modulo the first modulus but %d modulo modulus %d (%d)", what, j, out[j], v, i, q)
			}
			if v > bound || v < -bound {
				c.Fatalf("%s: error coefficient %d is %d, beyond the bound %d (modulus %d)", what, j, v, bound, q)
			}
		}
	}
	return out
}

// errStats accumulates error polynomials and checks their distribution and independence.
type errStats struct {
	names []string
	polys [][]int64
}

func (s *errStats) add(name string, e []int64) {
	s.names, s.polys = append(s.names, name), append(s.polys, e)
}

func (s *errStats) check(c *hx.Case, sigma float64) {
	var n, sum, sq float64
	seen := map[string]string{}
	for i, e := range s.polys {
		zero := true
		for _, x := range e {
			n++
			sum += float64(x)
			sq += float64(x) * float64(x)
			if x != 0 {
				zero = false
			}
		}
		if zero {
			c.Fatalf("%s: error polynomial is zero", s.names[i])
		}
		k := fmt.Sprint(e)
		if o, dup := seen[k]; dup {
			c.Fatalf("%s and %s carry the same error polynomial", o, s.names[i])
		}
		neg := make([]int64, len(e))
		for j := range e {
			neg[j] = -e[j]
		}
		if o, dup := seen[fmt.Sprint(neg)]; dup {
			c.Fatalf("%s and %s carry opposite error polynomials", o, s.names[i])
		}
		seen[k] = s.names[i]
	}
	if n < 128 {
		return
	}
	mean := sum / n
	std := math.Sqrt(sq/n - mean*mean)
	eff := math.Sqrt(sigma*sigma + 1.0/12)
	if math.Abs(std/eff-1) > 8/math.Sqrt(2*n)+0.03 {
		c.Fatalf("errors of %v have standard deviation %.3f over %g samples, configured %.3f", s.names, std, n, sigma)
	}
	if math.Abs(mean) > 8*sigma/math.Sqrt(n) {
		c.Fatalf("errors of %v have mean %.3f over %g samples", s.names, mean, n)
	}
}

// drawParams draws multi-key parameters with an arbitrary digit-group divisor.
func drawParams(c *hx.Case, o hx.CfgOpt) (hx.Cfg, mkrlwe.Parameters, string) {
	cfg := hx.DrawCfg(c.T, o)
	gamma := 2
	if oneIn(c, 3, "gamma?") {
		gamma = intr(c, 1, minI(3, len(cfg.LogP)), "gamma")
	}
	p := mkrlwe.NewParameters(cfg.RLWE(), gamma)
	return cfg, p, fmt.Sprintf("%v gamma=%d", cfg, gamma)
}

func steps(c *hx.Case, p mkrlwe.Parameters) int {
	if p.N() < 32 { // many small error polynomials would coincide by chance
		return intr(c, 2, 6, "steps")
	}
	return hx.Steps(c, 2, 6, 80, 200)
}

// TestC12 : key well-formedness.
func TestC12(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg, p, desc := drawParams(c, hx.CfgOpt{MaxLogN: 6, LargeLogN: 10})
		kg := mkrlwe.NewKeyGenerator(p)
		c.Sig("%s", desc)
		bound := int64(6 * cfg.Sigma)
		h := p.N() / 2
		es := &errStats{}
		crsHash := func() uint64 {
			var s uint64
			for i, k := range p.CRS {
				s += hx.HashSwk(uint64(i)*7919+5, k)
			}
			return s
		}
		type owner struct {
			sk   *mkrlwe.SecretKey
			s    []int64
			hash uint64
		}
		skHash := func(k *mkrlwe.SecretKey) uint64 { return hx.HashPoly(hx.HashPoly(1, k.Value.Q), k.Value.P) }
		var os []owner
		owners := hx.DrawIDs(c.T, intr(c, 1, 2, "owners"))
		if oneIn(c, 3, "namesake") {
			owners = append(owners, owners[0]) // another secret of the same name
			c.Class("C12 two secrets of one name")
		}
		for _, id := range owners {
			var sk *mkrlwe.SecretKey
			switch intr(c, 0, 3, "secret") {
			case 0:
				sk = kg.GenSecretKeyGaussian(id)
			case 1:
				sk = kg.GenSecretKeySparse(intr(c, 1, p.N(), "hw"), id)
			default:
				sk = kg.GenSecretKey(id)
			}
			os = append(os, owner{sk, hx.SKCoeffs(p, sk), skHash(sk)})
		}
		extra := intr(c, 1, h-1, "extra")
		if oneIn(c, 6, "beyond") { // full turns more, with a reference string of its own
			extra += h * intr(c, 1, 3, "turns")
		}
		if p.CRS[extra] == nil {
			p.AddCRS(extra)
		}
		crs := crsHash()
		beta := p.Beta(p.MaxLevel())
		steps := steps(c, p)
		kinds := map[string]bool{}
		for st := 0; st < steps; st++ {
			o := os[intr(c, 0, len(os)-1, "owner")]
			id := o.sk.ID
			nm := func(kind string, i int) string {
				return fmt.Sprintf("step %d %s key of %q digit %d [%s]", st, kind, id, i, desc)
			}
			chkID := func(kind, got string) {
				if got != id {
					c.Fatalf("%s key of %q carries identifier %q (%s)", kind, id, got, desc)
				}
			}
			chkLen := func(kind string, k *mkrlwe.SwitchingKey) {
				if len(k.Value) != beta {
					c.Fatalf("%s key has %d digits, want %d (%s)", kind, len(k.Value), beta, desc)
				}
			}
			kind := rapid.SampledFrom([]string{"public", "pair", "relin", "rot", "conj", "switch", "gauss"}).Draw(c.T, "kind")
			kinds[kind] = true
			switch kind {
			case "public", "pair":
				var pk *mkrlwe.PublicKey
				s := o.s
				if kind == "pair" {
					var sk *mkrlwe.SecretKey
					sk, pk = kg.GenKeyPair(id)
					s = hx.SKCoeffs(p, sk)
					chkID("secret", sk.ID)
				} else {
					pk = kg.GenPublicKey(o.sk)
				}
				chkID(kind, pk.ID)
				es.add(nm(kind, 0), keyErr(c, p, nm(kind, 0), pk.Value[0], pk.Value[1], false, false, s, -1, nil, bound))
				for i := range pk.Value[1].Q.Coeffs {
					for j, x := range pk.Value[1].Q.Coeffs[i] {
						if x != p.CRS[0].Value[0].Q.Coeffs[i][j] {
							c.Fatalf("%s: public randomness is not the common reference string", nm(kind, 0))
						}
					}
				}
			case "relin":
				r := kg.GenSecretKey(id)
				rs := hx.SKCoeffs(p, r)
				rlk := kg.GenRelinearizationKey(o.sk, r)
				chkID(kind, rlk.ID)
				for i := 0; i < 3; i++ {
					chkLen(kind, rlk.Value[i])
				}
				negr := make([]int64, len(rs))
				for j := range rs {
					negr[j] = -rs[j]
				}
				for i := 0; i < beta; i++ {
					es.add(nm("relin.b", i), keyErr(c, p, nm("relin.b", i), rlk.Value[0].Value[i], p.CRS[0].Value[i], true, true, o.s, -1, nil, bound))
					es.add(nm("relin.d", i), keyErr(c, p, nm("relin.d", i), rlk.Value[1].Value[i], p.CRS[0].Value[i], true, true, rs, i, o.s, bound))
					es.add(nm("relin.v", i), keyErr(c, p, nm("relin.v", i), rlk.Value[2].Value[i], p.CRS[-1].Value[i], true, true, o.s, i, negr, bound))
				}
			case "rot":
				k := 1 << uint(intr(c, 0, cfg.LogN-2, "rotpow"))
				if coin(c, "rotextra") {
					k = extra
				}
				var rk *mkrlwe.RotationKey
				if oneIn(c, 4, "default set") {
					set := mkrlwe.NewRotationKeySet()
					if coin(c, "refill") { // keys of an earlier secret are replaced
						for i := 0; i < cfg.LogN-1; i++ {
							if coin(c, "old") {
								set.AddRotationKey(mkrlwe.NewRotationKey(p, 1<<uint(i), id))
							}
						}
					}
					kg.GenDefaultRotationKeys(o.sk, set)
					if len(set.Value) != 1 || len(set.Value[id]) != cfg.LogN-1 {
						c.Fatalf("default rotation keys: %d keys for %q, want the %d powers of two below %d (%s)", len(set.Value[id]), id, cfg.LogN-1, h, desc)
					}
					k = 1 << uint(intr(c, 0, cfg.LogN-2, "rotpow2"))
					rk = set.GetRotationKey(id, uint(k))
				} else {
					arg := k
					if k < h && oneIn(c, 5, "negative") {
						arg -= h * (intr(c, 1, 3, "turns back") << uint(intr(c, 0, 1, "far")*intr(c, 0, 60-cfg.LogN, "shift")))
					}
					rk = kg.GenRotationKey(arg, o.sk)
				}
				chkID(kind, rk.ID)
				chkLen(kind, rk.Value)
				if rk.RotIdx != uint(k) {
					c.Fatalf("rotation key for %d is labelled %d (%s)", k, rk.RotIdx, desc)
				}
				// automorphism X -> X^(5^k); its inverse acts on the secret
				g := 1
				for i := 0; i < h-norm(k, h); i++ {
					g = g * 5 % (2 * p.N())
				}
				sp := applyAut(o.s, g)
				for i := 0; i < beta; i++ {
					n := nm(fmt.Sprintf("rotation(%d)", k), i)
					es.add(n, keyErr(c, p, n, rk.Value.Value[i], p.CRS[k].Value[i], true, true, sp, i, o.s, bound))
				}
			case "conj":
				ck := kg.GenConjugationKey(o.sk)
				chkID(kind, ck.ID)
				chkLen(kind, ck.Value)
				sp := applyAut(o.s, 2*p.N()-1)
				for i := 0; i < beta; i++ {
					es.add(nm(kind, i), keyErr(c, p, nm(kind, i), ck.Value.Value[i], p.CRS[-2].Value[i], true, true, o.s, i, sp, bound))
				}
			case "switch":
				swk := mkrlwe.NewSwitchingKey(p)
				chkLen(kind, swk)
				kg.GenSwitchingKey(o.sk, swk)
				for i := 0; i < beta; i++ {
					es.add(nm(kind, i), keyErr(c, p, nm(kind, i), swk.Value[i], rlwe.PolyQP{}, true, true, nil, i, o.s, bound))
				}
			case "gauss":
				e := p.RingQP().NewPoly()
				kg.GenGaussianError(e)
				es.add(nm(kind, 0), keyErr(c, p, nm(kind, 0), e, rlwe.PolyQP{}, false, false, nil, -1, nil, bound))
			}
			if skHash(o.sk) != o.hash {
				c.Fatalf("generating a %s key modified the secret key (%s)", kind, desc)
			}
			if crsHash() != crs {
				c.Fatalf("generating a %s key modified the common reference string (%s)", kind, desc)
			}
			c.Class("C12 %s", kind)
			c.Sig("%s", kind)
		}
		es.check(c, cfg.Sigma)
		if len(kinds) >= 2 || beta >= 2 {
			c.Nontrivial()
		}
		if p.Alpha() >= 2 {
			c.Class("C12 grouped digits")
		}
	})
}

// secretOf recovers the secret's integer coefficients and checks all rows agree.
func secretOf(c *hx.Case, p mkrlwe.Parameters, sk *mkrlwe.SecretKey, bound int64, what string) []int64 {
	return keyErr(c, p, what, sk.Value, rlwe.PolyQP{}, true, true, nil, -1, nil, bound)
}

// TestC13 : secret key distributions.
func TestC13(t *testing.T) {
	hx.Check(t, 1, func(c *hx.Case) {
		cfg, p, desc := drawParams(c, hx.CfgOpt{MaxQ: 6, LargeLogN: 14})
		kg := mkrlwe.NewKeyGenerator(p)
		if coin(c, "mkckks") {
			w := mkckks.NewParameters(cfg.CKKS())
			p, kg = w.Parameters, mkckks.NewKeyGenerator(w)
		}
		c.Sig("%s", desc)
		N := p.N()
		seen := map[string]string{}
		fresh := func(s []int64, what string) {
			nz := 0
			for _, x := range s {
				if x != 0 {
					nz++
				}
			}
			if nz < 24 { // too few degrees of freedom to tell a coincidence apart
				return
			}
			k := fmt.Sprint(s)
			if o, dup := seen[k]; dup {
				c.Fatalf("%s and %s are the same secret (%s)", o, what, desc)
			}
			seen[k] = what
		}
		type acc struct{ n, zero, plus, minus float64 }
		count := func(a *acc, s []int64) {
			for _, x := range s {
				a.n++
				switch {
				case x == 0:
					a.zero++
				case x > 0:
					a.plus++
				default:
					a.minus++
				}
			}
		}
		balanced := func(a *acc, what string) {
			nz := a.plus + a.minus
			if nz >= 64 && math.Abs(a.plus-a.minus) > 8*math.Sqrt(nz) {
				c.Fatalf("%s: %g positive and %g negative coefficients (%s)", what, a.plus, a.minus, desc)
			}
		}
		kind := intr(c, 0, 5, "kind")
		pz := rapid.Float64Range(0.05, 0.95).Draw(c.T, "p")
		ids := hx.DrawIDs(c.T, 3)
		reps := hx.Steps(c, 2, 4, 60, 300)
		var a acc
		var gs []int64
		for r := 0; r < reps; r++ {
			id := ids[r%3]
			what := fmt.Sprintf("call %d kind %d", r, kind)
			var sk *mkrlwe.SecretKey
			var pk *mkrlwe.PublicKey
			bound := int64(1)
			switch kind {
			case 0:
				sk = kg.GenSecretKey(id)
			case 1:
				sk = kg.GenSecretKeyWithDistrib(pz, id)
			case 2:
				hw := intr(c, 1, N, "hw")
				sk = kg.GenSecretKeySparse(hw, id)
				s := secretOf(c, p, sk, 1, what)
				nz := 0
				for _, x := range s {
					if x != 0 {
						nz++
					}
				}
				if nz != hw {
					c.Fatalf("%s: sparse secret has %d non-zero coefficients, requested %d (%s)", what, nz, hw, desc)
				}
			case 3:
				sk = kg.GenSecretKeyGaussian(id)
				bound = int64(6 * cfg.Sigma)
			case 4:
				sk, pk = kg.GenKeyPair(id)
			case 5:
				hw := intr(c, 1, N, "hw")
				sk, pk = genKeyPairSparse(c, kg, hw, id)
				s := secretOf(c, p, sk, 1, what)
				nz := 0
				for _, x := range s {
					if x != 0 {
						nz++
					}
				}
				if nz != hw {
					c.Fatalf("%s: sparse secret has %d non-zero coefficients, requested %d (%s)", what, nz, hw, desc)
				}
			}
			if sk.ID != id {
				c.Fatalf("%s: secret key carries identifier %q, want %q", what, sk.ID, id)
			}
			s := secretOf(c, p, sk, bound, what+" ["+desc+"]")
			fresh(s, what)
			count(&a, s)
			gs = append(gs, s...)
			if pk != nil {
				if pk.ID != id {
					c.Fatalf("%s: public key carries identifier %q, want %q", what, pk.ID, id)
				}
				keyErr(c, p, what+": public key does not belong to the secret key", pk.Value[0], pk.Value[1], false, false, s, -1, nil, int64(6*cfg.Sigma))
			}
		}
		sd := func(q float64) float64 { return 8*math.Sqrt(q*(1-q)/a.n) + 0.01 }
		switch kind {
		case 0, 4:
			// documented as one third, implemented as one half; anything in between is a ternary key
			f := a.zero / a.n
			if a.n >= 64 && (f < 1.0/3-sd(1.0/3) || f > 0.5+sd(0.5)) {
				c.Fatalf("default secret: fraction of zeros %.3f over %g coefficients (%s)", f, a.n, desc)
			}
			balanced(&a, "default secret")
		case 1:
			if f := a.zero / a.n; math.Abs(f-pz) > sd(pz) {
				c.Fatalf("secret with requested zero probability %.3f has fraction %.3f over %g coefficients (%s)", pz, f, a.n, desc)
			}
			balanced(&a, "ternary secret")
		case 2, 5:
			balanced(&a, "sparse secret")
		case 3:
			es := &errStats{}
			es.add("gaussian secrets", gs)
			es.check(c, cfg.Sigma)
		}
		if a.n >= 64 {
			c.Nontrivial()
		}
		c.Class("C13 kind=%d", kind)
		c.Sig("kind%d p%.3f reps%d", kind, pz, reps)
	})
}

// genKeyPairSparse calls KeyGenerator.GenKeyPairSparse through reflection: the base
// commit declared it without the id (and always panicked), and the check must still
// build there.
func genKeyPairSparse(c *hx.Case, kg *mkrlwe.KeyGenerator, hw int, id string) (*mkrlwe.SecretKey, *mkrlwe.PublicKey) {
	m := reflect.ValueOf(kg).MethodByName("GenKeyPairSparse")
	args := []reflect.Value{reflect.ValueOf(hw)}
	if m.Type().NumIn() == 2 {
		args = append(args, reflect.ValueOf(id))
	}
	out := m.Call(args)
	return out[0].Interface().(*mkrlwe.SecretKey), out[1].Interface().(*mkrlwe.PublicKey)
}
