// C02: secp256k1 arithmetic against the textbook affine group law.
package c02

import (
	"bytes"
	"fmt"
	"math/big"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/crypto/secp256k1"
	"github.com/philhofer/seth/ec"

	"vharness/ref"
	"vharness/vh"
)

var one = big.NewInt(1)

// coord returns an interesting field element.
func coord(c *vh.Case) *big.Int {
	switch c.Rng.Intn(7) {
	case 6: // around 1/2 (twice it is 1) and other small fractions
		v := new(big.Int).ModInverse(big.NewInt(int64(2+c.Rng.Intn(15))), ref.P)
		if c.Rng.Intn(3) == 0 {
			v.Sub(ref.P, v)
		}
		return v
	case 0:
		return big.NewInt(int64(1 + c.Rng.Intn(1000)))
	case 1:
		return new(big.Int).Sub(ref.P, big.NewInt(int64(1+c.Rng.Intn(1000))))
	case 2: // edges of the 26-bit limbs
		v := new(big.Int)
		for i := 0; i < 10; i++ {
			w := new(big.Int)
			switch c.Rng.Intn(4) {
			case 0:
				w.SetInt64(1<<26 - 1)
			case 1:
				w.SetInt64(int64(c.Rng.Intn(2)))
			case 2:
				w.SetInt64(int64(c.Rng.Intn(1 << 26)))
			}
			v.Or(v, w.Lsh(w, uint(26*i)))
		}
		return v.Mod(v, ref.P)
	default:
		v := vh.Big(c.Rng, 256)
		return v.Mod(v, ref.P)
	}
}

func point(c *vh.Case) (ref.Point, string) {
	for {
		switch c.Rng.Intn(5) {
		case 0:
			if p, ok := ref.Lift(coord(c), uint(c.Rng.Intn(2))); ok {
				return p, "x"
			}
		case 1:
			if p, ok := ref.LiftY(coord(c)); ok {
				return p, "y"
			}
		case 2:
			return ref.Base(), "G"
		case 3: // small multiple
			return ref.Mul(ref.Base(), big.NewInt(int64(1+c.Rng.Intn(300)))), "kG"
		default:
			return ref.Mul(ref.Base(), vh.Big(c.Rng, 256)), "rG"
		}
	}
}

var lambda, _ = new(big.Int).SetString("5363AD4CC05C30E0A5261C028812645A122E22EA20816678DF02967C1B23BD72", 16)

// scalar returns scalar bytes of varying length.
func scalar(c *vh.Case) ([]byte, string) {
	var k *big.Int
	kind := ""
	switch c.Rng.Intn(9) {
	case 0:
		k, kind = big.NewInt(int64(c.Rng.Intn(20))), "small"
	case 1:
		k, kind = new(big.Int).Add(ref.N, big.NewInt(int64(c.Rng.Intn(21)-10))), "aroundN"
	case 2:
		k, kind = new(big.Int).Sub(new(big.Int).Lsh(one, 256), big.NewInt(int64(1+c.Rng.Intn(10)))), "max"
	case 3: // around multiples of lambda: one half of the split vanishes
		k = new(big.Int).Mul(lambda, big.NewInt(int64(c.Rng.Intn(601)-300)))
		k.Add(k, big.NewInt(int64(c.Rng.Intn(5)-2)*int64(1+c.Rng.Intn(40))))
		k.Mod(k, ref.N)
		kind = "lambda"
	case 4: // longer than 32 bytes
		k, kind = vh.Big(c.Rng, 264+c.Rng.Intn(600)), "long"
	case 5: // runs of ones, for the non-adjacent form
		k = new(big.Int).Sub(new(big.Int).Lsh(one, uint(1+c.Rng.Intn(256))), one)
		k.Lsh(k, uint(c.Rng.Intn(8)))
		kind = "ones"
	case 6:
		k, kind = new(big.Int).Mul(ref.N, big.NewInt(int64(1+c.Rng.Intn(1000)))), "multN"
	default:
		k, kind = vh.Big(c.Rng, 256), "rnd"
	}
	b := k.Bytes()
	if c.Rng.Intn(3) == 0 { // leading zeros
		b = append(make([]byte, c.Rng.Intn(40)), b...)
		kind += "+pad"
	}
	return b, kind
}

func TestProperty(t *testing.T) {
	r := vh.Start("C02", "exploration")
	r.Rule("a case is an operation on generated points and scalars (edge coordinates, edge scalars, exceptional pairs); distinct by operation, operand classes and result; results equal to infinity and generic ones are both kept")
	r.Assume("the affine group law over math/big in harness/ref is right; bulk scalar multiplications are compared with libsecp256k1")
	defer r.Finish()
	curve := ec.S256()
	G := ref.Base()
	if !ref.OnCurve(G.X, G.Y) || !ref.Mul(G, new(big.Int).Sub(ref.N, one)).Eq(ref.Neg(G)) {
		r.HarnessError("reference curve is wrong")
		return
	}
	lib := secp256k1.S256()
	pr := curve.Params()
	if pr.P.Cmp(ref.P) != 0 || pr.N.Cmp(ref.N) != 0 || pr.Gx.Cmp(ref.Gx) != 0 || pr.Gy.Cmp(ref.Gy) != 0 || pr.B.Int64() != 7 || pr.BitSize != 256 {
		r.Violate("params#0", "params", fmt.Sprintf("curve parameters are wrong: %+v", pr))
	}

	check := func(c *vh.Case, op string, gx, gy *big.Int, want ref.Point, format string, args ...interface{}) {
		c.Eval(1)
		if gx == nil || gy == nil || gx.Cmp(want.X) != 0 || gy.Cmp(want.Y) != 0 {
			c.Fail(op, "%s: got (%x, %x), want (%x, %x)", fmt.Sprintf(format, args...), gx, gy, want.X, want.Y)
		}
		if want.IsInf() {
			c.Count("results_at_infinity", 1)
		}
	}
	unchanged := func(c *vh.Case, op string, p ref.Point, x, y *big.Int) {
		if p.X.Cmp(x) != 0 || p.Y.Cmp(y) != 0 {
			c.Fail(op+"-mutates", "%s changed its operand (%x, %x) to (%x, %x)", op, p.X, p.Y, x, y)
		}
	}

	r.Cases("add", r.Scale(6000, 200000), 0, func(c *vh.Case) {
		p, pk := point(c)
		q, qk := point(c)
		kind := "generic"
		switch c.Rng.Intn(7) {
		case 0:
			q, kind = p.Copy(), "equal"
		case 1:
			q, kind = ref.Neg(p), "opposite"
		case 2:
			q, kind = ref.Inf(), "right-inf"
		case 3:
			p, kind = ref.Inf(), "left-inf"
			if c.Rng.Intn(4) == 0 {
				q = ref.Inf()
			}
		case 4: // same y, different x (beta multiple)
			q, kind = ref.Mul(p, lambda), "beta"
		}
		a, b := p.Copy(), q.Copy()
		gx, gy := curve.Add(a.X, a.Y, b.X, b.Y)
		check(c, "add", gx, gy, ref.Add(p, q), "(%x,%x) + (%x,%x) [%s]", p.X, p.Y, q.X, q.Y, kind)
		unchanged(c, "add", p, a.X, a.Y)
		unchanged(c, "add", q, b.X, b.Y)
		// and the other way round
		gx, gy = curve.Add(b.X, b.Y, a.X, a.Y)
		check(c, "add", gx, gy, ref.Add(p, q), "(%x,%x) + (%x,%x) [%s]", q.X, q.Y, p.X, p.Y, kind)
		c.Cell("add", kind, pk, qk, p.X, q.X)
		c.Seen("operand_classes", "add/"+kind+"/"+pk+"/"+qk)

		gx, gy = curve.Double(a.X, a.Y)
		check(c, "double", gx, gy, ref.Add(p, p), "2*(%x,%x)", p.X, p.Y)
		unchanged(c, "double", p, a.X, a.Y)
	})

	r.Cases("mult", r.Scale(700, 20000), 0, func(c *vh.Case) {
		p, pk := point(c)
		if c.Rng.Intn(20) == 0 {
			p, pk = ref.Inf(), "inf"
		}
		k, kk := scalar(c)
		a := p.Copy()
		k0 := append([]byte{}, k...)
		want := ref.Mul(p, new(big.Int).SetBytes(k))
		if p.IsInf() {
			want = ref.Inf()
		}
		gx, gy := curve.ScalarMult(a.X, a.Y, k)
		check(c, "scalarmult", gx, gy, want, "%x * (%x,%x)", k, p.X, p.Y)
		unchanged(c, "scalarmult", p, a.X, a.Y)
		if !bytes.Equal(k, k0) {
			c.Fail("scalarmult-mutates", "ScalarMult changed its scalar")
		}
		c.Cell("mult", pk, kk, k, p.X)
		c.Seen("operand_classes", "mult/"+pk+"/"+kk)
		c.Sample("%x * (%x,..) = (%x, %x)", k, p.X, gx, gy)

		gx, gy = curve.ScalarBaseMult(k)
		check(c, "basemult", gx, gy, ref.Mul(G, new(big.Int).SetBytes(k)), "%x * G", k)
		if !bytes.Equal(k, k0) {
			c.Fail("basemult-mutates", "ScalarBaseMult changed its scalar")
		}
	})

	// bulk, against libsecp256k1
	r.Cases("bulk", r.Scale(12000, 400000), 0, func(c *vh.Case) {
		k1, kk := scalar(c)
		k := new(big.Int).SetBytes(k1)
		k.Mod(k, ref.N)
		if k.Sign() == 0 {
			gx, gy := curve.ScalarBaseMult(k1)
			check(c, "basemult", gx, gy, ref.Inf(), "%x * G", k1)
			return
		}
		kb := make([]byte, 32)
		copy(kb[32-len(k.Bytes()):], k.Bytes())
		wx, wy := lib.ScalarMult(ref.Gx, ref.Gy, kb)
		gx, gy := curve.ScalarBaseMult(k1)
		check(c, "basemult", gx, gy, ref.Point{X: wx, Y: wy}, "%x * G", k1)
		p, pk := point(c)
		wx, wy = lib.ScalarMult(p.X, p.Y, kb)
		gx, gy = curve.ScalarMult(p.X, p.Y, k1)
		check(c, "scalarmult", gx, gy, ref.Point{X: wx, Y: wy}, "%x * (%x,%x)", k1, p.X, p.Y)
		c.Cell("bulk", pk, kk, k, p.X)
	})

	// every table entry of the base multiplication
	r.Cases("table", 32, 0, func(c *vh.Case) {
		for b := 1; b < 256; b++ {
			k := make([]byte, 32)
			k[c.Index] = byte(b)
			if new(big.Int).SetBytes(k).Cmp(ref.N) >= 0 {
				continue
			}
			wx, wy := lib.ScalarMult(ref.Gx, ref.Gy, k)
			gx, gy := curve.ScalarBaseMult(k)
			check(c, "basemult", gx, gy, ref.Point{X: wx, Y: wy}, "%x * G", k)
			c.Cell("table", c.Index, b)
		}
	})

	r.Cases("oncurve", r.Scale(4000, 100000), 0, func(c *vh.Case) {
		p, _ := point(c)
		x, y := p.X, p.Y
		kind := "on"
		switch c.Rng.Intn(14) {
		case 9:
			y, kind = new(big.Int).Neg(y), "-y"
		case 10:
			x, kind = new(big.Int).Sub(x, ref.P), "x-p"
			if c.Rng.Intn(2) == 0 {
				x, y, kind = p.X, new(big.Int).Sub(y, ref.P), "y-p"
			}
		case 0:
			x, kind = new(big.Int).Xor(x, new(big.Int).Lsh(one, uint(c.Rng.Intn(256)))), "bitx"
		case 1:
			y, kind = new(big.Int).Xor(y, new(big.Int).Lsh(one, uint(c.Rng.Intn(256)))), "bity"
		case 2:
			x, y, kind = y, x, "swap"
		case 3:
			x, y, kind = coord(c), coord(c), "rnd"
		case 4:
			x, y, kind = new(big.Int), new(big.Int), "zero"
		case 5:
			x, kind = new(big.Int).Add(x, ref.P), "x+p"
		case 6:
			y, kind = new(big.Int).Add(y, ref.P), "y+p"
		case 7:
			x, kind = new(big.Int).Add(new(big.Int).Lsh(x, uint(8*(1+c.Rng.Intn(8)))), vh.Big(c.Rng, 8)), "long"
		case 8:
			x, kind = new(big.Int).Neg(x), "-x"
		}
		var got bool
		pv, st := vh.Panics(func() { got = curve.IsOnCurve(x, y) })
		if pv != nil {
			c.Fail("oncurve-panic", "IsOnCurve(%x, %x) panics: %v\n%s", x, y, pv, st)
			return
		}
		if want := ref.OnCurve(x, y); got != want {
			c.Fail("oncurve", "IsOnCurve(%x, %x) = %v [%s]", x, y, got, kind)
		}
		c.Eval(1)
		c.Seen("operand_classes", "oncurve/"+kind)
		c.Cell("oncurve", x, y)
	})

	// concurrent use of the shared curve
	r.Cases("conc", r.Scale(6, 60), 1, func(c *vh.Case) {
		type job struct {
			k    []byte
			p    ref.Point
			a, b ref.Point
		}
		jobs := make([]job, 8)
		for i := range jobs {
			k, _ := scalar(c)
			p, _ := point(c)
			jobs[i] = job{k, p, ref.Mul(G, new(big.Int).SetBytes(k)), ref.Mul(p, new(big.Int).SetBytes(k))}
		}
		var wg sync.WaitGroup
		for i := range jobs {
			j := jobs[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 4; n++ {
					gx, gy := curve.ScalarBaseMult(j.k)
					check(c, "conc", gx, gy, j.a, "concurrent %x*G", j.k)
					gx, gy = curve.ScalarMult(j.p.X, j.p.Y, j.k)
					check(c, "conc", gx, gy, j.b, "concurrent %x*P", j.k)
				}
			}()
		}
		wg.Wait()
	})
}
