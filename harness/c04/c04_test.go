// C04: recovery soundness.
package c04

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/ethereum/go-ethereum/crypto/secp256k1"
	"github.com/philhofer/seth"

	"vharness/ref"
	"vharness/vh"
)

var half = new(big.Int).Rsh(ref.N, 1)

func fill(v *big.Int) []byte {
	b := make([]byte, 32)
	v.FillBytes(b)
	return b
}

func TestProperty(t *testing.T) {
	r := vh.Start("C04", "exploration")
	r.Rule("a case is a 65-byte signature with a digest, from mutations of genuine ones and from edge values of r, s and the recovery id; distinct by bytes; well-formed and malformed ones are counted apart")
	r.Assume("textbook recovery in harness/ref and libsecp256k1, which are compared with each other as well, are right")
	defer r.Finish()
	edge := func(c *vh.Case) *big.Int {
		switch c.Rng.Intn(7) {
		case 0:
			return big.NewInt(int64(c.Rng.Intn(10)))
		case 1:
			return new(big.Int).Add(ref.N, big.NewInt(int64(c.Rng.Intn(9)-4)))
		case 2:
			return new(big.Int).Add(half, big.NewInt(int64(c.Rng.Intn(5)-2)))
		case 3:
			return new(big.Int).Add(ref.P, big.NewInt(int64(c.Rng.Intn(9)-4)))
		case 4:
			return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(int64(1+c.Rng.Intn(4))))
		default:
			return vh.Big(c.Rng, 256)
		}
	}
	r.Cases("recover", r.Scale(12000, 300000), 0, func(c *vh.Case) {
		var sig seth.Signature
		var h seth.Hash
		copy(h[:], fill(edge(c)))
		kind := ""
		switch c.Rng.Intn(6) {
		case 0: // genuine
			d := vh.Big(c.Rng, 256)
			d.Mod(d, ref.N)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			sig = *seth.NewPrivateKey(d).Sign(&h)
			kind = "genuine"
		case 1: // genuine, mutated
			d := vh.Big(c.Rng, 255)
			if d.Sign() == 0 {
				d.SetInt64(1)
			}
			sig = *seth.NewPrivateKey(d).Sign(&h)
			sig[c.Rng.Intn(64)] ^= 1 << uint(c.Rng.Intn(8))
			kind = "bitflip"
		case 2: // the sum is the point at infinity: R = k*G, s*R = e*G
			k := vh.Big(c.Rng, 256)
			k.Mod(k, ref.N)
			if k.Sign() == 0 {
				k.SetInt64(7)
			}
			R := ref.Mul(ref.Base(), k)
			s := vh.Big(c.Rng, 255)
			if s.Cmp(half) > 0 || s.Sign() == 0 {
				s.SetInt64(int64(1 + c.Rng.Intn(1000)))
			}
			e := new(big.Int).Mul(s, k)
			e.Mod(e, ref.N)
			copy(sig[:32], fill(R.X))
			copy(sig[32:], fill(s))
			sig[64] = byte(R.Y.Bit(0))
			copy(h[:], fill(e))
			kind = "infinity"
		case 3: // r is or is not an abscissa
			copy(sig[:32], fill(vh.Big(c.Rng, 256)))
			copy(sig[32:], fill(vh.Big(c.Rng, 255)))
			kind = "random-r"
		default:
			copy(sig[:32], fill(edge(c)))
			copy(sig[32:], fill(edge(c)))
			kind = "edge"
		}
		if kind != "infinity" && kind != "genuine" {
			sig[64] = byte(c.Rng.Intn(2))
		}
		if c.Rng.Intn(6) == 0 {
			sig[64] = []byte{2, 3, 4, 27, 28, 29, 35, 37, 0x80, 0xff}[c.Rng.Intn(10)]
			kind += "+v"
		}
		rr := new(big.Int).SetBytes(sig[:32])
		ss := new(big.Int).SetBytes(sig[32:64])
		inRange := rr.Sign() > 0 && ss.Sign() > 0 && rr.Cmp(ref.N) < 0 && ss.Cmp(half) <= 0 && sig[64] <= 1
		var want ref.Point
		ok := inRange
		if inRange {
			want, ok = ref.Recover(h[:], rr, ss, uint(sig[64]))
			lib, err := secp256k1.RecoverPubkey(h[:], sig[:])
			if (err == nil) != ok || ok && !bytes.Equal(lib[1:], append(fill(want.X), fill(want.Y)...)) {
				c.HarnessError("references disagree on %x, %x", sig[:], h[:])
				return
			}
		}
		sig0, h0 := sig, h
		got, err := sig.Recover(&h)
		c.Eval(1)
		if sig != sig0 || h != h0 {
			c.Fail("mutates", "Recover changed its operands")
		}
		switch {
		case ok && err != nil:
			c.Fail("refused", "recovery of well-formed signature %x digest %x fails: %v", sig[:], h[:], err)
		case ok && !bytes.Equal(got[:], append(fill(want.X), fill(want.Y)...)):
			c.Fail("wrong-key", "signature %x digest %x recovers %x, want (%x,%x)", sig[:], h[:], got[:], want.X, want.Y)
		case !ok && err == nil:
			x, y := new(big.Int).SetBytes(got[:32]), new(big.Int).SetBytes(got[32:])
			c.Fail("accepted-"+kind, "malformed signature %x digest %x [%s] recovers %x (on curve: %v)", sig[:], h[:], kind, got[:], ref.OnCurve(x, y))
		}
		if v := sig.Valid(); v != inRange {
			c.Fail("valid", "Valid() = %v for %x", v, sig[:])
		}
		c.Eval(1)
		if ok {
			c.Count("well_formed", 1)
		} else {
			c.Count("malformed", 1)
		}
		c.Seen("kinds", kind)
		c.Cell(sig[:], h[:])
		c.Sample("%s %x %x -> err=%v", kind, sig[:], h[:], err)
	})
	r.Cases("curvepoint", r.Scale(2000, 50000), 0, func(c *vh.Case) {
		x := edge(c)
		x.Mod(x, ref.P)
		v := c.Rng.Intn(2)
		want, ok := ref.Lift(x, uint(v))
		if !ok {
			return
		}
		var y big.Int
		x0 := new(big.Int).Set(x)
		seth.CurvePoint(x, &y, v)
		c.Eval(1)
		if y.Cmp(want.Y) != 0 || x.Cmp(x0) != 0 {
			c.Fail("curvepoint", "CurvePoint(%x, %d) = %x, want %x", x0, v, &y, want.Y)
		}
		c.Cell("cp", x0, v)
	})
}
