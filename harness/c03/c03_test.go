// C03: signatures.
package c03

import (
	"bytes"
	"crypto/ecdsa"
	"fmt"
	"math/big"
	"runtime"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/crypto/secp256k1"
	"github.com/philhofer/seth"

	"vharness/ref"
	"vharness/vh"
)

var half = new(big.Int).Rsh(ref.N, 1)

func pad32(v *big.Int) []byte {
	b := make([]byte, 32)
	v.FillBytes(b)
	return b
}

func key(c *vh.Case) (*seth.PrivateKey, *big.Int) {
	var d *big.Int
	switch c.Rng.Intn(6) {
	case 0:
		d = big.NewInt(int64(1 + c.Rng.Intn(20)))
	case 1:
		d = new(big.Int).Sub(ref.N, big.NewInt(int64(1+c.Rng.Intn(20))))
	case 2: // short keys: leading zero bytes
		d = vh.Big(c.Rng, 8*(1+c.Rng.Intn(31)))
	default:
		d = vh.Big(c.Rng, 256)
	}
	d.Mod(d, ref.N)
	if d.Sign() == 0 {
		d.SetInt64(3)
	}
	return seth.NewPrivateKey(d), d
}

func digest(c *vh.Case) (h seth.Hash) {
	switch c.Rng.Intn(5) {
	case 0: // near zero, near the order, near 2^256
		v := big.NewInt(int64(c.Rng.Intn(5)))
		switch c.Rng.Intn(3) {
		case 0:
			v.Add(v, ref.N).Sub(v, big.NewInt(2))
		case 1:
			v.Sub(new(big.Int).Lsh(big.NewInt(1), 256), v.Add(v, big.NewInt(1)))
		}
		copy(h[:], pad32(v))
	default:
		copy(h[:], pad32(vh.Big(c.Rng, 256)))
	}
	return
}

func TestProperty(t *testing.T) {
	r := vh.Start("C03", "exploration")
	r.Rule("a case is a (key, digest) pair, edge keys and digests included; each is distinct by its bytes; the concurrent stream signs from 8 goroutines")
	r.Assume("libsecp256k1 and the textbook verification in harness/ref are right")
	defer r.Finish()

	sign := func(c *vh.Case, k *seth.PrivateKey, h seth.Hash) *seth.Signature {
		k0, h0 := *k, h
		sig := k.Sign(&h)
		c.Eval(1)
		if *k != k0 || h != h0 {
			c.Fail("mutates", "signing changed the key or digest")
		}
		return sig
	}
	monitor := func(c *vh.Case, k *seth.PrivateKey, d *big.Int, h seth.Hash, sig *seth.Signature) {
		rr, ss, v := sig.Parts()
		where := fmt.Sprintf("key %x digest %x signature %x", d, h[:], sig[:])
		if rr.Sign() <= 0 || rr.Cmp(ref.N) >= 0 || ss.Sign() <= 0 || ss.Cmp(half) > 0 || v < 0 || v > 1 || !sig.Valid() {
			c.Fail("range", "signature out of range: %s", where)
			return
		}
		if new(big.Int).SetBytes(sig[:32]).Cmp(&rr) != 0 || new(big.Int).SetBytes(sig[32:64]).Cmp(&ss) != 0 || int(sig[64]) != v {
			c.Fail("parts", "Parts() does not match the bytes: %s", where)
		}
		wx, wy := secp256k1.S256().ScalarMult(ref.Gx, ref.Gy, pad32(d))
		want := append(pad32(wx), pad32(wy)...)
		pub := k.PublicKey()
		if !bytes.Equal(pub[:], want) {
			c.Fail("pubkey", "public key of %x is %x, want %x", d, pub[:], want)
		}
		if rec, err := sig.Recover(&h); err != nil || !bytes.Equal(rec[:], want) {
			c.Fail("recover", "recovered %v (%v), want %x: %s", rec, err, want, where)
		}
		lib, err := secp256k1.RecoverPubkey(h[:], sig[:])
		if err != nil || !bytes.Equal(lib[1:], want) {
			c.Fail("recover-lib", "independent recovery gives %x (%v), want %x: %s", lib, err, want, where)
		}
		if !secp256k1.VerifySignature(append([]byte{4}, want...), h[:], sig[:64]) {
			c.Fail("verify", "does not verify independently: %s", where)
		}
		a := pub.Address()
		wa := ref.Keccak(want, 32)[12:]
		if !bytes.Equal(a[:], wa) || *k.Address() != *a {
			c.Fail("address", "address of key %x is %x, want %x", d, a[:], wa)
		}
		c.Count("signatures_checked", 1)
	}

	r.Cases("sign", r.Scale(3000, 100000), 0, func(c *vh.Case) {
		k, d := key(c)
		h := digest(c)
		sig := sign(c, k, h)
		monitor(c, k, d, h, sig)
		if sig2 := sign(c, k, h); *sig2 != *sig {
			c.Fail("deterministic", "signing %x with %x twice gives %x and %x", h[:], d, sig[:], sig2[:])
		}
		if s3, err := k.Signer()(&h); err != nil || *s3 != *sig {
			c.Fail("signer", "Signer() gives %v, %v instead of %v", s3, err, sig)
		}
		// another digest with the same key, and another key with the same
		// digest, must not reuse the nonce
		h2 := h
		h2[c.Rng.Intn(32)] ^= 1 << uint(c.Rng.Intn(8))
		if sig2 := sign(c, k, h2); bytes.Equal(sig2[:32], sig[:32]) {
			c.Fail("nonce-reuse", "digests %x and %x signed with the same nonce by key %x", h[:], h2[:], d)
		}
		d2 := new(big.Int).Xor(d, new(big.Int).Lsh(big.NewInt(1), uint(c.Rng.Intn(255))))
		if d2.Sign() > 0 && d2.Cmp(ref.N) < 0 {
			if sig2 := sign(c, seth.NewPrivateKey(d2), h); bytes.Equal(sig2[:32], sig[:32]) {
				c.Fail("nonce-reuse", "keys %x and %x use the same nonce for digest %x", d, d2, h[:])
			}
		}
		c.Cell(d, h[:])
		if sig[0] == 0 || sig[32] == 0 {
			c.Count("signatures_with_leading_zero", 1)
		}
		c.Sample("key %x digest %x -> %x", d, h[:], sig[:])
	})

	// signatures assembled from parts: the high-s twin normalises to the same
	r.Cases("new", r.Scale(1500, 40000), 0, func(c *vh.Case) {
		k, d := key(c)
		h := digest(c)
		sig := sign(c, k, h)
		rr, ss, v := sig.Parts()
		r0, s0 := new(big.Int).Set(&rr), new(big.Int).Set(&ss)
		if got := seth.NewSignature(&rr, &ss, v); *got != *sig {
			c.Fail("new", "NewSignature(Parts) = %x, want %x", got[:], sig[:])
		}
		hs := new(big.Int).Sub(ref.N, &ss)
		if got := seth.NewSignature(&rr, hs, v^1); *got != *sig {
			c.Fail("new-high", "NewSignature of the high-s form = %x, want %x", got[:], sig[:])
		}
		if rr.Cmp(r0) != 0 || ss.Cmp(s0) != 0 || hs.Cmp(new(big.Int).Sub(ref.N, s0)) != 0 {
			c.Fail("new-mutates", "NewSignature changed its arguments")
		}
		// the standard library's ECDSA signature, normalised, is accepted
		pk := k.ToECDSA()
		if pk.D.Cmp(d) != 0 {
			c.Fail("toecdsa", "ToECDSA of %x has D %x", d, pk.D)
		}
		pub := k.PublicKey()
		if pe := pub.ToECDSA(); pe.X.Cmp(pk.X) != 0 || pe.Y.Cmp(pk.Y) != 0 || *seth.NewPublicKey(pk.X, pk.Y) != *pub {
			c.Fail("toecdsa", "ToECDSA of key %x: public halves differ", d)
		}
		if !ecdsa.Verify(pub.ToECDSA(), h[:], r0, s0) {
			c.Fail("verify-std", "crypto/ecdsa rejects %x", sig[:])
		}
		c.Eval(4)
		c.Cell("new", d, h[:])
	})

	r.Cases("conc", r.Scale(20, 300), 1, func(c *vh.Case) {
		type job struct {
			k   *seth.PrivateKey
			d   *big.Int
			h   seth.Hash
			sig *seth.Signature
		}
		jobs := make([]job, 8)
		for i := range jobs {
			k, d := key(c)
			h := digest(c)
			if i%2 == 1 { // same key, other digest
				k, d = jobs[i-1].k, jobs[i-1].d
			}
			jobs[i] = job{k: k, d: d, h: h, sig: sign(c, k, h)}
		}
		var wg sync.WaitGroup
		for i := range jobs {
			j := &jobs[i]
			wg.Add(1)
			go func() {
				defer wg.Done()
				for n := 0; n < 5; n++ {
					h := j.h
					got := j.k.Sign(&h)
					if *got != *j.sig {
						c.Fail("conc", "concurrent signing gives %x instead of %x", got[:], j.sig[:])
					}
					if rec, err := got.Recover(&h); err != nil || *rec != *j.k.PublicKey() {
						c.Fail("conc", "concurrent recovery: %v %v", rec, err)
					}
					runtime.Gosched()
					c.Eval(1)
					c.Count("concurrent_signatures", 1)
				}
			}()
		}
		wg.Wait()
	})

	r.Cases("gen", r.Scale(30, 1000), 0, func(c *vh.Case) {
		a, b := seth.GenPrivateKey(), seth.GenPrivateKey()
		d := new(big.Int).SetBytes(a[:])
		if *a == *b || d.Sign() == 0 || d.Cmp(ref.N) >= 0 {
			c.Fail("gen", "generated keys %x, %x", a[:], b[:])
		}
		h := digest(c)
		monitor(c, a, d, h, a.Sign(&h))
		c.Eval(1)
	})
}
