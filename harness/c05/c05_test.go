// C05: signed transactions.
package c05

import (
	"bytes"
	"errors"
	"math/big"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"

	"vharness/ref"
	"vharness/vh"
)

func inputLen(c *vh.Case) int {
	edges := []int{0, 1, 2, 54, 55, 56, 57, 127, 128, 255, 256, 257, 65535, 65536, 65537}
	switch c.Rng.Intn(10) {
	case 0, 1, 2:
		n := edges[c.Rng.Intn(12)]
		return n
	case 3:
		if c.Rng.Intn(6) == 0 {
			return edges[c.Rng.Intn(len(edges))]
		}
		return c.Rng.Intn(300)
	default:
		return c.Rng.Intn(160)
	}
}

func u64(c *vh.Case) uint64 {
	v := vh.Big(c.Rng, 64)
	return v.Uint64()
}

func build(c *vh.Case) *seth.Transaction {
	tx := &seth.Transaction{
		Nonce:    seth.Uint64(u64(c)),
		Gas:      seth.Uint64(u64(c)),
		GasPrice: seth.Int(*vh.Big(c.Rng, 256)),
		Value:    seth.Int(*vh.Big(c.Rng, 256)),
		Input:    vh.Bytes(c.Rng, inputLen(c)),
	}
	if len(tx.Input) > 0 {
		switch c.Rng.Intn(4) {
		case 0:
			tx.Input[0] = 0
		case 1:
			tx.Input[0] = 0x7f + byte(c.Rng.Intn(3))
		}
	}
	if c.Rng.Intn(8) == 0 {
		tx.Input = nil
	}
	if c.Rng.Intn(4) != 0 {
		tx.To = new(seth.Address)
		if c.Rng.Intn(6) != 0 {
			c.Rng.Read(tx.To[:])
			for i := 0; i < c.Rng.Intn(4); i++ {
				tx.To[i] = 0
			}
		}
	}
	// fields that are not part of the encoding
	c.Rng.Read(tx.Hash[:])
	c.Rng.Read(tx.Block[:])
	tx.BlockNumber = seth.Uint64(u64(c))
	return tx
}

func TestProperty(t *testing.T) {
	r := vh.Start("C05", "exploration")
	r.Rule("a case is a generated transaction and key, biased to RLP length and integer boundaries; distinct by the bits of its fields' lengths and its hash")
	r.Assume("go-ethereum's RLP decoder, transaction type and EIP-155 signer are right")
	defer r.Finish()
	signer := types.NewEIP155Signer(big.NewInt(1))

	check := func(c *vh.Case, tx *seth.Transaction, key *seth.PrivateKey) []byte {
		var asked *seth.Hash
		before := *tx
		in0 := append([]byte(nil), tx.Input...)
		raw, err := seth.SignTransaction(tx, func(h *seth.Hash) (*seth.Signature, error) {
			cp := *h
			asked = &cp
			return key.Sign(h), nil
		})
		c.Eval(1)
		if err != nil {
			c.Fail("sign-error", "SignTransaction: %v", err)
			return nil
		}
		if !bytes.Equal(tx.Input, in0) || tx.Nonce != before.Nonce || tx.Value.Cmp(&before.Value) != 0 || tx.GasPrice.Cmp(&before.GasPrice) != 0 {
			c.Fail("mutates", "SignTransaction changed the transaction")
		}
		var dec types.Transaction
		if err := rlp.DecodeBytes(raw, &dec); err != nil {
			c.Fail("not-canonical", "raw transaction does not decode (%v): %x", err, head(raw))
			return raw
		}
		re, _ := rlp.EncodeToBytes(&dec)
		if !bytes.Equal(re, raw) {
			c.Fail("not-canonical", "not the canonical encoding: %x, canonical %x", head(raw), head(re))
		}
		if dec.Nonce() != uint64(tx.Nonce) || dec.Gas() != uint64(tx.Gas) || dec.GasPrice().Cmp(tx.GasPrice.Big()) != 0 || dec.Value().Cmp(tx.Value.Big()) != 0 || !bytes.Equal(dec.Data(), tx.Input) {
			c.Fail("fields", "decoded nonce=%d gas=%d price=%v value=%v data=%x from nonce=%d gas=%d price=%v value=%v data=%x",
				dec.Nonce(), dec.Gas(), dec.GasPrice(), dec.Value(), head(dec.Data()), tx.Nonce, tx.Gas, tx.GasPrice.Big(), tx.Value.Big(), head(tx.Input))
		}
		if (dec.To() == nil) != (tx.To == nil) || tx.To != nil && !bytes.Equal(dec.To()[:], tx.To[:]) {
			c.Fail("to", "recipient %v decoded as %v", tx.To, dec.To())
		}
		from, err := types.Sender(signer, &dec)
		pub := key.PublicKey()
		if err != nil || !bytes.Equal(from[:], ref.Keccak(pub[:], 32)[12:]) {
			c.Fail("sender", "independent sender recovery gives %x (%v), key's address is %x", from, err, key.Address()[:])
		}
		if asked == nil {
			c.Fail("not-signed", "the signer was not asked")
		} else if h := signer.Hash(&dec); !bytes.Equal(h[:], asked[:]) {
			c.Fail("signing-hash", "asked to sign %x, EIP-155 hash is %x", asked[:], h)
		}
		if h := tx.HashToSign(); asked != nil && *h != *asked {
			c.Fail("signing-hash", "HashToSign %x differs from the hash given to the signer %x", h[:], asked[:])
		}
		v, rr, ss := dec.RawSignatureValues()
		if v.Uint64() != 37 && v.Uint64() != 38 {
			c.Fail("v", "v = %v", v)
		}
		if rr.BitLen() <= 248 || ss.BitLen() <= 248 {
			c.Count("short_signature_parts", 1)
		}
		return raw
	}

	newKey := func(c *vh.Case) *seth.PrivateKey {
		d := vh.Big(c.Rng, 256)
		d.Mod(d, ref.N)
		if d.Sign() == 0 {
			d.SetInt64(5)
		}
		return seth.NewPrivateKey(d)
	}

	r.Cases("tx", r.Scale(8000, 250000), 0, func(c *vh.Case) {
		tx := build(c)
		raw := check(c, tx, newKey(c))
		h := tx.HashToSign()
		c.Cell(h[:])
		c.Seen("shapes", shape(tx))
		c.Sample("nonce=%d gas=%d price=%v to=%v value=%v input=%d bytes -> %x", tx.Nonce, tx.Gas, tx.GasPrice.Big(), tx.To, tx.Value.Big(), len(tx.Input), head(raw))
	})

	// every input length over the one- and two-byte length boundaries
	r.Cases("len", r.Scale(700, 3000), 0, func(c *vh.Case) {
		tx := build(c)
		tx.Input = vh.Bytes(c.Rng, c.Index)
		check(c, tx, newKey(c))
		c.Cell("len", c.Index)
	})
	r.Cases("biglen", 6, 0, func(c *vh.Case) {
		tx := build(c)
		tx.Input = vh.Bytes(c.Rng, []int{65535, 65536, 70000, 1<<24 - 1, 1 << 24, 1<<24 + 300}[c.Index])
		check(c, tx, newKey(c))
		c.Cell("biglen", c.Index)
	})
	// every bit length of the integers
	r.Cases("bits", 257, 0, func(c *vh.Case) {
		for _, d := range []int64{-1, 0, 1} {
			v := new(big.Int).Lsh(big.NewInt(1), uint(c.Index))
			v.Add(v, big.NewInt(d))
			if v.BitLen() > 256 {
				continue
			}
			tx := build(c)
			tx.Value = seth.Int(*v)
			tx.GasPrice = seth.Int(*v)
			if v.IsUint64() {
				tx.Nonce, tx.Gas = seth.Uint64(v.Uint64()), seth.Uint64(v.Uint64())
			}
			check(c, tx, newKey(c))
			c.Cell("bits", c.Index, d)
		}
	})

	// changing any one field changes the hash that is signed
	r.Cases("bind", r.Scale(1500, 40000), 0, func(c *vh.Case) {
		tx := build(c)
		h := *tx.HashToSign()
		mod := *tx
		name := ""
		switch c.Rng.Intn(6) {
		case 0:
			mod.Nonce ^= 1 << uint(c.Rng.Intn(64))
			name = "nonce"
		case 1:
			mod.Gas ^= 1 << uint(c.Rng.Intn(64))
			name = "gas"
		case 2:
			mod.GasPrice = seth.Int(*new(big.Int).Xor(tx.GasPrice.Big(), new(big.Int).Lsh(big.NewInt(1), uint(c.Rng.Intn(256)))))
			name = "price"
		case 3:
			mod.Value = seth.Int(*new(big.Int).Xor(tx.Value.Big(), new(big.Int).Lsh(big.NewInt(1), uint(c.Rng.Intn(256)))))
			name = "value"
		case 4:
			if tx.To == nil {
				mod.To = new(seth.Address)
			} else if c.Rng.Intn(4) == 0 {
				mod.To = nil
			} else {
				a := *tx.To
				a[c.Rng.Intn(20)] ^= 1 << uint(c.Rng.Intn(8))
				mod.To = &a
			}
			name = "to"
		default:
			mod.Input = append(append([]byte(nil), tx.Input...), 0)
			name = "input"
		}
		if *mod.HashToSign() == h {
			c.Fail("bind", "changing %s does not change the signed hash", name)
		}
		c.Eval(1)
		c.Seen("bound_fields", name)
	})

	r.Cases("signer-error", r.Scale(50, 200), 0, func(c *vh.Case) {
		e := errors.New("no")
		raw, err := seth.SignTransaction(build(c), func(*seth.Hash) (*seth.Signature, error) { return nil, e })
		if err == nil || raw != nil {
			c.Fail("signer-error", "a refusing signer gives %x, %v", raw, err)
		}
		c.Eval(1)
	})

	r.Cases("conc", r.Scale(30, 300), 1, func(c *vh.Case) {
		tx := build(c)
		key := newKey(c)
		raw := check(c, tx, key)
		var wg sync.WaitGroup
		for i := 0; i < 6; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got, err := seth.SignTransaction(tx, key.Signer())
				if err != nil || !bytes.Equal(got, raw) {
					c.Fail("conc", "concurrent signing of one transaction differs: %x %v", head(got), err)
				}
				c.Eval(1)
			}()
		}
		wg.Wait()
	})
}

func head(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func shape(tx *seth.Transaction) string {
	lb := func(n int) string {
		switch {
		case n == 0:
			return "0"
		case n == 1:
			return "1"
		case n < 56:
			return "s"
		case n < 256:
			return "1b"
		case n < 65536:
			return "2b"
		}
		return "3b"
	}
	s := lb(len(tx.Input))
	if tx.To == nil {
		s += "/create"
	}
	for _, v := range []*big.Int{tx.GasPrice.Big(), tx.Value.Big(), new(big.Int).SetUint64(uint64(tx.Nonce)), new(big.Int).SetUint64(uint64(tx.Gas))} {
		s += "/" + big.NewInt(int64(len(v.Bytes()))).String()
		if v.BitLen()%8 == 0 && v.BitLen() > 0 {
			s += "h"
		}
	}
	return s
}
