// C07: ABI encoding.
package c07

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/accounts/abi"
	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"

	"vharness/abigen"
	"vharness/ref"
	"vharness/vh"
)

const idchars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

func ident(c *vh.Case) string {
	n := 1 + c.Rng.Intn(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = idchars[c.Rng.Intn(len(idchars))]
	}
	if b[0] >= '0' && b[0] <= '9' {
		b[0] = 'f'
	}
	return string(b)
}

func build(c *vh.Case) (sig string, types []string, vs []*abigen.Value) {
	n := []int{0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 9}[c.Rng.Intn(13)]
	for i := 0; i < n; i++ {
		t := abigen.Type(c.Rng)
		types = append(types, t)
		vs = append(vs, abigen.Gen(c.Rng, t))
	}
	return ident(c) + "(" + strings.Join(types, ",") + ")", types, vs
}

func args(vs []*abigen.Value) []seth.EtherType {
	out := make([]seth.EtherType, len(vs))
	for i := range vs {
		out[i] = abigen.Arg(vs[i])
	}
	return out
}

func render(as []seth.EtherType) string {
	s := ""
	for _, a := range as {
		s += abigen.Render(a) + ";"
	}
	return s
}

// the value for go-ethereum's packer
func geth(v *abigen.Value) (interface{}, bool) {
	switch {
	case v.Type == "string":
		return string(v.Bytes), true
	case v.Type == "bytes":
		return v.Bytes, true
	case v.Type == "address":
		return common.BytesToAddress(v.Word[:]), true
	case v.Type == "bool":
		return v.Num.Sign() != 0, true
	case v.Type == "bytes32":
		return [32]byte(v.Word), true
	case v.Type == "uint256", v.Type == "int256":
		return v.Num, true
	case v.Type == "uint8":
		return uint8(v.Num.Uint64()), true
	case v.Type == "int64":
		return v.Num.Int64(), true
	case v.Type == "address[]":
		out := []common.Address{}
		for _, w := range v.Array {
			out = append(out, common.BytesToAddress(w[:]))
		}
		return out, true
	case v.Type == "bytes32[]":
		out := [][32]byte{}
		for _, w := range v.Array {
			out = append(out, [32]byte(w))
		}
		return out, true
	case v.Type == "uint256[]", v.Type == "int256[]":
		out := []*big.Int{}
		for _, n := range v.Nums {
			out = append(out, n)
		}
		return out, true
	}
	return nil, false
}

func crosscheck(c *vh.Case, types []string, vs []*abigen.Value, want []byte) {
	var as abi.Arguments
	var vals []interface{}
	for i := range vs {
		g, ok := geth(vs[i])
		if !ok {
			return
		}
		t, err := abi.NewType(types[i], nil)
		if err != nil {
			c.HarnessError("NewType %s: %v", types[i], err)
			return
		}
		as = append(as, abi.Argument{Type: t})
		vals = append(vals, g)
	}
	got, err := as.Pack(vals...)
	if err != nil || !bytes.Equal(got, want) {
		c.HarnessError("the reference encoders disagree on %v: %x (%v), %x", types, got, err, want)
	}
	c.Count("crosschecked_with_go_ethereum", 1)
}

func wrongs(c *vh.Case, typ string) []seth.EtherType {
	i := seth.NewInt(int64(c.Rng.Intn(1000)))
	a := &seth.Address{1}
	d := &seth.Data{1, 2, 3}
	b := &seth.Bytes{1, 2, 3, 4}
	is := &seth.IntSlice{*seth.NewInt(1)}
	as := &seth.AddrSlice{*a}
	ds := &seth.DataSlice{*d}
	switch {
	case typ == "address":
		return []seth.EtherType{i, d, b, is, as, ds}
	case typ == "bytes", typ == "string":
		return []seth.EtherType{i, a, d, is, as, ds}
	case strings.HasPrefix(typ, "bytes") && !strings.HasSuffix(typ, "]"):
		return []seth.EtherType{a, b, is, as, ds}
	case typ == "bool", strings.HasPrefix(typ, "int") && !strings.HasSuffix(typ, "]"), strings.HasPrefix(typ, "uint") && !strings.HasSuffix(typ, "]"):
		return []seth.EtherType{a, b, d, is, as, ds}
	case typ == "address[]":
		return []seth.EtherType{i, a, d, b, is, ds}
	case strings.HasPrefix(typ, "bytes"):
		return []seth.EtherType{i, a, d, b, as}
	default:
		return []seth.EtherType{i, a, d, b, as, ds}
	}
}

func TestProperty(t *testing.T) {
	r := vh.Start("C07", "exploration")
	r.Rule("a case is a generated signature with matching (or, in the refusal streams, mismatching) arguments; distinct by the argument types and the length classes of the values")
	r.Assume("the reference encoder written from the ABI specification is right; it is cross-checked against go-ethereum's accounts/abi where that supports the types")
	defer r.Finish()

	r.Cases("encode", r.Scale(100000, 2000000), 0, func(c *vh.Case) {
		sig, types, vs := build(c)
		as := args(vs)
		before := render(as)
		var sel [4]byte
		h := ref.Keccak([]byte(sig), 32)
		copy(sel[:], h[:4])
		want := append(sel[:], abigen.Encode(vs)...)
		if c.Index%4 == 0 {
			crosscheck(c, types, vs, want[4:])
		}
		got := seth.ABIEncode(sig, as...)
		if !bytes.Equal(got, want) {
			c.Fail("encoding", "%s with %s:\n got %x\nwant %x", sig, before, got, want)
		}
		opts := &seth.CallOpts{From: &seth.Address{7}, Value: seth.NewInt(3), Data: vh.Bytes(c.Rng, c.Rng.Intn(80))}
		opts.EncodeCall(sig, as...)
		if !bytes.Equal(opts.Data, want) {
			c.Fail("EncodeCall", "%s with %s:\n got %x\nwant %x", sig, before, []byte(opts.Data), want)
		}
		if render(as) != before {
			c.Fail("arguments", "encoding %s changed its arguments: %s, now %s", sig, before, render(as))
		}
		// the result is not shared with the arguments or a later call
		for i := range got {
			got[i] ^= 0xff
		}
		if again := seth.ABIEncode(sig, as...); !bytes.Equal(again, want) {
			c.Fail("second encoding", "%s with %s:\n got %x\nwant %x", sig, before, again, want)
		}
		r.Eval(4)
		r.Cell(strings.Join(types, ","), len(want))
		for _, x := range types {
			r.Seen("types", x)
		}
		r.Count("arguments", len(vs))
		for _, v := range vs {
			if v.Num != nil && v.Num.Sign() < 0 {
				r.Count("negative_integers", 1)
			}
		}
		if c.Index < 4 {
			r.Sample("%s %s -> %x", sig, before, want)
		}
	})

	refused := func(c *vh.Case, key, sig string, as []seth.EtherType) {
		v, _ := vh.Panics(func() {
			b := seth.ABIEncode(sig, as...)
			c.Fail(key, "%s accepted the arguments %s and encoded them as %x", sig, render(as), b)
		})
		opts := &seth.CallOpts{}
		v2, _ := vh.Panics(func() {
			opts.EncodeCall(sig, as...)
			c.Fail(key, "EncodeCall of %s accepted the arguments %s", sig, render(as))
		})
		if v2 != nil && len(opts.Data) != 0 {
			c.Fail(key, "%s was refused but left call data %x", sig, []byte(opts.Data))
		}
		if v != nil {
			r.Count("refused", 1)
		}
		r.Eval(2)
	}

	r.Cases("mismatch", r.Scale(30000, 500000), 0, func(c *vh.Case) {
		sig, types, vs := build(c)
		as := args(vs)
		switch k := c.Rng.Intn(6); {
		case k == 0 && len(as) > 0: // one argument missing
			i := c.Rng.Intn(len(as))
			as = append(as[:i:i], as[i+1:]...)
			refused(c, "missing argument", sig, as)
			r.Cell("missing", len(types))
		case k <= 1: // one argument too many
			i := c.Rng.Intn(len(as) + 1)
			as = append(as[:i:i], append([]seth.EtherType{abigen.Arg(abigen.Gen(c.Rng, abigen.Type(c.Rng)))}, as[i:]...)...)
			refused(c, "extra argument", sig, as)
			r.Cell("extra", len(types))
		default:
			if len(as) == 0 {
				return
			}
			i := c.Rng.Intn(len(as))
			w := wrongs(c, types[i])
			as[i] = w[c.Rng.Intn(len(w))]
			refused(c, "wrong type", sig, as)
			r.Cell("wrong", types[i], fmt.Sprintf("%T", as[i]), i == 0, len(as) == 1)
			r.Seen("wrong_type_pairs", types[i]+"/"+fmt.Sprintf("%T", as[i]))
		}
	})

	r.Cases("overflow", r.Scale(600, 10000), 0, func(c *vh.Case) {
		lim := new(big.Int).Lsh(big.NewInt(1), 256)
		low := new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), 255))
		var n *big.Int
		if c.Rng.Intn(2) == 0 {
			n = new(big.Int).Add(lim, vh.Big(c.Rng, 1+c.Rng.Intn(300)))
		} else {
			n = new(big.Int).Sub(low, vh.Big(c.Rng, 1+c.Rng.Intn(300)))
			n.Sub(n, big.NewInt(1))
		}
		if c.Rng.Intn(3) == 0 { // near the powers of two around the limits
			n = new(big.Int).Lsh(big.NewInt(1), uint(255+c.Rng.Intn(5)))
			if c.Rng.Intn(2) == 0 {
				n.Add(n, new(big.Int).Lsh(big.NewInt(1), uint(255+c.Rng.Intn(5))))
			}
			n.Add(n, new(big.Int).Sub(vh.Big(c.Rng, 1+c.Rng.Intn(256)), vh.Big(c.Rng, 1+c.Rng.Intn(256))))
			if c.Rng.Intn(4) > 0 {
				n.Neg(n)
			}
			if n.Cmp(low) >= 0 && n.Cmp(lim) < 0 {
				return
			}
		}
		i := (*seth.Int)(n)
		refused(c, "integer overflow", "f(int256)", []seth.EtherType{i})
		refused(c, "integer overflow", "f(uint256,address)", []seth.EtherType{i, &seth.Address{}})
		refused(c, "integer overflow", "f(uint256[])", []seth.EtherType{&seth.IntSlice{*seth.NewInt(4), *i}})
		d := seth.Data(vh.Bytes(c.Rng, 33+c.Rng.Intn(40)))
		refused(c, "data overflow", "f(bytes32)", []seth.EtherType{&d})
		refused(c, "data overflow", "f(bytes32[])", []seth.EtherType{&seth.DataSlice{d}})
		r.Cell("overflow", n.BitLen(), len(d))
	})
}
