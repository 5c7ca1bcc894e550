// C09: decoding of malformed contract return data.
package c09

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"runtime/metrics"
	"strings"
	"testing"

	"github.com/philhofer/seth"

	"vharness/abigen"
	"vharness/vh"
)

func edgeWord(c *vh.Case, n int) abigen.Word {
	one := big.NewInt(1)
	pow := func(k uint) *big.Int { return new(big.Int).Lsh(one, k) }
	var v *big.Int
	switch c.Rng.Intn(14) {
	case 0:
		v = big.NewInt(int64(n - 70 + c.Rng.Intn(140)))
	case 1:
		v = big.NewInt(int64(n))
	case 2:
		v = big.NewInt(int64(n - 32 + c.Rng.Intn(3) - 1))
	case 3:
		v = new(big.Int).Sub(pow(63), big.NewInt(int64(c.Rng.Intn(n+66))))
	case 4:
		v = new(big.Int).Add(pow(63), big.NewInt(int64(c.Rng.Intn(66))))
	case 5:
		v = new(big.Int).Sub(pow(64), big.NewInt(int64(c.Rng.Intn(n+66))))
	case 6:
		v = new(big.Int).Add(pow(64), big.NewInt(int64(c.Rng.Intn(n+66))))
	case 7:
		v = pow(uint(20 + c.Rng.Intn(40)))
	case 8:
		v = new(big.Int).Sub(pow(256), big.NewInt(int64(1+c.Rng.Intn(n+66))))
	case 9: // length * 32 wraps around
		v = new(big.Int).Add(pow(uint(58+c.Rng.Intn(6))), big.NewInt(int64(c.Rng.Intn(5))))
	case 10:
		v = new(big.Int).Sub(pow(31+uint(c.Rng.Intn(2))), big.NewInt(int64(c.Rng.Intn(40))))
	case 11:
		v = big.NewInt(int64(c.Rng.Intn(40)))
	case 12:
		v = big.NewInt(int64(32 * c.Rng.Intn(n/32+3)))
	default:
		v = vh.Big(c.Rng, 256)
	}
	if v.Sign() < 0 {
		v.SetInt64(0)
	}
	return abigen.IntWord(v)
}

func allocated() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// smallest returns the least of several measurements of f: the counter is
// the whole process's and is advanced in batches, so that a single reading
// can include what the runtime or an earlier case allocated.
func smallest(f func()) uint64 {
	least := ^uint64(0)
	for i := 0; i < 8; i++ {
		before := allocated()
		f()
		if used := allocated() - before; used < least {
			least = used
		}
	}
	return least
}

func TestProperty(t *testing.T) {
	r := vh.Start("C09", "exploration")
	r.Rule("a case is an encoding with truncations, edge-valued offsets and lengths or random bytes, decoded into generated destinations; distinct by destinations, kind of damage and outcome")
	r.Assume("data in which a head, length or body lies outside the data is malformed; other data may be accepted or refused")
	defer r.Finish()
	dests := abigen.Dests()

	one := func(c *vh.Case, alloc bool) {
		n := []int{1, 1, 1, 2, 2, 3, 4}[c.Rng.Intn(7)]
		var vs []*abigen.Value
		var ds []abigen.Dest
		var types, names []string
		for i := 0; i < n; i++ {
			d := dests[c.Rng.Intn(len(dests))]
			if c.Rng.Intn(3) != 0 {
				d = dests[2+c.Rng.Intn(8)]
			}
			typ := d.Types[c.Rng.Intn(len(d.Types))]
			ds = append(ds, d)
			types = append(types, typ)
			names = append(names, d.Name)
			vs = append(vs, abigen.Gen(c.Rng, typ))
		}
		data := abigen.Encode(vs)
		kind := ""
		switch k := c.Rng.Intn(8); {
		case k == 0:
			kind = "random"
			data = vh.Bytes(c.Rng, c.Rng.Intn(200))
		case k <= 2:
			kind = "truncated"
			data = data[:c.Rng.Intn(len(data)+1)]
		case k <= 6:
			kind = "words"
			m := 1 + c.Rng.Intn(3)
			for j := 0; j < m; j++ {
				i := c.Rng.Intn(len(data) / 32)
				if c.Rng.Intn(2) == 0 {
					i = c.Rng.Intn(n)
				}
				w := edgeWord(c, len(data))
				copy(data[32*i:], w[:])
			}
			if c.Rng.Intn(4) == 0 {
				kind = "words+truncated"
				data = data[:c.Rng.Intn(len(data)+1)]
			}
		default:
			kind = "zeros"
			data = make([]byte, c.Rng.Intn(200))
		}
		orig := hex.EncodeToString(data)
		want, refErr := abigen.Decode(data, types)

		run := func(buf []byte) (out []interface{}, err error, ok bool) {
			out = make([]interface{}, n)
			for i := range ds {
				out[i] = ds[i].New(c.Rng, false)
			}
			ok = c.Guard("panic", func() { err = seth.DecodeABI(buf, out...) })
			if !ok {
				c.Fail("panic", "decoding %v from %s (%s)", names, orig, kind)
			}
			r.Eval(1)
			return
		}
		exact := make([]byte, len(data))
		copy(exact, data)
		exact = exact[:len(data):len(data)]
		before := allocated()
		out, err, ok := run(exact)
		used := allocated() - before
		if !ok {
			return
		}
		if alloc {
			r.Count("allocation_checked", 1)
			if lim := uint64(n)*uint64(len(data))*8 + 256<<10; used > lim {
				used = smallest(func() { run(exact) })
				if used > lim {
					c.Fail("allocation", "decoding %v from %d bytes %s allocated %d bytes", names, len(data), orig, used)
				}
			}
		}
		if err == nil && refErr != nil {
			c.Fail("accepted", "decoding %v from %s succeeded, but %v", names, orig, refErr)
			return
		}
		if err == nil {
			for i := range out {
				if numeric(names[i]) && !canonical(want[i], names[i]) {
					continue // a word outside the type's range
				}
				if got := abigen.Render(out[i]); got != ds[i].Want(want[i]) {
					c.Fail("value", "decoding %v from %s: argument %d is %s, but the data says %s", names, orig, i, got, ds[i].Want(want[i]))
				}
			}
		}
		// the same data inside a larger buffer
		big := vh.Bytes(c.Rng, len(data)+400)
		copy(big, data)
		out2, err2, ok := run(big[:len(data)])
		if !ok {
			return
		}
		if (err == nil) != (err2 == nil) {
			c.Fail("capacity", "decoding %v from %s: %v, but %v when the buffer has spare capacity", names, orig, err, err2)
		} else if err == nil {
			for i := range out {
				if abigen.Render(out[i]) != abigen.Render(out2[i]) {
					c.Fail("capacity", "decoding %v from %s: argument %d is %s, but %s when the buffer has spare capacity", names, orig, i, abigen.Render(out[i]), abigen.Render(out2[i]))
				}
			}
		}
		// through the text form
		var out3 []interface{}
		for i := range ds {
			out3 = append(out3, ds[i].New(c.Rng, false))
		}
		c.Guard("panic", func() {
			e := seth.NewABIDecoder(out3...).UnmarshalText([]byte("0x" + orig))
			if (e == nil) != (err == nil) {
				c.Fail("text", "decoding %v from %s: %v, but %v from text", names, orig, err, e)
			}
		})
		r.Eval(2)
		r.Cell(strings.Join(names, ","), kind, err == nil, refErr == nil, len(data)/32)
		if refErr != nil {
			r.Count("definitely_malformed", 1)
			r.Seen("malformed_reasons", strings.Map(func(x rune) rune {
				if x >= '0' && x <= '9' {
					return -1
				}
				return x
			}, refErr.Error()))
		}
		if err != nil {
			r.Count("refused", 1)
		}
		if c.Index < 4 {
			r.Sample("%v %s: %v", names, orig, err)
		}
	}
	// sequentially, where allocation can be attributed
	r.Cases("alloc", r.Scale(6000, 100000), 1, func(c *vh.Case) { one(c, true) })
	r.Cases("malformed", r.Scale(150000, 4000000), 0, func(c *vh.Case) { one(c, false) })
	// arrays and strings whose length field is huge, at every position
	r.Cases("huge", 4*10*5, 1, func(c *vh.Case) {
		kinds := []string{"string", "[]byte", "Bytes", "IntSlice", "AddrSlice", "DataSlice"}
		for _, name := range kinds {
			var d abigen.Dest
			for _, x := range dests {
				if x.Name == name {
					d = x
				}
			}
			pos := c.Index % 4
			var data []byte
			var out []interface{}
			for i := 0; i < pos; i++ {
				data = append(data, make([]byte, 32)...)
				out = append(out, new(seth.Int))
			}
			out = append(out, d.New(c.Rng, false))
			w := abigen.IntWord(big.NewInt(int64(32*pos + 32)))
			data = append(data, w[:]...)
			lens := []uint{24, 26, 28, 30, 31, 32, 40, 57, 58, 59}
			l := new(big.Int).Lsh(big.NewInt(1), lens[c.Index/4%10])
			l.Sub(l, big.NewInt(int64(c.Index/40)))
			w = abigen.IntWord(l)
			data = append(data, w[:]...)
			data = append(data, vh.Bytes(c.Rng, 64)...)
			before := allocated()
			var err error
			if !c.Guard("panic", func() { err = seth.DecodeABI(data, out...) }) {
				c.Fail("panic", "%s of length %s at %d", name, l, pos)
			}
			used := allocated() - before
			if used > 1<<20 {
				used = smallest(func() {
					o := append([]interface{}{}, out[:pos]...)
					seth.DecodeABI(data, append(o, d.New(c.Rng, false))...)
				})
			}
			if used > 1<<20 {
				c.Fail("allocation", "decoding a %s of claimed length %s from %d bytes allocated %d", name, l, len(data), used)
			}
			if err == nil {
				c.Fail("accepted", "decoding a %s of claimed length %s from %d bytes succeeded", name, l, len(data))
			}
			r.Eval(1)
			r.Cell("huge", name, pos, l.String())
		}
	})
}

func numeric(name string) bool {
	return name == "bool" || strings.HasPrefix(name, "uint") || strings.HasPrefix(name, "int")
}

// canonical says whether a word is a value of the Go type.
func canonical(v *abigen.Value, name string) bool {
	n := new(big.Int).SetBytes(v.Word[:])
	switch {
	case name == "bool":
		return n.BitLen() <= 1
	case name == "int" || name == "uint":
		return n.BitLen() <= 31
	}
	var bits int
	if strings.HasPrefix(name, "uint") {
		fmt.Sscanf(name, "uint%d", &bits)
		return n.BitLen() <= bits
	}
	fmt.Sscanf(name, "int%d", &bits)
	return n.BitLen() <= bits-1
}
