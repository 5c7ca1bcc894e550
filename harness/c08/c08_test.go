// C08: ABI decoding of canonical encodings.
package c08

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/philhofer/seth"

	"vharness/abigen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C08", "exploration")
	r.Rule("a case is a list of generated values with one destination kind each, decoded four ways; distinct by destination kinds, types and data length")
	r.Assume("the reference encoder of harness/abigen, which C07 cross-checks against go-ethereum, is right")
	defer r.Finish()
	dests := abigen.Dests()

	r.Cases("decode", r.Scale(120000, 3000000), 0, func(c *vh.Case) {
		n := []int{1, 1, 1, 2, 2, 3, 3, 4, 5, 7}[c.Rng.Intn(10)]
		var vs []*abigen.Value
		var ds []abigen.Dest
		var want, names []string
		for i := 0; i < n; i++ {
			d := dests[c.Rng.Intn(len(dests))]
			if c.Rng.Intn(3) == 0 {
				d = dests[2+c.Rng.Intn(8)]
			}
			v := abigen.Gen(c.Rng, d.Types[c.Rng.Intn(len(d.Types))])
			ds = append(ds, d)
			vs = append(vs, v)
			want = append(want, d.Want(v))
			names = append(names, d.Name+"<-"+v.Type)
			r.Seen("destinations", d.Name+"<-"+v.Type)
			r.Seen("positions", fmt.Sprint(d.Name, i))
		}
		data := abigen.Encode(vs)
		orig := hex.EncodeToString(data)
		dirty := c.Rng.Intn(3) != 0
		mk := func() []interface{} {
			out := make([]interface{}, n)
			for i := range ds {
				out[i] = ds[i].New(c.Rng, dirty)
			}
			return out
		}
		check := func(how string, out []interface{}, err error) {
			r.Eval(1)
			if err != nil {
				c.Fail(how, "decoding %v from %s: %v", names, orig, err)
				return
			}
			for i := range out {
				if got := abigen.Render(out[i]); got != want[i] {
					c.Fail(how, "decoding %v from %s: argument %d is\n %s, want\n %s", names, orig, i, got, want[i])
				}
			}
		}
		// raw
		buf := append([]byte(nil), data...)
		out := mk()
		err := seth.DecodeABI(buf, out...)
		if hex.EncodeToString(buf) != orig {
			c.Fail("input", "decoding changed its input %s to %x", orig, buf)
		}
		for i := range buf { // results do not share the buffer
			buf[i] ^= 0xff
		}
		check("DecodeABI", out, err)
		// into the same destinations again, keeping what the first gave
		err = seth.DecodeABI(data, out...)
		check("DecodeABI again", out, err)
		// quoted hex
		out = mk()
		dec := seth.NewABIDecoder(out...)
		err = json.Unmarshal([]byte(`"0x`+orig+`"`), dec)
		check("JSON", out, err)
		out = mk()
		up := orig
		if c.Rng.Intn(2) == 0 {
			up = strings.ToUpper(up)
		}
		err = seth.NewABIDecoder(out...).UnmarshalText([]byte("0x" + up))
		check("text", out, err)
		// an event's data
		out = mk()
		var l seth.Log
		err = json.Unmarshal([]byte(`{"data":"0x`+orig+`","topics":[]}`), &l)
		if err == nil {
			err = seth.DecodeABI(l.Data, out...)
		}
		check("log data", out, err)
		// fewer destinations than values
		if n > 1 {
			k := 1 + c.Rng.Intn(n-1)
			out = mk()
			if err := seth.DecodeABI(data, out[:k]...); err != nil {
				c.Fail("prefix", "decoding the first %d of %v from %s: %v", k, names, orig, err)
			}
			for i := 0; i < k; i++ {
				if got := abigen.Render(out[i]); got != want[i] {
					c.Fail("prefix", "decoding the first %d of %v from %s: argument %d is %s, want %s", k, names, orig, i, got, want[i])
				}
			}
			r.Eval(1)
		}
		r.Cell(strings.Join(names, ","), len(data))
		if c.Index < 4 {
			r.Sample("%v %s", names, orig)
		}
	})

	// a value that was decoded stays what it was when its destination is
	// used again
	r.Cases("reuse", r.Scale(20000, 300000), 0, func(c *vh.Case) {
		d := dests[c.Rng.Intn(len(dests))]
		dst := d.New(c.Rng, false)
		typ := d.Types[c.Rng.Intn(len(d.Types))]
		v1, v2 := abigen.Gen(c.Rng, typ), abigen.Gen(c.Rng, typ)
		if err := seth.DecodeABI(abigen.Encode([]*abigen.Value{v1}), dst); err != nil {
			c.Fail("reuse", "%s: %v", d.Name, err)
			return
		}
		var kept interface{}
		switch x := dst.(type) { // a shallow copy, as an assignment makes
		case *seth.Data:
			k := *x
			kept = &k
		case *seth.Bytes:
			k := *x
			kept = &k
		case *[]byte:
			k := *x
			kept = &k
		case *string:
			k := *x
			kept = &k
		case *seth.AddrSlice:
			k := *x
			kept = &k
		case *seth.DataSlice:
			k := *x
			kept = &k
		case *seth.IntSlice:
			k := *x
			kept = &k
		default:
			return
		}
		if err := seth.DecodeABI(abigen.Encode([]*abigen.Value{v2}), dst); err != nil {
			c.Fail("reuse", "%s: %v", d.Name, err)
			return
		}
		if got := abigen.Render(dst); got != d.Want(v2) {
			c.Fail("reuse", "%s: second value %s, want %s", d.Name, got, d.Want(v2))
		}
		if got := abigen.Render(kept); got != d.Want(v1) {
			c.Fail("reuse", "%s: the copy kept of the first value became %s, want %s", d.Name, got, d.Want(v1))
		}
		r.Eval(2)
		r.Cell("reuse", d.Name, typ, len(v1.Bytes), len(v1.Array), len(v2.Bytes), len(v2.Array))
	})
}
