// C10: text and JSON codecs.
package c10

import (
	"encoding"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"testing"

	"github.com/philhofer/seth"

	"vharness/gen"
	"vharness/vh"
)

var quantity = regexp.MustCompile(`^0x(0|[1-9a-f][0-9a-f]*)$`)
var dataRx = regexp.MustCompile(`^0x([0-9a-f][0-9a-f])*$`)

type fixed struct {
	name string
	n    int
	new  func() interface{}
	raw  func(v interface{}) []byte
	// from parses with the FromString/Parse functions
	from func(v interface{}, s string) error
}

var fixeds = []fixed{
	{"Address", 20, func() interface{} { return new(seth.Address) }, func(v interface{}) []byte { return v.(*seth.Address)[:] },
		func(v interface{}, s string) error { return v.(*seth.Address).FromString(s) }},
	{"Hash", 32, func() interface{} { return new(seth.Hash) }, func(v interface{}) []byte { return v.(*seth.Hash)[:] },
		func(v interface{}, s string) error { return v.(*seth.Hash).FromString(s) }},
	{"Signature", 65, func() interface{} { return new(seth.Signature) }, func(v interface{}) []byte { return v.(*seth.Signature)[:] },
		func(v interface{}, s string) error { return v.(*seth.Signature).FromString(s) }},
	{"PublicKey", 64, func() interface{} { return new(seth.PublicKey) }, func(v interface{}) []byte { return v.(*seth.PublicKey)[:] },
		func(v interface{}, s string) error { return v.(*seth.PublicKey).FromString(s) }},
	{"PrivateKey", 32, func() interface{} { return new(seth.PrivateKey) }, func(v interface{}) []byte { return v.(*seth.PrivateKey)[:] },
		func(v interface{}, s string) error { return v.(*seth.PrivateKey).FromString(s) }},
}

func parse(name, s string) (interface{}, error) {
	switch name {
	case "Address":
		return seth.ParseAddress(s)
	case "Hash":
		return seth.ParseHash(s)
	case "Signature":
		return seth.ParseSignature(s)
	case "PublicKey":
		return seth.ParsePublicKey(s)
	default:
		return seth.ParsePrivateKey(s)
	}
}

func mixcase(g *rand.Rand, s string) string {
	b := []byte(s)
	for i := 2; i < len(b); i++ {
		if g.Intn(2) == 0 {
			b[i] = strings.ToUpper(string(b[i]))[0]
		}
	}
	return string(b)
}

func edgeBytes(g *rand.Rand, n int) []byte {
	b := vh.Bytes(g, n)
	switch g.Intn(5) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		k := g.Intn(n + 1)
		for i := 0; i < k; i++ {
			b[i] = 0
		}
	}
	return b
}

func TestProperty(t *testing.T) {
	r := vh.Start("C10", "exploration")
	r.Rule("a case is a generated value and destination contents, or a malformed text; distinct by type, length class and form")
	r.Assume("texts with an odd number of digits, which the library reads with an implied leading zero, are outside the property")
	defer r.Finish()

	r.Cases("fixed", r.Scale(40000, 800000), 0, func(c *vh.Case) {
		f := fixeds[c.Rng.Intn(len(fixeds))]
		val := edgeBytes(c.Rng, f.n)
		want := "0x" + hex.EncodeToString(val)
		v := f.new()
		copy(f.raw(v), val)
		txt, err := v.(encoding.TextMarshaler).MarshalText()
		if err != nil || string(txt) != want {
			c.Fail("text", "%s %x marshals as %q (%v)", f.name, val, txt, err)
		}
		if s := v.(fmt.Stringer).String(); s != want {
			c.Fail("string", "%s %x prints as %q", f.name, val, s)
		}
		js, err := json.Marshal(v)
		if err != nil || string(js) != `"`+want+`"` {
			c.Fail("JSON", "%s %x marshals as %q (%v)", f.name, val, js, err)
		}
		if !reflect.DeepEqual(f.raw(v), val) {
			c.Fail("source", "encoding changed %s", f.name)
		}
		in := want
		if c.Rng.Intn(2) == 0 {
			in = mixcase(c.Rng, in)
		}
		ways := map[string]func(d interface{}) error{
			"UnmarshalText": func(d interface{}) error { return d.(encoding.TextUnmarshaler).UnmarshalText([]byte(in)) },
			"JSON":          func(d interface{}) error { return json.Unmarshal([]byte(`"`+in+`"`), d) },
			"FromString":    func(d interface{}) error { return f.from(d, in) },
		}
		if f.name == "Address" {
			ways["Scan"] = func(d interface{}) error { _, err := fmt.Sscanf(in, "%a", d); return err }
		}
		if f.name == "Hash" {
			ways["Scan"] = func(d interface{}) error { _, err := fmt.Sscanf(in, "%h", d); return err }
		}
		for way, fn := range ways {
			d := f.new()
			prior := edgeBytes(c.Rng, f.n)
			copy(f.raw(d), prior)
			if err := fn(d); err != nil || !reflect.DeepEqual(f.raw(d), val) {
				c.Fail(way, "%s %s decodes as %x (%v) over %x", f.name, in, f.raw(d), err, prior)
			}
			r.Eval(1)
			r.Seen("decoders", f.name+"/"+way)
		}
		p, err := parse(f.name, in)
		if err != nil || !reflect.DeepEqual(f.raw(p), val) {
			c.Fail("Parse", "%s %s: %v", f.name, in, err)
		}
		r.Eval(5)
		r.Cell(f.name, in[2:5], len(strings.TrimLeft(want[2:], "0")))

		// malformed
		bad := badHex(c, f.n)
		d := f.new()
		if err := d.(encoding.TextUnmarshaler).UnmarshalText([]byte(bad)); err == nil {
			c.Fail("accepted", "%s accepts %q as %x", f.name, bad, f.raw(d))
		}
		if _, err := parse(f.name, bad); err == nil {
			c.Fail("accepted", "Parse%s accepts %q", f.name, bad)
		}
		q, _ := json.Marshal(bad)
		if err := json.Unmarshal(q, f.new()); err == nil {
			c.Fail("accepted", "%s accepts the JSON %s", f.name, q)
		}
		r.Eval(3)
		r.Count("malformed", 3)
	})

	r.Cases("bytes", r.Scale(20000, 400000), 0, func(c *vh.Case) {
		n := []int{0, 0, 1, 2, 19, 20, 31, 32, 33, 64, 100, 1000}[c.Rng.Intn(12)]
		val := edgeBytes(c.Rng, n)
		want := "0x" + hex.EncodeToString(val)
		in := want
		if c.Rng.Intn(2) == 0 {
			in = mixcase(c.Rng, in)
		}
		check := func(name string, v interface{}, get func() []byte, set func([]byte)) {
			set(val)
			txt, err := v.(encoding.TextMarshaler).MarshalText()
			js, err2 := json.Marshal(v)
			if err != nil || err2 != nil || string(txt) != want || string(js) != `"`+want+`"` || v.(fmt.Stringer).String() != want {
				c.Fail("encode", "%s %x encodes as %s, %s, %s", name, val, txt, js, v)
			}
			for i, fn := range []func() error{
				func() error { return v.(encoding.TextUnmarshaler).UnmarshalText([]byte(in)) },
				func() error { return json.Unmarshal([]byte(`"`+in+`"`), v) },
			} {
				prior := vh.Bytes(c.Rng, c.Rng.Intn(70))
				keep := append([]byte(nil), prior...)
				set(prior)
				if err := fn(); err != nil || string(get()) != string(val) {
					c.Fail("decode", "%s %s decodes (way %d) as %x (%v) over %x", name, in, i, get(), err, keep)
				}
				if string(keep) != string(prior) {
					c.Fail("shared", "%s: decoding wrote into the previous value's memory", name)
				}
				r.Eval(1)
			}
			bad := badHex(c, -1)
			if err := v.(encoding.TextUnmarshaler).UnmarshalText([]byte(bad)); err == nil {
				c.Fail("accepted", "%s accepts %q", name, bad)
			}
			r.Eval(2)
		}
		var d seth.Data
		check("Data", &d, func() []byte { return d }, func(b []byte) { d = b })
		var b seth.Bytes
		check("Bytes", &b, func() []byte { return b }, func(x []byte) { b = x })
		r.Cell("bytes", n, in[2:])
	})

	r.Cases("ints", r.Scale(30000, 600000), 0, func(c *vh.Case) {
		n := vh.Big(c.Rng, []int{8, 64, 65, 128, 256, 300, 1000}[c.Rng.Intn(7)])
		neg := c.Rng.Intn(6) == 0
		if neg {
			n.Neg(n)
		}
		i := (*seth.Int)(new(big.Int).Set(n))
		txt, err := i.MarshalText()
		if n.Sign() >= 0 {
			if want := "0x" + n.Text(16); err != nil || string(txt) != want {
				c.Fail("Int text", "%s marshals as %q (%v)", n, txt, err)
			}
		}
		js, err := json.Marshal(i)
		if err != nil || string(js) != `"`+string(txt)+`"` || i.String() != string(txt) {
			c.Fail("Int text", "%s marshals as %s, %s, %s (%v)", n, txt, js, i, err)
		}
		if i.Big().Cmp(n) != 0 {
			c.Fail("source", "encoding changed the integer %s", n)
		}
		dirty := func() *seth.Int {
			d := (*seth.Int)(vh.Big(c.Rng, 300))
			if c.Rng.Intn(2) == 0 {
				d.Big().Neg(d.Big())
			}
			return d
		}
		chk := func(form string, d *seth.Int, err error) {
			r.Eval(1)
			r.Seen("int_forms", form)
			if err != nil || d.Big().Cmp(n) != 0 {
				c.Fail("Int "+form, "%s decodes as %s (%v)", n, d.Big(), err)
			}
		}
		d := dirty()
		err = d.UnmarshalText(txt)
		chk("own text", d, err)
		d = dirty()
		err = json.Unmarshal(js, d)
		chk("own JSON", d, err)
		d = dirty()
		err = json.Unmarshal([]byte(n.String()), d)
		chk("bare number", d, err)
		d = dirty()
		err = json.Unmarshal([]byte(`"`+n.String()+`"`), d)
		chk("decimal string", d, err)
		d = dirty()
		err = d.FromString(n.String())
		chk("FromString", d, err)
		d, err = seth.ParseInt(n.String())
		chk("ParseInt", d, err)
		if !neg {
			in := mixcase(c.Rng, "0x"+strings.Repeat("0", c.Rng.Intn(4))+n.Text(16))
			d = dirty()
			err = json.Unmarshal([]byte(`"`+in+`"`), d)
			chk("hex string", d, err)
			d = dirty()
			_, err = fmt.Sscanf(in, "%x", d)
			chk("Scan", d, err)
			d = dirty()
			err = d.UnmarshalText([]byte(in))
			chk("hex text", d, err)
		}
		for _, bad := range []string{"", "0x" + badDigits(c), n.String() + "g", "0x" + n.Text(16)[:1] + "x", "--1", "1.5", n.String() + " "} {
			if err := new(seth.Int).UnmarshalText([]byte(bad)); err == nil {
				c.Fail("accepted", "Int accepts %q", bad)
			}
			r.Eval(1)
		}
		r.Cell("int", n.BitLen(), neg, txt[len(txt)-1])

		// 64 bits
		fits := n.IsUint64()
		for _, s := range []string{`"` + n.String() + `"`, n.String(), `"` + i.String() + `"`} {
			u := seth.Uint64(c.Rng.Uint64())
			err := json.Unmarshal([]byte(s), &u)
			if fits && (err != nil || uint64(u) != n.Uint64()) {
				c.Fail("Uint64", "%s decodes as %d (%v)", s, uint64(u), err)
			}
			if !fits && err == nil {
				c.Fail("Uint64 overflow", "%s decodes as %d", s, uint64(u))
			}
			r.Eval(1)
		}
		if fits {
			u := seth.Uint64(n.Uint64())
			txt, err := u.MarshalText()
			if err != nil || string(txt) != "0x"+n.Text(16) {
				c.Fail("Uint64 text", "%s marshals as %s (%v)", n, txt, err)
			}
			r.Eval(1)
		}
	})

	records := []reflect.Type{
		reflect.TypeOf(seth.Log{}), reflect.TypeOf(seth.Transaction{}), reflect.TypeOf(seth.Block{}),
		reflect.TypeOf(seth.Receipt{}),
	}
	r.Cases("records", r.Scale(20000, 400000), 0, func(c *vh.Case) {
		typ := records[c.Rng.Intn(len(records))]
		v := reflect.New(typ)
		gen.Fill(c.Rng, v.Elem())
		before := gen.Show(v)
		js, err := json.Marshal(v.Interface())
		if err != nil {
			c.Fail("record", "%s does not marshal: %v", before, err)
			return
		}
		if gen.Show(v) != before {
			c.Fail("source", "encoding changed %s", before)
		}
		var m map[string]interface{}
		if err := json.Unmarshal(js, &m); err != nil {
			c.Fail("record", "%s marshals as %s: %v", before, js, err)
			return
		}
		forms(c, typ, m, js)
		for _, dirty := range []bool{false, true} {
			d := reflect.New(typ)
			if dirty {
				gen.Fill(c.Rng, d.Elem())
			}
			prior := gen.Show(d)
			if dirty {
				// encoding/json keeps what a null or absent field held
				js = withoutNulls(typ, v, d, js)
			}
			if err := json.Unmarshal(js, d.Interface()); err != nil {
				c.Fail("record", "%s does not decode: %v", js, err)
				continue
			}
			if got := gen.Show(d); got != before {
				c.Fail("record", "%s\n marshals as %s\n and decodes as %s\n over %s", before, js, got, prior)
			}
			r.Eval(1)
		}
		r.Seen("records", typ.Name())
		r.Cell(typ.Name(), len(js)/8)
		if c.Index < 3 {
			r.Sample("%s", js)
		}
	})

	// RPC-level options
	r.Cases("opts", r.Scale(5000, 100000), 0, func(c *vh.Case) {
		var o, d seth.CallOpts
		gen.Fill(c.Rng, reflect.ValueOf(&o).Elem())
		js, err := json.Marshal(&o)
		if err != nil {
			c.Fail("opts", "%v", err)
			return
		}
		if err := json.Unmarshal(js, &d); err != nil || gen.Show(reflect.ValueOf(d)) != gen.Show(reflect.ValueOf(o)) {
			c.Fail("opts", "%s decodes as %s (%v), want %s", js, gen.Show(reflect.ValueOf(d)), err, gen.Show(reflect.ValueOf(o)))
		}
		r.Eval(1)
		r.Cell("opts", len(js))
	})
}

// withoutNulls clears in d what v leaves null, where JSON decoding by its
// convention keeps the previous contents
func withoutNulls(typ reflect.Type, v, d reflect.Value, js []byte) []byte {
	for i := 0; i < typ.NumField(); i++ {
		f := v.Elem().Field(i)
		switch {
		case strings.Contains(typ.Field(i).Tag.Get("json"), "omitempty") && f.Kind() == reflect.Slice && f.Len() == 0:
			d.Elem().Field(i).Set(reflect.Zero(f.Type()))
		}
		// slices of records are decoded into the previous elements
		if f.Kind() == reflect.Slice && f.Type().Elem().Kind() == reflect.Struct {
			d.Elem().Field(i).Set(reflect.Zero(f.Type()))
		}
	}
	return js
}

func forms(c *vh.Case, typ reflect.Type, m map[string]interface{}, js []byte) {
	for i := 0; i < typ.NumField(); i++ {
		f := typ.Field(i)
		name := strings.Split(f.Tag.Get("json"), ",")[0]
		x, ok := m[name]
		if !ok {
			if !strings.Contains(f.Tag.Get("json"), "omitempty") {
				c.Fail("record form", "field %s is missing in %s", name, js)
			}
			continue
		}
		ft := f.Type
		if ft.Kind() == reflect.Ptr {
			if x == nil {
				continue
			}
			ft = ft.Elem()
		}
		s, _ := x.(string)
		switch ft.Name() {
		case "Int", "Uint64":
			if !quantity.MatchString(s) {
				c.Fail("record form", "%s.%s is %v, which is not a quantity", typ.Name(), name, x)
			}
		case "Hash":
			if !dataRx.MatchString(s) || len(s) != 66 {
				c.Fail("record form", "%s.%s is %v", typ.Name(), name, x)
			}
		case "Address":
			if !dataRx.MatchString(s) || len(s) != 42 {
				c.Fail("record form", "%s.%s is %v", typ.Name(), name, x)
			}
		case "Data":
			if !dataRx.MatchString(s) {
				c.Fail("record form", "%s.%s is %v", typ.Name(), name, x)
			}
		}
		c.Eval(1)
	}
}

const nonhex = "gGzZ xX-+._\n/:@`\x00\xff"

func badDigits(c *vh.Case) string {
	b := []byte(hex.EncodeToString(vh.Bytes(c.Rng, 1+c.Rng.Intn(20))))
	b[c.Rng.Intn(len(b))] = nonhex[c.Rng.Intn(len(nonhex))]
	return string(b)
}

// badHex is a text that is no hex string of n bytes (of any length if n is -1)
func badHex(c *vh.Case, n int) string {
	k := n
	if k < 0 {
		k = 1 + c.Rng.Intn(40)
	}
	good := hex.EncodeToString(vh.Bytes(c.Rng, k))
	switch c.Rng.Intn(6) {
	case 0:
		return good // no prefix
	case 1:
		b := []byte(good)
		b[c.Rng.Intn(len(b))] = nonhex[c.Rng.Intn(len(nonhex))]
		return "0x" + string(b)
	case 2:
		return ""
	case 3:
		return []string{"0", "x", "1x" + good, "x0" + good, " 0x" + good, "\"0x" + good + "\""}[c.Rng.Intn(6)]
	default:
		if n < 0 {
			return "0x" + good + "zz"
		}
		m := c.Rng.Intn(2 * n)
		for m == n {
			m = c.Rng.Intn(2 * n)
		}
		if c.Rng.Intn(4) == 0 {
			m = []int{n - 1, n + 1, 0}[c.Rng.Intn(3)]
		}
		return "0x" + hex.EncodeToString(vh.Bytes(c.Rng, m))
	}
}
