// C11: MessagePack codecs.
package c11

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"testing"

	"github.com/philhofer/seth"
	"github.com/tinylib/msgp/msgp"

	"vharness/gen"
	"vharness/vh"
)

var types = []reflect.Type{
	reflect.TypeOf(seth.Address{}), reflect.TypeOf(seth.Hash{}), reflect.TypeOf(seth.Data{}), reflect.TypeOf(seth.Int{}),
	reflect.TypeOf(seth.Uint64(0)), reflect.TypeOf(seth.Block{}), reflect.TypeOf(seth.Transaction{}),
	reflect.TypeOf(seth.Receipt{}), reflect.TypeOf(seth.Log{}), reflect.TypeOf(seth.TokenTransfer{}),
	reflect.TypeOf(seth.RPCError{}), reflect.TypeOf(seth.ABIParam{}), reflect.TypeOf(seth.ABIDescriptor{}),
	reflect.TypeOf(seth.Source{}), reflect.TypeOf(seth.CompiledContract{}), reflect.TypeOf(seth.CompiledBundle{}),
}

func value(c *vh.Case, typ reflect.Type) reflect.Value {
	v := reflect.New(typ)
	gen.Fill(c.Rng, v.Elem())
	return v
}

func stream(v reflect.Value) ([]byte, error) {
	var buf bytes.Buffer
	w := msgp.NewWriter(&buf)
	if err := v.Interface().(msgp.Encodable).EncodeMsg(w); err != nil {
		return nil, err
	}
	err := w.Flush()
	return buf.Bytes(), err
}

// chunked gives its bytes in small pieces
type chunked struct {
	b []byte
	n int
}

func (r *chunked) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, io.EOF
	}
	n := r.n
	if n > len(r.b) {
		n = len(r.b)
	}
	n = copy(p, r.b[:n])
	r.b = r.b[n:]
	return n, nil
}

func TestProperty(t *testing.T) {
	r := vh.Start("C11", "exploration")
	r.Rule("a case is a generated value of a record type, encoded and decoded both ways, truncated at every point, followed by garbage and extended by unknown fields; distinct by type and encoding length")
	r.Assume("nil and empty byte strings and lists count as equal, as the format does not tell them apart; integers are non-negative")
	defer r.Finish()

	r.Cases("roundtrip", r.Scale(10000, 300000), 0, func(c *vh.Case) {
		typ := types[c.Index%len(types)]
		v := value(c, typ)
		want := gen.Show(v)
		pre := vh.Bytes(c.Rng, c.Rng.Intn(5))
		enc, err := v.Interface().(msgp.Marshaler).MarshalMsg(append([]byte(nil), pre...))
		if err != nil || !bytes.HasPrefix(enc, pre) {
			c.Fail("MarshalMsg", "%s: %v", want, err)
			return
		}
		enc = enc[len(pre):]
		enc2, err := stream(v)
		if err != nil {
			c.Fail("EncodeMsg", "%s: %v", want, err)
			return
		}
		if gen.Show(v) != want {
			c.Fail("source", "encoding changed %s", want)
		}
		dest := func() reflect.Value {
			if c.Rng.Intn(3) == 0 {
				return reflect.New(typ)
			}
			return value(c, typ)
		}
		for i, e := range [][]byte{enc, enc2} {
			// buffer, with something after it
			tail := vh.Bytes(c.Rng, c.Rng.Intn(40))
			in := append(append([]byte(nil), e...), tail...)
			d := dest()
			prior := gen.Show(d)
			rest, err := d.Interface().(msgp.Unmarshaler).UnmarshalMsg(in)
			for k := range in { // no sharing of the buffer
				in[k] ^= 0xff
			}
			if err != nil || gen.Show(d) != want {
				c.Fail("UnmarshalMsg", "%s (encoding %d) decodes as\n %s (%v) over\n %s", want, i, gen.Show(d), err, prior)
			} else if len(rest) != len(tail) {
				c.Fail("consumed", "%s: %d bytes left, want %d", want, len(rest), len(tail))
			}
			// stream, twice in a row, in chunks
			in = append(append(append([]byte(nil), e...), e...), tail...)
			rd := msgp.NewReaderSize(&chunked{in, 1 + c.Rng.Intn(40)}, 18+c.Rng.Intn(60))
			for k := 0; k < 2; k++ {
				d := dest()
				prior := gen.Show(d)
				if err := d.Interface().(msgp.Decodable).DecodeMsg(rd); err != nil || gen.Show(d) != want {
					c.Fail("DecodeMsg", "%s (encoding %d, record %d) decodes as\n %s (%v) over\n %s", want, i, k, gen.Show(d), err, prior)
					break
				}
			}
			left, _ := io.ReadAll(rd.R)
			if !bytes.Equal(left, tail) {
				c.Fail("consumed", "%s: the stream decoder left %x, want %x", want, left, tail)
			}
			if left, err := msgp.Skip(e); err != nil || len(left) != 0 {
				c.Fail("object", "%s: the encoding %x is not one object: %d bytes left, %v", want, e, len(left), err)
			}
			r.Eval(5)
		}
		// truncation
		for i := 0; i < len(enc); i++ {
			k := i
			if len(enc) > 400 && i >= 60 {
				k = c.Rng.Intn(len(enc))
				if i > 160 {
					break
				}
			}
			cut := append([]byte(nil), enc[:k]...)
			cut = cut[:k:k]
			d := dest()
			if _, err := d.Interface().(msgp.Unmarshaler).UnmarshalMsg(cut); err == nil {
				c.Fail(truncKey(typ, k), "%s: the first %d of %d bytes decode as %s", want, k, len(enc), gen.Show(d))
			}
			d = dest()
			if err := d.Interface().(msgp.Decodable).DecodeMsg(msgp.NewReader(&chunked{cut, 7})); err == nil {
				c.Fail("truncated-stream-"+typ.Name(), "%s: the stream of the first %d of %d bytes decodes as %s", want, k, len(enc), gen.Show(d))
			}
			r.Eval(2)
			r.Count("truncations", 2)
		}
		// unknown fields
		if enc[0]&0xf0 == 0x80 || enc[0] == 0xde {
			if n, body, err := msgp.ReadMapHeaderBytes(enc); err == nil {
				k := 1 + c.Rng.Intn(3)
				x := msgp.AppendMapHeader(nil, n+uint32(k))
				// at the front, and at the end
				front := c.Rng.Intn(k + 1)
				for j := 0; j < front; j++ {
					x = unknown(c, x, j)
				}
				x = append(x, body...)
				for j := front; j < k; j++ {
					x = unknown(c, x, j)
				}
				d := dest()
				rest, err := d.Interface().(msgp.Unmarshaler).UnmarshalMsg(x)
				if err != nil || len(rest) != 0 || gen.Show(d) != want {
					c.Fail("unknown fields", "%s with %d unknown fields decodes as\n %s (%v)", want, k, gen.Show(d), err)
				}
				d = dest()
				if err := d.Interface().(msgp.Decodable).DecodeMsg(msgp.NewReader(bytes.NewReader(x))); err != nil || gen.Show(d) != want {
					c.Fail("unknown fields", "%s with %d unknown fields decodes from a stream as\n %s (%v)", want, k, gen.Show(d), err)
				}
				r.Eval(2)
				r.Count("unknown_fields", k)
			}
		}
		r.Seen("types", typ.Name())
		r.Cell(typ.Name(), len(enc))
		if c.Index < len(types) {
			r.Sample("%s: %d bytes", typ.Name(), len(enc))
		}
	})

	// an object of a different kind is an error, not a panic
	r.Cases("kinds", r.Scale(5000, 80000), 0, func(c *vh.Case) {
		typ := types[c.Index%len(types)]
		x := unknownValue(c, nil)
		d := value(c, typ)
		d.Interface().(msgp.Unmarshaler).UnmarshalMsg(x)
		d.Interface().(msgp.Decodable).DecodeMsg(msgp.NewReader(bytes.NewReader(x)))
		r.Eval(2)
		r.Cell("kind", typ.Name(), x[0])
	})
}

// truncKey tells a cut inside the header of the object from one inside its body
func truncKey(typ reflect.Type, k int) string {
	if k < 2 {
		return "truncated-header-" + typ.Name()
	}
	return "truncated-buffer-" + typ.Name()
}

func unknown(c *vh.Case, b []byte, i int) []byte {
	b = msgp.AppendString(b, fmt.Sprintf("no such field %d", i))
	return unknownValue(c, b)
}

func unknownValue(c *vh.Case, b []byte) []byte {
	switch c.Rng.Intn(9) {
	case 0:
		return msgp.AppendNil(b)
	case 1:
		return msgp.AppendInt64(b, c.Rng.Int63()-c.Rng.Int63())
	case 2:
		return msgp.AppendString(b, "some text")
	case 3:
		return msgp.AppendBytes(b, vh.Bytes(c.Rng, c.Rng.Intn(300)))
	case 4:
		b = msgp.AppendArrayHeader(b, 2)
		b = unknownValue(c, b)
		return unknownValue(c, b)
	case 5:
		b = msgp.AppendMapHeader(b, 1)
		b = msgp.AppendString(b, "name")
		return unknownValue(c, b)
	case 6:
		return msgp.AppendFloat64(b, c.Rng.Float64())
	case 7:
		return msgp.AppendBool(b, true)
	default:
		return msgp.AppendUint64(b, c.Rng.Uint64())
	}
}
