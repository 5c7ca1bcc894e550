// Package abigen generates ABI types and values, and encodes and decodes them
// after the text of the Solidity ABI specification, with no code of the
// repository under test.
package abigen

import (
	"fmt"
	"math/big"
	"math/rand"
	"strconv"
	"strings"

	"vharness/vh"
)

// Word is an ABI word.
type Word [32]byte

// Value is a value of an ABI type: a static word, a byte string, or an array
// of static words.
type Value struct {
	Type  string
	Kind  Kind
	Word  Word
	Bytes []byte
	Array []Word
	// Num is the number behind an integer word
	Num  *big.Int
	Nums []*big.Int
}

// Kind of a value.
type Kind int

const (
	Static Kind = iota
	ByteString
	ArrayOf
)

var two256 = new(big.Int).Lsh(big.NewInt(1), 256)

// IntWord is the two's complement word of n.
func IntWord(n *big.Int) Word {
	v := new(big.Int).Set(n)
	if v.Sign() < 0 {
		v.Add(v, two256)
	}
	if v.Sign() < 0 || v.BitLen() > 256 {
		panic("abigen: integer out of range")
	}
	var w Word
	b := v.Bytes()
	copy(w[32-len(b):], b)
	return w
}

// IsInt says whether typ is an integer type, its width and signedness.
func IsInt(typ string) (bits int, signed, ok bool) {
	s := typ
	if strings.HasPrefix(s, "uint") {
		s = s[4:]
	} else if strings.HasPrefix(s, "int") {
		s, signed = s[3:], true
	} else {
		return 0, false, false
	}
	n, err := strconv.Atoi(s)
	if err != nil || n%8 != 0 || n < 8 || n > 256 {
		return 0, false, false
	}
	return n, signed, true
}

// IsFixed says whether typ is bytesN.
func IsFixed(typ string) (n int, ok bool) {
	if !strings.HasPrefix(typ, "bytes") {
		return 0, false
	}
	n, err := strconv.Atoi(typ[5:])
	return n, err == nil && n >= 1 && n <= 32
}

// GenInt generates an integer of the type, biased to edges.
func GenInt(g *rand.Rand, bits int, signed bool) *big.Int {
	if !signed {
		return vh.Big(g, bits)
	}
	v := vh.Big(g, bits-1)
	if g.Intn(2) == 0 { // -v-1: down to the minimum
		v.Neg(v)
		v.Sub(v, big.NewInt(1))
	}
	return v
}

func genWord(g *rand.Rand, typ string) (Word, *big.Int) {
	if bits, signed, ok := IsInt(typ); ok {
		n := GenInt(g, bits, signed)
		return IntWord(n), n
	}
	var w Word
	if n, ok := IsFixed(typ); ok {
		copy(w[:], vh.Bytes(g, n))
		if g.Intn(6) == 0 {
			w = Word{}
		}
		return w, nil
	}
	switch typ {
	case "bool":
		n := big.NewInt(int64(g.Intn(2)))
		return IntWord(n), n
	case "address":
		if g.Intn(6) != 0 {
			g.Read(w[12:])
		}
		return w, nil
	}
	panic("abigen: type " + typ)
}

var lens = []int{0, 0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, 128, 255, 256, 257, 1000, 1024}

var longLens = []int{1025, 2048, 4095, 4096, 5000, 65535, 65536, 65537, 70000}

func genLen(g *rand.Rand) int {
	if g.Intn(500) == 0 {
		return longLens[g.Intn(len(longLens))]
	}
	if g.Intn(3) != 0 {
		return lens[g.Intn(len(lens))]
	}
	return g.Intn(200)
}

// Gen generates a value of the type.
func Gen(g *rand.Rand, typ string) *Value {
	v := &Value{Type: typ}
	switch {
	case typ == "bytes":
		v.Kind = ByteString
		v.Bytes = vh.Bytes(g, genLen(g))
		if g.Intn(6) == 0 {
			for i := range v.Bytes {
				v.Bytes[i] = 0
			}
		}
	case typ == "string":
		v.Kind = ByteString
		n := genLen(g)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(32 + g.Intn(95))
		}
		v.Bytes = b
	case strings.HasSuffix(typ, "[]"):
		v.Kind = ArrayOf
		n := []int{0, 0, 1, 1, 2, 3, 5, 8, 17}[g.Intn(9)]
		if g.Intn(150) == 0 {
			n = []int{64, 127, 128, 255, 256, 257, 500, 1000, 1100, 2049, 3000}[g.Intn(11)]
		}
		for i := 0; i < n; i++ {
			w, num := genWord(g, strings.TrimSuffix(typ, "[]"))
			v.Array = append(v.Array, w)
			v.Nums = append(v.Nums, num)
		}
	default:
		v.Word, v.Num = genWord(g, typ)
	}
	return v
}

// Statics are the elementary static types.
func Statics() []string {
	s := []string{"address", "bool"}
	for i := 8; i <= 256; i += 8 {
		s = append(s, fmt.Sprintf("uint%d", i), fmt.Sprintf("int%d", i))
	}
	for i := 1; i <= 32; i++ {
		s = append(s, fmt.Sprintf("bytes%d", i))
	}
	return s
}

var common = []string{"address", "bool", "uint256", "int256", "uint8", "int8", "uint64", "int64", "int128", "bytes32", "bytes4", "bytes20"}

// Arrays are the dynamic array types.
var Arrays = []string{"uint256[]", "address[]", "bytes32[]", "int256[]", "uint8[]", "bool[]", "int64[]", "bytes4[]"}

// Type picks a type.
func Type(g *rand.Rand) string {
	switch g.Intn(10) {
	case 0:
		s := Statics()
		return s[g.Intn(len(s))]
	case 1, 2, 3:
		return common[g.Intn(len(common))]
	case 4, 5:
		return "bytes"
	case 6:
		return "string"
	case 7:
		return Arrays[g.Intn(len(Arrays))]
	default:
		return Arrays[g.Intn(3)]
	}
}

// Head is the size of the head of a list of values.
func Head(vs []*Value) int { return 32 * len(vs) }

func lenWord(n int) Word { return IntWord(big.NewInt(int64(n))) }

// Encode is the ABI encoding of a list of values.
func Encode(vs []*Value) []byte {
	var head, tail []byte
	for _, v := range vs {
		switch v.Kind {
		case Static:
			head = append(head, v.Word[:]...)
			continue
		}
		w := lenWord(Head(vs) + len(tail))
		head = append(head, w[:]...)
		switch v.Kind {
		case ByteString:
			w := lenWord(len(v.Bytes))
			tail = append(tail, w[:]...)
			tail = append(tail, v.Bytes...)
			for len(tail)%32 != 0 {
				tail = append(tail, 0)
			}
		case ArrayOf:
			w := lenWord(len(v.Array))
			tail = append(tail, w[:]...)
			for i := range v.Array {
				tail = append(tail, v.Array[i][:]...)
			}
		}
	}
	return append(head, tail...)
}

// Decode decodes data as a list of the types. definite errors are those
// every reading of the specification has to reject: a head, length or body
// that is not inside the data.
func Decode(data []byte, types []string) ([]*Value, error) {
	var out []*Value
	for i, typ := range types {
		v := &Value{Type: typ}
		if 32*i+32 > len(data) {
			return nil, fmt.Errorf("head %d is outside the data", i)
		}
		copy(v.Word[:], data[32*i:])
		dyn := typ == "bytes" || typ == "string" || strings.HasSuffix(typ, "[]")
		if !dyn {
			out = append(out, v)
			continue
		}
		total := big.NewInt(int64(len(data)))
		off := new(big.Int).SetBytes(v.Word[:])
		end := new(big.Int).Add(off, big.NewInt(32))
		if end.Cmp(total) > 0 {
			return nil, fmt.Errorf("offset %s of argument %d is outside the data", off, i)
		}
		o := int(off.Int64())
		n := new(big.Int).SetBytes(data[o : o+32])
		size := new(big.Int).Set(n)
		if strings.HasSuffix(typ, "[]") {
			size.Mul(size, big.NewInt(32))
		}
		if end.Add(end, size).Cmp(total) > 0 {
			return nil, fmt.Errorf("body of argument %d (length %s) is outside the data", i, n)
		}
		body := data[o+32 : o+32+int(size.Int64())]
		if strings.HasSuffix(typ, "[]") {
			v.Kind = ArrayOf
			for j := 0; j < len(body); j += 32 {
				var w Word
				copy(w[:], body[j:])
				v.Array = append(v.Array, w)
			}
		} else {
			v.Kind = ByteString
			v.Bytes = append([]byte{}, body...)
		}
		out = append(out, v)
	}
	return out, nil
}
