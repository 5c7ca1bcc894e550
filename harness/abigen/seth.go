package abigen

import (
	"bytes"
	"fmt"
	"math/big"
	"math/rand"
	"strings"

	"github.com/philhofer/seth"

	"vharness/vh"
)

// Arg is the value as an argument of the library.
func Arg(v *Value) seth.EtherType {
	elem := strings.TrimSuffix(v.Type, "[]")
	switch {
	case v.Kind == ByteString:
		b := seth.Bytes(append([]byte{}, v.Bytes...))
		return &b
	case v.Kind == ArrayOf && elem == "address":
		s := make(seth.AddrSlice, len(v.Array))
		for i := range s {
			copy(s[i][:], v.Array[i][12:])
		}
		return &s
	case v.Kind == ArrayOf && strings.HasPrefix(elem, "bytes"):
		n, _ := IsFixed(elem)
		s := make(seth.DataSlice, len(v.Array))
		for i := range s {
			s[i] = append(seth.Data{}, v.Array[i][:n]...)
		}
		return &s
	case v.Kind == ArrayOf:
		s := make(seth.IntSlice, len(v.Array))
		for i := range s {
			s[i].Big().Set(v.Nums[i])
		}
		return &s
	case v.Type == "address":
		a := new(seth.Address)
		copy(a[:], v.Word[12:])
		return a
	case v.Num != nil:
		i := new(seth.Int)
		i.Big().Set(v.Num)
		return i
	}
	n, ok := IsFixed(v.Type)
	if !ok {
		panic("abigen: no argument for " + v.Type)
	}
	d := seth.Data(append([]byte{}, v.Word[:n]...))
	return &d
}

// Render shows an argument, to tell whether it was changed.
func Render(a interface{}) string {
	switch x := a.(type) {
	case *seth.Int:
		return "int " + x.Big().String()
	case *big.Int:
		return "big " + x.String()
	case *seth.IntSlice:
		s := "ints"
		for i := range *x {
			s += " " + (*x)[i].Big().String()
		}
		return s
	case *seth.Data:
		return fmt.Sprintf("data %x", []byte(*x))
	case *seth.Bytes:
		return fmt.Sprintf("bytes %x", []byte(*x))
	case *[]byte:
		return fmt.Sprintf("raw %x", *x)
	case *string:
		return fmt.Sprintf("string %q", *x)
	case *seth.Address:
		return fmt.Sprintf("address %x", x[:])
	case *seth.AddrSlice:
		return fmt.Sprintf("addresses %x", [][20]byte(conv(*x)))
	case *seth.DataSlice:
		s := "datas"
		for i := range *x {
			s += fmt.Sprintf(" %x", []byte((*x)[i]))
		}
		return s
	case *bool:
		return fmt.Sprint("bool ", *x)
	case *uint8:
		return fmt.Sprint("n ", *x)
	case *uint16:
		return fmt.Sprint("n ", *x)
	case *uint32:
		return fmt.Sprint("n ", *x)
	case *uint64:
		return fmt.Sprint("n ", *x)
	case *uint:
		return fmt.Sprint("n ", *x)
	case *int8:
		return fmt.Sprint("n ", *x)
	case *int16:
		return fmt.Sprint("n ", *x)
	case *int32:
		return fmt.Sprint("n ", *x)
	case *int64:
		return fmt.Sprint("n ", *x)
	case *int:
		return fmt.Sprint("n ", *x)
	}
	return fmt.Sprintf("?%T", a)
}

func conv(a seth.AddrSlice) [][20]byte {
	out := make([][20]byte, len(a))
	for i := range a {
		out[i] = a[i]
	}
	return out
}

// Dest is a kind of decode destination: its Go type's name, the ABI types it
// matches, and how it renders a decoded value.
type Dest struct {
	Name  string
	Types []string
	New   func(g *rand.Rand, dirty bool) interface{}
	Want  func(v *Value) string
}

func u256(w Word) *big.Int { return new(big.Int).SetBytes(w[:]) }

func signedOf(w Word) *big.Int {
	n := u256(w)
	if n.Bit(255) == 1 {
		n.Sub(n, two256)
	}
	return n
}

func natural(g *rand.Rand) *big.Int { return vh.Big(g, 300) }

// Dests lists the destinations the library supports.
func Dests() []Dest {
	uints := []string{}
	for i := 8; i <= 256; i += 8 {
		uints = append(uints, fmt.Sprintf("uint%d", i))
	}
	fixed := []string{}
	for i := 1; i <= 32; i++ {
		fixed = append(fixed, fmt.Sprintf("bytes%d", i))
	}
	numWant := func(v *Value) string {
		if strings.HasPrefix(v.Type, "int") {
			return "n " + signedOf(v.Word).String()
		}
		return "n " + u256(v.Word).String()
	}
	num := func(name string, types []string, f func(g *rand.Rand, dirty bool) interface{}) Dest {
		return Dest{name, types, f, numWant}
	}
	d := func(g *rand.Rand, dirty bool) uint64 {
		if dirty {
			return g.Uint64()
		}
		return 0
	}
	return []Dest{
		{"Int", append(append([]string{}, uints...), "bool"), func(g *rand.Rand, dirty bool) interface{} {
			i := new(seth.Int)
			if dirty {
				i.Big().Neg(natural(g))
			}
			return i
		}, func(v *Value) string { return "int " + u256(v.Word).String() }},
		{"big", uints, func(g *rand.Rand, dirty bool) interface{} {
			i := new(big.Int)
			if dirty {
				i.Neg(natural(g))
			}
			return i
		}, func(v *Value) string { return "big " + u256(v.Word).String() }},
		{"Address", []string{"address"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new(seth.Address)
			if dirty {
				g.Read(a[:])
			}
			return a
		}, func(v *Value) string { return fmt.Sprintf("address %x", v.Word[12:]) }},
		{"Data", fixed, func(g *rand.Rand, dirty bool) interface{} {
			a := new(seth.Data)
			if dirty {
				*a = vh.Bytes(g, []int{0, 1, 20, 31, 32, 33, 64, 200}[g.Intn(8)])
			}
			return a
		}, func(v *Value) string { return fmt.Sprintf("data %x", v.Word[:]) }},
		{"Bytes", []string{"bytes"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new(seth.Bytes)
			if dirty {
				*a = vh.Bytes(g, g.Intn(100))
			}
			return a
		}, func(v *Value) string { return fmt.Sprintf("bytes %x", v.Bytes) }},
		{"[]byte", []string{"bytes", "string"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new([]byte)
			if dirty {
				*a = vh.Bytes(g, g.Intn(100))
			}
			return a
		}, func(v *Value) string { return fmt.Sprintf("raw %x", v.Bytes) }},
		{"string", []string{"string"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new(string)
			if dirty {
				*a = "previous contents of the string"
			}
			return a
		}, func(v *Value) string { return fmt.Sprintf("string %q", v.Bytes) }},
		{"IntSlice", []string{"uint256[]", "uint8[]", "uint64[]", "bool[]"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new(seth.IntSlice)
			if dirty {
				n := g.Intn(12)
				for i := 0; i < n; i++ {
					*a = append(*a, seth.Int(*natural(g)))
				}
			}
			return a
		}, func(v *Value) string {
			s := "ints"
			for i := range v.Array {
				s += " " + u256(v.Array[i]).String()
			}
			return s
		}},
		{"AddrSlice", []string{"address[]"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new(seth.AddrSlice)
			if dirty {
				*a = make(seth.AddrSlice, g.Intn(12))
				for i := range *a {
					g.Read((*a)[i][:])
				}
			}
			return a
		}, func(v *Value) string {
			out := make([][20]byte, len(v.Array))
			for i := range v.Array {
				copy(out[i][:], v.Array[i][12:])
			}
			return fmt.Sprintf("addresses %x", out)
		}},
		{"DataSlice", []string{"bytes32[]", "bytes4[]"}, func(g *rand.Rand, dirty bool) interface{} {
			a := new(seth.DataSlice)
			if dirty {
				*a = make(seth.DataSlice, g.Intn(12))
				for i := range *a {
					(*a)[i] = vh.Bytes(g, g.Intn(50))
				}
			}
			return a
		}, func(v *Value) string {
			s := "datas"
			for i := range v.Array {
				s += fmt.Sprintf(" %x", v.Array[i][:])
			}
			return s
		}},
		{"bool", []string{"bool"}, func(g *rand.Rand, dirty bool) interface{} { b := dirty; return &b },
			func(v *Value) string { return fmt.Sprint("bool ", !bytes.Equal(v.Word[:], make([]byte, 32))) }},
		num("uint8", []string{"uint8"}, func(g *rand.Rand, x bool) interface{} { b := uint8(d(g, x)); return &b }),
		num("uint16", []string{"uint8", "uint16"}, func(g *rand.Rand, x bool) interface{} { b := uint16(d(g, x)); return &b }),
		num("uint32", []string{"uint24", "uint32"}, func(g *rand.Rand, x bool) interface{} { b := uint32(d(g, x)); return &b }),
		num("uint64", []string{"uint40", "uint64"}, func(g *rand.Rand, x bool) interface{} { b := d(g, x); return &b }),
		num("uint", []string{"uint32"}, func(g *rand.Rand, x bool) interface{} { b := uint(d(g, x)); return &b }),
		num("int8", []string{"int8"}, func(g *rand.Rand, x bool) interface{} { b := int8(d(g, x)); return &b }),
		num("int16", []string{"int8", "int16"}, func(g *rand.Rand, x bool) interface{} { b := int16(d(g, x)); return &b }),
		num("int32", []string{"int24", "int32"}, func(g *rand.Rand, x bool) interface{} { b := int32(d(g, x)); return &b }),
		num("int64", []string{"int48", "int64"}, func(g *rand.Rand, x bool) interface{} { b := int64(d(g, x)); return &b }),
		num("int", []string{"int32"}, func(g *rand.Rand, x bool) interface{} { b := int(d(g, x)); return &b }),
	}
}
