// Package gen fills the library's record types with generated values.
package gen

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"

	"github.com/philhofer/seth"

	"vharness/vh"
)

var (
	intType = reflect.TypeOf(seth.Int{})
	rawType = reflect.TypeOf(json.RawMessage{})
)

func n(g *rand.Rand) int { return []int{0, 0, 1, 1, 2, 3, 5}[g.Intn(7)] }

// Fill sets v, which must be settable, to a generated value.
func Fill(g *rand.Rand, v reflect.Value) { fill(g, v, 0) }

func fill(g *rand.Rand, v reflect.Value, depth int) {
	switch v.Type() {
	case intType:
		b := vh.Big(g, []int{8, 64, 256, 256, 520}[g.Intn(5)])
		v.Set(reflect.ValueOf(seth.Int(*b)))
		return
	case rawType:
		var s string
		switch g.Intn(4) {
		case 0:
			s = fmt.Sprintf(`{"hash":"0x%064x","a":[1,null]}`, vh.Big(g, 256))
		case 1:
			s = "null"
		default:
			s = fmt.Sprintf(`"0x%064x"`, vh.Big(g, 256))
		}
		v.Set(reflect.ValueOf(json.RawMessage(s)))
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if g.Intn(3) == 0 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		p := reflect.New(v.Type().Elem())
		fill(g, p.Elem(), depth+1)
		v.Set(p)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(g, v.Field(i), depth+1)
			}
		}
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if g.Intn(8) == 0 {
				v.Set(reflect.Zero(v.Type()))
				return
			}
			reflect.Copy(v, reflect.ValueOf(vh.Bytes(g, v.Len())))
			for i := 0; i < g.Intn(3); i++ {
				v.Index(i).SetUint(0)
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			fill(g, v.Index(i), depth+1)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			k := []int{0, 1, 2, 20, 31, 32, 33, 100, 255, 256, 300}[g.Intn(11)]
			v.Set(reflect.ValueOf(vh.Bytes(g, k)).Convert(v.Type()))
			return
		}
		k := n(g)
		if depth > 6 {
			k = 0
		}
		if g.Intn(40) == 0 {
			k = 15 + g.Intn(4) // the short array limit
		}
		s := reflect.MakeSlice(v.Type(), k, k)
		for i := 0; i < k; i++ {
			fill(g, s.Index(i), depth+2)
		}
		v.Set(s)
	case reflect.String:
		k := []int{0, 1, 5, 31, 32, 60, 255, 256}[g.Intn(8)]
		b := make([]byte, k)
		for i := range b {
			b[i] = byte(32 + g.Intn(95))
		}
		v.SetString(string(b))
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(vh.Big(g, v.Type().Bits()).Uint64())
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		x := vh.Big(g, v.Type().Bits()-1).Int64()
		if g.Intn(2) == 0 {
			x = -x - 1
		}
		v.SetInt(x)
	case reflect.Map, reflect.Chan, reflect.Func, reflect.Interface:
	default:
		panic("gen: " + v.Type().String())
	}
}

// Show renders a value so that equal values, with nil and empty slices alike,
// are rendered alike.
func Show(v reflect.Value) string {
	switch v.Type() {
	case intType:
		i := v.Interface().(seth.Int)
		return (*big.Int)(&i).String()
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return "nil"
		}
		return "&" + Show(v.Elem())
	case reflect.Struct:
		s := v.Type().Name() + "{"
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" {
				continue
			}
			s += v.Type().Field(i).Name + ":" + Show(v.Field(i)) + " "
		}
		return s + "}"
	case reflect.Array, reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := make([]byte, v.Len())
			reflect.Copy(reflect.ValueOf(b), v)
			return fmt.Sprintf("x%x", b)
		}
		s := "["
		for i := 0; i < v.Len(); i++ {
			s += Show(v.Index(i)) + " "
		}
		return s + "]"
	case reflect.String:
		return fmt.Sprintf("%q", v.String())
	}
	return fmt.Sprint(v.Interface())
}
