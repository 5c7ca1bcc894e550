// Package bindrun calls the methods of generated bindings by reflection,
// against a server that records what arrives, and compares with the ABI.
package bindrun

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"math/rand"
	"os"
	"reflect"
	"strings"

	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"

	"vharness/abigen"
	"vharness/rpcsim"
	"vharness/vh"
)

// Func is an ABI function.
type Func struct {
	Name     string
	Ins      []string
	Outs     []string
	Constant bool
	// Shared says that other functions lead to the same Go method name.
	Shared bool
	Sigs   []string // all the signatures with this method name
	Method string
}

// Sig is the signature the selector is made from.
func (f *Func) Sig() string { return f.Name + "(" + strings.Join(f.Ins, ",") + ")" }

// Contract of a generated package.
type Contract struct {
	Pkg, Name string
	Funcs     []Func
	Code      []byte
	Bin       bool
}

// Entry makes a binding, and returns the code variable.
type Entry struct {
	New  func(*seth.Address, *seth.Sender) interface{}
	Code []byte
}

// Report is what the driver prints.
type Report struct {
	Key, Msg string
	Contract string
	Calls    int
	Cells    []string
}

// Main runs the calls for the contracts in spec.json.
func Main(reg map[string]Entry) {
	var spec struct {
		Seed      int64
		Rounds    int
		Contracts []Contract
	}
	b, err := ioutil.ReadFile(os.Args[1])
	if err == nil {
		err = json.Unmarshal(b, &spec)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := json.NewEncoder(os.Stdout)
	for i := range spec.Contracts {
		c := &spec.Contracts[i]
		e, ok := reg[c.Pkg+"."+c.Name]
		if !ok {
			continue
		}
		r := &runner{c: c, g: rand.New(rand.NewSource(spec.Seed + int64(i))), cells: map[string]bool{}}
		if c.Bin && !bytes.Equal(e.Code, c.Code) {
			r.fail("code", "the code variable is %x, the contract's code %x", e.Code, c.Code)
		}
		for j := 0; j < spec.Rounds && r.key == ""; j++ {
			for k := range c.Funcs {
				f := &c.Funcs[k]
				if f.Constant && len(f.Outs) == 0 {
					continue // documented: not generated
				}
				_, stack := vh.Panics(func() { r.one(e, f) })
				if stack != "" {
					r.fail("panic", "%s: %s", f.Sig(), stack)
				}
			}
		}
		rep := Report{Key: r.key, Msg: r.msg, Contract: c.Pkg + "." + c.Name, Calls: r.calls}
		for x := range r.cells {
			rep.Cells = append(rep.Cells, x)
		}
		out.Encode(&rep)
	}
}

type runner struct {
	c        *Contract
	g        *rand.Rand
	key, msg string
	calls    int
	cells    map[string]bool
}

func (r *runner) fail(key, f string, args ...interface{}) {
	if r.key == "" {
		r.key, r.msg = key, fmt.Sprintf(f, args...)
	}
}

type server struct {
	result string
	hash   seth.Hash
	fail   string
	method string
	to     string
	from   string
	data   string
	value  string
	n      int
}

func (s *server) handle(q *rpcsim.Req) (string, error) {
	switch q.Method {
	case "eth_gasPrice":
		return `"0x1"`, nil
	case "eth_estimateGas":
		return `"0x5208"`, nil
	case "eth_getTransactionCount":
		return `"0x0"`, nil
	}
	s.n++
	s.method = q.Method
	var o struct{ To, From, Data, Value string }
	if len(q.Params) > 0 {
		json.Unmarshal(q.Params[0], &o)
	}
	s.to, s.from, s.data, s.value = o.To, o.From, o.Data, o.Value
	if s.fail != "" {
		return "", &seth.RPCError{Code: -32000, Message: s.fail}
	}
	if q.Method == "eth_call" {
		return `"` + s.result + `"`, nil
	}
	return `"` + s.hash.String() + `"`, nil
}

var errType = reflect.TypeOf((*error)(nil)).Elem()

func (r *runner) one(e Entry, f *Func) {
	g := r.g
	var addr, from seth.Address
	g.Read(addr[:])
	g.Read(from[:])
	srv := &server{}
	g.Read(srv.hash[:])
	cl := seth.NewClientTransport(&rpcsim.Direct{Handle: srv.handle})
	v := reflect.ValueOf(e.New(&addr, seth.NewSender(cl, &from)))
	m := v.MethodByName(f.Method)
	if !m.IsValid() {
		if strings.HasPrefix(f.Method, "_") {
			return // not exported
		}
		r.fail("missing", "no method %s for %s", f.Method, f.Sig())
		return
	}
	if f.Shared && m.Type().NumIn() != len(f.Ins) {
		return // another one of the functions
	}
	if m.Type().NumIn() != len(f.Ins) {
		r.fail("arguments", "%s takes %d arguments", f.Sig(), m.Type().NumIn())
		return
	}
	var ins []*abigen.Value
	var args []reflect.Value
	for i, typ := range f.Ins {
		x := abigen.Gen(g, typ)
		ins = append(ins, x)
		a := reflect.ValueOf(abigen.Arg(x))
		if a.Type() != m.Type().In(i) {
			if f.Shared {
				return
			}
			if n, ok := abigen.IsFixed(typ); ok && m.Type().In(i) == reflect.TypeOf(new(seth.Int)) {
				_ = n
				in := new(seth.Int)
				in.Big().SetBytes(x.Word[:])
				a = reflect.ValueOf(in)
			} else {
				r.fail("argtype", "%s: argument %d has Go type %s", f.Sig(), i, m.Type().In(i))
				return
			}
		}
		args = append(args, a)
	}
	var outs []*abigen.Value
	for _, typ := range f.Outs {
		if !f.Constant {
			break // not decoded
		}
		outs = append(outs, abigen.Gen(g, typ))
	}
	enc := abigen.Encode(outs)
	srv.result = "0x" + hex.EncodeToString(enc)
	bad := false
	switch g.Intn(8) {
	case 0:
		srv.fail = "execution reverted"
	case 1:
		if f.Constant && len(enc) > 0 {
			srv.result = "0x" + hex.EncodeToString(enc[:g.Intn(len(enc)/32)*32])
			bad = len(srv.result)-2 < 64*len(outs)
			if !bad {
				srv.result = "0x"
				bad = true
			}
		}
	}
	res := m.Call(args)
	r.calls++
	// what was sent
	sigs := []string{f.Sig()}
	if f.Shared {
		sigs = f.Sigs
	}
	match := false
	for _, s := range sigs {
		want := append(crypto.Keccak256([]byte(s))[:4], abigen.Encode(ins)...)
		match = match || srv.data == "0x"+hex.EncodeToString(want)
	}
	wantMethod := "eth_sendTransaction"
	if f.Constant {
		wantMethod = "eth_call"
	}
	switch {
	case srv.n != 1:
		r.fail("requests", "%s sent %d requests", f.Sig(), srv.n)
	case !f.Shared && srv.method != wantMethod:
		r.fail("method", "%s sent %s", f.Sig(), srv.method)
	case !strings.EqualFold(srv.to, fmt.Sprintf("0x%x", addr[:])):
		r.fail("to", "%s was sent to %s, not the bound address %x", f.Sig(), srv.to, addr[:])
	case !strings.EqualFold(srv.from, fmt.Sprintf("0x%x", from[:])):
		r.fail("from", "%s was sent from %s, not %x", f.Sig(), srv.from, from[:])
	case srv.value != "" && srv.value != "0x0":
		r.fail("value", "%s sent the value %s", f.Sig(), srv.value)
	case !match:
		r.fail("data", "%s with %s sent %s", f.Sig(), show(ins), srv.data)
	}
	if r.key != "" || f.Shared {
		return
	}
	// what came back
	nres := len(res)
	if nres == 0 || !res[nres-1].Type().Implements(errType) && res[nres-1].Type() != errType {
		r.fail("results", "%s returns no error", f.Sig())
		return
	}
	failed := !res[nres-1].IsNil()
	if failed != (srv.fail != "" || bad) {
		r.fail("error", "%s: error %v when the server answered %s%s", f.Sig(), res[nres-1].Interface(), srv.result, srv.fail)
		return
	}
	r.cells[fmt.Sprint(strings.Join(f.Ins, ","), "|", strings.Join(f.Outs, ","), "|", f.Constant, failed)] = true
	if failed {
		return
	}
	if !f.Constant {
		h, ok := res[0].Interface().(seth.Hash)
		if !ok || h != srv.hash || nres != 2 {
			r.fail("hash", "%s returned %v, not the transaction's hash", f.Sig(), res[0].Interface())
		}
		return
	}
	if nres-1 != len(outs) {
		r.fail("results", "%s returns %d values", f.Sig(), nres-1)
		return
	}
	for i, o := range outs {
		if !equal(res[i].Interface(), o) {
			r.fail("result", "%s: result %d is %v (%s), but the contract returned %s", f.Sig(), i, res[i].Interface(), res[i].Type(), show(outs[i:i+1]))
			return
		}
	}
}

func show(vs []*abigen.Value) string {
	var s []string
	for _, v := range vs {
		switch v.Kind {
		case abigen.ByteString:
			s = append(s, fmt.Sprintf("%s %x", v.Type, v.Bytes))
		case abigen.ArrayOf:
			s = append(s, fmt.Sprintf("%s %x", v.Type, v.Array))
		default:
			s = append(s, fmt.Sprintf("%s %x", v.Type, v.Word))
		}
	}
	return strings.Join(s, ", ")
}

func dataEqual(d []byte, w abigen.Word, typ string) bool {
	n, ok := abigen.IsFixed(typ)
	return bytes.Equal(d, w[:]) || ok && bytes.Equal(d, w[:n])
}

// equal compares a returned value, of whatever Go type the generator chose.
func equal(x interface{}, v *abigen.Value) bool {
	elem := strings.TrimSuffix(v.Type, "[]")
	switch y := x.(type) {
	case bool:
		return v.Type == "bool" && y == (v.Num.Sign() != 0)
	case string:
		return v.Kind == abigen.ByteString && y == string(v.Bytes)
	case []byte:
		return v.Kind == abigen.ByteString && bytes.Equal(y, v.Bytes)
	case seth.Bytes:
		return v.Kind == abigen.ByteString && bytes.Equal(y, v.Bytes)
	case seth.Address:
		return v.Type == "address" && bytes.Equal(y[:], v.Word[12:])
	case seth.Int:
		return v.Kind == abigen.Static && v.Num != nil && y.Big().Cmp(v.Num) == 0
	case seth.Data:
		return v.Kind == abigen.Static && v.Type != "address" && dataEqual(y, v.Word, v.Type)
	case seth.IntSlice:
		if v.Kind != abigen.ArrayOf || len(y) != len(v.Nums) {
			return false
		}
		for i := range y {
			if v.Nums[i] == nil || y[i].Big().Cmp(v.Nums[i]) != 0 {
				return false
			}
		}
		return true
	case seth.AddrSlice:
		if elem != "address" || v.Kind != abigen.ArrayOf || len(y) != len(v.Array) {
			return false
		}
		for i := range y {
			if !bytes.Equal(y[i][:], v.Array[i][12:]) {
				return false
			}
		}
		return true
	case seth.DataSlice:
		if elem == "address" || v.Kind != abigen.ArrayOf || len(y) != len(v.Array) {
			return false
		}
		for i := range y {
			if !dataEqual(y[i], v.Array[i], elem) {
				return false
			}
		}
		return true
	}
	if v.Kind != abigen.Static || v.Num == nil {
		return false
	}
	rv := reflect.ValueOf(x)
	switch rv.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return big.NewInt(rv.Int()).Cmp(v.Num) == 0
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return new(big.Int).SetUint64(rv.Uint()).Cmp(v.Num) == 0
	}
	return false
}
