// C14: request construction and reply mapping of the client.
package c14

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philhofer/seth"

	"vharness/ref"
	"vharness/rpcsim"
	"vharness/vh"
)

type oneOf []string

// inst is one generated call
type inst struct {
	name, method string
	params       []interface{} // JSON values; oneOf for alternatives
	run          func(cl *seth.Client) (string, error)
	ok           string // result JSON
	want         string // rendering of the value returned for it
	bad          []string
}

func hx(b []byte) string { return fmt.Sprintf("0x%x", b) }

func quantity(b *big.Int) string { return "0x" + b.Text(16) }

func i63(g *rand.Rand) *big.Int { return vh.Big(g, 63) }

func addr(g *rand.Rand) *seth.Address {
	a := new(seth.Address)
	copy(a[:], vh.Bytes(g, 20))
	for i := 0; i < g.Intn(4); i++ {
		a[i] = 0
	}
	return a
}

func hash(g *rand.Rand) *seth.Hash {
	h := new(seth.Hash)
	copy(h[:], vh.Bytes(g, 32))
	for i := 0; i < g.Intn(4); i++ {
		h[i] = 0
	}
	return h
}

func spec(g *rand.Rand) (int64, interface{}) {
	switch g.Intn(6) {
	case 0:
		return seth.Pending, "pending"
	case 1:
		return seth.Latest, "latest"
	case 2:
		return seth.Earliest, oneOf{"earliest", "0x0"}
	case 3:
		return 1, "0x1"
	}
	n := i63(g)
	if n.Sign() == 0 {
		n.SetInt64(10)
	}
	return n.Int64(), quantity(n)
}

func esc(s string) string { b, _ := json.Marshal(s); return string(b) }

func mixed(g *rand.Rand, s string) string {
	if g.Intn(3) > 0 {
		return s
	}
	b := []byte(s)
	for i := 2; i < len(b); i++ {
		if b[i] >= 'a' && b[i] <= 'f' && g.Intn(2) == 0 {
			b[i] -= 32
		}
	}
	return string(b)
}

// record documents: a list of (key, JSON, rendering)
type doc struct {
	g    *rand.Rand
	keys []string
	vals []string
	want []string
}

func (d *doc) put(k, js, want string) {
	d.keys = append(d.keys, k)
	d.vals = append(d.vals, js)
	d.want = append(d.want, want)
}
func (d *doc) hash(k string)        { h := hash(d.g).String(); d.put(k, esc(mixed(d.g, h)), h) }
func (d *doc) addr(k string)        { h := addr(d.g).String(); d.put(k, esc(mixed(d.g, h)), h) }
func (d *doc) data(k string, n int) { h := hx(vh.Bytes(d.g, n)); d.put(k, esc(mixed(d.g, h)), h) }
func (d *doc) num(k string, bits int) {
	q := quantity(vh.Big(d.g, bits))
	d.put(k, esc(mixed(d.g, q)), q)
}
func (d *doc) opt(k string, f func(string)) {
	if d.g.Intn(3) == 0 {
		d.put(k, "null", "nil")
		return
	}
	f(k)
}
func (d *doc) num64(k string) { d.num(k, 64) }
func (d *doc) json() string {
	p := d.g.Perm(len(d.keys))
	var out []string
	for _, i := range p {
		out = append(out, esc(d.keys[i])+":"+d.vals[i])
	}
	if d.g.Intn(3) == 0 {
		out = append(out, `"unknownField":{"hash":"0x12"}`)
	}
	return "{" + strings.Join(out, ",") + "}"
}
func (d *doc) text() string { return strings.Join(d.want, " ") }

func u(v seth.Uint64) string { return fmt.Sprintf("0x%x", uint64(v)) }
func pu(v *seth.Uint64) string {
	if v == nil {
		return "nil"
	}
	return u(*v)
}
func ph(v *seth.Hash) string {
	if v == nil {
		return "nil"
	}
	return hx(v[:])
}
func pa(v *seth.Address) string {
	if v == nil {
		return "nil"
	}
	return hx(v[:])
}
func in(v *seth.Int) string { return quantity(v.Big()) }

func txDoc(g *rand.Rand) *doc {
	d := &doc{g: g}
	d.hash("hash")
	d.num64("nonce")
	d.hash("blockHash")
	d.num64("blockNumber")
	d.opt("to", d.addr)
	d.opt("transactionIndex", d.num64)
	d.opt("from", d.addr)
	d.num("value", 256)
	d.num("gasPrice", 256)
	d.num64("gas")
	d.data("input", g.Intn(80))
	return d
}

func showTx(t *seth.Transaction) string {
	return strings.Join([]string{hx(t.Hash[:]), u(t.Nonce), hx(t.Block[:]), u(t.BlockNumber), pa(t.To), pu(t.TxIndex), pa(t.From), in(&t.Value), in(&t.GasPrice), u(t.Gas), hx(t.Input)}, " ")
}

func blockDoc(g *rand.Rand, bodies bool) (*doc, []string) {
	d := &doc{g: g}
	d.opt("number", d.num64)
	d.opt("hash", d.hash)
	d.hash("parentHash")
	d.num64("nonce")
	d.hash("sha3Uncles")
	d.data("logsBloom", g.Intn(257))
	d.hash("transactionsRoot")
	d.hash("stateRoot")
	d.hash("receiptsRoot")
	d.addr("miner")
	d.num64("gasLimit")
	d.num64("gasUsed")
	var txs, uncles, raw, uw []string
	for i := 0; i < g.Intn(5); i++ {
		if bodies {
			t := txDoc(g)
			raw = append(raw, t.json())
			txs = append(txs, t.text())
		} else {
			h := hash(g).String()
			raw = append(raw, esc(h))
			txs = append(txs, h)
		}
	}
	for i := 0; i < g.Intn(3); i++ {
		h := hash(g).String()
		uncles = append(uncles, esc(h))
		uw = append(uw, h)
	}
	d.put("transactions", "["+strings.Join(raw, ",")+"]", "["+strings.Join(raw, ",")+"]")
	d.put("uncles", "["+strings.Join(uncles, ",")+"]", "["+strings.Join(uw, ",")+"]")
	d.num("difficulty", 256)
	d.num("totalDifficulty", 256)
	d.num64("timestamp")
	d.data("extraData", g.Intn(40))
	return d, txs
}

func showBlock(b *seth.Block) string {
	var tx, un []string
	for _, r := range b.Transactions {
		tx = append(tx, string(r))
	}
	for i := range b.Uncles {
		un = append(un, hx(b.Uncles[i][:]))
	}
	df := func(i *seth.Int) string {
		if i == nil {
			return "nil"
		}
		return in(i)
	}
	return strings.Join([]string{pu(b.Number), ph(b.Hash), hx(b.Parent[:]), u(b.Nonce), hx(b.UncleHash[:]), hx(b.Bloom), hx(b.TxRoot[:]), hx(b.StateRoot[:]), hx(b.ReceiptsRoot[:]),
		hx(b.Miner[:]), u(b.GasLimit), u(b.GasUsed), "[" + strings.Join(tx, ",") + "]", "[" + strings.Join(un, ",") + "]", df(b.Difficulty), df(b.TotalDifficulty), u(b.Timestamp) + late(b), hx(b.Extra)}, " ")
}

func logDoc(g *rand.Rand) *doc {
	d := &doc{g: g}
	rm := g.Intn(2) == 0
	d.put("removed", fmt.Sprint(rm), fmt.Sprint(rm))
	d.opt("logIndex", d.num64)
	d.opt("transactionIndex", d.num64)
	d.opt("transactionHash", d.hash)
	d.opt("blockHash", d.hash)
	d.opt("blockNumber", d.num64)
	d.addr("address")
	d.data("data", g.Intn(70))
	var raw, w []string
	for i := 0; i < g.Intn(5); i++ {
		h := hash(g).String()
		raw = append(raw, esc(h))
		w = append(w, h)
	}
	d.put("topics", "["+strings.Join(raw, ",")+"]", "["+strings.Join(w, ",")+"]")
	return d
}

func showLog(l *seth.Log) string {
	var w []string
	for _, t := range l.Topics {
		w = append(w, hx(t))
	}
	return strings.Join([]string{fmt.Sprint(l.Removed), pu(l.LogIndex), pu(l.TxIndex), ph(l.TxHash), ph(l.BlockHash), pu(l.BlockNumber), hx(l.Address[:]), hx(l.Data), "[" + strings.Join(w, ",") + "]"}, " ")
}

func receiptDoc(g *rand.Rand) *doc {
	d := &doc{g: g}
	d.hash("transactionHash")
	d.num64("transactionIndex")
	d.hash("blockHash")
	d.num64("blockNumber")
	d.num64("gasUsed")
	d.num64("cumulativeGasUsed")
	d.opt("contractAddress", d.addr)
	d.num("status", 1)
	var raw, w []string
	for i := 0; i < g.Intn(4); i++ {
		l := logDoc(g)
		raw = append(raw, l.json())
		w = append(w, l.text())
	}
	d.put("logs", "["+strings.Join(raw, ",")+"]", "["+strings.Join(w, ",")+"]")
	return d
}

func showReceipt(r *seth.Receipt) string {
	var w []string
	for i := range r.Logs {
		w = append(w, showLog(&r.Logs[i]))
	}
	return strings.Join([]string{hx(r.Hash[:]), u(r.Index), hx(r.BlockHash[:]), u(r.BlockNumber), u(r.GasUsed), u(r.Cumulative), pa(r.Address), u(r.Status), "[" + strings.Join(w, ",") + "]"}, " ")
}

// call options and the object they stand for
func callOpts(g *rand.Rand) (*seth.CallOpts, map[string]interface{}) {
	o := &seth.CallOpts{}
	m := map[string]interface{}{}
	if g.Intn(3) > 0 {
		o.From = addr(g)
		m["from"] = hx(o.From[:])
	}
	if g.Intn(3) > 0 {
		o.To = addr(g)
		m["to"] = hx(o.To[:])
	}
	num := func(k string) *seth.Int {
		if g.Intn(2) == 0 {
			return nil
		}
		b := vh.Big(g, 256)
		m[k] = quantity(b)
		return (*seth.Int)(b)
	}
	o.Gas, o.GasPrice, o.Value = num("gas"), num("gasPrice"), num("value")
	switch g.Intn(3) {
	case 0:
		o.Data = vh.Bytes(g, g.Intn(100))
		m["data"] = hx(o.Data)
	case 1:
		m["data"] = "0x"
	case 2:
		x := vh.Big(g, 256)
		a := addr(g)
		o.EncodeCall("f(uint256,address)", (*seth.Int)(new(big.Int).Set(x)), a)
		sel := ref.Keccak([]byte("f(uint256,address)"), 32)
		m["data"] = fmt.Sprintf("0x%x%064x%064x", sel[:4], x, a[:])
	}
	if g.Intn(2) == 0 {
		n := seth.Uint64(vh.Big(g, 64).Uint64())
		o.Nonce = &n
		m["nonce"] = fmt.Sprintf("0x%x", uint64(n))
	}
	return o, m
}

var ops = []func(g *rand.Rand) *inst{
	func(g *rand.Rand) *inst {
		s := fmt.Sprint(g.Intn(100), `"\x`)
		return &inst{name: "ProtocolVersion", method: "eth_protocolVersion", ok: esc(s), want: s, bad: []string{"{}", "[1]"},
			run: func(cl *seth.Client) (string, error) { return cl.ProtocolVersion() }}
	},
	func(g *rand.Rand) *inst {
		i := &inst{name: "Syncing", method: "eth_syncing", bad: []string{`"x"`, "[1]", `{"startingBlock":"zz"}`}}
		if g.Intn(2) == 0 {
			i.ok, i.want = "false", "nil"
		} else {
			d := &doc{g: g}
			d.num64("startingBlock")
			d.num64("currentBlock")
			d.num64("highestBlock")
			i.ok, i.want = d.json(), d.text()
		}
		i.run = func(cl *seth.Client) (string, error) {
			s, err := cl.Syncing()
			if err != nil {
				return "", err
			}
			if s == nil {
				return "nil", nil
			}
			return u(s.Starting) + " " + u(s.Current) + " " + u(s.Highest), nil
		}
		return i
	},
	func(g *rand.Rand) *inst {
		a := addr(g)
		return &inst{name: "Coinbase", method: "eth_coinbase", ok: esc(mixed(g, a.String())), want: a.String(), bad: []string{"1", `"0x1234"`},
			run: func(cl *seth.Client) (string, error) {
				a, err := cl.Coinbase()
				if err != nil {
					return "", err
				}
				return hx(a[:]), nil
			}}
	},
	func(g *rand.Rand) *inst {
		b := g.Intn(2) == 0
		return &inst{name: "Mining", method: "eth_mining", ok: fmt.Sprint(b), want: fmt.Sprint(b), bad: []string{`"yes"`, "1"},
			run: func(cl *seth.Client) (string, error) { b, err := cl.Mining(); return fmt.Sprint(b), err }}
	},
	number("Hashrate", "eth_hashrate", (*seth.Client).Hashrate),
	number("GasPrice", "eth_gasPrice", (*seth.Client).GasPrice),
	number("BlockNumber", "eth_blockNumber", (*seth.Client).BlockNumber),
	func(g *rand.Rand) *inst {
		var raw, w []string
		for i := 0; i < g.Intn(4); i++ {
			a := addr(g).String()
			raw, w = append(raw, esc(a)), append(w, a)
		}
		return &inst{name: "Accounts", method: "eth_accounts", ok: "[" + strings.Join(raw, ",") + "]", want: strings.Join(w, " "), bad: []string{`"x"`, `["0x12"]`, "{}"},
			run: func(cl *seth.Client) (string, error) {
				as, err := cl.Accounts()
				var w []string
				for i := range as {
					w = append(w, hx(as[i][:]))
				}
				return strings.Join(w, " "), err
			}}
	},
	func(g *rand.Rand) *inst {
		d, txs := blockDoc(g, true)
		return &inst{name: "Pending", method: "eth_getBlockByNumber", params: []interface{}{"pending", true}, ok: d.json(), want: strings.Join(txs, ";"), bad: []string{`"x"`, `{"transactions":[1]}`, `{"transactions":["0x12"]}`},
			run: func(cl *seth.Client) (string, error) {
				ts, err := cl.Pending()
				var w []string
				for i := range ts {
					w = append(w, showTx(&ts[i]))
				}
				return strings.Join(w, ";"), err
			}}
	},
	func(g *rand.Rand) *inst {
		a, n := addr(g), i63(g)
		s, sp := spec(g)
		i := &inst{name: "GetNonceAt", method: "eth_getTransactionCount", params: []interface{}{a.String(), sp}, ok: esc(quantity(n)), want: n.String(), bad: []string{"{}", `"zz"`, "[]", `"0x10000000000000005"`, `"-0x1"`, "18446744073709551616"},
			run: func(cl *seth.Client) (string, error) { n, err := cl.GetNonceAt(a, s); return fmt.Sprint(n), err }}
		if g.Intn(3) == 0 {
			i.name, i.params[1] = "GetNonce", "latest"
			i.run = func(cl *seth.Client) (string, error) { n, err := cl.GetNonce(a); return fmt.Sprint(n), err }
		}
		return i
	},
	func(g *rand.Rand) *inst {
		a, n := addr(g), vh.Big(g, 256)
		s, sp := spec(g)
		i := &inst{name: "GetBalanceAt", method: "eth_getBalance", params: []interface{}{a.String(), sp}, ok: esc(quantity(n)), want: n.String(), bad: []string{"{}", `"zz"`, "[]"},
			run: func(cl *seth.Client) (string, error) {
				n, err := cl.GetBalanceAt(a, s)
				return n.Big().String(), err
			}}
		if g.Intn(3) == 0 {
			i.name, i.params[1] = "GetBalance", "latest"
			i.run = func(cl *seth.Client) (string, error) { n, err := cl.GetBalance(a); return n.Big().String(), err }
		}
		return i
	},
	func(g *rand.Rand) *inst {
		txs := g.Intn(2) == 0
		s, sp := spec(g)
		d, _ := blockDoc(g, txs)
		show := func(b *seth.Block, err error) (string, error) {
			if err != nil {
				return "", err
			}
			return showBlock(b), nil
		}
		i := &inst{name: "GetBlock", method: "eth_getBlockByNumber", params: []interface{}{sp, txs}, ok: d.json(), want: d.text(), bad: []string{`"x"`, "[]", `{"number":"zz"}`, `{"hash":"0x12"}`},
			run: func(cl *seth.Client) (string, error) { return show(cl.GetBlock(s, txs)) }}
		if g.Intn(4) == 0 {
			i.name, i.params[0] = "Latest", "latest"
			i.run = func(cl *seth.Client) (string, error) { return show(cl.Latest(txs)) }
		}
		return i
	},
	func(g *rand.Rand) *inst {
		h, d := hash(g), txDoc(g)
		return &inst{name: "GetTransaction", method: "eth_getTransactionByHash", params: []interface{}{h.String()}, ok: d.json(), want: d.text(), bad: []string{`"x"`, "[]", `{"nonce":"zz"}`},
			run: func(cl *seth.Client) (string, error) {
				t, err := cl.GetTransaction(h)
				if err != nil {
					return "", err
				}
				return showTx(t), nil
			}}
	},
	func(g *rand.Rand) *inst {
		a, code := addr(g), hx(vh.Bytes(g, g.Intn(200)))
		s, sp := spec(g)
		i := &inst{name: "GetCodeAt", method: "eth_getCode", params: []interface{}{a.String(), sp}, ok: esc(mixed(g, code)), want: code, bad: []string{"1", `"zz"`, "{}"},
			run: func(cl *seth.Client) (string, error) { b, err := cl.GetCodeAt(a, s); return hx(b), err }}
		if g.Intn(3) == 0 {
			i.name, i.params[1] = "GetCode", "latest"
			i.run = func(cl *seth.Client) (string, error) { b, err := cl.GetCode(a); return hx(b), err }
		}
		return i
	},
	func(g *rand.Rand) *inst {
		h, d := hash(g), receiptDoc(g)
		return &inst{name: "GetReceipt", method: "eth_getTransactionReceipt", params: []interface{}{h.String()}, ok: d.json(), want: d.text(), bad: []string{`"x"`, "[]", `{"logs":{}}`},
			run: func(cl *seth.Client) (string, error) {
				r, err := cl.GetReceipt(h)
				if err != nil {
					return "", err
				}
				return showReceipt(r), nil
			}}
	},
	func(g *rand.Rand) *inst {
		o, m := callOpts(g)
		h := hash(g).String()
		return &inst{name: "Call", method: "eth_sendTransaction", params: []interface{}{m}, ok: esc(h), want: h, bad: []string{"1", `"0x12"`},
			run: func(cl *seth.Client) (string, error) { h, err := cl.Call(o); return hx(h[:]), err }}
	},
	func(g *rand.Rand) *inst {
		raw := vh.Bytes(g, 1+g.Intn(300))
		h := hash(g).String()
		return &inst{name: "RawCall", method: "eth_sendRawTransaction", params: []interface{}{hx(raw)}, ok: esc(h), want: h, bad: []string{"1", `"0x12"`},
			run: func(cl *seth.Client) (string, error) { h, err := cl.RawCall(raw); return hx(h[:]), err }}
	},
	func(g *rand.Rand) *inst {
		o, m := callOpts(g)
		n := vh.Big(g, 256)
		return &inst{name: "EstimateGas", method: "eth_estimateGas", params: []interface{}{m, "pending"}, ok: esc(quantity(n)), want: n.String(), bad: []string{"{}", `"zz"`},
			run: func(cl *seth.Client) (string, error) { n, err := cl.EstimateGas(o); return n.Big().String(), err }}
	},
	func(g *rand.Rand) *inst {
		o, m := callOpts(g)
		x, y := vh.Big(g, 256), addr(g)
		str := strings.Repeat("s", g.Intn(70))
		res := fmt.Sprintf("0x%064x%064x%064x%064x", x, y[:], 96, len(str)) + fmt.Sprintf("%x", str) + strings.Repeat("00", (32-len(str)%32)%32)
		i := &inst{name: "ConstCall", method: "eth_call", ok: esc(res), want: fmt.Sprint(x, hx(y[:]), str), bad: []string{"1", `"0x12"`, `"0x"`, "{}"}}
		mk := func(call func(cl *seth.Client, out interface{}) error) {
			i.run = func(cl *seth.Client) (string, error) {
				var ox seth.Int
				var oy seth.Address
				var os string
				if err := call(cl, seth.NewABIDecoder(&ox, &oy, &os)); err != nil {
					return "", err
				}
				return fmt.Sprint(ox.Big(), hx(oy[:]), os), nil
			}
		}
		switch g.Intn(3) {
		case 0:
			i.params = []interface{}{m, "pending"}
			mk(func(cl *seth.Client, out interface{}) error { return cl.ConstCall(o, out, true) })
		case 1:
			i.params = []interface{}{m, "latest"}
			mk(func(cl *seth.Client, out interface{}) error { return cl.ConstCall(o, out, false) })
		default:
			s, sp := spec(g)
			i.name, i.params = "ConstCallAt", []interface{}{m, sp}
			mk(func(cl *seth.Client, out interface{}) error { return cl.ConstCallAt(o, out, s) })
		}
		return i
	},
	func(g *rand.Rand) *inst {
		a, off, h := addr(g), hash(g), hash(g).String()
		s, sp := spec(g)
		return &inst{name: "StorageAt", method: "eth_getStorageAt", params: []interface{}{a.String(), off.String(), sp}, ok: esc(h), want: h, bad: []string{"1", `"zz"`},
			run: func(cl *seth.Client) (string, error) { h, err := cl.StorageAt(a, off, s); return hx(h[:]), err }}
	},
	func(g *rand.Rand) *inst {
		a, pw := addr(g), []string{"", "pass", `p"\` + "\n\u2028é", strings.Repeat("k", 300), "<&>"}[g.Intn(5)]
		b := g.Intn(2) == 0
		return &inst{name: "UnlockAccount", method: "personal_unlockAccount", params: []interface{}{a.String(), pw, "0x0"}, ok: fmt.Sprint(b), want: fmt.Sprint(b), bad: []string{`"x"`, "1"},
			run: func(cl *seth.Client) (string, error) {
				err := cl.UnlockAccount(a, pw)
				if err == seth.PasswordDenied {
					return "false", nil
				}
				return "true", err
			}}
	},
}

func number(name, method string, f func(*seth.Client) (int64, error)) func(g *rand.Rand) *inst {
	return func(g *rand.Rand) *inst {
		n := i63(g)
		ok := quantity(n)
		if g.Intn(5) == 0 && n.IsUint64() {
			ok = fmt.Sprintf("0x%0*x", 2+g.Intn(14), n)
		}
		return &inst{name: name, method: method, ok: esc(ok), want: n.String(), bad: []string{"{}", `"zz"`, "[]", `"0x10000000000000000"`},
			run: func(cl *seth.Client) (string, error) { n, err := f(cl); return fmt.Sprint(n), err }}
	}
}

func sameParam(want interface{}, got json.RawMessage) bool {
	if alts, ok := want.(oneOf); ok {
		for _, a := range alts {
			if sameParam(a, got) {
				return true
			}
		}
		return false
	}
	var g interface{}
	if json.Unmarshal(got, &g) != nil {
		return false
	}
	return reflect.DeepEqual(norm(want), norm(g))
}

// hex text is compared without regard to case; so is the data member, which
// may be absent when empty
func norm(v interface{}) interface{} {
	switch v := v.(type) {
	case string:
		if strings.HasPrefix(v, "0x") {
			return strings.ToLower(v)
		}
		return v
	case map[string]interface{}:
		out := map[string]interface{}{}
		for k, x := range v {
			if k == "data" && x == "0x" {
				continue
			}
			out[k] = norm(x)
		}
		return out
	}
	return v
}

// reply scripts what the server does with the next request
type reply struct {
	kind   string // ok null rpcerr both bad none status trunc garbage reset
	body   string // `"result":...`
	status int
	code   int
	msg    string
	data   string
}

type state struct {
	mu   sync.Mutex
	reqs []*rpcsim.Req
	bad  string
	rep  reply
	g    *rand.Rand
}

func (s *state) take(raw []byte) (reply, string, *rand.Rand) {
	s.mu.Lock()
	defer s.mu.Unlock()
	q, err := rpcsim.ParseReq(raw)
	if err != nil {
		if s.bad == "" {
			s.bad = fmt.Sprintf("unusable request %.300q: %v", raw, err)
		}
		return s.rep, "1", s.g
	}
	s.reqs = append(s.reqs, q)
	return s.rep, string(q.ID), s.g
}

func (r *reply) render(g *rand.Rand, id string) []byte { return rpcsim.Response(g, id, r.body) }

// stream server
func stream(s *state, seed int64) *seth.Client {
	return seth.NewClient(func() (io.ReadWriteCloser, error) {
		a, b := rpcsim.Pair(seed, 0, 0)
		a.MaxRead = 64
		go func() {
			dec := json.NewDecoder(b)
			for {
				var raw json.RawMessage
				if dec.Decode(&raw) != nil {
					b.Close()
					return
				}
				rep, id, g := s.take(raw)
				p := rep.render(g, id)
				switch rep.kind {
				case "trunc":
					b.Write(bytes.TrimSpace(p)[:len(p)/2])
					b.Close()
					return
				case "garbage":
					b.Write([]byte("<html>"))
					b.Close()
					return
				case "reset":
					b.Close()
					return
				}
				b.Write(p)
			}
		}()
		return a, nil
	})
}

var current atomic.Value // *sync.Map of host -> *state

type hub struct {
	m    sync.Map // path -> *state
	srv  *httptest.Server
	next int64
}

func (h *hub) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	v, ok := h.m.Load(r.URL.Path)
	if !ok {
		w.WriteHeader(500)
		return
	}
	s := v.(*state)
	raw, _ := io.ReadAll(r.Body)
	if r.Method != "POST" || !strings.HasPrefix(r.Header.Get("Content-Type"), "application/json") {
		s.mu.Lock()
		s.bad = fmt.Sprintf("HTTP request %s with content type %q", r.Method, r.Header.Get("Content-Type"))
		s.mu.Unlock()
	}
	rep, id, g := s.take(raw)
	p := rep.render(g, id)
	respond(w, rep, p)
}

func respond(w http.ResponseWriter, rep reply, p []byte) {
	w.Header().Set("Content-Type", "application/json")
	switch rep.kind {
	case "status":
		w.WriteHeader(rep.status)
		w.Write(p)
	case "trunc":
		w.Write(bytes.TrimSpace(p)[:len(p)/2])
	case "garbage":
		w.Write([]byte("<html>"))
	case "reset":
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			if t, ok := c.(*net.TCPConn); ok {
				t.SetLinger(0)
			}
			c.Close()
		}
	default:
		w.Write(p)
	}
}

// infura requests are answered in process
type rt struct {
	real http.RoundTripper
	mu   sync.Mutex
	s    *state
}

type recorder struct {
	*httptest.ResponseRecorder
}

func (x *rt) RoundTrip(r *http.Request) (*http.Response, error) {
	if r.URL.Host != "api.infura.io" {
		return x.real.RoundTrip(r)
	}
	var raw []byte
	x.mu.Lock()
	s := x.s
	x.mu.Unlock()
	const base = "/v1/jsonrpc/mainnet"
	bad := ""
	if r.URL.Scheme != "https" || !strings.HasPrefix(r.URL.Path, base) {
		bad = "unexpected URL " + r.URL.String()
	}
	method := strings.TrimPrefix(strings.TrimPrefix(r.URL.Path, base), "/")
	post := map[string]bool{"eth_sendRawTransaction": true, "eth_estimateGas": true, "eth_submitWork": true, "eth_submitHashrate": true}
	if r.Method == "POST" {
		raw, _ = io.ReadAll(r.Body)
		var q rpcsim.Req
		json.Unmarshal(raw, &q)
		if method != "" || !post[q.Method] {
			bad = "POST of " + q.Method + " to " + r.URL.String()
		}
	} else if r.Method == "GET" {
		q, err := url.ParseQuery(r.URL.RawQuery)
		if err != nil || post[method] {
			bad = "bad GET " + r.URL.String()
		}
		ps := q.Get("params")
		if ps == "null" || ps == "" {
			ps = "[]"
		}
		raw = []byte(fmt.Sprintf(`{"jsonrpc":"2.0","id":1,"method":%q,"params":%s}`, method, ps))
	} else {
		bad = r.Method
	}
	if bad != "" {
		s.mu.Lock()
		s.bad = bad
		s.mu.Unlock()
	}
	rep, id, g := s.take(raw)
	if rep.kind == "reset" {
		return nil, errors.New("connection reset")
	}
	rec := httptest.NewRecorder()
	respond(rec, rep, rep.render(g, id))
	return rec.Result(), nil
}

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C14", "exploration")
	r.Rule("an evaluation is one client call: its request compared with the documented one and its outcome with the scripted reply; cells are (operation, transport, reply kind, parameters) combinations")
	r.Assume("the integers that the client returns as int64 are below 2^63")
	r.Assume("block 0 may be named 0x0 or earliest")
	real := http.DefaultTransport
	inf := &rt{real: real}
	http.DefaultTransport = inf
	h := &hub{}
	h.srv = httptest.NewServer(h)
	defer h.srv.Close()
	one := func(c *vh.Case, transport string) {
		g := c.Rng
		op := ops[g.Intn(len(ops))](g)
		s := &state{g: rand.New(rand.NewSource(g.Int63()))}
		var cl *seth.Client
		switch transport {
		case "stream":
			cl = stream(s, g.Int63())
		case "http":
			path := fmt.Sprintf("/rpc/%d", atomic.AddInt64(&h.next, 1))
			h.m.Store(path, s)
			defer h.m.Delete(path)
			cl = seth.NewHTTPClient(h.srv.URL + path)
		case "infura":
			inf.mu.Lock()
			inf.s = s
			inf.mu.Unlock()
			cl = seth.NewClientTransport(seth.InfuraTransport{})
		}
		kinds := []string{"ok", "ok", "ok", "null", "rpcerr", "rpcerr", "both", "bad", "none", "trunc", "garbage", "reset"}
		if transport != "stream" {
			kinds = append(kinds, "status", "status")
		}
		rep := reply{kind: kinds[g.Intn(len(kinds))]}
		if transport == "http" && rep.kind == "reset" && g.Intn(4) > 0 {
			rep.kind = "ok"
		}
		rep.body = `"result":` + op.ok
		switch rep.kind {
		case "null":
			rep.body = `"result":null`
		case "rpcerr", "both":
			rep.code = []int{-32700, -32601, -32000, 3, 1, -1, 0}[g.Intn(7)]
			rep.msg = []string{"execution reverted", "", `a "quoted" message`, "insufficient funds for gas * price + value"}[g.Intn(4)]
			if rep.code == 0 && rep.msg == "" {
				rep.msg = "x"
			}
			rep.data = []string{"", `"0x08c379a0"`, `{"a":[1,2]}`, `"text"`}[g.Intn(4)]
			e := fmt.Sprintf(`"error":{"code":%d,"message":%s`, rep.code, esc(rep.msg))
			if rep.data != "" {
				e += `,"data":` + rep.data
			}
			rep.body = e + "}"
			if rep.kind == "both" {
				rep.body += `,"result":` + []string{"null", op.ok}[g.Intn(2)]
			}
		case "bad":
			rep.body = `"result":` + op.bad[g.Intn(len(op.bad))]
		case "none":
			rep.body = `"x":1`
		case "status":
			rep.status = []int{400, 401, 403, 404, 429, 500, 502, 503}[g.Intn(8)]
		}
		s.rep = rep
		var got string
		var err error
		if !vh.WithTimeout(60*time.Second, func() {
			c.Guard("panic", func() { got, err = op.run(cl) })
		}) {
			c.Fail("hang", "%s over %s with reply %s: no return in 60 s", op.name, transport, rep.kind)
			return
		}
		where := fmt.Sprintf("%s over %s, reply %s %.300s", op.name, transport, rep.kind, rep.body)
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.bad != "" {
			c.Fail("request", "%s: %s", where, s.bad)
			return
		}
		n := len(s.reqs)
		if rep.kind == "reset" && n > 1 && transport == "http" {
			n = 1 // net/http may retry on a connection reset
		}
		if n != 1 {
			c.Fail("count", "%s: %d requests were sent", where, n)
			return
		}
		q := s.reqs[0]
		if q.Method != op.method {
			c.Fail("method", "%s: sent method %q, want %q", where, q.Method, op.method)
			return
		}
		if len(q.Params) != len(op.params) {
			c.Fail("params", "%s: sent %d parameters, want %d: %s", where, len(q.Params), len(op.params), q.Raw)
			return
		}
		for i := range op.params {
			if !sameParam(op.params[i], q.Params[i]) {
				c.Fail("params", "%s: parameter %d is %s, want %v", where, i, q.Params[i], op.params[i])
				return
			}
		}
		var re *seth.RPCError
		switch rep.kind {
		case "ok":
			if err != nil {
				c.Fail("result", "%s: returned error %v", where, err)
			} else if got != op.want {
				c.Fail("result", "%s: returned %s, want %s", where, got, op.want)
			}
		case "null":
			if !errors.Is(err, seth.ErrNotFound) {
				c.Fail("null", "%s: returned (%q, %v), want ErrNotFound", where, got, err)
			}
		case "rpcerr", "both":
			if !errors.As(err, &re) {
				c.Fail("rpcerr", "%s: returned (%q, %v), want an *RPCError", where, got, err)
			} else if re.Code != rep.code || re.Message != rep.msg || string(re.Data) != rep.data {
				c.Fail("rpcerr", "%s: returned error %d %q %s", where, re.Code, re.Message, re.Data)
			} else if m := err.Error(); !strings.Contains(m, rep.msg) || !strings.Contains(m, fmt.Sprint(rep.code)) {
				c.Fail("rpcerr", "%s: error text %q", where, m)
			}
		case "status":
			if err == nil || errors.Is(err, seth.ErrNotFound) || !strings.Contains(err.Error(), fmt.Sprint(rep.status)) {
				c.Fail("status", "%s: HTTP status %d returned (%q, %v)", where, rep.status, got, err)
			}
		default:
			if err == nil || errors.Is(err, seth.ErrNotFound) || errors.As(err, &re) {
				c.Fail("badreply", "%s: returned (%q, %v), want a decoding or transport error", where, got, err)
			}
		}
		c.Eval(1)
		c.Seen("operation_transport_reply", op.name+"/"+transport+"/"+rep.kind)
		c.Cell(op.name, transport, rep.kind, fmt.Sprint(op.params...))
		c.Count("kind_"+rep.kind, 1)
		if c.Index < 4 {
			c.Sample("%s: sent %s", where, q.Raw)
		}
	}
	r.Cases("stream", r.Scale(40000, 600000), 0, func(c *vh.Case) { one(c, "stream") })
	r.Cases("http", r.Scale(15000, 200000), 0, func(c *vh.Case) { one(c, "http") })
	r.Cases("infura", r.Scale(15000, 200000), 1, func(c *vh.Case) { one(c, "infura") })
	r.Finish()
}

// late says so when the time of a block is not its timestamp.
func late(b *seth.Block) string {
	if t := b.Time().Unix(); t != int64(b.Timestamp) {
		return fmt.Sprintf(" (but time %d)", t)
	}
	return ""
}
