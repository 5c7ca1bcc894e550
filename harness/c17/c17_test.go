// C17: what a Sender submits.
package c17

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/rlp"
	"github.com/philhofer/seth"

	"vharness/abigen"
	"vharness/ref"
	"vharness/rpcsim"
	"vharness/vh"
)

type sub struct {
	raw   bool
	param string
}

type server struct {
	mu       sync.Mutex
	g        *rand.Rand
	nonce    uint64
	estimate *big.Int
	target   string // the transaction to cancel, JSON
	targetH  string
	hash     string
	contract string // "" for none
	threw    bool   // the creation failed
	minedIn  int    // polls until the created contract's transaction is mined
	failOn   string // method that fails
	failHow  int
	subs     []sub
	log      []string
	estReq   []json.RawMessage
	nonceReq []string
	bad      string
}

func (s *server) fault() (string, error) {
	switch s.failHow {
	case 0:
		return "", errors.New("connection refused")
	case 1:
		return "", &seth.RPCError{Code: -32000, Message: "scripted failure"}
	case 2:
		return "null", nil
	}
	return `"zz"`, nil
}

func (s *server) handle(q *rpcsim.Req) (string, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.log = append(s.log, q.Method)
	if q.Method == "eth_sendTransaction" || q.Method == "eth_sendRawTransaction" {
		x := sub{raw: q.Method == "eth_sendRawTransaction"}
		if len(q.Params) == 1 {
			x.param = string(q.Params[0])
		}
		s.subs = append(s.subs, x)
	}
	if q.Method == s.failOn {
		return s.fault()
	}
	switch q.Method {
	case "eth_estimateGas":
		s.estReq = append(s.estReq, q.Params[0])
		return fmt.Sprintf(`"0x%x"`, s.estimate), nil
	case "eth_getTransactionCount":
		s.nonceReq = append(s.nonceReq, q.Str(0)+"@"+q.Str(1))
		if q.Str(1) != "pending" {
			return fmt.Sprintf(`"0x%x"`, s.nonce/2+1000), nil
		}
		return fmt.Sprintf(`"0x%x"`, s.nonce), nil
	case "eth_sendTransaction", "eth_sendRawTransaction":
		return `"` + s.hash + `"`, nil
	case "eth_getTransactionByHash":
		if q.Str(0) == s.targetH {
			return s.target, nil
		}
		if q.Str(0) != s.hash {
			s.bad = "asked for transaction " + q.Str(0)
		}
		s.minedIn--
		idx := "null"
		if s.minedIn < 0 {
			idx = `"0x0"`
		}
		return fmt.Sprintf(`{"hash":%q,"nonce":"0x1","transactionIndex":%s,"gas":"0x1","gasPrice":"0x1","value":"0x0","input":"0x"}`, s.hash, idx), nil
	case "eth_getTransactionReceipt":
		if s.minedIn >= 0 {
			return "null", nil
		}
		a := "null"
		if s.contract != "" {
			a = `"` + s.contract + `"`
		}
		st := "0x1"
		if s.threw {
			st = "0x0" // and yet the address, as nodes do
		}
		return fmt.Sprintf(`{"transactionHash":%q,"contractAddress":%s,"status":%q,"logs":[]}`, q.Str(0), a, st), nil
	case "eth_gasPrice":
		return `"0x1"`, nil
	}
	s.bad = "unexpected request " + string(q.Raw)
	return "null", nil
}

// want is the transaction asked for
type want struct {
	from, to, data string
	value          *big.Int
	nonce          *big.Int // nil: the server's pending nonce, or none when unsigned
	gas            *big.Int // nil: from the estimate
	price          *big.Int
	priceMin       *big.Int
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func newKey(g *rand.Rand) *seth.PrivateKey {
	d := vh.Big(g, 256)
	d.Mod(d, ref.N)
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	var k seth.PrivateKey
	b := d.Bytes()
	copy(k[32-len(b):], b)
	return &k
}

func addr(g *rand.Rand) *seth.Address {
	a := new(seth.Address)
	copy(a[:], vh.Bytes(g, 20))
	for i := 0; i < g.Intn(3); i++ {
		a[i] = 0
	}
	return a
}

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C17", "exploration")
	r.Rule("an evaluation is one sender operation: what the server received judged against what was asked for; cells are distinct (operation, signer, fault, fields) combinations")
	r.Assume("go-ethereum's RLP decoder and EIP-155 signer are right")
	r.Assume("the gas ratio is at least 1, and nonces are below 2^63")
	r.CasesLimit("ops", r.Scale(16000, 200000), 1, 90*1e9, func(c *vh.Case) {
		synctest.Test(t, func(*testing.T) { one(c) })
	})
	r.Finish()
}

var signer = types.NewEIP155Signer(big.NewInt(1))

func one(c *vh.Case) {
	g := c.Rng
	key := newKey(g)
	own := key.Address()
	s := &server{g: g, nonce: vh.Big(g, 63).Uint64(), estimate: big.NewInt(21000 + g.Int63n(8000000)), minedIn: g.Intn(4)}
	if g.Intn(4) == 0 {
		s.estimate = vh.Big(g, 64)
		if g.Intn(3) == 0 {
			s.estimate = vh.Big(g, 80)
		}
	}
	if g.Intn(3) == 0 {
		s.nonce = uint64(g.Intn(300))
	}
	s.hash = hx(vh.Bytes(g, 32))
	cl := seth.NewClientTransport(&rpcsim.Direct{Handle: s.handle, Bad: func(m string) { s.bad = m }})
	sn := seth.NewSender(cl, own)
	if sn.GasRatio.Denom <= 0 || sn.GasRatio.Num < sn.GasRatio.Denom || sn.GasPrice.Big().Sign() <= 0 {
		c.Fail("defaults", "a new sender asks for %d/%d of the estimated gas at a price of %s", sn.GasRatio.Num, sn.GasRatio.Denom, sn.GasPrice.Big())
		return
	}
	if g.Intn(2) == 0 {
		sn.GasRatio.Denom = 1 + g.Intn(10)
		sn.GasRatio.Num = sn.GasRatio.Denom + g.Intn(12)
	}
	if g.Intn(2) == 0 {
		sn.GasPrice = seth.Int(*vh.Big(g, []int{40, 64, 65, 128}[g.Intn(4)]))
	}
	senderPrice := new(big.Int).Set(sn.GasPrice.Big())
	signMode := []string{"none", "right", "right", "right", "wrong", "error", "garbage", "infinity"}[g.Intn(8)]
	signed := 0
	var asked seth.Hash
	switch signMode {
	case "right":
		sn.Signer = func(h *seth.Hash) (*seth.Signature, error) { signed++; asked = *h; return key.Sign(h), nil }
	case "wrong":
		k2 := newKey(g)
		for *k2 == *key {
			k2 = newKey(g)
		}
		sn.Signer = func(h *seth.Hash) (*seth.Signature, error) { signed++; return k2.Sign(h), nil }
	case "error":
		sn.Signer = func(h *seth.Hash) (*seth.Signature, error) { signed++; return nil, errors.New("locked") }
	case "garbage":
		sn.Signer = func(h *seth.Hash) (*seth.Signature, error) {
			signed++
			sig := *key.Sign(h)
			switch g.Intn(4) {
			case 0:
				sig[g.Intn(64)] ^= byte(1 + g.Intn(255))
			case 1:
				sig[64] ^= 1
			case 2:
				sig = seth.Signature{}
			case 3:
				other := seth.HashBytes(h[:])
				sig = *key.Sign(&other)
			}
			return &sig, nil
		}
	case "infinity":
		sn.Signer = func(h *seth.Hash) (*seth.Signature, error) {
			signed++
			var sig seth.Signature
			copy(sig[:32], ref.Gx.Bytes())
			z := new(big.Int).SetBytes(h[:])
			z.Mod(z, ref.N)
			b := z.Bytes()
			copy(sig[64-len(b):64], b)
			return &sig, nil
		}
	}
	if g.Intn(4) == 0 {
		all := []string{"eth_estimateGas", "eth_getTransactionCount", "eth_sendTransaction", "eth_sendRawTransaction", "eth_getTransactionByHash", "eth_getTransactionReceipt"}
		s.failOn, s.failHow = all[g.Intn(len(all))], g.Intn(4)
	}
	w := &want{from: own.String(), value: new(big.Int), price: senderPrice}
	var op string
	var got string
	var err error
	var run func()
	expectErr := "" // the operation has to fail before anything is submitted
	switch g.Intn(5) {
	case 0, 1: // Call
		op = "Call"
		o := &seth.CallOpts{}
		if g.Intn(2) == 0 {
			a := *own
			o.From = &a
			if g.Intn(5) == 0 {
				o.From = addr(g)
				w.from = o.From.String()
				if signMode != "none" {
					expectErr = "the signature is not the sender's"
				}
			}
		}
		if g.Intn(5) != 0 {
			o.To = addr(g)
			w.to = o.To.String()
		}
		o.Data = vh.Bytes(g, []int{0, 1, 4, 36, 55, 56, 300}[g.Intn(7)])
		w.data = hx(o.Data)
		if g.Intn(2) == 0 {
			w.value = vh.Big(g, 256)
			o.Value = (*seth.Int)(new(big.Int).Set(w.value))
		}
		if g.Intn(2) == 0 {
			w.price = vh.Big(g, 100)
			o.GasPrice = (*seth.Int)(new(big.Int).Set(w.price))
		}
		if g.Intn(2) == 0 {
			w.gas = vh.Big(g, 64)
			o.Gas = (*seth.Int)(new(big.Int).Set(w.gas))
		}
		if g.Intn(2) == 0 {
			n := vh.Big(g, 64)
			w.nonce = n
			x := seth.Uint64(n.Uint64())
			o.Nonce = &x
		}
		run = func() { var h seth.Hash; h, err = sn.Call(o); got = h.String() }
	case 2:
		op = "Send"
		to := addr(g)
		w.to = to.String()
		var types []string
		var vals []*abigen.Value
		var args []seth.EtherType
		for i := 0; i < g.Intn(4); i++ {
			ty := abigen.Type(g)
			v := abigen.Gen(g, ty)
			a := abigen.Arg(v)
			if a == nil {
				continue
			}
			types, vals, args = append(types, ty), append(vals, v), append(args, a)
		}
		sig := "method(" + strings.Join(types, ",") + ")"
		w.data = hx(append(ref.Keccak([]byte(sig), 32)[:4:4], abigen.Encode(vals)...))
		run = func() { var h seth.Hash; h, err = sn.Send(to, sig, args...); got = h.String() }
	case 3:
		op = "Create"
		code := vh.Bytes(g, 1+g.Intn(300))
		w.data = hx(code)
		var v *seth.Int
		if g.Intn(2) == 0 {
			w.value = vh.Big(g, 200)
			v = (*seth.Int)(new(big.Int).Set(w.value))
		}
		if g.Intn(4) != 0 {
			s.contract = addr(g).String()
			s.threw = g.Intn(4) == 0
		}
		run = func() { var a seth.Address; a, err = sn.Create(code, v); got = a.String() }
	case 4:
		op = "Cancel"
		var h seth.Hash
		copy(h[:], vh.Bytes(g, 32))
		s.targetH = h.String()
		n, p := vh.Big(g, 63), vh.Big(g, []int{30, 36, 63, 64, 65, 100}[g.Intn(6)])
		if g.Intn(4) == 0 {
			p = new(big.Int).Add(senderPrice, big.NewInt(int64(g.Intn(3))-1))
			if p.Sign() < 0 {
				p.SetInt64(0)
			}
		}
		idx := "null"
		switch g.Intn(5) {
		case 0:
			idx = fmt.Sprintf(`"0x%x"`, g.Intn(3))
			expectErr = "mined"
		}
		s.target = fmt.Sprintf(`{"hash":%q,"from":%q,"to":%q,"nonce":"0x%x","gasPrice":"0x%x","gas":"0x5208","value":"0x%x","input":"0x1234","transactionIndex":%s,"blockHash":null,"blockNumber":null}`,
			s.targetH, own, addr(g), n, p, vh.Big(g, 90), idx)
		if g.Intn(8) == 0 {
			s.target, expectErr = "null", "not found"
		}
		w.to, w.nonce, w.data = own.String(), n, "0x"
		w.price, w.priceMin = nil, new(big.Int).Add(p, big.NewInt(1))
		run = func() { var x seth.Hash; x, err = sn.Cancel(&h); got = x.String() }
	}
	c.Guard("panic", run)
	if c.Failed() {
		return
	}
	where := fmt.Sprintf("%s, signer %s, fault %s/%d, requests %v", op, signMode, s.failOn, s.failHow, s.log)
	if s.bad != "" {
		c.Fail("request", "%s: %s", where, s.bad)
		return
	}
	gasKnown := w.gas != nil
	// expected gas
	padded := new(big.Int).Mul(s.estimate, big.NewInt(int64(sn.GasRatio.Num)))
	padded.Div(padded, big.NewInt(int64(sn.GasRatio.Denom)))
	if expectErr == "" {
		switch signMode {
		case "wrong", "error", "garbage", "infinity":
			expectErr = "the signer does not sign for the sender"
		case "right":
			if !gasKnown && !padded.IsUint64() {
				expectErr = "no transaction can carry the gas"
			}
		}
	}
	prep := map[string]bool{"eth_estimateGas": !gasKnown, "eth_getTransactionCount": signMode != "none" && w.nonce == nil, "eth_getTransactionByHash": op == "Cancel"}
	if expectErr == "" && prep[s.failOn] {
		expectErr = s.failOn + " fails"
	}
	c.Eval(1)
	c.Count("op_"+op, 1)
	c.Cell(op, signMode, s.failOn, s.failHow, w.to == "", gasKnown, w.nonce == nil, w.value.BitLen(), s.estimate.BitLen(), sn.GasRatio.Num, sn.GasRatio.Denom, len(w.data))
	c.Seen("op_signer_fault", op+"/"+signMode+"/"+s.failOn+fmt.Sprint(s.failHow))
	if expectErr != "" {
		c.Count("refusals_expected", 1)
		if len(s.subs) != 0 {
			c.Fail("submitted", "%s: submitted %v although %s", where, s.subs, expectErr)
		} else if err == nil {
			c.Fail("noerror", "%s: no error although %s", where, expectErr)
		}
		if op == "Cancel" && expectErr == "mined" && s.failOn != "eth_getTransactionByHash" && err != seth.ErrCannotCancel {
			c.Fail("cancel", "%s: cancelling a mined transaction returns %v", where, err)
		}
		return
	}
	if len(s.subs) != 1 {
		c.Fail("count", "%s: %d submissions (error %v)", where, len(s.subs), err)
		return
	}
	x := s.subs[0]
	if x.raw != (signMode != "none") {
		c.Fail("kind", "%s: submitted raw=%v", where, x.raw)
		return
	}
	var gas, price, nonce, value *big.Int
	var from, to, data string
	if x.raw {
		var rawHex string
		json.Unmarshal([]byte(x.param), &rawHex)
		raw, e := hex.DecodeString(strings.TrimPrefix(rawHex, "0x"))
		var dec types.Transaction
		if e == nil {
			e = rlp.DecodeBytes(raw, &dec)
		}
		if e != nil {
			c.Fail("raw", "%s: raw transaction does not decode: %v", where, e)
			return
		}
		a, e := types.Sender(signer, &dec)
		if e != nil {
			c.Fail("raw", "%s: no sender: %v", where, e)
			return
		}
		if h := signer.Hash(&dec); hx(h[:]) != asked.String() || signed != 1 {
			c.Fail("asked", "%s: signer was asked %d times, last for %v; the transaction's hash is %x", where, signed, &asked, h)
		}
		from, data = hx(a[:]), hx(dec.Data())
		if dec.To() != nil {
			to = hx(dec.To()[:])
		}
		gas, price, nonce, value = new(big.Int).SetUint64(dec.Gas()), dec.GasPrice(), new(big.Int).SetUint64(dec.Nonce()), dec.Value()
		if w.nonce == nil {
			w.nonce = new(big.Int).SetUint64(s.nonce)
			if len(s.nonceReq) == 0 || s.nonceReq[len(s.nonceReq)-1] != w.from+"@pending" {
				c.Fail("nonce", "%s: the nonce was asked for as %v", where, s.nonceReq)
			}
		}
	} else {
		var m map[string]string
		if e := json.Unmarshal([]byte(x.param), &m); e != nil {
			c.Fail("param", "%s: %v in %s", where, e, x.param)
			return
		}
		num := func(k string) *big.Int {
			v, ok := m[k]
			if !ok {
				return nil
			}
			n, ok := new(big.Int).SetString(strings.TrimPrefix(v, "0x"), 16)
			if !ok {
				c.Fail("param", "%s: %s is %q", where, k, v)
				return nil
			}
			return n
		}
		from, to, data = m["from"], m["to"], m["data"]
		gas, price, nonce, value = num("gas"), num("gasPrice"), num("nonce"), num("value")
		if value == nil {
			value = new(big.Int)
		}
		for k := range m {
			if !strings.Contains(" from to data gas gasPrice nonce value ", " "+k+" ") {
				c.Fail("param", "%s: member %q in %s", where, k, x.param)
			}
		}
	}
	text := fmt.Sprintf("from %s to %q data %.80s value %v nonce %v gas %v price %v", from, to, data, value, nonce, gas, price)
	if strings.ToLower(from) != w.from || strings.ToLower(to) != w.to || strings.ToLower(data) != w.data || value.Cmp(w.value) != 0 {
		c.Fail("fields", "%s: submitted %s; wanted from %s to %q data %.80s value %v", where, text, w.from, w.to, w.data, w.value)
	}
	if (nonce == nil) != (w.nonce == nil) || nonce != nil && nonce.Cmp(w.nonce) != 0 {
		c.Fail("nonce", "%s: submitted %s; wanted nonce %v", where, text, w.nonce)
	}
	switch {
	case gas == nil:
		c.Fail("gas", "%s: no gas", where)
	case gasKnown:
		if gas.Cmp(w.gas) != 0 {
			c.Fail("gas", "%s: submitted %s; wanted gas %v", where, text, w.gas)
		}
	default:
		d := new(big.Int).Sub(gas, padded)
		if gas.Cmp(s.estimate) < 0 || d.Sign() < 0 || d.Cmp(big.NewInt(1)) > 0 {
			c.Fail("gas", "%s: submitted %s; the estimate is %v and the ratio %d/%d", where, text, s.estimate, sn.GasRatio.Num, sn.GasRatio.Denom)
		}
		if len(s.estReq) != 1 {
			c.Fail("estimate", "%s: %d estimates", where, len(s.estReq))
			break
		}
		var m map[string]string
		json.Unmarshal(s.estReq[0], &m)
		ev, _ := new(big.Int).SetString(strings.TrimPrefix(m["value"], "0x"), 16)
		if ev == nil {
			ev = new(big.Int)
		}
		if m["from"] != w.from || m["to"] != w.to || m["data"] != w.data || ev.Cmp(w.value) != 0 {
			c.Fail("estimate", "%s: the estimate was made for %s, the submission is %s", where, s.estReq[0], text)
		}
	}
	switch {
	case price == nil:
		c.Fail("price", "%s: no gas price", where)
	case w.price != nil:
		if price.Cmp(w.price) != 0 {
			c.Fail("price", "%s: submitted %s; wanted gas price %v", where, text, w.price)
		}
	case price.Cmp(w.priceMin) < 0 || price.Cmp(senderPrice) < 0:
		c.Fail("price", "%s: submitted %s; the cancelled transaction's price is %v less 1, the sender's %v", where, text, w.priceMin, senderPrice)
	}
	if sn.GasPrice.Big().Cmp(senderPrice) != 0 || *sn.Addr != *own {
		c.Fail("mutated", "%s: the sender was changed", where)
	}
	// result
	late := s.failOn == "eth_sendTransaction" && !x.raw || s.failOn == "eth_sendRawTransaction" && x.raw ||
		op == "Create" && (s.failOn == "eth_getTransactionByHash" || s.failOn == "eth_getTransactionReceipt")
	switch {
	case late:
		if err == nil {
			c.Fail("noerror", "%s: no error", where)
		}
	case op == "Create" && (s.contract == "" || s.threw):
		if err == nil {
			c.Fail("create", "%s: no contract was created and no error is returned", where)
		}
	case err != nil:
		c.Fail("error", "%s: %v", where, err)
	case op == "Create" && got != s.contract:
		c.Fail("create", "%s: returned contract %s, the receipt says %s", where, got, s.contract)
	case op != "Create" && got != s.hash:
		c.Fail("hash", "%s: returned hash %s, the server said %s", where, got, s.hash)
	}
	c.Count("submissions_checked", 1)
	if c.Index < 6 {
		c.Sample("%s: %s", where, text)
	}
}
