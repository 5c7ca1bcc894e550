package c26

import (
	"encoding/json"
	"fmt"
	"math/big"
	"net/http/httptest"
	"sort"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"

	"vharness/evmgen"
	"vharness/vh"
)

// hostile sends requests with malformed parameters: each is answered, with an
// error if the parameters cannot be understood, and has no effect.
func hostile(c *vh.Case) {
	g := c.Rng
	x := newRun(c)
	for i := 0; i < 3; i++ {
		t := x.deploy(emitter(i, evmgen.STOP), 0)
		if !x.submit(t, "rpc") {
			return
		}
		x.emit = append(x.emit, t.addr)
	}
	if g.Intn(2) == 0 {
		t := x.deploy(emitter(3, evmgen.STOP), 0)
		if !x.submit(t, "mine") {
			return
		}
	}
	evmgen.RPC(x.rpc, "eth_newFilter", "{}")
	before := evmgen.Observe(x.ch, x.first)
	good := map[string][]string{
		"eth_call":                  {"tx", "block"},
		"eth_sendTransaction":       {"tx"},
		"eth_getTransactionReceipt": {"hash"},
		"eth_getTransactionByHash":  {"hash"},
		"eth_getBalance":            {"addr", "block"},
		"eth_estimateGas":           {"tx", "block"},
		"eth_getBlockByHash":        {"hash", "bool"},
		"eth_getBlockByNumber":      {"block", "bool"},
		"eth_newFilter":             {"filter"},
		"eth_getFilterChanges":      {"id"},
		"eth_getFilterLogs":         {"id"},
		"eth_uninstallFilter":       {"id"},
		"eth_blockNumber":           {},
		"eth_gasPrice":              {},
		"eth_syncing":               {},
		"eth_protocolVersion":       {},
	}
	addr := strings.ToLower(x.eoas[0].Hex())
	to := strings.ToLower(x.emit[0].Hex())
	value := map[string][]string{
		"tx":     {fmt.Sprintf(`{"from":"%s","to":"%s","value":"0x1"}`, addr, to)},
		"block":  {`"latest"`, `"pending"`, `"0x64"`, "100"},
		"hash":   {quote(x.all[0].hash)},
		"addr":   {quote(addr)},
		"bool":   {"true", "false"},
		"filter": {`{}`},
		"id":     {`"0x1"`},
	}
	// what cannot be understood
	wrong := map[string][]string{
		"tx": {
			`"0x"`, `[]`, `7`, `{"from":"0x12"}`, `{"from":7}`,
			fmt.Sprintf(`{"from":"%s","to":"%s","value":"0xzz"}`, addr, to),
			fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x10000000000000000"}`, addr, to),
			fmt.Sprintf(`{"from":"%s","to":"%s","data":"abcd"}`, addr, to),
			fmt.Sprintf(`{"from":"%s","to":"%s00"}`, addr, to),
		},
		"block": {`"late"`, `"0x"`, `"0xg"`, `"0x64`, `{}`, `"0x8000000000000000"`, `true`, `""`, `"`, `1.5`,
			`-1`, `-2`, `-100`, `"0x-1"`, `"0x-2"`, `"0x+64"`, `"-0x1"`, `"0x 64"`, `"0x6_4"`, `9223372036854775808`},
		"hash":   {`"0x12"`, `7`, `"` + x.all[0].hash + `00"`, `{}`, `""`, `"0x` + strings.Repeat("g", 64) + `"`},
		"addr":   {`"0x"`, `7`, `{}`, quote(addr + "0"), quote(addr[:40]), `""`},
		"bool":   {`"true"`, `1`, `{}`, `""`},
		"filter": {`7`, `"x"`, `[]`, `{"fromBlock":"x"}`, `{"address":"0x1"}`, `{"topics":["0x1"]}`, `{"topics":7}`, `{"toBlock":{}}`},
		"id":     {`"x"`, `{}`, `true`, `[]`, `"0xzz"`},
	}
	var methods []string
	for m := range good {
		methods = append(methods, m)
	}
	sort.Strings(methods)
	for i := 0; i < 40; i++ {
		m := methods[g.Intn(len(methods))]
		kinds := good[m]
		var ps []string
		for _, k := range kinds {
			ps = append(ps, value[k][g.Intn(len(value[k]))])
		}
		kind := ""
		switch k := g.Intn(5); {
		case k == 0:
			kind = "too many"
			ps = append(ps, []string{"7", "null", `"latest"`, "{}"}[g.Intn(4)])
		case k == 1 && len(ps) > 0:
			kind = "too few"
			ps = ps[:g.Intn(len(ps))]
		case k == 2:
			kind = "method"
			m = []string{"eth_" + m, strings.ToUpper(m), "", "eth_sign", m + " "}[g.Intn(5)]
		case len(ps) > 0:
			j := g.Intn(len(ps))
			bad := wrong[kinds[j]]
			ps[j] = bad[g.Intn(len(bad))]
			kind = "malformed " + kinds[j]
		default:
			continue
		}
		raw := make([]json.RawMessage, len(ps))
		valid := true
		for j := range ps {
			raw[j] = json.RawMessage(ps[j])
			valid = valid && json.Valid(raw[j])
		}
		req := &seth.RPCRequest{Version: "2.0", Method: m, ID: 1 + g.Intn(1000), Params: raw}
		var res seth.RPCResponse
		var err error
		val, stack := vh.Panics(func() { err = x.ch.Execute(req, &res) })
		x.note("%s %v: %s %s %v", m, ps, res.Result, res.Error.Message, err)
		c.Eval(1)
		c.Count("hostile_requests", 1)
		c.Cell(m, kind, val != nil, res.Error.Code)
		if val != nil {
			x.fail("panic", "%s %v: panic %v\n%s", m, ps, val, stack)
			return
		}
		if err == nil && res.Error.Code == 0 && res.Error.Message == "" {
			x.fail("accepted", "%s %v (%s) was answered with %s", m, ps, kind, res.Result)
			return
		}
		if err == nil && res.ID != req.ID {
			x.fail("id", "the response to request %d has id %d", req.ID, res.ID)
			return
		}
		if valid {
			// the same through HTTP
			buf, _ := json.Marshal(req)
			w := httptest.NewRecorder()
			val, stack := vh.Panics(func() { x.ch.ServeHTTP(w, httptest.NewRequest("POST", "/", strings.NewReader(string(buf)))) })
			var hres seth.RPCResponse
			uerr := json.Unmarshal(w.Body.Bytes(), &hres)
			if val != nil || uerr != nil || hres.ID != req.ID || hres.Error.Code == 0 && hres.Error.Message == "" {
				x.fail("http", "%s: status %d, %s, panic %v\n%s", buf, w.Code, w.Body.String(), val, stack)
				return
			}
		}
	}
	for _, body := range []string{"", "{", "[]", "null7", `{"method":7}`, "\x00"} {
		w := httptest.NewRecorder()
		if val, stack := vh.Panics(func() { x.ch.ServeHTTP(w, httptest.NewRequest("POST", "/", strings.NewReader(body))) }); val != nil {
			x.fail("http", "body %q: panic %v\n%s", body, val, stack)
			return
		}
		if strings.Contains(w.Body.String(), `"result":"`) {
			x.fail("http", "body %q: %s", body, w.Body.String())
			return
		}
	}
	// numbers of filters that nobody has
	for _, id := range []string{`"0x10000000000000001"`, `"-0xffffffffffffffff"`, `"0x` + strings.Repeat("f", 31) + `00000001"`, `18446744073709551617`, `"0x2"`, `"0x0"`, `"-0x1"`} {
		for _, m := range []string{"eth_getFilterChanges", "eth_getFilterLogs", "eth_uninstallFilter"} {
			res, e := evmgen.RPC(x.rpc, m, id)
			x.note("%s %s: %s %s", m, id, res, e)
			c.Eval(1)
			c.Cell("filter number", m, len(id), e != "")
			if e == "" && !(m == "eth_uninstallFilter" && strings.TrimSpace(string(res)) == "false") {
				x.fail("accepted", "%s %s was answered with %s", m, id, res)
				return
			}
		}
	}
	if res, e := evmgen.RPC(x.rpc, "eth_getFilterLogs", `"0x1"`); e != "" {
		x.fail("effect", "after requests for other numbers, filter 1 answers %s %s", res, e)
		return
	}
	// values that no account can send
	for _, v := range []string{"-0x1", "-0x64", "0x1" + strings.Repeat("0", 64)} {
		res, e := evmgen.RPC(x.rpc, "eth_estimateGas", fmt.Sprintf(`{"from":"%s","to":"%s","value":"%s"}`, addr, to, v), `"pending"`)
		x.note("estimate of value %s: %s %s", v, res, e)
		if e == "" {
			x.fail("accepted", "the gas of a transaction of value %s was estimated: %s", v, res)
			return
		}
	}
	if d := evmgen.Diff(before, evmgen.Observe(x.ch, x.first)); d != "" {
		x.fail("effect", "requests that were refused had an effect:\n%s", d)
		return
	}
	if res, e := evmgen.RPC(x.rpc, "eth_sendTransaction", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x10000","value":"-0x5"}`, addr, to)); e == "" {
		x.fail("accepted", "a transaction of value -5 was sent: %s", res)
		return
	}
	for _, a := range append([]common.Address{x.emit[0]}, x.eoas...) {
		k := "account " + a.Hex()
		now := evmgen.State(x.ch)
		w, v := strings.Fields(before[k]), strings.Fields(now[k])
		if len(w) > 1 && (len(v) < 2 || w[1] != v[1]) {
			x.fail("effect", "a transaction of value -5 moved ether: %s was %s and is %s", k, before[k], now[k])
			return
		}
	}
}

// clients uses the chain through the library's client.
func clients(t *testing.T, r *vh.Run) {
	r.CasesLimit("client", r.Scale(120, 2000), 1, 120*time.Second, func(c *vh.Case) {
		synctest.Test(t, func(*testing.T) { client(c) })
	})
}

func client(c *vh.Case) {
	g := c.Rng
	x := newRun(c)
	cl := x.ch.Client()
	from := x.eoas[0]
	x.ch.AddBalance(evmgen.SA(from), new(big.Int).Lsh(big.NewInt(1), 80))
	snd := x.ch.Sender(evmgen.SA(from))
	bad := func(key, f string, a ...interface{}) { x.fail(key, f, a...) }
	// the accounts have no nonces yet
	it := cl.IterateBlocks(x.first, g.Intn(2) == 0)
	var blocks []*seth.Block
	itdone := make(chan struct{})
	go func() {
		for b := range it.Next() {
			blocks = append(blocks, b)
		}
		close(itdone)
	}()
	type watch struct {
		f    *seth.Filter
		m    *filtm
		got  []*seth.Log
		upto int // logs to yield; -1 for all
		done chan struct{}
	}
	var ws []*watch
	mk := func(start, end int64) bool {
		w := &watch{m: &filtm{from: start, to: end}, done: make(chan struct{})}
		var addr *seth.Address
		if len(x.emit) > 0 && g.Intn(2) == 0 {
			a := x.emit[g.Intn(len(x.emit))]
			w.m.addr, addr = &a, evmgen.SA(a)
		}
		var topics []*seth.Hash
		for i := g.Intn(3); i > 0; i-- {
			if g.Intn(2) == 0 {
				topics = append(topics, nil)
				w.m.topics = append(w.m.topics, nil)
				continue
			}
			h := x.pool[g.Intn(len(x.pool))]
			sh := seth.Hash(h)
			topics = append(topics, &sh)
			w.m.topics = append(w.m.topics, &h)
		}
		f, err := cl.FilterTopics(topics, addr, start, end)
		x.note("filter %+v: %v", *w.m, err)
		if err != nil {
			bad("client", "filter: %v", err)
			return false
		}
		w.f = f
		w.upto = len(x.logs)
		if start < 0 {
			w.upto = -1
			// the logs of the latest block on
			w.m.from = x.pending - 1
		}
		go func() {
			for l := range f.Out() {
				w.got = append(w.got, l)
			}
			close(w.done)
		}()
		synctest.Wait()
		ws = append(ws, w)
		return true
	}
	for i := 0; i < 4; i++ {
		code := evmgen.Wrap(emitter(i, evmgen.STOP))
		a, err := snd.Create(code, nil)
		t := &txm{}
		t.t.From, t.t.Input, t.t.Value = from, code, new(big.Int)
		x.note("create: %v %v", a.String(), err)
		if err != nil {
			bad("client", "create: %v", err)
			it.Stop()
			return
		}
		x.add(t)
		if common.Address(a) != t.addr {
			bad("client", "created %s, expected %s", a.String(), t.addr.Hex())
			it.Stop()
			return
		}
		x.sealed()
		x.emit = append(x.emit, t.addr)
	}
	var hs []seth.Hash
	steps := 5 + g.Intn(15)
	for i := 0; i < steps && !c.Failed(); i++ {
		switch k := g.Intn(10); {
		case k < 6:
			n := g.Intn(len(x.emit))
			in, ts, data := x.input(n)
			t := &txm{logs: []*logm{{addr: x.emit[n], topics: ts, data: data}}}
			t.t.From, t.t.To, t.t.Input, t.t.Value = from, &x.emit[n], in, big.NewInt(int64(g.Intn(4)))
			val := seth.Int(*t.t.Value)
			h, err := snd.Call(&seth.CallOpts{To: evmgen.SA(*t.t.To), Data: in, Value: &val})
			x.note("call of emitter %d: %v", n, err)
			if err != nil {
				bad("client", "call: %v", err)
				break
			}
			t.hash = h.String()
			x.add(t)
			x.sealed()
			hs = append(hs, h)
			if err := snd.Wait(&h); err != nil {
				bad("client", "wait: %v", err)
			}
		case k < 8:
			if g.Intn(2) == 0 {
				mk(-1, -1)
			} else {
				s := x.first + int64(g.Intn(int(x.pending-x.first)))
				e := int64(-1)
				if g.Intn(2) == 0 {
					e = s + int64(g.Intn(3))
				}
				mk(s, e)
			}
		default:
			time.Sleep(time.Duration(g.Intn(3000)) * time.Millisecond)
		}
		c.Eval(1)
	}
	time.Sleep(3 * time.Second)
	synctest.Wait()
	it.Stop()
	for _, w := range ws {
		// those with a first block end by themselves
		if w.m.from >= 0 {
			w.f.Close()
		}
	}
	time.Sleep(5 * time.Second)
	<-itdone
	for _, w := range ws {
		<-w.done
	}
	if c.Failed() {
		return
	}
	c.Count("client_transactions", len(hs)+4)
	c.Count("client_filters", len(ws))
	if len(blocks) != int(x.pending-x.first) {
		bad("iterator", "the iterator yielded %d blocks, %d were sealed", len(blocks), x.pending-x.first)
		return
	}
	for i, b := range blocks {
		want := x.blocks[x.first+int64(i)]
		if b.Number == nil || int64(*b.Number) != x.first+int64(i) || len(b.Transactions) != len(want) {
			j, _ := json.Marshal(b)
			bad("iterator", "block %d of the iterator: %s", i, j)
			return
		}
	}
	for _, t := range x.all {
		if t.hash == "" {
			continue
		}
		var h seth.Hash
		if err := h.FromString(t.hash); err != nil {
			bad("client", "hash %s: %v", t.hash, err)
			return
		}
		rx, err := cl.GetReceipt(&h)
		if err != nil || rx.Hash != h || int64(rx.BlockNumber) != t.block || rx.Threw() || len(rx.Logs) != len(t.logs) {
			j, _ := json.Marshal(rx)
			bad("client", "receipt of %s: %s %v", t.hash, j, err)
			return
		}
		tx, err := cl.GetTransaction(&h)
		if err != nil || tx.Hash != h || uint64(tx.Nonce) != t.nonce || int64(tx.BlockNumber) != t.block {
			j, _ := json.Marshal(tx)
			bad("client", "transaction %s: %s %v", t.hash, j, err)
			return
		}
	}
	for _, w := range ws {
		if err := w.f.Err(); err != nil {
			bad("filter", "filter %+v: %v", *w.m, err)
			return
		}
		n, want := 0, 0
		for i, m := range x.logs {
			if w.m.matches(m) && (w.upto < 0 || i < w.upto) {
				want++
			}
		}
		if len(w.got) != want {
			bad("filter", "filter %+v yielded %d logs, expected %d", *w.m, len(w.got), want)
			return
		}
		for _, l := range w.got {
			ok := false
			for _, m := range x.logs {
				if l.TxHash != nil && m.tx.hash == l.TxHash.String() && w.m.matches(m) {
					ok = true
				}
			}
			if !ok {
				j, _ := json.Marshal(l)
				bad("filter", "filter %+v yielded %s", *w.m, j)
				return
			}
			n++
		}
		seen := map[string]bool{}
		for _, l := range w.got {
			k := l.TxHash.String() + fmt.Sprint(*l.LogIndex)
			if seen[k] {
				bad("filter", "filter %+v yielded %s twice", *w.m, k)
				return
			}
			seen[k] = true
		}
		c.Count("client_logs", n)
	}
}
