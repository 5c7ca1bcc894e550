// C26: what the simulated chain says through JSON-RPC against a model of the
// transactions that were submitted.
package c26

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C26", "exploration")
	r.Rule("distinct (operation, outcome, number of blocks, number of pending transactions, filter ranges) of steps after which the whole view was checked; distinct (method, kind of malformed parameters, outcome) of hostile requests")
	r.Assume("a transaction that fails may be answered with an error; it is then still pending or not there at all")
	r.Assume("a filter whose range ends at the latest block may or may not yield logs of the pending block before it is sealed")
	r.Cases("history", r.Scale(500, 9000), 0, history)
	r.Cases("hostile", r.Scale(300, 5000), 0, hostile)
	r.Cases("large", r.Scale(4, 40), 0, large)
	r.CasesLimit("huge", r.Scale(1, 3), 0, 300*time.Second, huge)
	clients(t, r)
	r.Finish()
}

// viaHTTP sends requests to the chain's HTTP handler.
type viaHTTP struct {
	ch *tevm.Chain
	id int
}

func (v *viaHTTP) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	buf, err := json.Marshal(req)
	if err != nil {
		return err
	}
	w := httptest.NewRecorder()
	v.ch.ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewReader(buf)))
	if w.Code != http.StatusOK {
		return fmt.Errorf("status %d", w.Code)
	}
	return json.NewDecoder(w.Body).Decode(res)
}

type logm struct {
	addr   common.Address
	topics []common.Hash
	data   []byte
	block  int64
	index  int // in the block
	tx     *txm
}

type txm struct {
	hash   string
	t      evmgen.Tx
	nonce  uint64
	block  int64
	index  int
	failed bool
	logs   []*logm
	addr   common.Address // created
}

type filtm struct {
	id          string
	from, to    int64
	addr        *common.Address
	topics      []*common.Hash
	outstanding []*logm
	dead        bool
}

type run struct {
	c       *vh.Case
	ch      *tevm.Chain
	rpc     seth.Transport
	eoas    []common.Address
	nonce   map[common.Address]uint64
	emit    []common.Address // emitters by number of topics
	failer  common.Address   // logs, then reverts
	invalid common.Address
	proxy   common.Address
	first   int64
	pending int64
	blocks  map[int64][]*txm
	all     []*txm
	logs    []*logm
	nlogs   map[int64]int
	filters []*filtm
	pool    []common.Hash // topics
	trace   []string
	seq     int
}

func (x *run) fail(key, f string, a ...interface{}) {
	tr := x.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	x.c.Fail(key, "%s\noperations:\n%s", fmt.Sprintf(f, a...), strings.Join(tr, "\n"))
}

func (x *run) note(f string, a ...interface{}) { x.trace = append(x.trace, fmt.Sprintf(f, a...)) }

// emitter is the code that logs its input: topics, then data.
func emitter(topics int, end ...byte) []byte {
	a := &evmgen.Asm{}
	off := int64(32 * topics)
	size := func() { a.N(off).Op(evmgen.CALLDATASIZE, evmgen.SUB) }
	size()
	a.N(off).N(0).Op(evmgen.CALLDATACOPY)
	for i := topics - 1; i >= 0; i-- {
		a.N(int64(32 * i)).Op(evmgen.CALLDATALOAD)
	}
	size()
	a.N(0).Op(evmgen.LOG0 + byte(topics))
	return a.Op(end...).B
}

// proxyCode passes its input to two emitters, and to one that reverts between.
func proxyCode(to ...common.Address) []byte {
	a := &evmgen.Asm{}
	a.Op(evmgen.CALLDATASIZE).N(0).N(0).Op(evmgen.CALLDATACOPY)
	for _, t := range to {
		a.N(0).N(0).Op(evmgen.CALLDATASIZE).N(0).N(0).Addr(t).Op(evmgen.GAS, evmgen.CALL, evmgen.POP)
	}
	return a.Op(evmgen.STOP).B
}

func newRun(c *vh.Case) *run {
	g := c.Rng
	x := &run{c: c, ch: tevm.NewChain(), nonce: map[common.Address]uint64{}, blocks: map[int64][]*txm{}, nlogs: map[int64]int{}}
	x.rpc = x.ch
	if g.Intn(2) == 0 {
		x.rpc = &viaHTTP{ch: x.ch}
	}
	x.first = int64(*x.ch.State.Pending.Number)
	x.pending = x.first
	for i := 0; i < 3; i++ {
		var a common.Address
		g.Read(a[:])
		x.eoas = append(x.eoas, a)
		v := big.NewInt(int64(1000 + g.Intn(100000)))
		x.ch.AddBalance(evmgen.SA(a), v)
	}
	for i := 0; i < 4; i++ {
		var h common.Hash
		h[31] = byte(i)
		h[0] = byte(g.Intn(2))
		x.pool = append(x.pool, h)
	}
	return x
}

// add records a transaction that was accepted.
func (x *run) add(t *txm) {
	t.block = x.pending
	t.index = len(x.blocks[x.pending])
	t.nonce = x.nonce[t.t.From]
	x.nonce[t.t.From]++
	if t.t.To == nil && !t.failed {
		t.addr = crypto.CreateAddress(t.t.From, t.nonce)
	}
	x.blocks[x.pending] = append(x.blocks[x.pending], t)
	x.all = append(x.all, t)
	for _, l := range t.logs {
		l.tx = t
		x.addLog(l)
	}
}

func (x *run) addLog(l *logm) {
	l.block = x.pending
	l.index = x.nlogs[x.pending]
	x.nlogs[x.pending]++
	x.logs = append(x.logs, l)
	for _, f := range x.filters {
		if !f.dead && f.matches(l) {
			f.outstanding = append(f.outstanding, l)
		}
	}
}

func (f *filtm) matches(l *logm) bool {
	if f.from >= 0 && l.block < f.from || f.to >= 0 && l.block > f.to {
		return false
	}
	if f.addr != nil && *f.addr != l.addr {
		return false
	}
	for i, t := range f.topics {
		if t != nil && (i >= len(l.topics) || l.topics[i] != *t) {
			return false
		}
	}
	return true
}

// sealed notes that the pending block was sealed.
func (x *run) sealed() { x.pending++ }

// deploy sends a contract creation.
func (x *run) deploy(code []byte, value int64) *txm {
	t := &txm{}
	t.t.From = x.eoas[x.c.Rng.Intn(len(x.eoas))]
	t.t.Input = evmgen.Wrap(code)
	t.t.Gas = 3000000
	t.t.Value = big.NewInt(value)
	return t
}

// input is the input for an emitter.
func (x *run) input(topics int) ([]byte, []common.Hash, []byte) {
	g := x.c.Rng
	var ts []common.Hash
	var in []byte
	for i := 0; i < topics; i++ {
		h := x.pool[g.Intn(len(x.pool))]
		ts = append(ts, h)
		in = append(in, h[:]...)
	}
	data := vh.Bytes(g, g.Intn(70))
	return append(in, data...), ts, data
}

// submit sends a transaction one way or another.
func (x *run) submit(t *txm, how string) bool {
	c := x.c
	to := "create"
	if t.t.To != nil {
		to = t.t.To.Hex()
	}
	x.note("%s from %s to %s value %v gas %d input %d bytes, fails: %v, %d logs", how, t.t.From.Hex(), to, t.t.Value, t.t.Gas, len(t.t.Input), t.failed, len(t.logs))
	var res, e string
	val, stack := vh.Panics(func() {
		switch how {
		case "rpc":
			res, e = evmgen.RPC(x.rpc, "eth_sendTransaction", t.t.CallArgs())
		case "mine":
			_, h, err := x.ch.Mine(t.t.SethTx())
			b, _ := json.Marshal(&h)
			res = string(b)
			if err != nil {
				e = err.Error()
			}
		}
	})
	if val != nil {
		x.fail("panic", "%s: panic %v\n%s", how, val, stack)
		return false
	}
	c.Cell(how, e, t.failed, len(x.blocks), len(x.blocks[x.pending]))
	c.Count("transactions", 1)
	if t.failed {
		c.Count("failing_transactions", 1)
	}
	if how == "rpc" && t.failed {
		// accepted, or not
		if e == "" {
			json.Unmarshal([]byte(res), &t.hash)
			x.add(t)
			x.sealed()
			return true
		}
		var b struct {
			Transactions []string `json:"transactions"`
		}
		p, perr := evmgen.RPC(x.rpc, "eth_getBlockByNumber", `"pending"`, "false")
		json.Unmarshal([]byte(p), &b)
		n := len(x.blocks[x.pending])
		if perr != "" || len(b.Transactions) < n || len(b.Transactions) > n+1 {
			x.fail("pending", "after a failing transaction the pending block is %s %s; it had %d transactions", p, perr, n)
			return false
		}
		if len(b.Transactions) > n {
			t.hash = b.Transactions[n]
			x.add(t)
		}
		return true
	}
	if (e != "") != t.failed {
		x.fail("submit", "%s: error %q, expected failure: %v", how, e, t.failed)
		return false
	}
	json.Unmarshal([]byte(res), &t.hash)
	if len(t.hash) != 66 {
		x.fail("submit", "%s: hash %s", how, res)
		return false
	}
	for _, o := range x.all {
		if o.hash == t.hash {
			x.fail("hash", "two transactions have the hash %s", t.hash)
			return false
		}
	}
	x.add(t)
	if how == "rpc" {
		x.sealed()
	}
	return true
}

// step generates and executes an operation.
func (x *run) step() bool {
	g := x.c.Rng
	x.seq++
	t := &txm{}
	t.t.From = x.eoas[g.Intn(len(x.eoas))]
	t.t.Gas = 300000 + uint64(g.Intn(100000))
	t.t.Value = new(big.Int)
	t.t.GasPrice = int64(g.Intn(3))
	how := "rpc"
	if g.Intn(3) == 0 {
		how = "mine"
	}
	switch k := g.Intn(20); {
	case k < 7: // a log
		i := g.Intn(len(x.emit))
		in, ts, data := x.input(i)
		t.t.To, t.t.Input = &x.emit[i], in
		t.logs = []*logm{{addr: x.emit[i], topics: ts, data: data}}
	case k < 9: // logs of calls, one of which reverts
		in, _, _ := x.input(2)
		t.t.To, t.t.Input = &x.proxy, in
		t.t.Gas += 400000
		var a, b common.Hash
		copy(a[:], in)
		copy(b[:], in[32:])
		t.logs = []*logm{
			{addr: x.emit[1], topics: []common.Hash{a}, data: in[32:]},
			{addr: x.emit[2], topics: []common.Hash{a, b}, data: in[64:]},
			{addr: x.emit[0], data: in},
		}
	case k < 11: // failing after a log
		in, _, _ := x.input(1)
		t.t.To, t.t.Input = &x.failer, in
		if g.Intn(3) == 0 {
			t.t.To = &x.invalid
		}
		t.failed = true
	case k < 12: // too little ether
		t.t.To = &x.eoas[g.Intn(len(x.eoas))]
		t.t.Value = new(big.Int).Lsh(big.NewInt(1), 100)
		t.failed = true
	case k < 14: // a transfer
		var to common.Address
		g.Read(to[:])
		t.t.To = &to
		t.t.Value = big.NewInt(int64(g.Intn(3)))
		t.t.Input = vh.Bytes(g, g.Intn(3))
	case k < 15: // a contract
		p := t.t.GasPrice
		t = x.deploy(emitter(g.Intn(5), evmgen.STOP), 0)
		t.t.GasPrice = p
	case k < 16: // a log without a transaction
		i := g.Intn(len(x.emit))
		if i == 1 {
			i = 0 // its topic would be cut off
		}
		if i > 0 {
			i = 0
		}
		from, to := evmgen.SA(t.t.From), evmgen.SA(x.emit[i])
		sig := fmt.Sprintf("f%d()", g.Intn(3))
		x.note("call %s", sig)
		if _, err := x.ch.Call(from, to, sig); err != nil {
			x.fail("submit", "call of an emitter: %v", err)
			return false
		}
		x.addLog(&logm{addr: x.emit[i], data: evmgen.Calldata(sig)})
		return true
	case k < 18:
		x.note("seal")
		x.ch.Seal()
		x.sealed()
		return true
	default:
		return x.filter()
	}
	return x.submit(t, how)
}

func quote(s string) string { return `"` + s + `"` }

// filter makes, asks or removes a filter.
func (x *run) filter() bool {
	g := x.c.Rng
	if len(x.filters) > 0 && g.Intn(5) == 0 {
		f := x.filters[g.Intn(len(x.filters))]
		x.note("uninstall %s", f.id)
		res, e := evmgen.RPC(x.rpc, "eth_uninstallFilter", f.id)
		want := fmt.Sprint(!f.dead)
		if e != "" || res != want {
			x.fail("filter", "uninstalling filter %s: %s %s, expected %s", f.id, res, e, want)
			return false
		}
		f.dead = true
		return true
	}
	f := &filtm{from: -2, to: -2}
	var parts []string
	num := func() int64 {
		if g.Intn(8) == 0 {
			return int64(g.Intn(20))
		}
		return x.first - 1 + int64(g.Intn(int(x.pending-x.first)+4))
	}
	block := func(name string, dst *int64) {
		switch g.Intn(6) {
		case 0:
			*dst = -1
			parts = append(parts, name+`:"pending"`)
		case 1:
			parts = append(parts, name+`:"latest"`)
		case 2:
			if name == `"fromBlock"` {
				*dst = 0
				parts = append(parts, name+`:"earliest"`)
			}
		case 3, 4:
			*dst = num()
			parts = append(parts, fmt.Sprintf(`%s:"0x%x"`, name, *dst))
		}
	}
	block(`"fromBlock"`, &f.from)
	block(`"toBlock"`, &f.to)
	switch g.Intn(4) {
	case 0, 1:
		a := x.emit[g.Intn(len(x.emit))]
		if g.Intn(6) == 0 {
			a = x.eoas[0]
		}
		f.addr = &a
		parts = append(parts, fmt.Sprintf(`"address":"%s"`, strings.ToLower(a.Hex())))
	case 2:
		parts = append(parts, `"address":null`)
	}
	if g.Intn(2) == 0 {
		var ts []string
		for i := g.Intn(5); i > 0; i-- {
			if g.Intn(2) == 0 {
				f.topics = append(f.topics, nil)
				ts = append(ts, "null")
				continue
			}
			h := x.pool[g.Intn(len(x.pool))]
			f.topics = append(f.topics, &h)
			ts = append(ts, quote(h.Hex()))
		}
		parts = append(parts, `"topics":[`+strings.Join(ts, ",")+`]`)
	}
	g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	arg := "{" + strings.Join(parts, ",") + "}"
	res, e := evmgen.RPC(x.rpc, "eth_newFilter", arg)
	x.note("filter %s: %s %s", arg, res, e)
	x.c.Cell("filter", f.from >= 0, f.to >= 0, f.from == -1, f.addr != nil, len(f.topics), e)
	if f.from >= 0 && f.to >= 0 && f.from > f.to {
		if e == "" {
			x.fail("filter", "a filter of blocks %d to %d was accepted", f.from, f.to)
			return false
		}
		return true
	}
	if e != "" {
		x.fail("filter", "filter %s: %s", arg, e)
		return false
	}
	f.id = res
	if !strings.HasPrefix(f.id, `"`) {
		var n int64
		if json.Unmarshal([]byte(res), &n) != nil {
			x.fail("filter", "filter id %s", res)
			return false
		}
		f.id = fmt.Sprintf(`"0x%x"`, n)
	}
	for _, o := range x.filters {
		if o.id == f.id {
			x.fail("filter", "two filters have the id %s", f.id)
			return false
		}
	}
	x.filters = append(x.filters, f)
	x.c.Count("filters", 1)
	return true
}

type logj struct {
	Removed     bool            `json:"removed"`
	LogIndex    *seth.Uint64    `json:"logIndex"`
	TxIndex     *seth.Uint64    `json:"transactionIndex"`
	TxHash      *string         `json:"transactionHash"`
	BlockHash   *string         `json:"blockHash"`
	BlockNumber *seth.Uint64    `json:"blockNumber"`
	Address     *common.Address `json:"address"`
	Data        *seth.Data      `json:"data"`
	Topics      []common.Hash   `json:"topics"`
}

// is compares a log with what was expected.
func (l *logj) is(m *logm, hash map[int64]string) string {
	switch {
	case l.LogIndex == nil || l.TxIndex == nil || l.TxHash == nil || l.BlockHash == nil || l.BlockNumber == nil || l.Address == nil || l.Data == nil:
		return "a field is missing"
	case l.Removed:
		return "removed"
	case *l.Address != m.addr:
		return fmt.Sprintf("address %s, expected %s", l.Address.Hex(), m.addr.Hex())
	case !bytes.Equal(*l.Data, m.data):
		return fmt.Sprintf("data %x, expected %x", []byte(*l.Data), m.data)
	case fmt.Sprint(l.Topics) != fmt.Sprint(m.topics):
		return fmt.Sprintf("topics %v, expected %v", l.Topics, m.topics)
	case int64(*l.BlockNumber) != m.block:
		return fmt.Sprintf("block %d, expected %d", *l.BlockNumber, m.block)
	case *l.BlockHash != hash[m.block]:
		return fmt.Sprintf("block hash %s, expected %s", *l.BlockHash, hash[m.block])
	case int(*l.LogIndex) != m.index:
		return fmt.Sprintf("log index %d, expected %d", *l.LogIndex, m.index)
	}
	if m.tx != nil {
		if *l.TxHash != m.tx.hash {
			return fmt.Sprintf("transaction %s, expected %s", *l.TxHash, m.tx.hash)
		}
		if int(*l.TxIndex) != m.tx.index {
			return fmt.Sprintf("transaction index %d, expected %d", *l.TxIndex, m.tx.index)
		}
	}
	return ""
}

// match compares logs with those expected: all of want must be there, in
// order, except that those of the pending block may be missing.
func (x *run) match(got string, want []*logm, hash map[int64]string) (left []*logm, diff string) {
	var ls []logj
	if err := json.Unmarshal([]byte(got), &ls); err != nil {
		return nil, err.Error()
	}
	i := 0
	for n := range ls {
		d := "unexpected"
		for i < len(want) {
			d = ls[n].is(want[i], hash)
			if d == "" || want[i].block < x.pending {
				break
			}
			left = append(left, want[i])
			i++
		}
		if d != "" {
			return nil, fmt.Sprintf("log %d of %d: %s", n, len(ls), d)
		}
		i++
		x.c.Count("logs_matched", 1)
	}
	for ; i < len(want); i++ {
		if want[i].block < x.pending {
			return nil, fmt.Sprintf("a log of block %d is missing; %d were returned", want[i].block, len(ls))
		}
		left = append(left, want[i])
	}
	return left, ""
}

type blockj struct {
	Number       *seth.Uint64      `json:"number"`
	Hash         *string           `json:"hash"`
	Parent       string            `json:"parentHash"`
	GasUsed      seth.Uint64       `json:"gasUsed"`
	Transactions []json.RawMessage `json:"transactions"`
}

type txj struct {
	Hash     string          `json:"hash"`
	Nonce    seth.Uint64     `json:"nonce"`
	Block    string          `json:"blockHash"`
	Number   *seth.Uint64    `json:"blockNumber"`
	Index    *seth.Uint64    `json:"transactionIndex"`
	From     *common.Address `json:"from"`
	To       *common.Address `json:"to"`
	Value    seth.Int        `json:"value"`
	Gas      seth.Uint64     `json:"gas"`
	GasPrice seth.Int        `json:"gasPrice"`
	Input    seth.Data       `json:"input"`
}

type rxj struct {
	Hash       string          `json:"transactionHash"`
	Index      *seth.Uint64    `json:"transactionIndex"`
	BlockHash  string          `json:"blockHash"`
	Number     *seth.Uint64    `json:"blockNumber"`
	GasUsed    *seth.Uint64    `json:"gasUsed"`
	Cumulative *seth.Uint64    `json:"cumulativeGasUsed"`
	Address    *common.Address `json:"contractAddress"`
	Status     *seth.Uint64    `json:"status"`
	Logs       json.RawMessage `json:"logs"`
}

func (t *txm) is(j *txj, hash string) string {
	switch {
	case j.Hash != t.hash:
		return fmt.Sprintf("hash %s", j.Hash)
	case j.From == nil || *j.From != t.t.From:
		return fmt.Sprintf("from %v, expected %s", j.From, t.t.From.Hex())
	case (j.To == nil) != (t.t.To == nil) || j.To != nil && *j.To != *t.t.To:
		return fmt.Sprintf("to %v, expected %v", j.To, t.t.To)
	case uint64(j.Nonce) != t.nonce:
		return fmt.Sprintf("nonce %d, expected %d", j.Nonce, t.nonce)
	case j.Value.Big().Cmp(t.t.Value) != 0:
		return fmt.Sprintf("value %v, expected %v", j.Value.Big(), t.t.Value)
	case uint64(j.Gas) != t.t.Gas:
		return fmt.Sprintf("gas %d, expected %d", j.Gas, t.t.Gas)
	case j.GasPrice.Big().Cmp(big.NewInt(t.t.GasPrice)) != 0:
		return fmt.Sprintf("gas price %v, expected %d", j.GasPrice.Big(), t.t.GasPrice)
	case !bytes.Equal(j.Input, t.t.Input):
		return fmt.Sprintf("input %x, expected %x", []byte(j.Input), t.t.Input)
	case j.Number == nil || int64(*j.Number) != t.block:
		return fmt.Sprintf("block number %v, expected %d", j.Number, t.block)
	case j.Index == nil || int(*j.Index) != t.index:
		return fmt.Sprintf("index %v, expected %d", j.Index, t.index)
	case j.Block != hash:
		return fmt.Sprintf("block hash %s, expected %s", j.Block, hash)
	}
	return ""
}

// check compares everything that the chain says with the model.
func (x *run) check(deep bool) bool {
	x.c.Eval(1)
	hash := map[int64]string{}
	ask := func(m string, p ...string) (string, string) { return evmgen.RPC(x.rpc, m, p...) }
	num, e := ask("eth_blockNumber")
	var n seth.Uint64
	if json.Unmarshal([]byte(num), &n); e != "" || int64(n) != x.pending-1 {
		x.fail("number", "block number %s %s, expected %d", num, e, x.pending-1)
		return false
	}
	from := x.first
	if !deep && x.pending-4 > from {
		from = x.pending - 4
	}
	parent := ""
	for b := x.first; b <= x.pending; b++ {
		arg := evmgen.BlockArg(b)
		if b == x.pending {
			arg = `"pending"`
		} else if b == x.pending-1 && x.c.Rng.Intn(2) == 0 {
			arg = `"latest"`
		} else if x.c.Rng.Intn(4) == 0 {
			arg = fmt.Sprint(b)
		}
		short, e := ask("eth_getBlockByNumber", arg, "false")
		var j blockj
		if err := json.Unmarshal([]byte(short), &j); e != "" || err != nil || j.Hash == nil || j.Number == nil {
			x.fail("block", "block %s (%d): %s %s %v", arg, b, short, e, err)
			return false
		}
		hash[b] = *j.Hash
		if int64(*j.Number) != b {
			x.fail("block", "block %s has number %d, expected %d", arg, *j.Number, b)
			return false
		}
		if parent != "" && j.Parent != parent {
			x.fail("parent", "block %d has parent %s, the hash of the block before is %s", b, j.Parent, parent)
			return false
		}
		parent = *j.Hash
		if b < from {
			continue
		}
		for o, h := range hash {
			if o != b && h == *j.Hash {
				x.fail("block", "blocks %d and %d have the hash %s", o, b, h)
				return false
			}
		}
		want := x.blocks[b]
		if len(j.Transactions) != len(want) {
			x.fail("block", "block %d has %d transactions, expected %d", b, len(j.Transactions), len(want))
			return false
		}
		full, e := ask("eth_getBlockByNumber", arg, "true")
		var fj blockj
		if err := json.Unmarshal([]byte(full), &fj); e != "" || err != nil || len(fj.Transactions) != len(want) {
			x.fail("block", "block %s with its transactions: %s %s %v", arg, full, e, err)
			return false
		}
		var cum uint64
		for i, t := range want {
			var h string
			json.Unmarshal(j.Transactions[i], &h)
			if h != t.hash {
				x.fail("block", "transaction %d of block %d is %s, expected %s", i, b, h, t.hash)
				return false
			}
			one, e := ask("eth_getTransactionByHash", quote(t.hash))
			var tj, ftj txj
			err := json.Unmarshal([]byte(one), &tj)
			if e != "" || err != nil {
				x.fail("transaction", "transaction %s: %s %s %v", t.hash, one, e, err)
				return false
			}
			if d := t.is(&tj, hash[b]); d != "" {
				x.fail("transaction", "transaction %s: %s", t.hash, d)
				return false
			}
			if err := json.Unmarshal(fj.Transactions[i], &ftj); err != nil {
				x.fail("block", "transaction %s in its block: %s: %v", t.hash, fj.Transactions[i], err)
				return false
			}
			if d := t.is(&ftj, hash[b]); d != "" {
				x.fail("block", "transaction %s in its block: %s", t.hash, d)
				return false
			}
			rx, e := ask("eth_getTransactionReceipt", quote(t.hash))
			x.c.Count("receipts_checked", 1)
			if b == x.pending {
				if e == "" && rx != "null" && rx != "" {
					x.fail("receipt", "a pending transaction has a receipt: %s", rx)
					return false
				}
				continue
			}
			if d := x.receipt(t, rx, e, hash, &cum); d != "" {
				x.fail("receipt", "receipt of %s (%d of block %d): %s in\n%s", t.hash, i, b, d, rx)
				return false
			}
		}
		if b < x.pending && uint64(j.GasUsed) != cum {
			x.fail("block", "block %d used %d gas, its transactions %d", b, j.GasUsed, cum)
			return false
		}
		if b < x.pending || x.c.Rng.Intn(2) == 0 {
			byhash, e := ask("eth_getBlockByHash", quote(*j.Hash), "false")
			if e != "" || byhash != short {
				x.fail("block", "block %d by hash: %s %s, by number %s", b, byhash, e, short)
				return false
			}
		}
	}
	for _, b := range []int64{x.first - 1, x.pending + int64(x.c.Rng.Intn(3)), 0, 1} {
		if res, e := ask("eth_getBlockByNumber", evmgen.BlockArg(b), "false"); e == "" && res != "null" && res != "" {
			var j blockj
			json.Unmarshal([]byte(res), &j)
			// the pending block may be asked for by its number
			if b != x.pending || j.Number == nil || int64(*j.Number) != b {
				x.fail("block", "block %d: %s", b, res)
				return false
			}
		}
	}
	return x.unknown() && x.views(hash) && x.filtersCheck(hash)
}

// unknown asks for blocks that there are not.
func (x *run) unknown() bool {
	g := x.c.Rng
	addr := quote(strings.ToLower(x.eoas[0].Hex()))
	tx := fmt.Sprintf(`{"from":%s,"to":%s}`, addr, addr)
	for _, b := range []int64{x.first - 1 - int64(g.Intn(90)), x.pending + 1 + int64(g.Intn(1000)), -3 - int64(g.Intn(5))} {
		arg := evmgen.BlockArg(b)
		if b < 0 {
			arg = fmt.Sprint(b)
		}
		for m, ps := range map[string][]string{"eth_getBalance": {addr, arg}, "eth_call": {tx, arg}, "eth_estimateGas": {tx, arg}} {
			if res, e := evmgen.RPC(x.rpc, m, ps...); e == "" {
				x.fail("unknown", "%s at the unknown block %d gave %s", m, b, res)
				return false
			}
			x.c.Count("unknown_blocks", 1)
		}
		if v := x.ch.AtBlock(b); v != nil {
			x.fail("unknown", "there is a view of the unknown block %d", b)
			return false
		}
	}
	h := quote("0x" + strings.Repeat("0", 40) + fmt.Sprintf("%024x", 1+g.Int63()))
	if res, e := evmgen.RPC(x.rpc, "eth_getBlockByHash", h, "false"); e == "" && res != "null" && res != "" {
		x.fail("unknown", "the block with the unknown hash %s is %s", h, res)
		return false
	}
	return true
}

// views opens a view of a sealed block: it has the blocks before, and none after.
func (x *run) views(hash map[int64]string) bool {
	g := x.c.Rng
	if x.pending == x.first || g.Intn(3) > 0 {
		return true
	}
	n := x.first + int64(g.Intn(int(x.pending-x.first)))
	v := x.ch.AtBlock(n)
	if v == nil {
		x.fail("view", "there is no view of block %d", n)
		return false
	}
	for b := x.first; b <= x.pending; b++ {
		if b == n {
			continue
		}
		byhash, e := evmgen.RPC(v, "eth_getBlockByHash", quote(hash[b]), "false")
		bynum, e2 := evmgen.RPC(v, "eth_getBlockByNumber", evmgen.BlockArg(b), "false")
		if b > n {
			if e == "" && byhash != "null" || e2 == "" && bynum != "null" {
				x.fail("view", "the view of block %d has block %d: %s%s", n, b, byhash, bynum)
				return false
			}
			continue
		}
		short, _ := evmgen.RPC(x.rpc, "eth_getBlockByNumber", evmgen.BlockArg(b), "false")
		if byhash != short || bynum != short {
			x.fail("view", "in the view of block %d block %d is %s %s and %s %s, it is %s", n, b, byhash, e, bynum, e2, short)
			return false
		}
	}
	x.c.Count("views", 1)
	return true
}

func (x *run) receipt(t *txm, rx, e string, hash map[int64]string, cum *uint64) string {
	var j rxj
	if err := json.Unmarshal([]byte(rx), &j); e != "" || err != nil {
		return fmt.Sprintf("%s %v", e, err)
	}
	if j.Index == nil || j.Number == nil || j.GasUsed == nil || j.Cumulative == nil || j.Status == nil {
		return "a field is missing"
	}
	*cum += uint64(*j.GasUsed)
	status := 1
	if t.failed {
		status = 0
	}
	switch {
	case j.Hash != t.hash:
		return "hash " + j.Hash
	case int(*j.Index) != t.index:
		return fmt.Sprintf("index %d, expected %d", *j.Index, t.index)
	case int64(*j.Number) != t.block:
		return fmt.Sprintf("block number %d, expected %d", *j.Number, t.block)
	case j.BlockHash != hash[t.block]:
		return fmt.Sprintf("block hash %s, expected %s", j.BlockHash, hash[t.block])
	case int(*j.Status) != status:
		return fmt.Sprintf("status %d, expected %d", *j.Status, status)
	case uint64(*j.GasUsed) > t.t.Gas:
		return fmt.Sprintf("%d gas used of %d", *j.GasUsed, t.t.Gas)
	case uint64(*j.Cumulative) != *cum:
		return fmt.Sprintf("cumulative gas %d, expected %d", *j.Cumulative, *cum)
	case t.t.To == nil && !t.failed && (j.Address == nil || *j.Address != t.addr):
		return fmt.Sprintf("contract address %v, expected %s", j.Address, t.addr.Hex())
	case t.t.To != nil && j.Address != nil:
		return fmt.Sprintf("contract address %s", j.Address.Hex())
	}
	if _, d := x.match(string(j.Logs), t.logs, hash); d != "" {
		return d
	}
	return ""
}

func (x *run) filtersCheck(hash map[int64]string) bool {
	g := x.c.Rng
	for _, f := range x.filters {
		if g.Intn(2) == 0 {
			res, e := evmgen.RPC(x.rpc, "eth_getFilterChanges", f.id)
			if f.dead {
				if e == "" {
					x.fail("filter", "changes of a filter that was removed: %s", res)
					return false
				}
				continue
			}
			if e != "" {
				x.fail("filter", "changes of filter %s: %s", f.id, e)
				return false
			}
			left, d := x.match(res, f.outstanding, hash)
			if d != "" {
				x.fail("changes", "changes of filter %+v: %s in\n%s", *f, d, res)
				return false
			}
			x.note("changes of %s", f.id)
			f.outstanding = left
			x.c.Count("changes_checked", 1)
		}
		if g.Intn(3) == 0 {
			res, e := evmgen.RPC(x.rpc, "eth_getFilterLogs", f.id)
			if f.dead {
				if e == "" {
					x.fail("filter", "logs of a filter that was removed: %s", res)
					return false
				}
				continue
			}
			if e != "" {
				x.fail("filter", "logs of filter %s: %s", f.id, e)
				return false
			}
			r := *f
			if f.from == -1 {
				r.from = x.pending
			} else if f.from == -2 {
				r.from = x.pending - 1
			}
			var want []*logm
			for _, l := range x.logs {
				if r.matches(l) {
					want = append(want, l)
				}
			}
			if _, d := x.match(res, want, hash); d != "" {
				x.fail("logs", "logs of filter %+v: %s in\n%s", *f, d, res)
				return false
			}
			x.c.Count("log_queries_checked", 1)
		}
	}
	return true
}

func history(c *vh.Case) {
	g := c.Rng
	x := newRun(c)
	for i := 0; i < 5; i++ {
		t := x.deploy(emitter(i, evmgen.STOP), 0)
		if !x.submit(t, "rpc") {
			return
		}
		x.emit = append(x.emit, t.addr)
	}
	for _, d := range []struct {
		code []byte
		dst  *common.Address
	}{
		{emitter(1, 0x60, 0, 0x60, 0, evmgen.REVERT), &x.failer},
		{emitter(1, evmgen.INVALID), &x.invalid},
	} {
		t := x.deploy(d.code, 0)
		if !x.submit(t, []string{"rpc", "mine"}[g.Intn(2)]) {
			return
		}
		*d.dst = t.addr
	}
	t := x.deploy(proxyCode(x.emit[1], x.failer, x.emit[2], x.failer, x.emit[0]), 0)
	if !x.submit(t, "rpc") {
		return
	}
	x.proxy = t.addr
	steps := 15 + g.Intn(30)
	for i := 0; i < steps; i++ {
		var ok bool
		if val, stack := vh.Panics(func() { ok = x.step() }); val != nil {
			x.fail("panic", "panic %v\n%s", val, stack)
			return
		}
		if !ok {
			return
		}
		if val, stack := vh.Panics(func() { ok = x.check(i == steps-1 || g.Intn(8) == 0) }); val != nil {
			x.fail("panic", "panic %v\n%s", val, stack)
			return
		}
		if !ok {
			return
		}
	}
	if c.Index < 2 {
		c.Sample("%s", strings.Join(x.trace, "; "))
	}
}

// large is a block of many transactions.
func large(c *vh.Case) {
	g := c.Rng
	x := newRun(c)
	t := x.deploy(emitter(1, evmgen.STOP), 0)
	if !x.submit(t, "rpc") {
		return
	}
	x.emit = append(x.emit, t.addr)
	n := 240 + g.Intn(400)
	for i := 0; i < n; i++ {
		t := &txm{}
		t.t.From = x.eoas[g.Intn(len(x.eoas))]
		t.t.Gas = 100000
		t.t.Value = big.NewInt(int64(g.Intn(2)))
		in, ts, data := x.input(1)
		t.t.To, t.t.Input = &x.emit[0], in
		t.logs = []*logm{{addr: x.emit[0], topics: ts, data: data}}
		if !x.submit(t, "mine") {
			return
		}
	}
	if !x.check(true) {
		return
	}
	x.ch.Seal()
	x.sealed()
	x.check(true)
}

// huge is a block of more transactions than fit 16 bits: a test that never
// seals makes one.
func huge(c *vh.Case) {
	g := c.Rng
	x := newRun(c)
	from, to := evmgen.SA(x.eoas[0]), evmgen.SA(x.eoas[1])
	x.ch.AddBalance(from, new(big.Int).Lsh(big.NewInt(1), 80))
	n := 1<<16 + 1 + g.Intn(300)
	hashes := make([]seth.Hash, n)
	at := make(map[seth.Hash]int, n)
	for i := range hashes {
		tx := &seth.Transaction{From: from, To: to, Gas: 100000}
		tx.Value.SetUint64(uint64(i))
		_, h, err := x.ch.Mine(tx)
		if err != nil {
			x.fail("huge", "transaction %d: %v", i, err)
			return
		}
		if j, ok := at[h]; ok {
			x.fail("huge", "transactions %d and %d of one block have the hash %s", j, i, h.String())
			return
		}
		hashes[i], at[h] = h, i
	}
	c.Count("transactions", n)
	cl := x.ch.Client()
	ask := func(sealed bool) bool {
		for k := 0; k < 300; k++ {
			i := g.Intn(n)
			if k < 20 {
				i = []int{k, n - 1 - k}[k%2]
			}
			c.Eval(1)
			tx, err := cl.GetTransaction(&hashes[i])
			if err != nil || tx.Hash != hashes[i] || tx.Value.Int64() != int64(i) || int(tx.Nonce) != i || tx.TxIndex == nil || int(*tx.TxIndex) != i {
				x.fail("huge", "transaction %d of %d is found as %+v %v", i, n, tx, err)
				return false
			}
			if !sealed {
				continue
			}
			rx, err := cl.GetReceipt(&hashes[i])
			if err != nil || rx.Hash != hashes[i] || int(rx.Index) != i || rx.Status != 1 || rx.BlockHash != tx.Block {
				x.fail("huge", "the receipt of transaction %d of %d is %+v %v", i, n, rx, err)
				return false
			}
		}
		return true
	}
	c.Cell("huge", n > 1<<16)
	if !ask(false) {
		return
	}
	x.ch.Seal()
	if !ask(true) {
		return
	}
	b, err := cl.GetBlock(seth.Latest, false)
	if err != nil || len(b.Transactions) != n {
		x.fail("huge", "a block of %d transactions is answered as %v", n, err)
		return
	}
	for i := range b.Transactions {
		if string(b.Transactions[i]) != `"`+hashes[i].String()+`"` {
			x.fail("huge", "transaction %d of %d is listed as %s, not %s", i, n, b.Transactions[i], hashes[i].String())
			return
		}
	}
}
