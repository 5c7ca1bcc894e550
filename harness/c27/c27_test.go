// C27: concurrent use of one simulated chain.
package c27

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"net/http/httptest"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C27", "exploration")
	r.Rule("distinct orders of the operations' invocations and responses with their results (linearizability); distinct (mix of operations, goroutines) of stress rounds")
	r.Assume("State and Debugf are not touched while the chain is in use")
	r.CasesLimit("linear", r.Scale(1200, 20000), 4, 60*time.Second, linear)
	r.CasesLimit("stress", r.Scale(60, 900), 2, 120*time.Second, stress)
	r.CasesLimit("filters", r.Scale(60, 900), 2, 60*time.Second, filters)
	r.CasesLimit("panics", r.Scale(60, 900), 2, 60*time.Second, panics)
	r.Finish()
}

// counter adds one to a slot, logs the new value and returns it.
var counter = (&evmgen.Asm{}).N(0).Op(evmgen.SLOAD).N(1).Op(evmgen.ADD, evmgen.DUP1).N(0).Op(evmgen.SSTORE).N(0).Op(evmgen.MSTORE).N(32).N(0).Op(evmgen.LOG0).N(32).N(0).Op(evmgen.RETURN).B

// getter returns the slot if there is input, and counts otherwise.
func code() []byte {
	// CALLDATASIZE; PUSH1 dest; JUMPI; <counter>; JUMPDEST; SLOAD 0; MSTORE; RETURN
	a := &evmgen.Asm{}
	a.Op(evmgen.CALLDATASIZE, 0x60, byte(4+len(counter)), evmgen.JUMPI)
	a.Op(counter...)
	a.Op(evmgen.JUMPDEST).N(0).Op(evmgen.SLOAD).N(0).Op(evmgen.MSTORE).N(32).N(0).Op(evmgen.RETURN)
	return a.B
}

type world struct {
	ch   *tevm.Chain
	eoas []common.Address
	k    common.Address // the counter
	n0   int64          // the pending block at the start
	bal  int64
}

// jitter makes the state yield the processor now and then.
func jitter(seed int64) func(string, ...interface{}) {
	var n uint32
	return func(string, ...interface{}) {
		v := atomic.AddUint32(&n, 1)*2654435761 + uint32(seed)
		switch v >> 28 {
		case 0, 1, 2:
			runtime.Gosched()
		case 3:
			if v>>24&7 == 0 {
				time.Sleep(time.Microsecond)
			}
		}
	}
}

func newWorld(g *rand.Rand, ch *tevm.Chain) *world {
	w := &world{ch: ch, bal: int64(5 + g.Intn(10))}
	for i := 0; i < 3; i++ {
		var a common.Address
		g.Read(a[:])
		w.eoas = append(w.eoas, a)
		ch.AddBalance(evmgen.SA(a), big.NewInt(w.bal))
	}
	var dep common.Address
	g.Read(dep[:])
	a, err := ch.Create(evmgen.SA(dep), evmgen.Wrap(code()))
	if err != nil {
		panic(err)
	}
	w.k = common.Address(a)
	ch.Seal()
	w.n0 = int64(*ch.State.Pending.Number)
	return w
}

// in is the invocation of an operation, out its response.
type in struct {
	kind     string
	a, b     int
	v        int64
	contract bool
}

type out struct {
	failed bool
	n      int64 // a value
	list   [2]int64
	block  int64
	index  int64
	nonce  int64
	noTx   bool
}

type state struct {
	bal, lbal  [3]int64
	nonce      [3]int64
	cnt, lcnt  int64
	height, tx int64
	seen       int64 // counts yielded by the filter
}

func (s state) seal() state {
	s.lbal, s.lcnt = s.bal, s.cnt
	s.height++
	s.tx = 0
	return s
}

var model = porcupine.Model{
	Step: func(st, i, o interface{}) (bool, interface{}) {
		s, p, r := st.(state), i.(in), o.(out)
		mined := func() bool {
			ok := r.noTx || r.block == s.height && r.index == s.tx && r.nonce == s.nonce[p.a]
			s.tx++
			s.nonce[p.a]++
			return ok
		}
		ok := true
		switch p.kind {
		case "inc", "rpcinc":
			s.cnt++
			if p.kind == "inc" {
				ok = r.n == s.cnt
			}
			ok = mined() && ok && !r.failed
			if p.kind == "rpcinc" {
				s = s.seal()
			}
		case "transfer", "rpctransfer":
			fails := s.bal[p.a] < p.v
			if !fails {
				s.bal[p.a] -= p.v
				s.bal[p.b] += p.v
			}
			ok = mined() && fails == r.failed
			if p.kind == "rpctransfer" && !fails {
				s = s.seal()
			}
		case "call": // counts without a transaction
			s.cnt++
			ok = r.n == s.cnt
		case "send":
			fails := s.bal[p.a] < p.v
			if !fails {
				s.bal[p.a] -= p.v
				s.bal[p.b] += p.v
			}
			ok = fails == r.failed
		case "add":
			s.bal[p.a] += p.v
		case "balance", "rpcbalance":
			ok = r.n == s.bal[p.a]
		case "latestbalance":
			ok = r.n == s.lbal[p.a]
		case "get", "rpcget":
			ok = r.n == s.cnt
		case "latestget":
			ok = r.n == s.lcnt
		case "seal":
			s = s.seal()
		case "number":
			ok = r.n == s.height-1
		case "pendingblock":
			ok = r.block == s.height && r.n == s.tx
		case "latestblock":
			ok = r.block == s.height-1
		case "changes":
			if r.list[0] == 0 {
				ok = s.seen == s.cnt
			} else {
				ok = r.list[0] == s.seen+1 && r.list[1] == s.cnt
			}
			s.seen = s.cnt
		case "logs":
			ok = r.n == s.cnt
		default:
			panic(p.kind)
		}
		return ok, s
	},
	DescribeOperation: func(i, o interface{}) string { return fmt.Sprintf("%+v -> %+v", i, o) },
}

func hexNum(s string) int64 {
	var v seth.Int
	if err := json.Unmarshal([]byte(s), &v); err != nil {
		return -1 << 40
	}
	return v.Int64()
}

func dataNum(b []byte) int64 { return new(big.Int).SetBytes(b).Int64() }

// look fills in what the chain says about a transaction.
func (o *out) look(t seth.Transport, hash string) {
	res, e := evmgen.RPC(t, "eth_getTransactionByHash", hash)
	var j struct {
		Nonce seth.Uint64 `json:"nonce"`
		Block seth.Uint64 `json:"blockNumber"`
		Index seth.Uint64 `json:"transactionIndex"`
	}
	if err := json.Unmarshal([]byte(res), &j); e != "" || err != nil {
		o.block = -1
		return
	}
	o.nonce, o.block, o.index = int64(j.Nonce), int64(j.Block), int64(j.Index)
}

type viaHTTP struct{ ch *tevm.Chain }

func (v *viaHTTP) Execute(req *seth.RPCRequest, res *seth.RPCResponse) error {
	buf, _ := json.Marshal(req)
	w := httptest.NewRecorder()
	v.ch.ServeHTTP(w, httptest.NewRequest("POST", "/", bytes.NewReader(buf)))
	return json.NewDecoder(w.Body).Decode(res)
}

// do executes an operation. later is what can be found out afterwards.
func (w *world) do(p in, rpc seth.Transport, filter string) (o out, later func(*out)) {
	tx := &evmgen.Tx{From: w.eoas[p.a], To: &w.k, Gas: 200000, Value: big.NewInt(p.v)}
	if strings.HasSuffix(p.kind, "transfer") || p.kind == "send" {
		tx.To = &w.eoas[p.b]
	}
	bal := func(blk string) int64 {
		res, e := evmgen.RPC(rpc, "eth_getBalance", fmt.Sprintf(`"%s"`, strings.ToLower(w.eoas[p.a].Hex())), blk)
		if e != "" {
			return -1
		}
		return hexNum(res)
	}
	get := func(blk string) int64 {
		tx.Input = []byte{1}
		res, e := evmgen.RPC(rpc, "eth_call", tx.CallArgs(), blk)
		var d seth.Data
		if json.Unmarshal([]byte(res), &d); e != "" {
			return -1
		}
		return dataNum(d)
	}
	block := func(arg string) {
		res, e := evmgen.RPC(rpc, "eth_getBlockByNumber", arg, "false")
		var b struct {
			Number       seth.Uint64       `json:"number"`
			Transactions []json.RawMessage `json:"transactions"`
		}
		if err := json.Unmarshal([]byte(res), &b); e != "" || err != nil {
			o.block = -1
			return
		}
		o.block, o.n = int64(b.Number), int64(len(b.Transactions))
	}
	switch p.kind {
	case "inc", "transfer":
		st := tx.SethTx()
		ret, h, err := w.ch.Mine(st)
		o.n, o.failed = dataNum(ret), err != nil
		o.nonce, o.block = int64(st.Nonce), int64(st.BlockNumber)
		if st.TxIndex == nil || st.Hash != h {
			o.block = -1
			return
		}
		o.index = int64(*st.TxIndex)
		later = func(q *out) {
			var c out
			c.look(rpc, `"`+h.String()+`"`)
			if c.nonce != q.nonce || c.block != q.block || c.index != q.index {
				q.block = -1
			}
		}
	case "rpcinc", "rpctransfer":
		res, e := evmgen.RPC(rpc, "eth_sendTransaction", tx.CallArgs())
		o.failed = e != ""
		o.noTx = e != ""
		if e == "" {
			later = func(q *out) { q.look(rpc, res) }
		}
	case "send":
		o.failed = w.ch.Send(evmgen.SA(tx.From), evmgen.SA(*tx.To), big.NewInt(p.v)) != nil
	case "add":
		w.ch.AddBalance(evmgen.SA(tx.From), big.NewInt(p.v))
	case "balance":
		o.n = w.ch.BalanceOf(evmgen.SA(tx.From)).Int64()
	case "rpcbalance":
		o.n = bal(`"pending"`)
	case "latestbalance":
		o.n = bal(`"latest"`)
	case "get":
		ret, err := w.ch.StaticCall(evmgen.SA(tx.From), evmgen.SA(w.k), "get()")
		o.n = dataNum(ret)
		if err != nil {
			o.n = -1
		}
	case "rpcget":
		o.n = get(`"pending"`)
	case "latestget":
		o.n = get(`"latest"`)
	case "seal":
		w.ch.Seal()
	case "number":
		res, _ := evmgen.RPC(rpc, "eth_blockNumber")
		o.n = hexNum(res)
	case "pendingblock":
		block(`"pending"`)
	case "latestblock":
		block(`"latest"`)
	case "changes", "logs":
		m := "eth_getFilterChanges"
		if p.kind == "logs" {
			m = "eth_getFilterLogs"
		}
		res, e := evmgen.RPC(rpc, m, filter)
		var ls []struct {
			Data seth.Data `json:"data"`
		}
		if err := json.Unmarshal([]byte(res), &ls); e != "" || err != nil {
			o.list[0], o.n = -1, -1
			return
		}
		o.n = int64(len(ls))
		for i, l := range ls {
			v := dataNum(l.Data)
			if i == 0 {
				o.list[0] = v
			} else if v != o.list[1]+1 {
				o.list[0], o.n = -1, -1
			}
			o.list[1] = v
		}
	default:
		panic(p.kind)
	}
	return
}

var kinds = []string{"inc", "rpcinc", "transfer", "rpctransfer", "send", "add", "balance", "rpcbalance", "latestbalance",
	"get", "rpcget", "latestget", "seal", "number", "pendingblock", "latestblock", "changes", "logs", "inc", "rpcinc", "transfer", "rpctransfer"}

// linear checks the histories of a few operations for linearizability.
func linear(c *vh.Case) {
	g := c.Rng
	ch := tevm.NewChain()
	if g.Intn(3) > 0 {
		ch.State.Trace = jitter(g.Int63())
	}
	w := newWorld(g, ch)
	res, e := evmgen.RPC(ch, "eth_newFilter", fmt.Sprintf(`{"fromBlock":"0x1","address":"%s"}`, strings.ToLower(w.k.Hex())))
	if e != "" {
		c.Fail("filter", "new filter: %s", e)
		return
	}
	fid := fmt.Sprintf(`"0x%x"`, hexNum(res))
	var rpc seth.Transport = ch
	if g.Intn(3) == 0 {
		rpc = &viaHTTP{ch}
	}
	clients := 2 + g.Intn(4)
	per := 2 + g.Intn(5)
	pool := kinds
	if g.Intn(2) == 0 {
		// a few kinds only
		pool = nil
		for i := 0; i < 3; i++ {
			pool = append(pool, kinds[g.Intn(len(kinds))])
		}
	}
	ops := make([][]porcupine.Operation, clients)
	laters := make([][]func(*out), clients)
	for i := range ops {
		laters[i] = make([]func(*out), per)
		for j := 0; j < per; j++ {
			p := in{kind: pool[g.Intn(len(pool))], a: g.Intn(3), b: g.Intn(3), v: int64(g.Intn(int(w.bal)))}
			if strings.HasSuffix(p.kind, "inc") {
				p.v = 0
			}
			ops[i] = append(ops[i], porcupine.Operation{ClientId: i, Input: p})
		}
	}
	var clock int64
	start := make(chan struct{})
	var wg sync.WaitGroup
	var panicked atomic.Value
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			for j := range ops[i] {
				op := &ops[i][j]
				op.Call = atomic.AddInt64(&clock, 1)
				var o out
				val, stack := vh.Panics(func() { o, laters[i][j] = w.do(op.Input.(in), rpc, fid) })
				op.Return = atomic.AddInt64(&clock, 1)
				op.Output = o
				if val != nil {
					panicked.Store(fmt.Sprintf("%+v: %v\n%s", op.Input, val, stack))
					return
				}
			}
		}(i)
	}
	close(start)
	wg.Wait()
	if p := panicked.Load(); p != nil {
		c.Fail("panic", "panic in %s", p)
		return
	}
	var all []porcupine.Operation
	overlap := 0
	for i := range ops {
		for j := range ops[i] {
			if f := laters[i][j]; f != nil {
				o := ops[i][j].Output.(out)
				f(&o)
				ops[i][j].Output = o
			}
			for k := range ops {
				if k != i {
					for _, q := range ops[k] {
						if q.Call < ops[i][j].Return && ops[i][j].Call < q.Return {
							overlap++
						}
					}
				}
			}
		}
		all = append(all, ops[i]...)
	}
	c.Eval(1)
	c.Count("operations", len(all))
	c.Count("overlapping_pairs", overlap/2)
	sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
	c.Cell(fmt.Sprintf("%+v", all))
	m := model
	m.Init = func() interface{} {
		var s state
		for i := range s.bal {
			s.bal[i] = w.bal
		}
		s.lbal = s.bal
		s.height = w.n0
		return s
	}
	switch porcupine.CheckOperationsTimeout(m, all, 10*time.Second) {
	case porcupine.Ok:
		c.Count("linearizable", 1)
	case porcupine.Unknown:
		c.Count("undecided", 1)
	case porcupine.Illegal:
		var s []string
		for _, o := range all {
			s = append(s, fmt.Sprintf("%d-%d client %d %+v -> %+v", o.Call, o.Return, o.ClientId, o.Input, o.Output))
		}
		c.Fail("linearizability", "no sequential order explains (balances start at %d, block %d is pending)\n%s", w.bal, w.n0, strings.Join(s, "\n"))
	}
	if c.Index < 1 {
		c.Sample("%d clients, %d operations, %d overlapping pairs: %+v", clients, len(all), overlap/2, all[0])
	}
}

// stress uses everything at once and looks at the result.
func stress(c *vh.Case) {
	g := c.Rng
	ch := tevm.NewChain()
	if g.Intn(2) == 0 {
		ch.State.Trace = jitter(g.Int63())
	}
	if g.Intn(3) == 0 {
		ch.Debugf = func(string, ...interface{}) { runtime.Gosched() }
	}
	w := newWorld(g, ch)
	for _, a := range w.eoas {
		ch.AddBalance(evmgen.SA(a), big.NewInt(1e6))
	}
	total := evmgen.Total(ch)
	var mu sync.Mutex
	var incs, seals, ether int64
	hashes := map[string]common.Address{}
	nonces := map[string]bool{}
	counts := map[int64]bool{}
	var problems []string
	bad := func(f string, a ...interface{}) {
		mu.Lock()
		problems = append(problems, fmt.Sprintf(f, a...))
		mu.Unlock()
	}
	tx := func(h string, from common.Address, nonce int64) {
		mu.Lock()
		defer mu.Unlock()
		if _, ok := hashes[h]; ok {
			problems = append(problems, "two transactions have the hash "+h)
		}
		hashes[h] = from
		k := fmt.Sprint(from.Hex(), nonce)
		if nonce >= 0 && nonces[k] {
			problems = append(problems, "a nonce was used twice: "+k)
		}
		nonces[k] = true
	}
	count := func(n int64) {
		mu.Lock()
		defer mu.Unlock()
		if counts[n] {
			problems = append(problems, fmt.Sprintf("the counter returned %d twice", n))
		}
		counts[n] = true
	}
	n := 3 + g.Intn(6)
	mix := g.Intn(1 << 30)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := 0; i < n; i++ {
		wg.Add(1)
		seed := g.Int63()
		go func() {
			defer wg.Done()
			g := rand.New(rand.NewSource(seed))
			<-start
			for k := 0; k < 40; k++ {
				op := g.Intn(20)
				if mix&(1<<uint(op)) != 0 && op > 4 {
					op = g.Intn(20)
				}
				val, stack := vh.Panics(func() { one(g, w, op, tx, count, &incs, &seals, &ether, bad) })
				if val != nil {
					bad("operation %d: panic %v\n%s", op, val, stack)
					return
				}
			}
		}()
	}
	close(start)
	wg.Wait()
	c.Eval(n * 40)
	c.Cell(n, mix)
	c.Count("stress_operations", n*40)
	c.Count("stress_transactions", len(hashes))
	if len(problems) > 0 {
		c.Fail("stress", "%s", strings.Join(problems, "\n"))
		return
	}
	ch.Seal()
	ret, err := ch.StaticCall(evmgen.SA(w.eoas[0]), evmgen.SA(w.k), "get()")
	if err != nil || dataNum(ret) != incs {
		c.Fail("lost", "the counter is %d (%v) after %d increments", dataNum(ret), err, incs)
		return
	}
	if now, want := evmgen.Total(ch), new(big.Int).Add(total, big.NewInt(ether)); now.Cmp(want) != 0 {
		c.Fail("lost", "there are %v wei, expected %v", now, want)
		return
	}
	if l := len(ch.Logs()); int64(l) != incs {
		c.Fail("lost", "%d logs of %d increments", l, incs)
		return
	}
	if got := int64(*ch.State.Pending.Number); got != w.n0+seals+1 {
		c.Fail("lost", "block %d is pending after %d seals from %d", got, seals+1, w.n0)
		return
	}
	// each transaction is in one block and has its receipt
	found := map[string]bool{}
	for b := w.n0; b < int64(*ch.State.Pending.Number); b++ {
		res, _ := evmgen.RPC(ch, "eth_getBlockByNumber", evmgen.BlockArg(b), "false")
		var j struct{ Transactions []string }
		json.Unmarshal([]byte(res), &j)
		for _, h := range j.Transactions {
			if found[h] {
				c.Fail("lost", "transaction %s is in two blocks", h)
				return
			}
			found[h] = true
		}
	}
	used := map[string]bool{}
	for h, from := range hashes {
		if !found[h] {
			c.Fail("lost", "transaction %s is in no block", h)
			return
		}
		rx, e := evmgen.RPC(ch, "eth_getTransactionReceipt", `"`+h+`"`)
		var j struct {
			Hash string `json:"transactionHash"`
		}
		json.Unmarshal([]byte(rx), &j)
		t, e2 := evmgen.RPC(ch, "eth_getTransactionByHash", `"`+h+`"`)
		var tj struct {
			From  common.Address
			Nonce seth.Uint64
		}
		json.Unmarshal([]byte(t), &tj)
		if e != "" || e2 != "" || j.Hash != h || tj.From != from {
			c.Fail("lost", "transaction %s of %s: %s %s, receipt %s %s", h, from.Hex(), t, e2, rx, e)
			return
		}
		k := fmt.Sprint(from.Hex(), tj.Nonce)
		if used[k] {
			c.Fail("nonce", "a nonce was used twice: %s", k)
			return
		}
		used[k] = true
	}
	var per = map[common.Address]int{}
	for _, from := range hashes {
		per[from]++
	}
	for from, n := range per {
		if got := ch.State.StateDB().GetNonce(from); int(got) < n {
			c.Fail("nonce", "%s has nonce %d after %d transactions", from.Hex(), got, n)
			return
		}
	}
}

func one(g *rand.Rand, w *world, op int, tx func(string, common.Address, int64), count func(int64), incs, seals, ether *int64, bad func(string, ...interface{})) {
	ch := w.ch
	a, b := w.eoas[g.Intn(3)], w.eoas[g.Intn(3)]
	t := &evmgen.Tx{From: a, To: &w.k, Gas: 200000, Value: new(big.Int)}
	switch op {
	case 0, 1:
		st := t.SethTx()
		ret, h, err := ch.Mine(st)
		if err != nil {
			bad("mine: %v", err)
			return
		}
		atomic.AddInt64(incs, 1)
		count(dataNum(ret))
		tx(h.String(), a, int64(st.Nonce))
	case 2, 3:
		res, e := evmgen.RPC(ch, "eth_sendTransaction", t.CallArgs())
		if e != "" {
			bad("eth_sendTransaction: %s", e)
			return
		}
		var h string
		json.Unmarshal([]byte(res), &h)
		atomic.AddInt64(incs, 1)
		atomic.AddInt64(seals, 1)
		tx(h, a, -1-g.Int63())
	case 4:
		ch.Seal()
		atomic.AddInt64(seals, 1)
	case 5:
		if err := ch.Send(evmgen.SA(a), evmgen.SA(b), big.NewInt(int64(g.Intn(5)))); err != nil {
			bad("send: %v", err)
		}
	case 6:
		ch.AddBalance(evmgen.SA(a), big.NewInt(3))
		atomic.AddInt64(ether, 3)
	case 7:
		ch.SubBalance(evmgen.SA(a), big.NewInt(1))
		atomic.AddInt64(ether, -1)
	case 8, 9:
		// a copy goes its own way
		cp := ch.Copy()
		for i := 0; i < 3; i++ {
			switch g.Intn(4) {
			case 0:
				cp.Mine(t.SethTx())
			case 1:
				cp.Seal()
			case 2:
				cp.Send(evmgen.SA(a), evmgen.SA(b), big.NewInt(1))
			case 3:
				evmgen.RPC(cp, "eth_sendTransaction", t.CallArgs())
			}
		}
		ret, err := cp.StaticCall(evmgen.SA(a), evmgen.SA(w.k), "get()")
		if err != nil || dataNum(ret) < 0 {
			bad("call on a copy: %v", err)
		}
	case 10:
		n := int64(-2)
		if g.Intn(2) == 0 {
			n = w.n0 - 1
		}
		v := ch.AtBlock(n)
		if v == nil {
			bad("no block %d", n)
			return
		}
		if v == ch {
			return
		}
		v.Mine(t.SethTx())
		v.Logs()
		v.Seal()
	case 11:
		if _, err := json.Marshal(ch); err != nil {
			bad("marshal: %v", err)
		}
	case 12:
		for _, l := range ch.Logs() {
			if dataNum(l.Data) <= 0 {
				bad("log %v", l)
			}
		}
	case 13:
		if _, err := ch.StaticCall(evmgen.SA(a), evmgen.SA(w.k), "get()"); err != nil {
			bad("static call: %v", err)
		}
		if _, err := ch.EstimateGas(evmgen.SA(a), evmgen.SA(w.k), "get()"); err != nil {
			bad("estimate: %v", err)
		}
	case 14:
		if _, e := evmgen.RPC(ch, "eth_estimateGas", t.CallArgs(), `"pending"`); e != "" {
			bad("eth_estimateGas: %s", e)
		}
		if ch.BalanceOf(evmgen.SA(a)).Sign() <= 0 {
			bad("balance")
		}
	case 15:
		ch.NewAccount(0)
	case 16:
		if _, err := ch.Create(evmgen.SA(a), evmgen.Wrap(counter)); err != nil {
			bad("create: %v", err)
		}
	case 17:
		var at common.Address
		g.Read(at[:])
		if err := ch.CreateAt(evmgen.SA(at), evmgen.SA(a), evmgen.Wrap(counter)); err != nil {
			bad("createat: %v", err)
		}
	case 18:
		res, e := evmgen.RPC(ch, "eth_newFilter", `{}`)
		if e != "" {
			bad("filter: %s", e)
			return
		}
		id := fmt.Sprintf(`"0x%x"`, hexNum(res))
		evmgen.RPC(ch, "eth_getFilterChanges", id)
		evmgen.RPC(ch, "eth_getFilterLogs", id)
		if r, e := evmgen.RPC(ch, "eth_uninstallFilter", id); e != "" || r != "true" {
			bad("uninstall: %s %s", r, e)
		}
	case 19:
		cl := ch.Client()
		if _, err := cl.BlockNumber(); err != nil {
			bad("client: %v", err)
		}
		if _, err := cl.Latest(true); err != nil {
			bad("latest: %v", err)
		}
		if _, err := cl.Pending(); err != nil {
			bad("pending: %v", err)
		}
	}
}

// filters polls one filter from several goroutines while there are new logs.
func filters(c *vh.Case) {
	g := c.Rng
	ch := tevm.NewChain()
	ch.State.Trace = jitter(g.Int63())
	w := newWorld(g, ch)
	res, _ := evmgen.RPC(ch, "eth_newFilter", `{}`)
	id := fmt.Sprintf(`"0x%x"`, hexNum(res))
	var wg sync.WaitGroup
	writers, n := 1+g.Intn(3), 10+g.Intn(20)
	var done int32
	for i := 0; i < writers; i++ {
		wg.Add(1)
		rpc := g.Intn(2) == 0
		go func() {
			defer wg.Done()
			for k := 0; k < n; k++ {
				t := &evmgen.Tx{From: w.eoas[0], To: &w.k, Gas: 200000, Value: new(big.Int)}
				if rpc {
					evmgen.RPC(ch, "eth_sendTransaction", t.CallArgs())
				} else {
					ch.Mine(t.SethTx())
				}
			}
		}()
	}
	var mu sync.Mutex
	seen := map[int64]int{}
	poll := func() {
		res, e := evmgen.RPC(ch, "eth_getFilterChanges", id)
		var ls []struct {
			Data seth.Data `json:"data"`
		}
		json.Unmarshal([]byte(res), &ls)
		mu.Lock()
		if e != "" {
			seen[-1]++
		}
		for _, l := range ls {
			seen[dataNum(l.Data)]++
		}
		mu.Unlock()
	}
	var pw sync.WaitGroup
	for i := 0; i < 3; i++ {
		pw.Add(1)
		go func() {
			defer pw.Done()
			for atomic.LoadInt32(&done) == 0 {
				poll()
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&done, 1)
	pw.Wait()
	poll()
	c.Eval(1)
	c.Cell("filters", writers, n)
	c.Count("filter_logs", writers*n)
	if len(seen) != writers*n {
		c.Fail("filters", "%d of %d logs were yielded", len(seen), writers*n)
		return
	}
	for v, k := range seen {
		if k != 1 || v < 1 || v > int64(writers*n) {
			c.Fail("filters", "log %d was yielded %d times", v, k)
			return
		}
	}
}

// panics makes requests panic because of a failing upstream while others go on.
func panics(c *vh.Case) {
	g := c.Rng
	u := evmgen.NewUpstream()
	u.Blocks[8] = map[common.Address]*evmgen.UpAccount{}
	var armed int32
	var turn uint32
	u.Fault = func(string) (string, error) {
		if atomic.LoadInt32(&armed) == 1 && atomic.AddUint32(&turn, 1)%3 == 0 {
			return "", evmgen.ErrUpstream
		}
		return "", nil
	}
	ch := tevm.NewFork(u.Client(), 8)
	w := newWorld(g, ch)
	atomic.StoreInt32(&armed, 1)
	n := 2 + g.Intn(4)
	var wg sync.WaitGroup
	var incs, caught int64
	for i := 0; i < n; i++ {
		wg.Add(1)
		seed := g.Int63()
		go func() {
			defer wg.Done()
			g := rand.New(rand.NewSource(seed))
			for k := 0; k < 15; k++ {
				var a common.Address
				g.Read(a[:])
				val, _ := vh.Panics(func() {
					switch g.Intn(5) {
					case 0:
						ch.BalanceOf(evmgen.SA(a))
					case 1:
						evmgen.RPC(ch, "eth_getBalance", fmt.Sprintf(`"%s"`, strings.ToLower(a.Hex())), `"pending"`)
					case 2:
						ch.AddBalance(evmgen.SA(a), big.NewInt(1))
					case 3:
						ch.StaticCall(evmgen.SA(a), evmgen.SA(a), "x()")
					case 4:
						if _, _, err := ch.Mine((&evmgen.Tx{From: w.eoas[g.Intn(3)], To: &w.k, Gas: 200000, Value: new(big.Int)}).SethTx()); err == nil {
							atomic.AddInt64(&incs, 1)
						}
					}
				})
				if val != nil {
					atomic.AddInt64(&caught, 1)
				}
			}
		}()
	}
	wg.Wait()
	atomic.StoreInt32(&armed, 0)
	c.Eval(n * 15)
	c.Count("upstream_failures", int(caught))
	c.Cell("panics", n, caught)
	ret, err := ch.StaticCall(evmgen.SA(w.eoas[0]), evmgen.SA(w.k), "get()")
	if err != nil || dataNum(ret) != incs {
		c.Fail("lost", "the counter is %d (%v) after %d increments and %d failing requests", dataNum(ret), err, incs, caught)
	}
}
