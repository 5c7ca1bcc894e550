// C24: sealed blocks are immutable, and read-only requests change nothing.
package c24

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C24", "exploration")
	r.Rule("distinct (kind of chain: original, view, copy, fork; operation; outcome; blocks recorded; age of the block asked about) of operations after which recorded answers were asked again")
	r.Assume("answers on a fork are compared with an upstream that does not change")
	r.Cases("history", r.Scale(450, 8000), 0, func(c *vh.Case) { history(c, false) })
	r.Cases("fork", r.Scale(120, 2000), 0, func(c *vh.Case) { history(c, true) })
	r.Cases("reads", r.Scale(400, 6000), 0, reads)
	r.Finish()
}

// node is a chain with the answers recorded about its sealed blocks.
type node struct {
	name string
	ch   *tevm.Chain
	rec  map[int64]map[string]string
	w    *evmgen.World
}

type run struct {
	c     *vh.Case
	fork  bool
	nodes []*node
	trace []string
	calls []*evmgen.Tx // constant calls that are asked at every block
	addrs []common.Address
}

func (x *run) fail(key, f string, a ...interface{}) {
	tr := x.trace
	if len(tr) > 80 {
		tr = tr[len(tr)-80:]
	}
	x.c.Fail(key, "%s\noperations:\n%s", fmt.Sprintf(f, a...), strings.Join(tr, "\n"))
}

// ask collects the answers about a sealed block.
func (x *run) ask(n *node, b int64) map[string]string {
	out := map[string]string{}
	evmgen.Answers(n.ch, b, out)
	for _, a := range x.addrs {
		v, err := evmgen.RPC(n.ch, "eth_getBalance", `"`+strings.ToLower(a.Hex())+`"`, evmgen.BlockArg(b))
		out["balance "+a.Hex()] = v + err
	}
	for i, tx := range x.calls {
		v, err := evmgen.RPC(n.ch, "eth_call", tx.CallArgs(), evmgen.BlockArg(b))
		out[fmt.Sprint("call ", i)] = v + " " + err
		v, err = evmgen.RPC(n.ch, "eth_estimateGas", tx.CallArgs(), evmgen.BlockArg(b))
		out[fmt.Sprint("estimate ", i)] = v + " " + err
	}
	if f, err := evmgen.RPC(n.ch, "eth_newFilter", fmt.Sprintf(`{"fromBlock":"0x%x","toBlock":"0x%x"}`, b, b)); err == "" {
		logs, err := evmgen.RPC(n.ch, "eth_getFilterLogs", f)
		out["logs of the block"] = logs + err
		evmgen.RPC(n.ch, "eth_uninstallFilter", f)
	} else {
		out["logs of the block"] = err
	}
	v := n.ch.AtBlock(b)
	if v == nil {
		out["view"] = "none"
		return out
	}
	out["view"] = fmt.Sprint(uint64(*v.State.Pending.Number))
	if x.fork {
		db := v.State.StateDB()
		for _, a := range x.addrs {
			out["account "+a.Hex()] = fmt.Sprintf("%d %d %x %x %x", db.GetBalance(a), db.GetNonce(a), db.GetCode(a), db.GetState(a, common.Hash{}), db.GetState(a, common.Hash{31: 2}))
		}
	} else {
		for k, s := range evmgen.State(v) {
			out["view "+k] = s
		}
	}
	l, _ := json.Marshal(v.Logs())
	out["view logs"] = string(l)
	return out
}

func (x *run) check(n *node, b int64) bool {
	x.c.Eval(1)
	got := x.ask(n, b)
	x.c.Count("blocks_asked_again", 1)
	x.c.Count("answers_compared", len(got))
	if d := evmgen.Diff(n.rec[b], got); d != "" {
		x.fail("sealed", "%s: answers about sealed block %d changed (first the recorded one):\n%s", n.name, b, d)
		return false
	}
	return true
}

func (x *run) record(n *node, b int64) {
	n.rec[b] = x.ask(n, b)
	x.c.Count("blocks_recorded", 1)
}

func newRun(c *vh.Case, fork bool) *run {
	g := c.Rng
	x := &run{c: c, fork: fork}
	var ch *tevm.Chain
	var up map[common.Address]*evmgen.UpAccount
	if fork {
		u := evmgen.NewUpstream()
		up = map[common.Address]*evmgen.UpAccount{}
		u.Blocks[41] = up
		ch = tevm.NewFork(u.Client(), 41)
	} else {
		ch = tevm.NewChain()
	}
	w := evmgen.NewWorld(g, ch)
	for i, a := range w.EOAs {
		if fork && i != 1 {
			up[a] = &evmgen.UpAccount{Balance: big.NewInt(int64(1000 + g.Intn(1000000))), Nonce: uint64(g.Intn(3))}
		}
	}
	if fork {
		for i := 0; i < 2; i++ {
			a := evmgen.Address(fmt.Sprint("up", g.Int63()))
			up[a] = &evmgen.UpAccount{Balance: big.NewInt(9), Nonce: 1, Code: w.Program(0), Storage: map[common.Hash]common.Hash{{}: {31: 7}}}
			w.Contracts = append(w.Contracts, a)
		}
	}
	n := &node{name: "original", ch: ch, rec: map[int64]map[string]string{}, w: w}
	x.nodes = append(x.nodes, n)
	return x
}

// step applies an operation to a node.
func (x *run) step(n *node, o *evmgen.Op) bool {
	num := int64(*n.ch.State.Pending.Number)
	x.trace = append(x.trace, n.name+": "+o.String())
	out := o.Apply(n.ch)
	if out.Panic != "" && o.Kind != "sub" {
		x.fail("panic", "%s", out.String())
		return false
	}
	x.trace[len(x.trace)-1] += " -> " + out.Err + out.Text
	n.w.Learn(o)
	x.c.Count("operations", 1)
	if now := int64(*n.ch.State.Pending.Number); now != num {
		if now != num+1 {
			x.fail("number", "the pending block went from %d to %d", num, now)
			return false
		}
		// new contracts are of interest from now on
		x.targets(n)
		x.record(n, num)
		n.w.Sealed = append(n.w.Sealed, num)
	}
	kind := strings.Fields(n.name)[0]
	x.c.Cell(kind, o.Kind, out.Err, len(n.rec), x.fork)
	return true
}

// targets fixes what is asked: once, when there are contracts.
func (x *run) targets(n *node) {
	if len(x.addrs) > 0 && len(x.calls) > 0 {
		return
	}
	x.addrs = append(append([]common.Address{}, n.w.EOAs...), n.w.Ghosts...)
	if len(n.w.Contracts) == 0 {
		return
	}
	for i, a := range n.w.Contracts {
		if i >= 4 {
			break
		}
		a := a
		x.addrs = append(x.addrs, a)
		in := make([]byte, 64)
		in[31] = byte(x.c.Rng.Intn(16))
		x.calls = append(x.calls, &evmgen.Tx{From: n.w.EOAs[0], To: &a, Gas: 300000, Value: new(big.Int), Input: in})
	}
	// a contract of our own that reads the context of the block
	init := (&evmgen.Asm{}).Op(evmgen.NUMBER).N(0).Op(evmgen.MSTORE, evmgen.TIMESTAMP).N(32).Op(evmgen.MSTORE, evmgen.COINBASE).N(64).Op(evmgen.MSTORE).N(96).N(0).Op(evmgen.RETURN).B
	x.calls = append(x.calls, &evmgen.Tx{From: n.w.EOAs[0], Gas: 300000, Value: new(big.Int), Input: init})
	// the answers so far were to fewer questions
	for _, m := range x.nodes {
		for b := range m.rec {
			m.rec[b] = x.ask(m, b)
		}
	}
}

// open opens a view of a sealed block, or copies the chain.
func (x *run) open(n *node) bool {
	g := x.c.Rng
	if len(x.nodes) > 5 {
		return true
	}
	m := &node{rec: map[int64]map[string]string{}}
	wc := *n.w
	m.w = &wc
	m.w.Sealed = nil
	if len(n.w.Sealed) == 0 || g.Intn(3) == 0 {
		m.name = fmt.Sprintf("copy %d of (%s)", len(x.nodes), n.name)
		x.trace = append(x.trace, m.name)
		m.ch = n.ch.Copy()
		for b, r := range n.rec {
			m.rec[b] = r
			m.w.Sealed = append(m.w.Sealed, b)
		}
	} else {
		b := n.w.Sealed[g.Intn(len(n.w.Sealed))]
		m.name = fmt.Sprintf("view %d of block %d of (%s)", len(x.nodes), b, n.name)
		x.trace = append(x.trace, m.name)
		m.ch = n.ch.AtBlock(b)
		if m.ch == nil {
			x.fail("view", "no view of block %d", b)
			return false
		}
		for o, r := range n.rec {
			if o < b {
				m.rec[o] = r
				m.w.Sealed = append(m.w.Sealed, o)
			}
		}
	}
	sortInts(m.w.Sealed)
	m.w.C = m.ch
	x.nodes = append(x.nodes, m)
	x.c.Count("views_and_copies", 1)
	return true
}

func sortInts(v []int64) {
	for i := range v {
		for j := i; j > 0 && v[j] < v[j-1]; j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

func history(c *vh.Case, fork bool) {
	g := c.Rng
	x := newRun(c, fork)
	root := x.nodes[0]
	for _, o := range root.w.Fund() {
		if !x.step(root, o) {
			return
		}
	}
	steps := 20 + g.Intn(25)
	for i := 0; i < steps; i++ {
		n := root
		if g.Intn(3) == 0 {
			n = x.nodes[g.Intn(len(x.nodes))]
		}
		switch y := g.Intn(12); {
		case y == 0 && i > 4:
			if !x.open(n) {
				return
			}
			n = x.nodes[len(x.nodes)-1]
		case y < 3:
			if !x.step(n, &evmgen.Op{Kind: "seal"}) {
				return
			}
		default:
			if !x.step(n, n.w.Next()) {
				return
			}
		}
		// ask one node about one block again
		m := x.nodes[g.Intn(len(x.nodes))]
		if len(m.w.Sealed) > 0 {
			b := m.w.Sealed[g.Intn(len(m.w.Sealed))]
			if m.rec[b] != nil && !x.check(m, b) {
				return
			}
		}
	}
	for _, m := range x.nodes {
		for _, b := range m.w.Sealed {
			if m.rec[b] != nil && !x.check(m, b) {
				return
			}
		}
	}
	if c.Index < 2 {
		c.Sample("%s", strings.Join(x.trace, "; "))
	}
}

// reads executes read-only requests, good and bad ones, and compares
// everything that can be seen of the chain before and after.
func reads(c *vh.Case) {
	g := c.Rng
	x := newRun(c, false)
	n := x.nodes[0]
	for _, o := range n.w.Fund() {
		if !x.step(n, o) {
			return
		}
	}
	n.w.NoRead = true
	steps := 5 + g.Intn(15)
	for i := 0; i < steps; i++ {
		if !x.step(n, n.w.Next()) {
			return
		}
	}
	first := n.w.First
	extra := map[string]string{}
	look := func() map[string]string {
		out := evmgen.Observe(n.ch, first)
		for k, v := range extra {
			out[k] = v
		}
		// pending transactions have no receipts yet, but have effects
		out["pending"] = fmt.Sprintf("gas used %d, %d transactions", n.ch.State.Pending.GasUsed, len(n.ch.State.Pending.Transactions))
		b, err := json.Marshal(n.ch.State.Pending)
		out["pending block"] = string(b) + fmt.Sprint(err)
		return out
	}
	before := look()
	if again := look(); evmgen.Diff(before, again) != "" {
		x.fail("queries", "queries changed the chain:\n%s", evmgen.Diff(before, again))
		return
	}
	for i := 0; i < 14; i++ {
		c.Eval(1)
		t := n.w.Tx(n.w.Balance)
		desc := ""
		var res string
		blk := []string{`"latest"`, `"pending"`, `"0x64"`, `"0x65"`, `"0x0"`, `"0xffffffffff"`, `"earliest"`, `"0x"`, `7`, `null`, `{}`}[g.Intn(11)]
		addr := strings.ToLower(n.w.Target().Hex())
		val, stack := vh.Panics(func() {
			switch y := g.Intn(13); {
			case y < 5:
				o := n.w.Read(t)
				desc = o.String()
				out := o.Apply(n.ch)
				res = out.String()
				if out.Panic != "" {
					panic(out.Panic + out.Stack)
				}
			case y < 6:
				desc = "eth_estimateGas " + blk
				a, b := evmgen.RPC(n.ch, "eth_estimateGas", t.CallArgs(), blk)
				res = a + b
			case y < 7:
				desc = "eth_call " + blk
				a, b := evmgen.RPC(n.ch, "eth_call", t.CallArgs(), blk)
				res = a + b
			case y < 8:
				desc = "eth_getBalance " + blk
				a, b := evmgen.RPC(n.ch, "eth_getBalance", `"`+addr+`"`, blk)
				res = a + b
			case y < 9:
				desc = "eth_getBlockByNumber " + blk
				a, b := evmgen.RPC(n.ch, "eth_getBlockByNumber", blk, fmt.Sprint(g.Intn(2) == 0))
				res = a + b
			case y < 10:
				m := []string{"eth_protocolVersion", "eth_syncing", "eth_gasPrice", "eth_blockNumber", "eth_mining", "web3_clientVersion", "eth_getTransactionReceipt", "eth_getTransactionByHash", "eth_getBlockByHash", "eth_getCode", "eth_getStorageAt", "eth_getTransactionCount"}[g.Intn(12)]
				desc = m
				var p []string
				for j := g.Intn(3); j > 0; j-- {
					p = append(p, []string{`"0x` + strings.Repeat("ab", 32) + `"`, `"` + addr + `"`, blk, "true"}[g.Intn(4)])
				}
				a, b := evmgen.RPC(n.ch, m, p...)
				res = a + b
			case y < 11:
				desc = "view"
				v := n.ch.AtBlock([]int64{-1, -2, n.w.First, n.w.First + 1, 5, 1 << 40}[g.Intn(6)])
				if v != nil && v != n.ch {
					v.BalanceOf(evmgen.SA(n.w.Target()))
					// reads on the view
					o := n.w.Read(t)
					desc += " " + o.String()
					o.Apply(v)
				}
			case y < 12:
				desc = "copy"
				v := n.ch.Copy()
				v.BalanceOf(evmgen.SA(n.w.Target()))
			default:
				desc = "marshal"
				json.Marshal(n.ch)
			}
		})
		x.trace = append(x.trace, "read: "+desc+" -> "+res)
		if val != nil {
			x.fail("panic", "%s: panic %v\n%s", desc, val, stack)
			return
		}
		c.Count("reads_checked", 1)
		c.Cell("read", strings.Fields(desc)[0], blk, strings.Contains(res, "err"), len(n.rec) > 1)
		after := look()
		if d := evmgen.Diff(before, after); d != "" {
			x.fail("reads", "%s changed the chain (first before it):\n%s", desc, d)
			return
		}
	}
}
