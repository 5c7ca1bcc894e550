// C28: a fork against a chain that holds the upstream's state itself.
package c28

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/vm"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C28", "exploration")
	r.Rule("distinct (operation, outcome, number of upstream requests, kind and position of the upstream failure) of operations compared with a chain that holds the state itself")
	r.Assume("the upstream's answers about one block do not change")
	r.Assume("what an upstream answers in the right form is taken as its state")
	r.CasesLimit("reads", r.Scale(600, 9000), 0, 60*time.Second, reads)
	r.CasesLimit("history", r.Scale(500, 8000), 0, 60*time.Second, func(c *vh.Case) { history(c, false) })
	r.CasesLimit("faults", r.Scale(500, 8000), 0, 60*time.Second, func(c *vh.Case) { history(c, true) })
	r.Finish()
}

type run struct {
	c     *vh.Case
	u     *evmgen.Upstream
	fork  *tevm.Chain
	local *tevm.Chain
	w     *evmgen.World
	addrs []common.Address
	slots []common.Hash
	trace []string

	failAt int // fail the request with this number; negative for never
	kind   int
	calls  int
	fired  string
}

func (x *run) fail(key, f string, a ...interface{}) {
	tr := x.trace
	if len(tr) > 60 {
		tr = tr[len(tr)-60:]
	}
	x.c.Fail(key, "%s\noperations:\n%s", fmt.Sprintf(f, a...), strings.Join(tr, "\n"))
}

func (x *run) note(f string, a ...interface{}) { x.trace = append(x.trace, fmt.Sprintf(f, a...)) }

// fault is what the upstream does instead of answering.
func (x *run) fault(method string) (string, error) {
	n := x.calls
	x.calls++
	if x.failAt < 0 || n != x.failAt {
		return "", nil
	}
	switch x.kind % 8 {
	case 0, 1:
		x.fired = "transport error"
		return "", evmgen.ErrUpstream
	case 2:
		x.fired = "error response"
		return "", &seth.RPCError{Code: -32000, Message: "missing trie node"}
	case 3:
		x.fired = "null"
		return "null", nil
	case 4:
		x.fired = "not hexadecimal"
		return `"0xzz"`, nil
	case 5:
		x.fired = "object"
		return `{}`, nil
	case 6:
		x.fired = "list"
		return `["0x1"]`, nil
	}
	if method == "eth_getStorageAt" {
		x.fired = "short hash"
		return `"0x12"`, nil
	}
	x.fired = "boolean"
	return `true`, nil
}

func account(c *vh.Case, x *run) *evmgen.UpAccount {
	g := c.Rng
	a := &evmgen.UpAccount{Balance: new(big.Int), Storage: map[common.Hash]common.Hash{}}
	switch g.Intn(5) {
	case 0:
	case 1:
		a.Balance = vh.Big(g, 255)
	default:
		a.Balance = big.NewInt(int64(g.Intn(1000000)))
	}
	switch g.Intn(4) {
	case 0:
	case 1:
		a.Nonce = uint64(g.Int63n(1 << 40))
	default:
		a.Nonce = uint64(g.Intn(4))
	}
	for i := g.Intn(4); i > 0; i-- {
		var v common.Hash
		switch g.Intn(3) {
		case 0:
			v[31] = byte(1 + g.Intn(255))
		case 1:
			v[0] = byte(1 + g.Intn(255))
		default:
			g.Read(v[:])
		}
		a.Storage[x.slots[g.Intn(len(x.slots))]] = v
	}
	return a
}

func newRun(c *vh.Case) *run {
	g := c.Rng
	x := &run{c: c, u: evmgen.NewUpstream(), failAt: -1}
	x.u.Fault = x.fault
	n := []int64{0, 1, 7, 100, 5000000}[g.Intn(5)]
	up := map[common.Address]*evmgen.UpAccount{}
	x.u.Blocks[n] = up
	x.fork = tevm.NewFork(x.u.Client(), n)
	x.local = tevm.NewChain()
	num := seth.Uint64(n + 1)
	hash := *x.fork.State.Pending.Hash
	x.local.State.Pending.Number, x.local.State.Pending.Hash = &num, &hash
	ts := seth.Uint64(1500000000 + g.Intn(1e8))
	for i := 0; i < 4; i++ {
		x.slots = append(x.slots, common.Hash{31: byte(i)})
	}
	var big common.Hash
	g.Read(big[:])
	x.slots = append(x.slots, big, common.Hash{0: 1, 31: 7}, common.Hash{31: 255})
	x.w = evmgen.NewWorld(g, x.local)
	if x.local.State.Pending.Timestamp < 1<<31 {
		x.local.State.Pending.Timestamp = ts
	}
	x.fork.State.Pending.Timestamp = x.local.State.Pending.Timestamp
	x.fork.State.Pending.Miner = x.local.State.Pending.Miner
	x.fork.State.Pending.Difficulty = x.local.State.Pending.Difficulty
	for i, a := range x.w.EOAs {
		if i == 1 && g.Intn(2) == 0 {
			continue // unknown upstream
		}
		up[a] = account(c, x)
	}
	if g.Intn(3) == 0 {
		up[x.w.Ghosts[g.Intn(len(x.w.Ghosts))]] = account(c, x)
	}
	for i := 2 + g.Intn(3); i > 0; i-- {
		a := evmgen.Address(fmt.Sprint("up", g.Int63()))
		up[a] = account(c, x)
		if g.Intn(6) > 0 {
			x.w.Contracts = append(x.w.Contracts, a)
		}
	}
	for _, a := range x.w.Contracts {
		up[a].Code = x.w.Program(0)
		if g.Intn(6) == 0 {
			up[a].Code = nil
		}
		if g.Intn(2) == 0 {
			up[a].Nonce = 1
		}
	}
	// other blocks of the upstream have another state
	other := map[common.Address]*evmgen.UpAccount{}
	for a := range up {
		other[a] = &evmgen.UpAccount{Balance: vh.Big(g, 100), Nonce: 77, Code: []byte{0xfe}}
	}
	for _, b := range []int64{0, n - 1, n + 1, n + 2, n + 20} {
		if _, ok := x.u.Blocks[b]; !ok && b >= 0 {
			x.u.Blocks[b] = other
		}
	}
	// the same state without an upstream
	db := x.local.State.StateDB()
	for a, acc := range up {
		if acc.Balance.Sign() == 0 && acc.Nonce == 0 && len(acc.Code) == 0 {
			// does not exist
			for k, v := range acc.Storage {
				db.SetState(a, k, v)
			}
			continue
		}
		db.CreateAccount(a)
		db.AddBalance(a, acc.Balance)
		db.SetNonce(a, acc.Nonce)
		if len(acc.Code) > 0 {
			db.SetCode(a, acc.Code)
		}
		for k, v := range acc.Storage {
			db.SetState(a, k, v)
		}
	}
	seen := map[common.Address]bool{}
	add := func(a common.Address) {
		if !seen[a] {
			seen[a] = true
			x.addrs = append(x.addrs, a)
		}
	}
	for _, l := range [][]common.Address{x.w.EOAs, x.w.Ghosts, x.w.Contracts} {
		for _, a := range l {
			add(a)
		}
	}
	for _, a := range append(append([]common.Address{}, x.w.EOAs...), x.w.Contracts...) {
		for i := 0; i < 4; i++ {
			add(crypto.CreateAddress(a, uint64(i)))
		}
		if u := up[a]; u != nil {
			add(crypto.CreateAddress(a, u.Nonce))
			add(crypto.CreateAddress(a, u.Nonce+1))
		}
	}
	return x
}

// ask describes an account.
func (x *run) ask(ch *tevm.Chain, a common.Address, out map[string]string, pre string) {
	db := ch.State.StateDB()
	k := pre + a.Hex()
	out[k] = fmt.Sprintf("balance %d nonce %d code %x size %d empty %v exists %v destroyed %v",
		db.GetBalance(a), db.GetNonce(a), db.GetCode(a), db.GetCodeSize(a), db.Empty(a), db.Exist(a) && !db.Empty(a), db.HasSuicided(a))
	for _, s := range x.slots {
		if v := db.GetState(a, s); v != (common.Hash{}) {
			out[k+" slot "+s.Hex()] = v.Hex()
		}
	}
}

// look describes a chain, except for what only the upstream could tell.
func (x *run) look(ch *tevm.Chain, all bool) map[string]string {
	out := evmgen.Blocks(ch, x.w.First)
	l, _ := json.Marshal(ch.Logs())
	out["logs"] = string(l)
	p, _ := json.Marshal(ch.State.Pending)
	out["pending"] = string(p)
	if !all {
		return out
	}
	for _, a := range x.addrs {
		x.ask(ch, a, out, "")
		if x.c.Rng.Intn(8) == 0 && ch == x.fork {
			res, e := evmgen.RPC(ch, "eth_getBalance", `"`+strings.ToLower(a.Hex())+`"`, `"pending"`)
			var v seth.Int
			json.Unmarshal([]byte(res), &v)
			if want := x.local.State.StateDB().GetBalance(a); e != "" || v.Big().Cmp(want) != 0 {
				out["eth_getBalance "+a.Hex()] = res + e + " expected " + want.String()
			}
		}
	}
	for _, b := range x.w.Sealed {
		v := ch.AtBlock(b)
		if v == nil || v == ch {
			out[fmt.Sprintf("view %d", b)] = fmt.Sprint(v != nil)
			continue
		}
		for i, a := range x.addrs {
			if i < 6 || i%4 == int(b)%4 {
				x.ask(v, a, out, fmt.Sprintf("view %d ", b))
			}
		}
	}
	return out
}

func (x *run) compare(all bool) bool {
	x.failAt = -1
	var f map[string]string
	val, stack := vh.Panics(func() { f = x.look(x.fork, all) })
	if val != nil {
		x.fail("panic", "looking at the fork: panic %v\n%s", val, stack)
		return false
	}
	x.c.Count("comparisons", 1)
	x.c.Eval(1)
	if d := evmgen.Diff(x.look(x.local, all), f); d != "" {
		x.fail("precedence", "the fork differs from a chain that holds the state (the chain first):\n%s", d)
		return false
	}
	if len(x.u.Bad) > 0 {
		x.fail("request", "request to the upstream: %s", x.u.Bad[0])
		return false
	}
	return true
}

// both executes an operation on both chains, with failures of the upstream
// before it succeeds.
func (x *run) both(o *evmgen.Op, faults bool) bool {
	c, g := x.c, x.c.Rng
	x.note("%s", o.String())
	fired := 0
	if faults && g.Intn(3) > 0 {
		step := 1 + g.Intn(3)
		for k := g.Intn(3); k < 40; k += step {
			x.failAt, x.calls, x.fired, x.kind = k, 0, "", g.Intn(8)
			var before map[string]string
			deep := g.Intn(6) == 0
			if deep {
				x.failAt = -1
				before = x.look(x.fork, true)
				x.failAt, x.calls = k, 0
			} else {
				before = x.look(x.fork, false)
			}
			out := o.Apply(x.fork)
			x.failAt = -1
			if x.fired == "" {
				// it was not reached: this was the operation
				return x.same(o, out, fired)
			}
			fired++
			x.note("failure at request %d (%s): err %q panic %q", k, x.fired, out.Err, out.Panic)
			c.Count("upstream_failures", 1)
			c.Seen("failures", fmt.Sprint(o.Kind, " ", x.fired, " ", k))
			c.Cell(o.Kind, x.fired, k, out.Panic != "", out.Err != "")
			c.Eval(1)
			if out.Panic == "" && out.Err == "" {
				x.fail("swallowed", "%s succeeded although the upstream failed (%s): %s", o.String(), x.fired, out.String())
				return false
			}
			var after map[string]string
			val, stack := vh.Panics(func() { after = x.look(x.fork, deep) })
			if val != nil {
				x.fail("panic", "after a failure of the upstream: panic %v\n%s", val, stack)
				return false
			}
			if d := evmgen.Diff(before, after); d != "" {
				x.fail("fault", "%s failed because of the upstream (%s) and had an effect:\n%s", o.String(), x.fired, d)
				return false
			}
		}
	}
	x.failAt, x.calls, x.fired = -1, 0, ""
	return x.same(o, o.Apply(x.fork), fired)
}

func (x *run) same(o *evmgen.Op, out evmgen.Out, fired int) bool {
	c := x.c
	want := o.Apply(x.local)
	ts := x.local.State.Pending.Timestamp
	x.fork.State.Pending.Timestamp = ts
	c.Eval(1)
	c.Count("operations", 1)
	c.Cell(o.Kind, out.Err, x.calls, fired)
	if want.Panic != "" && out.Panic != "" {
		return true
	}
	if out.String() != want.String() || out.Hash != want.Hash {
		x.fail("operation", "%s on the fork:\n%s\non a chain that holds the state:\n%s", o.String(), out.String(), want.String())
		return false
	}
	x.w.Learn(o)
	if o.Kind == "rpcsend" && out.Err == "" {
		x.w.Sealed = append(x.w.Sealed, int64(*x.local.State.Pending.Number)-1)
	}
	if out.Addr != (common.Address{}) {
		x.addrs = append(x.addrs, out.Addr)
	}
	return true
}

// poke changes the state of both chains directly, through the state database,
// without reading anything first, and takes some of it back.
func (x *run) poke() bool {
	g := x.c.Rng
	type write func(db vm.StateDB)
	var script []write
	depth := 0
	var text []string
	for i := 1 + g.Intn(6); i > 0; i-- {
		a := x.addrs[g.Intn(len(x.addrs))]
		slot := x.slots[g.Intn(len(x.slots))]
		switch k := g.Intn(9); k {
		case 0, 1, 2:
			var v common.Hash
			if g.Intn(2) == 0 {
				v[31] = byte(g.Intn(256))
			}
			text = append(text, fmt.Sprintf("SetState(%s,%s,%s)", a.Hex(), slot.Hex(), v.Hex()))
			script = append(script, func(db vm.StateDB) { db.SetState(a, slot, v) })
		case 3:
			n := uint64(g.Intn(100))
			text = append(text, fmt.Sprintf("SetNonce(%s,%d)", a.Hex(), n))
			script = append(script, func(db vm.StateDB) { db.SetNonce(a, n) })
		case 4:
			n := big.NewInt(int64(g.Intn(1000)))
			text = append(text, fmt.Sprintf("AddBalance(%s,%d)", a.Hex(), n))
			script = append(script, func(db vm.StateDB) { db.AddBalance(a, n) })
		case 5:
			var code []byte
			if g.Intn(2) == 0 {
				code = []byte{0x60, byte(g.Intn(256)), 0x50, 0}
			}
			text = append(text, fmt.Sprintf("SetCode(%s,%x)", a.Hex(), code))
			// only accounts that exist get code
			script = append(script, func(db vm.StateDB) { db.SetNonce(a, 1); db.SetCode(a, code) })
		default:
			depth++
			text = append(text, "Snapshot")
			script = append(script, nil)
		}
	}
	undo := depth > 0 && g.Intn(2) == 0
	text = append(text, fmt.Sprint("revert ", undo))
	x.note("state: %s", strings.Join(text, " "))
	x.failAt = -1
	for _, ch := range []*tevm.Chain{x.local, x.fork} {
		db := ch.State.StateDB()
		first := -1
		val, stack := vh.Panics(func() {
			for _, w := range script {
				if w != nil {
					w(db)
				} else if s := db.Snapshot(); first < 0 {
					first = s
				}
			}
			if undo {
				db.RevertToSnapshot(first)
			}
		})
		if val != nil {
			x.fail("panic", "changing the state: panic %v\n%s", val, stack)
			return false
		}
	}
	x.c.Count("direct_changes", len(script))
	return true
}

func history(c *vh.Case, faults bool) {
	g := c.Rng
	x := newRun(c)
	steps := 6 + g.Intn(20)
	for i := 0; i < steps; i++ {
		if !x.both(x.w.Next(), faults) {
			return
		}
		if g.Intn(3) == 0 && !x.poke() {
			return
		}
		all := i == steps-1 || g.Intn(10) == 0
		if (all || g.Intn(3) == 0) && !x.compare(all) {
			return
		}
		if g.Intn(12) == 0 {
			x.note("copy")
			// a copy is a fork, too
			x.fork, x.local = x.fork.Copy(), x.local.Copy()
			x.w.C = x.local
		}
	}
	if c.Index < 2 {
		c.Sample("%s", strings.Join(x.trace, "; "))
	}
}

// reads asks about accounts that were not touched, one request at a time.
func reads(c *vh.Case) {
	g := c.Rng
	x := newRun(c)
	n := x.fork.State.Fallback.Block
	up := x.u.Blocks[n]
	for i := 0; i < 40; i++ {
		a := x.addrs[g.Intn(len(x.addrs))]
		acc := up[a]
		if acc == nil {
			acc = &evmgen.UpAccount{Balance: new(big.Int)}
		}
		db := x.fork.State.StateDB()
		slot := x.slots[g.Intn(len(x.slots))]
		kind := g.Intn(7)
		read := func() (string, string) {
			switch kind {
			case 0:
				return db.GetBalance(a).String(), acc.Balance.String()
			case 1:
				return fmt.Sprint(db.GetNonce(a)), fmt.Sprint(acc.Nonce)
			case 2:
				return fmt.Sprintf("%x", db.GetCode(a)), fmt.Sprintf("%x", acc.Code)
			case 3:
				return db.GetState(a, slot).Hex(), acc.Storage[slot].Hex()
			case 4:
				return x.fork.BalanceOf(evmgen.SA(a)).String(), acc.Balance.String()
			case 5:
				res, e := evmgen.RPC(x.fork, "eth_getBalance", `"`+strings.ToLower(a.Hex())+`"`, []string{`"latest"`, `"pending"`}[g.Intn(2)])
				return res + e, fmt.Sprintf(`"0x%x"`, acc.Balance)
			default:
				empty := acc.Balance.Sign() == 0 && acc.Nonce == 0 && len(acc.Code) == 0
				return fmt.Sprint(db.Exist(a), db.Empty(a)), fmt.Sprint(!empty, empty)
			}
		}
		x.failAt, x.calls, x.fired, x.kind = -1, 0, "", g.Intn(8)
		if g.Intn(3) == 0 {
			x.failAt = g.Intn(3)
		}
		var got, want string
		val, stack := vh.Panics(func() { got, want = read() })
		failed := x.fired
		x.failAt = -1
		c.Eval(1)
		c.Count("reads", 1)
		c.Cell("read", kind, failed, x.calls, n, acc.Nonce > 0, acc.Balance.Sign(), len(acc.Code) > 0)
		x.note("read %d of %s: %s (%s)", kind, a.Hex(), got, failed)
		if failed != "" {
			c.Count("upstream_failures", 1)
			if val == nil && got == want {
				// an answer that needs nothing of the failing request
				x.fail("swallowed", "read %d of %s succeeded although the upstream failed (%s)", kind, a.Hex(), failed)
				return
			}
			if val == nil && kind != 5 {
				x.fail("swallowed", "read %d of %s gave %s although the upstream failed (%s)", kind, a.Hex(), got, failed)
				return
			}
			if kind == 5 && val == nil && strings.HasPrefix(got, `"0x`) {
				x.fail("swallowed", "eth_getBalance of %s gave %s although the upstream failed (%s)", a.Hex(), got, failed)
				return
			}
			// and again
			val, stack = vh.Panics(func() { got, want = read() })
		}
		if val != nil {
			x.fail("panic", "read %d of %s: panic %v\n%s", kind, a.Hex(), val, stack)
			return
		}
		if got != want {
			x.fail("read", "read %d of %s at block %d gave %s, the upstream has %s (a request before failed: %s)", kind, a.Hex(), n, got, want, failed)
			return
		}
	}
	if len(x.u.Bad) > 0 {
		x.fail("request", "request to the upstream: %s", x.u.Bad[0])
		return
	}
	// what was cached does not change what the chain is
	x.compare(true)
}
