// C22: executions over the simulated chain against go-ethereum's own state.
package c22

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/core/types"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C22", "exploration")
	r.Rule("distinct (operation, outcome, kinds of statements in the programs so far, number of logs and of accounts) of operations compared with the reference")
	r.Assume("the reference is go-ethereum v1.9.2's core/state under the same EVM; block context and block hashes are those the chain names")
	r.Assume("a scenario ends with the transaction that destroys a contract: what remains of destroyed contracts is a known finding with a case of its own")
	r.Cases("scenario", r.Scale(4000, 40000), 0, scenario)
	r.Cases("statedb", r.Scale(1500, 15000), 0, statedb)
	r.Cases("deep", r.Scale(6, 60), 4, deep)
	r.Cases("destroyed", 4, 0, destroyed)
	r.Finish()
}

type sim struct {
	c     *vh.Case
	ch    *tevm.Chain
	ref   *evmgen.Ref
	w     *evmgen.World
	trace []string
	logs  []*types.Log // of the reference
	views map[int64]*view
}

// view is the reference as of a sealed block.
type view struct {
	ref evmgen.Ref
	ctx *evmgen.Block
}

func (s *sim) fail(key, f string, a ...interface{}) {
	var b strings.Builder
	for addr, code := range codes(s.ch) {
		fmt.Fprintf(&b, "\ncode of %s: %x", addr.Hex(), code)
	}
	for i, e := range s.w.EOAs {
		fmt.Fprintf(&b, "\naccount %d: %s", i, e.Hex())
	}
	s.c.Fail(key, "%s\noperations:\n%s%s", fmt.Sprintf(f, a...), strings.Join(s.trace, "\n"), b.String())
}

func codes(ch *tevm.Chain) map[common.Address][]byte {
	out := map[common.Address][]byte{}
	ch.State.Code.Iterate(func(k, v []byte) bool {
		if len(v) > 0 {
			out[common.BytesToAddress(k)] = v
		}
		return true
	})
	return out
}

func newSim(c *vh.Case) *sim {
	s := &sim{c: c, ch: tevm.NewChain(), ref: evmgen.NewRef(), views: map[int64]*view{}}
	s.w = evmgen.NewWorld(c.Rng, s.ch)
	return s
}

func logText(addr []byte, topics [][]byte, data []byte, block uint64) string {
	s := fmt.Sprintf("%x block %d data %x topics", addr, block, data)
	for _, t := range topics {
		s += fmt.Sprintf(" %x", t)
	}
	return s
}

func refLogs(l []*types.Log) (out []string) {
	for _, x := range l {
		var tt [][]byte
		for i := range x.Topics {
			tt = append(tt, x.Topics[i][:])
		}
		out = append(out, logText(x.Address[:], tt, x.Data, x.BlockNumber))
	}
	return
}

func chainLogs(l []seth.Log) (out []string) {
	for i := range l {
		x := &l[i]
		var tt [][]byte
		for _, t := range x.Topics {
			tt = append(tt, t)
		}
		out = append(out, logText(x.Address[:], tt, x.Data, uint64(*x.BlockNumber)))
	}
	return
}

// step executes one operation on both sides; it returns false when the
// scenario ends.
func (s *sim) step(o *evmgen.Op) bool {
	s.trace = append(s.trace, o.String())
	ctx := evmgen.Context(s.ch)
	db := s.ref.State
	nonce := uint64(0)
	if o.Tx != nil {
		nonce = db.GetNonce(o.Tx.From)
	}
	out := o.Apply(s.ch)
	s.c.Eval(1)
	if out.Panic != "" {
		s.fail("panic", "%s", out.String())
		return false
	}
	s.trace[len(s.trace)-1] += " -> " + out.String()
	s.c.Count("op_"+o.Kind, 1)
	if out.Err != "" {
		s.c.Count("failed_ops", 1)
		s.c.Seen("errors", out.Err)
	}

	read := false
	var want evmgen.Out
	switch o.Kind {
	case "seal":
	case "staticcall", "estimate":
		read = true
		want = s.ref.ApplyOp(ctx, o)
	case "ethcall", "ethestimate":
		read = true
		ref, bctx := s.ref, ctx
		n := o.N
		if n == -2 {
			n = int64(ctx.Number) - 1
		}
		if v := s.views[n]; v != nil {
			ref, bctx = &v.ref, v.ctx
		}
		want = ref.ApplyOp(bctx, o)
	case "balance":
		read = true
		ref := s.ref
		n := o.N
		if n == -2 {
			n = int64(ctx.Number) - 1
		}
		if v := s.views[n]; v != nil {
			ref = &v.ref
		}
		want.Text = fmt.Sprintf(`"0x%x"`, ref.State.GetBalance(o.Addr))
	default:
		want = s.ref.ApplyOp(ctx, o)
	}
	if want.Err != out.Err {
		s.fail("error", "%s: error %q, want %q", o.Kind, out.Err, want.Err)
		return false
	}
	if o.Kind != "rpcsend" {
		if !bytes.Equal(want.Ret, out.Ret) {
			s.fail("return-data", "%s: returned %x, want %x", o.Kind, out.Ret, want.Ret)
			return false
		}
		if want.Gas != out.Gas {
			s.fail("gas", "%s: gas %d, want %d", o.Kind, out.Gas, want.Gas)
			return false
		}
		if want.Text != out.Text {
			s.fail("answer", "%s: result %s, want %s", o.Kind, out.Text, want.Text)
			return false
		}
	}
	if o.Kind == "create" && want.Addr != out.Addr {
		s.fail("address", "create: address %s, want %s", out.Addr.Hex(), want.Addr.Hex())
		return false
	}
	s.c.Cell(o.Kind, out.Err, len(out.Ret) > 0, s.kinds(), len(s.logs) > 3, len(s.w.Contracts))
	if read {
		s.c.Count("reads_compared", 1)
		return true
	}

	// logs
	sealed := o.Kind == "seal" || o.Kind == "rpcsend" && out.Err == ""
	if o.Kind != "seal" {
		s.logs = append(s.logs, s.ref.TxLogs()...)
		wl, gl := refLogs(s.logs), chainLogs(s.ch.Logs())
		if strings.Join(wl, "\n") != strings.Join(gl, "\n") {
			s.fail("logs", "logs:\n%s\nwant:\n%s", strings.Join(gl, "\n"), strings.Join(wl, "\n"))
			return false
		}
		// the reference address of the receipt
		if (o.Kind == "rpcsend" || o.Kind == "mine") && o.Tx.To == nil && want.Err == "" {
			if a := crypto.CreateAddress(o.Tx.From, nonce); a != want.Addr {
				s.c.HarnessError("reference created %s, not %s", want.Addr.Hex(), a.Hex())
			}
		}
	}
	if o.Kind == "rpcsend" && out.Err == "" {
		var h string
		json.Unmarshal([]byte(out.Text), &h)
		rx, e := evmgen.RPC(s.ch, "eth_getTransactionReceipt", `"`+h+`"`)
		var rcpt seth.Receipt
		if e != "" || json.Unmarshal([]byte(rx), &rcpt) != nil {
			s.fail("receipt", "no receipt: %s", e)
			return false
		}
		if uint64(rcpt.GasUsed) != want.Gas {
			s.fail("gas", "receipt: gas %d, want %d", rcpt.GasUsed, want.Gas)
			return false
		}
		if o.Tx.To == nil && (rcpt.Address == nil || common.Address(*rcpt.Address) != want.Addr) {
			s.fail("address", "receipt: address %v, want %s", rcpt.Address, want.Addr.Hex())
			return false
		}
		gl, wl := chainLogs(rcpt.Logs), refLogs(s.ref.TxLogs())
		if strings.Join(gl, "\n") != strings.Join(wl, "\n") {
			s.fail("logs", "logs of the receipt:\n%s\nwant:\n%s", strings.Join(gl, "\n"), strings.Join(wl, "\n"))
			return false
		}
	}
	var dead map[common.Address]bool
	if o.Kind != "seal" {
		dead = s.destroyed()
		s.ref.Finish()
	}
	if !s.compare(dead) {
		return false
	}
	if sealed {
		s.views[int64(ctx.Number)] = &view{ref: *s.ref, ctx: ctx}
		v := s.views[int64(ctx.Number)]
		v.ref.State = s.ref.State.Copy()
	}
	s.w.Learn(o)
	if sealed && o.Kind != "seal" {
		s.w.Sealed = append(s.w.Sealed, int64(ctx.Number))
	}
	if len(dead) > 0 {
		s.c.Count("destructions", 1)
		return false
	}
	return true
}

func (s *sim) kinds() string {
	var k []string
	for x := range s.w.Kinds {
		k = append(k, x)
	}
	sort.Strings(k)
	return strings.Join(k, ",")
}

// destroyed lists the accounts that the current transaction destroyed.
func (s *sim) destroyed() map[common.Address]bool {
	out := map[common.Address]bool{}
	for a := range evmgen.Accounts(s.ch) {
		if s.ref.State.HasSuicided(a) {
			out[a] = true
		}
	}
	return out
}

// compare compares the whole state with that of the reference.
func (s *sim) compare(dead map[common.Address]bool) bool {
	db := s.ch.State.StateDB()
	dump := s.ref.Dump()
	all := map[common.Address]bool{}
	for a := range evmgen.Accounts(s.ch) {
		all[a] = true
	}
	for a := range codes(s.ch) {
		all[a] = true
	}
	for a := range dump {
		all[a] = true
	}
	slots := 0
	for a := range all {
		if dead[a] {
			if b := db.GetBalance(a); b.Sign() != 0 && s.ref.State.GetBalance(a).Sign() != 0 {
				s.fail("destroyed-balance", "%s was destroyed and has balance %d", a.Hex(), b)
				return false
			}
			continue
		}
		w := dump[a]
		if w.Balance == "" {
			w.Balance = "0"
		}
		if g := db.GetBalance(a); g.String() != w.Balance {
			s.fail("balance", "balance of %s is %d, want %s", a.Hex(), g, w.Balance)
			return false
		}
		if g := db.GetNonce(a); g != w.Nonce {
			s.fail("nonce", "nonce of %s is %d, want %d", a.Hex(), g, w.Nonce)
			return false
		}
		if g := hex.EncodeToString(db.GetCode(a)); g != w.Code {
			s.fail("code", "code of %s is %s, want %s", a.Hex(), g, w.Code)
			return false
		}
		if g := db.GetCodeSize(a); g != len(w.Code)/2 {
			s.fail("code", "code size of %s is %d, want %d", a.Hex(), g, len(w.Code)/2)
			return false
		}
		s.c.Count("accounts_compared", 1)
		for k := range w.Storage {
			slots++
			want := s.ref.State.GetState(a, k)
			if g := db.GetState(a, k); g != want {
				s.fail("storage", "storage of %s at %s is %s, want %s", a.Hex(), k.Hex(), g.Hex(), want.Hex())
				return false
			}
			s.c.Count("slots_compared", 1)
		}
	}
	if len(dead) == 0 {
		n := 0
		s.ch.State.Storage.Iterate(func(k, v []byte) bool {
			for _, x := range v {
				if x != 0 {
					n++
					break
				}
			}
			return true
		})
		if n != slots {
			s.fail("storage", "%d slots are not zero, want %d", n, slots)
			return false
		}
	}
	return true
}

func scenario(c *vh.Case) {
	s := newSim(c)
	for _, o := range s.w.Fund() {
		if !s.step(o) {
			return
		}
	}
	n := 6 + c.Rng.Intn(14)
	for i := 0; i < n; i++ {
		if !s.step(s.w.Next()) {
			break
		}
	}
	for k, v := range s.w.Kinds {
		c.Count("stmt_"+k, v)
	}
	if !c.Failed() && c.Index < 3 {
		c.Sample("%s", strings.Join(s.trace, "; "))
	}
}

// deep recurses to the limit of the call depth.
func deep(c *vh.Case) {
	g := c.Rng
	s := newSim(c)
	for _, o := range s.w.Fund() {
		if !s.step(o) {
			return
		}
	}
	a := &evmgen.Asm{}
	// count the calls in slot 0, then call oneself, then count the errors in slot 1
	if g.Intn(2) == 0 {
		a.N(0).Op(evmgen.SLOAD).N(1).Op(evmgen.ADD).N(0).Op(evmgen.SSTORE)
	} else {
		a.N(0).Op(evmgen.MLOAD).N(1).Op(evmgen.ADD).N(0).Op(evmgen.MSTORE)
	}
	a.N(32).N(0).N(0).N(0)
	op := []byte{evmgen.CALL, evmgen.CALLCODE, evmgen.DELEGATECALL}[g.Intn(3)]
	if op != evmgen.DELEGATECALL {
		a.N(int64(g.Intn(2)))
	}
	a.Op(evmgen.ADDRESS, evmgen.GAS, op)
	a.Op(evmgen.ISZERO).N(1).Op(evmgen.SLOAD, evmgen.ADD).N(1).Op(evmgen.SSTORE)
	switch g.Intn(3) {
	case 0:
		a.Op(evmgen.STOP)
	case 1:
		a.N(0).N(0).Op(evmgen.REVERT)
	default:
		a.N(32).N(0).Op(evmgen.RETURN)
	}
	from := s.w.EOAs[0]
	if !s.step(&evmgen.Op{Kind: "mine", Tx: &evmgen.Tx{From: from, Gas: 1000000, Value: big.NewInt(50), Input: evmgen.Wrap(a.B)}}) {
		return
	}
	if len(s.w.Contracts) == 0 {
		c.HarnessError("no contract to recurse in")
		return
	}
	to := s.w.Contracts[0]
	for _, gas := range []uint64{100000, 5000000, 1 << 33, 1 << 42} {
		if !s.step(&evmgen.Op{Kind: "mine", Tx: &evmgen.Tx{From: from, To: &to, Gas: gas, Value: new(big.Int)}}) {
			return
		}
		if n := s.ref.State.GetState(to, common.Hash{}).Big().Uint64(); n > 1024 {
			c.Count("recursions_to_the_depth_limit", 1)
		}
	}
}

// statedb executes operations on the state itself, with nested snapshots.
func statedb(c *vh.Case) {
	g := c.Rng
	s := newSim(c)
	s.w.NoDestroy = g.Intn(2) == 0
	var addrs []common.Address
	addrs = append(addrs, s.w.EOAs...)
	addrs = append(addrs, s.w.Ghosts...)
	slots := []common.Hash{{}, {31: 1}, {31: 2}, {0: 1}}
	vals := []common.Hash{{}, {}, {31: 1}, {0: 0xff}, {31: 2}}
	touched := map[common.Address]bool{}
	say := func(f string, a ...interface{}) { s.trace = append(s.trace, fmt.Sprintf(f, a...)) }
	ntx := 1 + g.Intn(4)
	for tx := 0; tx < ntx; tx++ {
		a, b := s.ch.State.StateDB(), s.ref.State
		s.ref.Begin()
		say("begin")
		logs0 := len(s.logs)
		if n := len(s.ch.Logs()); n != logs0 {
			s.fail("logs", "%d logs, want %d", n, logs0)
			return
		}
		var snaps [][2]int
		var refund []uint64
		r0 := a.GetRefund() // never reset by the chain
		n := 10 + g.Intn(60)
		for i := 0; i < n; i++ {
			addr := addrs[g.Intn(len(addrs))]
			slot, val := slots[g.Intn(len(slots))], vals[g.Intn(len(vals))]
			c.Eval(1)
			x := g.Intn(24)
			c.Cell("statedb", x, len(snaps), b.Exist(addr), b.HasSuicided(addr))
			switch {
			case x < 2:
				v := big.NewInt(int64(1 + g.Intn(100)))
				say("add %s %d", addr.Hex(), v)
				a.AddBalance(addr, v)
				b.AddBalance(addr, v)
			case x < 3:
				v := new(big.Int).Rsh(b.GetBalance(addr), uint(g.Intn(3)))
				if v.Sign() == 0 {
					continue
				}
				say("sub %s %d", addr.Hex(), v)
				a.SubBalance(addr, v)
				b.SubBalance(addr, v)
			case x < 4:
				nn := uint64(1 + g.Intn(5))
				say("nonce %s %d", addr.Hex(), nn)
				a.SetNonce(addr, nn)
				b.SetNonce(addr, nn)
			case x < 5:
				code := vh.Bytes(g, g.Intn(4))
				say("code %s %x", addr.Hex(), code)
				if !b.Exist(addr) {
					continue // code comes with an account
				}
				a.SetCode(addr, code)
				b.SetCode(addr, code)
			case x < 9:
				if !b.Exist(addr) {
					continue
				}
				say("store %s %s %s", addr.Hex(), slot.Hex(), val.Hex())
				a.SetState(addr, slot, val)
				b.SetState(addr, slot, val)
				touched[addr] = true
			case x < 10:
				if touched[addr] || b.GetCodeSize(addr) != 0 || b.GetNonce(addr) != 0 || b.HasSuicided(addr) {
					continue // contracts are created at addresses without one
				}
				say("create %s", addr.Hex())
				a.CreateAccount(addr)
				b.CreateAccount(addr)
			case x < 11:
				if s.w.NoDestroy || b.Empty(addr) {
					continue // contracts destroy themselves
				}
				say("destroy %s", addr.Hex())
				ga, gb := a.Suicide(addr), b.Suicide(addr)
				if ga != gb && !b.HasSuicided(addr) {
					s.fail("suicide", "Suicide returned %v, want %v", ga, gb)
					return
				}
			case x < 12:
				v := uint64(g.Intn(100))
				say("refund %d", v)
				a.AddRefund(v)
				b.AddRefund(v)
			case x < 13:
				if b.GetRefund() > 0 {
					v := uint64(g.Intn(int(b.GetRefund())))
					say("unrefund %d", v)
					a.SubRefund(v)
					b.SubRefund(v)
				}
			case x < 15:
				l := func() *types.Log {
					return &types.Log{Address: addr, Topics: []common.Hash{val}, Data: slot[:], BlockNumber: uint64(*s.ch.State.Pending.Number)}
				}
				say("log %s", addr.Hex())
				a.AddLog(l())
				b.AddLog(l())
			case x < 18:
				snaps = append(snaps, [2]int{a.Snapshot(), b.Snapshot()})
				refund = append(refund, b.GetRefund())
				say("snapshot %d", len(snaps))
				c.Count("snapshots", 1)
			case x < 20:
				if len(snaps) == 0 {
					continue
				}
				k := g.Intn(len(snaps))
				if g.Intn(2) == 0 {
					k = len(snaps) - 1
				}
				say("revert to %d", k+1)
				a.RevertToSnapshot(snaps[k][0])
				b.RevertToSnapshot(snaps[k][1])
				snaps = snaps[:k]
				c.Count("reverts", 1)
			}
			// observe one address and slot
			addr, slot = addrs[g.Intn(len(addrs))], slots[g.Intn(len(slots))]
			obs := func(q string, x, y interface{}) bool {
				c.Eval(1)
				if fmt.Sprint(x) != fmt.Sprint(y) {
					s.fail("statedb-"+q, "%s of %s is %v, want %v", q, addr.Hex(), x, y)
					return false
				}
				return true
			}
			if !obs("balance", a.GetBalance(addr), b.GetBalance(addr)) || !obs("nonce", a.GetNonce(addr), b.GetNonce(addr)) ||
				!obs("code", hex.EncodeToString(a.GetCode(addr)), hex.EncodeToString(b.GetCode(addr))) ||
				!obs("codesize", a.GetCodeSize(addr), b.GetCodeSize(addr)) ||
				!obs("state", a.GetState(addr, slot).Hex(), b.GetState(addr, slot).Hex()) ||
				!obs("empty", a.Empty(addr), b.Empty(addr)) ||
				!obs("destroyed", a.HasSuicided(addr), b.HasSuicided(addr)) ||
				!obs("exist", a.Exist(addr) || b.Empty(addr), b.Exist(addr) || b.Empty(addr)) ||
				!obs("refund", a.GetRefund()-r0, b.GetRefund()) ||
				!obs("logs", len(s.ch.Logs())-logs0, len(s.ref.TxLogs())) {
				return
			}
			if !b.Empty(addr) && !obs("codehash", a.GetCodeHash(addr).Hex(), b.GetCodeHash(addr).Hex()) {
				return
			}
		}
		s.logs = append(s.logs, s.ref.TxLogs()...)
		dead := s.destroyed()
		s.ref.Finish()
		// storage of accounts that are gone because they are empty
		for _, x := range addrs {
			if !s.ref.State.Exist(x) && touched[x] {
				dead[x] = true
			}
		}
		if !s.compare(dead) || len(dead) > 0 {
			return
		}
		if g.Intn(3) == 0 {
			s.ch.Seal()
			say("seal")
		}
	}
}

// destroyed looks at what remains of a contract that destroyed itself.
func destroyed(c *vh.Case) {
	s := newSim(c)
	s.w.NoDestroy = false
	for _, o := range s.w.Fund() {
		if !s.step(o) {
			return
		}
	}
	a := &evmgen.Asm{}
	a.N(5).N(1).Op(evmgen.SSTORE)
	a.N(0).Op(evmgen.CALLDATALOAD)
	// destroy if there is call data
	body := (&evmgen.Asm{}).Op(evmgen.CALLER, evmgen.SELFDESTRUCT).B
	a.Op(evmgen.ISZERO)
	a.Op(0x60, byte(len(body)+3), evmgen.PC, evmgen.ADD, evmgen.JUMPI)
	a.Op(body...)
	a.Op(evmgen.JUMPDEST, evmgen.STOP)
	from := s.w.EOAs[0]
	if !s.step(&evmgen.Op{Kind: "mine", Tx: &evmgen.Tx{From: from, Gas: 1000000, Value: big.NewInt(50), Input: evmgen.Wrap(a.B)}}) {
		return
	}
	if len(s.w.Contracts) == 0 {
		c.HarnessError("no contract to destroy")
		return
	}
	to := s.w.Contracts[0]
	s.step(&evmgen.Op{Kind: "mine", Tx: &evmgen.Tx{From: from, To: &to, Gas: 1000000, Value: new(big.Int)}})
	in := make([]byte, 32)
	in[31] = 1
	s.step(&evmgen.Op{Kind: "mine", Tx: &evmgen.Tx{From: from, To: &to, Gas: 1000000, Value: new(big.Int), Input: in}})
	if c.Failed() {
		return
	}
	if s.ref.State.Exist(to) {
		c.HarnessError("the reference keeps the destroyed contract")
	}
	db := s.ch.State.StateDB()
	switch c.Index % 4 {
	case 0:
		if n := db.GetCodeSize(to); n != 0 {
			s.fail("destroyed-code", "a destroyed contract has %d bytes of code after its transaction", n)
		}
	case 1:
		if n := db.GetNonce(to); n != 0 {
			s.fail("destroyed-nonce", "a destroyed contract has nonce %d after its transaction", n)
		}
	case 2:
		if v := db.GetState(to, common.Hash{31: 1}); v != (common.Hash{}) {
			s.fail("destroyed-storage", "a destroyed contract has storage %s after its transaction", v.Hex())
		}
	case 3:
		// its ether went to the caller
		if b := db.GetBalance(to); b.Sign() != 0 {
			s.fail("destroyed-balance", "a destroyed contract has balance %d", b)
		}
		if g, w := db.GetBalance(from), s.ref.State.GetBalance(from); g.Cmp(w) != 0 {
			s.fail("balance", "balance of the heir is %d, want %d", g, w)
		}
	}
}
