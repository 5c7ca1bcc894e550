// C40: the verdicts of the ERC-20 compliance test, on tokens assembled to
// comply or to break one rule that its scenario exercises.
package c40

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/big"
	"math/rand"
	"runtime/debug"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
	"github.com/philhofer/seth/tevm/erc20"

	"vharness/ethsim"
	"vharness/ref"
	"vharness/vh"
)

var root *testing.T

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	root = t
	r := vh.Start("C40", "exploration")
	r.Rule("a case is one token and its verdict; distinct by the rule that the token breaks, the stage at which it does, and the variant of the token")
	r.Assume("rules that the scenario does not exercise (amounts in events, allowances left over, what happens with other accounts) are not judged")
	r.Cases("token", r.Scale(3000, 60000), 0, token)
	r.Cases("abi", r.Scale(2000, 30000), 0, abi)
	r.Finish()
}

// verdict runs a test function; it tells if it failed, and what it panicked
// with.
func verdict(name string, f func(t *testing.T)) (failed bool, pan interface{}, stack string) {
	root.Run(name, func(t *testing.T) {
		defer func() {
			if pan = recover(); pan != nil {
				stack = string(debug.Stack())
			}
			failed = t.Failed()
		}()
		f(t)
	})
	return
}

// asm is an assembler with labels.
type asm struct {
	b      []byte
	labels map[string]int
	refs   map[int]string
	n      int
}

func (a *asm) op(b ...byte) *asm { a.b = append(a.b, b...); return a }

func (a *asm) push(v interface{}) *asm {
	var b []byte
	switch v := v.(type) {
	case int:
		b = big.NewInt(int64(v)).Bytes()
	case *big.Int:
		b = v.Bytes()
	case []byte:
		b = v
	}
	if len(b) == 0 {
		b = []byte{0}
	}
	return a.op(0x5f + byte(len(b))).op(b...)
}

func (a *asm) ref(l string) *asm {
	a.op(0x61)
	a.refs[len(a.b)] = l
	return a.op(0, 0)
}

func (a *asm) label(l string) *asm {
	a.labels[l] = len(a.b)
	return a.op(0x5b)
}

func (a *asm) fresh() string { a.n++; return fmt.Sprint("l", a.n) }

func (a *asm) done() []byte {
	for p, l := range a.refs {
		d, ok := a.labels[l]
		if !ok {
			panic("no label " + l)
		}
		a.b[p], a.b[p+1] = byte(d>>8), byte(d)
	}
	return a.b
}

const (
	add, sub, div, lt, eq, iszero, and = 0x01, 0x03, 0x04, 0x10, 0x14, 0x15, 0x16
	sha3, caller, load, mload, mstore  = 0x20, 0x33, 0x35, 0x51, 0x52
	sload, sstore, jump, jumpi, pop    = 0x54, 0x55, 0x56, 0x57, 0x50
	dup1, dup2, swap1, ret, revert     = 0x80, 0x81, 0x90, 0xf3, 0xfd
)

// places in memory
const (
	mFrom, mTo, mAmt, mSpender = 0x80, 0xa0, 0xc0, 0xe0
)

var stages = []string{"mint", "transfer", "approve", "excess", "transferFrom", "burn"}

// tok describes a token.
type tok struct {
	hashed   bool // balances are at hashed slots
	throws   bool // failures revert
	emitLate bool
	event    map[string]string // stage to kind of event
	result   map[string]string // stage to kind of result
	credit   map[string]*big.Int
	debit    map[string]*big.Int
	supply   map[string]*big.Int
	noAllow  bool // allowances are not checked
	noRecord bool // approvals are not recorded
	reverts  string
	logger   common.Address
	initial  *big.Int
	owner    *common.Address
	// the creator's balance
	rich *big.Int
}

var supplySlot = new(big.Int).Lsh(big.NewInt(1), 200)

func (k *tok) slot(a *asm) { // address on the stack becomes the slot
	if k.hashed {
		a.push(0).op(mstore).push(7).push(32).op(mstore).push(64).push(0).op(sha3)
	}
}

func (k *tok) allowance(a *asm, owner, spender int) {
	a.push(owner).op(mload).push(0).op(mstore).push(spender).op(mload).push(32).op(mstore).push(64).push(0).op(sha3)
}

func topic(s string) []byte { return ref.Keccak([]byte(s), 32) }

// emit logs an event about two of the places in memory.
func (k *tok) emit(a *asm, sig string, x, y int, kind string) {
	word := func(p int) {
		if p < 0 {
			a.push(0)
			return
		}
		a.push(p).op(mload)
	}
	t := topic(sig)
	a.push(mAmt).op(mload).push(0).op(mstore)
	switch kind {
	case "", "double":
		word(y)
		word(x)
		a.push(t).push(32).push(0).op(0xa3)
		if kind == "double" {
			k.emit(a, sig, x, y, "")
		}
	case "none":
	case "topic":
		word(y)
		word(x)
		t[31] ^= 1
		a.push(t).push(32).push(0).op(0xa3)
	case "other-event":
		word(y)
		word(x)
		o := "Transfer(address,address,uint256)"
		if sig == o {
			o = "Approval(address,address,uint256)"
		}
		a.push(topic(o)).push(32).push(0).op(0xa3)
	case "from":
		word(y)
		word(x)
		a.push(1).op(add).push(t).push(32).push(0).op(0xa3)
	case "to":
		word(y)
		a.push(1).op(add)
		word(x)
		a.push(t).push(32).push(0).op(0xa3)
	case "swapped":
		word(x)
		word(y)
		a.push(t).push(32).push(0).op(0xa3)
	case "unindexed":
		word(x)
		a.push(0).op(mstore)
		word(y)
		a.push(32).op(mstore).push(t).push(64).push(0).op(0xa1)
	case "half-indexed":
		word(x)
		a.push(t).push(32).push(0).op(0xa2)
	case "anonymous":
		a.push(32).push(0).op(0xa0)
	case "foreign": // another contract logs it
		a.push(32).op(mstore) // keep the stack: nothing there
	}
}

// foreign has the logger emit the event.
func (k *tok) foreign(a *asm, sig string, x, y int) {
	a.push(topic(sig)).push(0).op(mstore)
	for i, p := range []int{x, y, mAmt} {
		if p < 0 {
			a.push(0)
		} else {
			a.push(p).op(mload)
		}
		a.push(32 * (i + 1)).op(mstore)
	}
	a.push(0).push(0).push(128).push(0).push(0).push(k.logger[:]).op(0x62, 0, 0x80, 0, 0xf1, pop)
}

func (k *tok) log(a *asm, sig string, x, y int, kind string) {
	if kind == "foreign" {
		k.foreign(a, sig, x, y)
		return
	}
	k.emit(a, sig, x, y, kind)
}

// loggerCode logs what it is given: three topics and a word.
var loggerCode = []byte{0x60, 0x60, 0x35, 0x60, 0, 0x52, 0x60, 0x40, 0x35, 0x60, 0x20, 0x35, 0x60, 0, 0x35, 0x60, 0x20, 0x60, 0, 0xa3, 0}

// change adds d to what is at the slot on the stack.
func change(a *asm, amt *big.Int, neg bool) {
	// slot
	a.op(dup1, sload)
	// slot value
	a.push(mAmt).op(mload)
	if amt != nil { // a different amount
		if amt.Sign() < 0 {
			a.push(new(big.Int).Neg(amt)).op(swap1, sub)
		} else {
			a.push(amt).op(add)
		}
	}
	if neg {
		a.op(swap1, sub)
	} else {
		a.op(add)
	}
	a.op(swap1, sstore)
}

func (k *tok) answer(a *asm, kind string) {
	switch kind {
	case "":
		a.push(1).push(0).op(mstore).push(32).push(0).op(ret)
	case "false":
		a.push(0).push(0).op(mstore).push(32).push(0).op(ret)
	case "empty":
		a.push(0).push(0).op(ret)
	case "revert":
		a.push(0).push(0).op(revert)
	}
}

// refuse ends a call that fails, if the word on the stack is not zero.
func (k *tok) refuse(a *asm) {
	ok := a.fresh()
	a.op(iszero).ref(ok).op(jumpi)
	k.fail(a)
	a.label(ok)
}

func (k *tok) fail(a *asm) {
	if k.throws {
		a.push(0).push(0).op(revert)
	} else {
		k.answer(a, "false")
	}
}

func arg(a *asm, i, place int) {
	a.push(4 + 32*i).op(load).push(place).op(mstore)
}

func who(a *asm, place int) { a.op(caller).push(place).op(mstore) }

const (
	sigTransfer = "Transfer(address,address,uint256)"
	sigApproval = "Approval(address,address,uint256)"
)

// short: [from] has less than the amount
func (k *tok) short(a *asm) {
	a.push(mAmt).op(mload)
	a.push(mFrom).op(mload)
	k.slot(a)
	a.op(sload, lt)
}

func (k *tok) debitFrom(a *asm, st string) {
	d := k.debit[st]
	if d != nil && d.Sign() == 0 {
		return
	}
	a.push(mFrom).op(mload)
	k.slot(a)
	change(a, d, true)
}

func (k *tok) creditTo(a *asm, st string) {
	d := k.credit[st]
	if d != nil && d.Sign() == 0 {
		return
	}
	a.push(mTo).op(mload)
	k.slot(a)
	change(a, d, false)
}

// runtime assembles the token.
func (k *tok) runtime() []byte {
	a := &asm{labels: map[string]int{}, refs: map[int]string{}}
	a.push(0).op(load).push(new(big.Int).Lsh(big.NewInt(1), 224)).op(swap1, div)
	entry := func(sig string) {
		a.op(dup1).push(ethsim.Selector(sig)).op(eq).ref(sig).op(jumpi)
	}
	sigs := []string{"transfer(address,uint256)", "approve(address,uint256)", "transferFrom(address,address,uint256)", "allowance(address,address)", "balanceOf(address)", "totalSupply()", "mint(address,uint256)", "burn(uint256)"}
	for _, s := range sigs {
		entry(s)
	}
	a.push(0).push(0).op(revert)
	start := func(sig string) bool {
		a.label(sig)
		if strings.HasPrefix(sig, k.reverts+"(") {
			a.push(0).push(0).op(revert)
			return false
		}
		return true
	}
	if start("totalSupply()") {
		a.push(supplySlot).op(sload).push(0).op(mstore).push(32).push(0).op(ret)
	}
	if start("balanceOf(address)") {
		a.push(4).op(load)
		k.slot(a)
		a.op(sload).push(0).op(mstore).push(32).push(0).op(ret)
	}
	if start("allowance(address,address)") {
		arg(a, 0, mFrom)
		arg(a, 1, mTo)
		k.allowance(a, mFrom, mTo)
		a.op(sload).push(0).op(mstore).push(32).push(0).op(ret)
	}
	if start("mint(address,uint256)") {
		arg(a, 0, mTo)
		arg(a, 1, mAmt)
		if k.owner != nil {
			a.op(caller).push(k.owner[:]).op(eq, iszero)
			ok := a.fresh()
			a.op(iszero).ref(ok).op(jumpi).push(0).push(0).op(revert).label(ok)
		}
		k.creditTo(a, "mint")
		a.push(supplySlot)
		change(a, k.supply["mint"], false)
		k.log(a, sigTransfer, -1, mTo, k.event["mint"])
		k.answer(a, k.result["mint"])
	}
	if start("transfer(address,uint256)") {
		who(a, mFrom)
		arg(a, 0, mTo)
		arg(a, 1, mAmt)
		k.short(a)
		k.refuse(a)
		k.debitFrom(a, "transfer")
		k.creditTo(a, "transfer")
		k.log(a, sigTransfer, mFrom, mTo, k.event["transfer"])
		k.answer(a, k.result["transfer"])
	}
	if start("approve(address,uint256)") {
		who(a, mFrom)
		arg(a, 0, mTo)
		arg(a, 1, mAmt)
		if !k.noRecord {
			a.push(mAmt).op(mload)
			k.allowance(a, mFrom, mTo)
			a.op(sstore)
		}
		k.log(a, sigApproval, mFrom, mTo, k.event["approve"])
		k.answer(a, k.result["approve"])
	}
	if start("transferFrom(address,address,uint256)") {
		arg(a, 0, mFrom)
		arg(a, 1, mTo)
		arg(a, 2, mAmt)
		who(a, mSpender)
		k.short(a)
		k.refuse(a)
		if k.emitLate { // what is undone by the failure
			if k.throws {
				k.log(a, sigTransfer, mFrom, mTo, "")
			}
		}
		if !k.noAllow {
			// allowance < amount
			a.push(mAmt).op(mload)
			k.allowance(a, mFrom, mSpender)
			a.op(sload, lt)
			ok := a.fresh()
			a.op(iszero).ref(ok).op(jumpi)
			switch k.result["excess"] {
			case "silent": // moves it, and says that it did not
				k.debitFrom(a, "")
				k.creditTo(a, "")
				k.answer(a, "false")
			case "event":
				k.log(a, sigTransfer, mFrom, mTo, "")
				k.answer(a, "false")
			case "true": // does nothing, and says that it did
				k.answer(a, "")
			default:
				k.fail(a)
			}
			a.label(ok)
			k.allowance(a, mFrom, mSpender)
			change(a, nil, true)
		}
		k.debitFrom(a, "transferFrom")
		k.creditTo(a, "transferFrom")
		if !(k.emitLate && k.throws) {
			k.log(a, sigTransfer, mFrom, mTo, k.event["transferFrom"])
		}
		k.answer(a, k.result["transferFrom"])
	}
	if start("burn(uint256)") {
		who(a, mFrom)
		arg(a, 0, mAmt)
		k.short(a)
		k.refuse(a)
		k.debitFrom(a, "burn")
		if d := k.supply["burn"]; d == nil || d.Sign() != 0 {
			a.push(supplySlot)
			change(a, d, true)
		}
		k.log(a, sigTransfer, mFrom, -1, k.event["burn"])
		k.answer(a, k.result["burn"])
	}
	return a.done()
}

// initcode sets the initial supply and returns the runtime.
func (k *tok) initcode() []byte {
	rt := k.runtime()
	a := &asm{labels: map[string]int{}, refs: map[int]string{}}
	a.push(k.initial).push(supplySlot).op(sstore)
	a.push(k.initial).op(caller)
	k.slot(a)
	a.op(sstore)
	n := len(rt)
	// PUSH2 n PUSH2 off PUSH1 0 CODECOPY PUSH2 n PUSH1 0 RETURN
	off := len(a.b) + 3 + 3 + 2 + 1 + 3 + 2 + 1
	a.op(0x61, byte(n>>8), byte(n), 0x61, byte(off>>8), byte(off), 0x60, 0, 0x39, 0x61, byte(n>>8), byte(n), 0x60, 0, 0xf3)
	return append(a.b, rt...)
}

func wrap(code []byte) []byte {
	n := byte(len(code))
	return append([]byte{0x60, n, 0x60, 12, 0x60, 0, 0x39, 0x60, n, 0x60, 0, 0xf3}, code...)
}

var evKinds = []string{"none", "topic", "other-event", "from", "to", "swapped", "unindexed", "half-indexed", "anonymous", "foreign", "double"}

func token(c *vh.Case) {
	g := c.Rng
	ch := tevm.NewChain()
	k := &tok{hashed: g.Intn(2) == 0, throws: g.Intn(2) == 0, emitLate: g.Intn(4) == 0,
		event: map[string]string{}, result: map[string]string{}, credit: map[string]*big.Int{}, debit: map[string]*big.Int{}, supply: map[string]*big.Int{},
		initial: vh.Big(g, 100), reverts: "-"}
	deployer := ch.NewAccount(1)
	owner := deployer
	burn := g.Intn(3) > 0
	owned := g.Intn(3)
	if owned == 2 {
		k.owner = (*common.Address)(&owner)
	}
	lg, err := ch.Create(&deployer, wrap(loggerCode))
	if err != nil {
		c.HarnessError("%v", err)
		return
	}
	k.logger = common.Address(lg)
	// the rule that is broken
	rule, stage := "none", "-"
	judged := true
	mintErr := 0
	delta := func() *big.Int {
		// amounts differ by little, or by what 64 bits do not show
		switch g.Intn(4) {
		case 0:
			return new(big.Int).Lsh(big.NewInt(1), uint(64+g.Intn(30)))
		case 1:
			return big.NewInt(int64(1 + g.Intn(50)))
		}
		return big.NewInt(-int64(1 + g.Intn(50)))
	}
	if g.Intn(3) > 0 {
		switch g.Intn(10) {
		case 0, 1, 2:
			stage = []string{"mint", "transfer", "approve", "transferFrom", "burn"}[g.Intn(5)]
			rule = "event-" + evKinds[g.Intn(len(evKinds))]
			k.event[stage] = strings.TrimPrefix(rule, "event-")
			judged = stage != "burn" || burn
			if stage == "transferFrom" {
				k.emitLate = false
			}
		case 3:
			stage = []string{"transfer", "approve", "transferFrom"}[g.Intn(3)]
			rule = "result-" + []string{"false", "empty", "revert"}[g.Intn(3)]
			k.result[stage] = strings.TrimPrefix(rule, "result-")
		case 4:
			stage = []string{"mint", "transfer", "transferFrom"}[g.Intn(3)]
			rule = "credit"
			d := delta()
			if g.Intn(3) == 0 {
				d = new(big.Int)
			}
			k.credit[stage] = d
			// the scenario looks at the receiver's balance after a transfer,
			// and after the transferFrom only when it burns it
			judged = stage != "transferFrom" || burn
		case 5:
			stage = []string{"transfer", "transferFrom", "burn"}[g.Intn(3)]
			rule = "debit"
			d := delta()
			if g.Intn(2) == 0 {
				d = new(big.Int)
			}
			k.debit[stage] = d
			judged = stage != "burn" || burn
		case 6:
			stage = "excess"
			rule = []string{"silent", "event", "true", "no-check"}[g.Intn(4)]
			k.emitLate = false
			if rule == "no-check" {
				k.noAllow = true
			} else {
				k.result["excess"] = rule
			}
		case 7:
			stage = "burn"
			rule = "supply"
			d := delta()
			switch g.Intn(5) {
			case 0, 1:
				d = new(big.Int)
			case 2: // it grows by what is burnt
				d = big.NewInt(-400)
			}
			k.supply["burn"] = d
			judged = burn
		case 8:
			rule = "reverts"
			stage = []string{"mint", "transfer", "approve", "transferFrom", "balanceOf", "burn", "totalSupply"}[g.Intn(7)]
			k.reverts = stage
			judged = burn || stage != "burn" && stage != "totalSupply"
		case 9:
			switch g.Intn(3) {
			case 0:
				rule, stage = "not-recorded", "approve"
				k.noRecord = true
			case 1:
				rule, stage = "error-done", "mint"
				mintErr = 1
			case 2:
				rule, stage = "error-not-done", "mint"
				mintErr = 2
			}
		}
	}
	broken := rule != "none" && judged
	var addr seth.Address
	how := g.Intn(3)
	switch how {
	case 0:
		addr, err = ch.Create(&deployer, k.initcode())
	case 1:
		addr = seth.Address(common.BytesToAddress(vh.Bytes(g, 20)))
		err = ch.CreateAt(&addr, &deployer, k.initcode())
	case 2:
		tx := &seth.Transaction{From: &deployer, Gas: 5000000, Input: k.initcode()}
		var h seth.Hash
		if _, h, err = ch.Mine(tx); err == nil {
			ch.Seal()
			var rx *seth.Receipt
			if rx, err = ch.Client().GetReceipt(&h); err == nil {
				addr = *rx.Address
			}
		}
	}
	if err != nil {
		c.HarnessError("deploying the token (%d): %v", how, err)
		return
	}
	// earlier events
	for i := g.Intn(4); i > 0; i-- {
		ch.Call(&deployer, &lg, "x()")
	}
	if g.Intn(2) == 0 && rule == "none" {
		to := ch.NewAccount(0)
		ch.Call(&deployer, &addr, "mint(address,uint256)", &to, seth.NewInt(5))
		ch.Call(&to, &addr, "transfer(address,uint256)", &deployer, seth.NewInt(3))
	}
	mints := 0
	tk := &erc20.Token{C: ch, Addr: &addr, Owner: &owner, HasBurn: burn,
		Mint: func(t *erc20.Token, to *seth.Address, amt *seth.Int) error {
			mints++
			if mintErr == 2 {
				return errors.New("mint failed")
			}
			_, err := t.C.Call(&deployer, t.Addr, "mint(address,uint256)", to, amt)
			if mintErr == 1 {
				return errors.New("mint failed")
			}
			return err
		}}
	if owned == 0 {
		tk.Owner = nil
	}
	times := 1
	if rule == "none" && g.Intn(4) == 0 {
		times = 2
	}
	for i := 0; i < times; i++ {
		c.Eval(1)
		failed, pan, stack := verdict(c.ID(), func(t *testing.T) {
			tk.T = t
			erc20.TestCompliance(tk)
		})
		desc := fmt.Sprintf("token that breaks %q at %q (burn %v, throws %v, owner %v, deployed by %d, amounts %v %v %v, logs %d)", rule, stage, burn, k.throws, owned, how, k.credit, k.debit, k.supply, len(ch.Logs()))
		switch {
		case pan != nil:
			c.Fail("panic", "%s: the test panics: %v\n%s", desc, pan, stack)
		case broken && !failed:
			c.Fail("accepted-"+rule, "%s: passes", desc)
		case rule == "none" && failed:
			c.Fail("rejected", "a compliant %s: fails (run %d)", desc, i+1)
		}
		if mints != i+1 {
			c.Fail("mint-calls", "%s: Mint was called %d times", desc, mints)
		}
		if failed {
			c.Count("rejected", 1)
		} else {
			c.Count("accepted", 1)
		}
	}
	c.Cell(rule, stage, burn, k.throws, owned, how, times)
}

func abi(c *vh.Case) {
	g := c.Rng
	type fn struct {
		name     string
		in       []string
		constant bool
		event    bool
	}
	fns := []fn{{"transfer", []string{"address", "uint256"}, false, false}, {"approve", []string{"address", "uint256"}, false, false},
		{"transferFrom", []string{"address", "address", "uint256"}, false, false}, {"allowance", []string{"address", "address"}, true, false},
		{"balanceOf", []string{"address"}, true, false}, {"Transfer", []string{"address", "address", "uint256"}, false, true},
		{"Approval", []string{"address", "address", "uint256"}, false, true}}
	cc := &seth.CompiledContract{Name: "T"}
	rule, which := "none", -1
	if g.Intn(4) > 0 {
		which = g.Intn(len(fns))
		rule = []string{"missing", "renamed", "argument", "fewer", "more", "type", "constant", "indexed", "case"}[g.Intn(9)]
		if rule == "indexed" {
			which = 5 + g.Intn(2)
		} else if rule == "constant" {
			which = g.Intn(5)
		}
	}
	for i, f := range fns {
		d := seth.ABIDescriptor{Type: "function", Name: f.name, Constant: f.constant, Mutability: "nonpayable"}
		if f.constant {
			d.Mutability = "view"
		}
		if f.event {
			d.Type = "event"
		}
		for j, t := range f.in {
			d.Inputs = append(d.Inputs, seth.ABIParam{Name: fmt.Sprint("p", j), Type: t, Indexed: f.event && j < 2})
		}
		if i == which {
			switch rule {
			case "missing":
				continue
			case "renamed":
				d.Name += "_"
			case "case":
				if f.event {
					d.Name = strings.ToLower(d.Name)
				} else {
					d.Name = strings.ToUpper(d.Name)
				}
			case "argument":
				j := g.Intn(len(d.Inputs))
				d.Inputs[j].Type = map[string]string{"address": "uint160", "uint256": "uint128"}[d.Inputs[j].Type]
			case "fewer":
				d.Inputs = d.Inputs[:len(d.Inputs)-1]
			case "more":
				d.Inputs = append(d.Inputs, seth.ABIParam{Name: "data", Type: "bytes"})
			case "type":
				if f.event {
					d.Type = "function"
				} else {
					d.Type = "event"
				}
			case "constant":
				d.Constant = !d.Constant
			case "indexed":
				d.Inputs[g.Intn(2)].Indexed = false
			}
		}
		cc.ABI = append(cc.ABI, d)
	}
	// what else a token may have
	for i := g.Intn(4); i > 0; i-- {
		cc.ABI = append(cc.ABI, []seth.ABIDescriptor{{Type: "constructor", Inputs: []seth.ABIParam{{Name: "n", Type: "uint256"}}}, {Type: "fallback"},
			{Type: "function", Name: "burn", Inputs: []seth.ABIParam{{Type: "uint256"}}}, {Type: "event", Name: "Burn", Inputs: []seth.ABIParam{{Type: "address"}}},
			{Type: "function", Name: "transfer", Inputs: []seth.ABIParam{{Type: "address"}, {Type: "uint256"}, {Type: "bytes"}}}}[g.Intn(5)])
	}
	g.Shuffle(len(cc.ABI), func(i, j int) { cc.ABI[i], cc.ABI[j] = cc.ABI[j], cc.ABI[i] })
	c.Eval(1)
	failed, pan, stack := verdict(c.ID(), func(t *testing.T) { erc20.TestABICompliance(t, cc) })
	name := "-"
	if which >= 0 {
		name = fns[which].name
	}
	desc := fmt.Sprintf("an interface with %q at %q (%+v)", rule, name, cc.ABI)
	switch {
	case pan != nil:
		c.Fail("abi-panic", "%s: the test panics: %v\n%s", desc, pan, stack)
	case rule != "none" && !failed:
		c.Fail("abi-accepted-"+rule, "%s: passes", desc)
	case rule == "none" && failed:
		c.Fail("abi-rejected", "%s: fails", desc)
	}
	c.Count(map[bool]string{true: "interfaces_rejected", false: "interfaces_accepted"}[failed], 1)
	c.Cell("abi", rule, name)
}

var _ = rand.Int
