// Package evmgen generates contract programs and transactions for the
// simulated chain, biased towards what changes state: nested calls of every
// kind, contract creation, value transfers, storage, logs, self-destruction
// and every way to fail.
package evmgen

import (
	"math/big"
	"math/rand"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// Asm assembles a program.
type Asm struct{ B []byte }

func (a *Asm) Op(ops ...byte) *Asm { a.B = append(a.B, ops...); return a }

// Push pushes a constant with the shortest PUSH that holds it.
func (a *Asm) Push(v *big.Int) *Asm {
	b := v.Bytes()
	if len(b) == 0 {
		b = []byte{0}
	}
	a.B = append(a.B, 0x60+byte(len(b)-1))
	a.B = append(a.B, b...)
	return a
}

func (a *Asm) N(v int64) *Asm { return a.Push(big.NewInt(v)) }

func (a *Asm) Addr(x common.Address) *Asm {
	a.B = append(a.B, 0x73)
	a.B = append(a.B, x[:]...)
	return a
}

// Opcodes by name.
const (
	STOP, ADD, MUL, SUB, DIV, MOD, EXP                        = 0x00, 0x01, 0x02, 0x03, 0x04, 0x06, 0x0a
	LT, ISZERO, AND, XOR, SHA3                                = 0x10, 0x15, 0x16, 0x18, 0x20
	ADDRESS, BALANCE, ORIGIN, CALLER, CALLVALUE, CALLDATALOAD = 0x30, 0x31, 0x32, 0x33, 0x34, 0x35
	CALLDATASIZE, CALLDATACOPY, CODESIZE, CODECOPY, GASPRICE  = 0x36, 0x37, 0x38, 0x39, 0x3a
	EXTCODESIZE, EXTCODECOPY, RETURNDATASIZE, RETURNDATACOPY  = 0x3b, 0x3c, 0x3d, 0x3e
	EXTCODEHASH, BLOCKHASH, COINBASE, TIMESTAMP, NUMBER       = 0x3f, 0x40, 0x41, 0x42, 0x43
	DIFFICULTY, GASLIMIT, CHAINID, SELFBALANCE                = 0x44, 0x45, 0x46, 0x47
	POP, MLOAD, MSTORE, MSTORE8, SLOAD, SSTORE, JUMP, JUMPI   = 0x50, 0x51, 0x52, 0x53, 0x54, 0x55, 0x56, 0x57
	PC, MSIZE, GAS, JUMPDEST                                  = 0x58, 0x59, 0x5a, 0x5b
	DUP1, SWAP1, LOG0                                         = 0x80, 0x90, 0xa0
	CREATE, CALL, CALLCODE, RETURN, DELEGATECALL, CREATE2     = 0xf0, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5
	STATICCALL, REVERT, INVALID, SELFDESTRUCT                 = 0xfa, 0xfd, 0xfe, 0xff
)

// Env is what programs refer to.
type Env struct {
	G         *rand.Rand
	EOAs      []common.Address
	Contracts []common.Address
	Ghosts    []common.Address // addresses without an account
	NoDestroy bool             // no self-destruction
	NoCreate  bool
	// NoSelfHeir gives the ether of contracts that destroy themselves to
	// accounts that are not contracts.
	NoSelfHeir bool
	// Kinds counts the statements generated, by kind.
	Kinds map[string]int
}

func (e *Env) kind(k string) {
	if e.Kinds != nil {
		e.Kinds[k]++
	}
}

// Target picks an address of any kind.
func (e *Env) Target() common.Address {
	switch x := e.G.Intn(12); {
	case x < 6 && len(e.Contracts) > 0:
		return e.Contracts[e.G.Intn(len(e.Contracts))]
	case x < 9 && len(e.EOAs) > 0:
		return e.EOAs[e.G.Intn(len(e.EOAs))]
	case x < 10:
		return common.BytesToAddress([]byte{byte(1 + e.G.Intn(9))}) // precompiles, and 9
	case x < 11 && len(e.Ghosts) > 0:
		return e.Ghosts[e.G.Intn(len(e.Ghosts))]
	}
	if len(e.Contracts) > 0 {
		return e.Contracts[e.G.Intn(len(e.Contracts))]
	}
	return e.EOAs[e.G.Intn(len(e.EOAs))]
}

func (e *Env) pushTarget(a *Asm) {
	switch e.G.Intn(10) {
	case 0:
		a.Op(ADDRESS)
	case 1:
		a.Op(CALLER)
	case 2:
		a.Op(ORIGIN)
	default:
		a.Addr(e.Target())
	}
}

// Key is a storage slot.
func (e *Env) key(a *Asm) {
	switch e.G.Intn(8) {
	case 0:
		a.Op(CALLER)
	case 1:
		a.N(0).Op(CALLDATALOAD)
	case 2:
		b := make([]byte, 32)
		b[0] = byte(e.G.Intn(3))
		b[31] = 7
		a.Op(0x7f).Op(b...)
	default:
		a.N(int64(e.G.Intn(4)))
	}
}

// expr pushes one value.
func (e *Env) expr(a *Asm, depth int) {
	g := e.G
	switch g.Intn(26) {
	case 0, 1, 2:
		a.N(0)
	case 3, 4:
		a.N(int64(1 + g.Intn(3)))
	case 5:
		b := make([]byte, 1+g.Intn(32))
		g.Read(b)
		a.Op(0x60 + byte(len(b)-1)).Op(b...)
	case 6:
		a.Op(CALLVALUE)
	case 7:
		a.N(int64(32 * g.Intn(3))).Op(CALLDATALOAD)
	case 8, 9:
		e.key(a)
		a.Op(SLOAD)
	case 10:
		e.pushTarget(a)
		a.Op(BALANCE)
	case 11:
		e.pushTarget(a)
		a.Op(EXTCODESIZE)
	case 12:
		e.pushTarget(a)
		a.Op(EXTCODEHASH)
	case 13:
		a.Op([]byte{ADDRESS, CALLER, ORIGIN, CALLDATASIZE, CODESIZE, GASPRICE, RETURNDATASIZE}[g.Intn(7)])
	case 14:
		a.Op([]byte{COINBASE, TIMESTAMP, NUMBER, DIFFICULTY, GASLIMIT, MSIZE, PC}[g.Intn(7)])
	case 15:
		a.Op(GAS)
	case 16:
		a.N(int64(32 * g.Intn(4))).Op(MLOAD)
	case 17:
		// block hashes of the last blocks, and beyond
		a.N(int64([]int{0, 1, 2, 3, 255, 256, 257, 300}[g.Intn(8)])).Op(NUMBER, SUB, BLOCKHASH)
	case 18:
		a.N(int64(g.Intn(64))).N(int64(g.Intn(64))).Op(SHA3)
	case 19:
		a.Op([]byte{CHAINID, SELFBALANCE}[g.Intn(2)]) // not yet instructions under every rule set
	default:
		if depth > 2 {
			a.N(int64(g.Intn(100)))
			return
		}
		e.expr(a, depth+1)
		e.expr(a, depth+1)
		a.Op([]byte{ADD, SUB, MUL, XOR, AND, DIV, LT, EXP}[g.Intn(8)])
	}
}

func (e *Env) value(a *Asm) {
	switch e.G.Intn(10) {
	case 0, 1, 2, 3:
		a.N(0)
	case 4, 5, 6:
		a.N(int64(1 + e.G.Intn(100)))
	case 7:
		a.Op(CALLVALUE)
	case 8:
		a.Op(ADDRESS, BALANCE) // everything
	default:
		a.N(1).Op(ADDRESS, BALANCE, ADD) // one too many
	}
}

func (e *Env) gas(a *Asm) {
	switch e.G.Intn(8) {
	case 0:
		a.N(int64(e.G.Intn(3000)))
	case 1:
		a.N(int64(e.G.Intn(40000)))
	case 2:
		a.N(0)
	default:
		a.Op(GAS)
	}
}

// result keeps or drops the value on the stack.
func (e *Env) result(a *Asm) {
	switch e.G.Intn(4) {
	case 0:
		a.Op(POP)
	case 1:
		e.key(a)
		a.Op(SSTORE)
	default:
		a.N(int64(32 * e.G.Intn(4))).Op(MSTORE)
	}
}

// mem writes b to memory at offset 128.
func mem(a *Asm, b []byte) {
	for i := 0; i < len(b); i += 32 {
		w := make([]byte, 32)
		copy(w, b[i:])
		a.Op(0x7f).Op(w...)
		a.N(int64(128 + i)).Op(MSTORE)
	}
}

// stmt emits one statement with no effect on the stack.
func (e *Env) stmt(a *Asm, depth int) {
	g := e.G
	switch x := g.Intn(32); {
	case x < 8:
		e.kind("sstore")
		e.expr(a, 0)
		e.key(a)
		a.Op(SSTORE)
	case x < 10:
		e.expr(a, 0)
		a.N(int64(32 * g.Intn(4))).Op(MSTORE)
	case x < 18:
		out, in := int64(32*g.Intn(3)), int64(g.Intn(100))
		op := []byte{CALL, CALL, CALL, CALL, CALLCODE, DELEGATECALL, STATICCALL}[g.Intn(7)]
		a.N(out).N(0).N(in).N(0)
		if op == CALL || op == CALLCODE {
			e.value(a)
		}
		e.pushTarget(a)
		e.gas(a)
		a.Op(op)
		e.kind([]string{"call", "callcode", "", "", "delegatecall"}[(op-CALL)%5])
		if op == STATICCALL {
			e.kind("staticcall")
		}
		e.result(a)
	case x < 22:
		e.kind("log")
		n := g.Intn(5)
		for i := 0; i < n; i++ {
			e.expr(a, 1)
		}
		a.N(int64(g.Intn(70))).N(int64(g.Intn(40)))
		a.Op(LOG0 + byte(n))
	case x < 25:
		if e.NoCreate || depth > 1 {
			e.stmt(a, depth)
			return
		}
		init := e.Init(depth + 1)
		if len(init) > 600 {
			init = init[:600]
		}
		mem(a, init)
		if g.Intn(2) == 0 {
			e.kind("create")
			a.N(int64(len(init))).N(128)
			e.value(a)
			a.Op(CREATE)
		} else {
			e.kind("create2")
			a.N(int64(g.Intn(2)))
			a.N(int64(len(init))).N(128)
			e.value(a)
			a.Op(CREATE2)
		}
		e.result(a)
	case x < 26:
		// copy things to memory
		switch g.Intn(3) {
		case 0:
			a.N(int64(g.Intn(64))).N(int64(g.Intn(8))).N(0)
			e.pushTarget(a)
			a.Op(EXTCODECOPY)
		case 1:
			a.Op(RETURNDATASIZE).N(0).N(0).Op(RETURNDATACOPY)
		default:
			a.N(64).N(0).N(0).Op(CALLDATACOPY)
		}
	case x < 29:
		// if (expr) { ... }: the body is skipped by a jump over its length
		if depth > 2 {
			return
		}
		body := &Asm{}
		sub := 1 + g.Intn(2)
		for i := 0; i < sub; i++ {
			e.stmt(body, depth+1)
		}
		if g.Intn(3) == 0 {
			e.end(body)
		}
		if g.Intn(2) == 0 {
			a.N(int64(32 * g.Intn(2))).Op(CALLDATALOAD).N(int64(1 << uint(g.Intn(4)))).Op(AND)
		} else {
			e.expr(a, 1)
		}
		// PC-relative: PUSH2 len PC ADD JUMPI body JUMPDEST
		n := len(body.B) + 3 // PC is at ADD-1
		a.Op(0x61, byte(n>>8), byte(n), PC, ADD, JUMPI)
		a.Op(body.B...)
		a.Op(JUMPDEST)
	case x < 30:
		e.kind("counter")
		k := int64(g.Intn(4))
		a.N(k).Op(SLOAD).N(1).Op(ADD).N(k).Op(SSTORE)
	default:
		e.expr(a, 0)
		a.Op(POP)
	}
}

// end emits an instruction that ends the execution.
func (e *Env) end(a *Asm) {
	g := e.G
	switch x := g.Intn(16); {
	case x < 6:
		a.N(int64(g.Intn(100))).N(0).Op(RETURN)
	case x < 9:
		a.Op(STOP)
	case x < 12:
		e.kind("revert")
		a.N(int64(g.Intn(70))).N(0).Op(REVERT)
	case x < 13:
		e.kind("invalid")
		switch g.Intn(4) {
		case 0:
			a.Op(INVALID)
		case 1:
			a.Op(POP, POP, POP) // underflow
		case 2:
			a.N(3).Op(JUMP) // most likely not a JUMPDEST
		default:
			a.N(1).N(int64(1) << 40).Op(MSTORE) // out of gas
		}
	case x < 15 && !e.NoDestroy:
		e.kind("selfdestruct")
		if e.NoSelfHeir {
			a.Addr(e.EOAs[g.Intn(len(e.EOAs))])
		} else {
			e.pushTarget(a)
		}
		a.Op(SELFDESTRUCT)
	default:
		a.N(32).N(0).Op(RETURN)
	}
}

// Program generates the runtime code of a contract.
func (e *Env) Program(depth int) []byte {
	a := &Asm{}
	if e.G.Intn(10) == 0 { // one that only looks, and tells what it sees
		k := 1 + e.G.Intn(4)
		for i := 0; i < k; i++ {
			if e.G.Intn(4) == 0 {
				a.Op(GAS)
			} else {
				e.expr(a, 0)
			}
			a.N(int64(32 * i)).Op(MSTORE)
		}
		a.N(int64(32 * k)).N(0).Op(RETURN)
		return a.B
	}
	n := e.G.Intn(7)
	if depth > 0 {
		n = e.G.Intn(3)
	}
	for i := 0; i < n; i++ {
		e.stmt(a, depth)
	}
	e.end(a)
	return a.B
}

// Wrap is init code that deploys the given runtime code.
func Wrap(code []byte) []byte {
	a := &Asm{}
	n := len(code)
	// PUSH2 n DUP1 PUSH1 12 PUSH1 0 CODECOPY PUSH1 0 RETURN
	a.Op(0x61, byte(n>>8), byte(n), DUP1, 0x60, 12, 0x60, 0, CODECOPY, 0x60, 0, RETURN)
	a.Op(code...)
	return a.B
}

// Init generates init code.
func (e *Env) Init(depth int) []byte {
	g := e.G
	switch x := g.Intn(16); {
	case x < 8:
		return Wrap(e.Program(depth))
	case x < 10: // some effects, then deploy
		a := &Asm{}
		e.stmt(a, depth+1)
		e.stmt(a, depth+1)
		code := e.Program(depth + 1)
		if len(code) > 200 {
			code = code[:200]
		}
		off := len(a.B) + 12
		n := len(code)
		a.Op(0x61, byte(n>>8), byte(n), DUP1, 0x61, byte(off>>8), byte(off), 0x60, 0, CODECOPY, 0x60, 0)
		a.Op(RETURN)
		// the offset above counts one byte less than PUSH2 needs
		a.B[len(a.B)-6], a.B[len(a.B)-7] = byte(off+1), byte((off+1)>>8)
		return append(a.B, code...)
	case x < 11: // nothing deployed
		a := &Asm{}
		e.stmt(a, depth+1)
		return a.Op(STOP).B
	case x < 12: // code larger than the limit
		return (&Asm{}).N(24577).N(0).Op(RETURN).B
	case x < 13: // code that costs more than there is
		return (&Asm{}).N(int64(24576 - g.Intn(2))).N(0).Op(RETURN).B
	default: // any program as init code: reverts, self-destructs, ...
		return e.Program(depth)
	}
}

// Tx is a generated transaction.
type Tx struct {
	From     common.Address
	To       *common.Address
	Gas      uint64
	GasPrice int64
	Value    *big.Int
	Input    []byte
}

// Tx generates a transaction; balance gives the balance of an address.
func (e *Env) Tx(balance func(common.Address) *big.Int) *Tx {
	g := e.G
	t := &Tx{From: e.EOAs[g.Intn(len(e.EOAs))], GasPrice: int64(g.Intn(1000)), Value: new(big.Int)}
	if g.Intn(20) == 0 && len(e.Contracts) > 0 {
		t.From = e.Contracts[g.Intn(len(e.Contracts))]
	}
	t.Gas = uint64(100000 + g.Intn(900000))
	if g.Intn(8) == 0 {
		t.Gas = uint64(g.Intn(60000))
	}
	switch g.Intn(10) {
	case 0, 1, 2, 3:
	case 4, 5, 6, 7:
		t.Value.SetInt64(int64(1 + g.Intn(1000)))
	case 8:
		t.Value.Set(balance(t.From))
	default:
		t.Value.Add(balance(t.From), big.NewInt(1))
	}
	if g.Intn(5) == 0 && !e.NoCreate {
		t.Input = e.Init(0)
		return t
	}
	to := e.Target()
	if g.Intn(12) == 0 {
		to = t.From
	}
	t.To = &to
	t.Input = make([]byte, g.Intn(4)*32)
	for i := range t.Input {
		if g.Intn(4) == 0 {
			t.Input[i] = byte(g.Intn(256))
		}
	}
	if len(t.Input) > 31 {
		t.Input[31] = byte(g.Intn(16))
	}
	return t
}

// Address derives a fixed address from a name.
func Address(name string) common.Address {
	return common.BytesToAddress(crypto.Keccak256([]byte(name)))
}
