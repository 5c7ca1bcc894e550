package evmgen

import (
	"fmt"
	"math/big"
	"math/rand"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"
)

// World generates operations on a chain.
type World struct {
	Env
	C      *tevm.Chain
	First  int64   // number of the first block
	Sealed []int64 // sealed blocks
	NoRead bool
	NoBare bool // only operations that mine transactions
}

// NewWorld returns a world over a new chain; the accounts of the world have
// no ether yet: the caller applies the operations of Fund.
func NewWorld(g *rand.Rand, c *tevm.Chain) *World {
	w := &World{C: c, First: int64(*c.State.Pending.Number)}
	w.G = g
	w.Kinds = map[string]int{}
	n := 2 + g.Intn(3)
	for i := 0; i < n; i++ {
		var a common.Address
		g.Read(a[:])
		w.EOAs = append(w.EOAs, a)
	}
	for i := 0; i < 2; i++ {
		var a common.Address
		g.Read(a[:])
		w.Ghosts = append(w.Ghosts, a)
	}
	// addresses of contracts to be
	for i := 0; i < 3; i++ {
		w.Ghosts = append(w.Ghosts, crypto.CreateAddress(w.EOAs[g.Intn(n)], uint64(g.Intn(6))))
	}
	w.NoDestroy = g.Intn(5) < 3
	c.State.Pending.Timestamp = seth.Uint64(1500000000 + g.Intn(100000000))
	if g.Intn(2) == 0 {
		g.Read(c.State.Pending.Miner[:])
	}
	switch g.Intn(6) {
	case 0: // later than 32 bits can say
		c.State.Pending.Timestamp = seth.Uint64(1<<31 + g.Int63()>>uint(1+g.Intn(31)))
	case 1:
		d := make([]byte, 1+g.Intn(16))
		g.Read(d)
		c.State.Pending.Difficulty = (*seth.Int)(new(big.Int).SetBytes(d))
	}
	return w
}

// Fund returns operations that give ether to the accounts.
func (w *World) Fund() (ops []*Op) {
	for i, a := range w.EOAs {
		v := big.NewInt(int64(1 + w.G.Intn(1000000)))
		if i == 0 {
			v.Lsh(v, 60)
		}
		if i == 1 && w.G.Intn(3) == 0 {
			continue
		}
		ops = append(ops, &Op{Kind: "add", Addr: a, Tx: &Tx{Value: v}})
	}
	if w.G.Intn(3) == 0 {
		ops = append(ops, &Op{Kind: "add", Addr: w.Ghosts[2+w.G.Intn(3)], Tx: &Tx{Value: big.NewInt(7)}})
	}
	return ops
}

// Balance is the balance of an account.
func (w *World) Balance(a common.Address) *big.Int {
	return w.C.State.StateDB().GetBalance(a)
}

// Learn looks for new contracts.
func (w *World) Learn(o *Op) {
	if o.Kind == "seal" {
		w.Sealed = append(w.Sealed, int64(*w.C.State.Pending.Number)-1)
	}
	known := map[common.Address]bool{}
	for _, a := range w.Contracts {
		known[a] = true
	}
	w.C.State.Code.Iterate(func(k, v []byte) bool {
		a := common.BytesToAddress(k)
		if len(v) > 0 && !known[a] {
			w.Contracts = append(w.Contracts, a)
		}
		return true
	})
}

// block picks a block to read at.
func (w *World) block() int64 {
	switch x := w.G.Intn(6); {
	case x < 2 || len(w.Sealed) == 0:
		return -1
	case x < 3:
		return -2
	}
	return w.Sealed[w.G.Intn(len(w.Sealed))]
}

// Next generates an operation.
func (w *World) Next() *Op {
	g := w.G
	t := w.Tx(w.Balance)
	bare := func() *Tx {
		b := *t
		if b.To == nil {
			to := w.Target()
			b.To = &to
		}
		return &b
	}
	x := g.Intn(100)
	if len(w.Contracts) < 2 && x < 50 {
		t.To = nil
		if g.Intn(3) > 0 {
			t.Input = Wrap(w.Program(0))
		} else {
			t.Input = w.Init(0)
		}
		t.Gas += 500000
		if w.NoBare || g.Intn(2) == 0 {
			return &Op{Kind: "mine", Tx: t}
		}
		t.Value = new(big.Int)
		return &Op{Kind: "create", Tx: t}
	}
	if w.NoBare {
		switch {
		case x < 60:
			return &Op{Kind: "mine", Tx: t}
		case x < 75:
			return &Op{Kind: "rpcsend", Tx: t}
		case x < 90:
			return &Op{Kind: "seal"}
		}
	}
	if w.NoRead && x >= 75 {
		x = g.Intn(75)
	}
	sig := fmt.Sprintf("m%d()", g.Intn(4))
	switch {
	case x < 40:
		return &Op{Kind: "mine", Tx: t}
	case x < 44:
		t.Input = w.Init(0)
		t.To = nil
		return &Op{Kind: "create", Tx: t}
	case x < 46:
		var a common.Address
		g.Read(a[:])
		if g.Intn(4) == 0 {
			a = w.Ghosts[g.Intn(len(w.Ghosts))]
		}
		if g.Intn(2) == 0 {
			t.Input = w.Init(0)
		} else {
			t.Input = Wrap(w.Program(0))
		}
		t.To = nil
		db := w.C.State.StateDB()
		if db.GetNonce(a) != 0 || db.GetCodeSize(a) != 0 {
			return &Op{Kind: "mine", Tx: t}
		}
		return &Op{Kind: "createat", Addr: a, Tx: t}
	case x < 52:
		return &Op{Kind: "call", Tx: bare(), Sig: sig}
	case x < 58:
		return &Op{Kind: "send", Tx: bare()}
	case x < 61:
		o := &Op{Kind: "add", Addr: w.Target(), Tx: &Tx{Value: big.NewInt(int64(1 + g.Intn(10000)))}}
		if g.Intn(3) == 0 {
			o.Addr = w.Ghosts[g.Intn(len(w.Ghosts))]
		}
		return o
	case x < 63:
		a := w.Target()
		return &Op{Kind: "sub", Addr: a, Tx: &Tx{Value: new(big.Int).Rsh(w.Balance(a), uint(g.Intn(3)))}}
	case x < 69:
		return &Op{Kind: "seal"}
	case x < 75:
		return &Op{Kind: "rpcsend", Tx: t}
	}
	return w.Read(t)
}

// Read generates a read-only operation.
func (w *World) Read(t *Tx) *Op {
	g := w.G
	if t == nil {
		t = w.Tx(w.Balance)
	}
	b := *t
	if b.To == nil {
		to := w.Target()
		b.To = &to
	}
	if x := g.Intn(6); x < 2 { // more than transactions ask for
		c := *t
		c.Gas = uint64(1000000 + g.Intn(5000000))
		b.Gas, t = c.Gas, &c
	}
	sig := fmt.Sprintf("m%d()", g.Intn(4))
	switch x := g.Intn(10); {
	case x < 2:
		return &Op{Kind: "staticcall", Tx: &b, Sig: sig}
	case x < 3:
		return &Op{Kind: "estimate", Tx: &b, Sig: sig}
	case x < 6:
		return &Op{Kind: "ethcall", Tx: &b, N: w.block()}
	case x < 8:
		return &Op{Kind: "ethestimate", Tx: t, N: w.block()}
	default:
		return &Op{Kind: "balance", Addr: w.Target(), N: w.block()}
	}
}
