// C25: copies and serialised chains against the original.
package c25

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"sync"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C25", "exploration")
	r.Rule("distinct (how the twin was made, age of the chain, operation, outcome, joint or one-sided) of operations after which both chains were compared")
	r.Assume("filters belong to the chain that made them: copies and restored chains start without any; a fork's client is not serialised, so forks are only copied")
	r.Assume("block times are set by the harness, as they come from the clock")
	r.Cases("history", r.Scale(histories, 18*histories), 0, func(c *vh.Case) { history(c, false) })
	r.Cases("fork", r.Scale(histories*2/5, 6*histories), 0, func(c *vh.Case) { history(c, true) })
	r.Cases("parallel", r.Scale(parallels, 16*parallels), 0, parallel)
	r.Finish()
}

// parallel uses a chain, copies of it and views of its blocks at the same
// time: each gives the answers of a copy that did the same before, alone.
func parallel(c *vh.Case) {
	g := c.Rng
	x := &run{c: c, clock: 1600000000}
	ch := tevm.NewChain()
	x.w = evmgen.NewWorld(g, ch)
	for _, o := range x.w.Fund() {
		o.Apply(ch)
	}
	for i := g.Intn(12); i >= 0; i-- {
		o := x.w.Next()
		x.clock += 15
		x.trace = append(x.trace, "original: "+o.String())
		if out := x.apply(ch, o, x.clock); out.Panic != "" {
			x.fail("panic", "%s", out.String())
			return
		}
		x.w.Learn(o)
	}
	type side struct {
		name     string
		ch, twin *tevm.Chain
		ops      []*evmgen.Op
		outs     []evmgen.Out
		clock    uint64
	}
	view := int64(-3)
	if len(x.w.Sealed) > 0 {
		view = x.w.Sealed[g.Intn(len(x.w.Sealed))]
	}
	var sides []*side
	for i, n := 0, 2+g.Intn(3); i < n; i++ {
		s := &side{name: "copy", clock: x.clock + uint64(10000*i)}
		switch k := g.Intn(5); {
		case i == 0:
			s.name, s.ch, s.twin = "original", ch, ch.Copy()
		case k == 0:
			s.name = "copy of a copy"
			m := ch.Copy()
			s.ch, s.twin = m.Copy(), m.Copy()
		case k == 1 && view >= 0:
			s.name = fmt.Sprintf("view of block %d", view)
			s.ch, s.twin = ch.AtBlock(view), ch.AtBlock(view)
		default:
			s.ch, s.twin = ch.Copy(), ch.Copy()
		}
		if s.ch == nil || s.twin == nil {
			x.fail("view", "no view of sealed block %d", view)
			return
		}
		for j := 2 + g.Intn(6); j > 0; j-- {
			s.ops = append(s.ops, x.w.Next())
		}
		sides = append(sides, s)
	}
	var want []map[string]string
	for _, s := range sides {
		clock := s.clock
		for _, o := range s.ops {
			clock += 15
			s.outs = append(s.outs, x.apply(s.twin, o, clock))
		}
		want = append(want, x.look(s.twin))
	}
	var wg sync.WaitGroup
	outs := make([][]evmgen.Out, len(sides))
	start := make(chan struct{})
	for i, s := range sides {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			clock := s.clock
			for _, o := range s.ops {
				clock += 15
				outs[i] = append(outs[i], x.apply(s.ch, o, clock))
			}
		}()
	}
	close(start)
	wg.Wait()
	for i, s := range sides {
		for j := range s.ops {
			c.Eval(1)
			a, b := s.outs[j], outs[i][j]
			a.Stack, b.Stack = "", ""
			if a.String() != b.String() || a.Hash != b.Hash {
				x.fail("parallel", "%s: %s gave alone:\n%s\nand while other chains were used:\n%s", s.name, s.ops[j].String(), a.String(), b.String())
				return
			}
		}
		if d := evmgen.Diff(want[i], x.look(s.ch)); d != "" {
			x.fail("parallel", "%s differs after operations on other chains at the same time:\n%s", s.name, d)
			return
		}
		c.Cell("parallel", s.name, len(s.ops), len(sides), len(x.w.Sealed))
	}
	c.Count("parallel_sides", len(sides))
}

type node struct {
	name string
	ch   *tevm.Chain
	seen map[string]string // what was last observed
}

type run struct {
	c     *vh.Case
	w     *evmgen.World
	fork  bool
	nodes []*node
	trace []string
	clock uint64
	addrs []common.Address // asked for on forks
}

func (x *run) fail(key, f string, a ...interface{}) {
	tr := x.trace
	if len(tr) > 80 {
		tr = tr[len(tr)-80:]
	}
	x.c.Fail(key, "%s\noperations:\n%s", fmt.Sprintf(f, a...), strings.Join(tr, "\n"))
}

// look observes a chain: its state, blocks, transactions, receipts and logs,
// and views of its blocks. What is kept of a fork's upstream depends on what
// was asked before, so the state of a fork is asked for.
func (x *run) look(ch *tevm.Chain) map[string]string {
	var out map[string]string
	state := func(pre string, c *tevm.Chain) {
		if !x.fork {
			for k, s := range evmgen.State(c) {
				out[pre+k] = s
			}
			return
		}
		db := c.State.StateDB()
		for _, a := range x.addrs {
			out[pre+"account "+a.Hex()] = fmt.Sprintf("%d %d %x %x %x", db.GetBalance(a), db.GetNonce(a), db.GetCode(a), db.GetState(a, common.Hash{}), db.GetState(a, common.Hash{31: 2}))
		}
	}
	out = evmgen.Blocks(ch, x.w.First)
	l, _ := json.Marshal(ch.Logs())
	out["logs"] = string(l)
	state("", ch)
	for _, b := range append([]int64{-1, -2}, x.w.Sealed...) {
		if v := ch.AtBlock(b); v != nil && v != ch {
			state(fmt.Sprintf("view %d ", b), v)
			l, _ := json.Marshal(v.Logs())
			out[fmt.Sprintf("view %d logs", b)] = string(l)
			p, _ := json.Marshal(v.State.Pending)
			out[fmt.Sprintf("view %d block", b)] = string(p)
		} else {
			out[fmt.Sprintf("view %d", b)] = fmt.Sprint(v != nil)
		}
	}
	p, _ := json.Marshal(ch.State.Pending)
	out["pending"] = string(p)
	return out
}

// apply executes an operation at a fixed time.
func (x *run) apply(ch *tevm.Chain, o *evmgen.Op, clock uint64) evmgen.Out {
	num := *ch.State.Pending.Number
	out := o.Apply(ch)
	if *ch.State.Pending.Number != num {
		ch.State.Pending.Timestamp = seth.Uint64(clock)
	}
	return out
}

// twin makes another chain out of one.
func (x *run) twin(n *node) *node {
	g := x.c.Rng
	m := &node{}
	kind := g.Intn(4)
	if x.fork {
		kind = 0
	}
	val, stack := vh.Panics(func() {
		switch kind {
		case 0, 1:
			m.name = "copy"
			m.ch = n.ch.Copy()
		default:
			m.name = "restored"
			buf, err := json.Marshal(n.ch)
			if err != nil {
				panic(err)
			}
			m.ch = new(tevm.Chain)
			if kind == 3 {
				// restore over a chain that is in use
				m.name = "replaced"
				m.ch = tevm.NewChain()
				evmgen.RPC(m.ch, "eth_newFilter", `{}`)
				for i := 0; i < 1+g.Intn(5); i++ {
					a := m.ch.NewAccount(i)
					b := m.ch.NewAccount(1)
					code := (&evmgen.Asm{}).N(0).N(0).Op(evmgen.LOG0).N(1).N(1).Op(evmgen.SSTORE, evmgen.STOP).B
					m.ch.Create(&b, code)
					m.ch.Send(&b, &a, big.NewInt(3))
					if g.Intn(2) == 0 {
						m.ch.Seal()
					}
				}
				if g.Intn(2) == 0 {
					evmgen.RPC(m.ch, "eth_newFilter", `{}`)
				}
			}
			if err := json.Unmarshal(buf, m.ch); err != nil {
				panic(err)
			}
		}
	})
	m.name = fmt.Sprintf("%s of %s", m.name, n.name)
	x.trace = append(x.trace, m.name)
	if val != nil {
		x.fail("panic", "%s: panic %v\n%s", m.name, val, stack)
		return nil
	}
	x.c.Count("twins", 1)
	x.c.Eval(1)
	if d := evmgen.Diff(n.seen, x.look(n.ch)); d != "" {
		x.fail("original", "making a %s changed the original:\n%s", m.name, d)
		return nil
	}
	val, stack = vh.Panics(func() { m.seen = x.look(m.ch) })
	if val != nil {
		x.fail("panic", "looking at a %s: panic %v\n%s", m.name, val, stack)
		return nil
	}
	if d := evmgen.Diff(n.seen, m.seen); d != "" {
		x.fail("equivalence", "a %s differs (first the original):\n%s", m.name, d)
		return nil
	}
	// filters of the chain that was replaced
	if strings.HasPrefix(m.name, "replaced") {
		var a, e string
		val, stack = vh.Panics(func() { a, e = evmgen.RPC(m.ch, "eth_getFilterChanges", `"0x1"`) })
		if val != nil {
			x.fail("panic", "a filter of the chain that was replaced: panic %v\n%s", val, stack)
			return nil
		}
		if e == "" {
			x.fail("equivalence", "a restored chain has the filter of the chain it replaced: %s", a)
			return nil
		}
	}
	return m
}

// others compares the chains that were not touched with what was last seen.
func (x *run) others(touched *node) bool {
	for _, m := range x.nodes {
		if m == touched {
			continue
		}
		x.c.Eval(1)
		now := x.look(m.ch)
		if d := evmgen.Diff(m.seen, now); d != "" {
			x.fail("isolation", "an operation on %s changed %s:\n%s", touched.name, m.name, d)
			return false
		}
		x.c.Count("isolation_checks", 1)
	}
	return true
}

func history(c *vh.Case, fork bool) {
	g := c.Rng
	x := &run{c: c, fork: fork, clock: 1600000000}
	var ch *tevm.Chain
	var up map[common.Address]*evmgen.UpAccount
	if fork {
		u := evmgen.NewUpstream()
		up = map[common.Address]*evmgen.UpAccount{}
		u.Blocks[8] = up
		ch = tevm.NewFork(u.Client(), 8)
	} else {
		ch = tevm.NewChain()
	}
	x.w = evmgen.NewWorld(g, ch)
	if fork {
		for _, a := range x.w.EOAs {
			up[a] = &evmgen.UpAccount{Balance: big.NewInt(int64(1 + g.Intn(100000))), Nonce: uint64(g.Intn(2))}
		}
		for i := 0; i < 2; i++ {
			a := evmgen.Address(fmt.Sprint("up", g.Int63()))
			up[a] = &evmgen.UpAccount{Balance: big.NewInt(9), Nonce: 1, Code: x.w.Program(0), Storage: map[common.Hash]common.Hash{{}: {31: 7}}}
			x.w.Contracts = append(x.w.Contracts, a)
		}
	}
	x.addrs = append(append(append(x.addrs, x.w.EOAs...), x.w.Ghosts...), x.w.Contracts...)
	for _, a := range append(append([]common.Address{}, x.w.EOAs...), x.w.Contracts...) {
		for i := 0; i < 5; i++ {
			x.addrs = append(x.addrs, crypto.CreateAddress(a, uint64(i)))
		}
	}
	root := &node{name: "original", ch: ch}
	x.nodes = []*node{root}
	learn := func(o *evmgen.Op) {
		n := int64(*x.w.C.State.Pending.Number)
		x.w.Learn(o)
		if o.Kind == "rpcsend" {
			last := n - 1
			if len(x.w.Sealed) == 0 || x.w.Sealed[len(x.w.Sealed)-1] != last {
				if x.w.C.AtBlock(last) != nil && last >= x.w.First {
					x.w.Sealed = append(x.w.Sealed, last)
				}
			}
		}
	}
	for _, o := range x.w.Fund() {
		o.Apply(ch)
	}
	pre := g.Intn(15)
	for i := 0; i < pre; i++ {
		o := x.w.Next()
		x.clock += 15
		x.trace = append(x.trace, "original: "+o.String())
		if out := x.apply(ch, o, x.clock); out.Panic != "" {
			x.fail("panic", "%s", out.String())
			return
		}
		learn(o)
	}
	root.seen = x.look(ch)
	rounds := 1 + g.Intn(3)
	for r := 0; r < rounds; r++ {
		n := x.nodes[g.Intn(len(x.nodes))]
		m := x.twin(n)
		if m == nil {
			return
		}
		x.nodes = append(x.nodes, m)
		// both do the same
		x.w.C = n.ch
		sealed := append([]int64{}, x.w.Sealed...)
		joint := 1 + g.Intn(6)
		for i := 0; i < joint; i++ {
			o := x.w.Next()
			x.clock += 15
			x.trace = append(x.trace, "both: "+o.String())
			first, second := n, m
			if g.Intn(2) == 0 {
				first, second = m, n
			}
			a := x.apply(first.ch, o, x.clock)
			if a.Panic != "" {
				x.fail("panic", "%s: %s", first.name, a.String())
				return
			}
			if i == 0 {
				if d := evmgen.Diff(second.seen, x.look(second.ch)); d != "" {
					x.fail("isolation", "an operation on %s changed %s:\n%s", first.name, second.name, d)
					return
				}
			}
			b := x.apply(second.ch, o, x.clock)
			c.Eval(1)
			c.Count("joint_operations", 1)
			c.Cell(strings.Fields(m.name)[0], len(sealed), o.Kind, a.Err, true)
			if a.Panic != "" || b.Panic != "" {
				x.fail("panic", "%s: %s\n%s: %s", first.name, a.String(), second.name, b.String())
				return
			}
			if a.String() != b.String() || a.Hash != b.Hash {
				x.fail("equivalence", "the same operation gave on %s:\n%s\nand on %s:\n%s", first.name, a.String(), second.name, b.String())
				return
			}
			learn(o)
			n.seen, m.seen = x.look(n.ch), x.look(m.ch)
			if d := evmgen.Diff(n.seen, m.seen); d != "" {
				x.fail("equivalence", "after the same operations %s and %s differ:\n%s", n.name, m.name, d)
				return
			}
		}
		if !x.refresh(n, m) {
			return
		}
		// one does something
		alone := g.Intn(6)
		for i := 0; i < alone; i++ {
			k := x.nodes[g.Intn(len(x.nodes))]
			x.w.C = k.ch
			o := x.w.Next()
			x.clock += 15
			x.trace = append(x.trace, k.name+": "+o.String())
			out := x.apply(k.ch, o, x.clock)
			if out.Panic != "" {
				x.fail("panic", "%s", out.String())
				return
			}
			c.Cell(strings.Fields(k.name)[0], len(sealed), o.Kind, out.Err, false)
			c.Count("lone_operations", 1)
			learn(o)
			// the blocks to look at may be more now
			if len(x.w.Sealed) != len(sealed) {
				sealed = append([]int64{}, x.w.Sealed...)
				if !x.grow(k) {
					return
				}
			}
			k.seen = x.look(k.ch)
			if !x.others(k) {
				return
			}
		}
	}
	if c.Index < 2 {
		c.Sample("%s", strings.Join(x.trace, "; "))
	}
}

// refresh compares the chains that took no part.
func (x *run) refresh(n, m *node) bool {
	for _, k := range x.nodes {
		if k == n || k == m {
			continue
		}
		if !x.still(k, n.name+" and "+m.name) {
			return false
		}
		k.seen = x.look(k.ch)
	}
	return true
}

// still compares what was seen of a chain with what is seen now, as far as
// both looked at the same blocks.
func (x *run) still(k *node, by string) bool {
	now := x.look(k.ch)
	for key, v := range k.seen {
		if w, ok := now[key]; !ok || w != v {
			x.fail("isolation", "operations on %s changed %s: %s was\n%s\nand is\n%s", by, k.name, key, v, w)
			return false
		}
	}
	x.c.Count("isolation_checks", 1)
	return true
}

// grow updates what is seen after the blocks to look at became more.
func (x *run) grow(by *node) bool {
	for _, k := range x.nodes {
		if k == by {
			continue
		}
		if !x.still(k, by.name) {
			return false
		}
		k.seen = x.look(k.ch)
	}
	return true
}
