// C23: conservation of ether and atomicity of transactions on the simulated
// chain.
package c23

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/evmgen"
	"vharness/vh"
)

func TestProperty(t *testing.T) {
	r := vh.Start("C23", "exploration")
	r.Rule("distinct (operation, outcome, relation of sender and recipient, kind of value, fork, number of contracts) of monitored operations")
	r.Assume("ether that a contract destroys with itself, by naming itself as its heir, is destroyed as in the reference (C22)")
	r.Cases("history", r.Scale(3000, 40000), 0, func(c *vh.Case) { history(c, false) })
	r.Cases("fork", r.Scale(600, 8000), 0, func(c *vh.Case) { history(c, true) })
	r.Cases("transfers", r.Scale(800, 8000), 0, transfers)
	r.Finish()
}

// book is what the monitor records of a chain.
type book struct {
	bal   map[common.Address]*big.Int
	nonce map[common.Address]uint64
	dead  map[common.Address]bool
	other map[string]string // code and storage
	logs  string
}

type mon struct {
	c     *vh.Case
	ch    *tevm.Chain
	w     *evmgen.World
	up    map[common.Address]*evmgen.UpAccount
	trace []string
	mint  *big.Int // sum of the ether of the world
	kinds string
}

func (m *mon) fail(key, f string, a ...interface{}) {
	var b strings.Builder
	for addr, code := range m.w.Contracts {
		fmt.Fprintf(&b, "\ncontract %d %s: %x", addr, code.Hex(), m.ch.State.StateDB().GetCode(code))
	}
	m.c.Fail(key, "%s\noperations:\n%s%s", fmt.Sprintf(f, a...), strings.Join(m.trace, "\n"), b.String())
}

func (m *mon) read() *book {
	b := &book{map[common.Address]*big.Int{}, map[common.Address]uint64{}, map[common.Address]bool{}, map[string]string{}, ""}
	for a, u := range m.up {
		// accounts that were not read yet
		b.bal[a] = u.Balance
		b.nonce[a] = u.Nonce
	}
	for a, acct := range evmgen.Accounts(m.ch) {
		v := acct.Balance()
		b.bal[a] = v.Big()
		b.nonce[a] = acct.Nonce()
		if acct.Suicided() {
			b.dead[a] = true
		}
	}
	for k, v := range evmgen.State(m.ch) {
		if !strings.HasPrefix(k, "account ") {
			b.other[k] = v
		}
	}
	l, _ := json.Marshal(m.ch.Logs())
	b.logs = string(l)
	return b
}

func (b *book) total() *big.Int {
	t := new(big.Int)
	for _, v := range b.bal {
		t.Add(t, v)
	}
	return t
}

func (b *book) balance(a common.Address) *big.Int {
	if v := b.bal[a]; v != nil {
		return v
	}
	return new(big.Int)
}

// sameBut says where two books differ: in balances, code, storage, logs, and
// in the nonces of other accounts than the one given.
func (m *mon) sameBut(x, y *book, sender *common.Address) string {
	for a, v := range y.bal {
		if x.balance(a).Cmp(v) != 0 {
			return fmt.Sprintf("balance of %s went from %d to %d", a.Hex(), x.balance(a), v)
		}
	}
	for a, v := range x.bal {
		if y.balance(a).Cmp(v) != 0 {
			return fmt.Sprintf("balance of %s went from %d to %d", a.Hex(), v, y.balance(a))
		}
	}
	for a, n := range y.nonce {
		if x.nonce[a] != n && (sender == nil || *sender != a) {
			return fmt.Sprintf("nonce of %s went from %d to %d", a.Hex(), x.nonce[a], n)
		}
	}
	if len(x.dead) != len(y.dead) {
		return fmt.Sprintf("destroyed accounts %v became %v", x.dead, y.dead)
	}
	if m.up == nil {
		if d := evmgen.Diff(x.other, y.other); d != "" {
			return d
		}
	} else {
		// reads of the upstream chain appear as local state
		for k, v := range x.other {
			if y.other[k] != v {
				return fmt.Sprintf("%s went from %s to %s", k, v, y.other[k])
			}
		}
	}
	if x.logs != y.logs {
		return fmt.Sprintf("logs went from %s to %s", x.logs, y.logs)
	}
	return ""
}

// step applies an operation and checks what it did.
func (m *mon) step(o *evmgen.Op) bool {
	m.trace = append(m.trace, o.String())
	// the accounts of the transaction, so that they are read from upstream
	before := m.read()
	out := o.Apply(m.ch)
	after := m.read()
	m.trace[len(m.trace)-1] += " -> " + out.String()
	m.c.Eval(1)
	m.c.Count("operations", 1)
	if out.Panic != "" {
		if o.Kind == "sub" && o.Tx.Value.Cmp(before.balance(o.Addr)) > 0 {
			m.c.Count("refused_subtractions", 1)
			if d := m.sameBut(before, after, nil); d != "" {
				m.fail("atomicity", "a refused subtraction changed the chain: %s", d)
				return false
			}
			return true
		}
		m.fail("panic", "%s", out.String())
		return false
	}
	minted := new(big.Int)
	switch o.Kind {
	case "add":
		minted.Set(o.Tx.Value)
	case "sub":
		minted.Neg(o.Tx.Value)
	}
	m.mint.Add(m.mint, minted)
	want := new(big.Int).Add(before.total(), minted)
	got := after.total()
	died := len(after.dead) > len(before.dead)
	switch {
	case got.Cmp(want) > 0:
		m.fail("minted", "%s: the sum of all balances grew from %d to %d, want %d", o.Kind, before.total(), got, want)
		return false
	case got.Cmp(want) < 0 && len(after.dead) == 0:
		m.fail("burned", "%s: the sum of all balances fell from %d to %d, want %d", o.Kind, before.total(), got, want)
		return false
	case got.Cmp(want) < 0 && !m.w.NoSelfHeir:
		m.mint.Sub(m.mint, new(big.Int).Sub(want, got))
		m.c.Count("burned_by_destruction", 1)
	case got.Cmp(want) < 0:
		m.fail("burned", "%s: the sum of all balances fell from %d to %d, want %d; no contract was its own heir", o.Kind, before.total(), got, want)
		return false
	}
	if died {
		m.c.Count("destructions", 1)
	}
	for a, v := range after.bal {
		if v.Sign() < 0 || v.Cmp(m.mint) > 0 {
			m.fail("range", "balance of %s is %d, and there are %d", a.Hex(), v, m.mint)
			return false
		}
	}
	var from common.Address
	rel := ""
	if o.Tx != nil && o.Kind != "add" && o.Kind != "sub" {
		from = o.Tx.From
		switch {
		case o.Tx.To == nil:
			rel = "create"
		case *o.Tx.To == from:
			rel = "self"
		case len(m.ch.State.StateDB().GetCode(*o.Tx.To)) > 0:
			rel = "contract"
		default:
			rel = "plain"
		}
	}
	val := ""
	if o.Tx != nil {
		switch o.Tx.Value.Cmp(before.balance(from)) {
		case 1:
			val = "too much"
		case 0:
			val = "everything"
		default:
			val = fmt.Sprint(o.Tx.Value.Sign())
		}
	}
	m.c.Cell(o.Kind, out.Err, rel, val, m.up != nil, died, len(m.w.Contracts))
	if out.Err != "" {
		m.c.Count("failed_operations", 1)
		var s *common.Address
		switch o.Kind {
		case "mine", "rpcsend", "create":
			s = &from
		}
		if d := m.sameBut(before, after, s); d != "" {
			m.fail("atomicity", "a failed %s (%s) changed the chain: %s", o.Kind, out.Err, d)
			return false
		}
		if s != nil && (after.nonce[from] < before.nonce[from] || after.nonce[from] > before.nonce[from]+1) {
			m.fail("nonce", "a failed %s took the nonce from %d to %d", o.Kind, before.nonce[from], after.nonce[from])
			return false
		}
	}
	switch o.Kind {
	case "mine", "rpcsend":
		iscode := len(m.ch.State.StateDB().GetCode(from)) > 0
		if !iscode || out.Err != "" {
			if after.nonce[from] != before.nonce[from]+1 {
				m.fail("nonce", "%s (error %q) took the nonce of its sender from %d to %d", o.Kind, out.Err, before.nonce[from], after.nonce[from])
				return false
			}
			m.c.Count("nonces_checked", 1)
		} else if after.nonce[from] <= before.nonce[from] {
			m.fail("nonce", "%s took the nonce of its sender from %d to %d", o.Kind, before.nonce[from], after.nonce[from])
			return false
		}
		if o.Tx.Value.Cmp(before.balance(from)) > 0 && out.Err == "" {
			m.fail("overdraft", "%s sent %d from an account with %d", o.Kind, o.Tx.Value, before.balance(from))
			return false
		}
		fallthrough
	case "send":
		if out.Err == "" && rel == "plain" && (o.Kind != "send" || from != *o.Tx.To) {
			to := *o.Tx.To
			wf := new(big.Int).Sub(before.balance(from), o.Tx.Value)
			wt := new(big.Int).Add(before.balance(to), o.Tx.Value)
			if after.balance(from).Cmp(wf) != 0 || after.balance(to).Cmp(wt) != 0 {
				m.fail("transfer", "a transfer of %d left the sender with %d and the recipient with %d, want %d and %d", o.Tx.Value, after.balance(from), after.balance(to), wf, wt)
				return false
			}
			m.c.Count("transfers_checked", 1)
		}
	case "staticcall", "estimate", "ethcall", "ethestimate", "balance":
		if d := m.sameBut(before, after, nil); d != "" {
			m.fail("atomicity", "a read (%s) changed the chain: %s", o.Kind, d)
			return false
		}
	}
	m.w.Learn(o)
	return true
}

func newMon(c *vh.Case, fork bool) *mon {
	g := c.Rng
	m := &mon{c: c, mint: new(big.Int)}
	var up *evmgen.Upstream
	if fork {
		up = evmgen.NewUpstream()
		m.ch = tevm.NewFork(up.Client(), 7)
	} else {
		m.ch = tevm.NewChain()
	}
	m.w = evmgen.NewWorld(g, m.ch)
	m.w.NoSelfHeir = g.Intn(4) > 0
	if fork {
		m.up = map[common.Address]*evmgen.UpAccount{}
		up.Blocks[7] = m.up
		for i, a := range m.w.EOAs {
			if i == 0 || g.Intn(3) > 0 {
				m.up[a] = &evmgen.UpAccount{Balance: new(big.Int).Lsh(big.NewInt(int64(g.Intn(1000))), uint(g.Intn(60))), Nonce: uint64(g.Intn(3))}
			}
		}
		for i := 0; i < 3; i++ {
			a := evmgen.Address(fmt.Sprint("up", g.Int63()))
			m.up[a] = &evmgen.UpAccount{Balance: big.NewInt(int64(g.Intn(500))), Nonce: 1, Code: m.w.Program(0),
				Storage: map[common.Hash]common.Hash{{}: {31: 1}, {31: 2}: {31: 9}}}
			m.w.Contracts = append(m.w.Contracts, a)
		}
		if g.Intn(2) == 0 {
			m.up[m.w.Ghosts[3]] = &evmgen.UpAccount{Balance: big.NewInt(11)}
		}
		for _, u := range m.up {
			m.mint.Add(m.mint, u.Balance)
		}
	}
	return m
}

func history(c *vh.Case, fork bool) {
	g := c.Rng
	m := newMon(c, fork)
	for _, o := range m.w.Fund() {
		if !m.step(o) {
			return
		}
	}
	n := 8 + g.Intn(20)
	for i := 0; i < n; i++ {
		o := m.w.Next()
		if g.Intn(25) == 0 {
			a := m.w.Target()
			v := new(big.Int).Add(m.w.Balance(a), big.NewInt(int64(g.Intn(3))))
			o = &evmgen.Op{Kind: "sub", Addr: a, Tx: &evmgen.Tx{Value: v}}
		}
		if g.Intn(40) == 0 {
			if !m.account(g.Intn(5)) {
				return
			}
			continue
		}
		if !m.step(o) {
			return
		}
	}
	if c.Index < 3 {
		c.Sample("%s", strings.Join(m.trace, "; "))
	}
}

// account makes an account with NewAccount.
func (m *mon) account(ether int) bool {
	before := m.read()
	a := common.Address(m.ch.NewAccount(ether))
	after := m.read()
	m.c.Eval(1)
	wei := new(big.Int).Mul(big.NewInt(int64(ether)), new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))
	m.trace = append(m.trace, fmt.Sprintf("new account %s with %d ether", a.Hex(), ether))
	if after.balance(a).Cmp(wei) != 0 || m.ch.BalanceOf(evmgen.SA(a)).Cmp(wei) != 0 {
		m.fail("mint", "a new account with %d ether has balance %d", ether, after.balance(a))
		return false
	}
	delete(after.bal, a)
	if d := m.sameBut(before, after, nil); d != "" {
		m.fail("mint", "a new account changed the chain: %s", d)
		return false
	}
	m.mint.Add(m.mint, wei)
	m.w.EOAs = append(m.w.EOAs, a)
	return true
}

// transfers moves ether between a few accounts through every interface,
// and compares all balances with a ledger.
func transfers(c *vh.Case) {
	g := c.Rng
	ch := tevm.NewChain()
	if g.Intn(3) == 0 {
		up := evmgen.NewUpstream()
		up.Blocks[3] = map[common.Address]*evmgen.UpAccount{}
		ch = tevm.NewFork(up.Client(), 3)
	}
	ledger := map[seth.Address]*big.Int{}
	nonce := map[seth.Address]uint64{}
	var addrs []seth.Address
	var trace []string
	for i := 0; i < 2+g.Intn(4); i++ {
		e := g.Intn(4)
		a := ch.NewAccount(e)
		addrs = append(addrs, a)
		ledger[a] = new(big.Int).Mul(big.NewInt(int64(e)), big.NewInt(1000000000000000000))
	}
	for i := 0; i < 2; i++ {
		var a seth.Address
		g.Read(a[:])
		addrs = append(addrs, a)
		ledger[a] = new(big.Int)
	}
	limit := new(big.Int).Lsh(big.NewInt(1), 256)
	cl := ch.Client()
	for i := 0; i < 10+g.Intn(30); i++ {
		from, to := addrs[g.Intn(len(addrs))], addrs[g.Intn(len(addrs))]
		v := new(big.Int)
		switch g.Intn(5) {
		case 0:
		case 1:
			v.Set(ledger[from])
		case 2:
			v.Add(ledger[from], big.NewInt(1))
		case 3:
			v.Rand(g, new(big.Int).Add(ledger[from], big.NewInt(1)))
		default:
			v.SetInt64(int64(1 + g.Intn(1000)))
		}
		ok := v.Cmp(ledger[from]) <= 0
		kind := g.Intn(6)
		trace = append(trace, fmt.Sprintf("%d: %s -> %s %d", kind, from.String(), to.String(), v))
		bad := func(key, f string, a ...interface{}) {
			c.Fail(key, "%s\noperations:\n%s", fmt.Sprintf(f, a...), strings.Join(trace, "\n"))
		}
		c.Eval(1)
		c.Cell("transfer", kind, ok, from == to, v.Sign(), ledger[to].Sign(), v.Cmp(ledger[from]))
		var err error
		val, pan := vh.Panics(func() {
			switch kind {
			case 0:
				err = ch.Send(&from, &to, new(big.Int).Set(v))
			case 1, 2:
				tx := &seth.Transaction{From: &from, To: &to, Gas: 21000, Value: seth.Int(*new(big.Int).Set(v))}
				_, _, err = ch.Mine(tx)
				nonce[from]++
			case 3:
				opts := &seth.CallOpts{From: &from, To: &to, Value: (*seth.Int)(new(big.Int).Set(v))}
				gas := seth.NewInt(30000)
				opts.Gas = gas
				_, err = cl.Call(opts)
				nonce[from]++
			case 4:
				// mint, up to the limit of what a balance can be
				ch.AddBalance(&to, new(big.Int).Set(v))
				ledger[to].Add(ledger[to], v)
			case 5:
				ch.SubBalance(&from, new(big.Int).Set(v))
				if ok {
					ledger[from].Sub(ledger[from], v)
				}
			}
		})
		if val != nil {
			if kind == 5 && !ok {
				val = nil
			} else {
				bad("panic", "panic: %v\n%s", val, pan)
				return
			}
		} else if kind == 5 && !ok {
			bad("overdraft", "SubBalance of %d from %d was accepted", v, ledger[from])
			return
		}
		if kind < 4 {
			if ok != (err == nil) {
				bad("overdraft", "transfer of %d from a balance of %d: error %v", v, ledger[from], err)
				return
			}
			if ok {
				ledger[from].Sub(ledger[from], v)
				ledger[to].Add(ledger[to], v)
			}
		}
		if ledger[to].Cmp(limit) >= 0 {
			return
		}
		for _, a := range addrs {
			a := a
			if got := ch.BalanceOf(&a); got.Cmp(ledger[a]) != 0 {
				bad("balance", "balance of %s is %d, want %d", a.String(), got, ledger[a])
				return
			}
			if g.Intn(8) == 0 {
				b, err := cl.GetBalanceAt(&a, seth.Pending)
				if err != nil || b.Big().Cmp(ledger[a]) != 0 {
					bad("balance", "eth_getBalance of %s is %v (%v), want %d", a.String(), b.Big(), err, ledger[a])
					return
				}
			}
			if got := ch.State.StateDB().GetNonce(common.Address(a)); got != nonce[a] {
				bad("nonce", "nonce of %s is %d, want %d", a.String(), got, nonce[a])
				return
			}
			c.Count("balances_checked", 1)
		}
	}
}
