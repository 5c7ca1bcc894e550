// C37: the registry of currencies.
package c37

import (
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"

	"vharness/vh"
)

// entry is a registered currency.
type entry struct {
	digits int
	addr   string // 40 lower-case hex digits, or empty
}

// the model of the whole registry, which outlives a case
var (
	reg    = map[string]entry{}
	byAddr = map[string]string{}
)

func hexaddr(a *seth.Address) string { return fmt.Sprintf("%x", a[:]) }

// spell writes an address in one of the accepted ways.
func spell(g *rand.Rand, a string) string {
	b := []byte(a)
	switch g.Intn(3) {
	case 0:
		b = []byte(strings.ToUpper(a))
	case 1:
		for i := range b {
			if g.Intn(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			}
		}
	}
	return "0x" + string(b)
}

func parse(a string) *seth.Address {
	out := new(seth.Address)
	if _, err := fmt.Sscanf(a, "%40x", (*hexBytes)(out)); err != nil {
		panic(err)
	}
	return out
}

type hexBytes seth.Address

func (h *hexBytes) Scan(s fmt.ScanState, _ rune) error {
	t, err := s.Token(true, nil)
	if err != nil {
		return err
	}
	for i := range h {
		if _, err := fmt.Sscanf(string(t[2*i:2*i+2]), "%02x", &h[i]); err != nil {
			return err
		}
	}
	return nil
}

// after is a history, written out only when something fails.
type after []string

func (a after) String() string {
	if a == nil {
		return "concurrently"
	}
	return fmt.Sprintf("after %q", []string(a))
}

// look compares everything that can be asked about a name with the model.
func look(c *vh.Case, name string, where fmt.Stringer) {
	e, ok := reg[name]
	k := cc.Currency(name)
	got, found := cc.CurrencyByName(name)
	if found != ok || k.Exists() != ok || ok && got != k || !ok && got != "" {
		c.Fail("name", "%s: %q is found: %v (%q), exists: %v; it is registered: %v", where, name, found, got, k.Exists(), ok)
		return
	}
	var u cc.Currency = "before"
	err := u.UnmarshalText([]byte(name))
	if (err == nil) != ok || ok && u != k || !ok && u != "before" {
		c.Fail("text", "%s: %q decodes to %q (%v); it is registered: %v", where, name, u, err, ok)
		return
	}
	if !ok {
		if val, _ := vh.Panics(func() { k.Digits() }); val == nil {
			c.Fail("digits", "%s: %q is not registered and has %d digits", where, name, k.Digits())
		}
		// the space around an amount does not matter
		if strings.TrimSpace(name) != name {
			return
		}
		if a, err := cc.ParseAmount("1 " + name); err == nil {
			c.Fail("amount", "%s: %q is not registered and its amounts parse as %v", where, name, a.Amount.String())
		}
		return
	}
	c.Guard("panic", func() {
		if k.Digits() != e.digits || k.Name() != name || k.String() != name || k.Token() != (e.addr != "") {
			c.Fail("entry", "%s: %q has name %q, %d digits, token %v; want %d, %v", where, name, k.Name(), k.Digits(), k.Token(), e.digits, e.addr != "")
		}
		a := k.Addr()
		if (a == nil) != (e.addr == "") || a != nil && hexaddr(a) != e.addr {
			c.Fail("addr", "%s: %q has address %v, want %q", where, name, a, e.addr)
		}
		if a, err := cc.ParseAmount("1 " + name); err != nil || a.Currency != k || a.Amount.Cmp(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(e.digits)), nil)) != 0 {
			c.Fail("amount", "%s: one %q (%d digits) parses as %v (%v)", where, name, e.digits, a, err)
		}
	})
}

func lookAddr(c *vh.Case, addr string, where fmt.Stringer) {
	name, ok := byAddr[addr]
	a := parse(addr)
	got, found := cc.TokenByAddress(a)
	if found != ok || string(got) != name {
		c.Fail("by-address", "%s: address %s belongs to %q (%v), want %q (%v)", where, addr, got, found, name, ok)
	}
	if hexaddr(a) != addr {
		c.Fail("operand", "%s: looking up %s changed it", where, addr)
	}
}

// near is a name like n.
func near(g *rand.Rand, n string) string {
	switch g.Intn(9) {
	case 0:
		return " " + n
	case 1:
		return n + []string{" ", "\x00", "\n", "\t", "."}[g.Intn(5)]
	case 2:
		return n[:g.Intn(len(n))]
	case 3:
		return strings.ToUpper(n)
	case 4:
		return strings.ToLower(n)
	case 5:
		return n + n
	case 6:
		return n[1:]
	case 7:
		return strings.ToTitle(n[:1]) + n[1:]
	}
	return ""
}

func history(c *vh.Case) {
	g := c.Rng
	var names, addrs []string
	for i := 0; i < 4; i++ {
		names = append(names, fmt.Sprintf("%s%d%c", []string{"V", "Ünï", "v-", "$"}[g.Intn(4)], c.Index, 'A'+i))
		addrs = append(addrs, fmt.Sprintf("%x", vh.Bytes(g, 20)))
	}
	// near misses of each other
	addrs = append(addrs, addrs[0][:38]+fmt.Sprintf("%02x", g.Intn(256)), "00"+addrs[0][2:])
	names = append(names, strings.ToLower(names[0]), names[0]+"x", "ETH", "OMG", "1ST")
	addrs = append(addrs, "d26114cd6ee289accf82350c8d8487fedb8a0c07")
	var trace []string
	for i := 0; i < 25 && !c.Failed(); i++ {
		name, addr := names[g.Intn(len(names))], addrs[g.Intn(len(addrs))]
		d := g.Intn(20)
		if e, ok := reg[name]; ok && g.Intn(2) == 0 { // the same again, perhaps
			d = e.digits
			if e.addr != "" && g.Intn(3) > 0 {
				addr = e.addr
			}
		}
		want := entry{digits: d}
		var call string
		var f func() cc.Currency
		refuse := ""
		switch op := g.Intn(20); {
		case op < 7:
			call = fmt.Sprintf("NewCurrency(%q, %d)", name, d)
			f = func() cc.Currency { return cc.NewCurrency(name, d) }
		case op < 15:
			want.addr = addr
			s := spell(g, addr)
			call = fmt.Sprintf("NewToken(%q, %d, %q)", name, d, s)
			f = func() cc.Currency { return cc.NewToken(name, d, s) }
		case op == 15:
			name, refuse = "", "no name"
			call = "NewCurrency of no name"
			f = func() cc.Currency { return cc.NewCurrency("", d) }
		case op == 16:
			s := []string{"", "0x", spell(g, addr)[:40], spell(g, addr) + "0", "0x" + addr[:39] + "g", addr + addr}[g.Intn(6)]
			if _, ok := reg[name]; ok {
				continue
			}
			refuse = "malformed address"
			call = fmt.Sprintf("NewToken(%q, %d, %q)", name, d, s)
			f = func() cc.Currency { return cc.NewToken(name, d, s) }
		default:
			// what a lookup gives can be changed
			call = "change of the address of " + name
			if val, _ := vh.Panics(func() {
				if a := cc.Currency(name).Addr(); a != nil {
					a[g.Intn(20)] ^= 1 << uint(g.Intn(8))
					c.Count("addresses_changed", 1)
				}
			}); val != nil && reg[name] != (entry{}) {
				c.Fail("panic", "%s: %v", call, val)
			}
		}
		if f != nil {
			old, taken := reg[name]
			owner, owned := byAddr[want.addr]
			switch {
			case refuse != "":
			case taken && old != want:
				refuse = "name taken"
			case !taken && want.addr != "" && owned:
				refuse = "address taken by " + owner
			}
			var got cc.Currency
			val, stack := vh.Panics(func() { got = f() })
			c.Eval(1)
			call += fmt.Sprintf(" = %q", got)
			switch {
			case refuse != "" && val == nil:
				c.Fail("accepted", "%s (%s) was accepted; history %q", call, refuse, trace)
				return
			case refuse == "" && val != nil:
				c.Fail("refused", "%s: %v; history %q\n%s", call, val, trace, stack)
				return
			case refuse == "" && got != cc.Currency(name):
				c.Fail("result", "%s; history %q", call, trace)
				return
			}
			if refuse == "" {
				reg[name] = want
				if want.addr != "" {
					byAddr[want.addr] = name
				}
			}
			kind := strings.SplitN(refuse, " by", 2)[0]
			c.Count("registrations", 1)
			c.Cell(strings.SplitN(call, "(", 2)[0], kind, taken, owned, len(trace) > 10)
		}
		trace = append(trace, call)
		where := after(trace)
		for _, n := range names {
			look(c, n, where)
		}
		for _, a := range addrs {
			lookAddr(c, a, where)
		}
		lookAddr(c, strings.Repeat("0", 40), where)
		// names that nobody registered, though they resemble one that is
		n := names[g.Intn(len(names))]
		look(c, near(g, n), where)
		b := []byte(addrs[g.Intn(len(addrs))])
		b[g.Intn(40)] = "0123456789abcdef"[g.Intn(16)]
		lookAddr(c, string(b), where)
	}
}

// concurrent readers of the registry.
func readers(c *vh.Case) {
	g := c.Rng
	var names []string
	for n, e := range reg {
		if e.addr != "" || g.Intn(4) == 0 {
			names = append(names, n)
		}
		if len(names) == 12 {
			break
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(g *rand.Rand) {
			defer wg.Done()
			for j := 0; j < 30 && !c.Failed(); j++ {
				n := names[g.Intn(len(names))]
				look(c, n, after(nil))
				if a := reg[n].addr; a != "" {
					lookAddr(c, a, after(nil))
					if p := cc.Currency(n).Addr(); p != nil {
						p[0]++ // ours
					}
				}
			}
			c.Eval(30)
		}(rand.New(rand.NewSource(g.Int63())))
	}
	wg.Wait()
	c.Cell("readers", len(names))
}

func TestProperty(t *testing.T) {
	r := vh.Start("C37", "exploration")
	r.Rule("distinct (registration, reason of refusal, whether name and address were taken) of registrations after which every name and address of the history was looked up")
	r.Assume("registrations do not run concurrently with anything (documented); the zero address and negative decimals are not used")
	for _, c := range []cc.Currency{cc.ETH, cc.OMG, cc.OST} {
		e := entry{digits: map[cc.Currency]int{cc.ETH: 18, cc.OMG: 18, cc.OST: 18}[c]}
		if c == cc.OMG {
			e.addr = "d26114cd6ee289accf82350c8d8487fedb8a0c07"
		} else if c == cc.OST {
			e.addr = "af30d2a7e90d7dc361c8c4585e9bb7d2f6f15bc7"
		}
		reg[string(c)] = e
		if e.addr != "" {
			byAddr[e.addr] = string(c)
		}
	}
	r.Cases("history", r.Scale(900, 15000), 1, history)
	r.Cases("readers", r.Scale(200, 3000), 1, readers)
	r.Finish()
}
