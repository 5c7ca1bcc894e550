// C36: events, functions, metadata and hardware modules are recognised by
// exactly what identifies them.
package c36

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"vharness/ref"
	"vharness/rpcsim"
	"vharness/vh"

	"github.com/philhofer/seth"
)

var r *vh.Run

func TestProperty(t *testing.T) {
	r = vh.Start("C36", "runtime-monitored")
	r.Rule("a case is one log, ABI, bytecode or registry history; distinct by the kind of input, what is wrong with it and the outcome")
	r.Assume("the first 12 bytes of an address topic are not judged, except that a well-formed one has zeros there")
	r.Cases("transfer", r.Scale(20000, 600000), 0, transfer)
	r.Cases("receipt", r.Scale(3000, 60000), 0, receipt)
	r.Cases("abi", r.Scale(6000, 200000), 0, abi)
	r.Cases("metadata", r.Scale(20000, 600000), 0, metadata)
	r.Cases("hsm", r.Scale(1500, 30000), 1, hsms)
	r.Finish()
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

var transferTopic = ref.Keccak([]byte("Transfer(address,address,uint256)"), 32)

// ---- token transfers

type mlog struct {
	addr   []byte
	topics [][]byte
	data   []byte
	kind   string // what is wrong with it, or ""
	from   []byte
	to     []byte
	amount *big.Int
}

func genLog(g *rand.Rand) *mlog {
	m := &mlog{addr: vh.Bytes(g, 20), from: vh.Bytes(g, 20), to: vh.Bytes(g, 20)}
	if g.Intn(8) == 0 {
		m.from = make([]byte, 20)
	}
	if g.Intn(8) == 0 {
		m.to = make([]byte, 20)
	}
	switch g.Intn(6) {
	case 0:
		m.amount = new(big.Int)
	case 1:
		m.amount = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	case 2:
		m.amount = new(big.Int).Lsh(big.NewInt(1), uint(g.Intn(256)))
	default:
		m.amount = vh.Big(g, 256)
	}
	pad := func(a []byte) []byte { return append(make([]byte, 12), a...) }
	m.topics = [][]byte{append([]byte(nil), transferTopic...), pad(m.from), pad(m.to)}
	m.data = m.amount.FillBytes(make([]byte, 32))
	if g.Intn(5) < 2 {
		return m
	}
	switch g.Intn(12) {
	case 0:
		m.kind = "topic hash bit"
		m.topics[0][g.Intn(32)] ^= 1 << uint(g.Intn(8))
	case 1:
		m.kind = "other event"
		names := []string{"Approval(address,address,uint256)", "Transfer(address,address,uint)", "Transfer(address,uint256)", "transfer(address,uint256)", "Transfer(address,address,uint256) ", "Transfer(address,address,address)"}
		m.topics[0] = ref.Keccak([]byte(names[g.Intn(len(names))]), 32)
	case 2:
		m.kind = "too few topics"
		m.topics = m.topics[:g.Intn(3)]
	case 3:
		// an ERC721 transfer: the last argument is a topic too
		m.kind = "four topics"
		m.topics = append(m.topics, m.data)
		if g.Intn(2) == 0 {
			m.data = nil
		}
	case 4:
		m.kind = "no data"
		m.data = nil
	case 5:
		m.kind = "short data"
		m.data = m.data[g.Intn(31)+1:]
	case 6:
		m.kind = "long data"
		if g.Intn(2) == 0 {
			m.data = append(m.data, vh.Bytes(g, 1+g.Intn(40))...)
		} else {
			m.data = append(m.data, make([]byte, 32)...)
		}
	case 7:
		m.kind = "short topic"
		i := 1 + g.Intn(2)
		m.topics[i] = m.topics[i][g.Intn(32)+1:]
	case 8:
		m.kind = "long topic"
		i := 1 + g.Intn(2)
		m.topics[i] = append(m.topics[i], vh.Bytes(g, 1+g.Intn(5))...)
	case 9:
		m.kind = "short hash"
		m.topics[0] = m.topics[0][:g.Intn(32)]
	case 10:
		m.kind = "long hash"
		m.topics[0] = append(m.topics[0], vh.Bytes(g, 1+g.Intn(4))...)
	case 11:
		m.kind = "hash in another place"
		i := 1 + g.Intn(2)
		m.topics[0], m.topics[i] = m.topics[i], m.topics[0]
	}
	return m
}

func (m *mlog) log() *seth.Log {
	l := &seth.Log{Data: seth.Data(append([]byte(nil), m.data...))}
	copy(l.Address[:], m.addr)
	for _, t := range m.topics {
		l.Topics = append(l.Topics, seth.Data(append([]byte(nil), t...)))
	}
	return l
}

// judge compares the answer of ParseTransfer with the log.
func judge(c *vh.Case, rc *seth.Receipt, l *seth.Log, m *mlog, block, index uint64) {
	tt, ok := rc.ParseTransfer(l)
	r.Cell("transfer", m.kind, len(m.topics), ok)
	r.Count("logs judged", 1)
	if m.kind != "" {
		if ok {
			c.Fail("not-a-transfer", "a log with %s is taken for a transfer: %+v (topics %x data %x)", m.kind, tt, m.topics, m.data)
		} else {
			r.Count("other logs refused", 1)
		}
		return
	}
	if !ok {
		c.Fail("transfer-missed", "a transfer was not recognised: topics %x data %x", m.topics, m.data)
		return
	}
	r.Count("transfers recognised", 1)
	if uint64(tt.Block) != block || uint64(tt.TxHeight) != index {
		c.Fail("transfer-place", "transfer of block %d transaction %d reported at block %d transaction %d", block, index, tt.Block, tt.TxHeight)
	}
	if !bytes.Equal(tt.Token[:], m.addr) || !bytes.Equal(tt.From[:], m.from) || !bytes.Equal(tt.To[:], m.to) {
		c.Fail("transfer-parties", "transfer of token %x from %x to %x reported as token %x from %x to %x", m.addr, m.from, m.to, tt.Token[:], tt.From[:], tt.To[:])
	}
	if (*big.Int)(&tt.Amount).Cmp(m.amount) != 0 {
		c.Fail("transfer-amount", "amount %v reported as %v", m.amount, (*big.Int)(&tt.Amount))
	}
}

func transfer(c *vh.Case) {
	g := c.Rng
	m := genLog(g)
	l := m.log()
	rc := &seth.Receipt{}
	block, index := g.Uint64()>>uint(1+g.Intn(63)), uint64(g.Intn(1000))
	rc.BlockNumber, rc.Index = seth.Uint64(block), seth.Uint64(index)
	c.Guard("parse-panic", func() {
		judge(c, rc, l, m, block, index)
		// reading a log changes neither it nor the receipt
		if want := m.log(); fmt.Sprint(want.Topics, want.Data, want.Address) != fmt.Sprint(l.Topics, l.Data, l.Address) {
			c.Fail("log-changed", "parsing changed the log")
		}
	})
	r.Eval(1)
}

// receipt fetches a receipt with several logs from a node and parses them.
func receipt(c *vh.Case) {
	g := c.Rng
	n := g.Intn(6)
	ms := make([]*mlog, n)
	hash := vh.Bytes(g, 32)
	block, index := g.Uint64()>>uint(1+g.Intn(63)), uint64(g.Intn(300))
	status := g.Intn(2)
	gas, cum := uint64(g.Intn(1e7)), uint64(g.Intn(1e8))
	from := vh.Bytes(g, 20)
	bhash := vh.Bytes(g, 32)
	logs := []string{}
	for i := range ms {
		ms[i] = genLog(g)
		var ts []string
		for _, t := range ms[i].topics {
			ts = append(ts, `"`+hx(t)+`"`)
		}
		logs = append(logs, fmt.Sprintf(`{"removed":false,"logIndex":"0x%x","transactionIndex":"0x%x","transactionHash":"%s","blockHash":"%s","blockNumber":"0x%x","address":"%s","data":"%s","topics":[%s]}`,
			i, index, hx(hash), hx(bhash), block, hx(ms[i].addr), hx(ms[i].data), strings.Join(ts, ",")))
	}
	created := ""
	var caddr []byte
	if g.Intn(3) == 0 {
		caddr = vh.Bytes(g, 20)
		created = hx(caddr)
	}
	cj := "null"
	if created != "" {
		cj = `"` + created + `"`
	}
	_ = from
	doc := fmt.Sprintf(`{"transactionHash":"%s","transactionIndex":"0x%x","blockHash":"%s","blockNumber":"0x%x","gasUsed":"0x%x","cumulativeGasUsed":"0x%x","contractAddress":%s,"status":"0x%x","logs":[%s]}`,
		hx(hash), index, hx(bhash), block, gas, cum, cj, status, strings.Join(logs, ","))
	asked := 0
	client := seth.NewClientTransport(&rpcsim.Direct{Handle: func(q *rpcsim.Req) (string, error) {
		if q.Method != "eth_getTransactionReceipt" || len(q.Params) != 1 || q.Str(0) != hx(hash) {
			c.Fail("receipt-request", "asked %s %s", q.Method, q.Params)
		}
		asked++
		return doc, nil
	}})
	var h seth.Hash
	copy(h[:], hash)
	c.Guard("receipt-panic", func() {
		rc, err := client.GetReceipt(&h)
		if err != nil {
			c.Fail("receipt-error", "%v for %s", err, doc)
			return
		}
		if asked != 1 {
			c.Fail("receipt-request", "asked %d times", asked)
		}
		if rc.Threw() != (status == 0) {
			c.Fail("receipt-status", "status %d reported as threw=%v", status, rc.Threw())
		}
		if uint64(rc.BlockNumber) != block || uint64(rc.Index) != index || uint64(rc.GasUsed) != gas || uint64(rc.Cumulative) != cum ||
			!bytes.Equal(rc.Hash[:], hash) || !bytes.Equal(rc.BlockHash[:], bhash) {
			c.Fail("receipt-fields", "%s decoded as %+v", doc, rc)
		}
		if (rc.Address == nil) != (caddr == nil) || rc.Address != nil && !bytes.Equal(rc.Address[:], caddr) {
			c.Fail("receipt-address", "contract address %x decoded as %v", caddr, rc.Address)
		}
		if len(rc.Logs) != n {
			c.Fail("receipt-logs", "%d logs decoded as %d", n, len(rc.Logs))
			return
		}
		for i := range rc.Logs {
			l := &rc.Logs[i]
			if l.LogIndex == nil || uint64(*l.LogIndex) != uint64(i) || !bytes.Equal(l.Address[:], ms[i].addr) || !bytes.Equal(l.Data, ms[i].data) {
				c.Fail("receipt-logs", "log %d decoded as %+v", i, l)
			}
			judge(c, rc, l, ms[i], block, index)
		}
	})
	r.Cell("receipt", n, status, caddr != nil)
	r.Eval(1)
}

// ---- descriptors

type param struct {
	typ   string // "" for a tuple
	suf   string // array suffixes
	comps []*param
}

func genParam(g *rand.Rand, depth int) *param {
	base := []string{"uint256", "uint8", "int256", "int64", "address", "bool", "bytes", "bytes32", "bytes4", "string", "uint160", "tupleless"}
	p := &param{}
	for g.Intn(4) == 0 && len(p.suf) < 8 {
		if g.Intn(2) == 0 {
			p.suf += "[]"
		} else {
			p.suf += fmt.Sprintf("[%d]", 1+g.Intn(12))
		}
	}
	if depth < 3 && g.Intn(4) == 0 {
		for k := g.Intn(4); k > 0; k-- {
			p.comps = append(p.comps, genParam(g, depth+1))
		}
		return p
	}
	p.typ = base[g.Intn(len(base)-1)]
	return p
}

func (p *param) canon() string {
	if p.typ != "" {
		return p.typ + p.suf
	}
	var s []string
	for _, q := range p.comps {
		s = append(s, q.canon())
	}
	return "(" + strings.Join(s, ",") + ")" + p.suf
}

func (p *param) abi(g *rand.Rand) seth.ABIParam {
	o := seth.ABIParam{Name: []string{"", "a", "to", "_value", "uint256"}[g.Intn(5)], Type: p.typ + p.suf, Indexed: g.Intn(3) == 0}
	if p.typ == "" {
		o.Type = "tuple" + p.suf
		for _, q := range p.comps {
			o.Components = append(o.Components, q.abi(g))
		}
	}
	return o
}

func canon(name string, ps []*param) string {
	var s []string
	for _, p := range ps {
		s = append(s, p.canon())
	}
	return name + "(" + strings.Join(s, ",") + ")"
}

func abi(c *vh.Case) {
	g := c.Rng
	names := []string{"transfer", "Transfer", "transferFrom", "t", "transfe", "tuple", "_x", "$y1"}
	var cc seth.CompiledContract
	var sigs []string
	var types []string
	seen := map[string]bool{}
	add := func(typ, name string, ps []*param) {
		s := canon(name, ps)
		if seen[s] {
			return
		}
		seen[s] = true
		d := seth.ABIDescriptor{Type: typ, Name: name}
		for _, p := range ps {
			d.Inputs = append(d.Inputs, p.abi(g))
		}
		if typ == "function" {
			for k := g.Intn(3); k > 0; k-- {
				d.Outputs = append(d.Outputs, genParam(g, 1).abi(g))
			}
		}
		cc.ABI = append(cc.ABI, d)
		sigs = append(sigs, s)
		types = append(types, typ)
	}
	for k := 1 + g.Intn(8); k > 0; k-- {
		var ps []*param
		for j := g.Intn(5); j > 0; j-- {
			ps = append(ps, genParam(g, 0))
		}
		name := names[g.Intn(len(names))]
		add([]string{"function", "function", "event"}[g.Intn(3)], name, ps)
		// an overload that differs in one place
		if g.Intn(2) == 0 && len(ps) > 0 {
			qs := append([]*param(nil), ps...)
			switch g.Intn(3) {
			case 0:
				qs[g.Intn(len(qs))] = genParam(g, 0)
			case 1:
				qs = qs[:len(qs)-1]
			case 2:
				i, j := g.Intn(len(qs)), g.Intn(len(qs))
				qs[i], qs[j] = qs[j], qs[i]
			}
			add("function", name, qs)
		}
	}
	// through JSON, as the compiler writes it
	if g.Intn(2) == 0 {
		buf, err := json.Marshal(cc.ABI)
		if err != nil {
			r.HarnessError("%v", err)
			return
		}
		var back []seth.ABIDescriptor
		if err := json.Unmarshal(buf, &back); err != nil {
			c.Fail("abi-json", "%v in %s", err, buf)
			return
		}
		cc.ABI = back
	}
	c.Guard("abi-panic", func() {
		for i := range cc.ABI {
			d := &cc.ABI[i]
			if got := d.Signature(); got != sigs[i] {
				c.Fail("signature", "%s has signature %q", sigs[i], got)
			}
			if got := cc.Find(sigs[i]); got != d {
				what := "nothing"
				if got != nil {
					what = got.Type + " " + got.Signature()
				}
				c.Fail("find", "Find(%q) found %s, not entry %d", sigs[i], what, i)
			}
			r.Count("descriptors found by signature", 1)
			r.Cell("abi", types[i], len(cc.ABI[i].Inputs), strings.Contains(sigs[i], "(("), strings.Contains(sigs[i], "["))
		}
		for k := 0; k < 12; k++ {
			s := sigs[g.Intn(len(sigs))]
			kind := ""
			switch g.Intn(8) {
			case 0:
				kind, s = "name only", s[:strings.IndexByte(s, '(')]
			case 1:
				kind, s = "name()", s[:strings.IndexByte(s, '(')]+"()"
			case 2:
				kind, s = "no closing", s[:len(s)-1]
			case 3:
				kind, s = "case", flipCase(g, s)
			case 4:
				kind, s = "space", strings.Replace(s, ",", ", ", 1)
			case 5:
				kind, s = "prefix", s[1:]
			case 6:
				kind, s = "alias", strings.Replace(s, "uint256", "uint", 1)
			case 7:
				kind, s = "extra", s+" "
			}
			got := cc.Find(s)
			want := seen[s]
			r.Cell("near", kind, want)
			if want != (got != nil) || got != nil && got.Signature() != s {
				c.Fail("find-near", "Find(%q) of an ABI with %q found %v", s, sigs, got)
			}
			r.Count("lookups of near misses", 1)
		}
	})
	r.Eval(1)
}

func flipCase(g *rand.Rand, s string) string {
	b := []byte(s)
	i := g.Intn(len(b))
	for k := 0; k < len(b); k++ {
		j := (i + k) % len(b)
		if b[j] >= 'a' && b[j] <= 'z' || b[j] >= 'A' && b[j] <= 'Z' {
			b[j] ^= 0x20
			break
		}
	}
	return string(b)
}

// ---- bytecode

var mpre = []byte{0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20}

func metadata(c *vh.Case) {
	g := c.Rng
	trailer := func() ([]byte, []byte) {
		h := vh.Bytes(g, 32)
		if g.Intn(6) == 0 {
			h = make([]byte, 32)
		}
		t := append([]byte(nil), mpre...)
		t = append(t, h...)
		return append(t, 0x00, 0x29), h
	}
	body := vh.Bytes(g, g.Intn(120))
	if g.Intn(6) == 0 {
		body = nil
	}
	code := append([]byte(nil), body...)
	kind := ""
	var want []byte // hash of the trailer, if the code has one
	wantBody := 0
	t, h := trailer()
	switch g.Intn(9) {
	case 0:
		kind = "none"
	case 1, 2:
		kind, want, wantBody = "trailer", h, len(code)
		code = append(code, t...)
	case 3:
		kind = "one bit off"
		// in the prefix or the suffix
		fixed := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 41, 42}
		t[fixed[g.Intn(len(fixed))]] ^= 1 << uint(g.Intn(8))
		code = append(code, t...)
	case 4:
		kind = "followed by more"
		code = append(append(code, t...), vh.Bytes(g, 1+g.Intn(42))...)
	case 5:
		kind = "cut short"
		code = append(code, t[:g.Intn(43)]...)
	case 6:
		kind = "front missing"
		code = append(code, t[1+g.Intn(42):]...)
	case 7:
		// a trailer of a contract that the code creates, and its own
		kind = "two"
		t2, h2 := trailer()
		code = append(append(code, t...), body...)
		want, wantBody = h2, len(code)
		code = append(code, t2...)
	case 8:
		// constructor arguments of whole words after the trailer
		kind = "arguments"
		code = append(append(code, t...), make([]byte, 32*(1+g.Intn(2)))...)
	}
	if want == nil {
		// the exact form, in case a random change made one after all
		if n := len(code); n >= 43 && bytes.Equal(code[n-43:n-34], mpre) && code[n-2] == 0 && code[n-1] == 0x29 {
			want, wantBody = code[n-34:n-2], n-43
		}
	}
	orig := append([]byte(nil), code...)
	// memory past the code must not matter
	back := append(append([]byte(nil), code...), vh.Bytes(g, 50)...)
	code = back[:len(code)]
	c.Guard("metadata-panic", func() {
		got := seth.MetadataHash(code)
		if (got == nil) != (want == nil) || !bytes.Equal(got, want) {
			c.Fail("metadata-hash", "code %x (%s): hash %x, want %x", orig, kind, got, want)
		}
		s := seth.StripBytecode(code)
		if want == nil && !bytes.Equal(s, orig) {
			c.Fail("strip-other", "code %x without a trailer (%s) was cut to %x", orig, kind, s)
		}
		if want != nil && !bytes.Equal(s, orig[:wantBody]) {
			c.Fail("strip", "code %x (%s) stripped to %x", orig, kind, s)
		}
		if !bytes.Equal(code, orig) {
			c.Fail("code-changed", "%x changed to %x", orig, code)
		}
	})
	r.Cell("metadata", kind, want != nil, len(body) == 0)
	if want != nil {
		r.Count("trailers recognised", 1)
	} else {
		r.Count("codes without a trailer", 1)
	}
	r.Eval(1)
}

// ---- hardware modules

type fakeHSM struct{ id int }

func (f *fakeHSM) Unlock(b []byte) error                        { return nil }
func (f *fakeHSM) Pubkeys() ([]seth.HSMKey, error)              { return nil, nil }
func (f *fakeHSM) Signer(key *seth.HSMKey) (seth.Signer, error) { return nil, nil }

// hsms registers modules under fresh names and looks them up, from several
// goroutines (the probe may itself look for other modules).
func hsms(c *vh.Case) {
	g := c.Rng
	base := fmt.Sprintf("m%d", c.Index)
	names := []string{base, base + "x", strings.ToUpper(base), base + " ", "y" + base}
	first := map[string]*fakeHSM{}
	var mu sync.Mutex
	var got [][]string // hints seen, by probe call
	var who []int
	nid := 0
	absent := map[string]bool{}
	ok := vh.WithTimeout(20e9, func() {
		for i := 0; i < 3+g.Intn(6); i++ {
			name := names[g.Intn(len(names))]
			if g.Intn(2) == 0 {
				nid++
				h := &fakeHSM{nid}
				gone := g.Intn(5) == 0
				inner := g.Intn(4) == 0
				if _, dup := first[name]; !dup {
					first[name] = h
					absent[name] = gone
				}
				seth.RegisterHSM(name, func(hints ...string) seth.HSM {
					mu.Lock()
					got = append(got, append([]string(nil), hints...))
					who = append(who, h.id)
					mu.Unlock()
					if inner {
						seth.FindHSM(base + "-none")
					}
					if gone {
						return nil
					}
					return h
				})
				continue
			}
			var hints []string
			for k := g.Intn(3); k > 0; k-- {
				hints = append(hints, []string{"", "localhost:1", "a b"}[g.Intn(3)])
			}
			mu.Lock()
			got, who = nil, nil
			mu.Unlock()
			h := seth.FindHSM(name, hints...)
			want, known := first[name]
			r.Cell("hsm", known, absent[name], len(hints), h != nil)
			r.Count("module lookups", 1)
			if !known {
				if h != nil || len(who) != 0 {
					c.Fail("hsm-unknown", "looking for %q, which is not registered, found %v and probed %v", name, h, who)
				}
				continue
			}
			if len(who) != 1 || who[0] != want.id || fmt.Sprintf("%q", got[0]) != fmt.Sprintf("%q", append([]string(nil), hints...)) {
				c.Fail("hsm-probe", "looking for %q with %q probed modules %v with %q, want %d", name, hints, who, got, want.id)
				continue
			}
			if absent[name] {
				if h != nil {
					c.Fail("hsm-absent", "found %v though the probe found nothing", h)
				}
			} else if h != seth.HSM(want) {
				c.Fail("hsm-other", "looking for %q found %v", name, h)
			}
		}
	})
	if !ok {
		c.Fail("hsm-hang", "registering and looking up modules did not end")
	}
	r.Eval(1)
}
