// C35: what the command line tool shows of a chain, run as built.
package c35

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"vharness/ethsim"
	"vharness/rpcsim"
	"vharness/vh"
)

var (
	r    *vh.Run
	tool *ethsim.Tool
)

func TestProperty(t *testing.T) {
	r = vh.Start("C35", "runtime-monitored")
	r.Rule("a case is one command against a generated chain; distinct by the command, its options and argument forms, the fault put in and the outcome")
	r.Assume("quantities in printed blocks are compared as numbers")
	var err error
	if tool, err = ethsim.New(); err != nil {
		r.HarnessError("%v", err)
		r.Finish()
	}
	r.Cases("balance", r.Scale(900, 9000), 0, balances)
	r.Cases("code", r.Scale(200, 2000), 0, codes)
	r.Cases("block", r.Scale(1200, 12000), 0, blocks)
	r.Cases("jumptab", r.Scale(900, 9000), 0, tables)
	r.Cases("post", r.Scale(400, 5000), 0, posts)
	tool.Close()
	r.Finish()
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

type world struct {
	c    *vh.Case
	dir  string
	node *ethsim.Node
	env  []string
	url  string
}

func setup(c *vh.Case, h func(q *rpcsim.Req) (string, string)) *world {
	w := &world{c: c, dir: tool.Scratch()}
	sock := ""
	switch c.Rng.Intn(6) {
	case 0:
		sock = filepath.Join(w.dir, "sock")
	case 1: // the default place
		os.Mkdir(filepath.Join(w.dir, ".ethereum"), 0755)
		sock = filepath.Join(w.dir, ".ethereum", "geth.ipc")
	}
	var err error
	w.node, err = ethsim.ListenAt(sock)
	if err != nil {
		c.HarnessError("listening: %v", err)
		os.RemoveAll(w.dir)
		return nil
	}
	w.node.Handle = h
	w.url = "socket"
	if sock == "" {
		w.url = "http"
	}
	if strings.HasSuffix(sock, "geth.ipc") {
		w.url = "default"
	} else {
		w.env = []string{"SETH_URL=" + w.node.URL}
	}
	return w
}

func (w *world) close() {
	w.node.Close()
	os.RemoveAll(w.dir)
}

func (w *world) run(args []string, stdin []byte) *ethsim.Result {
	c := w.c
	res, err := tool.Run(ethsim.Cmd{Args: args, Env: w.env, Dir: w.dir, Stdin: stdin})
	if err != nil {
		c.HarnessError("running %q: %v", args, err)
		return nil
	}
	c.Count("runs", 1)
	c.Eval(1)
	if res.Hung {
		c.Fail("hang", "eth %q did not finish: %v", args, res)
		return nil
	}
	if len(w.node.Bad) > 0 {
		c.Fail("bad-request", "eth %q: %v", args, w.node.Bad)
		return nil
	}
	if bytes.Contains(res.Err, []byte("goroutine ")) && bytes.Contains(res.Err, []byte("panic")) {
		c.Fail("panic", "eth %q panics: %v", args, res)
		return nil
	}
	return res
}

func addr(g *rand.Rand) string { return hx(vh.Bytes(g, 20)) }

var badAddrs = []string{"", "0x", "abc", "0x123456", "0x00000000000000000000000000000000000000zz", "0x000000000000000000000000000000000000000000", "00000000000000000000000000000000000000"}

func balances(c *vh.Case) {
	g := c.Rng
	n := 1 + g.Intn(3)
	bal := map[string]*big.Int{}
	var as []string
	for i := 0; i < n; i++ {
		a := addr(g)
		if i > 0 && g.Intn(4) == 0 {
			a = as[0]
		}
		as = append(as, a)
		v := vh.Big(g, 256)
		switch g.Intn(4) {
		case 0: // around whole ether
			v = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(g.Intn(30))), nil)
			v.Mul(v, big.NewInt(int64(1+g.Intn(99))))
			v.Add(v, big.NewInt(int64(g.Intn(3)-1)))
		case 1:
			v = vh.Big(g, 70)
		}
		bal[a] = v
	}
	fault := -1
	if g.Intn(8) == 0 {
		fault = g.Intn(n)
	}
	seen := 0
	w := setup(c, func(q *rpcsim.Req) (string, string) {
		if q.Method != "eth_getBalance" {
			return "", "no such method"
		}
		seen++
		b := bal[q.Str(0)]
		if b != nil && q.Str(1) != "latest" { // transactions that nobody has mined
			b = new(big.Int).Add(b, big.NewInt(1))
		}
		if b == nil || fault >= 0 && q.Str(0) == as[fault] {
			return "", "header not found"
		}
		return fmt.Sprintf(`"0x%x"`, b), ""
	})
	if w == nil {
		return
	}
	defer w.close()
	mode := []string{"", "-x", "-d"}[g.Intn(3)]
	args := []string{"balance"}
	if mode != "" {
		args = append(args, mode)
	}
	args = append(args, as...)
	bad := g.Intn(12) == 0
	if bad {
		args[len(args)-1] = badAddrs[g.Intn(len(badAddrs))]
	}
	res := w.run(args, nil)
	if res == nil {
		return
	}
	c.Cell("balance", mode, n, fault >= 0, bad, w.url)
	desc := func() string { return fmt.Sprintf("eth %q: %v\nrequests:\n%s", args, res, w.node.Log()) }
	if bad {
		if res.Exit == 0 || len(res.Out) > 0 && !bytes.Contains(res.Out, []byte("sage")) {
			c.Fail("balance-not-refused", "%s", desc())
		}
		return
	}
	if fault >= 0 {
		if res.Exit == 0 {
			c.Fail("balance-error", "the node failed: %s", desc())
		}
		return
	}
	lines := strings.Split(strings.TrimSuffix(string(res.Out), "\n"), "\n")
	if res.Exit != 0 || len(lines) != n {
		c.Fail("balance", "%d addresses: %s", n, desc())
		return
	}
	for i, l := range lines {
		want := bal[as[i]]
		ok := false
		switch mode {
		case "-x":
			v, o := new(big.Int).SetString(strings.TrimPrefix(l, "0x"), 16)
			ok = o && strings.HasPrefix(l, "0x") && v.Cmp(want) == 0
		case "-d":
			ok = l == want.String()
		default:
			num := strings.TrimSuffix(l, " ETH")
			if num != l && regexp.MustCompile(`^[0-9]+(\.[0-9]+)?$`).MatchString(num) {
				v, o := new(big.Rat).SetString(num)
				ok = o && v.Mul(v, new(big.Rat).SetInt(new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil))).Cmp(new(big.Rat).SetInt(want)) == 0
			}
		}
		if !ok {
			c.Fail("balance", "a balance of %s wei is shown as %q: %s", want, l, desc())
			return
		}
		c.Count("balances", 1)
	}
}

func codes(c *vh.Case) {
	g := c.Rng
	a := addr(g)
	code := vh.Bytes(g, []int{0, 1, 31, 32, 33, 1000, 24576}[g.Intn(7)])
	if len(code) > 0 && g.Intn(3) == 0 {
		code[0] = 0
	}
	fail := g.Intn(8) == 0
	w := setup(c, func(q *rpcsim.Req) (string, string) {
		if q.Method != "eth_getCode" || q.Str(0) != a || fail {
			return "", "no"
		}
		if q.Str(1) != "latest" {
			return `"0x00` + hex.EncodeToString(code) + `"`, ""
		}
		return `"` + hx(code) + `"`, ""
	})
	if w == nil {
		return
	}
	defer w.close()
	args := []string{"code", a}
	bad := false
	switch g.Intn(10) {
	case 0:
		args[1], bad = badAddrs[g.Intn(len(badAddrs))], true
	case 1:
		args, bad = append(args, a), true
	case 2:
		args[1] = "0x" + strings.ToUpper(a[2:])
	}
	res := w.run(args, nil)
	if res == nil {
		return
	}
	c.Cell("code", len(code), bad, fail, w.url)
	desc := func() string { return fmt.Sprintf("eth %q: %v\nrequests:\n%s", args, res, w.node.Log()) }
	if bad || fail {
		if res.Exit == 0 || len(res.Out) > 0 && !bytes.Contains(res.Out, []byte("sage")) {
			c.Fail("code-not-refused", "%s", desc())
		}
		return
	}
	if res.Exit != 0 || strings.TrimPrefix(strings.TrimSuffix(string(res.Out), "\n"), "0x") != hex.EncodeToString(code) {
		c.Fail("code", "code %x: %s", code, desc())
	}
	c.Count("codes", 1)
}

type chain struct {
	head    int64
	pending int64 // number of the pending block, or -1
	seed    int64
}

var quantities = []string{"number", "nonce", "gasLimit", "gasUsed", "difficulty", "totalDifficulty", "timestamp"}

// block is the JSON of a block; every field depends on the number.
func (ch *chain) block(num int64, pending bool) map[string]interface{} {
	g := rand.New(rand.NewSource(ch.seed*1000003 + num*2 + int64(map[bool]int{true: 1}[pending])))
	q := func(bits int) string { return fmt.Sprintf("0x%x", vh.Big(g, bits)) }
	b := map[string]interface{}{
		"number": fmt.Sprintf("0x%x", num), "hash": hx(vh.Bytes(g, 32)), "parentHash": hx(vh.Bytes(g, 32)), "nonce": hx(vh.Bytes(g, 8)),
		"sha3Uncles": hx(vh.Bytes(g, 32)), "logsBloom": hx(vh.Bytes(g, 256)), "transactionsRoot": hx(vh.Bytes(g, 32)),
		"stateRoot": hx(vh.Bytes(g, 32)), "receiptsRoot": hx(vh.Bytes(g, 32)), "miner": hx(vh.Bytes(g, 20)), "gasLimit": q(64), "gasUsed": q(64),
		"difficulty": q(120), "totalDifficulty": q(200), "timestamp": q(40), "extraData": hx(vh.Bytes(g, g.Intn(33))),
	}
	txs := []interface{}{}
	for i := g.Intn(3); i > 0; i-- {
		tx := map[string]interface{}{"hash": hx(vh.Bytes(g, 32)), "from": hx(vh.Bytes(g, 20)), "to": hx(vh.Bytes(g, 20)), "value": q(256), "nonce": q(64),
			"gas": q(64), "gasPrice": q(100), "input": hx(vh.Bytes(g, g.Intn(70))), "someNewField": []interface{}{"x", 1.0}}
		if g.Intn(4) == 0 {
			tx["to"] = nil
		}
		txs = append(txs, tx)
	}
	b["transactions"] = txs
	un := []interface{}{}
	for i := g.Intn(2); i > 0; i-- {
		un = append(un, hx(vh.Bytes(g, 32)))
	}
	b["uncles"] = un
	if pending {
		b["hash"] = nil
		if ch.pending < 0 {
			b["number"] = nil
		}
	}
	return b
}

func (ch *chain) handle(q *rpcsim.Req) (string, string) {
	if q.Method != "eth_getBlockByNumber" {
		return "", "no such method"
	}
	s := q.Str(0)
	var b map[string]interface{}
	switch s {
	case "latest":
		b = ch.block(ch.head, false)
	case "pending":
		n := ch.pending
		if n < 0 {
			n = ch.head + 1
		}
		b = ch.block(n, true)
	case "earliest":
		b = ch.block(0, false)
	default:
		n, err := strconv.ParseInt(strings.TrimPrefix(s, "0x"), 16, 64)
		if err != nil || !strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0x-") {
			return "", "bad block number " + s
		}
		if n > ch.head {
			return "null", ""
		}
		b = ch.block(n, false)
	}
	if string(q.Params[1]) != "true" {
		var hs []interface{}
		for _, t := range b["transactions"].([]interface{}) {
			hs = append(hs, t.(map[string]interface{})["hash"])
		}
		b["transactions"] = append([]interface{}{}, hs...)
	}
	buf, _ := json.Marshal(b)
	return string(buf), ""
}

// norm is a block in a comparable form.
func norm(b map[string]interface{}) string {
	out := map[string]interface{}{}
	for k, v := range b {
		if v == nil || v == "0x" {
			continue
		}
		out[k] = v
	}
	for _, k := range quantities {
		if s, ok := out[k].(string); ok {
			n, o := new(big.Int).SetString(strings.TrimPrefix(s, "0x"), 16)
			if !o {
				continue
			}
			out[k] = n.String()
		}
	}
	buf, _ := json.Marshal(out)
	return string(buf)
}

func number(g *rand.Rand, n int64) string {
	if g.Intn(3) == 0 {
		return fmt.Sprintf("0x%x", n)
	}
	return fmt.Sprint(n)
}

func blocks(c *vh.Case) {
	g := c.Rng
	ch := &chain{head: int64(g.Intn(40)), seed: g.Int63n(1 << 30), pending: -1}
	if g.Intn(4) == 0 {
		ch.head = 1<<40 + int64(g.Intn(1000))
	}
	if g.Intn(2) == 0 {
		ch.pending = ch.head + 1
	}
	w := setup(c, ch.handle)
	if w == nil {
		return
	}
	defer w.close()
	args := []string{"block"}
	var want []map[string]interface{}
	mustFail := false
	mayClip := 0 // leading blocks that may be printed before a failure
	kinds := ""
	one := func() bool { // false: nothing may follow
		base, bn, num := "", map[string]interface{}(nil), int64(0)
		switch g.Intn(5) {
		case 0:
			base, bn, num = "latest", ch.block(ch.head, false), ch.head
		case 1:
			n := ch.pending
			if n < 0 {
				n = ch.head + 1
			}
			base, bn, num = "pending", ch.block(n, true), ch.pending
		case 2:
			base, bn, num = "earliest", ch.block(0, false), 0
		default:
			num = g.Int63n(ch.head + 1)
			if g.Intn(4) == 0 {
				num = ch.head
			}
			base, bn = number(g, num), ch.block(num, false)
			if g.Intn(8) == 0 { // not there
				args = append(args, number(g, ch.head+1+int64(g.Intn(5))))
				kinds += " absent"
				mustFail = true
				return false
			}
		}
		if g.Intn(8) == 0 {
			args = append(args, []string{"newest", "", "1.5", "0xzz", "latest+", "+1", "latest+x", "1+2+3", "1-2-3", "-1", "99999999999999999999", "latest+-2", "0+-1", "0x0+-0x1", "latest-+1", "latest+1.5", "0 + 1"}[g.Intn(17)])
			kinds += " malformed"
			mustFail = true
			return false
		}
		if g.Intn(2) == 0 {
			args = append(args, base)
			want = append(want, bn)
			kinds += " single"
			return true
		}
		k := int64(g.Intn(6))
		op := []string{"+", "-"}[g.Intn(2)]
		args = append(args, base+op+number(g, k))
		kinds += " " + op
		if num < 0 {
			mustFail = true
			kinds += "pending"
			return false
		}
		for i := int64(0); i < k; i++ {
			n := num + i
			if op == "-" {
				n = num - i
			}
			if n < 0 || n > ch.head {
				mustFail = true
				kinds += "beyond"
				return false
			}
			want = append(want, ch.block(n, false))
			mayClip++
		}
		return true
	}
	n := []int{0, 1, 1, 1, 2, 3}[g.Intn(6)]
	if n == 0 {
		p := ch.pending
		if p < 0 {
			p = ch.head + 1
		}
		want = append(want, ch.block(p, true))
		kinds = " default"
	}
	for ; n > 0; n-- {
		if !one() {
			break
		}
	}
	res := w.run(args, nil)
	if res == nil {
		return
	}
	c.Cell("block", kinds, mustFail, len(want), w.url)
	c.Seen("block_form", kinds)
	desc := func() string {
		return fmt.Sprintf("eth %q, head %d: %v\nrequests:\n%s", args, ch.head, res, w.node.Log())
	}
	var got []map[string]interface{}
	d := json.NewDecoder(bytes.NewReader(res.Out))
	for d.More() {
		m := map[string]interface{}{}
		if err := d.Decode(&m); err != nil {
			c.Fail("block-json", "output is no JSON (%v): %s", err, desc())
			return
		}
		got = append(got, m)
	}
	if mustFail && res.Exit == 0 {
		c.Fail("block-not-refused", "%s", desc())
		return
	}
	if !mustFail && (res.Exit != 0 || len(got) != len(want)) {
		c.Fail("block", "%d blocks, not %d: %s", len(got), len(want), desc())
		return
	}
	if len(got) > len(want) {
		c.Fail("block", "%d blocks, there are %d: %s", len(got), len(want), desc())
		return
	}
	for i := range got {
		if a, b := norm(got[i]), norm(want[i]); a != b {
			c.Fail("block", "block %d of the output is\n%s\nnot\n%s\n%s", i, a, b, desc())
			return
		}
		c.Count("blocks", 1)
	}
}

var knownSigs = []string{"allowance(address,address)", "approve(address,uint256)", "balanceOf(address)", "totalSupply()", "transfer(address,uint256)", "transferFrom(address,address,uint256)", "name()", "owner()"}

func tables(c *vh.Case) {
	g := c.Rng
	n := g.Intn(9)
	var es []ethsim.Entry
	var want []string
	names := map[int]string{}
	for i := 0; i < n; i++ {
		e := ethsim.Entry{Sel: vh.Bytes(g, 4), Dest: uint32(g.Intn(65536))}
		if g.Intn(8) == 0 {
			e.Dest = g.Uint32()
		}
		if g.Intn(3) == 0 {
			names[i] = knownSigs[g.Intn(len(knownSigs))]
			e.Sel = ethsim.Selector(names[i])
		}
		es = append(es, e)
		want = append(want, fmt.Sprintf("%x pc:%5d", e.Sel, e.Dest))
	}
	code := ethsim.Table(g, es)
	kind := "table"
	bad := false
	switch g.Intn(8) {
	case 0:
		kind, bad, code = "no code", true, nil
	case 1:
		kind, bad, code = "no table", true, vh.Bytes(g, 1+g.Intn(60))
	case 2: // it ends anywhere
		kind, code = "cut", code[:g.Intn(len(code))+1]
		if n > 0 && g.Intn(2) == 0 { // close to the end of the table
			code = code[:min(es[n-1].End+g.Intn(6), len(code))]
		}
	}
	a := addr(g)
	w := setup(c, func(q *rpcsim.Req) (string, string) {
		if q.Method != "eth_getCode" || q.Str(0) != a {
			return "", "no"
		}
		return `"` + hx(code) + `"`, ""
	})
	if w == nil {
		return
	}
	defer w.close()
	args := []string{"jumptab", a}
	var stdin []byte
	switch g.Intn(4) {
	case 0, 1:
		args[1] = "-"
		stdin = []byte(hex.EncodeToString(code))
		if g.Intn(2) == 0 {
			stdin = append(stdin, '\n')
		}
		if g.Intn(10) == 0 {
			kind, bad = "bad hex", true
			stdin = append(stdin[:0], []byte("6000zz")...)
		}
	}
	res := w.run(args, stdin)
	if res == nil {
		return
	}
	c.Cell("jumptab", n, kind, args[1] == "-", w.url)
	desc := func() string { return fmt.Sprintf("eth %q (%s) code %x: %v", args, kind, code, res) }
	if bad {
		if res.Exit == 0 || len(res.Out) > 0 {
			c.Fail("jumptab-not-refused", "%s", desc())
		}
		return
	}
	var lines []string
	if s := strings.TrimSuffix(string(res.Out), "\n"); s != "" {
		lines = strings.Split(s, "\n")
	}
	// entries are there when some code follows
	least := 0
	for least < n && es[least].End+1 < len(code) && es[least].Start+12 < len(code) {
		least++
	}
	if kind == "cut" && len(lines) <= n && len(lines) >= least {
		c.Count("cut_tables", 1)
	} else if res.Exit != 0 || len(lines) != n {
		c.Fail("jumptab", "%d entries: %s", n, desc())
		return
	}
	for i, l := range lines {
		rest := strings.TrimPrefix(l, want[i])
		if rest == l || names[i] != "" && rest != " "+names[i] {
			c.Fail("jumptab", "entry %q, not %q %s: %s", l, want[i], names[i], desc())
			return
		}
		// any name that is shown has this selector
		if name := strings.TrimSpace(rest); name != "" && !bytes.Equal(ethsim.Selector(name), es[i].Sel) {
			c.Fail("jumptab", "entry %q has another function's name: %s", l, desc())
			return
		}
		c.Count("entries", 1)
	}
	_ = binary.BigEndian
}

func posts(c *vh.Case) {
	g := c.Rng
	n := 1 + g.Intn(3)
	failAt := -1
	if g.Intn(5) == 0 {
		failAt = g.Intn(n)
	}
	var hashes []string
	for i := 0; i < n; i++ {
		hashes = append(hashes, hx(vh.Bytes(g, 32)))
	}
	seen := 0
	w := setup(c, func(q *rpcsim.Req) (string, string) {
		if q.Method != "eth_sendRawTransaction" {
			return "", "no such method"
		}
		seen++
		if seen-1 == failAt || seen > n {
			return "", "already known"
		}
		return `"` + hashes[seen-1] + `"`, ""
	})
	if w == nil {
		return
	}
	defer w.close()
	args := []string{"post"}
	var raws []string
	var stdin []byte
	usedStdin := false
	bad := ""
	for i := 0; i < n; i++ {
		raw := vh.Bytes(g, 1+g.Intn(300))
		if g.Intn(12) == 0 {
			raw = vh.Bytes(g, 1<<16+g.Intn(100000))
		}
		raws = append(raws, hx(raw))
		text := hex.EncodeToString(raw)
		if g.Intn(4) == 0 {
			text = strings.ToUpper(text)
		}
		if g.Intn(2) == 0 {
			text += "\n"
		}
		file := filepath.Join(w.dir, fmt.Sprintf("tx%d", i))
		if g.Intn(12) == 0 {
			bad = []string{"empty", "odd", "digits", "missing", "newline", "space"}[g.Intn(6)]
			switch bad {
			case "newline":
				text = "\n"
			case "space":
				text = text[:2] + " " + text[2:]
			case "empty":
				text = ""
			case "odd":
				text = "123"
			case "digits":
				text = text[:len(text)/2] + "xyz" + text[len(text)/2:]
			}
		}
		if bad != "missing" {
			os.WriteFile(file, []byte(text), 0644)
		}
		if !usedStdin && g.Intn(4) == 0 && bad == "" {
			usedStdin = true
			stdin = []byte(text)
			file = "-"
		}
		args = append(args, file)
		if bad != "" {
			break
		}
	}
	res := w.run(args, stdin)
	if res == nil {
		return
	}
	c.Cell("post", n, failAt, bad, usedStdin, w.url)
	desc := func() string { return fmt.Sprintf("eth %q (%s): %v\nrequests:\n%s", args, bad, res, w.node.Log()) }
	sent := w.node.Calls("eth_sendRawTransaction")
	if bad != "" {
		if res.Exit == 0 || len(sent) > 0 {
			c.Fail("post-not-refused", "%s", desc())
		}
		return
	}
	exp := ""
	for i := range raws {
		if i >= len(sent) {
			if failAt < 0 || i <= failAt {
				c.Fail("post", "transaction %d was not sent: %s", i, desc())
			}
			break
		}
		if sent[i].Str(0) != raws[i] {
			c.Fail("post", "transaction %d is %s, not %s: %s", i, sent[i].Str(0), raws[i], desc())
			return
		}
		if i == failAt {
			if len(sent) > i+1 {
				c.Fail("post", "goes on after an error: %s", desc())
			}
			break
		}
		exp += hashes[i] + "\n"
	}
	if (res.Exit == 0) != (failAt < 0) || string(res.Out) != exp || failAt < 0 && len(sent) != n {
		c.Fail("post", "want output %q: %s", exp, desc())
	}
	c.Count("posted", len(sent))
}
