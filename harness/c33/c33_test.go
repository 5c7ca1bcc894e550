// C33: the command line tool's calls and reads, run as built.
package c33

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"testing"

	"vharness/abigen"
	"vharness/ethsim"
	"vharness/ref"
	"vharness/rpcsim"
	"vharness/vh"
)

var (
	r    *vh.Run
	tool *ethsim.Tool
)

func TestProperty(t *testing.T) {
	r = vh.Start("C33", "runtime-monitored")
	r.Rule("a case is a call or a read with generated signature, arguments, contract code and answers; distinct by the types, the kind of fault put in, the options and the outcome")
	r.Assume("go-ethereum's transaction decoder and signers, and the ABI encoder written for the harness, are right")
	r.Assume("integers are written in decimal or in hexadecimal with 0x; an address has all of its 40 digits or is wrong by more than one digit")
	var err error
	if tool, err = ethsim.New(); err != nil {
		r.HarnessError("%v", err)
		r.Finish()
	}
	r.Cases("call", r.Scale(900, 12000), 0, calls)
	r.Cases("badcall", r.Scale(900, 12000), 0, badcalls)
	r.Cases("read", r.Scale(700, 9000), 0, reads)
	tool.Close()
	r.Finish()
}

func hx(b []byte) string { return "0x" + hex.EncodeToString(b) }

func ident(g *rand.Rand) string {
	n := 1 + g.Intn(8)
	b := make([]byte, n)
	for i := range b {
		b[i] = "abcdefXYZ_019"[g.Intn(10+3*vh1(i))]
	}
	return string(b)
}

func vh1(i int) int {
	if i > 0 {
		return 1
	}
	return 0
}

var texts = []string{"0x1234", "abcd", "true", "[1,2]", "", "-1", "héllo wörld", "a,b", "line\nline", "line\n", "\n", " ", " x ", "0x", "'\"\\$", "%s%d", "\xff\xfe"}

func values(g *rand.Rand, max int) (vs []*abigen.Value, types []string) {
	for n := g.Intn(max + 1); n > 0; n-- {
		typ := abigen.Type(g)
		if g.Intn(6) == 0 {
			s := abigen.Statics()
			typ = s[g.Intn(len(s))]
			if g.Intn(2) == 0 {
				typ += "[]"
			}
		}
		v := abigen.Gen(g, typ)
		for len(v.Bytes) > 30000 || len(v.Array) > 600 { // an argument has at most 128 kB
			v = abigen.Gen(g, typ)
		}
		if typ == "string" && g.Intn(2) == 0 {
			v.Bytes = []byte(texts[g.Intn(len(texts))])
		}
		vs = append(vs, v)
		types = append(types, typ)
	}
	return
}

// world is what one run of the tool meets.
type world struct {
	c     *vh.Case
	dir   string
	key   *ethsim.Key
	other *ethsim.Key
	node  *ethsim.Node
	env   []string

	addr     string // the contract, 40 digits
	code     []byte
	nonce    uint64
	gas      uint64
	gasErr   string
	sendErr  string
	nonceErr string
	ret      string
	retErr   string
	hash     string
}

func setup(c *vh.Case) *world {
	g := c.Rng
	w := &world{c: c, dir: tool.Scratch()}
	kd := filepath.Join(w.dir, "keys")
	os.Mkdir(kd, 0755)
	w.key = ethsim.NewKey(g, "mine", hex.EncodeToString(vh.Bytes(g, 16)), "pw", g.Intn(3) != 0)
	w.other = ethsim.NewKey(g, "other", hex.EncodeToString(vh.Bytes(g, 16)), "pw", true)
	os.WriteFile(filepath.Join(kd, []string{"a", "c"}[g.Intn(2)]), w.key.JSON, 0644)
	os.WriteFile(filepath.Join(kd, "b"), w.other.JSON, 0644)
	w.addr = hex.EncodeToString(vh.Bytes(g, 20))
	w.nonce = uint64(g.Intn(1000))
	if g.Intn(4) == 0 {
		w.nonce = vh.Big(g, 63).Uint64()
	}
	w.gas = 21000 + uint64(g.Intn(5000000))
	w.hash = hx(vh.Bytes(g, 32))
	var err error
	w.node, err = ethsim.Listen(w.dir, g.Intn(4) == 0)
	if err != nil {
		c.HarnessError("listening: %v", err)
		os.RemoveAll(w.dir)
		return nil
	}
	w.node.Handle = w.handle
	w.env = []string{"SETH_URL=" + w.node.URL, "KEY_PATH=" + kd, "ETHER_ADDR=^mine$"}
	return w
}

func (w *world) close() {
	w.node.Close()
	os.RemoveAll(w.dir)
}

func (w *world) handle(q *rpcsim.Req) (string, string) {
	switch q.Method {
	case "eth_getCode":
		if q.Str(0) != "0x"+w.addr {
			return `"0x"`, ""
		}
		return `"` + hx(w.code) + `"`, ""
	case "eth_getTransactionCount":
		if q.Str(0) != "0x"+w.key.Addr {
			return `"0x4d2"`, ""
		}
		return fmt.Sprintf(`"0x%x"`, w.nonce), w.nonceErr
	case "eth_estimateGas":
		return fmt.Sprintf(`"0x%x"`, w.gas), w.gasErr
	case "eth_sendRawTransaction":
		return `"` + w.hash + `"`, w.sendErr
	case "eth_call":
		return `"` + w.ret + `"`, w.retErr
	}
	return "", "the method " + q.Method + " does not exist"
}

func (w *world) sends() []*rpcsim.Req {
	return append(w.node.Calls("eth_sendRawTransaction"), w.node.Calls("eth_sendTransaction")...)
}

func (w *world) run(args []string, typed *string) *ethsim.Result {
	c := w.c
	res, err := tool.Run(ethsim.Cmd{Args: args, Env: w.env, Dir: w.dir, Typed: typed})
	if err != nil {
		c.HarnessError("running %q: %v", args, err)
		return nil
	}
	c.Count("runs", 1)
	if res.Hung {
		c.Fail("hang", "eth %q did not finish: %v", args, res)
		return nil
	}
	if bytes.Contains(res.Err, []byte("\ngoroutine ")) {
		c.Fail("panic", "eth %q panics: %v", args, res)
		return nil
	}
	if len(w.node.Bad) > 0 {
		c.Fail("bad-request", "eth %q: %v", args, w.node.Bad)
		return nil
	}
	return res
}

// pick makes a table of selectors, with sel in it or not.
func table(g *rand.Rand, sel []byte, in bool) ([]byte, int) {
	n := g.Intn(7)
	if in {
		n++
	}
	var es []ethsim.Entry
	at := g.Intn(n + 1)
	if at == n && n > 0 {
		at = n - 1
	}
	for i := 0; i < n; i++ {
		s := vh.Bytes(g, 4)
		if bytes.Equal(s, sel) {
			s[0]++
		}
		if in && i == at {
			s = sel
		} else if g.Intn(4) == 0 { // a near miss
			s = append([]byte{}, sel...)
			s[g.Intn(4)] ^= byte(1 << uint(g.Intn(8)))
		}
		d := uint32(g.Intn(65536))
		if g.Intn(8) == 0 {
			d = uint32(g.Intn(1 << 24))
		}
		es = append(es, ethsim.Entry{Sel: s, Dest: d})
	}
	code := ethsim.Table(g, es)
	if !in && g.Intn(2) == 0 { // elsewhere in the code
		code = append(code, 0x63)
		code = append(code, sel...)
		code = append(code, 0x50, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	}
	return code, n
}

func addrText(g *rand.Rand, a string) string {
	if g.Intn(4) == 0 {
		return "0x" + strings.ToUpper(a)
	}
	return "0x" + a
}

func argv(g *rand.Rand, vs []*abigen.Value) []string {
	var out []string
	for _, v := range vs {
		out = append(out, ethsim.Text(g, v))
	}
	return out
}

func hasNUL(args []string) bool {
	for _, a := range args {
		if strings.IndexByte(a, 0) >= 0 {
			return true
		}
	}
	return false
}

func calls(c *vh.Case) {
	g := c.Rng
	w := setup(c)
	if w == nil {
		return
	}
	defer w.close()
	vs, types := values(g, 5)
	sig := ident(g) + "(" + strings.Join(types, ",") + ")"
	force := g.Intn(3) == 0
	if force {
		w.code = vh.Bytes(g, g.Intn(50))
	} else {
		w.code, _ = table(g, ethsim.Selector(sig), true)
	}
	args := []string{"call"}
	if force {
		args = append(args, "-f")
	}
	nonce := w.nonce
	if g.Intn(3) == 0 {
		nonce = uint64(g.Intn(3)) * uint64(g.Intn(100000))
		args = append(args, "-n", fmt.Sprint(nonce))
	}
	gwei := int64(4)
	if g.Intn(3) == 0 {
		gwei = []int64{0, 1, 20, 999, 5000000000, 9223372037, 20000000000, 1 << 62}[g.Intn(8)]
		args = append(args, fmt.Sprintf("-g=%d", gwei))
	}
	args = append(args, addrText(g, w.addr), sig)
	args = append(args, argv(g, vs)...)
	if hasNUL(args) {
		return
	}
	pw := "pw"
	res := w.run(args, &pw)
	if res == nil {
		return
	}
	c.Eval(1)
	c.Cell("call", strings.Join(types, ","), force, gwei)
	for _, t := range types {
		c.Seen("argument_type", t)
	}
	desc := func() string { return fmt.Sprintf("eth %q: %v\nrequests:\n%s", args, res, w.node.Log()) }
	if res.Exit != 0 {
		c.Fail("refused", "a fitting call is refused: %s", desc())
		return
	}
	sent := w.sends()
	if len(sent) != 1 || sent[0].Method != "eth_sendRawTransaction" || len(sent[0].Params) != 1 {
		c.Fail("sends", "%d transactions sent: %s", len(sent), desc())
		return
	}
	raw, err := hex.DecodeString(strings.TrimPrefix(sent[0].Str(0), "0x"))
	if err != nil {
		c.Fail("raw", "raw transaction %v: %s", err, desc())
		return
	}
	tx, err := ethsim.DecodeTx(raw)
	if err != nil {
		c.Fail("raw", "raw transaction %v: %s", err, desc())
		return
	}
	want := append(ethsim.Selector(sig), abigen.Encode(vs)...)
	if !bytes.Equal(tx.Data, want) {
		c.Fail("data", "call data\n%x\nnot\n%x\n%s", tx.Data, want, desc())
	}
	if tx.To != w.addr {
		c.Fail("to", "sent to %q, not %q: %s", tx.To, w.addr, desc())
	}
	if tx.From != w.key.Addr {
		c.Fail("from", "signed by %q, not %q: %s", tx.From, w.key.Addr, desc())
	}
	if tx.Nonce != nonce {
		c.Fail("nonce", "nonce %d, not %d: %s", tx.Nonce, nonce, desc())
	}
	if price := new(big.Int).Mul(big.NewInt(gwei), big.NewInt(1e9)); tx.Price.Cmp(price) != 0 {
		c.Fail("price", "gas price %v, not %v: %s", tx.Price, price, desc())
	}
	if tx.Value.Sign() != 0 {
		c.Fail("value", "value %v: %s", tx.Value, desc())
	}
	if tx.Gas < w.gas {
		c.Fail("gas", "gas %d, estimated %d: %s", tx.Gas, w.gas, desc())
	}
	if string(res.Out) != w.hash+"\n" {
		c.Fail("output", "does not print the hash %s: %s", w.hash, desc())
	}
	// what was estimated is what was sent
	for _, q := range w.node.Calls("eth_estimateGas") {
		var o map[string]string
		json.Unmarshal(q.Params[0], &o)
		if o["data"] != hx(want) || o["to"] != "0x"+w.addr || o["from"] != "0x"+w.key.Addr {
			c.Fail("estimate", "estimates another call: %s", desc())
		}
	}
	c.Count("sent", 1)
	if c.Index < 3 {
		c.Sample("%s", desc())
	}
}

// wrong makes a text that does not fit the type.
func wrong(g *rand.Rand, typ string) (string, string, bool) {
	if bits, signed, ok := abigen.IsInt(typ); ok {
		one := big.NewInt(1)
		hi := new(big.Int).Lsh(one, uint(bits))
		lo := new(big.Int)
		if signed {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		switch g.Intn(7) {
		case 0:
			return ethsim.IntText(g, hi), "above range", true
		case 1:
			return ethsim.IntText(g, hi.Add(hi, vh.Big(g, 200))), "above range", true
		case 2:
			return ethsim.IntText(g, lo.Sub(lo, one)), "below range", true
		case 3:
			return ethsim.IntText(g, lo.Sub(lo, one).Sub(lo, vh.Big(g, 200))), "below range", true
		case 4:
			return ethsim.IntText(g, new(big.Int).Lsh(one, uint(256+g.Intn(3)))), "beyond a word", true
		default:
			return []string{"", "abc", "1.5", "0x", "1e3", "--1", "true", "1 2", "0xg", "-"}[g.Intn(10)], "no integer", true
		}
	}
	if n, ok := abigen.IsFixed(typ); ok {
		switch g.Intn(4) {
		case 0:
			return hx(vh.Bytes(g, n+1)), "too long", true
		case 1:
			return hx(vh.Bytes(g, n-1)), "too short", true
		case 2:
			return hx(vh.Bytes(g, n))[:2*n+1], "odd digits", true
		}
		return strings.Repeat("zz", n), "no hex", true
	}
	switch typ {
	case "bool":
		return []string{"", "1", "0", "True", "yes", "tru", "falsee", "0x1"}[g.Intn(8)], "no boolean", true
	case "address":
		a := hex.EncodeToString(vh.Bytes(g, 20))
		return []string{a, "0x" + a[:38], "0x" + a + "00", "", "0x", "0x" + a[:39] + "g", "mine", "0X" + a, "0x" + a + "0"}[g.Intn(9)], "no address", true
	case "bytes":
		return []string{"0x1", "abc", "0xzz", "hello!", "0x0x12", " 12"}[g.Intn(6)], "no bytes", true
	}
	if strings.HasSuffix(typ, "[]") {
		elem := strings.TrimSuffix(typ, "[]")
		good := abigen.Gen(g, elem)
		t := ethsim.Text(g, good)
		bad, why, ok := wrong(g, elem)
		if !ok {
			return "", "", false
		}
		switch g.Intn(9) {
		case 0:
			return t, "no brackets", true
		case 1:
			return "[" + t, "no brackets", true
		case 2:
			return t + "]", "no brackets", true
		case 3:
			return "[" + t + ",]", "empty element", true
		case 4:
			return "[," + t + "]", "empty element", true
		case 5:
			return []string{"", "[", "]", "]["}[g.Intn(4)], "no brackets", true
		case 6:
			return "[[" + t + "]]", "nested", true
		}
		if bad == "" {
			bad = "?"
		}
		return "[" + strings.Repeat(t+",", g.Intn(3)) + bad + "]", "element " + why, true
	}
	return "", "", false
}

var unsupported = []string{"uint", "int", "uint7", "int0", "uint0", "uint264", "uint08", "bytes33", "bytes0", "foo", "string[]", "bytes[]", "uint256[][]", "uint256[2]", "function", "fixed128x18", "byte", "Bool", "address payable", "", "tuple", "[]", "bytes01"}

func badcalls(c *vh.Case) {
	g := c.Rng
	w := setup(c)
	if w == nil {
		return
	}
	defer w.close()
	vs, types := values(g, 4)
	name := ident(g)
	texts := argv(g, vs)
	force := g.Intn(2) == 0
	in := true
	reading := g.Intn(4) == 0
	pw := "pw"
	typed := &pw
	addr := addrText(g, w.addr)
	var opts []string
	kind, why := "", ""
	sig := ""
	w.ret = hx(make([]byte, 32))
	maySend := false
	switch g.Intn(12) {
	case 0, 1, 2, 3: // an argument that does not fit
		typ := abigen.Type(g)
		if g.Intn(3) == 0 {
			s := abigen.Statics()
			typ = s[g.Intn(len(s))]
			if g.Intn(3) == 0 {
				typ += "[]"
			}
		}
		t, y, ok := wrong(g, typ)
		if !ok {
			return
		}
		i := g.Intn(len(types) + 1)
		types = append(types[:i:i], append([]string{typ}, types[i:]...)...)
		texts = append(texts[:i:i], append([]string{t}, texts[i:]...)...)
		kind, why = "argument", y+" "+typ
	case 4: // an unsupported type
		typ := unsupported[g.Intn(len(unsupported))]
		if typ == "" && len(types) == 0 {
			return
		}
		i := g.Intn(len(types) + 1)
		types = append(types[:i:i], append([]string{typ}, types[i:]...)...)
		t := []string{"1", "[]", "[1]", "0x12", "", "[[1]]", "true"}[g.Intn(7)]
		texts = append(texts[:i:i], append([]string{t}, texts[i:]...)...)
		kind, why = "type", typ
	case 5: // too few
		if len(texts) == 0 {
			return
		}
		reading = false
		texts = texts[:g.Intn(len(texts))]
		kind = "too few"
	case 6: // too many
		reading = false
		for i := 1 + g.Intn(2); i > 0; i-- {
			texts = append(texts, []string{"1", "", "uint256", "[]", "-n"}[g.Intn(5)])
		}
		kind = "too many"
	case 7: // a malformed signature
		body := strings.Join(types, ",")
		sig = []string{name, name + "(" + body, name + body + ")", name + "(" + body + ")x", name + ")" + body + "(", name + "(" + body + ")()", name + "((" + body + "))", name + "(" + body + ",)", "(" + body + ")", name + "(,)", ""}[g.Intn(11)]
		if sig == "()" || sig == name+"((" || sig == "" && false {
			return
		}
		kind, why = "signature", strings.Replace(strings.Replace(sig, body, "T", 1), name, "f", 1)
	case 8, 9: // no such function
		force, in = false, false
		kind = "no function"
	case 10: // no such contract, or the node fails
		switch g.Intn(5) {
		case 0:
			force = false
			kind = "no code"
		case 1:
			kind = "estimate fails"
			w.gasErr = "execution reverted"
		case 2:
			kind = "nonce fails"
			w.nonceErr = "no"
		case 3:
			kind = "send fails"
			maySend = true
			w.sendErr = "nonce too low"
		case 4:
			kind = "call fails"
			w.retErr = "reverted"
		}
		reading = kind == "call fails"
	case 11: // no key, or a bad address
		switch g.Intn(7) {
		case 6:
			kind = "missing"
		case 0:
			kind = "password"
			pw = "pw2"
		case 1:
			kind = "ambiguous key"
			w.env = append(w.env, "ETHER_ADDR=.")
		case 2:
			kind = "no key"
			w.env = append(w.env, "ETHER_ADDR=^nobody$")
		case 3:
			kind = "no terminal"
			typed = nil
		case 4:
			kind = "contract address"
			addr = []string{w.addr, "0x" + w.addr[:38], "0x" + w.addr + "00", "", "0x", "mine"}[g.Intn(6)]
			w.addr = strings.TrimPrefix(addr, "0x")
		case 5:
			kind = "option"
			opts = [][]string{{"-n", "x"}, {"-g", "1.5"}, {"-q"}, {"-n", "99999999999999999999"}, {"-g", "-1"}}[g.Intn(5)]
		}
		reading = (kind == "contract address" || kind == "missing") && g.Intn(2) == 0
	}
	if sig == "" && kind != "signature" {
		sig = name + "(" + strings.Join(types, ",") + ")"
	}
	if kind != "no code" {
		w.code, _ = table(g, ethsim.Selector(sig), in)
	}
	args := []string{"call"}
	if reading {
		args[0] = "read"
		typed = nil
	}
	if force {
		args = append(args, "-f")
	}
	args = append(args, opts...)
	if kind == "missing" { // no signature, or not even an address
		args, texts = append(args, addr)[:len(args)+g.Intn(2)], nil
	} else {
		args = append(args, addr, sig)
		args = append(args, texts...)
	}
	if hasNUL(args) {
		return
	}
	if reading && kind != "missing" && g.Intn(2) == 0 {
		// the type of the result, but not where it would complete the arguments
		if kind != "signature" {
			args = append(args, "uint256")
		}
	}
	res := w.run(args, typed)
	if res == nil {
		return
	}
	c.Eval(1)
	c.Cell("refusal", kind, why, force, reading)
	c.Seen("refusal", kind+" "+why)
	desc := func() string {
		return fmt.Sprintf("eth %q (%s: %s): %v\nrequests:\n%s", args, kind, why, res, w.node.Log())
	}
	if res.Exit == 0 {
		c.Fail("not-refused", "succeeds: %s", desc())
		return
	}
	if !maySend && len(w.sends()) > 0 {
		c.Fail("sent", "a transaction was sent: %s", desc())
	}
	if reading && kind != "call fails" && len(w.node.Calls("eth_call")) > 0 {
		c.Fail("sent", "a call was made: %s", desc())
	}
	if len(res.Out) > 0 && !bytes.Contains(res.Out, []byte("sage")) {
		c.Fail("output", "prints a result: %s", desc())
	}
	c.Count("refused", 1)
}

// show is how a returned value is printed.
func show(v *abigen.Value) string {
	switch v.Type {
	case "string":
		return string(v.Bytes)
	case "bytes":
		return hex.EncodeToString(v.Bytes)
	case "address":
		return hx(v.Word[12:])
	case "bool":
		return fmt.Sprint(v.Num.Sign() != 0)
	}
	if n, ok := abigen.IsFixed(v.Type); ok {
		return hex.EncodeToString(v.Word[:n])
	}
	return v.Num.String()
}

func reads(c *vh.Case) {
	g := c.Rng
	w := setup(c)
	if w == nil {
		return
	}
	defer w.close()
	vs, types := values(g, 3)
	sig := ident(g) + "(" + strings.Join(types, ",") + ")"
	force := g.Intn(3) == 0
	if force {
		w.code = nil
	} else {
		w.code, _ = table(g, ethsim.Selector(sig), true)
	}
	var rets []*abigen.Value
	var rtypes []string
	for n := []int{0, 1, 1, 1, 2, 3, 4}[g.Intn(7)]; n > 0; n-- {
		typ := abigen.Type(g)
		if strings.HasSuffix(typ, "[]") || g.Intn(3) == 0 {
			s := abigen.Statics()
			typ = s[g.Intn(len(s))]
		}
		rets = append(rets, abigen.Gen(g, typ))
		if (typ == "uint256" || typ == "int256") && g.Intn(2) == 0 {
			typ = strings.TrimSuffix(typ, "256")
		}
		rtypes = append(rtypes, typ)
	}
	data := abigen.Encode(rets)
	kind := "good"
	mustFail := false
	switch g.Intn(6) {
	case 0:
		if len(data) == 0 {
			break
		}
		kind = "truncated"
		data = data[:g.Intn(len(data))]
		ts := make([]string, len(rets))
		for i := range ts {
			ts[i] = rets[i].Type
		}
		_, err := abigen.Decode(data, ts)
		mustFail = err != nil
		if !mustFail {
			kind = "unpadded"
		}
	case 1:
		kind = "trailing data"
		data = append(data, vh.Bytes(g, 32*g.Intn(3))...)
	case 2:
		if g.Intn(2) == 0 {
			kind = "return type"
			mustFail = true
			bad := []string{"uint256[]", "foo", "", "uint7", "bytes33", "Uint256", "int264", "tuple", "bytes0"}[g.Intn(9)]
			i := g.Intn(len(rtypes) + 1)
			rtypes = append(rtypes[:i:i], append([]string{bad}, rtypes[i:]...)...)
			data = append(data, make([]byte, 320)...)
		}
	}
	w.ret = hx(data)
	args := []string{"read"}
	if force {
		args = append(args, "-f")
	}
	args = append(args, addrText(g, w.addr), sig)
	args = append(args, argv(g, vs)...)
	args = append(args, rtypes...)
	if hasNUL(args) {
		return
	}
	res := w.run(args, nil)
	if res == nil {
		return
	}
	c.Eval(1)
	c.Cell("read", strings.Join(types, ","), strings.Join(rtypes, ","), kind, force)
	for _, t := range rtypes {
		c.Seen("return_type", t)
	}
	desc := func() string {
		return fmt.Sprintf("eth %q (%s): %v\nrequests:\n%s\nanswer %s", args, kind, res, w.node.Log(), w.ret)
	}
	if len(w.sends()) > 0 {
		c.Fail("sent", "a read sends a transaction: %s", desc())
	}
	made := w.node.Calls("eth_call")
	want := append(ethsim.Selector(sig), abigen.Encode(vs)...)
	for _, q := range made {
		var o map[string]string
		json.Unmarshal(q.Params[0], &o)
		if o["data"] != hx(want) {
			c.Fail("data", "call data\n%s\nnot\n%x\n%s", o["data"], want, desc())
		}
		if o["to"] != "0x"+w.addr {
			c.Fail("to", "call to %q, not %q: %s", o["to"], w.addr, desc())
		}
		if v := o["value"]; v != "" && v != "0x0" && v != "0x" {
			c.Fail("value", "call with value %q: %s", v, desc())
		}
	}
	if kind == "unpadded" {
		return // both readings of the answer are possible
	}
	if mustFail {
		if res.Exit == 0 || len(res.Out) > 0 {
			c.Fail("bad-answer", "%s, but: %s", kind, desc())
		}
		if kind == "return type" && len(made) > 0 {
			c.Fail("sent", "a call was made: %s", desc())
		}
		c.Count("answers_refused", 1)
		return
	}
	if res.Exit != 0 {
		c.Fail("refused", "a fitting read is refused: %s", desc())
		return
	}
	if len(made) != 1 {
		c.Fail("calls", "%d calls: %s", len(made), desc())
		return
	}
	exp := ""
	for _, v := range rets {
		exp += show(v) + "\n"
	}
	if string(res.Out) != exp {
		c.Fail("printed", "prints %q, not %q: %s", res.Out, exp, desc())
	}
	c.Count("read", 1)
	if c.Index < 3 {
		c.Sample("%s", desc())
	}
}

var _ = ref.N
