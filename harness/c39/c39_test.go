// C39: the daemon of the simulated chain, run as built: it serves the chain
// that its command line names, or ends with an error.
package c39

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"

	"vharness/ethsim"
	"vharness/ref"
	"vharness/rpcsim"
	"vharness/vh"
)

const nobody = 65534

var (
	dir, bin string
	hc       = &http.Client{Timeout: 60 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
)

func TestProperty(t *testing.T) {
	r := vh.Start("C39", "exploration")
	r.Rule("a case is one daemon; distinct by the kind of chain, the kind of source, how it was named, the options, what was done with the chain and the outcome")
	r.Assume("a chain that was forked at block N answers as block N until it has blocks of its own")
	var err error
	if dir, err = os.MkdirTemp("/tmp", "vhctevmd"); err == nil {
		err = os.Chmod(dir, 0755)
	}
	var buf []byte
	if err == nil {
		buf, err = os.ReadFile(os.Getenv("VERIF_BIN_TEVMD"))
	}
	bin = filepath.Join(dir, "tevmd")
	if err == nil {
		err = os.WriteFile(bin, buf, 0755)
	}
	if err == nil {
		err = os.Chmod(bin, 0755)
	}
	if err == nil {
		err = startInfura(dir)
	}
	if err != nil {
		r.HarnessError("%v", err)
		r.Finish()
	}
	r.Cases("fresh", r.Scale(70, 900), 6, func(c *vh.Case) { serve(c, "fresh") })
	r.Cases("fork", r.Scale(110, 1500), 6, func(c *vh.Case) { serve(c, "fork") })
	r.Cases("latest", r.Scale(70, 900), 6, func(c *vh.Case) { serve(c, "latest") })
	r.Cases("bad", r.Scale(160, 1500), 6, badly)
	if strings.HasPrefix(dir, "/tmp/vhctevmd") {
		os.RemoveAll(dir)
	}
	r.Finish()
}

// daemon is one run of the program.
type daemon struct {
	cmd  *exec.Cmd
	addr string
	err  vh.Output
	done chan struct{}
	exit int
}

func (d *daemon) stop() {
	d.cmd.Process.Kill()
	<-d.done
}

func (d *daemon) ended() bool {
	select {
	case <-d.done:
		return true
	default:
		return false
	}
}

func (d *daemon) String() string {
	b := d.err.Bytes()
	if len(b) > 6000 {
		b = append(append([]byte{}, b[:3000]...), b[len(b)-3000:]...)
	}
	s := fmt.Sprintf("tevmd %q", d.cmd.Args[1:])
	if d.ended() {
		s += fmt.Sprintf(" exit %d", d.exit)
	}
	return s + " stderr:\n" + string(b)
}

var port int64 = 20000 + int64(os.Getpid()%2000)*6

// freeAddr is a loopback address that nothing listens at.
func freeAddr(c *vh.Case) string {
	for i := 0; i < 2000; i++ {
		p := atomic.AddInt64(&port, 1)
		if p > 32000 {
			atomic.StoreInt64(&port, 20000)
		}
		a := fmt.Sprintf("127.0.0.1:%d", p)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
	c.HarnessError("no free port")
	return ""
}

// start runs the daemon; it returns when the address accepts connections or
// the daemon has ended.
func start(c *vh.Case, addr, home string, env, args []string) *daemon {
	d := &daemon{addr: addr, done: make(chan struct{})}
	d.cmd = exec.Command(bin, args...)
	d.cmd.Dir = home
	d.cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + home, "GORACE=halt_on_error=0 exitcode=66"}, env...)
	d.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL, Setsid: true}
	d.cmd.Stderr = &d.err
	d.cmd.Stdout = &d.err
	if err := d.cmd.Start(); err != nil {
		c.HarnessError("starting the daemon: %v", err)
		return nil
	}
	go func() {
		err := d.cmd.Wait()
		if ee, ok := err.(*exec.ExitError); ok {
			d.exit = ee.ExitCode()
			if st, ok := ee.Sys().(syscall.WaitStatus); ok && st.Signaled() {
				d.exit = 128 + int(st.Signal())
			}
		}
		close(d.done)
	}()
	limit := time.Now().Add(90 * time.Second)
	for time.Now().Before(limit) {
		if d.ended() {
			return d
		}
		if addr != "" {
			if k, err := net.Dial("tcp", addr); err == nil {
				k.Close()
				// it is this one's, unless it has ended for lack of it
				time.Sleep(20 * time.Millisecond)
				return d
			}
		}
		time.Sleep(4 * time.Millisecond)
	}
	c.Fail("hang", "the daemon neither serves nor ends: %s", d)
	d.stop()
	return nil
}

func panicked(b []byte) bool {
	return bytes.Contains(b, []byte("goroutine ")) && bytes.Contains(b, []byte("panic"))
}

func (d *daemon) check(c *vh.Case, faulty bool) {
	b := d.err.Bytes()
	if bytes.Contains(b, []byte("DATA RACE")) {
		c.Fail("datarace", "%s", d)
	}
	// a request that could not be answered because of the source may end
	// that way, but only the request
	if panicked(b) && (!faulty || !bytes.Contains(b, []byte("http: panic serving"))) {
		c.Fail("panic", "%s", d)
	}
}

var ids int64

// ask sends a request; the error is the answer's, the connection's, or that
// of a malformed answer (which is reported).
func (d *daemon) ask(c *vh.Case, method string, params ...string) (string, error) {
	id := atomic.AddInt64(&ids, 1)
	body := fmt.Sprintf(`{"jsonrpc":"2.0","id":%d,"method":%q,"params":[%s]}`, id, method, strings.Join(params, ","))
	res, err := hc.Post("http://"+d.addr, "application/json", strings.NewReader(body))
	if err != nil {
		return "", err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	if err != nil {
		return "", err
	}
	var m struct {
		Version string `json:"jsonrpc"`
		ID      int64  `json:"id"`
		Result  json.RawMessage
		Error   struct {
			Code    int
			Message string
		}
	}
	if err := json.Unmarshal(b, &m); err != nil || m.ID != id || m.Version != "2.0" || res.StatusCode != 200 {
		c.Fail("answer", "request %s: status %d, answer %s", body, res.StatusCode, b)
		return "", fmt.Errorf("malformed answer")
	}
	c.Count("answers", 1)
	if m.Error.Code != 0 || m.Error.Message != "" {
		return "", fmt.Errorf("%s: %s", body, m.Error.Message)
	}
	return string(m.Result), nil
}

func num(s string) *big.Int {
	v, ok := new(big.Int).SetString(strings.TrimPrefix(strings.Trim(s, `"`), "0x"), 16)
	if !ok {
		return big.NewInt(-1)
	}
	return v
}

func low(a common.Address) string { return strings.ToLower(a.Hex()) }

// runtime returns the storage at the word it is given, and without input
// adds one to slot 0 and logs it.
var runtime, _ = hex.DecodeString("3615601157600035546000526020" + "6000f35b600054600101806000556000526020" + "6000a000")

// initcode returns the runtime.
func initcode() []byte {
	n := byte(len(runtime))
	return append([]byte{0x60, n, 0x60, 12, 0x60, 0, 0x39, 0x60, n, 0x60, 0, 0xf3}, runtime...)
}

// acct is what the source says of an account at a block.
type acct struct {
	bal   *big.Int
	nonce uint64
	code  bool
}

type source struct {
	mu     sync.Mutex
	seed   int64
	pin    int64 // the block that state is to be asked at, -1: not known yet
	head   int64
	heads  map[int64]bool
	users  []common.Address
	codes  []common.Address
	fault  func() (string, string, bool)
	bad    []string
	calls  map[string]int
	blocks map[int64]int
}

func (s *source) at(block int64, a common.Address) acct {
	h := ref.Keccak([]byte(fmt.Sprint(s.seed, block, a.Hex())), 32)
	for _, u := range s.users {
		if u == a {
			return acct{bal: new(big.Int).SetBytes(h[:10]), nonce: uint64(h[11])<<8 + uint64(h[12])}
		}
	}
	for _, u := range s.codes {
		if u == a {
			return acct{bal: new(big.Int).SetBytes(h[:4]), nonce: 1, code: true}
		}
	}
	return acct{bal: new(big.Int)}
}

func (s *source) slot(block int64, a common.Address, k *big.Int) *big.Int {
	if !s.at(block, a).code {
		return new(big.Int)
	}
	h := ref.Keccak([]byte(fmt.Sprint(s.seed, block, a.Hex(), k)), 32)
	if h[0] < 40 {
		return new(big.Int)
	}
	return new(big.Int).SetBytes(h[:1+int(h[1])%32])
}

func (s *source) handle(q *rpcsim.Req) (string, string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.calls == nil {
		s.calls, s.blocks, s.heads = map[string]int{}, map[int64]int{}, map[int64]bool{}
	}
	s.calls[q.Method]++
	bad := func(f string, a ...interface{}) (string, string) {
		m := fmt.Sprintf(f, a...) + " in " + string(q.Raw)
		s.bad = append(s.bad, m)
		return "", m
	}
	str := func(i int) string {
		var v string
		if i < len(q.Params) {
			json.Unmarshal(q.Params[i], &v)
		}
		return v
	}
	if s.fault != nil {
		if res, msg, ok := s.fault(); ok {
			return res, msg
		}
	}
	switch q.Method {
	case "eth_blockNumber":
		s.heads[s.head] = true
		return fmt.Sprintf(`"0x%x"`, s.head), ""
	case "eth_getBlockByNumber":
		n := s.head
		if str(0) != "latest" {
			n = num(str(0)).Int64()
			if n < 0 || n > s.head {
				return "null", ""
			}
		} else {
			s.heads[n] = true
			s.head += int64(len(s.heads)) // the source goes on
		}
		return blockJSON(n), ""
	case "eth_protocolVersion", "eth_chainId", "net_version", "eth_syncing":
		return `"0x3f"`, ""
	}
	np := 2
	if q.Method == "eth_getStorageAt" {
		np = 3
	}
	switch q.Method {
	case "eth_getBalance", "eth_getTransactionCount", "eth_getCode", "eth_getStorageAt":
	default:
		return bad("the source of a fork got a request that does not read its state,")
	}
	if len(q.Params) != np || !common.IsHexAddress(str(0)) {
		return bad("parameters")
	}
	bs := str(np - 1)
	n := s.head
	switch {
	case bs == "earliest":
		n = 0
	case strings.HasPrefix(bs, "0x"):
		n = num(bs).Int64()
	}
	s.blocks[n]++
	if s.pin >= 0 && n != s.pin {
		bad("the chain was forked at block %d; a request names block %s,", s.pin, bs)
	}
	a := common.HexToAddress(str(0))
	v := s.at(n, a)
	switch q.Method {
	case "eth_getBalance":
		return fmt.Sprintf(`"0x%x"`, v.bal), ""
	case "eth_getTransactionCount":
		return fmt.Sprintf(`"0x%x"`, v.nonce), ""
	case "eth_getCode":
		if v.code {
			return fmt.Sprintf(`"0x%x"`, runtime), ""
		}
		return `"0x"`, ""
	}
	return fmt.Sprintf(`"0x%064x"`, s.slot(n, a, num(str(1)))), ""
}

func blockJSON(n int64) string {
	h := hex.EncodeToString(ref.Keccak([]byte(fmt.Sprint("block", n)), 32))
	return fmt.Sprintf(`{"number":"0x%x","hash":"0x%s","parentHash":"0x%s","nonce":"0x0000000000000000","sha3Uncles":"0x%s","logsBloom":"0x","transactionsRoot":"0x%s","stateRoot":"0x%s","receiptsRoot":"0x%s","miner":"0x%s","difficulty":"0x1","totalDifficulty":"0x1","extraData":"0x","size":"0x100","gasLimit":"0x7a1200","gasUsed":"0x0","timestamp":"0x5a000000","transactions":[],"uncles":[]}`,
		n, h, h, h, h, h, h, h[:40])
}

// node makes the source reachable; it returns the arguments that name it.
func node(c *vh.Case, home string, s *source) (args, env []string, kind string, stop func()) {
	g := c.Rng
	switch k := g.Intn(5); k {
	case 0:
		id := infura(s.handle)
		return nil, []string{"HTTPS_PROXY=http://" + id + ":x@" + infuraProxy, "SSL_CERT_FILE=" + infuraCert, "SSL_CERT_DIR=/nonexistent"}, "infura", func() { infuraNodes.Delete(id) }
	default:
		sock := ""
		kind = "http"
		if k < 3 {
			sock = filepath.Join(home, "n.ipc")
			kind = "socket"
		}
		n, err := ethsim.ListenAt(sock)
		if err != nil {
			c.HarnessError("listening: %v", err)
			return nil, nil, "", func() {}
		}
		n.Handle = s.handle
		u := n.URL
		if sock != "" && g.Intn(2) == 0 {
			u = "n.ipc" // relative to the directory it runs in
		}
		if g.Intn(2) == 0 {
			return []string{"-e=" + u}, nil, kind, n.Close
		}
		return []string{"-e", u}, nil, kind, n.Close
	}
}

func scratch(c *vh.Case) string {
	home, err := os.MkdirTemp(dir, "s")
	if err != nil {
		c.HarnessError("%v", err)
		return ""
	}
	os.Chmod(home, 0755)
	os.Chown(home, nobody, nobody)
	return home
}

var defaultAcct = regexp.MustCompile(`default account: (0x[0-9a-f]{40})\b`)

func shuffle(g *rand.Rand, parts [][]string) (out []string) {
	g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// chain is the model of the chain that is served.
type chain struct {
	c     *vh.Case
	g     *rand.Rand
	d     *daemon
	src   *source // nil: a fresh chain
	block int64
	mu    sync.Mutex
	bal   map[common.Address]*big.Int
	nonce map[common.Address]uint64
	count map[common.Address]*big.Int // slot 0 of contracts
	acct  common.Address
	hash  map[string]bool
	// down: the source fails
	down bool
}

func (x *chain) fail(key, f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...) + "\n" + x.d.String()
	x.c.Fail(key, "%s", s)
}

func (x *chain) balance(a common.Address) *big.Int {
	x.mu.Lock()
	defer x.mu.Unlock()
	v := x.bal[a]
	if v == nil {
		v = new(big.Int)
		if x.src != nil {
			v.Set(x.src.at(x.block, a).bal)
		}
		x.bal[a] = v
	}
	return v
}

func (x *chain) nextNonce(a common.Address) uint64 {
	n, ok := x.nonce[a]
	if !ok && x.src != nil {
		n = x.src.at(x.block, a).nonce
	}
	x.nonce[a] = n + 1
	return n
}

func (x *chain) slot0(a common.Address) *big.Int {
	v := x.count[a]
	if v == nil {
		v = new(big.Int)
		if x.src != nil {
			v.Set(x.src.slot(x.block, a, new(big.Int)))
		}
		x.count[a] = v
	}
	return v
}

func (x *chain) block0() string {
	return []string{`"latest"`, `"pending"`}[x.g.Intn(2)]
}

func (x *chain) checkBalance(a common.Address) {
	x.c.Eval(1)
	res, err := x.d.ask(x.c, "eth_getBalance", `"`+low(a)+`"`, x.block0())
	want := x.balance(a)
	if err != nil || num(res).Cmp(want) != 0 {
		x.fail("balance", "balance of %s: got %s (%v), want 0x%x", low(a), res, err, want)
	}
	x.c.Count("balances", 1)
}

// transact sends a transaction and checks its receipt.
func (x *chain) transact(what, obj string) (receipt map[string]interface{}) {
	res, err := x.d.ask(x.c, "eth_sendTransaction", obj)
	if err != nil {
		x.fail("send", "%s %s: %v", what, obj, err)
		return nil
	}
	x.mu.Lock()
	dup := x.hash[res]
	x.hash[res] = true
	x.mu.Unlock()
	if dup || len(res) != 68 {
		x.fail("hash", "%s %s: the hash %s is malformed or that of an earlier transaction", what, obj, res)
		return nil
	}
	rx, err := x.d.ask(x.c, "eth_getTransactionReceipt", res)
	json.Unmarshal([]byte(rx), &receipt)
	if err != nil || receipt == nil || receipt["status"] != "0x1" {
		x.fail("receipt", "%s %s: receipt %s (%v)", what, obj, rx, err)
		return nil
	}
	x.c.Count("transactions", 1)
	return receipt
}

func (x *chain) step() {
	g := x.g
	from := x.acct
	if x.src != nil && g.Intn(3) > 0 {
		from = x.src.users[g.Intn(len(x.src.users))]
	}
	x.c.Eval(1)
	switch g.Intn(7) {
	case 0, 1: // ether
		var to common.Address
		switch {
		case x.src != nil && g.Intn(2) == 0:
			to = x.src.users[g.Intn(len(x.src.users))]
		case x.src != nil && g.Intn(8) == 0:
			to = x.acct
		default:
			g.Read(to[:])
		}
		v := new(big.Int).Rsh(x.balance(from), uint(1+g.Intn(60)))
		if x.transact("transfer", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x30d40","gasPrice":"0x0","value":"0x%x"}`, low(from), low(to), v)) == nil {
			return
		}
		x.nextNonce(from)
		fb, tb := x.balance(from), x.balance(to)
		if from != to {
			fb.Sub(fb, v)
			tb.Add(tb, v)
		}
		x.checkBalance(from)
		x.checkBalance(to)
	case 2: // a contract
		want := crypto.CreateAddress(from, x.nextNonce(from))
		rx := x.transact("creation", fmt.Sprintf(`{"from":"%s","gas":"0xf4240","gasPrice":"0x0","value":"0x0","data":"0x%x"}`, low(from), initcode()))
		if rx == nil {
			return
		}
		if rx["contractAddress"] != low(want) {
			x.fail("create", "the contract created by %s is at %v, want %s", low(from), rx["contractAddress"], low(want))
			return
		}
		x.count[want] = new(big.Int)
		x.read(want)
	case 3: // its counter
		a, ok := x.contract()
		if !ok {
			return
		}
		v := x.slot0(a)
		rx := x.transact("count", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0xf4240","gasPrice":"0x0","value":"0x0"}`, low(from), low(a)))
		if rx == nil {
			return
		}
		x.nextNonce(from)
		v.Add(v, big.NewInt(1))
		v.And(v, mask)
		x.read(a)
	case 4:
		if a, ok := x.contract(); ok {
			x.read(a)
		}
	case 5:
		if x.src != nil {
			x.checkBalance(x.src.users[g.Intn(len(x.src.users))])
			x.checkBalance(x.src.codes[g.Intn(len(x.src.codes))])
		}
		var a common.Address
		g.Read(a[:])
		x.checkBalance(a)
	case 6: // what is no request
		body := []string{"", "{", "null", "[]", "0", `{"id":"x"}`, `{"jsonrpc":"2.0","id":1,"method":"eth_getBalance","params":[1,2]}`,
			`{"jsonrpc":"2.0","id":1,"method":"eth_call","params":[{}]}`, `{"jsonrpc":"2.0","id":1,"method":"eth_sendTransaction","params":[]}`,
			`{"jsonrpc":"2.0","id":1,"method":"eth_sendRawTransaction","params":["0x00"]}`, `{"jsonrpc":"2.0","id":1,"method":"","params":{}}`,
			string(vh.Bytes(g, 1+g.Intn(40)))}[g.Intn(12)]
		res, err := hc.Post("http://"+x.d.addr+"/", "application/json", strings.NewReader(body))
		if err != nil {
			x.fail("garbage", "the body %q: %v", body, err)
			return
		}
		b, _ := io.ReadAll(res.Body)
		res.Body.Close()
		var m struct{ Error struct{ Message string } }
		if res.StatusCode == 200 && (json.Unmarshal(b, &m) != nil || m.Error.Message == "") {
			x.fail("garbage", "the body %q is answered %q", body, b)
		}
		x.c.Count("malformed_requests", 1)
	}
}

var mask = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))

func (x *chain) contract() (common.Address, bool) {
	var l []common.Address
	if x.src != nil {
		l = append(l, x.src.codes...)
	}
	for a := range x.count {
		l = append(l, a)
	}
	if len(l) == 0 {
		return common.Address{}, false
	}
	// in a fixed order
	best := l[0]
	k := x.g.Uint32()
	score := func(a common.Address) string {
		return string(ref.Keccak([]byte(fmt.Sprint(k, a.Hex())), 32))
	}
	for _, a := range l {
		if score(a) < score(best) {
			best = a
		}
	}
	return best, true
}

// read checks a word of a contract's storage.
func (x *chain) read(a common.Address) {
	k := new(big.Int)
	if x.g.Intn(2) == 0 {
		k.SetInt64(int64(x.g.Intn(4)))
		if x.g.Intn(4) == 0 {
			k = vh.Big(x.g, 256)
		}
	}
	want := new(big.Int)
	if k.Sign() == 0 {
		want = x.slot0(a)
	} else if x.src != nil {
		want = x.src.slot(x.block, a, k)
	}
	res, err := x.d.ask(x.c, "eth_call", fmt.Sprintf(`{"to":"%s","data":"0x%064x"}`, low(a), k), x.block0())
	if err != nil || num(res).Cmp(want) != 0 || len(res) != 68 {
		x.fail("storage", "slot %x of %s: got %s (%v), want 0x%x", k, low(a), res, err, want)
	}
	x.c.Count("storage_words", 1)
}

// together has many clients use the chain at once.
func (x *chain) together() {
	g := x.g
	a, ok := x.contract()
	if !ok {
		rx := x.transact("creation", fmt.Sprintf(`{"from":"%s","gas":"0xf4240","gasPrice":"0x0","value":"0x0","data":"0x%x"}`, low(x.acct), initcode()))
		if rx == nil {
			return
		}
		x.nextNonce(x.acct)
		a = common.HexToAddress(fmt.Sprint(rx["contractAddress"]))
		x.count[a] = new(big.Int)
	}
	var to common.Address
	g.Read(to[:])
	n, each := 2+g.Intn(6), 2+g.Intn(6)
	var wg sync.WaitGroup
	before, _ := x.d.ask(x.c, "eth_blockNumber")
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for j := 0; j < each; j++ {
				if (i+j)%2 == 0 {
					x.transact("transfer", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x30d40","gasPrice":"0x0","value":"0x1"}`, low(x.acct), low(to)))
				} else {
					x.transact("count", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0xf4240","gasPrice":"0x0","value":"0x0"}`, low(x.acct), low(a)))
				}
				x.d.ask(x.c, "eth_getBlockByNumber", `"latest"`, "true")
			}
		}(i)
	}
	wg.Wait()
	x.c.Count("concurrent_requests", n*each)
	v, fb, tb := x.slot0(a), x.balance(x.acct), x.balance(to)
	for i := 0; i < n; i++ {
		for j := 0; j < each; j++ {
			x.nextNonce(x.acct)
			if (i+j)%2 == 0 {
				fb.Sub(fb, big.NewInt(1))
				tb.Add(tb, big.NewInt(1))
			} else {
				v.Add(v, big.NewInt(1))
			}
		}
	}
	v.And(v, mask)
	after, _ := x.d.ask(x.c, "eth_blockNumber")
	if num(after).Cmp(num(before)) <= 0 {
		x.fail("height", "%d transactions, and the block number went from %s to %s", n*each, before, after)
	}
	x.checkBalance(x.acct)
	x.checkBalance(to)
	for i := 0; i < 3; i++ {
		x.read(a)
	}
}

// outage is a time in which the source fails.
func (x *chain) outage() {
	g := x.g
	kind := g.Intn(3)
	x.src.mu.Lock()
	x.src.fault = func() (string, string, bool) {
		switch kind {
		case 0:
			return "", "header not found", true
		case 1:
			return `"0xzz"`, "", true
		}
		return `{}`, "", true
	}
	x.src.mu.Unlock()
	x.down = true
	for i := 0; i < 3; i++ {
		// accounts of the source that nobody asked about yet
		a := common.BytesToAddress(vh.Bytes(g, 20))
		x.src.mu.Lock()
		x.src.users = append(x.src.users, a)
		x.src.mu.Unlock()
		res, err := x.d.ask(x.c, "eth_getBalance", `"`+low(a)+`"`, x.block0())
		if err == nil {
			x.fail("source-failed", "the source fails (kind %d), and the balance of %s is said to be %s", kind, low(a), res)
		}
		if g.Intn(2) == 0 {
			_, err := x.d.ask(x.c, "eth_sendTransaction", fmt.Sprintf(`{"from":"%s","to":"%s","gas":"0x30d40","gasPrice":"0x0","value":"0x1"}`, low(a), low(x.acct)))
			if err == nil {
				x.fail("source-failed", "the source fails (kind %d), and a transfer from %s is accepted", kind, low(a))
			}
		}
	}
	x.src.mu.Lock()
	x.src.fault = nil
	x.src.mu.Unlock()
	x.c.Count("outages", 1)
}

func serve(c *vh.Case, kind string) {
	g := c.Rng
	home := scratch(c)
	if home == "" {
		return
	}
	defer os.RemoveAll(home)
	addr := freeAddr(c)
	if addr == "" {
		return
	}
	aflag := []string{"-a", addr}
	if g.Intn(3) == 0 {
		aflag = []string{"-a=" + addr}
	}
	if g.Intn(4) == 0 {
		aflag[len(aflag)-1] = strings.Replace(aflag[len(aflag)-1], "127.0.0.1", "", 1)
	}
	opts := [][]string{aflag}
	verbose := g.Intn(4) == 0
	if verbose {
		opts = append(opts, []string{"-v"})
	}
	x := &chain{c: c, g: g, bal: map[common.Address]*big.Int{}, nonce: map[common.Address]uint64{}, count: map[common.Address]*big.Int{}, hash: map[string]bool{}}
	var env, cmd []string
	skind := "none"
	if kind != "fresh" {
		s := &source{seed: g.Int63(), pin: -1, head: 1 + g.Int63n(1<<uint(4+g.Intn(45))), heads: map[int64]bool{}}
		for i := 0; i < 4; i++ {
			s.users = append(s.users, common.BytesToAddress(vh.Bytes(g, 20)))
		}
		for i := 0; i < 3; i++ {
			s.codes = append(s.codes, common.BytesToAddress(vh.Bytes(g, 20)))
		}
		cmd = []string{"fork"}
		x.block = -1
		if kind == "fork" {
			x.block = g.Int63n(s.head + 1)
			if g.Intn(8) == 0 {
				x.block = []int64{0, 1, s.head}[g.Intn(3)]
			}
			s.pin = x.block
			n := strconv.FormatInt(x.block, 10)
			if g.Intn(6) == 0 {
				n = "00"[:1+g.Intn(2)] + n
			}
			cmd = append(cmd, n)
		}
		a, e, k, stop := node(c, home, s)
		defer stop()
		if k == "" {
			return
		}
		opts, env, skind = append(opts, a), e, k
		x.src = s
	}
	args := append(shuffle(g, opts), cmd...)
	var d *daemon
	for try := 0; ; try++ {
		if d = start(c, addr, home, env, args); d == nil {
			return
		}
		if !d.ended() || !bytes.Contains(d.err.Bytes(), []byte("address already in use")) || try == 5 {
			break
		}
		// somebody took the port meanwhile
		old := addr
		if addr = freeAddr(c); addr == "" {
			return
		}
		for i := range args {
			args[i] = strings.Replace(args[i], old[strings.Index(old, ":"):], addr[strings.Index(addr, ":"):], 1)
		}
	}
	defer d.stop()
	x.d = d
	c.Count("daemons", 1)
	if d.ended() {
		x.fail("not-served", "the daemon ended")
		return
	}
	m := defaultAcct.FindSubmatch(d.err.Bytes())
	if m == nil {
		x.fail("default-account", "no default account is told")
		return
	}
	x.acct = common.HexToAddress(string(m[1]))
	if kind == "latest" {
		res, err := d.ask(c, "eth_blockNumber")
		n := num(res).Int64()
		x.src.mu.Lock()
		ok := x.src.heads[n]
		x.src.pin = n
		heads := x.src.heads
		calls := fmt.Sprint(x.src.calls)
		x.src.mu.Unlock()
		if err != nil || !ok {
			x.fail("latest", "forked at block %s (%v); the source named %v as its latest block (%s)", res, err, heads, calls)
			return
		}
		x.block = n
	} else if kind == "fork" {
		res, err := d.ask(c, "eth_blockNumber")
		if err != nil || num(res).Int64() != x.block {
			x.fail("fork-number", "forked at block %d, the block number is %s (%v)", x.block, res, err)
			return
		}
	}
	// the default account has money of its own
	res, err := d.ask(c, "eth_getBalance", `"`+low(x.acct)+`"`, `"latest"`)
	if err != nil || num(res).Cmp(big.NewInt(1e18)) < 0 {
		x.fail("default-account", "the default account %s has %s (%v)", low(x.acct), res, err)
		return
	}
	x.bal[x.acct] = num(res)
	steps := 4 + g.Intn(14)
	out := g.Intn(steps * 2)
	tog := g.Intn(steps * 2)
	for i := 0; i < steps && !c.Failed(); i++ {
		x.step()
		if i == tog {
			x.together()
		}
		if i == out && x.src != nil {
			x.outage()
		}
	}
	if d.ended() {
		x.fail("died", "the daemon ended by itself")
	}
	logged := bytes.Contains(d.err.Bytes(), []byte("eth_getBalance"))
	d.stop()
	d.check(c, x.down)
	if logged != verbose && !c.Failed() && !x.down {
		x.fail("verbose", "verbose: %v; requests on the log: %v", verbose, logged)
	}
	if x.src != nil {
		x.src.mu.Lock()
		if len(x.src.bad) > 0 {
			x.fail("source-request", "%v", x.src.bad)
		}
		for n := range x.src.blocks {
			if n != x.block {
				x.fail("source-block", "forked at block %d; the source was asked for block %d", x.block, n)
			}
		}
		c.Count("source_requests", x.src.calls["eth_getBalance"]+x.src.calls["eth_getCode"]+x.src.calls["eth_getStorageAt"]+x.src.calls["eth_getTransactionCount"])
		x.src.mu.Unlock()
	}
	c.Cell(kind, skind, len(aflag), verbose, tog < steps, x.down)
}

// badly runs command lines that name no chain.
func badly(c *vh.Case) {
	g := c.Rng
	home := scratch(c)
	if home == "" {
		return
	}
	defer os.RemoveAll(home)
	addr := freeAddr(c)
	if addr == "" {
		return
	}
	opts := [][]string{{"-a", addr}}
	if g.Intn(4) == 0 {
		opts = append(opts, []string{"-v"})
	}
	var cmd, env []string
	s := &source{seed: g.Int63(), pin: -1, head: 1000, heads: map[int64]bool{}}
	kind := []string{"number", "argument", "many", "source", "address", "flag", "missing", "refused"}[g.Intn(8)]
	sub := ""
	src := func() {
		a, e, k, stop := node(c, home, s)
		_ = stop
		sub += "/" + k
		if k != "" {
			opts, env = append(opts, a), e
		}
	}
	switch kind {
	case "number":
		src()
		v := []string{"", "x", "-1", "-9223372036854775808", "9223372036854775808", "1.5", "1e3", "12z", " 12", "latest", "--", "0b2", "0x10", "1_0", "0o7", "5,6", "123456789012345678901234567890", "-"}[g.Intn(18)]
		sub = v + sub
		cmd = []string{"fork", v}
	case "argument":
		v := []string{"Fork", "frok", "fork5", "5", "serve", "", "forks", "help", "-"}[g.Intn(9)]
		sub = v
		cmd = []string{v}
		if g.Intn(2) == 0 {
			src()
			if g.Intn(2) == 0 {
				cmd = append(cmd, "12")
			}
		}
	case "many":
		src()
		cmd = [][]string{{"fork", "1", "2"}, {"fork", "1", ""}, {"fork", "5", "-v"}, {"fork", "-v", "-v"}}[g.Intn(4)]
		sub = strings.Join(cmd, " ") + sub
	case "source": // it is to be asked for its latest block, and fails
		src()
		k := g.Intn(6)
		sub = fmt.Sprint(k) + sub
		s.fault = func() (string, string, bool) {
			switch k {
			case 0:
				return "", "no", true
			case 1:
				return "null", "", true
			case 2: // without a number
				return strings.Replace(blockJSON(10), `"number":"0xa"`, `"number":null`, 1), "", true
			case 3:
				return `[1]`, "", true
			case 4:
				return "{}", "", true
			}
			return strings.Replace(blockJSON(10), `"number":"0xa"`, `"number":"x"`, 1), "", true
		}
		cmd = []string{"fork"}
	case "address":
		k := g.Intn(4)
		sub = fmt.Sprint(k)
		switch k {
		case 0: // in use
			l, err := net.Listen("tcp", addr)
			if err != nil {
				c.HarnessError("%v", err)
				return
			}
			defer l.Close()
		case 1:
			opts[0][1] = "127.0.0.1:99999"
		case 2:
			opts[0][1] = "127.0.0.1"
		case 3: // not allowed to an unprivileged user, or nobody's address
			opts[0][1] = "192.0.2.77:8043"
		}
		addr = ""
		if g.Intn(2) == 0 {
			src()
			cmd = []string{"fork", "7"}
		}
	case "flag":
		v := [][]string{{"-x"}, {"-a"}, {"--fork"}, {"-e"}, {"-v=maybe"}}[g.Intn(5)]
		sub = v[0]
		if v[0] == "-a" || v[0] == "-e" {
			opts = append(opts, []string{})
			cmd = v
		} else {
			opts = append(opts, v)
		}
	case "missing":
		opts = append(opts, []string{"-e", filepath.Join(home, "none.ipc")})
		cmd = [][]string{{"fork"}, {"fork", "12"}}[g.Intn(2)]
		sub = strings.Join(cmd, " ")
	case "refused":
		// bound without listening, so that nobody else comes to serve there
		fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0)
		if err != nil {
			c.HarnessError("%v", err)
			return
		}
		defer syscall.Close(fd)
		if err = syscall.Bind(fd, &syscall.SockaddrInet4{Addr: [4]byte{127, 0, 0, 1}}); err != nil {
			c.HarnessError("%v", err)
			return
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			c.HarnessError("%v", err)
			return
		}
		opts = append(opts, []string{"-e", fmt.Sprintf("http://127.0.0.1:%d/", sa.(*syscall.SockaddrInet4).Port)})
		cmd = []string{"fork"}
	}
	args := append(shuffle(g, opts), cmd...)
	d := start(c, addr, home, env, args)
	if d == nil {
		return
	}
	defer d.stop()
	c.Eval(1)
	c.Cell(kind, sub)
	c.Count("bad_command_lines", 1)
	if !d.ended() {
		select { // it may still be about to end
		case <-d.done:
		case <-time.After(300 * time.Millisecond):
			c.Fail("served-"+kind, "a chain is served (%s %s): %s", kind, sub, d)
			return
		}
	}
	if d.exit == 0 || len(bytes.TrimSpace(d.err.Bytes())) == 0 {
		c.Fail("no-error-"+kind, "%s %s: %s", kind, sub, d)
	}
	d.check(c, false)
	if len(s.bad) > 0 {
		c.Fail("source-request", "%v: %s", s.bad, d)
	}
}
