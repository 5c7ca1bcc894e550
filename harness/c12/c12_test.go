// C12: concurrent calls on one connection.
package c12

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philhofer/seth"

	"vharness/rpcsim"
	"vharness/vh"
)

type outcome struct {
	kind string // result, error, null
	body string // JSON of result, or message
	code int
	data string
}

// expectation of a token's call is a pure function of the token
func expect(seed int64, tok string) outcome {
	h := int64(0)
	for _, c := range tok {
		h = h*131 + int64(c)
	}
	g := rand.New(rand.NewSource(seed ^ h))
	switch g.Intn(10) {
	case 0:
		return outcome{kind: "null"}
	case 1:
		return outcome{kind: "error", body: "err " + tok, code: -32000 - g.Intn(5), data: `"` + tok + `"`}
	case 2:
		if g.Intn(2) == 0 {
			return outcome{kind: "error", body: "m " + tok, code: 0, data: `{"tok":"` + tok + `"}`}
		}
		return outcome{kind: "error", body: "", code: 1 + g.Intn(1000000), data: `["` + tok + `"]`}
	default:
		pad := g.Intn(64)
		if g.Intn(40) == 0 {
			pad = 20000
		}
		switch g.Intn(4) {
		case 0:
			return outcome{kind: "result", body: `"` + tok + strings.Repeat("x", pad) + `"`}
		case 1:
			return outcome{kind: "result", body: `{"tok":"` + tok + `","id":1,"pad":"` + strings.Repeat("y", pad) + `"}`}
		case 2:
			return outcome{kind: "result", body: `["` + tok + `",false,null,{"error":{"code":1}}]`}
		}
		return outcome{kind: "result", body: []string{"0", "false", `""`, "{}", "[]", `"0x"`}[g.Intn(6)]}
	}
}

func (o outcome) reply(g *rand.Rand, id string) []byte {
	switch o.kind {
	case "null":
		return rpcsim.Response(g, id, `"result":null`)
	case "error":
		var parts []string
		if o.code != 0 || g.Intn(2) == 0 {
			parts = append(parts, fmt.Sprintf(`"code":%d`, o.code))
		}
		if o.body != "" || g.Intn(2) == 0 {
			parts = append(parts, fmt.Sprintf(`"message":%q`, o.body))
		}
		parts = append(parts, `"data":`+o.data)
		g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
		return rpcsim.Response(g, id, `"error":{`+strings.Join(parts, ",")+`}`)
	}
	return rpcsim.Response(g, id, `"result":`+o.body)
}

type incoming struct {
	req *rpcsim.Req
	tok string
}

type server struct {
	c       *vh.Case
	seed    int64
	conn    io.ReadWriteCloser
	policy  string
	callers int

	mu    sync.Mutex
	cond  *sync.Cond
	queue []incoming
	eof   bool
	ids   map[string]string
	toks  map[string]int
	order []string // ids in order of reply
	bad   string
	maxq  int
}

func (s *server) fail(format string, args ...interface{}) {
	s.mu.Lock()
	if s.bad == "" {
		s.bad = fmt.Sprintf(format, args...)
	}
	s.eof = true
	s.cond.Broadcast()
	s.mu.Unlock()
	s.conn.Close()
}

func (s *server) accept(raw []byte) (incoming, bool) {
	req, err := rpcsim.ParseReq(raw)
	if err != nil {
		s.fail("the server cannot parse request %q: %v", raw, err)
		return incoming{}, false
	}
	var tok string
	if len(req.Params) != 2 || json.Unmarshal(req.Params[0], &tok) != nil || req.Method != "m_"+tok[:1] {
		s.fail("request differs from the call: %s", raw)
		return incoming{}, false
	}
	s.mu.Lock()
	other, dup := s.ids[string(req.ID)]
	s.ids[string(req.ID)] = tok
	s.toks[tok]++
	n := s.toks[tok]
	s.mu.Unlock()
	if dup {
		s.fail("request id %s is used by %s and %s", req.ID, other, tok)
		return incoming{}, false
	}
	if n != 1 {
		s.fail("call %s was sent %d times", tok, n)
		return incoming{}, false
	}
	return incoming{req, tok}, true
}

func (s *server) read() {
	dec := json.NewDecoder(s.conn)
	for {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			s.mu.Lock()
			s.eof = true
			s.cond.Broadcast()
			s.mu.Unlock()
			if _, ok := err.(*json.SyntaxError); ok || err == io.ErrUnexpectedEOF {
				s.fail("the request stream is not a sequence of JSON values: %v", err)
			}
			return
		}
		in, ok := s.accept(raw)
		if !ok {
			return
		}
		s.mu.Lock()
		s.queue = append(s.queue, in)
		if len(s.queue) > s.maxq {
			s.maxq = len(s.queue)
		}
		s.cond.Broadcast()
		s.mu.Unlock()
	}
}

func (s *server) noise(g *rand.Rand) []byte {
	s.mu.Lock()
	n := len(s.order)
	var old string
	if n > 0 {
		old = s.order[g.Intn(n)]
	}
	s.mu.Unlock()
	switch k := g.Intn(5); {
	case k == 0 && old != "":
		s.c.Count("duplicate_responses", 1)
		return rpcsim.Response(g, old, `"result":"duplicate"`)
	case k == 1 && old != "":
		s.c.Count("duplicate_responses", 1)
		return rpcsim.Response(g, old, `"error":{"code":-1,"message":"duplicate"}`)
	case k == 2:
		s.c.Count("notifications", 1)
		return []byte(`{"jsonrpc":"2.0","method":"eth_subscription","params":{"subscription":"0x1","result":{}}}` + "\n")
	case k == 3:
		s.c.Count("unsolicited_responses", 1)
		return rpcsim.Response(g, fmt.Sprint(1000000+g.Intn(1000)), `"result":"unsolicited"`)
	default:
		s.c.Count("unsolicited_responses", 1)
		return rpcsim.Response(g, fmt.Sprint([]int{0, -1, -7}[g.Intn(3)]), `"error":{"code":-32700,"message":"unsolicited"}`)
	}
}

func (s *server) write(p []byte) bool {
	_, err := s.conn.Write(p)
	return err == nil
}

// one sequential loop: read a request, write its reply, read the next
func (s *server) sequential(g *rand.Rand) {
	dec := json.NewDecoder(s.conn)
	for {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			if _, ok := err.(*json.SyntaxError); ok || err == io.ErrUnexpectedEOF {
				s.fail("the request stream is not a sequence of JSON values: %v", err)
			}
			return
		}
		in, ok := s.accept(raw)
		if !ok {
			return
		}
		if g.Intn(4) == 0 && !s.write(s.noise(g)) {
			return
		}
		if !s.write(expect(s.seed, in.tok).reply(g, string(in.req.ID))) {
			return
		}
		s.mu.Lock()
		s.order = append(s.order, string(in.req.ID))
		s.mu.Unlock()
	}
}

func (s *server) dispatch(g *rand.Rand) {
	first := s.policy == "barrier"
	for {
		s.mu.Lock()
		for !s.eof && (len(s.queue) == 0 || first && len(s.queue) < s.callers) {
			s.cond.Wait()
		}
		first = false
		if s.eof {
			s.mu.Unlock()
			return
		}
		s.mu.Unlock()
		for k := g.Intn(20); k > 0 && s.policy != "fifo"; k-- {
			runtime.Gosched()
		}
		s.mu.Lock()
		n := 1
		if g.Intn(2) == 0 {
			n = 1 + g.Intn(len(s.queue))
		}
		var batch []incoming
		for ; n > 0; n-- {
			i := 0
			switch s.policy {
			case "lifo":
				i = len(s.queue) - 1
			case "random", "barrier":
				i = g.Intn(len(s.queue))
			}
			batch = append(batch, s.queue[i])
			s.queue = append(s.queue[:i], s.queue[i+1:]...)
		}
		s.mu.Unlock()
		var out []byte
		for _, in := range batch {
			if g.Intn(6) == 0 {
				out = append(out, s.noise(g)...)
			}
			out = append(out, expect(s.seed, in.tok).reply(g, string(in.req.ID))...)
			s.mu.Lock()
			s.order = append(s.order, string(in.req.ID))
			s.mu.Unlock()
			if g.Intn(2) == 0 {
				if !s.write(out) {
					return
				}
				out = nil
			}
		}
		if out != nil && !s.write(out) {
			return
		}
	}
}

func check(tok string, want outcome, raw json.RawMessage, err error) string {
	switch want.kind {
	case "null":
		if !errors.Is(err, seth.ErrNotFound) {
			return fmt.Sprintf("call %s answered null returned (%.200s, %v), want ErrNotFound", tok, raw, err)
		}
	case "error":
		var re *seth.RPCError
		if !errors.As(err, &re) {
			return fmt.Sprintf("call %s answered with error %d %q returned (%.200s, %v)", tok, want.code, want.body, raw, err)
		}
		if re.Code != want.code || re.Message != want.body || string(re.Data) != want.data {
			return fmt.Sprintf("call %s was answered with error %d %q %s and returned error %d %q %s", tok, want.code, want.body, want.data, re.Code, re.Message, re.Data)
		}
	default:
		if err != nil {
			return fmt.Sprintf("call %s answered %.200s returned error %v", tok, want.body, err)
		}
		if string(raw) != want.body {
			return fmt.Sprintf("call %s was answered %.200s and returned %.200s", tok, want.body, raw)
		}
	}
	return ""
}

var sockN int64

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C12", "exploration")
	r.Rule("an evaluation is one call checked against the reply the server computed for it; cells are distinct (policy, transport, callers, reply permutation) signatures")
	r.Assume("a response carrying the id of a request that is still pending is that request's response")
	policies := []string{"fifo", "lifo", "random", "barrier", "sequential"}
	r.CasesLimit("mix", r.Scale(420, 9000), 0, 90*time.Second, func(c *vh.Case) {
		g := c.Rng
		policy := policies[g.Intn(len(policies))]
		callers := 1 + g.Intn(24)
		if g.Intn(8) == 0 {
			callers = 64
		}
		perCaller := 1 + g.Intn(12)
		transport := []string{"buffered", "tight", "netpipe", "unix"}[g.Intn(4)]
		var cl, sv io.ReadWriteCloser
		var end *rpcsim.End
		var cleanup func()
		switch transport {
		case "buffered", "tight":
			ca, cb := 0, 0
			if transport == "tight" {
				ca, cb = 1+g.Intn(200), 1+g.Intn(200)
			}
			a, b := rpcsim.Pair(g.Int63(), ca, cb)
			a.MaxRead, a.MaxWrite = []int{0, 1, 7, 100}[g.Intn(4)], []int{0, 1, 13, 100}[g.Intn(4)]
			a.Yield = g.Float64() / 2
			b.MaxWrite = []int{0, 1, 50, 400}[g.Intn(4)]
			b.Yield = g.Float64() / 2
			cl, sv, end = a, b, a
		case "netpipe":
			cl, sv = net.Pipe()
		case "unix":
			path := filepath.Join(os.TempDir(), fmt.Sprintf("s%d", atomic.AddInt64(&sockN, 1)))
			l, err := net.Listen("unix", path)
			if err != nil {
				c.HarnessError("listen: %v", err)
				return
			}
			defer l.Close()
			acc := make(chan net.Conn, 1)
			go func() {
				conn, err := l.Accept()
				if err == nil {
					acc <- conn
				}
				close(acc)
			}()
			inner := seth.IPCPath(path)
			conn, err := inner()
			if err != nil {
				c.Fail("dial", "IPCPath(%q) does not connect: %v", path, err)
				return
			}
			cl, sv = conn, <-acc
		}
		s := &server{c: c, seed: g.Int63(), conn: sv, policy: policy, callers: callers, ids: map[string]string{}, toks: map[string]int{}}
		s.cond = sync.NewCond(&s.mu)
		var dials int32
		client := seth.NewClient(func() (io.ReadWriteCloser, error) {
			if atomic.AddInt32(&dials, 1) > 1 {
				return nil, errors.New("second dial")
			}
			return cl, nil
		})
		var swg sync.WaitGroup
		sg := rand.New(rand.NewSource(g.Int63()))
		if policy == "sequential" {
			swg.Add(1)
			go func() { defer swg.Done(); s.sequential(sg) }()
		} else {
			swg.Add(2)
			go func() { defer swg.Done(); s.read() }()
			go func() { defer swg.Done(); s.dispatch(sg) }()
		}
		_ = cleanup
		type res struct {
			tok string
			raw json.RawMessage
			err error
		}
		results := make([][]res, callers)
		var done int64
		var wg sync.WaitGroup
		for i := 0; i < callers; i++ {
			wg.Add(1)
			cg := rand.New(rand.NewSource(g.Int63()))
			go func(i int) {
				defer wg.Done()
				for j := 0; j < perCaller; j++ {
					tok := fmt.Sprintf("%c%d.%d", 'a'+rune(cg.Intn(26)), i, j)
					p0, _ := json.Marshal(tok)
					p1, _ := json.Marshal(strings.Repeat("p", cg.Intn(300)))
					var raw json.RawMessage
					err := client.Do("m_"+tok[:1], []json.RawMessage{p0, p1}, &raw)
					atomic.AddInt64(&done, 1)
					results[i] = append(results[i], res{tok, raw, err})
					for k := cg.Intn(4); k > 0; k-- {
						runtime.Gosched()
					}
				}
			}(i)
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		var last int64 = -1
	wait:
		for {
			select {
			case <-fin:
				break wait
			case <-time.After(20 * time.Second):
				n := atomic.LoadInt64(&done)
				if n == last {
					c.Fail("hang", "no call completed for 20 s: %d of %d done; policy %s, transport %s, server: %q\n%s",
						n, callers*perCaller, policy, transport, s.bad, vh.Stacks())
					sv.Close()
					return
				}
				last = n
			}
		}
		s.mu.Lock()
		bad := s.bad
		order := append([]string(nil), s.order...)
		s.eof = true
		s.cond.Broadcast()
		s.mu.Unlock()
		sv.Close()
		swg.Wait()
		if bad != "" {
			c.Fail("stream", "%s (policy %s, transport %s)", bad, policy, transport)
			return
		}
		if end != nil && end.Overlaps() > 0 {
			c.Fail("overlap", "%d writes ran at the same time on one connection", end.Overlaps())
		}
		for i := range results {
			for _, x := range results[i] {
				if m := check(x.tok, expect(s.seed, x.tok), x.raw, x.err); m != "" {
					c.Fail("mismatch", "%s (policy %s, transport %s, %d callers)", m, policy, transport, callers)
					return
				}
				c.Eval(1)
			}
		}
		if len(s.toks) != callers*perCaller {
			c.Fail("lost", "%d calls returned but the server saw %d requests", callers*perCaller, len(s.toks))
		}
		if d := atomic.LoadInt32(&dials); d != 1 && transport != "x" {
			c.Fail("redial", "a healthy connection was dialled %d times", d)
		}
		inOrder := sort.SliceIsSorted(order, func(i, j int) bool {
			return len(order[i]) < len(order[j]) || len(order[i]) == len(order[j]) && order[i] < order[j]
		})
		if !inOrder {
			c.Count("reordered_histories", 1)
		}
		c.Count("max_outstanding_total", s.maxq)
		c.Count("calls", callers*perCaller)
		c.Cell(policy, transport, callers, order)
		c.Seen("policy_transport", policy+"/"+transport)
		c.Seen("reply_orders", strings.Join(order, ","))
		if c.Index < 6 {
			c.Sample("%s %s: %d callers x %d calls, replies in id order %v, most outstanding %d", policy, transport, callers, perCaller, inOrder, s.maxq)
		}
	})
	// one connection that lives for long: calls stay pending while very many
	// others pass, so that no id may come round again meanwhile
	r.CasesLimit("long", r.Scale(2, 6), 2, 200*time.Second, func(c *vh.Case) {
		longLived(c, 70000+c.Rng.Intn(3000)+c.Index/2*100000)
	})
	r.Finish()
}

func longLived(c *vh.Case, total int) {
	g := c.Rng
	a, b := rpcsim.Pair(g.Int63(), 0, 0)
	client := seth.NewClient(func() (io.ReadWriteCloser, error) { return a, nil })
	const slow, quick = 6, 8
	var mu sync.Mutex
	held := map[string]string{} // token to id
	pending := map[string]string{}
	var bad string
	seen := make(chan string, slow)
	var left int64 = quick
	all := make(chan struct{})
	go func() {
		defer b.Close()
		dec := json.NewDecoder(b)
		for {
			var raw json.RawMessage
			if dec.Decode(&raw) != nil {
				return
			}
			req, err := rpcsim.ParseReq(raw)
			var tok string
			if err != nil || len(req.Params) != 1 || json.Unmarshal(req.Params[0], &tok) != nil {
				mu.Lock()
				bad = fmt.Sprintf("request %.200s", raw)
				mu.Unlock()
				return
			}
			id := string(req.ID)
			mu.Lock()
			if other, dup := pending[id]; dup {
				bad = fmt.Sprintf("request %s has the id %s of %s, which is still pending", tok, id, other)
				mu.Unlock()
				return
			}
			if strings.HasPrefix(tok, "slow") {
				held[tok], pending[id] = id, tok
				mu.Unlock()
				seen <- tok
				continue
			}
			mu.Unlock()
			if _, err := fmt.Fprintf(b, `{"jsonrpc":"2.0","id":%s,"result":%q}`, id, tok); err != nil {
				return
			}
		}
	}()
	type out struct {
		tok, got string
		err      error
	}
	res := make(chan out, slow+quick)
	call := func(tok string) out {
		var got string
		p, _ := json.Marshal(tok)
		err := client.Do("m", []json.RawMessage{p}, &got)
		return out{tok, got, err}
	}
	hung := time.After(150 * time.Second)
	ask := func(i int) bool {
		go func() { res <- call(fmt.Sprint("slow", i)) }()
		select {
		case <-seen:
			return true
		case <-hung:
		case o := <-res:
			mu.Lock()
			c.Fail("long", "call %s returned (%q, %v) before it was answered; %s", o.tok, o.got, o.err, bad)
			mu.Unlock()
		}
		return false
	}
	for i := 0; i < slow/2; i++ {
		if !ask(i) {
			return
		}
	}
	var done int64
	for w := 0; w < quick; w++ {
		go func(w int) {
			defer func() {
				if atomic.AddInt64(&left, -1) == 0 {
					close(all)
				}
			}()
			for i := 0; i < total/quick; i++ {
				if o := call(fmt.Sprintf("q%d.%d", w, i)); o.err != nil || o.got != o.tok {
					res <- o
					return
				}
				atomic.AddInt64(&done, 1)
			}
		}(w)
	}
	for atomic.LoadInt64(&done) < int64(total/3) {
		time.Sleep(time.Millisecond)
		select {
		case <-all:
			atomic.StoreInt64(&done, int64(total))
		case <-hung:
			return
		default:
		}
	}
	for i := slow / 2; i < slow; i++ {
		if !ask(i) {
			return
		}
	}
	select {
	case <-all:
	case o := <-res:
		mu.Lock()
		c.Fail("long", "call %s returned (%q, %v) after %d calls; %s", o.tok, o.got, o.err, atomic.LoadInt64(&done), bad)
		mu.Unlock()
		return
	case <-hung:
		return
	}
	mu.Lock()
	ids := make(map[string]string)
	for k, v := range held {
		ids[k] = v
	}
	mu.Unlock()
	for _, i := range g.Perm(slow) {
		tok := fmt.Sprint("slow", i)
		fmt.Fprintf(b, `{"jsonrpc":"2.0","id":%s,"result":%q}`, ids[tok], tok)
		select {
		case o := <-res:
			if o.err != nil || o.tok != tok || o.got != tok {
				c.Fail("long", "the reply to %s, sent after %d calls, reached the call %s as (%q, %v)", tok, total, o.tok, o.got, o.err)
				return
			}
		case <-time.After(30 * time.Second):
			c.Fail("long", "the reply to %s, sent after %d calls, reached no call", tok, total)
			return
		}
	}
	c.Eval(int(done))
	c.Count("long_lived_calls", int(done))
	c.Cell("long", total)
	a.Close()
}
