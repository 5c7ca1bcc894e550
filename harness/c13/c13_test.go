// C13: connections that break, and reconnection.
package c13

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/philhofer/seth"

	"vharness/rpcsim"
	"vharness/vh"
)

var errDial = errors.New("scripted dial error")

// one dialled connection as the world knows it
type conn struct {
	n         int
	plan      string
	a, b      *rpcsim.End
	broken    bool // a fault fired or the server ended the connection
	replied   map[string]bool
	got       map[string]bool
	requests  int
	maxid     int
	ids       []int
	noReplies bool
}

type world struct {
	c       *vh.Case
	mu      sync.Mutex
	conns   []*conn
	seen    map[string]int // token -> connection
	dials   int
	dialErr int
	healthy bool
	bad     string
	g       *rand.Rand // under mu
	plans   []string
	wg      sync.WaitGroup
}

func (w *world) fail(f string, a ...interface{}) {
	if w.bad == "" {
		w.bad = fmt.Sprintf(f, a...)
	}
}

func (w *world) broke(k *conn) {
	w.mu.Lock()
	k.broken = true
	w.mu.Unlock()
}

func (w *world) isBroken(k *conn) bool { return k.broken || k.a.Faulted() || k.b.Faulted() }

func (w *world) dial() (io.ReadWriteCloser, error) {
	w.mu.Lock()
	w.dials++
	plan := "none"
	if !w.healthy {
		plan = w.plans[w.g.Intn(len(w.plans))]
	}
	seed := w.g.Int63()
	if plan == "dialerror" {
		w.dialErr++
		w.mu.Unlock()
		w.c.Count("fault_dialerror", 1)
		return nil, errDial
	}
	g := rand.New(rand.NewSource(seed))
	capab, capba := 0, 0
	if g.Intn(2) == 0 {
		capab, capba = 20+g.Intn(300), 20+g.Intn(300)
	}
	a, b := rpcsim.Pair(seed, capab, capba)
	a.MaxRead, a.MaxWrite = []int{0, 1, 30}[g.Intn(3)], []int{0, 1, 30}[g.Intn(3)]
	a.Yield, b.Yield = g.Float64()/2, g.Float64()/2
	k := &conn{n: len(w.conns), plan: plan, a: a, b: b, replied: map[string]bool{}, got: map[string]bool{}}
	switch plan {
	case "failread":
		a.FailRead = g.Intn(400)
	case "failwrite":
		a.FailWrite = g.Intn(600)
	case "zombie":
		a.FailWrite = 100 + g.Intn(600)
		a.KeepPeer = true
		a.SetZombie()
	}
	w.conns = append(w.conns, k)
	w.wg.Add(1)
	w.mu.Unlock()
	go w.serve(k, g)
	return a, nil
}

var garbage = []string{
	`}`, `{"id":"abc","result":1}`, `{"id":1.5,"result":1}`, `[1,2]`, `"text"`, `{"id":1,"result":`, "\x00\xff", `{"id":3 "result":2}`,
	`HTTP/1.1 400 Bad Request` + "\r\n", `{"id":99999999999999999999999,"result":1}`, `{"error":"text","id":1}`, `12`, `nul`, `{"id":1,"error":{"code":"x"}}`,
}

func (w *world) serve(k *conn, g *rand.Rand) {
	defer w.wg.Done()
	limit := -1
	if k.plan == "serverclose" || k.plan == "garbage" || k.plan == "stall" || k.plan == "halfreply" {
		limit = 1 + g.Intn(8)
	}
	if g.Intn(6) == 0 && k.plan == "serverclose" {
		limit = 0
	}
	end := func() {
		w.broke(k)
		w.c.Count("fault_"+k.plan, 1)
		if g.Intn(2) == 0 {
			k.b.CloseWrite()
			// let the client notice first
			for i := 0; i < 50 && k.a.Closed() == 0; i++ {
				time.Sleep(time.Duration(g.Intn(100)) * time.Microsecond)
			}
		}
		k.b.Close()
	}
	if limit == 0 {
		end()
		return
	}
	dec := json.NewDecoder(k.b)
	var held []rpcsim.Req
	for {
		var raw json.RawMessage
		if err := dec.Decode(&raw); err != nil {
			_, syn := err.(*json.SyntaxError)
			w.mu.Lock()
			if (syn || err == io.ErrUnexpectedEOF) && !w.isBroken(k) && k.a.Closed() == 0 && k.plan == "none" {
				w.fail("request stream of healthy connection %d is broken: %v", k.n, err)
			}
			w.mu.Unlock()
			if k.plan == "zombie" {
				w.zombie(k, g)
			}
			if k.a.Faulted() {
				w.c.Count("fault_"+k.plan, 1)
			}
			k.b.Close()
			return
		}
		req, err := rpcsim.ParseReq(raw)
		var tok string
		if err == nil && len(req.Params) > 0 {
			json.Unmarshal(req.Params[0], &tok)
		}
		w.mu.Lock()
		if err != nil || tok == "" {
			w.fail("bad request %q on connection %d: %v", raw, k.n, err)
		} else if o, ok := w.seen[tok]; ok {
			w.fail("call %s was sent on connection %d and again on %d", tok, o, k.n)
		}
		w.seen[tok] = k.n
		k.got[tok] = true
		k.requests++
		fmt.Sscan(string(req.ID), &k.maxid)
		k.ids = append(k.ids, k.maxid)
		w.mu.Unlock()
		held = append(held, *req)
		if k.plan == "stall" {
			if len(held) < limit {
				w.idle(k)
				continue
			}
			end()
			return
		}
		if limit > 0 && k.requests >= limit {
			switch k.plan {
			case "garbage":
				if g.Intn(2) == 0 {
					w.answer(k, g, &held)
				}
				w.broke(k)
				k.b.Write([]byte(garbage[g.Intn(len(garbage))]))
				end()
				return
			case "halfreply":
				w.broke(k)
				rep := w.reply(k, g, &held[0])
				var tok string
				json.Unmarshal(held[0].Params[0], &tok)
				w.mu.Lock()
				k.replied[tok] = true // the half may be all but trailing space
				w.mu.Unlock()
				k.b.Write(rep[:g.Intn(len(rep))])
				end()
				return
			case "serverclose":
				if g.Intn(2) == 0 {
					w.answer(k, g, &held)
				}
				end()
				return
			}
		}
		if g.Intn(3) > 0 || len(held) > 3 || limit < 0 {
			if !w.answer(k, g, &held) {
				if k.plan == "zombie" {
					continue
				}
				k.b.Close()
				return
			}
		} else {
			w.idle(k)
		}
	}
}

// idle ends a connection with unanswered requests if no more arrive
func (w *world) idle(k *conn) {
	w.c.Count("stalled_requests", 1)
	w.mu.Lock()
	n := k.requests
	w.mu.Unlock()
	go func() {
		time.Sleep(2 * time.Millisecond)
		w.mu.Lock()
		same := k.requests == n
		if same {
			k.broken = true
		}
		w.mu.Unlock()
		if same {
			k.b.Close()
		}
	}()
}

func (w *world) reply(k *conn, g *rand.Rand, r *rpcsim.Req) []byte {
	var tok string
	json.Unmarshal(r.Params[0], &tok)
	return rpcsim.Response(g, string(r.ID), fmt.Sprintf(`"result":{"tok":%q,"conn":%d}`, tok, k.n))
}

func (w *world) answer(k *conn, g *rand.Rand, held *[]rpcsim.Req) bool {
	for len(*held) > 0 {
		i := g.Intn(len(*held))
		r := (*held)[i]
		*held = append((*held)[:i], (*held)[i+1:]...)
		var tok string
		json.Unmarshal(r.Params[0], &tok)
		w.mu.Lock()
		k.replied[tok] = true
		w.mu.Unlock()
		for n := g.Intn(4); n > 0; n-- {
			runtime.Gosched()
		}
		if id := w.stale(k, g); id != 0 {
			// an answer to a request of an earlier connection
			w.c.Count("late_answers", 1)
			if _, err := k.b.Write(rpcsim.Response(g, fmt.Sprint(id), `"result":{"tok":"late","conn":-2}`)); err != nil {
				return false
			}
		}
		if _, err := k.b.Write(w.reply(k, g, &r)); err != nil {
			return false
		}
	}
	return true
}

// stale returns the id of some request that only earlier connections carried
func (w *world) stale(k *conn, g *rand.Rand) int {
	if g.Intn(6) > 0 || k.n == 0 {
		return 0
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	o := w.conns[g.Intn(k.n)]
	if len(o.ids) == 0 {
		return 0
	}
	return o.ids[g.Intn(len(o.ids))]
}

// zombie answers requests of later connections on the old one, which the
// client has closed but whose reader is still at work
func (w *world) zombie(k *conn, g *rand.Rand) {
	for i := 0; i < 400 && k.a.Closed() == 0; i++ {
		time.Sleep(50 * time.Microsecond)
	}
	if k.a.Closed() == 0 {
		return
	}
	for i := 0; i < 60; i++ {
		w.mu.Lock()
		top := 0
		for _, o := range w.conns {
			if o.maxid > top {
				top = o.maxid
			}
		}
		w.mu.Unlock()
		id := top + g.Intn(4) - 1
		if _, err := k.b.Write(rpcsim.Response(g, fmt.Sprint(id), `"result":{"tok":"zombie","conn":-1}`)); err != nil {
			return
		}
		w.c.Count("zombie_responses", 1)
		time.Sleep(time.Duration(g.Intn(60)) * time.Microsecond)
	}
}

type result struct {
	tok string
	err error
	out struct {
		Tok  string `json:"tok"`
		Conn int    `json:"conn"`
	}
}

func (w *world) call(cl *seth.Client, tok string) result {
	r := result{tok: tok}
	p0, _ := json.Marshal(tok)
	r.err = cl.Do("m", []json.RawMessage{p0, json.RawMessage(`"` + strings.Repeat("z", len(tok)*3) + `"`)}, &r.out)
	return r
}

// judge checks one finished call; the world is quiet
func (w *world) judge(r result) string {
	n, sent := w.seen[r.tok]
	if r.err == nil {
		if r.out.Tok != r.tok {
			return fmt.Sprintf("call %s returned the result of %q (connection %d)", r.tok, r.out.Tok, r.out.Conn)
		}
		if !sent || n != r.out.Conn || !w.conns[n].replied[r.tok] {
			return fmt.Sprintf("call %s returned a result of connection %d that was not sent there", r.tok, r.out.Conn)
		}
		return ""
	}
	if sent {
		k := w.conns[n]
		if !w.isBroken(k) {
			return fmt.Sprintf("call %s was sent on connection %d, which never failed, and returned error %v", r.tok, n, r.err)
		}
		return ""
	}
	if w.dialErr == 0 {
		for _, k := range w.conns {
			if w.isBroken(k) {
				return ""
			}
		}
		return fmt.Sprintf("call %s returned error %v although nothing failed", r.tok, r.err)
	}
	return ""
}

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C13", "exploration")
	r.Rule("an evaluation is one call whose outcome was checked against what its connection did; cells are distinct (fault plan, position, outcomes) histories")
	r.Assume("after garbage on the stream the server closes the connection")
	plans := []string{"none", "dialerror", "failread", "failwrite", "serverclose", "garbage", "stall", "halfreply", "zombie"}
	r.CasesLimit("faults", r.Scale(3000, 40000), 0, 90*time.Second, func(c *vh.Case) {
		g := c.Rng
		w := &world{c: c, seen: map[string]int{}, g: rand.New(rand.NewSource(g.Int63()))}
		if g.Intn(3) == 0 {
			w.plans = []string{plans[g.Intn(len(plans))], "none"}
		} else {
			for i := 0; i < 6; i++ {
				w.plans = append(w.plans, plans[g.Intn(len(plans))])
			}
		}
		cl := seth.NewClient(w.dial)
		callers, per := 1+g.Intn(12), 1+g.Intn(12)
		if g.Intn(5) == 0 {
			callers = 1
		}
		results := make([][]result, callers)
		var done int64
		progress := func(what string, fin chan struct{}) bool {
			last := int64(-1)
			for {
				select {
				case <-fin:
					return true
				case <-time.After(20 * time.Second):
					n := atomic.LoadInt64(&done)
					if n == last {
						c.Fail("hang", "%s: no call returned for 20 s (%d returned); plans %v\n%s", what, n, w.plans, vh.Stacks())
						return false
					}
					last = n
				}
			}
		}
		var wg sync.WaitGroup
		for i := 0; i < callers; i++ {
			wg.Add(1)
			cg := rand.New(rand.NewSource(g.Int63()))
			go func(i int) {
				defer wg.Done()
				for j := 0; j < per; j++ {
					results[i] = append(results[i], w.call(cl, fmt.Sprintf("t%d.%d", i, j)))
					atomic.AddInt64(&done, 1)
					for n := cg.Intn(5); n > 0; n-- {
						runtime.Gosched()
					}
				}
			}(i)
		}
		fin := make(chan struct{})
		go func() { wg.Wait(); close(fin) }()
		if !progress("faulty phase", fin) {
			return
		}
		// the server is back: break what is there, then every call but at
		// most one (which may still meet the broken connection) succeeds
		w.mu.Lock()
		w.healthy = true
		var cur *conn
		if n := len(w.conns); n > 0 {
			cur = w.conns[n-1]
			cur.broken = true
		}
		w.mu.Unlock()
		if cur != nil {
			cur.b.Close()
			cur.b.Break()
		}
		var after []result
		fin = make(chan struct{})
		go func() {
			for i := 0; i < 4; i++ {
				after = append(after, w.call(cl, fmt.Sprintf("after%d", i)))
				atomic.AddInt64(&done, 1)
			}
			close(fin)
		}()
		if !progress("after the server is back", fin) {
			return
		}
		fails := 0
		for i, x := range after {
			if x.err != nil {
				fails++
				if fails > 1 || i > 0 {
					c.Fail("noreconnect", "call %d after the server is back returned %v (earlier failures: %d); plans %v", i, x.err, fails-1, w.plans)
					return
				}
			}
		}
		// a pending call fails with its connection, and the next reconnects
		w.mu.Lock()
		cur = w.conns[len(w.conns)-1]
		w.healthy = true
		base := w.dials
		w.mu.Unlock()
		hold := newHold(cl, w)
		if m := hold.run(c, g, &done, progress); m != "" {
			c.Fail("pending", "%s; plans %v", m, w.plans)
			return
		}
		_ = base
		w.mu.Lock()
		for _, k := range w.conns {
			k.b.Close()
		}
		w.mu.Unlock()
		w.wg.Wait()
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.bad != "" {
			c.Fail("stream", "%s; plans %v", w.bad, w.plans)
			return
		}
		var sig []string
		for _, rs := range append(results, after) {
			for _, x := range rs {
				if m := w.judge(x); m != "" {
					c.Fail("outcome", "%s; plans %v", m, w.plans)
					return
				}
				c.Eval(1)
				if x.err != nil {
					c.Count("calls_failed", 1)
					c.Seen("errors", x.err.Error())
					sig = append(sig, "e")
				} else {
					c.Count("calls_succeeded", 1)
					sig = append(sig, "s")
				}
			}
		}
		var ps []string
		for _, k := range w.conns {
			ps = append(ps, fmt.Sprint(k.plan, k.requests, len(k.replied)))
		}
		c.Count("connections", len(w.conns))
		c.Cell(ps, sig)
		if c.Index < 8 {
			c.Sample("%d callers x %d; connections %v; outcomes %s", callers, per, ps, strings.Join(sig, ""))
		}
	})
	r.Finish()
}

// hold has its own client whose first connection never answers
type hold struct {
	cl *seth.Client
	w  *world
}

func newHold(cl *seth.Client, w *world) *hold { return &hold{cl, w} }

func (h *hold) run(c *vh.Case, g *rand.Rand, done *int64, progress func(string, chan struct{}) bool) string {
	n := 1 + g.Intn(5)
	got := make(chan struct{}, 100)
	var end *rpcsim.End
	var mu sync.Mutex
	dials := 0
	cl := seth.NewClient(func() (io.ReadWriteCloser, error) {
		mu.Lock()
		dials++
		d := dials
		mu.Unlock()
		a, b := rpcsim.Pair(int64(d), 0, 0)
		if d == 1 {
			end = b
		}
		go func() {
			dec := json.NewDecoder(b)
			for {
				var raw json.RawMessage
				if dec.Decode(&raw) != nil {
					b.Close()
					return
				}
				if d == 1 {
					got <- struct{}{}
					continue
				}
				var q rpcsim.Req
				json.Unmarshal(raw, &q)
				fmt.Fprintf(b, `{"id":%s,"result":%s}`, q.ID, q.Params[0])
			}
		}()
		return a, nil
	})
	errs := make([]error, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			var out string
			errs[i] = cl.Do("m", []json.RawMessage{json.RawMessage(`"p"`)}, &out)
			atomic.AddInt64(done, 1)
		}(i)
	}
	for i := 0; i < n; i++ {
		<-got
	}
	switch g.Intn(3) {
	case 0:
		end.Close()
	case 1:
		end.Write([]byte(garbage[0]))
		end.Close()
	case 2:
		end.Break()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	if !progress("pending calls of a broken connection", fin) {
		return ""
	}
	for i := range errs {
		if errs[i] == nil {
			return "a call that was never answered returned success"
		}
		c.Count("pending_calls_failed", 1)
	}
	var outs [3]string
	var err error
	fin = make(chan struct{})
	go func() {
		defer close(fin)
		for i := range outs {
			if err = cl.Do("m", []json.RawMessage{json.RawMessage(fmt.Sprintf(`"q%d"`, i))}, &outs[i]); err != nil {
				return
			}
			atomic.AddInt64(done, 1)
		}
	}()
	if !progress("call after the pending ones failed", fin) {
		return ""
	}
	if err != nil {
		return fmt.Sprintf("after the pending calls failed, a call returned %v", err)
	}
	for i := range outs {
		if outs[i] != fmt.Sprintf("q%d", i) {
			return fmt.Sprintf("wrong result %q", outs[i])
		}
	}
	mu.Lock()
	defer mu.Unlock()
	if dials != 2 {
		return fmt.Sprintf("%d dials for one broken connection", dials)
	}
	return ""
}
