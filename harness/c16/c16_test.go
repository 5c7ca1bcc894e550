// C16: log filters of the client, in virtual time.
package c16

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/philhofer/seth"

	"vharness/rpcsim"
	"vharness/vh"
)

type server struct {
	g        *rand.Rand
	mu       sync.Mutex
	ids      []string
	created  []json.RawMessage
	removed  map[string]int
	pending  []int // log numbers not yet fetched
	next     int
	reported []int // in the order of successful replies
	polls    int
	lat      time.Duration
	closedAt time.Time
	failAt   int // poll at which the server fails for good (-1: never)
	flaky    float64
	mode     int // how the server fails (0: in every way)
	failed   int // failing replies
	bad      string
	poll     bool
	trace    []string
	salt     int
}

func (s *server) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

// position gives what the nth log consists of: a block, an index in it, a
// transaction and a value; two logs never share both block and index, but any
// of the others, unless one is the removal of the other
func (s *server) position(n int) (block, index, tx, value int) {
	switch s.salt % 6 {
	case 0: // one per block
		return n, 0, n + 1, n
	case 1: // one transaction has several alike
		return n / 5, n % 5, n/5 + 1, 7
	case 2: // all look the same
		return n, 0, n + 1, 7
	case 3: // each is taken back, and some are back again
		return n / 3, n / 3 % 2, n/3 + 1, n / 3
	}
	return n / 3, 4 + n%3, n + 1, n
}

// taken says whether the nth log is the removal of the one before, as after a
// reorganisation of the chain
func (s *server) taken(n int) bool { return s.salt%6 == 3 && n%3 == 1 }

func (s *server) logJSON(n int) string {
	block, index, tx, value := s.position(n)
	return fmt.Sprintf(`{"removed":%v,"logIndex":"0x%x","transactionIndex":"0x1","transactionHash":"0x%064x","blockHash":"0x%064x","blockNumber":"0x%x","address":"0x%040x","data":"0x%064x","topics":["0x%064x"]}`,
		s.taken(n), index, tx, block, block, s.salt, value, value)
}

func (s *server) check(l *seth.Log, n int) string {
	block, index, tx, value := s.position(n)
	want := fmt.Sprintf("0x%064x", value)
	if l.Data.String() != want || len(l.Topics) != 1 || l.Topics[0].String() != want || l.TxHash == nil || l.TxHash.String() != fmt.Sprintf("0x%064x", tx) ||
		l.Address.String() != fmt.Sprintf("0x%040x", s.salt) || l.BlockNumber == nil || uint64(*l.BlockNumber) != uint64(block) ||
		l.LogIndex == nil || uint64(*l.LogIndex) != uint64(index) || l.Removed != s.taken(n) {
		return fmt.Sprintf("log %s (index %v, tx %v, block %v)", l.Data.String(), l.LogIndex, l.TxHash, l.BlockNumber)
	}
	return ""
}

func (s *server) emit(n int) {
	for ; n > 0; n-- {
		s.pending = append(s.pending, s.next)
		s.next++
	}
}

func (s *server) handle(q *rpcsim.Req) (string, error) {
	s.mu.Lock()
	now := time.Now()
	known := func() bool {
		id := q.Str(0)
		for _, x := range s.ids {
			if x == id {
				return s.removed[id] == 0
			}
		}
		s.fail("%s names filter %q; %q exist", q.Method, id, s.ids)
		return false
	}
	switch q.Method {
	case "eth_newFilter":
		id := fmt.Sprintf("0x%x", s.g.Int63())
		switch s.g.Intn(6) {
		case 0:
			id = "0x1"
		case 1, 2: // such as geth gives out
			id = fmt.Sprintf("0x%x%016x", 1+s.g.Uint64()>>uint(s.g.Intn(64)), s.g.Uint64())
		case 3:
			id = fmt.Sprintf("0x%x", 1<<63|s.g.Uint64()>>uint(s.g.Intn(63)))
		}
		s.ids = append(s.ids, id)
		if len(q.Params) == 1 {
			s.created = append(s.created, q.Params[0])
		}
		s.mu.Unlock()
		return `"` + id + `"`, nil
	case "eth_uninstallFilter":
		k := known()
		s.removed[q.Str(0)]++
		s.mu.Unlock()
		return fmt.Sprint(k), nil
	case "eth_getFilterLogs", "eth_getFilterChanges":
		s.polls++
		if !s.closedAt.IsZero() && now.After(s.closedAt) {
			s.fail("%s was sent %v after Close", q.Method, now.Sub(s.closedAt))
		}
		if (s.polls == 1) != (q.Method == "eth_getFilterLogs") {
			// the server reports anew what eth_getFilterLogs asks for again
			s.fail("fetch %d is %s", s.polls, q.Method)
		}
		if s.polls > 1 && !s.poll {
			s.fail("a filter on a closed block range was polled again")
		}
		var d time.Duration
		if s.lat > 0 {
			d = time.Duration(s.g.Int63n(int64(s.lat)))
		}
		mode := 0
		if s.failAt >= 0 && s.polls > s.failAt || s.g.Float64() < s.flaky {
			s.failed++
			mode = 1 + s.g.Intn(6)
			if s.mode > 0 {
				mode = s.mode
			}
			s.trace = append(s.trace, "E")
		}
		early := s.g.Intn(2) == 0 // logs are collected before or after the delay
		if !early && d > 0 {
			s.mu.Unlock()
			time.Sleep(d)
			s.mu.Lock()
		}
		if !known() {
			s.mu.Unlock()
			return "", &seth.RPCError{Code: -32000, Message: "filter not found"}
		}
		var out string
		var err error
		switch mode {
		case 0:
			var parts []string
			for _, n := range s.pending {
				parts = append(parts, s.logJSON(n))
			}
			s.reported = append(s.reported, s.pending...)
			s.trace = append(s.trace, fmt.Sprint(len(s.pending)))
			s.pending = nil
			out = "[" + strings.Join(parts, ",") + "]"
			if len(parts) == 0 && s.g.Intn(8) == 0 {
				out = "[ ]"
			}
		case 1:
			err = errors.New("connection refused")
		case 2:
			err = &seth.RPCError{Code: -32000, Message: "filter not found"}
		case 3:
			out = `[{"data":"zz"}]`
		case 4:
			out = `{"x":1}`
		case 5:
			err = io.ErrUnexpectedEOF
		case 6:
			out = "null"
		}
		s.mu.Unlock()
		if early && d > 0 {
			time.Sleep(d)
		}
		return out, err
	}
	s.fail("unexpected request %s", q.Raw)
	s.mu.Unlock()
	return "null", nil
}

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C16", "exploration")
	r.Rule("an evaluation is one delivered log or one finished filter judged against the scripted server; cells are distinct histories (range, arrivals, faults, consumer, close)")
	r.CasesLimit("virtual", r.Scale(1500, 30000), 1, 90*time.Second, func(c *vh.Case) {
		synctest.Test(t, func(*testing.T) { one(c) })
	})
	r.Finish()
}

func spec(n int64) string {
	if n < 0 {
		return "latest"
	}
	return fmt.Sprintf("0x%x", n)
}

func one(c *vh.Case) {
	g := c.Rng
	epoch := time.Now()
	s := &server{g: rand.New(rand.NewSource(g.Int63())), removed: map[string]int{}, failAt: -1, salt: g.Intn(1 << 20)}
	s.lat = []time.Duration{0, 200 * time.Millisecond, 4 * time.Second}[g.Intn(3)]
	if g.Intn(3) == 0 {
		s.failAt = g.Intn(12)
	}
	if g.Intn(6) == 0 {
		s.flaky = 0.1
	}
	if g.Intn(2) == 0 {
		s.mode = 1 + g.Intn(6)
	}
	start, end := int64(-1), int64(-1)
	if g.Intn(4) == 0 {
		start = g.Int63n(1 << uint(1+g.Intn(40)))
		if g.Intn(2) == 0 {
			end = start + g.Int63n(100)
		}
	}
	s.poll = start < 0
	s.emit([]int{0, 0, 1, 5, 19, 20, 21, 60}[g.Intn(8)])
	cl := seth.NewClientTransport(&rpcsim.Direct{Handle: s.handle, Bad: func(m string) { s.mu.Lock(); s.fail("%s", m); s.mu.Unlock() }})
	ran := func(n int) *seth.Address {
		if g.Intn(2) == 0 {
			return nil
		}
		a := new(seth.Address)
		if g.Intn(5) > 0 { // nobody's address, otherwise
			copy(a[:], vh.Bytes(g, n))
		}
		return a
	}
	want := map[string]interface{}{"fromBlock": spec(start), "toBlock": spec(end)}
	var f *seth.Filter
	var err error
	tok := ran(20)
	if tok != nil {
		want["address"] = tok.String()
	}
	if g.Intn(2) == 0 {
		from, to := ran(20), ran(20)
		tp := []interface{}{"0xddf252ad1be2c89b69c2b068fc378daa952ba7f163c4a11628f55a4df523b3ef", nil, nil}
		for i, a := range []*seth.Address{from, to} {
			if a != nil {
				tp[i+1] = fmt.Sprintf("0x%064x", a[:])
			}
		}
		want["topics"] = tp
		f, err = cl.TokenTransfers(from, to, tok, start, end)
	} else {
		var topics []*seth.Hash
		var tp []interface{}
		for i := 0; i < g.Intn(5); i++ {
			if g.Intn(3) == 0 {
				topics, tp = append(topics, nil), append(tp, nil)
				continue
			}
			h := new(seth.Hash)
			if g.Intn(5) > 0 {
				copy(h[:], vh.Bytes(g, 32))
			}
			topics, tp = append(topics, h), append(tp, h.String())
		}
		if tp != nil {
			want["topics"] = tp
		}
		f, err = cl.FilterTopics(topics, tok, start, end)
	}
	if err != nil {
		c.Fail("create", "creating the filter failed: %v", err)
		return
	}
	if m := sameFilter(want, s.created); m != "" {
		c.Fail("create", "%s", m)
	}
	consumer := []string{"eager", "slow", "bursty", "abandon", "never"}[g.Intn(5)]
	done := make(chan struct{})
	gg := rand.New(rand.NewSource(g.Int63()))
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Duration(gg.Int63n(int64(5 * time.Second)))):
			}
			s.mu.Lock()
			s.emit([]int{0, 1, 1, 2, 3, 25}[gg.Intn(6)])
			s.mu.Unlock()
		}
	}()
	got, closed := 0, false
	recv := func(wait time.Duration) bool {
		if wait == 0 && len(f.Out()) > 0 {
			wait = time.Hour
		}
		select {
		case l, ok := <-f.Out():
			if !ok {
				closed = true
				return false
			}
			s.mu.Lock()
			if l == nil || got >= len(s.reported) {
				s.fail("delivery %d: the server reported only %d logs", got, len(s.reported))
			} else if m := s.check(l, s.reported[got]); m != "" {
				s.fail("delivery %d is %s, want log %d", got, m, s.reported[got])
			}
			s.mu.Unlock()
			got++
			return true
		case <-time.After(wait):
			return false
		}
	}
	closeAt := epoch.Add(time.Duration(g.Int63n(int64(60 * time.Second))))
	if g.Intn(6) == 0 {
		closeAt = epoch.Add(time.Duration(g.Intn(3)) * time.Second)
	}
	quit := g.Intn(50)
	for !closed && time.Now().Before(closeAt) {
		if consumer == "never" || consumer == "abandon" && got >= quit {
			time.Sleep(time.Until(closeAt))
			break
		}
		recv(time.Second)
		switch consumer {
		case "slow":
			time.Sleep(time.Duration(g.Int63n(int64(2 * time.Second))))
		case "bursty":
			if g.Intn(10) == 0 {
				time.Sleep(time.Duration(g.Int63n(int64(30 * time.Second))))
			}
		}
	}
	s.mu.Lock()
	failed := s.failed
	permanent := s.failAt >= 0 && s.polls > s.failAt
	s.mu.Unlock()
	// deliver reads everything that is due
	due := "" // why the channel has to close by itself
	switch {
	case permanent:
		due = "the server failed for good"
	case !s.poll && failed == 0:
		due = "the block range was fetched"
	}
	drain := g.Intn(2) == 0
	if !closed && (drain || due != "") && consumer != "never" && consumer != "abandon" {
		t0 := time.Now()
		for !closed && time.Since(t0) < 30*time.Second {
			recv(30 * time.Second)
		}
	}
	if !closed && due != "" && consumer != "never" && consumer != "abandon" {
		c.Fail("open", "the channel is still open although %s (consumer %s)", due, consumer)
	}
	if closed {
		s.mu.Lock()
		if s.failed == 0 && s.poll {
			s.fail("the channel of an open filter was closed after %d fetches without any failure", s.polls)
		}
		if s.failed > 0 && f.Err() == nil {
			s.fail("the server failed, the channel was closed and Err is nil")
		}
		if s.failed == 0 && f.Err() != nil {
			s.fail("Err is %v although nothing failed", f.Err())
		}
		if got != len(s.reported) {
			s.fail("the server reported %d logs before the channel was closed; %d were delivered", len(s.reported), got)
		}
		s.mu.Unlock()
		c.Count("closed_by_itself", 1)
	} else if consumer == "eager" && s.poll && s.lat == 0 {
		// prompt: everything fetched is delivered
		synctest.Wait()
		for len(f.Out()) > 0 && recv(0) {
			synctest.Wait()
		}
		s.mu.Lock()
		if !closed && got != len(s.reported) {
			s.fail("the server reported %d logs; the reader got %d", len(s.reported), got)
		}
		if age := time.Since(epoch); s.failed == 0 && !closed && float64(s.polls) < age.Seconds()/3 {
			s.fail("only %d polls in %v", s.polls, age)
		}
		s.mu.Unlock()
	}
	wasClosed, err0 := closed, f.Err()
	close(done)
	s.mu.Lock()
	s.closedAt = time.Now()
	failedAtClose := s.failed
	s.mu.Unlock()
	before := got
	// Close is safe to call from any goroutine, more than once
	var wg sync.WaitGroup
	for i := g.Intn(3); i > 0; i-- {
		wg.Add(1)
		go func() { defer wg.Done(); f.Close() }()
	}
	f.Close()
	wg.Wait()
	if g.Intn(3) == 0 {
		f.Close()
	}
	late := g.Intn(2) == 0
	if late {
		time.Sleep(20 * time.Second)
	}
	t0 := time.Now()
	buffered, base := len(f.Out()), got
	for !closed && time.Since(t0) < 15*time.Second {
		recv(15 * time.Second)
	}
	if !closed {
		c.Fail("notclosed", "15 s after Close the channel is still open (consumer %s)", consumer)
		c.Run.Finish()
	}
	if late && !wasClosed && (time.Since(t0) > 0 || got-base != buffered) {
		c.Fail("lateclose", "with nobody reading, the channel was not closed 20 s after Close")
	}
	time.Sleep(10 * time.Second)
	s.mu.Lock()
	defer s.mu.Unlock()
	if len(s.ids) != 1 || s.removed[s.ids[0]] != 1 {
		s.fail("the filter was removed from the server %v times", s.removed)
	}
	if wasClosed && (err0 == nil) != (f.Err() == nil) {
		s.fail("Err changed from %v to %v on Close", err0, f.Err())
	}
	if !wasClosed && s.failed == 0 && f.Err() != nil {
		s.fail("Err is %v after Close although nothing failed", f.Err())
	}
	_ = failedAtClose
	if s.bad != "" {
		c.Fail("trace", "%s (consumer %s, polls %d, start %d, end %d, trace %v)", s.bad, consumer, s.polls, start, end, s.trace)
	}
	c.Eval(got + 1)
	c.Count("logs", got)
	c.Count("polls", s.polls)
	c.Count("failing_replies", s.failed)
	c.Count("logs_after_close", got-before)
	c.Count("consumer_"+consumer, 1)
	c.Cell(start >= 0, end >= 0, consumer, closeAt.Sub(epoch), s.trace)
	if c.Index < 8 {
		c.Sample("start %d end %d, %s consumer, closed at %v: %d logs, fetches %v", start, end, consumer, closeAt.Sub(epoch), got, s.trace)
	}
}

func sameFilter(want map[string]interface{}, created []json.RawMessage) string {
	if len(created) != 1 {
		return fmt.Sprintf("%d filters were created with one parameter", len(created))
	}
	var got map[string]interface{}
	if err := json.Unmarshal(created[0], &got); err != nil {
		return err.Error()
	}
	for k, v := range got {
		if v == nil {
			delete(got, k)
		}
	}
	w, _ := json.Marshal(want)
	h, _ := json.Marshal(got)
	if string(w) != string(h) {
		return fmt.Sprintf("the filter was created with %s, want %s", h, w)
	}
	return ""
}
