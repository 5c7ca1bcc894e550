// C15: block iteration, in virtual time.
package c15

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strconv"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/philhofer/seth"

	"vharness/rpcsim"
	"vharness/vh"
)

func blockHash(salt, n uint64) string { return fmt.Sprintf("0x%032x%032x", salt, n*2654435761+1) }

func blockJSON(salt, n uint64, txs bool) string {
	t := `"` + blockHash(salt+1, n) + `"`
	if txs {
		t = `{"hash":` + t + `,"nonce":"0x1","value":"0x2","gas":"0x3","gasPrice":"0x4","input":"0x"}`
	}
	return fmt.Sprintf(`{"number":"0x%x","hash":%q,"parentHash":%q,"nonce":"0x0000000000000000","logsBloom":"0x","miner":"0x%040x","gasLimit":"0x1","gasUsed":"0x0","timestamp":"0x1","extraData":"0x","difficulty":"0x1","totalDifficulty":"0x1","uncles":[],"transactions":[%s]}`,
		n, blockHash(salt, n), blockHash(salt, n-1), n, t)
}

type iter struct {
	c     *vh.Case
	g     *rand.Rand
	from  uint64
	txs   bool
	salt  uint64
	mu    sync.Mutex
	head  uint64 // blocks below this exist
	errs  float64
	lat   time.Duration
	polls int
	stop  time.Time // set by Stop
	bad   string
	errN  int
	trace []string
	inflt int
}

func (s *iter) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (s *iter) handle(q *rpcsim.Req) (string, error) {
	s.mu.Lock()
	s.polls++
	now := time.Now()
	if !s.stop.IsZero() && now.After(s.stop) {
		s.fail("request %s %s was sent %v after Stop", q.Method, q.Params, now.Sub(s.stop))
	}
	if q.Method != "eth_getBlockByNumber" || len(q.Params) != 2 || string(q.Params[1]) != fmt.Sprint(s.txs) {
		s.fail("unexpected request %s", q.Raw)
	}
	sp := q.Str(0)
	var n uint64
	if sp != "earliest" {
		var err error
		n, err = strconv.ParseUint(strings.TrimPrefix(sp, "0x"), 16, 64)
		if err != nil || !strings.HasPrefix(sp, "0x") {
			s.fail("unexpected block specifier %q", sp)
		}
	}
	var d time.Duration
	if s.lat > 0 {
		d = time.Duration(s.g.Int63n(int64(s.lat)))
	}
	var out string
	var err error
	switch {
	case s.g.Float64() < s.errs:
		s.errN++
		switch s.g.Intn(5) {
		case 0:
			err = errors.New("connection refused")
		case 1:
			err = &seth.RPCError{Code: -32000, Message: "header not found"}
		case 2:
			out = `{"number":"zz"}`
		case 3:
			out = "null"
		case 4:
			err = io.EOF
		}
	case n >= s.head:
		out = "null"
	default:
		out = blockJSON(s.salt, n, s.txs)
	}
	s.trace = append(s.trace, fmt.Sprintf("%v#%d:%v", now.Sub(epoch), n, err != nil || out == "null"))
	s.mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	}
	return out, err
}

var epoch time.Time

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C15", "exploration")
	r.Rule("an evaluation is one delivered block or one closed iterator judged against the scripted server; cells are distinct histories (start, growth, faults, consumer, stop)")
	r.Assume("block numbers are not negative")
	r.CasesLimit("virtual", r.Scale(400, 9000), 1, 90*time.Second, func(c *vh.Case) {
		synctest.Test(t, func(*testing.T) { one(c) })
	})
	r.Finish()
}

func one(c *vh.Case) {
	epoch = time.Now()
	g := c.Rng
	n := 1
	if g.Intn(5) == 0 {
		n = 2 + g.Intn(3)
	}
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		gg := rand.New(rand.NewSource(g.Int63()))
		go func(i int) { defer wg.Done(); iterate(c, gg, i) }(i)
	}
	wg.Wait()
}

func iterate(c *vh.Case, g *rand.Rand, idx int) {
	s := &iter{c: c, g: rand.New(rand.NewSource(g.Int63())), salt: uint64(g.Intn(1 << 20)), txs: g.Intn(2) == 0}
	switch g.Intn(4) {
	case 0:
		s.from = 0
	case 1:
		s.from = uint64(g.Intn(20))
	default:
		s.from = uint64(g.Int63n(1 << uint(1+g.Intn(45))))
	}
	s.errs = []float64{0, 0, 0.1, 0.5, 0.9}[g.Intn(5)]
	s.lat = []time.Duration{0, 50 * time.Millisecond, 3 * time.Second}[g.Intn(3)]
	// the chain at the start may be behind, at, or ahead of the first block
	have := g.Intn(4)
	if g.Intn(3) == 0 {
		have = g.Intn(150)
	}
	total := have + g.Intn(30)
	s.head = s.from + uint64(have)
	if g.Intn(5) == 0 {
		back := uint64(g.Intn(5))
		if back > s.from {
			back = s.from
		}
		s.head = s.from - back
	}
	consumer := []string{"eager", "slow", "bursty", "abandon", "never"}[g.Intn(5)]
	cl := seth.NewClientTransport(&rpcsim.Direct{Handle: s.handle, Bad: func(m string) { s.mu.Lock(); s.fail("%s", m); s.mu.Unlock() }})
	it := cl.IterateBlocks(int64(s.from), s.txs)
	done := make(chan struct{})
	gg := rand.New(rand.NewSource(g.Int63()))
	go func() { // growth
		for {
			select {
			case <-done:
				return
			case <-time.After(time.Duration(gg.Int63n(int64(4 * time.Second)))):
			}
			s.mu.Lock()
			if s.head < s.from+uint64(total) {
				s.head += uint64(1 + gg.Intn(3))
				if s.head > s.from+uint64(total) {
					s.head = s.from + uint64(total)
				}
			}
			s.mu.Unlock()
		}
	}()
	var got []uint64
	closed := false
	recv := func(wait time.Duration) bool {
		select {
		case b, ok := <-it.Next():
			if !ok {
				closed = true
				return false
			}
			s.check(b, len(got))
			got = append(got, 1)
			return true
		case <-time.After(wait):
			return false
		}
	}
	stopAt := time.Duration(g.Int63n(int64(120 * time.Second)))
	if g.Intn(6) == 0 {
		stopAt = time.Duration(g.Intn(3)) * time.Second
	}
	full := false
	if consumer != "abandon" && consumer != "never" && g.Intn(2) == 0 {
		full = true // run until everything is delivered
	}
	limit := epoch.Add(stopAt)
	quit := g.Intn(80)
	for !closed {
		if !full && time.Now().After(limit) {
			break
		}
		if consumer == "never" || consumer == "abandon" && len(got) >= quit {
			time.Sleep(time.Until(limit))
			break
		}
		ok := recv(time.Second)
		switch consumer {
		case "slow":
			time.Sleep(time.Duration(g.Int63n(int64(3 * time.Second))))
		case "bursty":
			if g.Intn(10) == 0 {
				time.Sleep(time.Duration(g.Int63n(int64(60 * time.Second))))
			}
		}
		if full && !ok && time.Since(epoch) > 300*time.Second {
			// no more faults: everything arrives in bounded time
			s.mu.Lock()
			s.errs, s.lat = 0, 0
			s.head = s.from + uint64(total)
			s.mu.Unlock()
			t0 := time.Now()
			for uint64(len(got)) < uint64(total) && time.Since(t0) < time.Hour && !closed {
				recv(time.Minute)
			}
			if len(got) != total {
				c.Fail("stalled", "iterator %d from %d delivered %d of %d blocks an hour after the last fault (consumer %s)", idx, s.from, len(got), total, consumer)
			}
			break
		}
	}
	if closed {
		c.Fail("closed", "the channel was closed before Stop (from %d, after %d blocks)", s.from, len(got))
	}
	close(done)
	s.mu.Lock()
	s.stop = time.Now()
	s.mu.Unlock()
	before := len(got)
	it.Stop()
	late := g.Intn(2) == 0
	if late {
		// no one reads for a while
		time.Sleep(20 * time.Second)
	}
	t0 := time.Now()
	buffered := len(it.Next())
	drained := len(got)
	for !closed && time.Since(t0) < 15*time.Second {
		recv(15 * time.Second)
	}
	if !closed {
		c.Fail("notclosed", "15 s after Stop the channel is still open (from %d, consumer %s, %d blocks delivered, %d blocks exist)", s.from, consumer, len(got), s.head-s.from)
		c.Run.Finish()
	}
	if late && closed {
		// closed already, whether or not it was read: only buffered blocks remained
		if time.Since(t0) > 0 || len(got)-drained != buffered {
			c.Fail("lateclose", "with nobody reading, the channel was not closed 20 s after Stop")
		}
	}
	time.Sleep(30 * time.Second) // further requests would be seen
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad != "" {
		c.Fail("order", "%s (from %d, consumer %s)", s.bad, s.from, consumer)
	}
	c.Eval(len(got) + 1)
	c.Count("blocks", len(got))
	c.Count("polls", s.polls)
	c.Count("faulty_replies", s.errN)
	c.Count("blocks_after_stop", len(got)-before)
	c.Count("consumer_"+consumer, 1)
	c.Cell(s.from, consumer, stopAt, s.trace)
	if c.Index < 6 {
		tr := s.trace
		if len(tr) > 12 {
			tr = tr[:12]
		}
		c.Sample("from %d, %s consumer, stop at %v: %d blocks, %d polls, trace (time#block:missing) %v", s.from, consumer, stopAt, len(got), s.polls, tr)
	}
}

func (s *iter) check(b *seth.Block, i int) {
	s.mu.Lock()
	defer s.mu.Unlock()
	want := s.from + uint64(i)
	if b == nil || b.Number == nil || b.Hash == nil {
		s.fail("delivery %d is %v, want block %d", i, b, want)
		return
	}
	if uint64(*b.Number) != want || b.Hash.String() != blockHash(s.salt, want) {
		s.fail("delivery %d is block %d (%s), want block %d", i, uint64(*b.Number), b.Hash, want)
	}
	if len(b.Transactions) != 1 {
		s.fail("block %d has %d transactions, want 1", want, len(b.Transactions))
	}
	if want >= s.head {
		s.fail("block %d was delivered before it existed", want)
	}
}
