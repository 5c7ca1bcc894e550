// C18: Wait and Drain, in virtual time.
package c18

import (
	"errors"
	"fmt"
	"io"
	"log"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/philhofer/seth"

	"vharness/rpcsim"
	"vharness/vh"
)

type tx struct {
	hash    string
	from    string // "" for null
	arrives time.Duration
	mined   time.Duration // -1: never
	dropped time.Duration // -1: never
	nilIdx0 bool
	place   bool // the pending block says where in it the transaction is
	bnKind  int  // 1: a block number while pending, 2: mined in block 0
}

type server struct {
	mu      sync.Mutex
	g       *rand.Rand
	epoch   time.Time
	txs     []*tx
	own     string
	lat     time.Duration
	flaky   float64
	err     error // last scripted failure
	errKind int
	polls   int
	gone    bool
	bad     string
	trace   []string
	// what the replies said
	minedSeen   map[string]time.Duration
	ownPending  int // own transactions in the last pending block
	lastPending time.Duration
	pendings    int
	asked       map[string]bool
	prompts     int // functions given to Drain
	told        map[string]bool
}

var errRefused = errors.New("connection refused")

func (s *server) fail(f string, a ...interface{}) {
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

func (t *tx) state(now time.Duration) string {
	switch {
	case now < t.arrives:
		return "unknown"
	case t.mined >= 0 && now >= t.mined:
		return "mined"
	case t.dropped >= 0 && now >= t.dropped:
		return "dropped"
	}
	return "pending"
}

func (t *tx) json(now time.Duration) string {
	idx, from, bn := "null", "null", "null"
	if t.state(now) == "mined" {
		idx, bn = `"0x0"`, `"0x12"`
		if !t.nilIdx0 {
			idx = `"0x5"`
		}
		if t.bnKind == 2 {
			bn = `"0x0"`
		}
	} else if t.bnKind == 1 { // some nodes put the number of the block they work on here
		bn = `"0x13"`
	}
	if t.from != "" {
		from = `"` + t.from + `"`
	}
	return fmt.Sprintf(`{"hash":%q,"from":%s,"to":null,"nonce":"0x1","gas":"0x1","gasPrice":"0x1","value":"0x0","input":"0x","blockNumber":%s,"transactionIndex":%s}`, t.hash, from, bn, idx)
}

func (s *server) handle(q *rpcsim.Req) (string, error) {
	s.mu.Lock()
	var d time.Duration
	if s.lat > 0 {
		d = time.Duration(s.g.Int63n(int64(s.lat)))
	}
	s.mu.Unlock()
	time.Sleep(d)
	s.mu.Lock()
	defer s.mu.Unlock()
	now := time.Since(s.epoch)
	s.polls++
	if s.g.Float64() < s.flaky {
		s.errKind = 1 + s.g.Intn(3)
		s.trace = append(s.trace, fmt.Sprintf("%v:error%d", now, s.errKind))
		switch s.errKind {
		case 1:
			s.err = errRefused
			return "", s.err
		case 2:
			s.err = &seth.RPCError{Code: -32000, Message: "scripted"}
			return "", s.err
		}
		s.err = errors.New("any")
		return `{"hash":"zz"}`, nil
	}
	switch q.Method {
	case "eth_getTransactionByHash":
		h := q.Str(0)
		s.asked[h] = true
		for i := 0; i < s.prompts; i++ {
			if !s.told[fmt.Sprintf("%d:%s", i, h)] {
				s.fail("Drain asks for transaction %s, and prompt %d of %d has not been told about it", h, i, s.prompts)
			}
		}
		for _, t := range s.txs {
			if t.hash == h {
				st := t.state(now)
				s.trace = append(s.trace, fmt.Sprintf("%v:%s", now, st))
				switch st {
				case "mined":
					if _, ok := s.minedSeen[h]; !ok {
						s.minedSeen[h] = now
					}
					return t.json(now), nil
				case "pending":
					return t.json(now), nil
				}
			}
		}
		s.gone = true
		s.err = seth.ErrNotFound
		return "null", nil
	case "eth_getBlockByNumber":
		if q.Str(0) != "pending" || len(q.Params) != 2 || string(q.Params[1]) != "true" {
			s.fail("unexpected block request %s", q.Raw)
			if q.Str(0) != "pending" {
				return `{"number":"0x1","hash":"0x` + strings.Repeat("12", 32) + `","transactions":[]}`, nil
			}
		}
		var parts []string
		s.ownPending, s.pendings, s.lastPending = 0, s.pendings+1, now
		for _, t := range s.txs {
			if t.state(now) == "pending" {
				j := t.json(now)
				if t.place {
					j = strings.Replace(j, `"transactionIndex":null`, fmt.Sprintf(`"transactionIndex":"0x%x"`, len(parts)), 1)
				}
				parts = append(parts, j)
				if t.from == s.own {
					s.ownPending++
				}
			}
		}
		s.trace = append(s.trace, fmt.Sprintf("%v:pending %d/%d", now, s.ownPending, len(parts)))
		return `{"number":null,"hash":null,"transactions":[` + strings.Join(parts, ",") + `]}`, nil
	}
	s.fail("unexpected request %s", q.Raw)
	return "null", nil
}

func TestProperty(t *testing.T) {
	log.SetOutput(io.Discard)
	r := vh.Start("C18", "exploration")
	r.Rule("an evaluation is one Wait or Drain judged against the scripted server; cells are distinct reply traces")
	r.CasesLimit("virtual", r.Scale(6000, 100000), 1, 90*time.Second, func(c *vh.Case) {
		synctest.Test(t, func(*testing.T) { one(c) })
	})
	r.Finish()
}

func one(c *vh.Case) {
	g := c.Rng
	own := new(seth.Address)
	copy(own[:], vh.Bytes(g, 20))
	s := &server{g: rand.New(rand.NewSource(g.Int63())), epoch: time.Now(), own: own.String(), minedSeen: map[string]time.Duration{}, asked: map[string]bool{}}
	s.lat = []time.Duration{0, 0, 100 * time.Millisecond, 5 * time.Second}[g.Intn(4)]
	if g.Intn(3) == 0 {
		s.flaky = []float64{0.02, 0.2, 1}[g.Intn(3)]
	}
	drop := g.Intn(4) == 0
	never := false
	n := 1 + g.Intn(6)
	for i := 0; i < n; i++ {
		t := &tx{hash: fmt.Sprintf("0x%x", vh.Bytes(g, 32)), dropped: -1, mined: -1, nilIdx0: g.Intn(2) == 0, bnKind: g.Intn(4), place: g.Intn(2) == 0}
		switch g.Intn(5) {
		case 0:
			o := *own
			o[g.Intn(20)] ^= byte(1 << uint(g.Intn(8)))
			t.from = o.String()
		case 1:
			if g.Intn(2) == 0 {
				t.from = ""
				break
			}
			t.from = fmt.Sprintf("0x%x", vh.Bytes(g, 20))
		default:
			t.from = s.own
		}
		if g.Intn(3) == 0 {
			t.arrives = time.Duration(g.Int63n(int64(60 * time.Second)))
		}
		switch {
		case t.from == s.own && drop && g.Intn(2) == 0:
			t.dropped = t.arrives + time.Duration(g.Int63n(int64(120*time.Second)))
		case t.from != s.own && g.Intn(2) == 0:
			// others' transactions may stay forever
		default:
			t.mined = t.arrives + time.Duration(g.Int63n(int64(120*time.Second)))
			if g.Intn(6) == 0 {
				t.mined = t.arrives
			}
		}
		s.txs = append(s.txs, t)
	}
	cl := seth.NewClientTransport(&rpcsim.Direct{Handle: s.handle, Bad: func(m string) { s.mu.Lock(); s.fail("%s", m); s.mu.Unlock() }})
	sn := seth.NewSender(cl, own)
	var prompts []string
	op := "Wait"
	var target *tx
	var run func() error
	if g.Intn(2) == 0 {
		target = s.txs[g.Intn(n)]
		if target.mined < 0 && target.dropped < 0 {
			target.mined = time.Duration(g.Int63n(int64(600 * time.Second)))
			if target.mined < target.arrives {
				target.mined = target.arrives
			}
		}
		h, err := seth.ParseHash(target.hash)
		if err != nil {
			c.HarnessError("%v", err)
			return
		}
		run = func() error { return sn.Wait(h) }
	} else {
		op = "Drain"
		np := g.Intn(3)
		var ps []func(*seth.Transaction)
		for i := 0; i < np; i++ {
			i := i
			ps = append(ps, func(t *seth.Transaction) {
				s.mu.Lock()
				prompts = append(prompts, fmt.Sprintf("%d:%s", i, t.Hash.String()))
				if s.told == nil {
					s.told = map[string]bool{}
				}
				s.told[prompts[len(prompts)-1]] = true
				if t.From == nil || *t.From != *own {
					s.fail("prompted with a transaction of %v", t.From)
				}
				s.mu.Unlock()
			})
		}
		s.prompts = np
		run = func() error { return sn.Drain(ps...) }
	}
	_ = never
	res := make(chan error, 1)
	go func() {
		var err error
		c.Guard("panic", func() { err = run() })
		res <- err
	}()
	var err error
	select {
	case err = <-res:
	case <-time.After(2 * time.Hour):
		c.Fail("hang", "%s has not returned after 2 hours; trace %v", op, s.trace)
		c.Run.Finish()
	}
	end := time.Since(s.epoch)
	polls := s.polls
	time.Sleep(time.Minute)
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.polls != polls {
		s.fail("%d requests after the return", s.polls-polls)
	}
	if s.err == nil && err != nil {
		s.fail("returned error %v although no query failed", err)
	}
	if s.err != nil && err == nil {
		s.fail("returned nil although a query failed with %v", s.err)
	}
	if s.err != nil && err != nil {
		switch {
		case s.gone && s.errKind == 0:
			if !errors.Is(err, seth.ErrNotFound) {
				s.fail("returned %v, want not found", err)
			}
		case s.errKind == 1:
			if !errors.Is(err, errRefused) {
				s.fail("returned %v, want %v", err, s.err)
			}
		case s.errKind == 2:
			var re *seth.RPCError
			if !errors.As(err, &re) || re.Message != "scripted" {
				s.fail("returned %v, want %v", err, s.err)
			}
		}
	}
	if err == nil {
		if op == "Wait" {
			at, ok := s.minedSeen[target.hash]
			if !ok {
				s.fail("Wait returned success, but the transaction was never reported as mined (%s)", target.state(end))
			} else if end-at > 10*time.Second {
				s.fail("Wait returned %v after the transaction was reported as mined", end-at)
			}
			if end-target.mined > 20*time.Second && target.mined >= 0 {
				s.fail("Wait returned %v after the transaction was mined", end-target.mined)
			}
			for h := range s.asked {
				if h != target.hash {
					s.fail("Wait asked for transaction %s", h)
				}
			}
		} else {
			if s.pendings == 0 || s.ownPending != 0 {
				s.fail("Drain returned success; in the last of %d pending blocks were %d transactions of the account", s.pendings, s.ownPending)
			}
			last := time.Duration(0)
			for _, t := range s.txs {
				if t.from == s.own && t.mined > last && t.arrives < end {
					last = t.mined
				}
			}
			if end-last > 25*time.Second {
				s.fail("Drain returned %v after the last transaction of the account was mined", end-last)
			}
		}
	}
	if op == "Drain" {
		for _, p := range prompts {
			h := p[2:]
			ok := false
			for _, t := range s.txs {
				ok = ok || t.hash == h && t.from == s.own
			}
			if !ok {
				s.fail("prompted with unknown transaction %s", h)
			}
		}
		for h := range s.asked {
			ok := false
			for _, t := range s.txs {
				ok = ok || t.hash == h && t.from == s.own
			}
			if !ok {
				s.fail("Drain waited for transaction %s, which is not the account's", h)
			}
		}
	}
	if s.bad != "" {
		c.Fail("outcome", "%s: %s; trace %v", op, s.bad, s.trace)
	}
	c.Eval(1)
	c.Count(op, 1)
	c.Count("polls", polls)
	c.Count("prompts", len(prompts))
	if err != nil {
		c.Count(op+"_errors", 1)
	} else {
		c.Count(op+"_success", 1)
	}
	c.Cell(op, strings.Join(s.trace, ","))
	if c.Index < 8 {
		c.Sample("%s -> %v at %v: %v", op, err, end, s.trace)
	}
}
