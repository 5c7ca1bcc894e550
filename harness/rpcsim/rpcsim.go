// Package rpcsim provides in-memory connections with controlled chunking,
// backpressure and faults, and the pieces of scripted JSON-RPC servers.
package rpcsim

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
)

// ErrFault is the error of an injected connection fault.
var ErrFault = errors.New("rpcsim: injected connection fault")

type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	cap    int // bytes that fit; 0: any number
	wclose bool
	rclose bool
	zombie bool
}

func newHalf(cap int) *half {
	h := &half{cap: cap}
	h.cond = sync.NewCond(&h.mu)
	return h
}

// End is one end of a connection.
type End struct {
	in, out *half
	rmu     sync.Mutex
	rng     *rand.Rand
	// MaxRead and MaxWrite bound the chunk of one transfer (0: any).
	MaxRead, MaxWrite int
	// Yield is the probability of a scheduling point per chunk.
	Yield float64
	// FailRead/FailWrite break the connection after that many bytes (-1: never).
	FailRead, FailWrite int
	// Zombie makes reads go on after Close while the peer sends.
	Zombie bool
	// KeepPeer makes a write fault leave the reading direction alone.
	KeepPeer bool

	mu       sync.Mutex
	read     int
	written  int
	closed   int
	writers  int
	overlaps int
	faulted  bool
}

// Pair makes a connection. capAB bounds the bytes in flight from a to b.
func Pair(seed int64, capAB, capBA int) (a, b *End) {
	ab, ba := newHalf(capAB), newHalf(capBA)
	a = &End{in: ba, out: ab, rng: rand.New(rand.NewSource(seed)), FailRead: -1, FailWrite: -1}
	b = &End{in: ab, out: ba, rng: rand.New(rand.NewSource(seed + 1)), FailRead: -1, FailWrite: -1}
	return
}

func (e *End) chunk(n, max int) (int, bool) {
	e.rmu.Lock()
	defer e.rmu.Unlock()
	y := e.rng.Float64() < e.Yield
	if max > 0 && n > 1 {
		m := 1 + e.rng.Intn(max)
		if m < n {
			n = m
		}
	}
	return n, y
}

// Break ends the connection in both directions with pending data lost to
// neither side's reader.
func (e *End) Break() {
	e.mu.Lock()
	e.faulted = true
	e.mu.Unlock()
	for _, h := range []*half{e.in, e.out} {
		h.mu.Lock()
		h.wclose = true
		h.rclose = true
		h.cond.Broadcast()
		h.mu.Unlock()
	}
}

// CloseWrite ends the outgoing direction: the peer reads EOF after the rest.
func (e *End) CloseWrite() {
	e.out.mu.Lock()
	e.out.wclose = true
	e.out.cond.Broadcast()
	e.out.mu.Unlock()
}

func (e *End) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	h := e.in
	h.mu.Lock()
	for len(h.buf) == 0 && !h.wclose && !(h.rclose && !e.Zombie) {
		h.cond.Wait()
	}
	if h.rclose && !e.Zombie {
		h.mu.Unlock()
		return 0, io.ErrClosedPipe
	}
	if len(h.buf) == 0 {
		h.mu.Unlock()
		return 0, io.EOF
	}
	n := len(p)
	if n > len(h.buf) {
		n = len(h.buf)
	}
	n, y := e.chunk(n, e.MaxRead)
	e.mu.Lock()
	fail := false
	if e.FailRead >= 0 && e.read+n >= e.FailRead {
		n = e.FailRead - e.read
		fail = true
	}
	e.read += n
	e.mu.Unlock()
	copy(p, h.buf[:n])
	h.buf = h.buf[n:]
	h.cond.Broadcast()
	h.mu.Unlock()
	if y {
		runtime.Gosched()
	}
	if fail {
		e.Break()
		return n, ErrFault
	}
	return n, nil
}

func (e *End) Write(p []byte) (int, error) {
	e.mu.Lock()
	e.writers++
	if e.writers > 1 {
		e.overlaps++
	}
	e.mu.Unlock()
	defer func() {
		e.mu.Lock()
		e.writers--
		e.mu.Unlock()
	}()
	h := e.out
	done := 0
	for done < len(p) {
		n, y := e.chunk(len(p)-done, e.MaxWrite)
		e.mu.Lock()
		fail := false
		if e.FailWrite >= 0 && e.written+n > e.FailWrite {
			n = e.FailWrite - e.written
			fail = true
		}
		e.mu.Unlock()
		h.mu.Lock()
		for n > 0 && h.cap > 0 && len(h.buf) >= h.cap && !h.wclose && (!h.rclose || h.zombie) {
			h.cond.Wait()
		}
		if h.wclose || h.rclose && !h.zombie {
			h.mu.Unlock()
			return done, io.ErrClosedPipe
		}
		if h.cap > 0 && n > h.cap-len(h.buf) {
			n = h.cap - len(h.buf)
			fail = false
		}
		h.buf = append(h.buf, p[done:done+n]...)
		h.cond.Broadcast()
		h.mu.Unlock()
		done += n
		e.mu.Lock()
		e.written += n
		e.mu.Unlock()
		if fail {
			if e.KeepPeer {
				e.mu.Lock()
				e.faulted = true
				e.mu.Unlock()
			} else {
				e.Break()
			}
			return done, ErrFault
		}
		if y {
			runtime.Gosched()
		}
	}
	return done, nil
}

// Close closes this end.
func (e *End) Close() error {
	e.mu.Lock()
	e.closed++
	n := e.closed
	e.mu.Unlock()
	e.CloseWrite()
	e.in.mu.Lock()
	e.in.rclose = true
	e.in.cond.Broadcast()
	e.in.mu.Unlock()
	if n > 1 {
		return errors.New("rpcsim: already closed")
	}
	return nil
}

// SetZombie makes reads of this end go on after its Close.
func (e *End) SetZombie() {
	e.Zombie = true
	e.in.mu.Lock()
	e.in.zombie = true
	e.in.mu.Unlock()
}

// Closed counts calls of Close.
func (e *End) Closed() int { e.mu.Lock(); defer e.mu.Unlock(); return e.closed }

// Faulted says whether a fault fired on this end.
func (e *End) Faulted() bool { e.mu.Lock(); defer e.mu.Unlock(); return e.faulted }

// Overlaps counts writes that ran at the same time as another.
func (e *End) Overlaps() int { e.mu.Lock(); defer e.mu.Unlock(); return e.overlaps }

// Req is a request as the server sees it.
type Req struct {
	Version string            `json:"jsonrpc"`
	Method  string            `json:"method"`
	Params  []json.RawMessage `json:"params"`
	ID      json.RawMessage   `json:"id"`
	Raw     json.RawMessage   `json:"-"`
}

// ParseReq strictly parses one request object.
func ParseReq(raw []byte) (*Req, error) {
	var m map[string]json.RawMessage
	if err := json.Unmarshal(raw, &m); err != nil {
		return nil, err
	}
	for k := range m {
		switch k {
		case "jsonrpc", "method", "params", "id":
		default:
			return nil, fmt.Errorf("unexpected member %q in request", k)
		}
	}
	r := &Req{Raw: append(json.RawMessage(nil), raw...)}
	if err := json.Unmarshal(raw, r); err != nil {
		return nil, err
	}
	if r.Version != "2.0" {
		return nil, fmt.Errorf("request version %q", r.Version)
	}
	if len(r.ID) == 0 || string(r.ID) == "null" {
		return nil, errors.New("request without an id")
	}
	return r, nil
}

// Response renders a response object with varying layout. body is
// `"result":...` or `"error":...`.
func Response(g *rand.Rand, id string, body string) []byte {
	parts := []string{`"jsonrpc":"2.0"`, `"id":` + id, body}
	switch g.Intn(4) {
	case 0:
		parts = append(parts, `"extra":{"id":77,"result":"no"}`)
	case 1:
		if len(body) > 8 && body[:8] == `"result"` {
			parts = append(parts, `"error":null`)
		}
	}
	g.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	sp := ""
	if g.Intn(3) == 0 {
		sp = " "
	}
	out := "{" + sp
	for i, p := range parts {
		if i > 0 {
			out += "," + sp
		}
		out += p
	}
	out += sp + "}"
	switch g.Intn(3) {
	case 0:
		out += "\n"
	case 1:
		out += "\r\n\t"
	}
	return []byte(out)
}
