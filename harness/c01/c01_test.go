// C01: Keccak digests against an independent reference, over messages,
// chunkings, interleavings and placements of the buffer in memory.
package c01

import (
	"bytes"
	"fmt"
	"hash"
	"os"
	"strings"
	"sync"
	"syscall"
	"testing"

	"github.com/philhofer/seth/keccak"

	"vharness/ref"
	"vharness/vh"
)

type alg struct {
	name string
	n    int
	mk   func() hash.Hash
	sum  func([]byte) []byte
}

var algs = []alg{
	{"224", 28, keccak.New224, func(b []byte) []byte { s := keccak.Sum224(b); return s[:] }},
	{"256", 32, keccak.New256, func(b []byte) []byte { s := keccak.Sum256(b); return s[:] }},
	{"384", 48, keccak.New384, func(b []byte) []byte { s := keccak.Sum384(b); return s[:] }},
	{"512", 64, keccak.New512, func(b []byte) []byte { s := keccak.Sum512(b); return s[:] }},
}

// guarded returns a copy of b that ends exactly at an unreadable page, so a
// read past its end faults; the byte before it starts is also controlled.
var arenas sync.Pool

type arena struct{ mem []byte }

const arenaLen = 64 * 4096

func guarded(b []byte) ([]byte, *arena) {
	a, _ := arenas.Get().(*arena)
	if a == nil {
		m, err := syscall.Mmap(-1, 0, arenaLen+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
		if err != nil {
			panic(err)
		}
		if err := syscall.Mprotect(m[arenaLen:], syscall.PROT_NONE); err != nil {
			panic(err)
		}
		a = &arena{m}
	}
	s := a.mem[arenaLen-len(b) : arenaLen : arenaLen]
	copy(s, b)
	return s, a
}

func msgLen(c *vh.Case, rate int) int {
	if c.Rng.Intn(400) == 0 { // lengths of more than fifteen and sixteen bits
		return 1<<15 + c.Rng.Intn(1<<15+500)
	}
	switch c.Rng.Intn(6) {
	case 0:
		return c.Rng.Intn(3)
	case 1: // around multiples of the rate
		n := rate*(1+c.Rng.Intn(6)) + c.Rng.Intn(5) - 2
		return n
	case 2:
		return c.Rng.Intn(rate + 2)
	case 3:
		return c.Rng.Intn(5000)
	default:
		return c.Rng.Intn(700)
	}
}

func TestProperty(t *testing.T) {
	r := vh.Start("C01", "exploration")
	cfg := os.Getenv("VERIF_VARIANT")
	r.Rule("a case is (algorithm, message length, chunking or call sequence, buffer alignment); trivial ones (empty message with no write) are not counted as distinct")
	r.Assume("the reference sponge in harness/ref, checked against published Keccak-256 vectors at start and built from the LFSR and rotation definitions, is right")
	defer r.Finish()
	for in, want := range map[string]string{
		"":    "c5d2460186f7233c927e7db2dcc703c0e500b653ca82273b7bfad8045d85a470",
		"abc": "4e03657aea45a94fc7d47ba826c8d667c0d1e6e33a64a036ec44f58fa12d6c45",
	} {
		if fmt.Sprintf("%x", ref.Keccak([]byte(in), 32)) != want {
			r.HarnessError("reference keccak is wrong on %q", in)
			return
		}
	}

	// every length up to a few blocks, one-shot and through the stream
	r.Cases("len", r.Scale(900, 6000), 0, func(c *vh.Case) {
		m := vh.Bytes(c.Rng, c.Index)
		for _, a := range algs {
			want := ref.Keccak(m, a.n)
			g, ar := guarded(m)
			got := a.sum(g)
			if !bytes.Equal(got, want) {
				c.Fail("sum", "Sum%s of %d bytes %x = %x, want %x (%s)", a.name, len(m), m, got, want, cfg)
			}
			if !bytes.Equal(g, m) {
				c.Fail("input-modified", "Sum%s modified its input of %d bytes", a.name, len(m))
			}
			h := a.mk()
			h.Write(g)
			if got := h.Sum(nil); !bytes.Equal(got, want) {
				c.Fail("write", "New%s, one write of %d bytes: %x, want %x (%s)", a.name, len(m), got, want, cfg)
			}
			arenas.Put(ar)
			c.Eval(2)
			c.Cell("len", a.name, len(m))
		}
		want := ref.Keccak(m, 32)
		rootHashes(c, m, want)
	})

	// histories of Write/Sum/Reset on one hash, compared to the reference
	// of the bytes written since the last Reset
	r.Cases("hist", r.Scale(6000, 150000), 0, func(c *vh.Case) {
		a := algs[c.Rng.Intn(len(algs))]
		rate := 200 - 2*a.n
		h := a.mk()
		if h.Size() != a.n || h.BlockSize() != rate {
			c.Fail("size", "New%s: Size %d BlockSize %d", a.name, h.Size(), h.BlockSize())
		}
		var acc []byte
		var trace []string
		n := 1 + c.Rng.Intn(14)
		for i := 0; i < n; i++ {
			switch op := c.Rng.Intn(10); {
			case op < 6:
				var m []byte
				if c.Rng.Intn(3) == 0 {
					// fill exactly to the block boundary, or just around it
					k := rate - len(acc)%rate + c.Rng.Intn(3) - 1
					m = vh.Bytes(c.Rng, k)
				} else {
					m = vh.Bytes(c.Rng, msgLen(c, rate))
				}
				g, ar := guarded(m)
				k, err := h.Write(g)
				if k != len(m) || err != nil {
					c.Fail("write-ret", "Write(%d bytes) = %d, %v", len(m), k, err)
				}
				// the caller may reuse its buffer
				for j := range g {
					g[j] ^= 0xff
				}
				arenas.Put(ar)
				acc = append(acc, m...)
				trace = append(trace, fmt.Sprint("w", len(m)))
			case op < 9:
				prefix := vh.Bytes(c.Rng, c.Rng.Intn(5))
				in := append(make([]byte, 0, 100), prefix...)
				got := h.Sum(in)
				want := append(append([]byte{}, prefix...), ref.Keccak(acc, a.n)...)
				c.Eval(1)
				trace = append(trace, "s")
				if !bytes.Equal(got, want) {
					c.Fail("sum-hist", "New%s after %s: Sum(%x) = %x, want %x (%s)", a.name, strings.Join(trace, ","), prefix, got, want, cfg)
				}
				c.Count("sums_between_writes", 1)
			default:
				h.Reset()
				acc = nil
				trace = append(trace, "r")
				c.Count("resets", 1)
			}
		}
		got, want := h.Sum(nil), ref.Keccak(acc, a.n)
		c.Eval(1)
		if !bytes.Equal(got, want) {
			c.Fail("sum-hist", "New%s after %s: %x, want %x (%s)", a.name, strings.Join(trace, ","), got, want, cfg)
		}
		if len(acc) > 0 || len(trace) > 1 {
			c.Cell("hist", a.name, strings.Join(trace, ","))
		}
		c.Sample("New%s %s -> %x", a.name, strings.Join(trace, ","), got)
	})

	// alignment: the same message at every offset of a buffer
	r.Cases("align", r.Scale(200, 4000), 0, func(c *vh.Case) {
		a := algs[c.Rng.Intn(len(algs))]
		m := vh.Bytes(c.Rng, msgLen(c, 200-2*a.n))
		want := ref.Keccak(m, a.n)
		for off := 0; off < 16; off++ {
			buf := make([]byte, off+len(m))
			copy(buf[off:], m)
			if got := a.sum(buf[off:]); !bytes.Equal(got, want) {
				c.Fail("align", "Sum%s at offset %d: %x want %x", a.name, off, got, want)
			}
			c.Eval(1)
			c.Cell("align", a.name, off, len(m))
		}
	})

	// concurrent use of distinct hashes (no shared state)
	r.Cases("conc", r.Scale(40, 600), 1, func(c *vh.Case) {
		var wg sync.WaitGroup
		shared := vh.Bytes(c.Rng, 1000)
		want := ref.Keccak(shared, 32)
		for k := 0; k < 8; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				h := keccak.New256()
				for i := 0; i < len(shared); i += k + 1 {
					e := i + k + 1
					if e > len(shared) {
						e = len(shared)
					}
					h.Write(shared[i:e])
				}
				if got := h.Sum(nil); !bytes.Equal(got, want) {
					c.Fail("conc", "concurrent hashing: %x want %x", got, want)
				}
				c.Eval(1)
			}(k)
		}
		wg.Wait()
		c.Count("concurrent_hashes", 8)
	})
}
