// C30: SourceOf against a direct reading of the source map format.
package c30

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/ethereum/go-ethereum/common"
	"github.com/philhofer/seth"

	"vharness/evmgen"
	"vharness/solcsim"
	"vharness/vh"
)

func TestMain(m *testing.M) {
	solcsim.Main()
	os.Exit(m.Run())
}

var r *vh.Run

// entry is an expanded entry of a source map.
type entry struct{ s, l, f int }

// expand reads a source map: "s:l:f:j:m;...", where an empty or missing field
// repeats that of the entry before.
func expand(m string) []entry {
	var out []entry
	cur := entry{}
	for _, e := range strings.Split(m, ";") {
		for i, v := range strings.Split(e, ":") {
			if v == "" || i > 2 {
				continue
			}
			n, err := strconv.Atoi(v)
			if err != nil {
				panic(err)
			}
			switch i {
			case 0:
				cur.s = n
			case 1:
				cur.l = n
			case 2:
				cur.f = n
			}
		}
		out = append(out, cur)
	}
	return out
}

// instructions gives for every byte of the code the number of the
// instruction it belongs to, and its distance from the instruction's start.
func instructions(code []byte) (num, off []int) {
	n := 0
	for i := 0; i < len(code); n++ {
		w := 1
		if code[i] >= 0x60 && code[i] <= 0x7f {
			w += int(code[i]) - 0x5f
		}
		for j := 0; j < w && i < len(code); j++ {
			num = append(num, n)
			off = append(off, j)
			i++
		}
	}
	return
}

// want is the text at a program counter. The second result says that the
// range lies partly outside the file; then a clipped text will do, too.
func want(b *seth.CompiledBundle, code []byte, m []entry, pc int) (text string, clip string) {
	num, _ := instructions(code)
	if pc < 0 || pc >= len(num) || num[pc] >= len(m) {
		return "", ""
	}
	e := m[num[pc]]
	if e.f < 0 || e.f >= len(b.Sources) || e.s < 0 || e.l < 0 || e.s > len(b.Sources[e.f]) {
		return "", ""
	}
	src := b.Sources[e.f]
	if e.l > len(src)-e.s {
		return "", src[e.s:]
	}
	return src[e.s : e.s+e.l], src[e.s : e.s+e.l]
}

func code(g *rand.Rand) []byte {
	switch g.Intn(5) {
	case 0:
		return vh.Bytes(g, g.Intn(120))
	case 1: // every push in turn
		var c []byte
		first := g.Intn(32)
		for i := 0; i < 4; i++ {
			w := (first+i)%32 + 1
			c = append(c, byte(0x5f+w))
			c = append(c, vh.Bytes(g, w)...)
			c = append(c, []byte{0x50, 0x5b, 0x80, 0x5f, 0x00}[g.Intn(5)])
		}
		return c
	case 2: // cut in the middle of an immediate
		c := vh.Bytes(g, g.Intn(20))
		w := g.Intn(32) + 1
		c = append(c, byte(0x5f+w))
		return append(c, vh.Bytes(g, g.Intn(w+1))...)
	case 3: // immediates that look like pushes
		var c []byte
		for i := g.Intn(6); i >= 0; i-- {
			w := g.Intn(32) + 1
			c = append(c, byte(0x5f+w))
			for j := 0; j < w; j++ {
				c = append(c, byte(0x60+g.Intn(32)))
			}
			c = append(c, byte(g.Intn(256)))
		}
		return c
	default:
		e := &evmgen.Env{G: g, EOAs: []common.Address{evmgen.Address("a")}, Contracts: []common.Address{evmgen.Address("b")}, Ghosts: []common.Address{evmgen.Address("c")}}
		p := e.Program(2)
		if g.Intn(3) == 0 { // the compiler's metadata
			p = append(p, 0xa1, 0x65, 'b', 'z', 'z', 'r', '0', 0x58, 0x20)
			p = append(append(p, vh.Bytes(g, 32)...), 0x00, 0x29)
		}
		return p
	}
}

// sourcemap writes a map entry by entry, leaving out what is repeated, or
// not, and with positions that may lie outside of everything.
func sourcemap(g *rand.Rand, n int, srcs []string, wild bool) string {
	num := func(max int) int {
		if wild && g.Intn(6) == 0 {
			return []int{-1, max + 1, max + 100, 1 << 31, 1 << 62, -1 << 62, 1<<63 - 1, -1 << 63}[g.Intn(8)]
		}
		return g.Intn(max + 1)
	}
	var ents []string
	fields := 4
	if g.Intn(3) == 0 {
		fields = 5 // with modifier depths
	}
	last := entry{-5, -5, -5}
	for i := 0; i < n; i++ {
		f := g.Intn(len(srcs))
		s := num(len(srcs[f]))
		l := 0
		if s >= 0 && s <= len(srcs[f]) {
			l = num(len(srcs[f]) - s)
		} else {
			l = num(10)
		}
		if g.Intn(10) == 0 || wild && g.Intn(6) == 0 {
			f = -1
			if wild {
				f = []int{-1, len(srcs), len(srcs) + 3, -2, 1 << 40}[g.Intn(5)]
			}
		}
		if i > 0 && g.Intn(3) == 0 {
			f = last.f
		}
		if i > 0 && g.Intn(4) == 0 {
			s, l = last.s, last.l
		}
		cur := entry{s, l, f}
		e := []string{fmt.Sprint(s), fmt.Sprint(l), fmt.Sprint(f), []string{"i", "o", "-"}[g.Intn(3)], fmt.Sprint(g.Intn(3))}[:fields]
		if i > 0 {
			if s == last.s && g.Intn(5) != 0 {
				e[0] = ""
			}
			if l == last.l && g.Intn(5) != 0 {
				e[1] = ""
			}
			if f == last.f && g.Intn(5) != 0 {
				e[2] = ""
			}
			for j := 3; j < fields; j++ {
				if g.Intn(2) == 0 {
					e[j] = ""
				}
			}
			for len(e) > 1 && e[len(e)-1] == "" && g.Intn(5) != 0 {
				e = e[:len(e)-1]
			}
		} else if fields == 5 && g.Intn(2) == 0 {
			e[4] = ""
		}
		ents = append(ents, strings.Join(e, ":"))
		last = cur
	}
	return strings.Join(ents, ";")
}

func sources(g *rand.Rand) []string {
	var srcs []string
	for i := g.Intn(4); i >= 0; i-- {
		srcs = append(srcs, strings.Repeat([]string{"é", "x\n", "contract A {}\n", "", "ab"}[g.Intn(5)], g.Intn(20)))
	}
	return srcs
}

// check asks for every program counter, in a random order.
func check(c *vh.Case, what string, b *seth.CompiledBundle, ct *seth.CompiledContract, wild bool) {
	m := expand(ct.Sourcemap)
	num, off := instructions(ct.Code)
	pcs := c.Rng.Perm(len(ct.Code) + 3)
	pcs = append(pcs, -1, -100, len(ct.Code)+1000, 1<<31, 1<<62, -1<<63)
	for _, pc := range pcs {
		if c.Failed() {
			return
		}
		text, clip := want(b, ct.Code, m, pc)
		var got string
		ok := c.Guard("panic", func() { got = b.SourceOf(ct, pc) })
		r.Eval(1)
		if !ok {
			c.Fail("panic", "%s: SourceOf(%d) of code %x with map %s", what, pc, ct.Code, ct.Sourcemap)
			return
		}
		inside := pc >= 0 && pc < len(num)
		if got != text && got != clip {
			key := "source"
			if inside && off[pc] > 0 {
				key = "immediate"
			}
			c.Fail(key, "%s: SourceOf(%d) of code %x with map %s and files %q is %q, not %q", what, pc, ct.Code, ct.Sourcemap, b.Sources, got, text)
			return
		}
		if !inside {
			r.Count("outside_the_code", 1)
			continue
		}
		switch {
		case num[pc] >= len(m):
			r.Count("past_the_map", 1)
		case m[num[pc]].f < 0 || m[num[pc]].f >= len(b.Sources):
			r.Count("without_a_source", 1)
		case text != "":
			r.Count("with_text", 1)
		}
		op := ct.Code[pc-off[pc]]
		r.Seen("opcodes", fmt.Sprint(op))
		e := entry{}
		if num[pc] < len(m) {
			e = m[num[pc]]
		}
		r.Cell(what, op, off[pc] > 0, wild, e.f, len(text) > 0, num[pc] < len(m))
	}
}

func direct(c *vh.Case, wild bool) {
	g := c.Rng
	b := &seth.CompiledBundle{}
	for i := g.Intn(3); i >= 0; i-- {
		b.Filenames = append(b.Filenames, fmt.Sprint(i))
	}
	b.Sources = sources(g)
	co := code(g)
	num, _ := instructions(co)
	n := 1
	if len(num) > 0 {
		n = num[len(num)-1] + 1
	}
	n += g.Intn(5) - 3
	if g.Intn(5) == 0 {
		n = g.Intn(n + 3 + 1)
	}
	if n < 0 {
		n = 0
	}
	b.Contracts = append(b.Contracts, seth.CompiledContract{Name: "A", Code: co, Sourcemap: sourcemap(g, n, b.Sources, wild)})
	check(c, "bundle", b, &b.Contracts[0], wild)
	if c.Index < 3 {
		r.Sample("code %x map %s", co, b.Contracts[0].Sourcemap)
	}
}

// compiled goes through the compiler, with imported files among whose ids
// that of the source is. (C29 looks at bundles of several sources.)
func compiled(c *vh.Case, tool string) {
	g := c.Rng
	conf := solcsim.Config{Version: fmt.Sprint(c.Index), Shuffle: int64(g.Intn(3)) * g.Int63(), Imports: map[string]string{}}
	body := strings.Repeat("// text\n", g.Intn(4)) + "contract A\ncontract B\n// end\n"
	for i := g.Intn(4); i > 0; i-- {
		conf.Imports[[]string{"aa.sol", "lib/x.sol", "0", "zz", "<a", "<z"}[g.Intn(6)]] = []string{"// imported\n", "contract C\n"}[g.Intn(2)]
	}
	conf.Save(tool)
	ref := conf.Do(map[string]string{"<stdin>": body}).Bundle()
	var b *seth.CompiledBundle
	var err error
	if !c.Guard("panic", func() { b, err = seth.CompileString(body) }) || err != nil || b == nil {
		c.Fail("compile", "%q with imports %q: %v", body, conf.Imports, err)
		return
	}
	for i := range ref.Contracts {
		x := &ref.Contracts[i]
		var ct *seth.CompiledContract
		for j := range b.Contracts {
			if b.Contracts[j].Name == x.Name && string(b.Contracts[j].Code) == string(x.Code) {
				ct = &b.Contracts[j]
			}
		}
		if ct == nil {
			c.Fail("compile", "%q with imports %q: contract %s is missing or another", body, conf.Imports, x.Name)
			return
		}
		mm := expand(x.Sourcemap)
		for _, pc := range g.Perm(len(x.Code)) {
			text, clip := want(ref, x.Code, mm, pc)
			var got string
			ok := c.Guard("panic", func() { got = b.SourceOf(ct, pc) })
			r.Eval(1)
			if !ok || got != text && got != clip {
				c.Fail("compiled", "from %q with file ids %q: SourceOf(%d) of code %x with map %s is %q, not %q", body, ref.Filenames, pc, x.Code, x.Sourcemap, got, text)
				return
			}
			if text != "" {
				r.Count("with_text_after_compiling", 1)
			}
		}
		r.Cell("compiled", len(ref.Filenames), len(ref.Contracts), conf.Shuffle != 0, x.Name)
	}
}

func TestProperty(t *testing.T) {
	r = vh.Start("C30", "exploration")
	r.Rule("distinct (origin of the bundle, opcode, whether inside its immediate, file, whether text was found) of program counters asked for")
	r.Assume("a range that reaches past the end of its file may be reported as such or clipped")
	r.Assume("a counter inside an instruction's immediate data belongs to the instruction")
	tmp, err := os.MkdirTemp("", "c30")
	if err != nil {
		t.Fatal(err)
	}
	tool := solcsim.Tool(tmp)
	r.Cases("map", r.Scale(20000, 400000), 0, func(c *vh.Case) { direct(c, false) })
	r.Cases("wild", r.Scale(10000, 200000), 0, func(c *vh.Case) { direct(c, true) })
	r.Cases("compiled", r.Scale(150, 3000), 1, func(c *vh.Case) { compiled(c, tool) })
	os.RemoveAll(tmp)
	r.Finish()
}
