// C29: what Compile returns, and which files it touches, with a stand-in
// compiler. The code under test runs in worker processes of an unprivileged
// user whose only deletable files are in a scratch directory, since its
// cache maintenance removes files.
package c29

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/philhofer/seth"

	"vharness/solcsim"
	"vharness/vh"
)

const nobody = 65534

type call struct {
	Tmp      string // TMPDIR
	Fsize    uint64 // file size limit while writing; 0 for none
	Kind     string // "", "string", "glob"
	Glob     string
	Sources  []seth.Source
	Parallel [][]seth.Source // more, at the same time
}

type reply struct {
	Bundle, Sorted string
	Err, Panic     string
	Changed        string // what became of the sources it was given
}

func compile(f func() (*seth.CompiledBundle, error)) (r reply) {
	v, stack := vh.Panics(func() {
		b, err := f()
		if err != nil {
			r.Err = err.Error()
			return
		}
		r.Bundle, r.Sorted = solcsim.Render(b), solcsim.Sorted(b)
	})
	if stack != "" {
		r.Panic = fmt.Sprint(v, "\n", stack)
	}
	return r
}

func worker() {
	signal.Ignore(syscall.SIGXFSZ)
	in := json.NewDecoder(os.Stdin)
	out := json.NewEncoder(os.Stdout)
	for {
		var c call
		if err := in.Decode(&c); err != nil {
			os.Exit(0)
		}
		os.Setenv("TMPDIR", c.Tmp)
		var lim syscall.Rlimit
		syscall.Getrlimit(syscall.RLIMIT_FSIZE, &lim)
		if c.Fsize > 0 {
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: c.Fsize, Max: lim.Max})
		}
		rs := make([]reply, 1+len(c.Parallel))
		given := clone(c.Sources)
		done := make(chan bool)
		for i := range c.Parallel {
			go func(i int) {
				rs[i+1] = compile(func() (*seth.CompiledBundle, error) { return seth.Compile(c.Parallel[i]) })
				done <- true
			}(i)
		}
		rs[0] = compile(func() (*seth.CompiledBundle, error) {
			switch c.Kind {
			case "string":
				return seth.CompileString(c.Sources[0].Body)
			case "glob":
				return seth.CompileGlob(c.Glob)
			}
			return seth.Compile(c.Sources)
		})
		for range c.Parallel {
			<-done
		}
		syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim)
		if !slices.Equal(given, c.Sources) {
			rs[0].Changed = fmt.Sprintf("%q to %q", given, c.Sources)
		}
		out.Encode(rs)
	}
}

func TestMain(m *testing.M) {
	solcsim.Main()
	if os.Args[0] == "c29worker" {
		vh.LimitData()
		worker()
	}
	os.Exit(m.Run())
}

var (
	r   *vh.Run
	bin string
)

func TestProperty(t *testing.T) {
	r = vh.Start("C29", "exploration")
	r.Rule("distinct (operation, what preceded it, number of sources, whether the compiler ran, mode of the compiler, kind of temporary directory) of checked compilations")
	r.Assume("the compiler is a function of its version and of the request, and tells its version when run with --version")
	r.Assume("damage is what truncation, bit errors, overwriting or failed writes leave; a well-formed entry moved to another name is not damage")
	var err error
	bin, err = ioutil.TempDir("/tmp", "vhc29")
	if err != nil {
		t.Fatal(err)
	}
	os.Chmod(bin, 0755)
	solcsim.Link(bin, "solc")
	r.Cases("history", r.Scale(64, 1500), 0, func(c *vh.Case) { history(c, 24) })
	r.Cases("damage", r.Scale(32, 600), 0, damage)
	os.RemoveAll(bin)
	r.Finish()
}

type world struct {
	errs vh.Output
	hung atomic.Bool
	c    *vh.Case
	g    *rand.Rand
	root string
	conf solcsim.Config
	srcs []seth.Source
	old  [][]seth.Source
	tmps []string
	tmp  string
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	back []string
	glob int
}

func newWorld(c *vh.Case) *world {
	root, err := ioutil.TempDir("/tmp", "vhc29x")
	if err != nil {
		panic(err)
	}
	w := &world{c: c, g: c.Rng, root: root}
	os.Chmod(root, 0755)
	for _, d := range []string{"plain", "my-tmp", "a[bc]-d", "x*y-", "sp ace-1", "-"} {
		w.mkdir(d)
		w.tmps = append(w.tmps, filepath.Join(root, d))
		w.foreign(d+"/notes-1.txt", d+"/tevm-other")
	}
	w.mkdir("my-empty")
	w.mkdir("solc")
	w.foreign("my-file", "my-x.bundle", "ab-d", "abc", "xzy-", "xzzy-1", "sp ace-file", "-file", "a[bc]-dd")
	w.tmp = w.tmps[w.g.Intn(len(w.tmps))]
	w.conf = solcsim.Config{Version: "0.4.24", Imports: map[string]string{}}
	w.cmd = exec.Command(filepath.Join(bin, "solc"))
	w.cmd.Args[0] = "c29worker"
	w.cmd.Env = []string{"PATH=" + bin, "FAKESOLC=" + filepath.Join(root, "solc"), "HOME=" + root}
	w.cmd.Dir = root
	w.cmd.Stderr = &w.errs
	w.cmd.WaitDelay = 5 * time.Second
	w.cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL}
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		panic(err)
	}
	p, err := w.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	w.out = bufio.NewReader(p)
	os.Chown(root, nobody, nobody)
	if err = w.cmd.Start(); err != nil {
		panic(err)
	}
	w.fresh()
	return w
}

// close ends the worker; when it did not get to answer, that is a failure.
func (w *world) close() {
	if e := recover(); e != nil {
		d, ok := e.(died)
		if !ok {
			panic(e)
		}
		w.in.Close()
		w.cmd.Wait()
		s := w.errs.String()
		bad := w.hung.Load() && vh.SethFrame(s) || vh.Crashed(s)
		if len(s) > 8000 {
			s = s[:8000]
		}
		if bad {
			w.c.Fail("crash", "a compilation did not end properly (hangs: %v, %v): %s", w.hung.Load(), d.err, s)
		} else {
			w.c.HarnessError("worker: %v: %s", d.err, s)
		}
		os.RemoveAll(w.root)
		return
	}
	w.in.Close()
	w.cmd.Wait()
	os.RemoveAll(w.root)
}

func (w *world) mkdir(name string) {
	p := filepath.Join(w.root, name)
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	os.Chown(p, nobody, nobody)
}

func (w *world) foreign(names ...string) {
	for _, n := range names {
		p := filepath.Join(w.root, n)
		if err := ioutil.WriteFile(p, []byte("contents of "+n), 0644); err != nil {
			panic(err)
		}
		os.Chown(p, nobody, nobody)
	}
}

// entry reports whether a file is a cache entry of the library.
func (w *world) entry(p string) bool {
	if filepath.Ext(p) != ".bundle" {
		return false
	}
	for _, t := range w.tmps {
		if filepath.Dir(p) == filepath.Join(t, "tevm") {
			return true
		}
	}
	return false
}

// files lists everything in the scratch directory but the cache entries.
func (w *world) files() (list string, entries []string) {
	var l []string
	filepath.Walk(w.root, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(w.root, p)
		switch {
		case err != nil, rel == "solc":
			return filepath.SkipDir
		case w.entry(p):
			if strings.HasPrefix(p, w.tmp+"/") {
				entries = append(entries, p)
			}
			if fi.IsDir() {
				return filepath.SkipDir
			}
		case fi.IsDir():
			if filepath.Base(p) != "tevm" {
				l = append(l, rel+"/")
			}
		default:
			b, _ := ioutil.ReadFile(p)
			l = append(l, fmt.Sprintf("%s %v %q", rel, fi.Mode(), b))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n"), entries
}

func (w *world) do(c call) []reply {
	os.Remove(filepath.Join(w.root, "solc", "log"))
	w.conf.Save(filepath.Join(w.root, "solc"))
	c.Tmp = w.tmp
	var rs []reply
	tm := time.AfterFunc(2*time.Minute, func() {
		w.hung.Store(true)
		w.cmd.Process.Signal(syscall.SIGQUIT)
	})
	defer tm.Stop()
	err := json.NewEncoder(w.in).Encode(&c)
	if err == nil {
		var line []byte
		line, err = w.out.ReadBytes('\n')
		if err == nil {
			err = json.Unmarshal(line, &rs)
		}
	}
	if err != nil {
		panic(died{err})
	}
	return rs
}

// died is what do panics with when the worker does not answer.
type died struct{ err error }

// lines and names are chosen so that sources fall apart at many boundaries.
var lines = []string{"contract A\n", "contract B\n", "contract C\n", "warn w1\n", "warn w2\n", "// x\n", "// é\n", "\n", "x", "contract AA\n"}
var names = []string{"a", "b", "ab", "abc", "bc", "c", "a.sol", "a.solb", "sol", "b.sol", "/x/a.sol", "é", "-", ""}

func (w *world) body() string {
	var b strings.Builder
	for i := w.g.Intn(6); i > 0; i-- {
		b.WriteString(lines[w.g.Intn(len(lines))])
	}
	return b.String()
}

func (w *world) fresh() {
	w.srcs = nil
	for _, i := range w.g.Perm(len(names) - 1)[:1+w.g.Intn(4)] {
		w.srcs = append(w.srcs, seth.Source{Filename: names[i], Body: w.body()})
	}
}

// cut moves a position back to where a character starts: what is sent to
// the compiler is UTF-8.
func cut(s string, k int) int {
	for k < len(s) && k > 0 && s[k]&0xc0 == 0x80 {
		k--
	}
	return k
}

func clone(s []seth.Source) []seth.Source { return append([]seth.Source(nil), s...) }

func (w *world) want(srcs []seth.Source) (string, string) {
	m := map[string]string{}
	for _, s := range srcs {
		m[s.Filename] = s.Body
	}
	a := w.conf.Do(m)
	switch {
	case w.conf.Mode == "unlinked" && len(a.Contracts) == 0:
		return solcsim.Sorted(a.Bundle()), ""
	case w.conf.Mode != "":
		return "", w.conf.Mode
	case a.Error != "":
		return "", "error"
	}
	return solcsim.Sorted(a.Bundle()), ""
}

func (w *world) compare(what string, srcs []seth.Source, rep reply) bool {
	r.Eval(1)
	want, werr := w.want(srcs)
	hist := strings.Join(w.back, "; ")
	switch {
	case rep.Panic != "":
		w.c.Fail("panic", "%s: %s of %q panicked: %s", hist, what, srcs, rep.Panic)
	case werr != "" && rep.Err == "" && werr == w.conf.Mode && !strings.Contains(what, "string"):
		// the compiler failed, but an earlier run may have been cached
		m := w.conf.Mode
		w.conf.Mode = ""
		want, werr = w.want(srcs)
		w.conf.Mode = m
		if werr != "" || rep.Sorted != want {
			w.c.Fail("error", "%s: %s of %q, while the compiler fails (%s), yields\n%s\n not \n%s", hist, what, srcs, m, rep.Sorted, want)
			return false
		}
		r.Count("cached_while_the_compiler_fails", 1)
		return true
	case werr != "" && rep.Err == "":
		w.c.Fail("error", "%s: %s of %q succeeded although the compiler fails (%s)", hist, what, srcs, werr)
	case rep.Changed != "":
		w.c.Fail("caller", "%s: %s changed the caller's sources: %s", hist, what, rep.Changed)
	case werr == "" && rep.Err != "":
		w.c.Fail("refused", "%s: %s of %q failed: %s", hist, what, srcs, rep.Err)
	case werr == "" && rep.Sorted != want:
		w.c.Fail("bundle", "%s: %s of %q yields\n%s\nbut the compiler says\n%s", hist, what, srcs, rep.Sorted, want)
	default:
		return true
	}
	return false
}

// check compiles the current sources and looks at the result and the files.
func (w *world) check(what string) {
	before, _ := w.files()
	c := call{Sources: w.srcs}
	srcs := clone(w.srcs)
	switch w.g.Intn(12) {
	case 0:
		c.Kind = "string"
		c.Sources = w.srcs[:1]
		srcs = []seth.Source{{Filename: "<stdin>", Body: w.srcs[0].Body}}
	case 1:
		c.Kind = "glob"
		w.glob++
		dir := fmt.Sprintf("glob%d", w.glob%3)
		os.RemoveAll(filepath.Join(w.root, dir))
		w.mkdir(dir)
		srcs = nil
		n := w.g.Intn(4)
		if w.g.Intn(4) == 0 {
			n = 4 + w.g.Intn(16)
		}
		for i := n; i >= 0; i-- {
			p := filepath.Join(w.root, dir, fmt.Sprintf("f%d.sol", i))
			b := w.body()
			ioutil.WriteFile(p, []byte(b), 0644)
			srcs = append(srcs, seth.Source{Filename: p, Body: b})
		}
		c.Glob = filepath.Join(w.root, dir, "*.sol")
		before, _ = w.files()
	case 2:
		for i := 2 + w.g.Intn(3); i > 0; i-- {
			s := w.srcs
			if w.g.Intn(2) == 0 && len(w.old) > 0 {
				s = w.old[w.g.Intn(len(w.old))]
			}
			c.Parallel = append(c.Parallel, clone(s))
		}
	case 3:
		c.Fsize = uint64(1 + w.g.Intn(1200))
		r.Count("limited_writes", 1)
	}
	reps := w.do(c)
	ran := solcsim.Compiles(filepath.Join(w.root, "solc"))
	if ran == 0 && reps[0].Err == "" {
		r.Count("answered_from_the_cache", 1)
	}
	r.Count("compilations", 1)
	ok := w.compare(what+c.Kind, srcs, reps[0])
	for i, p := range c.Parallel {
		ok = w.compare(what+" at the same time", p, reps[i+1]) && ok
	}
	after, _ := w.files()
	if before != after {
		w.c.Fail("files", "%s: %s changed the files of others, with temporary directory %s:\n%s", strings.Join(w.back, "; "), what, w.tmp, diff(before, after))
	}
	r.Cell(what, c.Kind, len(c.Parallel) > 0, c.Fsize > 0, len(srcs), ran, w.conf.Mode, filepath.Base(w.tmp), reps[0].Err == "")
	// what a second compilation says, in every field and in the same order
	if ok && w.conf.Mode == "" && c.Kind == "" && reps[0].Err == "" && w.g.Intn(3) == 0 {
		if w.g.Intn(2) == 0 {
			_, e := w.files()
			for _, p := range e {
				os.RemoveAll(p)
			}
		}
		again := w.do(call{Sources: w.srcs})
		if again[0].Bundle != reps[0].Bundle && reps[0].Panic == "" {
			w.c.Fail("repeat", "%s: %s of %q yields\n%s\nand then\n%s", strings.Join(w.back, "; "), what, srcs, reps[0].Bundle, again[0].Bundle)
		}
		r.Count("repeated", 1)
	}
}

func diff(a, b string) string {
	m := map[string]bool{}
	for _, l := range strings.Split(b, "\n") {
		m[l] = true
	}
	var out []string
	for _, l := range strings.Split(a, "\n") {
		if !m[l] {
			out = append(out, "- "+l)
		}
		delete(m, l)
	}
	for l := range m {
		out = append(out, "+ "+l)
	}
	return strings.Join(out, "\n")
}

func (w *world) edit() string {
	g := w.g
	i := g.Intn(len(w.srcs))
	j := g.Intn(len(w.srcs))
	w.old = append(w.old, clone(w.srcs))
	w.srcs = clone(w.srcs)
	switch g.Intn(18) {
	case 0:
		w.srcs[i].Body = w.body()
		return "edit"
	case 1:
		w.srcs[i].Body += lines[g.Intn(len(lines))]
		return "append"
	case 2, 3: // move the end of one body to the start of another
		if i != j {
			if b := w.srcs[i].Body; b != "" {
				k := strings.LastIndexByte(b[:len(b)-1], '\n') + 1
				if g.Intn(4) == 0 {
					k = cut(b, g.Intn(len(b)))
				}
				w.srcs[i].Body, w.srcs[j].Body = b[:k], b[k:]+w.srcs[j].Body
			}
		}
		return "move body boundary"
	case 4, 5: // the same for names
		if i != j {
			n := w.srcs[i].Filename + w.srcs[j].Filename
			k := cut(n, g.Intn(len(n)+1))
			if k > 0 && k < len(n) && n[:k] != n[k:] {
				w.srcs[i].Filename, w.srcs[j].Filename = n[:k], n[k:]
			}
			w.unique()
		}
		return "move name boundary"
	case 6: // between a name and a body
		if n := w.srcs[i].Filename; len(n) > 2 {
			w.srcs[i].Filename, w.srcs[i].Body = n[:cut(n, 2)], n[cut(n, 2):]+w.srcs[i].Body
			w.unique()
		}
		return "move name/body boundary"
	case 7:
		w.srcs[i].Body, w.srcs[j].Body = w.srcs[j].Body, w.srcs[i].Body
		return "swap bodies"
	case 8:
		g.Shuffle(len(w.srcs), func(a, b int) { w.srcs[a], w.srcs[b] = w.srcs[b], w.srcs[a] })
		return "reorder"
	case 9:
		if len(w.srcs) > 1 {
			w.srcs = append(w.srcs[:i], w.srcs[i+1:]...)
		}
		return "drop"
	case 10:
		w.srcs = append(w.srcs, seth.Source{Filename: names[g.Intn(len(names)-1)], Body: w.body()})
		w.unique()
		return "add"
	case 11: // an empty file, which changes no concatenation of bodies
		w.srcs = append(w.srcs, seth.Source{Filename: names[g.Intn(len(names)-1)]})
		w.unique()
		return "add empty"
	case 13: // which does not compile
		w.srcs[i].Body += fmt.Sprintf("\nerror e%d\n", g.Intn(100))
		return "mistake"
	case 12:
		w.srcs[i].Filename = names[g.Intn(len(names)-1)]
		w.unique()
		return "rename"
	default:
		w.srcs = clone(w.old[g.Intn(len(w.old))])
		return "go back"
	}
}

// unique drops sources with the name of an earlier one.
func (w *world) unique() {
	seen := map[string]bool{}
	var l []seth.Source
	for _, s := range w.srcs {
		if !seen[s.Filename] {
			l = append(l, s)
		}
		seen[s.Filename] = true
	}
	w.srcs = l
}

func (w *world) harm(p string) string {
	g := w.g
	b, err := ioutil.ReadFile(p)
	if err != nil || len(b) == 0 {
		return ""
	}
	kind := ""
	switch g.Intn(8) {
	case 0, 1:
		kind, b = "truncated", b[:g.Intn(len(b))]
	case 2:
		kind, b = "end cut", b[:len(b)-1-g.Intn(min(len(b), 12))]
	case 3, 4:
		kind = "bit flipped"
		b[g.Intn(len(b))] ^= 1 << uint(g.Intn(8))
	case 5:
		kind = "overwritten"
		i := g.Intn(len(b))
		copy(b[i:], vh.Bytes(g, g.Intn(len(b)-i)+1))
	case 6:
		kind = "zeroed"
		i := g.Intn(len(b))
		copy(b[i:], make([]byte, g.Intn(len(b)-i)+1))
	case 7:
		kind, b = "empty", nil
	}
	ioutil.WriteFile(p, b, 0644)
	return kind
}

func history(c *vh.Case, steps int) {
	w := newWorld(c)
	defer w.close()
	w.check("first")
	for i := 0; i < steps && !c.Failed(); i++ {
		what := ""
		switch k := w.g.Intn(12); {
		case k < 6:
			what = w.edit()
		case k == 6:
			w.conf.Version = []string{"0.4.24", "0.4.25", "0.5.0", "0.4.24+commit.1"}[w.g.Intn(4)]
			what = "other version"
		case k == 7:
			w.tmp = w.tmps[w.g.Intn(len(w.tmps))]
			what = "other directory"
		case k == 8:
			w.conf.Mode = []string{"", "", "", "error", "exit", "garbage", "truncated", "empty", "unlinked"}[w.g.Intn(9)]
			what = "mode"
		case k == 9:
			_, e := w.files()
			if len(e) > 0 {
				what = w.harm(e[w.g.Intn(len(e))])
			}
		case k == 10:
			// files of others whose names resemble the entries'
			_, e := w.files()
			if len(e) > 0 {
				p := e[w.g.Intn(len(e))]
				rel, _ := filepath.Rel(w.root, p)
				d, n := filepath.Split(rel)
				pre := n
				if i := strings.IndexByte(n, '-'); i >= 0 {
					pre = n[:i]
				}
				w.foreign(d+pre+"-notes.txt", d+pre, d+pre+"-x.bundle.txt", d+"README-x", pre+"-up.bundle")
				what = "neighbours"
			}
		default:
			what = "again"
		}
		if what == "" {
			continue
		}
		w.back = append(w.back, what)
		w.check(what)
		if w.conf.Mode != "" && w.g.Intn(2) == 0 {
			w.conf.Mode = ""
		}
	}
}

// damage harms the only entry again and again, in different places.
func damage(c *vh.Case) {
	w := newWorld(c)
	defer w.close()
	for len(w.srcs) == 0 || !strings.Contains(w.srcs[0].Body, "contract") {
		w.fresh()
	}
	w.check("first")
	for i := 0; i < 40 && !c.Failed(); i++ {
		w.do(call{Sources: clone(w.srcs)})
		_, e := w.files()
		if len(e) != 1 {
			for _, p := range e {
				os.RemoveAll(p)
			}
			continue
		}
		orig, _ := ioutil.ReadFile(e[0])
		what := w.harm(e[0])
		now, _ := ioutil.ReadFile(e[0])
		if bytes.Equal(orig, now) {
			continue
		}
		w.back = []string{fmt.Sprintf("entry %s at %d of %d", what, firstDiff(orig, now), len(orig))}
		r.Count("damaged_entries", 1)
		r.Seen("damage", fmt.Sprint(what, firstDiff(orig, now)))
		rep := w.do(call{Sources: clone(w.srcs)})
		w.compare("compilation", w.srcs, rep[0])
		r.Cell("damage", what, firstDiff(orig, now)*20/(len(orig)+1))
		if i%8 == 7 {
			w.fresh()
		}
	}
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}
