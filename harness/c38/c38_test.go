// C38: nothing of an operation stays behind once it has ended. Resources
// belong to a process, so every case is a worker process of its own, of an
// unprivileged user, that counts its open files, connections, response
// bodies, child processes and goroutines after every operation.
package c38

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"

	"vharness/solcsim"
	"vharness/vh"
)

const nobody = 65534

// report is what a worker tells.
type report struct {
	Key, Msg string // of a violation
	Ops      int
	Counts   map[string]int
	Cells    []string
}

// worker is the state of a worker process.
type worker struct {
	g    *rand.Rand
	rep  report
	seen map[string]bool
	log  []string
	fds  map[string]int // that the scenario has itself
	done chan bool
}

type failed struct{}

func (w *worker) fail(key, f string, a ...interface{}) {
	w.rep.Key, w.rep.Msg = key, fmt.Sprintf(f, a...)+fmt.Sprintf("\nhistory: %q", w.log)
	w.finish()
}

func (w *worker) finish() {
	json.NewEncoder(os.Stdout).Encode(&w.rep)
	os.Exit(0)
}

func (w *worker) cell(a ...interface{}) {
	s := fmt.Sprint(a...)
	if !w.seen[s] {
		w.seen[s] = true
		w.rep.Cells = append(w.rep.Cells, s)
	}
}

func (w *worker) count(k string, n int) { w.rep.Counts[k] += n }

func (w *worker) note(f string, a ...interface{}) {
	w.log = append(w.log, fmt.Sprintf(f, a...))
	if len(w.log) > 30 {
		w.log = w.log[1:]
	}
}

// run runs an operation, which has to end.
func (w *worker) run(what string, f func()) {
	w.note("%s", what)
	w.rep.Ops++
	done := make(chan string, 1)
	go func() {
		val, stack := vh.Panics(f)
		if val != nil {
			done <- fmt.Sprint(val, "\n", stack)
		} else {
			done <- ""
		}
	}()
	select {
	case p := <-done:
		if p != "" {
			w.fail("panic", "%s: panic: %s", what, p)
		}
	case <-time.After(60 * time.Second):
		buf := make([]byte, 1<<18)
		w.fail("hang", "%s does not end\n%s", what, buf[:runtime.Stack(buf, true)])
	}
}

// library lists the goroutines that run or were started by the library.
func library() (l []string) {
	buf := make([]byte, 1<<20)
	for _, s := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if strings.Contains(s, "github.com/philhofer/seth") {
			l = append(l, s)
		}
	}
	return l
}

// files lists the open files.
func files() map[string]int {
	out := map[string]int{}
	l, err := ioutil.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, fi := range l {
		p, err := os.Readlink("/proc/self/fd/" + fi.Name())
		if err != nil || strings.Contains(p, "/proc/") || strings.HasPrefix(p, "anon_inode") {
			continue
		}
		if i := strings.IndexByte(p, ':'); i >= 0 && !strings.HasPrefix(p, "/") {
			p = p[:i]
		}
		out[p]++
	}
	return out
}

// children lists the child processes, zombies among them.
func children() (l []string) {
	m, _ := filepath.Glob("/proc/self/task/*/children")
	for _, p := range m {
		b, _ := ioutil.ReadFile(p)
		l = append(l, strings.Fields(string(b))...)
	}
	return l
}

// extra compares the open files with those of the beginning.
func (w *worker) extra() string {
	var l []string
	for p, n := range files() {
		if n > w.fds[p] {
			l = append(l, fmt.Sprintf("%s: %d, were %d", p, n, w.fds[p]))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// settled waits until f returns an empty string.
func settled(f func() string) (s string) {
	for i := 0; i < 1500; i++ {
		if s = f(); s == "" {
			return ""
		}
		time.Sleep(time.Duration(i/50+1) * time.Millisecond)
	}
	return s
}

// quiet checks that no goroutine, file or child is left.
func (w *worker) quiet(what string) {
	if s := settled(func() string { return strings.Join(library(), "\n\n") }); s != "" {
		w.fail("goroutine", "after %s, goroutines of the library remain:\n%s", what, s)
	}
	if s := settled(func() string { return strings.Join(children(), " ") }); s != "" {
		w.fail("process", "after %s, child processes remain: %s", what, s)
	}
	if s := settled(w.extra); s != "" {
		w.fail("file", "after %s, files remain open: %s", what, s)
	}
	w.count("checks", 1)
}

var scenarios = map[string]func(*worker, int){"http": httpOps, "conn": connOps, "filter": filterOps, "compile": compileOps, "chain": chainOps}

func workerMain() {
	var seed int64
	var n int
	fmt.Sscan(os.Args[2], &seed)
	fmt.Sscan(os.Args[3], &n)
	log.SetOutput(ioutil.Discard)
	w := &worker{g: rand.New(rand.NewSource(seed)), seen: map[string]bool{}}
	w.rep.Counts = map[string]int{}
	w.fds = files()
	scenarios[os.Args[1]](w, n)
	w.finish()
}

func TestMain(m *testing.M) {
	solcsim.Main()
	if os.Args[0] == "c38worker" {
		vh.LimitData()
		workerMain()
	}
	os.Exit(m.Run())
}

func TestProperty(t *testing.T) {
	r := vh.Start("C38", "exploration")
	r.Rule("distinct (kind of operation, what its peer did, outcome) of operations after which the process's open files, connections, response bodies, children and goroutines of the library were compared with those before")
	r.Assume("the peer answers, fails or goes away; idle HTTP connections of Go's own transport are not the library's")
	bin, err := ioutil.TempDir("/tmp", "vhc38")
	if err != nil {
		t.Fatal(err)
	}
	os.Chmod(bin, 0755)
	solcsim.Link(bin, "solc")
	var names []string
	for n := range scenarios {
		names = append(names, n)
	}
	sort.Strings(names)
	size := map[string]int{"http": 120, "conn": 60, "filter": 3, "compile": 40, "chain": 40}
	for _, name := range names {
		name := name
		r.CasesLimit(name, r.Scale(map[string]int{"filter": 6}[name]+10, 250), 0, 300*time.Second, func(c *vh.Case) {
			root, err := ioutil.TempDir("/tmp", "vhc38x")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(root)
			os.Chown(root, nobody, nobody)
			os.Chmod(root, 0755)
			cmd := exec.Command(filepath.Join(bin, "solc"), name, fmt.Sprint(c.Rng.Int63()), fmt.Sprint(size[name]))
			cmd.Args[0] = "c38worker"
			cmd.Env = []string{"PATH=" + bin, "FAKESOLC=" + root, "HOME=" + root, "TMPDIR=" + root}
			cmd.Dir = root
			cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL}
			var out, errs vh.Output
			cmd.Stdout, cmd.Stderr = &out, &errs
			err = cmd.Run()
			var rep report
			if json.Unmarshal(out.Bytes(), &rep) != nil {
				e := errs.String()
				bad := vh.Crashed(e)
				if len(e) > 4000 {
					e = e[:4000]
				}
				if bad {
					c.Fail("crash", "%v: %s", err, e)
				} else {
					c.HarnessError("worker: %v %s %s", err, out.String(), e)
				}
				return
			}
			c.Eval(rep.Ops)
			for k, n := range rep.Counts {
				c.Count(k, n)
			}
			for _, x := range rep.Cells {
				c.Cell(name, x)
			}
			if rep.Key != "" {
				c.Fail(rep.Key, "%s", rep.Msg)
			}
		})
	}
	os.RemoveAll(bin)
	r.Finish()
}
