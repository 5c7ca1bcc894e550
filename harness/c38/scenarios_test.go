package c38

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/tevm"

	"vharness/rpcsim"
	"vharness/solcsim"
	"vharness/vh"
)

// tracker counts the response bodies that have not been closed.
type tracker struct {
	base http.RoundTripper
	host *url.URL // every request goes there
	mu   sync.Mutex
	open int
	all  int
}

type body struct {
	io.ReadCloser
	t    *tracker
	once sync.Once
}

func (b *body) Close() error {
	b.once.Do(func() {
		b.t.mu.Lock()
		b.t.open--
		b.t.mu.Unlock()
	})
	return b.ReadCloser.Close()
}

func (t *tracker) RoundTrip(req *http.Request) (*http.Response, error) {
	req.URL.Scheme, req.URL.Host = t.host.Scheme, t.host.Host
	res, err := t.base.RoundTrip(req)
	if res != nil && res.Body != nil {
		t.mu.Lock()
		t.open++
		t.all++
		t.mu.Unlock()
		res.Body = &body{ReadCloser: res.Body, t: t}
	}
	return res, err
}

// operations of a client, none of which needs more than one request
func clientOp(g *rand.Rand, c *seth.Client) (string, func()) {
	var a seth.Address
	var h seth.Hash
	g.Read(a[:])
	g.Read(h[:])
	switch g.Intn(9) {
	case 0:
		return "GetBalance", func() { c.GetBalance(&a) }
	case 1:
		return "GetBlock", func() { c.GetBlock(seth.Latest, false) }
	case 2:
		return "GetTransaction", func() { c.GetTransaction(&h) }
	case 3:
		return "GetReceipt", func() { c.GetReceipt(&h) }
	case 4:
		return "GetCode", func() { c.GetCode(&a) }
	case 5:
		return "GasPrice", func() { c.GasPrice() }
	case 6:
		return "RawCall", func() { c.RawCall(h[:]) }
	case 7:
		return "EstimateGas", func() { c.EstimateGas(&seth.CallOpts{From: &a, To: &a}) }
	}
	return "Do", func() {
		var out interface{}
		c.Do("some_method", []json.RawMessage{json.RawMessage(`"x"`)}, &out)
	}
}

var bodies = []string{
	`{"jsonrpc":"2.0","id":1,"result":"0x10"}`, `{"jsonrpc":"2.0","id":1,"result":null}`,
	`{"jsonrpc":"2.0","id":1,"error":{"code":-1,"message":"no"}}`, `{"jsonrpc":"2.0","id":1,"result":{}}`,
	"", "{", "garbage", `{"jsonrpc":"2.0","id":1,"result":"0x10"} and more`, "[]", "null",
}

// httpOps: clients over HTTP, the public gateway among them.
func httpOps(w *worker, n int) {
	var mu sync.Mutex
	plan, text := "", ""
	srv := httptest.NewServer(http.HandlerFunc(func(rw http.ResponseWriter, req *http.Request) {
		io.Copy(ioutil.Discard, req.Body)
		mu.Lock()
		p, t := plan, text
		mu.Unlock()
		switch p {
		case "status":
			rw.WriteHeader([]int{201, 204, 400, 401, 404, 429, 500, 503}[len(t)%8])
		case "redirect":
			if req.URL.Path != "/moved" {
				http.Redirect(rw, req, "/moved", []int{301, 302, 307, 308}[len(t)%4])
				return
			}
		case "hang up":
			panic(http.ErrAbortHandler)
		case "cut":
			rw.Header().Set("Content-Length", fmt.Sprint(len(t)+100))
			io.WriteString(rw, t)
			panic(http.ErrAbortHandler)
		case "long":
			t += strings.Repeat(" ", 1<<18)
		case "pieces":
			for i := range t {
				io.WriteString(rw, t[i:i+1])
				rw.(http.Flusher).Flush()
			}
			return
		}
		io.WriteString(rw, t)
	}))
	host, _ := url.Parse(srv.URL)
	base := &http.Transport{}
	tr := &tracker{base: base, host: host}
	http.DefaultTransport = tr
	plans := []string{"", "status", "redirect", "hang up", "cut", "long", "pieces"}
	clients := map[string]*seth.Client{"http": seth.NewHTTPClient("http://node.invalid/"), "infura": seth.NewClientTransport(seth.InfuraTransport{})}
	for i := 0; i < n; i++ {
		mu.Lock()
		plan, text = plans[w.g.Intn(len(plans))], bodies[w.g.Intn(len(bodies))]
		p := plan
		mu.Unlock()
		kind := []string{"http", "infura"}[w.g.Intn(2)]
		name, f := clientOp(w.g, clients[kind])
		par := 1
		if w.g.Intn(10) == 0 {
			par = 5
		}
		what := fmt.Sprintf("%s over %s (%s %q)", name, kind, p, text)
		w.run(what, func() {
			var wg sync.WaitGroup
			for j := 0; j < par; j++ {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			}
			wg.Wait()
		})
		tr.mu.Lock()
		open := tr.open
		tr.mu.Unlock()
		if open != 0 {
			w.fail("body", "after %s, %d response bodies have not been closed", what, open)
		}
		w.cell(kind, name, p, len(text) > 2)
		if l := library(); len(l) > 0 && i%10 == 0 {
			w.quietGoroutines(what)
		}
	}
	w.count("bodies", tr.all)
	base.CloseIdleConnections()
	srv.CloseClientConnections()
	srv.Close()
	w.quiet(fmt.Sprintf("%d requests over HTTP", n))
}

func (w *worker) quietGoroutines(what string) {
	if s := settled(func() string { return strings.Join(library(), "\n\n") }); s != "" {
		w.fail("goroutine", "after %s, goroutines of the library remain:\n%s", what, s)
	}
}

// tconn is a connection that tells when it is closed.
type tconn struct {
	net.Conn
	n    int
	d    *dialer
	once sync.Once
}

func (t *tconn) Close() error {
	t.once.Do(func() {
		t.d.mu.Lock()
		delete(t.d.open, t.n)
		t.d.mu.Unlock()
	})
	return t.Conn.Close()
}

// Write may fail, before or after some of what it is to write.
func (t *tconn) Write(b []byte) (int, error) {
	t.d.mu.Lock()
	k := t.d.cut
	t.d.mu.Unlock()
	if k < 0 {
		return t.Conn.Write(b)
	}
	if k > len(b) {
		k = len(b)
	}
	k, _ = t.Conn.Write(b[:k])
	return k, errors.New("cannot write")
}

type dialer struct {
	cut  int // writes fail after so many bytes, unless it is negative
	path string
	g    *rand.Rand
	mu   sync.Mutex
	open map[int]bool
	n    int
	fail bool
}

func (d *dialer) dial() (io.ReadWriteCloser, error) {
	d.mu.Lock()
	fail := d.fail
	d.mu.Unlock()
	path := d.path
	if fail {
		path += ".missing"
	}
	c, err := seth.IPCPath(path)()
	if err != nil {
		return nil, err
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	d.n++
	d.open[d.n] = true
	return &tconn{Conn: c.(net.Conn), n: d.n, d: d}, nil
}

func (d *dialer) count() int {
	d.mu.Lock()
	defer d.mu.Unlock()
	return len(d.open)
}

// connOps: a client over a socket whose node keeps going away.
func connOps(w *worker, n int) {
	l, err := net.Listen("unix", "node.ipc")
	if err != nil {
		panic(err)
	}
	w.fds = files()
	d := &dialer{path: "node.ipc", open: map[int]bool{}, cut: -1}
	var mu sync.Mutex
	fate := ""
	serve := func(c net.Conn) {
		defer c.Close()
		in := bufio.NewReader(c)
		for {
			line, err := in.ReadBytes('\n')
			if err != nil {
				return
			}
			var q struct{ ID json.RawMessage }
			json.Unmarshal(line, &q)
			mu.Lock()
			f := fate
			mu.Unlock()
			ans := fmt.Sprintf(`{"jsonrpc":"2.0","id":%s,"result":"0x10"}`+"\n", q.ID)
			switch f {
			case "close":
				return
			case "garbage":
				io.WriteString(c, "]garbage\n")
				in.ReadBytes('\n') // until the client hangs up
				return
			case "cut":
				io.WriteString(c, ans[:len(ans)/2])
				return
			case "answer and close":
				io.WriteString(c, ans)
				return
			case "spurious":
				io.WriteString(c, `{"jsonrpc":"2.0","id":987654,"result":"0x1"}`+"\n"+ans)
			case "twice":
				io.WriteString(c, ans+ans)
			case "error":
				fmt.Fprintf(c, `{"jsonrpc":"2.0","id":%s,"error":{"code":-3,"message":"no"}}`+"\n", q.ID)
			case "answer and garbage":
				io.WriteString(c, ans+"]\n")
				in.ReadBytes('\n')
				return
			default:
				io.WriteString(c, ans)
			}
		}
	}
	var served sync.WaitGroup
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			served.Add(1)
			go func() { defer served.Done(); serve(c) }()
		}
	}()
	cl := seth.NewClient(d.dial)
	fates := []string{"", "", "close", "garbage", "cut", "answer and close", "spurious", "twice", "error", "answer and garbage", "no dial", "no write"}
	ending := map[string]bool{"close": true, "garbage": true, "cut": true, "answer and close": true, "answer and garbage": true, "no write": true}
	f := ""
	for i := 0; i < n; i++ {
		f = fates[w.g.Intn(len(fates))]
		if i == n-1 {
			f = "close"
		}
		mu.Lock()
		fate = f
		mu.Unlock()
		d.mu.Lock()
		d.fail = f == "no dial"
		d.cut = -1
		if f == "no write" {
			d.cut = []int{0, 1, 30, 1 << 20}[w.g.Intn(4)]
		}
		d.mu.Unlock()
		par := 1
		if w.g.Intn(3) == 0 {
			par = 2 + w.g.Intn(6)
		}
		what := fmt.Sprintf("%d calls over a socket (%s)", par, f)
		var fs []func()
		for j := 0; j < par; j++ {
			_, f := clientOp(w.g, cl)
			fs = append(fs, f)
		}
		w.run(what, func() {
			var wg sync.WaitGroup
			for j := 0; j < par; j++ {
				wg.Add(1)
				go func(f func()) { defer wg.Done(); f() }(fs[j])
			}
			wg.Wait()
		})
		max := 1
		if ending[f] {
			max = 0
		}
		if s := settled(func() string {
			if k := d.count(); k > max {
				return fmt.Sprintf("%d connections are open, at most %d can be in use", k, max)
			}
			return ""
		}); s != "" {
			w.fail("connection", "after %s: %s", what, s)
		}
		// one goroutine reads each open connection
		if s := settled(func() string {
			if k := len(library()); k > max {
				return strings.Join(library(), "\n\n")
			}
			return ""
		}); s != "" {
			w.fail("goroutine", "after %s: %d connections are open and these goroutines run:\n%s", what, d.count(), s)
		}
		w.cell(f, par)
	}
	w.count("connections", d.n)
	l.Close()
	served.Wait()
	delete(w.fds, "socket")
	w.quiet(fmt.Sprintf("%d rounds over a socket", n))
}

// filterOps: filters that are closed, fail or come to their end, whether or
// not anybody reads them.
func filterOps(w *worker, n int) {
	for i := 0; i < n; i++ {
		const many = 120
		var mu sync.Mutex
		behave := map[string][]string{} // of each filter
		calls := map[string]int{}
		uninstalled := map[string]bool{}
		next := 0
		logs := func(k int) string {
			var l []string
			for j := 0; j < k; j++ {
				l = append(l, `{"address":"0x0000000000000000000000000000000000000001","topics":[],"data":"0x"}`)
			}
			return "[" + strings.Join(l, ",") + "]"
		}
		tp := &rpcsim.Direct{Handle: func(q *rpcsim.Req) (string, error) {
			mu.Lock()
			defer mu.Unlock()
			id := q.Str(0)
			calls[q.Method]++
			b := behave[id]
			switch q.Method {
			case "eth_newFilter":
				next++
				id = fmt.Sprintf("0x%x", next)
				behave[id] = []string{[]string{"few", "many", "none", "fail"}[w.g.Intn(4)], []string{"few", "many", "none", "fail", "none"}[w.g.Intn(5)], []string{"ok", "no", "fail"}[w.g.Intn(3)]}
				return `"` + id + `"`, nil
			case "eth_getFilterLogs", "eth_getFilterChanges":
				k := 0
				if q.Method == "eth_getFilterChanges" {
					k = 1
				}
				switch b[k] {
				case "few":
					return logs(3), nil
				case "many":
					return logs(70), nil
				case "fail":
					return "", errors.New("scripted failure")
				}
				return "[]", nil
			case "eth_uninstallFilter":
				uninstalled[id] = true
				switch b[2] {
				case "fail":
					return "", errors.New("scripted failure")
				case "no":
					return "false", nil
				}
				return "true", nil
			}
			return "", &seth.RPCError{Code: -1, Message: "?"}
		}}
		cl := seth.NewClientTransport(tp)
		type fl struct {
			f    *seth.Filter
			read string
			poll bool
		}
		var fs []fl
		var readers sync.WaitGroup
		for j := 0; j < many; j++ {
			start := int64(-1)
			if w.g.Intn(3) == 0 {
				start = int64(w.g.Intn(100))
			}
			var f *seth.Filter
			var err error
			w.run("FilterTopics", func() { f, err = cl.FilterTopics(nil, nil, start, -1) })
			if err != nil {
				w.fail("filter", "a filter failed: %v", err)
			}
			x := fl{f: f, read: []string{"all", "none", "some", "until closed"}[w.g.Intn(4)], poll: start < 0}
			fs = append(fs, x)
			switch x.read {
			case "all":
				readers.Add(1)
				go func() {
					defer readers.Done()
					for range f.Out() {
					}
				}()
			case "some":
				readers.Add(1)
				k := 1 + w.g.Intn(30)
				go func() {
					defer readers.Done()
					for ; k > 0; k-- {
						if _, ok := <-f.Out(); !ok {
							return
						}
					}
				}()
			}
		}
		// some polls later
		time.Sleep(time.Duration([]int{0, 300, 1300, 2200}[w.g.Intn(4)]) * time.Millisecond)
		for _, j := range w.g.Perm(many) {
			x := fs[j]
			w.run("Close", func() {
				if x.read == "until closed" && j%2 == 0 {
					go x.f.Close()
				}
				x.f.Close()
				x.f.Err()
			})
			w.cell(x.read, x.poll, behave[fmt.Sprintf("0x%x", j+1)])
		}
		w.count("filters", many)
		mu.Lock()
		w.count("polls", calls["eth_getFilterChanges"])
		if left := len(uninstalled); left != many {
			w.fail("node", "%d filters were closed, and %d of them uninstalled", many, left)
		}
		mu.Unlock()
		// nobody needs to read the logs for them to end
		w.quietGoroutines(fmt.Sprintf("closing %d filters", many))
		for j := range fs {
			f := fs[j].f
			what := fmt.Sprintf("closing a filter (%s is read, node %v)", fs[j].read, behave[fmt.Sprintf("0x%x", j+1)])
			w.run(what, func() {
				for range f.Out() {
				}
			})
		}
		w.run("the readers of closed filters", readers.Wait)
		w.quiet(fmt.Sprintf("closing %d filters", many))
	}
	// iterators that are stopped, whatever the node does and whoever reads
	for i := 0; i < n; i++ {
		var mu sync.Mutex
		head := []int64{20, 70, 1 << 40}[w.g.Intn(3)]
		often := []int{6, 3000, 1 << 30}[w.g.Intn(3)]
		tp := &rpcsim.Direct{Handle: func(q *rpcsim.Req) (string, error) {
			mu.Lock()
			defer mu.Unlock()
			num, _ := strconv.ParseInt(strings.TrimPrefix(q.Str(0), "0x"), 16, 64)
			if num >= head {
				return "null", nil
			}
			switch w.g.Intn(often) {
			case 0:
				return "", errors.New("scripted failure")
			case 1:
				return "", &seth.RPCError{Code: -1, Message: "no"}
			case 2:
				return "null", nil
			}
			return `{"number":` + string(q.Params[0]) + `}`, nil
		}}
		cl := seth.NewClientTransport(tp)
		var its []*seth.BlockIterator
		for j := 0; j < 30; j++ {
			it := cl.IterateBlocks(int64(j), j%2 == 0)
			its = append(its, it)
			go func(k int) {
				for ; k > 0; k-- {
					<-it.Next()
				}
			}(j % 5)
		}
		time.Sleep(time.Duration(w.g.Intn(3)*400) * time.Millisecond)
		w.run("stopping iterators", func() {
			for _, it := range its {
				it.Stop()
			}
		})
		w.quietGoroutines("stopping 30 iterators of blocks")
		w.run("reading stopped iterators", func() {
			for _, it := range its {
				for range it.Next() {
				}
			}
		})
		w.count("iterators", len(its))
	}
	// filters that end by themselves
	for i := 0; i < 20; i++ {
		fail := w.g.Intn(2) == 0
		tp := &rpcsim.Direct{Handle: func(q *rpcsim.Req) (string, error) {
			switch q.Method {
			case "eth_newFilter":
				return `"0x1"`, nil
			case "eth_getFilterLogs":
				if fail {
					return "", errors.New("scripted failure")
				}
				return "[]", nil
			}
			return "true", nil
		}}
		cl := seth.NewClientTransport(tp)
		w.run("a finite filter", func() {
			f, err := cl.FilterTopics(nil, nil, 5, 7)
			if err == nil {
				for range f.Out() {
				}
				if (f.Err() != nil) != fail {
					panic(fmt.Sprint("the filter's error is ", f.Err()))
				}
			}
		})
		w.quietGoroutines("a filter that came to its end")
	}
}

// compileOps: compilations, with every way for the compiler to fail.
func compileOps(w *worker, n int) {
	path := os.Getenv("PATH")
	conf := solcsim.Config{Imports: map[string]string{}}
	modes := []string{"", "", "error", "exit", "garbage", "truncated", "empty", "unlinked", "deaf", "flood", "trailer", "missing", "cached", "damaged"}
	last := ""
	for i := 0; i < n; i++ {
		mode := modes[w.g.Intn(len(modes))]
		conf.Mode, conf.Version = mode, fmt.Sprintf("0.4.%d", w.g.Intn(3))
		src := fmt.Sprintf("contract C%d\n", i)
		os.Setenv("PATH", path)
		switch mode {
		case "missing":
			os.Setenv("PATH", path+"/nowhere")
		case "cached", "damaged":
			conf.Mode = ""
			if last != "" && mode == "cached" {
				src = last
			}
		}
		if w.g.Intn(4) == 0 { // more than a pipe holds
			src += "// " + strings.Repeat("x", 1<<18) + "\n"
		}
		conf.Save(os.Getenv("FAKESOLC"))
		ways := []string{"Compile", "CompileString", "CompileGlob"}
		way := w.g.Intn(3)
		os.RemoveAll("src")
		os.Mkdir("src", 0755)
		ioutil.WriteFile("src/a.sol", []byte(src), 0644)
		compile := func() (err error) {
			switch way {
			case 0:
				_, err = seth.Compile([]seth.Source{{Filename: "a.sol", Body: src}})
			case 1:
				_, err = seth.CompileString(src)
			case 2:
				_, err = seth.CompileGlob("src/*.sol")
			}
			return
		}
		var err error
		what := fmt.Sprintf("%s (compiler %s, %d bytes)", ways[way], mode, len(src))
		w.run(what, func() { err = compile() })
		if err == nil && mode == "damaged" {
			m, _ := filepath.Glob(filepath.Join(os.TempDir(), "tevm", "*.bundle"))
			for _, p := range m {
				b, _ := ioutil.ReadFile(p)
				if len(b) < 4 { // damaged before
					continue
				}
				ioutil.WriteFile(p, [][]byte{nil, b[:len(b)/2], append(vh.Bytes(w.g, 8), b...), append(b[:len(b)-4:len(b)-4], 1, 2, 3, 4)}[w.g.Intn(4)], 0644)
			}
			w.run(what+", its cache entry damaged", func() { err = compile() })
		}
		if err == nil {
			last = src
			if mode == "cached" {
				w.run(what+" again", func() { err = compile() })
			}
		}
		if c := children(); len(c) > 0 {
			w.fail("process", "after %s (%v), child processes remain: %v", what, err, c)
		}
		if s := w.extra(); s != "" {
			w.fail("file", "after %s (%v), files remain open: %s", what, err, s)
		}
		w.cell(ways[way], mode, len(src) > 1000, err != nil)
		w.count("compilations", 1)
	}
	os.Setenv("PATH", path)
	w.quiet("compilations")
	// a cache full of entries is no file left behind, but nothing else may be
	// in the temporary directory
	m, _ := filepath.Glob(filepath.Join(os.TempDir(), "tevm", "*"))
	for _, p := range m {
		if filepath.Ext(p) != ".bundle" {
			w.fail("temporary", "%s remains after the compilations", p)
		}
	}
}

// chainOps: the simulated chain as a server.
func chainOps(w *worker, n int) {
	ch := tevm.NewChain()
	a := ch.NewAccount(1)
	srv := httptest.NewServer(ch)
	host, _ := url.Parse(srv.URL)
	base := &http.Transport{}
	tr := &tracker{base: base, host: host}
	http.DefaultTransport = tr
	cl := seth.NewHTTPClient(srv.URL)
	raw := []string{"", "{", "[]", `{"method":"eth_call"}`, `{"method":7}`, strings.Repeat("[", 10000), `{"id":1,"method":"eth_getBalance","params":["0x12","latest"]}`}
	for i := 0; i < n; i++ {
		what := ""
		switch w.g.Intn(4) {
		case 0:
			b := raw[w.g.Intn(len(raw))]
			what = fmt.Sprintf("a request %.40q", b)
			w.run(what, func() {
				res, err := http.Post(srv.URL, "application/json", strings.NewReader(b))
				if err == nil {
					io.Copy(ioutil.Discard, res.Body)
					res.Body.Close()
				}
			})
		case 1:
			what = "a request that breaks off"
			w.run(what, func() {
				c, err := net.Dial("tcp", host.Host)
				if err != nil {
					panic(err)
				}
				fmt.Fprintf(c, "POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 1000\r\n\r\n{\"method\":")
				c.Close()
			})
		case 2:
			var name string
			var f func()
			name, f = clientOp(w.g, cl)
			what = name + " of the chain"
			w.run(what, f)
		case 3:
			what = "a transfer"
			var b seth.Address
			w.g.Read(b[:])
			w.run(what, func() {
				ch.Client().Do("eth_sendTransaction", []json.RawMessage{json.RawMessage(fmt.Sprintf(`{"from":"%s","to":"%s","value":"0x1","gas":"0x10000"}`, a.String(), b.String()))}, new(seth.Hash))
			})
		}
		tr.mu.Lock()
		open := tr.open
		tr.mu.Unlock()
		if open != 0 {
			w.fail("body", "after %s, %d response bodies have not been closed", what, open)
		}
		w.cell(strings.SplitN(what, " ", 3)[:2])
	}
	base.CloseIdleConnections()
	srv.CloseClientConnections()
	srv.Close()
	w.quiet(fmt.Sprintf("%d requests to a chain", n))
}
