// C31: bindings generated for random ABIs are compiled and called.
package c31

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"vharness/abigen"
	"vharness/bindrun"
	"vharness/solcsim"
	"vharness/vh"
)

func TestMain(m *testing.M) {
	solcsim.Main()
	os.Exit(m.Run())
}

const nobody = 65534

var (
	r       *vh.Run
	bindgen string
	module  string
)

// pkg is one run of the generator.
type pkg struct {
	name      string
	contracts []bindrun.Contract
	abi       map[string]json.RawMessage
	required  bool   // it has to be supported
	why       string // why it need not be
	must      bool   // it has to be refused
	refused   bool
	hung      bool
	out       string
	msg       string
}

var unsupported = []string{"uint256[2]", "uint256[][]", "string[]", "bytes[]", "tuple", "tuple[]", "address[3]", "int8[2][]", "bytes32[4]", "uint256[][2]"}

func typ(g *rand.Rand) string {
	if g.Intn(12) == 0 {
		s := abigen.Statics()
		return s[g.Intn(len(s))] + "[]"
	}
	return abigen.Type(g)
}

// core types are ones the generator may not refuse.
func core(t string) bool {
	elem := strings.TrimSuffix(t, "[]")
	return elem == t || elem != "string" && elem != "bytes" && !strings.HasSuffix(elem, "]")
}

var fnames = []string{"transfer", "balanceOf", "x", "a1", "Approve", "getURL", "safeTransferFrom", "set_value", "q9Z", "s", "addr", "z", "d", "err", "new", "type_", "func1", "String", "abi"}
var cnames = []string{"Token", "tok", "T", "My_Contract", "X1", "Sender", "data", "NewToken", "Z9"}

// method is the documented name: the function's, in title case.
func method(n string) string { return strings.Title(n) }

func gen(g *rand.Rand, name string) *pkg {
	p := &pkg{name: name, abi: map[string]json.RawMessage{}, required: true}
	n := 1
	if g.Intn(5) == 0 {
		n = 2
	}
	for _, i := range g.Perm(len(cnames))[:n] {
		c := bindrun.Contract{Pkg: name, Name: cnames[i], Bin: false}
		type obj = map[string]interface{}
		var abi []obj
		names := g.Perm(len(fnames))
		for k := g.Intn(7); k > 0; k-- {
			f := bindrun.Func{Name: fnames[names[k]], Constant: g.Intn(3) > 0}
			if g.Intn(40) == 0 {
				f.Name = fnames[names[k-1]] // perhaps an overload
			}
			if g.Intn(60) == 0 {
				f.Name = strings.Title(f.Name)
			}
			params := func(n int) (ts []string, js []obj, must string) {
				for ; n > 0; n-- {
					t := typ(g)
					o := obj{"name": []string{"", "x", "err", "type", "ret0", "d"}[g.Intn(6)]}
					if g.Intn(150) == 0 {
						t = unsupported[g.Intn(len(unsupported))]
						if strings.HasPrefix(t, "tuple") {
							o["components"] = []obj{{"name": "a", "type": "uint256"}, {"name": "b", "type": "address"}}
						}
						p.required, p.why, must = false, t, t
					} else if !core(t) {
						p.required, p.why = false, t
					}
					o["type"] = t
					ts = append(ts, t)
					js = append(js, o)
				}
				return
			}
			var ins, outs []obj
			var mustIn, mustOut string
			f.Ins, ins, mustIn = params([]int{0, 0, 1, 1, 1, 2, 2, 2, 2, 3, 3, 5, 8, 11, 14}[g.Intn(15)])
			f.Outs, outs, mustOut = params([]int{0, 0, 1, 1, 1, 1, 1, 2, 2, 3, 4, 12}[g.Intn(12)])
			// results that are never decoded need not be supported, nor do
			// functions that are left out
			if mustIn != "" && (!f.Constant || len(outs) > 0) {
				p.must, p.why = true, mustIn
			}
			if mustOut != "" && f.Constant {
				p.must, p.why = true, mustOut
			}
			o := obj{"type": "function", "name": f.Name, "inputs": ins, "outputs": outs, "constant": f.Constant, "payable": false, "stateMutability": "nonpayable"}
			if ins == nil {
				o["inputs"] = []obj{}
			}
			if outs == nil && g.Intn(2) == 0 {
				delete(o, "outputs")
			}
			if f.Constant {
				o["stateMutability"] = []string{"view", "pure"}[g.Intn(2)]
			} else if g.Intn(4) == 0 {
				o["payable"], o["stateMutability"] = true, "payable"
			}
			dup := false
			for j := range c.Funcs {
				dup = dup || c.Funcs[j].Sig() == f.Sig()
			}
			if dup || f.Name == "" {
				continue
			}
			c.Funcs = append(c.Funcs, f)
			abi = append(abi, o)
			if g.Intn(8) == 0 {
				abi = append(abi, obj{"type": []string{"event", "constructor", "fallback"}[g.Intn(3)], "name": fnames[g.Intn(len(fnames))], "inputs": ins, "anonymous": false})
			}
		}
		for j := range c.Funcs {
			f := &c.Funcs[j]
			f.Method = method(f.Name)
			for k := range c.Funcs {
				if method(c.Funcs[k].Name) == f.Method && (!c.Funcs[k].Constant || len(c.Funcs[k].Outs) > 0) {
					f.Sigs = append(f.Sigs, c.Funcs[k].Sig())
				}
			}
			if len(f.Sigs) > 1 {
				f.Shared = true
				p.required, p.why = false, "several functions lead to method "+f.Method
			}
		}
		b, err := json.Marshal(abi)
		if err != nil {
			panic(err)
		}
		if abi == nil {
			b = []byte("[]")
		}
		p.abi[c.Name] = b
		p.contracts = append(p.contracts, c)
	}
	if g.Intn(30) == 0 { // names that need care
		c := &p.contracts[0]
		old := c.Name
		c.Name = []string{"seth", "error", "nil", "len", "_x", "Code", "main", "init"}[g.Intn(8)]
		p.abi[c.Name] = p.abi[old]
		delete(p.abi, old)
		p.required, p.why = false, "contract "+c.Name
	}
	if n == 2 && (p.contracts[0].Name == "Token" && p.contracts[1].Name == "NewToken" || p.contracts[1].Name == "Token" && p.contracts[0].Name == "NewToken") {
		p.required, p.why = false, "the names of the contracts collide"
	}
	return p
}

// generate runs the generator, as an unprivileged user: it maintains a cache.
func (p *pkg) generate(g *rand.Rand, root string) {
	work := filepath.Join(root, "work", p.name)
	for _, d := range []string{work, work + "/tmp", work + "/solc"} {
		if err := os.MkdirAll(d, 0755); err != nil {
			panic(err)
		}
		os.Chown(d, nobody, nobody)
	}
	conf := solcsim.Config{Version: p.name, ABI: p.abi}
	src := map[string]string{"in.sol": ""}
	files := []string{"in.sol"}
	if g.Intn(3) == 0 {
		files = append(files, "more.sol")
		src["more.sol"] = []string{"", "// nothing\n", "contract Other\n"}[g.Intn(3)]
	}
	var list []string
	bin := g.Intn(3) == 0
	for i := range p.contracts {
		c := &p.contracts[i]
		src[files[g.Intn(len(files))]] += "contract " + c.Name + "\n"
		list = append(list, c.Name)
		c.Bin = bin
	}
	g.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
	ans := conf.Do(src)
	for _, a := range ans.Contracts {
		for i := range p.contracts {
			if p.contracts[i].Name == a.Name {
				p.contracts[i].Code = a.Code
			}
		}
	}
	// what cannot be generated is refused
	outgo := "out.go"
	toFile := g.Intn(2) == 0
	if g.Intn(8) == 0 {
		p.required, p.must = false, true
		switch p.why = []string{"missing contract", "missing contract", "empty name", "contract twice", "missing file", "no files", "compiler error", "compiler exit", "compiler garbage", "output directory", "full output", "full standard output"}[g.Intn(12)]; p.why {
		case "missing contract":
			i := g.Intn(len(list) + 1)
			list = append(list[:i:i], append([]string{[]string{"Missing", "token", list[0] + "x", list[0][1:] + "_"}[g.Intn(4)]}, list[i:]...)...)
		case "empty name":
			if g.Intn(2) == 0 {
				list = nil
			}
			list = append(list, "")
		case "contract twice":
			list = append(list, list[0])
		case "missing file":
			files = append(files, "missing.sol")
		case "no files":
			files = nil
		case "output directory":
			outgo, toFile = "missing/out.go", true
		case "full output":
			outgo, toFile = "full.go", true
			os.Symlink("/dev/full", work+"/full.go")
		case "full standard output":
			toFile = false
		default:
			conf.Mode = strings.TrimPrefix(p.why, "compiler ")
		}
	}
	conf.Save(work + "/solc")
	for f, body := range src {
		ioutil.WriteFile(filepath.Join(work, f), []byte(body), 0644)
	}
	args := []string{"-p", p.name, "-c=" + strings.Join(list, ",")}
	if toFile {
		args = append(args, "-o", outgo)
	}
	if bin {
		args = append(args, "-b")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
	defer cancel()
	// a generator that uses more memory than that has gone wrong
	cmd := exec.CommandContext(ctx, "/bin/sh", append(append([]string{"-c", `ulimit -d 2000000; exec "$0" "$@"`, bindgen}, args...), files...)...)
	cmd.Dir = work
	cmd.Env = []string{"PATH=" + filepath.Dir(bindgen), "HOME=" + work, "TMPDIR=" + work + "/tmp", "FAKESOLC=" + work + "/solc", "GOPATH=" + work + "/gopath", "GOROOT=" + work + "/goroot"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL}
	var out, errs vh.Output
	cmd.Stdout, cmd.Stderr = &out, &errs
	if p.why == "full standard output" {
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		defer f.Close()
		cmd.Stdout = f
	}
	err := cmd.Run()
	p.msg = errs.String()
	if p.hung = ctx.Err() != nil; p.hung {
		return
	}
	if err != nil {
		p.refused = true
		p.out = "" // a partial output does not count
		if out.Len() > 0 {
			p.out = out.String()
		}
		if b, e := ioutil.ReadFile(work + "/out.go"); e == nil && len(b) > 0 {
			p.out = string(b)
		}
		return
	}
	p.out = out.String()
	if toFile {
		b, _ := ioutil.ReadFile(work + "/out.go")
		p.out = string(b)
	}
}

var errLine = regexp.MustCompile(`(?m)^(p\d+)[/\\]`)

func batch(c *vh.Case, size, rounds int) {
	root, err := ioutil.TempDir("/tmp", "vhc31x")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(root)
	os.Chmod(root, 0755)
	var pkgs []*pkg
	var wg sync.WaitGroup
	sem := make(chan bool, 8)
	for i := 0; i < size; i++ {
		p := gen(c.Rng, fmt.Sprintf("p%d", i))
		pkgs = append(pkgs, p)
		wg.Add(1)
		sem <- true
		go func(g *rand.Rand) {
			defer wg.Done()
			p.generate(g, root)
			<-sem
		}(rand.New(rand.NewSource(c.Rng.Int63())))
	}
	wg.Wait()
	var live []*pkg
	for _, p := range pkgs {
		r.Eval(1)
		if p.hung {
			c.Fail("hang", "the generator does not end on %s: %s", p.abi, p.msg)
			continue
		}
		if p.refused {
			r.Count("refused", 1)
			r.Seen("refused", p.why)
			if strings.Contains(p.msg, "panic:") || strings.Contains(p.msg, "fatal error:") || strings.TrimSpace(p.msg) == "" {
				c.Fail("crash", "the generator crashed on %s: %s", p.abi, p.msg)
			} else if p.out != "" {
				c.Fail("partial", "the generator refused %s (%s): %s, and wrote\n%s", p.abi, p.why, p.msg, p.out)
			} else if p.required {
				c.Fail("refused", "the generator refused %s: %s", p.abi, p.msg)
			}
			continue
		}
		r.Count("generated", 1)
		if p.must {
			c.Fail("accepted", "the generator accepted %s, with type %s, and wrote\n%s", p.abi, p.why, p.out)
			continue
		}
		live = append(live, p)
	}
	// compile them together with the driver
	for try := 0; try < 2; try++ {
		bad := build(c, root, live)
		if bad == nil {
			break
		}
		var l []*pkg
		for _, p := range live {
			msg, ok := bad[p.name]
			if !ok {
				l = append(l, p)
				continue
			}
			c.Fail("compile", "what the generator wrote for %s does not compile: %s\n%s", p.abi, msg, p.out)
		}
		live = l
		if try == 1 {
			r.HarnessError("the driver does not build: %v", bad)
			return
		}
	}
	var spec struct {
		Seed      int64
		Rounds    int
		Contracts []bindrun.Contract
	}
	spec.Seed, spec.Rounds = c.Rng.Int63(), rounds
	abis := map[string]string{}
	for _, p := range live {
		spec.Contracts = append(spec.Contracts, p.contracts...)
		for n, a := range p.abi {
			abis[p.name+"."+n] = string(a)
		}
	}
	b, _ := json.Marshal(&spec)
	ioutil.WriteFile(root+"/spec.json", b, 0644)
	cmd := exec.Command(root+"/driver", root+"/spec.json")
	cmd.Stderr = os.Stderr
	var out bytes.Buffer
	cmd.Stdout = &out
	if err := cmd.Run(); err != nil {
		r.HarnessError("the driver failed: %v %s", err, out.String())
		return
	}
	d := json.NewDecoder(&out)
	for d.More() {
		var rep bindrun.Report
		if err := d.Decode(&rep); err != nil {
			r.HarnessError("%v", err)
			return
		}
		r.Eval(rep.Calls)
		r.Count("calls", rep.Calls)
		r.Count("bindings_called", 1)
		for _, x := range rep.Cells {
			r.Cell(x)
			for _, t := range strings.FieldsFunc(x, func(c rune) bool { return c == ',' || c == '|' }) {
				r.Seen("types", strings.TrimRight(t, " "))
			}
		}
		if rep.Key != "" {
			c.Fail(rep.Key, "%s: %s (ABI %s)", rep.Contract, rep.Msg, abis[rep.Contract])
		}
	}
}

// build builds the driver; it returns the packages that do not compile.
func build(c *vh.Case, root string, pkgs []*pkg) map[string]string {
	mod := filepath.Join(root, "mod")
	os.RemoveAll(mod)
	os.MkdirAll(mod, 0755)
	b, err := ioutil.ReadFile(os.Getenv("VERIF_MODFILE"))
	if err != nil {
		panic(err)
	}
	text := strings.Replace(string(b), "module vharness", "module gen", 1)
	text += "\nrequire vharness v0.0.0\nreplace vharness => " + module + "\n"
	ioutil.WriteFile(mod+"/go.mod", []byte(text), 0644)
	sum, _ := ioutil.ReadFile(strings.TrimSuffix(os.Getenv("VERIF_MODFILE"), ".mod") + ".sum")
	ioutil.WriteFile(mod+"/go.sum", sum, 0644)
	main := "package main\n\nimport (\n\t\"github.com/philhofer/seth\"\n\t\"vharness/bindrun\"\n"
	reg := ""
	for _, p := range pkgs {
		os.MkdirAll(filepath.Join(mod, p.name), 0755)
		ioutil.WriteFile(filepath.Join(mod, p.name, "gen.go"), []byte(p.out), 0644)
		main += fmt.Sprintf("\t%s \"gen/%s\"\n", p.name, p.name)
		for _, ct := range p.contracts {
			code := "nil"
			if ct.Bin && ct.Name[0] <= 'Z' {
				code = p.name + "." + ct.Name + "Code"
			}
			reg += fmt.Sprintf("\t\t%q: {func(a *seth.Address, s *seth.Sender) interface{} { return %s.New%s(a, s) }, %s},\n", p.name+"."+ct.Name, p.name, ct.Name, code)
		}
	}
	main += ")\n\nvar _ *seth.Sender\n\nfunc main() {\n\tbindrun.Main(map[string]bindrun.Entry{\n" + reg + "\t})\n}\n"
	ioutil.WriteFile(mod+"/main.go", []byte(main), 0644)
	// lower-case contracts' code variables are not exported
	for _, p := range pkgs {
		for i := range p.contracts {
			if p.contracts[i].Name[0] > 'Z' {
				p.contracts[i].Bin = false
			}
		}
	}
	cmd := exec.Command("go", "build", "-gcflags=-e", "-o", root+"/driver", ".")
	cmd.Dir = mod
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	bad := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if m := errLine.FindStringSubmatch(l); m != nil {
			bad[m[1]] += l + "\n"
		}
	}
	if len(bad) == 0 {
		bad["driver"] = string(out)
		// the driver's own errors name the package, e.g. "undefined: p3.NewT"
		for _, l := range strings.Split(string(out), "\n") {
			if m := regexp.MustCompile(`undefined: (p\d+)\.`).FindStringSubmatch(l); m != nil {
				bad[m[1]] += l + "\n"
				delete(bad, "driver")
			}
		}
	}
	return bad
}

func TestProperty(t *testing.T) {
	r = vh.Start("C31", "exploration")
	r.Rule("distinct (argument types, result types, call or transaction, whether it failed) of method calls on compiled bindings whose requests and results were compared")
	r.Assume("tuples, fixed-size and nested arrays and arrays of byte strings need not be supported, but have to be refused; functions whose names lead to one Go method, may be refused")
	r.Assume("functions that are constant and return nothing are left out of the bindings (as the generator's source says)")
	dir, err := ioutil.TempDir("/tmp", "vhc31")
	if err != nil {
		t.Fatal(err)
	}
	os.Chmod(dir, 0755)
	b, err := ioutil.ReadFile(os.Getenv("VERIF_BIN_BINDGEN"))
	if err != nil {
		t.Fatal(err)
	}
	bindgen = filepath.Join(dir, "bindgen")
	if err := ioutil.WriteFile(bindgen, b, 0755); err != nil {
		t.Fatal(err)
	}
	solcsim.Link(dir, "solc")
	module = filepath.Join(os.Getenv("VERIF_HARNESS"))
	r.CasesLimit("batch", r.Scale(2, 24), 1, 600*time.Second, func(c *vh.Case) { batch(c, 150, r.Scale(20, 60)) })
	r.CasesLimit("refusal", len(refusals), 4, 300*time.Second, refusal)
	os.RemoveAll(dir)
	r.Finish()
}

// refusals are types that cannot be supported, or that there are not.
var refusals = append(append([]string(nil), unsupported...), "uint8[2]", "uint[3]", "int256[2]", "int[1]", "bool[2]", "bool[][]", "address[][]", "bytes32[][]", "bytes1[2][]",
	"string[2]", "bytes[2]", "bytes[][]", "tuple[2]", "fixed128x18", "ufixed", "function", "function[]", "uint7", "uint264", "int12[]", "bytes33", "bytes0[]", "uint256[2][]", "uint[0]")

// refusal asks for bindings with one such type, at every kind of place.
func refusal(c *vh.Case) {
	g := c.Rng
	t := refusals[c.Index]
	root, err := ioutil.TempDir("/tmp", "vhc31r")
	if err != nil {
		c.HarnessError("%v", err)
		return
	}
	defer os.RemoveAll(root)
	os.Chmod(root, 0755)
	type obj = map[string]interface{}
	param := func(t string) obj {
		o := obj{"name": "", "type": t}
		if strings.HasPrefix(t, "tuple") {
			o["components"] = []obj{{"name": "a", "type": "uint256"}}
		}
		return o
	}
	for place := 0; place < 4; place++ {
		list := []obj{param(t)}
		for n := g.Intn(3); n > 0; n-- {
			list = append(list, param(abigen.Type(g)))
		}
		g.Shuffle(len(list), func(i, j int) { list[i], list[j] = list[j], list[i] })
		f := obj{"type": "function", "name": "f", "inputs": list, "outputs": []obj{param("uint256")}, "constant": place%2 == 0, "payable": false, "stateMutability": []string{"view", "nonpayable"}[place%2]}
		if place == 2 {
			f["inputs"], f["outputs"] = []obj{param("address")}, list
		}
		abi := []obj{f}
		if place == 3 { // with functions that are supported
			abi = append(abi, obj{"type": "function", "name": "g", "inputs": []obj{param("uint256")}, "outputs": []obj{}, "constant": false, "stateMutability": "nonpayable"})
			g.Shuffle(2, func(i, j int) { abi[i%len(abi)], abi[j%len(abi)] = abi[j%len(abi)], abi[i%len(abi)] })
		}
		buf, _ := json.Marshal(abi)
		p := &pkg{name: fmt.Sprintf("p%d", place), abi: map[string]json.RawMessage{"T": buf}, contracts: []bindrun.Contract{{Name: "T"}}, must: true, why: t}
		p.contracts[0].Pkg = p.name
		p.generate(g, root)
		c.Eval(1)
		c.Cell("refusal", t, place)
		switch {
		case p.hung:
			c.Fail("hang", "the generator does not end on %s: %s", buf, p.msg)
		case !p.refused:
			c.Fail("accepted", "the generator accepted %s, with type %s, and wrote\n%s", buf, p.why, p.out)
		case strings.Contains(p.msg, "panic:") || strings.Contains(p.msg, "fatal error:") || strings.TrimSpace(p.msg) == "":
			c.Fail("crash", "the generator crashed on %s: %s", buf, p.msg)
		case p.out != "":
			c.Fail("partial", "the generator refused %s (%s): %s, and wrote\n%s", buf, t, p.msg, p.out)
		}
		if c.Failed() {
			return
		}
	}
}
