// Package solcsim is a stand-in for the solidity compiler: the test binary of
// a check, linked as "solc" in a directory that the check puts on PATH. It
// answers "--version" and "--standard-json" like solc, and what it produces
// is a function of its version and of the exact request, so that a bundle
// made for other sources or by another version shows.
package solcsim

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/philhofer/seth"
)

// Config steers the stand-in; it is read from $FAKESOLC/config.
type Config struct {
	Version string
	Mode    string // "", "error", "exit", "garbage", "truncated", "empty", "unlinked", "deaf", "flood", "trailer"
	Imports map[string]string
	Shuffle int64                      // assign the file ids in a random order
	ABI     map[string]json.RawMessage // of contracts, by name
}

// File is a contract file of an answer.
type Contract struct {
	File, Name string
	Code       []byte
	Map        string
	ABI        json.RawMessage
}

// Answer is what the compiler says to a request.
type Answer struct {
	IDs       map[string]int
	Sources   map[string]string
	Contracts []Contract
	Warnings  []string
	Error     string
}

type request struct {
	Language string
	Sources  map[string]struct{ Content *string }
	Settings json.RawMessage
}

func rng(parts ...string) *rand.Rand {
	h := sha256.New()
	for _, p := range parts {
		fmt.Fprintf(h, "%d:%s", len(p), p)
	}
	return rand.New(rand.NewSource(int64(binary.BigEndian.Uint64(h.Sum(nil)))))
}

func abi(g *rand.Rand) json.RawMessage {
	types := []string{"uint256", "address", "bytes32", "string", "int8[]", "tuple", "bytes", "bool"}
	var params func(depth int) []map[string]interface{}
	params = func(depth int) []map[string]interface{} {
		out := []map[string]interface{}{}
		for i := g.Intn(4); i > 0; i-- {
			p := map[string]interface{}{"name": fmt.Sprintf("p%d", g.Intn(100)), "type": types[g.Intn(len(types))]}
			if g.Intn(4) == 0 {
				p["indexed"] = true
			}
			if p["type"] == "tuple" && depth < 3 {
				p["components"] = params(depth + 1)
			}
			out = append(out, p)
		}
		return out
	}
	var l []map[string]interface{}
	for i := g.Intn(5); i >= 0; i-- {
		d := map[string]interface{}{
			"type":   []string{"function", "event", "constructor", "fallback"}[g.Intn(4)],
			"name":   fmt.Sprintf("f%d_é\"", g.Intn(1000)),
			"inputs": params(0), "payable": g.Intn(2) == 0, "constant": g.Intn(2) == 0,
			"stateMutability": []string{"pure", "view", "nonpayable", "payable"}[g.Intn(4)],
			"anonymous":       g.Intn(2) == 0,
		}
		if g.Intn(2) == 0 {
			d["outputs"] = params(0)
		}
		l = append(l, d)
	}
	b, err := json.Marshal(l)
	if err != nil {
		panic(err)
	}
	return b
}

// SourceMap returns a random compressed source map over files with the
// given sizes; ids[i] is the id of the i-th file.
func SourceMap(g *rand.Rand, n int, sizes, ids []int) string {
	var ents []string
	for i := 0; i < n; i++ {
		k := g.Intn(len(sizes))
		s, l := 0, 0
		if sizes[k] > 0 {
			s = g.Intn(sizes[k])
			l = g.Intn(sizes[k] - s + 1)
		}
		f := fmt.Sprint(ids[k])
		if g.Intn(12) == 0 {
			f = "-1"
		}
		e := []string{fmt.Sprint(s), fmt.Sprint(l), f, []string{"i", "o", "-"}[g.Intn(3)]}
		if i > 0 {
			for len(e) > 1 && g.Intn(3) == 0 {
				e = e[:len(e)-1]
			}
			for j := range e {
				if g.Intn(3) == 0 {
					e[j] = ""
				}
			}
		}
		ents = append(ents, strings.Join(e, ":"))
	}
	return strings.Join(ents, ";")
}

// Do computes the answer to a set of sources.
func (c *Config) Do(sources map[string]string) *Answer {
	a := &Answer{IDs: map[string]int{}, Sources: map[string]string{}}
	all := map[string]string{}
	var names []string
	for n, b := range c.Imports {
		all[n] = b
	}
	for n, b := range sources {
		all[n] = b
		a.Sources[n] = b
	}
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	key := []string{c.Version}
	for _, n := range names {
		key = append(key, n, all[n])
	}
	order := make([]int, len(names))
	for i := range order {
		order[i] = i
	}
	if c.Shuffle != 0 {
		order = rng(fmt.Sprint(c.Shuffle, len(names))).Perm(len(names))
	}
	var sizes, ids []int
	for i, n := range names {
		a.IDs[n] = order[i]
		sizes = append(sizes, len(all[n]))
		ids = append(ids, order[i])
	}
	defined := map[string]bool{}
	for _, n := range names {
		for _, line := range strings.Split(all[n], "\n") {
			f := strings.Fields(line)
			if len(f) == 2 && f[0] == "contract" && !defined[n+"\x00"+f[1]] {
				defined[n+"\x00"+f[1]] = true
				g := rng(append([]string{n, f[1]}, key...)...)
				ct := Contract{File: n, Name: f[1], ABI: abi(g)}
				if a, ok := c.ABI[f[1]]; ok {
					ct.ABI = a
				}
				ct.Code = make([]byte, g.Intn(200))
				g.Read(ct.Code)
				ct.Map = SourceMap(g, g.Intn(40)+1, sizes, ids)
				a.Contracts = append(a.Contracts, ct)
			}
			if len(f) == 2 && f[0] == "warn" {
				a.Warnings = append(a.Warnings, n+": Warning: "+f[1])
			}
			if len(f) == 2 && f[0] == "error" {
				a.Error = n + ": " + f[1]
			}
		}
	}
	if c.Mode == "error" {
		a.Error = "no"
	}
	return a
}

func (c *Config) Save(dir string) {
	b, err := json.Marshal(c)
	if err == nil {
		err = ioutil.WriteFile(filepath.Join(dir, "config"), b, 0666)
	}
	if err != nil {
		panic(err)
	}
}

// Main is to be called first by TestMain: it acts as the compiler when the
// program was started under its name.
func Main() {
	if filepath.Base(os.Args[0]) != "solc" {
		return
	}
	dir := os.Getenv("FAKESOLC")
	var c Config
	b, err := ioutil.ReadFile(filepath.Join(dir, "config"))
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "solcsim:", err)
		os.Exit(3)
	}
	for _, a := range os.Args[1:] {
		if a == "--version" {
			fmt.Printf("solc, the solidity compiler commandline interface\nVersion: %s\n", c.Version)
			os.Exit(0)
		}
	}
	if len(os.Args) != 2 || os.Args[1] != "--standard-json" {
		fmt.Fprintln(os.Stderr, "solcsim: arguments", os.Args)
		os.Exit(1)
	}
	if c.Mode == "deaf" { // does not read the request
		os.Exit(1)
	}
	in, err := ioutil.ReadAll(os.Stdin)
	var req request
	if err == nil {
		err = json.Unmarshal(in, &req)
	}
	if err == nil && (req.Language != "Solidity" || len(req.Sources) == 0) {
		err = fmt.Errorf("request %s", in)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "solcsim:", err)
		os.Exit(1)
	}
	f, err := os.OpenFile(filepath.Join(dir, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0666)
	if err == nil {
		f.WriteString("compile\n")
		f.Close()
	}
	src := map[string]string{}
	for n, s := range req.Sources {
		src[n] = *s.Content
	}
	a := c.Do(src)
	// only what was asked for is in the answer
	for i := range a.Contracts {
		if !strings.Contains(string(req.Settings), `"abi"`) {
			a.Contracts[i].ABI = json.RawMessage("null")
		}
		if !strings.Contains(string(req.Settings), `"evm.bytecode`) {
			a.Contracts[i].Code, a.Contracts[i].Map = nil, ""
		}
	}
	if c.Mode == "flood" { // a lot that is no answer
		os.Stdout.Write(bytes.Repeat([]byte("Internal compiler error\n"), 1<<16))
		os.Exit(1)
	}
	os.Stdout.Write(c.JSON(a))
	if c.Mode == "trailer" { // a lot after the answer
		os.Stdout.Write(bytes.Repeat([]byte("\n"), 1<<20))
	}
	if c.Mode == "exit" {
		os.Exit(1)
	}
	os.Exit(0)
}

// errorTypes are the types of what the compiler reports and that is no warning.
var errorTypes = []string{"JSONError", "IOError", "ParserError", "DocstringParsingError", "SyntaxError", "DeclarationError",
	"TypeError", "UnimplementedFeatureError", "InternalCompilerError", "Exception", "CompilerError", "FatalError"}

// JSON renders an answer the way solc does.
func (c *Config) JSON(a *Answer) []byte {
	type obj = map[string]interface{}
	o := obj{}
	var errs []obj
	for _, w := range a.Warnings {
		errs = append(errs, obj{"component": "general", "formattedMessage": w, "message": w, "severity": "warning", "type": "Warning"})
	}
	if a.Error != "" {
		g := rng(a.Error)
		e := obj{"component": "general", "formattedMessage": a.Error, "message": a.Error, "severity": "error", "type": errorTypes[g.Intn(len(errorTypes))]}
		i := g.Intn(len(errs) + 1)
		errs = append(errs[:i:i], append([]obj{e}, errs[i:]...)...)
	}
	if errs != nil {
		o["errors"] = errs
	}
	srcs := obj{}
	for n, id := range a.IDs {
		srcs[n] = obj{"id": id}
	}
	o["sources"] = srcs
	if a.Error == "" {
		cs := map[string]obj{}
		for _, ct := range a.Contracts {
			if cs[ct.File] == nil {
				cs[ct.File] = obj{}
			}
			code := hex.EncodeToString(ct.Code)
			if c.Mode == "unlinked" {
				code += "__lib.sol:Lib_____________________________00"
			}
			cs[ct.File][ct.Name] = obj{"abi": ct.ABI, "evm": obj{"bytecode": obj{"object": code, "sourceMap": ct.Map, "linkReferences": obj{}, "opcodes": ""}}}
		}
		o["contracts"] = cs
	}
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	switch c.Mode {
	case "garbage":
		return []byte("<html>")
	case "truncated":
		return b[:len(b)*2/3]
	case "empty":
		return nil
	}
	return append(b, '\n')
}

// Render renders a bundle field by field; nil and empty lists are the same.
func Render(b *seth.CompiledBundle) string {
	if b == nil {
		return "no bundle"
	}
	var s strings.Builder
	fmt.Fprintf(&s, "files %q\nsources %q\nwarnings %q\n", b.Filenames, b.Sources, b.Warnings)
	for i := range b.Contracts {
		s.WriteString(RenderContract(b.Contracts[i].Name, b.Contracts[i].Code, b.Contracts[i].Sourcemap, b.Contracts[i].ABI))
	}
	return s.String()
}

func RenderContract(name string, code []byte, smap string, abi []seth.ABIDescriptor) string {
	var s strings.Builder
	fmt.Fprintf(&s, "contract %q %x map %q\n", name, code, smap)
	var params func(l []seth.ABIParam)
	params = func(l []seth.ABIParam) {
		s.WriteString("(")
		for _, p := range l {
			fmt.Fprintf(&s, "%q %q %v", p.Name, p.Type, p.Indexed)
			params(p.Components)
		}
		s.WriteString(")")
	}
	for _, d := range abi {
		fmt.Fprintf(&s, " %q %q %v %q %v %v", d.Type, d.Name, d.Payable, d.Mutability, d.Constant, d.Anonymous)
		params(d.Inputs)
		params(d.Outputs)
		s.WriteString("\n")
	}
	return s.String()
}

// Sorted renders a bundle with its contracts in a fixed order.
func Sorted(b *seth.CompiledBundle) string {
	cp := *b
	cp.Contracts = append([]seth.CompiledContract(nil), b.Contracts...)
	sort.SliceStable(cp.Contracts, func(i, j int) bool {
		x, y := &cp.Contracts[i], &cp.Contracts[j]
		return x.Name+"\x00"+string(x.Code) < y.Name+"\x00"+string(y.Code)
	})
	return Render(&cp)
}

// Bundle is the bundle an answer stands for.
func (a *Answer) Bundle() *seth.CompiledBundle {
	b := &seth.CompiledBundle{
		Filenames: make([]string, len(a.IDs)),
		Sources:   make([]string, len(a.IDs)),
		Warnings:  a.Warnings,
	}
	for n, id := range a.IDs {
		b.Filenames[id] = n
		b.Sources[id] = a.Sources[n]
	}
	for _, c := range a.Contracts {
		var d []seth.ABIDescriptor
		if err := json.Unmarshal(c.ABI, &d); err != nil {
			panic(err)
		}
		b.Contracts = append(b.Contracts, seth.CompiledContract{Name: c.Name, Code: c.Code, Sourcemap: c.Map, ABI: d})
	}
	return b
}

// Link puts this program into dir under the given name.
func Link(dir, name string) {
	exe, err := os.Executable()
	if err != nil {
		panic(err)
	}
	to := filepath.Join(dir, name)
	if os.Link(exe, to) == nil {
		return
	}
	b, err := ioutil.ReadFile(exe)
	if err == nil {
		err = ioutil.WriteFile(to, b, 0755)
	}
	if err != nil {
		panic(err)
	}
}

// Tool sets up a directory with the stand-in and makes this process use it;
// it returns the directory that Config.Save takes.
func Tool(root string) string {
	dir := filepath.Join(root, "solcbin")
	if err := os.MkdirAll(dir, 0777); err != nil {
		panic(err)
	}
	Link(dir, "solc")
	os.Setenv("PATH", dir+":"+os.Getenv("PATH"))
	os.Setenv("FAKESOLC", dir)
	return dir
}

// Compiles returns how often the compiler was run since the last call.
func Compiles(dir string) int {
	b, _ := ioutil.ReadFile(filepath.Join(dir, "log"))
	os.Remove(filepath.Join(dir, "log"))
	return strings.Count(string(b), "\n")
}
