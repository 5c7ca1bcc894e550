// C32: the command line tool's keys, run as built.
package c32

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"testing"

	"vharness/ethsim"
	"vharness/ref"
	"vharness/vh"
)

var (
	r    *vh.Run
	tool *ethsim.Tool
)

func TestProperty(t *testing.T) {
	r = vh.Start("C32", "runtime-monitored")
	r.Rule("a case is a directory of generated key files and other files, and commands run against it at a terminal; distinct by the number of keys, the kind of key spec, the outcome and the mode of the command")
	r.Assume("the reference key file reader and curve are right")
	r.Assume("an address-less key is not named by an all-zero address")
	var err error
	if tool, err = ethsim.New(); err != nil {
		r.HarnessError("%v", err)
		r.Finish()
	}
	r.Cases("sign", r.Scale(700, 8000), 0, signs)
	r.Cases("recover", r.Scale(500, 6000), 0, recovers)
	r.Cases("keygen", r.Scale(20, 150), 4, keygens)
	r.Cases("keygenrefuse", r.Scale(12, 60), 4, refusals)
	tool.Close()
	r.Finish()
}

// run runs the tool once and does the checks every run has to pass.
func run(c *vh.Case, cmd ethsim.Cmd) *ethsim.Result {
	res, err := tool.Run(cmd)
	if err != nil {
		c.HarnessError("running %v: %v", cmd.Args, err)
		return nil
	}
	c.Count("runs", 1)
	if res.Hung {
		c.Fail("hang", "eth %q did not finish: %v", cmd.Args, res)
		return nil
	}
	if bytes.Contains(res.Err, []byte("goroutine ")) && bytes.Contains(res.Err, []byte("panic")) {
		c.Fail("panic", "eth %q panics: %v", cmd.Args, res)
		return nil
	}
	return res
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCXYZ0189-_. "

func word(g *rand.Rand, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = nameChars[g.Intn(len(nameChars)-1)]
	}
	return string(b)
}

func uuid(g *rand.Rand) string {
	h := hex.EncodeToString(vh.Bytes(g, 16))
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

// password is something that can be typed on one line.
func password(g *rand.Rand) string {
	switch g.Intn(6) {
	case 0:
		return ""
	case 1:
		return "пароль 密码 " + word(g, 3)
	case 2:
		return word(g, 60+g.Intn(80))
	case 3:
		return " \\\"'$" + word(g, 4) + " "
	}
	return word(g, 1+g.Intn(12))
}

func keyset(g *rand.Rand) []*ethsim.Key {
	n := []int{0, 1, 1, 2, 2, 3, 3, 4, 6}[g.Intn(9)]
	var ks []*ethsim.Key
	for i := 0; i < n; i++ {
		name := ""
		if g.Intn(3) != 0 {
			name = word(g, 1+g.Intn(10))
		}
		if i > 0 {
			o := ks[g.Intn(i)]
			switch g.Intn(12) {
			case 0: // the same name
				name = o.Name
			case 1: // one name inside the other
				name = o.Name + word(g, 2)
			case 2: // another key's address as a name
				name = "0x" + o.Addr
			case 3: // another key's id as a name
				name = o.ID
			}
		}
		id := uuid(g)
		if g.Intn(4) == 0 {
			id = hex.EncodeToString(vh.Bytes(g, 16))
		}
		ks = append(ks, ethsim.NewKey(g, name, id, password(g), g.Intn(5) != 0))
	}
	return ks
}

// spec picks a regular expression.
func spec(g *rand.Rand, ks []*ethsim.Key) (string, string) {
	if len(ks) == 0 || g.Intn(12) == 0 {
		return []string{"0x" + hex.EncodeToString(vh.Bytes(g, 20)), "nosuchkey", ".*", "", "("}[g.Intn(5)], "other"
	}
	k := ks[g.Intn(len(ks))]
	switch g.Intn(14) {
	case 0, 1, 2:
		return "0x" + k.Addr, "address"
	case 3:
		return "^0x" + k.Addr[:2+g.Intn(38)], "address prefix"
	case 4:
		i := g.Intn(36)
		return k.Addr[i : i+4], "address part"
	case 5:
		return strings.ToUpper(k.Addr), "upper case"
	case 6, 7:
		return "^" + regexp.QuoteMeta(k.Listed()) + "$", "name"
	case 8:
		return k.Listed(), "raw name"
	case 9:
		return k.ID, "id"
	case 10:
		return "(?i)^" + regexp.QuoteMeta(strings.ToUpper(k.Listed())) + "$", "case folded"
	case 11:
		o := ks[g.Intn(len(ks))]
		return k.Addr + "|" + o.Addr, "alternation"
	case 12:
		return k.Addr[34:] + "$", "address suffix"
	}
	return []string{".", "^.{36}$", "[g-z]", "^0x[0-7]"}[g.Intn(4)], "class"
}

// put writes the keys and other files, and returns KEY_PATH.
func put(g *rand.Rand, dir string, ks []*ethsim.Key) string {
	n := 1 + g.Intn(2)
	var paths []string
	for i := 0; i < n; i++ {
		p := filepath.Join(dir, fmt.Sprintf("keys%d", i))
		os.Mkdir(p, 0755)
		paths = append(paths, p)
	}
	for i, k := range ks {
		fn := []string{fmt.Sprintf("%d.json", g.Intn(1000)*10+i), fmt.Sprintf("UTC--2019-01-01T00-00-00.%dZ--", i) + k.Addr, word(g, 5) + fmt.Sprint(i)}[g.Intn(3)]
		b := k.JSON
		if g.Intn(12) == 0 { // a file with much space in it
			b = append(append([]byte{'{'}, bytes.Repeat([]byte(" \n"), 500<<uint(g.Intn(6)))...), b[1:]...)
		}
		os.WriteFile(filepath.Join(paths[g.Intn(n)], fn), b, 0644)
	}
	other := [][]byte{{}, []byte("not json"), []byte("{}"), []byte("[]"), []byte(`{"version":3,"id":"x"}`), []byte("{"), []byte(`{"id":"y","version":3,"crypto":{"cipher":"aes-128-ctr"}}`), []byte(`{"id":5}`)}
	for i := g.Intn(4); i > 0; i-- {
		b := other[g.Intn(len(other))]
		if len(ks) > 0 && g.Intn(3) == 0 {
			k := ks[g.Intn(len(ks))]
			b = k.JSON[:len(k.JSON)-1-g.Intn(len(k.JSON)/2)]
		}
		os.WriteFile(filepath.Join(paths[g.Intn(n)], fmt.Sprintf("junk%d", i)), b, 0644)
	}
	if g.Intn(4) == 0 {
		os.Mkdir(filepath.Join(paths[0], "sub"), 0755)
	}
	if g.Intn(4) == 0 {
		os.WriteFile(filepath.Join(paths[0], "unreadable"), []byte("{}"), 0600)
	}
	return strings.Join(paths, ":")
}

// matches is the keys a spec names; clear says whether that is specified.
func matches(sp string, ks []*ethsim.Key) (m []*ethsim.Key, valid, clear bool) {
	re, err := regexp.Compile(sp)
	if err != nil || sp == "" {
		return nil, false, true
	}
	clear = true
	for _, k := range ks {
		hit := re.MatchString(k.Listed())
		if k.HasAddr {
			hit = hit || re.MatchString("0x"+k.Addr)
		} else if !hit && re.MatchString(k.ShownAddr()) {
			clear = false
		}
		if hit {
			m = append(m, k)
		}
	}
	return m, true, clear
}

func leaks(c *vh.Case, res *ethsim.Result, ks []*ethsim.Key, args []string) {
	for _, k := range ks {
		h := hex.EncodeToString(k.Priv)
		for _, b := range [][]byte{res.Out, res.Err} {
			if bytes.Contains(b, k.Priv) || bytes.Contains(bytes.ToLower(b), []byte(h)) {
				c.Fail("key-leak", "eth %q prints a private key: %v", args, res)
			}
		}
	}
}

func signs(c *vh.Case) {
	g := c.Rng
	dir := tool.Scratch()
	defer os.RemoveAll(dir)
	ks := keyset(g)
	kp := put(g, dir, ks)

	// the listing shows every key, once, by name and address
	if g.Intn(4) == 0 {
		res := run(c, ethsim.Cmd{Args: []string{"keys"}, Env: []string{"KEY_PATH=" + kp}, Dir: dir})
		if res == nil {
			return
		}
		leaks(c, res, ks, []string{"keys"})
		var want, got []string
		for _, k := range ks {
			want = append(want, strings.TrimLeft(k.Listed(), " ")+" "+k.ShownAddr())
		}
		for _, l := range strings.Split(strings.TrimSuffix(string(res.Out), "\n"), "\n") {
			if l != "" {
				got = append(got, strings.TrimLeft(l, " "))
			}
		}
		sort.Strings(want)
		sort.Strings(got)
		c.Eval(1)
		if res.Exit != 0 || strings.Join(want, "\n") != strings.Join(got, "\n") {
			c.Fail("listing", "eth keys lists\n%s\nthe directory has\n%s\n%v", strings.Join(got, "\n"), strings.Join(want, "\n"), res)
		}
		c.Cell("list", len(ks), len(strings.Split(kp, ":")))
	}

	for n := 1 + g.Intn(3); n > 0; n-- {
		sign1(c, dir, kp, ks)
		if c.Failed() {
			return
		}
	}
}

func content(g *rand.Rand) []byte {
	switch g.Intn(5) {
	case 0:
		return nil
	case 1:
		return vh.Bytes(g, 32)
	case 2:
		return vh.Bytes(g, []int{1, 31, 33, 55, 56, 64, 65, 135, 136, 137, 272}[g.Intn(11)])
	case 3:
		if g.Intn(6) == 0 {
			return vh.Bytes(g, 1<<20+g.Intn(1<<19))
		}
		return vh.Bytes(g, 70000+g.Intn(100000))
	}
	return []byte(word(g, 1+g.Intn(60)) + "\n")
}

func sign1(c *vh.Case, dir, kp string, ks []*ethsim.Key) {
	g := c.Rng
	sp, kind := spec(g, ks)
	m, valid, clear := matches(sp, ks)
	if !clear {
		c.Count("unclear_specs", 1)
		return
	}
	body := content(g)
	file := filepath.Join(dir, "in")
	os.WriteFile(file, body, 0644)
	args := []string{"sign"}
	env := []string{"KEY_PATH=" + kp}
	if sp != "" || g.Intn(2) == 0 {
		env = append(env, "ETHER_ADDR="+sp)
	}
	mode := []string{"binary", "-x", "-j"}[g.Intn(3)]
	if mode != "binary" {
		args = append(args, mode)
	}
	var bad []string
	hash := ref.Keccak(body, 32)
	how := "plain"
	switch g.Intn(6) {
	case 0:
		how = "hashed"
		args = append(args, "-h")
		if len(body) == 32 {
			hash = body
		} else {
			bad = append(bad, "hash length")
		}
		if g.Intn(6) == 0 {
			args = append(args, "-prefix", "x")
			bad = append(bad, "prefix of a hash")
		}
	case 1, 2:
		how = "prefix"
		p := []string{"\x19Ethereum Signed Message:\n32", "x", word(g, 20)}[g.Intn(3)]
		args = append(args, "-prefix", p)
		hash = ref.Keccak(append([]byte(p), body...), 32)
	}
	if g.Intn(20) == 0 {
		args = append(args, "-x", "-j")
		bad = append(bad, "two formats")
	}
	switch g.Intn(30) {
	case 0:
		file = filepath.Join(dir, "nosuchfile")
		bad = append(bad, "no file")
	case 1:
		file = dir
		bad = append(bad, "a directory")
	}
	args = append(args, file)
	if g.Intn(30) == 0 {
		args = append(args, file)
		bad = append(bad, "two files")
	}
	pass := "?"
	pw := "right"
	if len(ks) > 0 {
		pass = ks[g.Intn(len(ks))].Pass
	}
	if len(m) > 0 {
		pass = m[0].Pass
	}
	cmd := ethsim.Cmd{Args: args, Env: env, Dir: dir, Typed: &pass}
	switch g.Intn(8) {
	case 0:
		wrong := pass + "x"
		if g.Intn(2) == 0 {
			wrong = password(g)
		}
		if len(ks) > 1 && g.Intn(2) == 0 {
			wrong = ks[g.Intn(len(ks))].Pass
		}
		cmd.Typed = &wrong
		pw = "other"
		if len(m) > 0 && wrong != m[0].Pass {
			bad = append(bad, "wrong password")
		}
	case 1:
		cmd.Typed = nil
		cmd.Stdin = []byte(pass + "\n")
		pw = "no terminal"
		bad = append(bad, "no terminal")
	}
	full := mode != "-j" && g.Intn(25) == 0
	if full {
		cmd.Stdout = "/dev/full"
	}
	if !valid {
		bad = append(bad, "invalid spec")
	} else if len(m) != 1 {
		bad = append(bad, fmt.Sprintf("%d keys match", len(m)))
	}
	res := run(c, cmd)
	if res == nil {
		return
	}
	leaks(c, res, ks, args)
	c.Eval(1)
	c.Cell("sign", len(ks), kind, mode, how, pw, len(bad) == 0, len(m))
	c.Seen("spec", sp)
	desc := func() string {
		var l []string
		for _, k := range ks {
			l = append(l, fmt.Sprintf("%q %s", k.Listed(), k.ShownAddr()))
		}
		return fmt.Sprintf("eth %q with ETHER_ADDR=%q and keys\n %s\n%v", args, sp, strings.Join(l, "\n "), res)
	}
	if full {
		if res.Exit == 0 {
			c.Fail("lost-output", "succeeds although nothing could be written: %s", desc())
		}
		return
	}
	if len(bad) > 0 {
		c.Count("refused", 1)
		for _, b := range bad {
			c.Seen("refusal", b)
		}
		if res.Exit == 0 || len(res.Out) > 0 && res.Exit != 0 && mode != "binary" && !strings.Contains(string(res.Out), "usage") {
			c.Fail("not-refused", "%v, but: %s", bad, desc())
		}
		if len(res.Out) == 65 {
			c.Fail("not-refused", "%v, but there is a signature: %s", bad, desc())
		}
		return
	}
	if res.Exit != 0 {
		c.Fail("refused", "refused: %s", desc())
		return
	}
	c.Count("signed", 1)
	var sig []byte
	switch mode {
	case "binary":
		sig = res.Out
	case "-x":
		var err error
		sig, err = hex.DecodeString(strings.TrimSuffix(string(res.Out), "\n"))
		if err != nil {
			c.Fail("format", "not hex: %s", desc())
			return
		}
	case "-j":
		var js map[string]string
		if err := json.Unmarshal(res.Out, &js); err != nil {
			c.Fail("format", "not json (%v): %s", err, desc())
			return
		}
		sig = make([]byte, 65)
		for i, f := range []string{"r", "s", "v"} {
			n, ok := new(big.Int).SetString(strings.TrimPrefix(js[f], "0x"), 16)
			if !ok || n.BitLen() > 256 || i == 2 && n.BitLen() > 8 {
				c.Fail("format", "bad %s: %s", f, desc())
				return
			}
			if i < 2 {
				n.FillBytes(sig[32*i : 32*i+32])
			} else {
				sig[64] = byte(n.Int64())
			}
		}
	}
	if len(sig) != 65 {
		c.Fail("format", "signature of %d bytes: %s", len(sig), desc())
		return
	}
	got, ok := ethsim.RecoverAddr(hash, new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64]), uint(sig[64]))
	if !ok || got != m[0].Addr {
		c.Fail("wrong-key", "signature %x of hash %x recovers to %q, not %s: %s", sig, hash, got, m[0].Addr, desc())
		return
	}
	if c.Index < 3 {
		c.Sample("%s: signature recovers to 0x%s", desc(), got)
	}
	// and the tool agrees
	if g.Intn(3) == 0 && sig[64] <= 1 {
		cmd := ethsim.Cmd{Args: []string{"recover", "0x" + hex.EncodeToString(sig), "0x" + hex.EncodeToString(hash)}, Dir: dir}
		if how == "plain" && g.Intn(2) == 0 {
			cmd.Args, cmd.Stdin = cmd.Args[:2], body
		}
		res := run(c, cmd)
		if res != nil && (res.Exit != 0 || string(res.Out) != "0x"+got+"\n") {
			c.Fail("recover", "signature by %s: eth %q: %v", got, cmd.Args, res)
		}
		c.Eval(1)
	}
}

// recovers checks the recover command on signatures of the reference curve.
func recovers(c *vh.Case) {
	g := c.Rng
	dir := tool.Scratch()
	defer os.RemoveAll(dir)
	body := content(g)
	hash := ref.Keccak(body, 32)
	d := vh.Big(g, 256)
	d.Mod(d, ref.N)
	if d.Sign() == 0 {
		d.SetInt64(3)
	}
	k := vh.Big(g, 256)
	k.Mod(k, ref.N)
	if k.Sign() == 0 {
		k.SetInt64(5)
	}
	R := ref.Mul(ref.Base(), k)
	rr := new(big.Int).Mod(R.X, ref.N)
	s := new(big.Int).Mul(rr, d)
	s.Add(s, new(big.Int).SetBytes(hash))
	s.Mul(s, new(big.Int).ModInverse(k, ref.N))
	s.Mod(s, ref.N)
	v := R.Y.Bit(0)
	if s.Sign() == 0 || rr.Sign() == 0 || R.X.Cmp(ref.N) >= 0 {
		return
	}
	if s.Cmp(new(big.Int).Rsh(ref.N, 1)) > 0 {
		s.Sub(ref.N, s)
		v ^= 1
	}
	want := ref.Mul(ref.Base(), d)
	kind := "good"
	valid := true
	sv := byte(v)
	r0 := new(big.Int).Set(rr)
	switch g.Intn(10) {
	case 0:
		kind, valid = "zero r", false
		r0 = new(big.Int)
	case 1:
		kind, valid = "zero s", false
		s = new(big.Int)
	case 2:
		kind, valid = "big r", false
		r0 = new(big.Int).Add(ref.N, big.NewInt(int64(g.Intn(5))))
	case 3:
		kind, valid = "off curve", false
		for {
			r0 = vh.Big(g, 255)
			if _, ok := ref.Lift(r0, 0); !ok && r0.Sign() > 0 {
				break
			}
		}
	case 4:
		kind, valid = "v", false
		sv = byte(2 + g.Intn(25))
	case 5: // the other key
		kind = "other v"
		sv ^= 1
		p, ok := ref.Recover(hash, r0, s, uint(sv))
		valid, want = ok, p
	}
	sig := make([]byte, 65)
	r0.FillBytes(sig[:32])
	s.FillBytes(sig[32:64])
	sig[64] = sv
	arg := "0x" + hex.EncodeToString(sig)
	harg := "0x" + hex.EncodeToString(hash)
	switch g.Intn(14) {
	case 0:
		arg, valid, kind = arg[:len(arg)-2], false, "short"
	case 1:
		arg, valid, kind = arg+"00", false, "long"
	case 2:
		arg, valid, kind = arg[:20]+"g"+arg[21:], false, "digits"
	case 3:
		harg, valid, kind = harg[:len(harg)-2], false, "short hash"
	}
	args := []string{"recover"}
	pub := g.Intn(3) == 0
	if pub {
		args = append(args, "-pub")
	}
	args = append(args, arg)
	cmd := ethsim.Cmd{Dir: dir}
	stdin := kind != "short hash" && g.Intn(2) == 0
	if stdin {
		cmd.Stdin = body
	} else {
		args = append(args, harg)
	}
	cmd.Args = args
	res := run(c, cmd)
	if res == nil {
		return
	}
	c.Eval(1)
	c.Cell("recover", kind, pub, stdin, valid)
	if !valid {
		c.Count("recover_refused", 1)
		if res.Exit == 0 || len(res.Out) != 0 {
			c.Fail("recover-invalid", "%s signature: eth %q: %v", kind, args, res)
		}
		return
	}
	exp := "0x" + ethsim.AddrOf(want) + "\n"
	if pub {
		var b [64]byte
		want.X.FillBytes(b[:32])
		want.Y.FillBytes(b[32:])
		exp = "0x" + hex.EncodeToString(b[:]) + "\n"
	}
	if res.Exit != 0 || string(res.Out) != exp {
		c.Fail("recover", "eth %q: %v; want %q", args, res, exp)
	}
	c.Count("recovered", 1)
}

var (
	mu   sync.Mutex
	made = map[string]string{}
)

// opens checks a generated key file against the reference reader
// and remembers the key.
func opens(c *vh.Case, buf []byte, pass string) (priv []byte) {
	priv, err := ethsim.Open(buf, pass)
	if err != nil {
		c.Fail("keygen-open", "the password %q does not open the key file: %v\n%s", pass, err, buf)
		return nil
	}
	if bytes.Contains(buf, []byte(hex.EncodeToString(priv))) || pass != "" && len(pass) > 8 && bytes.Contains(buf, []byte(pass)) {
		c.Fail("keygen-leak", "the key file shows its secrets:\n%s", buf)
	}
	if _, err := ethsim.Open(buf, pass+"x"); err == nil {
		c.Fail("keygen-open", "a wrong password opens the key file:\n%s", buf)
	}
	mu.Lock()
	defer mu.Unlock()
	if o := made[string(priv)]; o != "" {
		c.Fail("keygen-repeat", "two generated keys are the same:\n%s\n%s", o, buf)
	}
	made[string(priv)] = string(buf)
	return priv
}

func keygens(c *vh.Case) {
	g := c.Rng
	dir := tool.Scratch()
	defer os.RemoveAll(dir)
	keys := filepath.Join(dir, "keys")
	os.Mkdir(keys, 0755)
	os.Chown(keys, 65534, 65534)
	pass := password(g)
	name := ""
	args := []string{"keygen"}
	file := filepath.Join(keys, "new.json")
	toFile := g.Intn(4) != 0
	if toFile {
		args = append(args, "-o", file)
	}
	if g.Intn(4) != 0 {
		name = "k" + word(g, g.Intn(10))
		args = append(args, name)
	}
	cmd := ethsim.Cmd{Args: args, Dir: dir, Typed: &pass, Umask: []int{-1, 0022, 0077, 0007}[g.Intn(4)]}
	res := run(c, cmd)
	if res == nil {
		return
	}
	c.Eval(1)
	c.Cell("keygen", toFile, name != "", cmd.Umask, len(pass))
	if res.Exit != 0 {
		c.Fail("keygen-refused", "eth %q: %v", args, res)
		return
	}
	buf := res.Out
	if toFile {
		if len(res.Out) != 0 {
			c.Fail("keygen-stdout", "eth %q prints the key file as well: %v", args, res)
		}
		var st syscall.Stat_t
		if err := syscall.Lstat(file, &st); err != nil {
			c.Fail("keygen-file", "eth %q: no file: %v", args, err)
			return
		}
		if st.Mode&syscall.S_IFMT != syscall.S_IFREG || st.Mode&0077 != 0 || st.Mode&0400 == 0 {
			c.Fail("keygen-mode", "eth %q under umask %#o makes a file of mode %#o", args, cmd.Umask, st.Mode&07777)
		}
		buf, _ = os.ReadFile(file)
	} else {
		os.WriteFile(file, buf, 0644)
	}
	priv := opens(c, buf, pass)
	if priv == nil {
		return
	}
	c.Count("generated", 1)
	addr := ethsim.AddrOf(ref.Mul(ref.Base(), new(big.Int).SetBytes(priv)))
	var m struct{ ID, Name string }
	json.Unmarshal(buf, &m)
	if m.Name != name || m.ID == "" {
		c.Fail("keygen-name", "generated as %q, id %q; asked for %q", m.Name, m.ID, name)
	}
	// the key signs
	sp := m.ID
	if name != "" {
		sp = name
	}
	msg := filepath.Join(dir, "msg")
	os.WriteFile(msg, []byte(name), 0644)
	sc := ethsim.Cmd{Args: []string{"sign", msg}, Env: []string{"KEY_PATH=" + keys, "ETHER_ADDR=^" + regexp.QuoteMeta(sp) + "$"}, Dir: dir, Typed: &pass}
	res = run(c, sc)
	if res == nil {
		return
	}
	c.Eval(1)
	got := ""
	if len(res.Out) == 65 {
		got, _ = ethsim.RecoverAddr(ref.Keccak([]byte(name), 32), new(big.Int).SetBytes(res.Out[:32]), new(big.Int).SetBytes(res.Out[32:64]), uint(res.Out[64]))
	}
	if res.Exit != 0 || got != addr {
		c.Fail("keygen-sign", "the generated key %s signs as %q: %v\n%s", addr, got, res, buf)
	}
	wrong := pass + "y"
	sc.Typed = &wrong
	res = run(c, sc)
	if res != nil && (res.Exit == 0 || len(res.Out) != 0) {
		c.Fail("keygen-sign", "signs with a wrong password: %v", res)
	}
}

// refusals are the times no key may be written.
func refusals(c *vh.Case) {
	g := c.Rng
	dir := tool.Scratch()
	defer os.RemoveAll(dir)
	pass := password(g)
	file := filepath.Join(dir, "k.json")
	old := []byte(`{"some":"key"}` + word(g, 20))
	cmd := ethsim.Cmd{Args: []string{"keygen", "-o", file, "n"}, Dir: dir, Typed: &pass}
	keep := map[string][]byte{}
	kind := []string{"exists", "link", "dangling", "directory", "no terminal", "no such directory", "two names", "full"}[c.Index%8]
	put := func(p string) {
		os.WriteFile(p, old, 0600)
		os.Chown(p, 65534, 65534)
		keep[p] = old
	}
	none := []string{}
	switch kind {
	case "exists":
		put(file)
	case "link":
		t := filepath.Join(dir, "target")
		put(t)
		os.Symlink(t, file)
		if g.Intn(2) == 0 {
			os.Remove(file)
			os.Link(t, file)
		}
	case "dangling":
		// following it is not excluded, but the mode has to be right
		os.Symlink(filepath.Join(dir, "target"), file)
	case "directory":
		os.Mkdir(file, 0777)
		os.Chown(file, 65534, 65534)
	case "no terminal":
		cmd.Typed, cmd.Stdin = nil, []byte(pass+"\n")
		none = append(none, file)
	case "no such directory":
		cmd.Args[2] = filepath.Join(dir, "x", "k.json")
	case "two names":
		cmd.Args = append(cmd.Args, "m")
		none = append(none, file)
	case "full":
		cmd.Args = []string{"keygen", "n"}
		cmd.Stdout = "/dev/full"
	}
	res := run(c, cmd)
	if res == nil {
		return
	}
	c.Eval(1)
	c.Cell("keygen refusal", kind)
	for p, b := range keep {
		got, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(got, b) {
			c.Fail("keygen-overwrite", "%s: eth %q replaced %q with %q (%v)", kind, cmd.Args, b, got, res)
		}
	}
	for _, p := range none {
		if _, err := os.Lstat(p); err == nil {
			c.Fail("keygen-not-refused", "%s: eth %q made a file: %v", kind, cmd.Args, res)
		}
	}
	if kind == "dangling" {
		if fi, err := os.Stat(filepath.Join(dir, "target")); err == nil && fi.Mode()&0077 != 0 {
			c.Fail("keygen-mode", "mode %v", fi.Mode())
		}
		return
	}
	if res.Exit == 0 {
		c.Fail("keygen-not-refused", "%s: eth %q: %v", kind, cmd.Args, res)
	}
}
