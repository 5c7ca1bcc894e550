package c34

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/philhofer/seth/yubihsm"

	"vharness/ethsim"
	"vharness/ref"
	"vharness/vh"
)

// modelled is the module that a run of the tool sees, over a socket.
type modelled struct {
	script string
	keys   map[int]*key
	fault  string // what the module answers instead of signatures
	g      *rand.Rand

	mu    sync.Mutex
	asked []string
	ln    net.Listener
}

func (m *modelled) serve() {
	for {
		cn, err := m.ln.Accept()
		if err != nil {
			return
		}
		go func() {
			defer cn.Close()
			fmt.Fprint(cn, m.script+".\n")
			rd := bufio.NewReader(cn)
			for {
				l, err := rd.ReadString('\n')
				if err != nil {
					return
				}
				f := strings.Fields(l)
				m.mu.Lock()
				m.asked = append(m.asked, strings.Join(f, " "))
				answer := "-22 "
				var id int
				if len(f) == 3 {
					fmt.Sscan(f[1], &id)
					dig, _ := hex.DecodeString(f[2])
					if k := m.keys[id]; k != nil && len(dig) == 32 {
						d := k.d
						switch m.fault {
						case "another key's":
							d = new(big.Int).Add(big.NewInt(1), k.d)
						case "of another digest":
							dig = append([]byte{dig[0] ^ 1}, dig[1:]...)
						}
						r, s := sign(m.g, d, dig, m.g.Intn(2) == 0)
						answer = "0 " + hex.EncodeToString(der(r, s))
						switch m.fault {
						case "cut":
							answer = answer[:len(answer)-6]
						case "failure":
							answer = "-17 "
						}
					}
				}
				m.mu.Unlock()
				fmt.Fprint(cn, answer+"\n")
			}
		}()
	}
}

// cli checks the command line tool with a module.
func cli(r *vh.Run) {
	tool, err := ethsim.New()
	if err != nil {
		r.HarnessError("%v", err)
		return
	}
	defer tool.Close()
	r.Cases("tool", r.Scale(120, 2500), 0, func(c *vh.Case) {
		g := c.Rng
		dir := tool.Scratch()
		defer os.RemoveAll(dir)
		m := &modelled{g: g, keys: map[int]*key{}}
		pass := strings.TrimRight(hex.EncodeToString(vh.Bytes(g, 1+g.Intn(20))), "")
		m.script = "P " + hex.EncodeToString([]byte(pass)) + "\n"
		for i := g.Intn(5); i > 0; i-- {
			id := 1 + g.Intn(0xffff)
			if g.Intn(4) == 0 {
				id = 1 + g.Intn(30)
			}
			if m.keys[id] != nil {
				continue
			}
			k := makeKey(g, id)
			algo, caps := int(yubihsm.AlgoECK256), "ff"
			switch g.Intn(6) {
			case 0:
				algo = int(yubihsm.AlgoECP256)
			case 1:
				caps = "7f"
			default:
				m.keys[id] = k
			}
			m.script += fmt.Sprintf("O %d %d %d 00000000000000%s %x\n", id, int(yubihsm.TypeAsymmetric), algo, caps, k.pub[:])
		}
		// key files beside it
		kdir := filepath.Join(dir, "keys")
		os.Mkdir(kdir, 0755)
		var ks []*ethsim.Key
		for i := g.Intn(2); i > 0; i-- {
			k := ethsim.NewKey(g, "", hex.EncodeToString(vh.Bytes(g, 16)), "", true)
			os.WriteFile(filepath.Join(kdir, "k"), k.JSON, 0644)
			ks = append(ks, k)
		}
		state := "unlocked"
		given := pass
		switch g.Intn(8) {
		case 0:
			state, given = "wrong password", pass+"0"
		case 1:
			state = "not authenticated"
			m.script += "F 3 -9\n"
		case 2:
			state = "absent"
			m.script += "F 1 -3\n"
		}
		if g.Intn(4) == 0 {
			m.fault = []string{"another key's", "of another digest", "cut", "failure"}[g.Intn(4)]
		}
		sock := filepath.Join(dir, "module")
		if m.ln, err = net.Listen("unix", sock); err != nil {
			c.HarnessError("%v", err)
			return
		}
		os.Chmod(sock, 0777)
		defer m.ln.Close()
		go m.serve()
		env := []string{"KEY_PATH=" + kdir, "YUBISIM_SOCK=" + sock, "YUBIHSM_PASS=" + given}
		if g.Intn(3) == 0 {
			env = append(env, "YUBIHSM_HINT=slot,http://127.0.0.1:9")
		}
		type entry struct {
			id, addr string
			k        *key
		}
		var want []entry
		for _, k := range ks {
			want = append(want, entry{k.Listed(), "0x" + k.Addr, nil})
		}
		if state == "unlocked" {
			for id, k := range m.keys {
				p := ref.Point{X: new(big.Int).SetBytes(k.pub[:32]), Y: new(big.Int).SetBytes(k.pub[32:])}
				want = append(want, entry{fmt.Sprintf("yubihsm:%d", id), "0x" + strings.TrimPrefix(ethsim.AddrOf(p), "0x"), k})
			}
		}
		sort.Slice(want, func(i, j int) bool { return want[i].id < want[j].id })
		refused := state == "wrong password" || state == "not authenticated"
		run := func(cmd ethsim.Cmd) *ethsim.Result {
			res, err := tool.Run(cmd)
			if err != nil {
				c.HarnessError("running %v: %v", cmd.Args, err)
				return nil
			}
			c.Count("tool_runs", 1)
			if res.Hung {
				c.Fail("tool-hang", "eth %q does not finish: %v", cmd.Args, res)
				return nil
			}
			if bytes.Contains(res.Err, []byte("goroutine ")) {
				c.Fail("tool-panic", "eth %q panics: %v", cmd.Args, res)
				return nil
			}
			return res
		}
		c.Eval(1)
		c.Seen("tool_state", state+" "+m.fault)
		if g.Intn(3) == 0 {
			res := run(ethsim.Cmd{Args: []string{"keys"}, Env: env, Dir: dir})
			if res == nil {
				return
			}
			if refused {
				if res.Exit == 0 {
					c.Fail("tool-unlocks", "%s, but: %v", state, res)
				}
				return
			}
			var got, exp []string
			for _, l := range strings.Split(string(res.Out), "\n") {
				if f := strings.Fields(l); len(f) > 0 {
					got = append(got, strings.Join(f, " "))
				}
			}
			for _, e := range want {
				exp = append(exp, e.id+" "+e.addr)
			}
			sort.Strings(got)
			sort.Strings(exp)
			if res.Exit != 0 || strings.Join(got, "\n") != strings.Join(exp, "\n") {
				c.Fail("tool-list", "module %s: listed\n%s\nwant\n%s\n%v", state, strings.Join(got, "\n"), strings.Join(exp, "\n"), res)
			}
			c.Cell("keys", len(want), state)
			return
		}
		spec, matched := "yubihsm:99999", -1
		if len(want) > 0 && g.Intn(8) != 0 {
			matched = g.Intn(len(want))
			switch g.Intn(3) {
			case 0:
				spec = "^" + want[matched].id + "$"
			case 1:
				spec = want[matched].addr
			default:
				spec = want[matched].id
			}
			n := 0
			for _, e := range want {
				if strings.Contains(e.id, strings.Trim(spec, "^$")) && spec[0] != '^' || e.id == strings.Trim(spec, "^$") || e.addr == spec {
					n++
				}
			}
			if n != 1 {
				matched = -2
			}
		}
		body := vh.Bytes(g, g.Intn(100))
		file := filepath.Join(dir, "in")
		os.WriteFile(file, body, 0644)
		hash := ref.Keccak(body, 32)
		typed := ""
		res := run(ethsim.Cmd{Args: []string{"sign", file}, Env: append(env, "ETHER_ADDR="+spec), Dir: dir, Typed: &typed})
		if res == nil {
			return
		}
		c.Cell("sign", len(want), state, m.fault, matched >= 0)
		m.mu.Lock()
		asked := m.asked
		m.mu.Unlock()
		hsm := matched >= 0 && want[matched].k != nil
		desc := fmt.Sprintf("module %s (signatures %q), ETHER_ADDR=%q, keys %v, module asked %v: %v", state, m.fault, spec, want, asked, res)
		switch {
		case refused || matched < 0 || hsm && m.fault != "":
			if res.Exit == 0 || len(res.Out) >= 65 {
				c.Fail("tool-signs", "%s", desc)
			}
			return
		case res.Exit != 0 || len(res.Out) != 65:
			c.Fail("tool-refuses", "%s", desc)
			return
		case hsm && (len(asked) != 1 || asked[0] != fmt.Sprintf("S %d %x", want[matched].k.id, hash)):
			c.Fail("tool-request", "digest %x: %s", hash, desc)
			return
		case !hsm && len(asked) != 0:
			c.Fail("tool-request", "%s", desc)
			return
		}
		v := uint(res.Out[64])
		if v >= 27 {
			v -= 27
		}
		a, ok := ethsim.RecoverAddr(hash, new(big.Int).SetBytes(res.Out[:32]), new(big.Int).SetBytes(res.Out[32:64]), v)
		if !ok || "0x"+strings.TrimPrefix(a, "0x") != want[matched].addr {
			c.Fail("tool-signature", "recovers to %s: %s", a, desc)
		}
		c.Count("tool_signatures", 1)
	})
}
