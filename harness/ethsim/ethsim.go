// Package ethsim runs the built command line tool as an unprivileged user,
// with its own key directories and a terminal to type passwords at.
package ethsim

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"

	"vharness/ref"
	"vharness/vh"
)

const nobody = 65534

// Tool is the built binary in a place the unprivileged user can run it from.
type Tool struct {
	Dir, Bin string
}

func New() (*Tool, error) {
	src := os.Getenv("VERIF_BIN_ETH")
	if src == "" {
		return nil, fmt.Errorf("VERIF_BIN_ETH is not set")
	}
	dir, err := os.MkdirTemp("/tmp", "vhceth")
	if err != nil {
		return nil, err
	}
	if err := os.Chmod(dir, 0755); err != nil {
		return nil, err
	}
	buf, err := os.ReadFile(src)
	if err != nil {
		return nil, err
	}
	t := &Tool{Dir: dir, Bin: filepath.Join(dir, "eth")}
	if err := os.WriteFile(t.Bin, buf, 0755); err != nil {
		return nil, err
	}
	return t, os.Chmod(t.Bin, 0755)
}

func (t *Tool) Close() {
	if strings.HasPrefix(t.Dir, "/tmp/vhceth") {
		os.RemoveAll(t.Dir)
	}
}

// Scratch makes a directory that the tool's user owns.
func (t *Tool) Scratch() string {
	d, err := os.MkdirTemp(t.Dir, "s")
	if err != nil {
		panic(err)
	}
	os.Chmod(d, 0755)
	os.Chown(d, nobody, nobody)
	return d
}

// Cmd is one run of the tool.
type Cmd struct {
	Args    []string
	Env     []string // besides HOME and PATH
	Dir     string
	Typed   *string // typed at a terminal; without it stdin is Stdin
	Stdin   []byte
	Umask   int // 0 is passed as -1
	Stdout  string
	Timeout time.Duration
}

// Result is what came of it.
type Result struct {
	Exit     int
	Out, Err []byte
	Hung     bool
}

func (r *Result) String() string {
	return fmt.Sprintf("exit %d stdout %q stderr %q", r.Exit, clip(r.Out), clip(r.Err))
}

func clip(b []byte) string {
	if len(b) > 1500 {
		return string(b[:1500]) + "..."
	}
	return string(b)
}

func pty() (master, slave *os.File, err error) {
	master, err = os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	var n uint32
	var zero int32
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCSPTLCK, uintptr(unsafe.Pointer(&zero))); e != 0 {
		master.Close()
		return nil, nil, e
	}
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, master.Fd(), syscall.TIOCGPTN, uintptr(unsafe.Pointer(&n))); e != 0 {
		master.Close()
		return nil, nil, e
	}
	slave, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		master.Close()
		return nil, nil, err
	}
	return master, slave, nil
}

// Run runs the tool and waits for it. Errors are the harness's.
func (t *Tool) Run(c Cmd) (*Result, error) {
	// a command that uses more memory than that has gone wrong
	script := `ulimit -d 1500000; exec "$0" "$@"`
	if c.Umask != 0 {
		u := c.Umask
		if u < 0 {
			u = 0
		}
		script = fmt.Sprintf("umask %04o; ", u) + script
	}
	cmd := exec.Command("/bin/sh", append([]string{"-c", script, t.Bin}, c.Args...)...)
	cmd.Dir = c.Dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + c.Dir}, c.Env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}, Pdeathsig: syscall.SIGKILL, Setsid: true}
	var out, errb vh.Output
	cmd.Stdout, cmd.Stderr = &out, &errb
	if c.Stdout != "" {
		f, err := os.OpenFile(c.Stdout, os.O_WRONLY, 0)
		if err != nil {
			return nil, err
		}
		defer f.Close()
		cmd.Stdout = f
	}
	if c.Typed != nil {
		m, s, err := pty()
		if err != nil {
			return nil, fmt.Errorf("pty: %v", err)
		}
		defer m.Close()
		defer s.Close()
		go io.Copy(io.Discard, m)
		cmd.Stdin = s
		if _, err := m.Write([]byte(*c.Typed + "\n")); err != nil {
			return nil, err
		}
	} else {
		cmd.Stdin = bytes.NewReader(c.Stdin)
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	r := &Result{}
	limit := c.Timeout
	if limit == 0 {
		limit = 60 * time.Second
	}
	tm := time.AfterFunc(limit, func() {
		r.Hung = true
		cmd.Process.Kill()
	})
	err := cmd.Wait()
	tm.Stop()
	r.Out, r.Err = out.Bytes(), errb.Bytes()
	if ee, ok := err.(*exec.ExitError); ok {
		r.Exit = ee.ExitCode()
		if st, ok := ee.Sys().(syscall.WaitStatus); ok && st.Signaled() {
			r.Exit = 128 + int(st.Signal())
		}
		return r, nil
	}
	return r, err
}

// Key is a key file and what is in it.
type Key struct {
	Priv     []byte
	Addr     string // 40 hex digits
	Name, ID string
	Pass     string
	HasAddr  bool
	JSON     []byte
}

// Listed is the name the key is listed under.
func (k *Key) Listed() string {
	if k.Name != "" {
		return k.Name
	}
	return k.ID
}

// ShownAddr is the address it is listed under.
func (k *Key) ShownAddr() string {
	if k.HasAddr {
		return "0x" + k.Addr
	}
	return "0x" + strings.Repeat("0", 40)
}

// AddrOf is the address of a public key.
func AddrOf(p ref.Point) string {
	var b [64]byte
	p.X.FillBytes(b[:32])
	p.Y.FillBytes(b[32:])
	return hex.EncodeToString(ref.Keccak(b[:], 32)[12:])
}

// NewKey makes a key with a cheap key derivation.
func NewKey(g *rand.Rand, name, id, pass string, hasAddr bool) *Key {
	d := vh.Big(g, 256)
	d.Mod(d, ref.N)
	if d.Sign() == 0 {
		d.SetInt64(7)
	}
	k := &Key{Priv: make([]byte, 32), Name: name, ID: id, Pass: pass, HasAddr: hasAddr}
	d.FillBytes(k.Priv)
	k.Addr = AddrOf(ref.Mul(ref.Base(), d))
	salt, iv := vh.Bytes(g, 32), vh.Bytes(g, 16)
	var dk []byte
	params := map[string]interface{}{"dklen": 32, "salt": hex.EncodeToString(salt)}
	kdf := "scrypt"
	if g.Intn(2) == 0 {
		dk, _ = scrypt.Key([]byte(pass), salt, 2, 1, 1, 32)
		params["n"], params["r"], params["p"] = 2, 1, 1
	} else {
		kdf = "pbkdf2"
		dk = pbkdf2.Key([]byte(pass), salt, 1, 32, sha256.New)
		params["c"], params["prf"] = 1, "hmac-sha256"
	}
	blk, _ := aes.NewCipher(dk[:16])
	ct := make([]byte, 32)
	cipher.NewCTR(blk, iv).XORKeyStream(ct, k.Priv)
	mac := ref.Keccak(append(append([]byte{}, dk[16:32]...), ct...), 32)
	m := map[string]interface{}{
		"version": 3, "id": id,
		"crypto": map[string]interface{}{
			"cipher": "aes-128-ctr", "cipherparams": map[string]interface{}{"iv": hex.EncodeToString(iv)},
			"ciphertext": hex.EncodeToString(ct), "kdf": kdf, "kdfparams": params, "mac": hex.EncodeToString(mac),
		},
	}
	if name != "" {
		m["name"] = name
	}
	if hasAddr {
		m["address"] = k.Addr
	}
	k.JSON, _ = json.Marshal(m)
	return k
}

// RecoverAddr is the address that signed hash, with r, s and v given.
func RecoverAddr(hash []byte, r, s *big.Int, v uint) (string, bool) {
	if v >= 27 {
		v -= 27
	}
	if v > 1 {
		return "", false
	}
	p, ok := ref.Recover(hash, r, s, v)
	if !ok {
		return "", false
	}
	return AddrOf(p), true
}

// Open opens a version 3 key file.
func Open(buf []byte, pass string) ([]byte, error) {
	var m struct {
		Version int
		Crypto  struct {
			Cipher, Ciphertext, Kdf, Mac string
			Cipherparams                 struct{ Iv string }
			Kdfparams                    struct {
				Dklen, N, R, P, C int
				Salt, Prf         string
			}
		}
	}
	if err := json.Unmarshal(buf, &m); err != nil {
		return nil, err
	}
	c, p := m.Crypto, m.Crypto.Kdfparams
	salt, e1 := hex.DecodeString(p.Salt)
	iv, e2 := hex.DecodeString(c.Cipherparams.Iv)
	ct, e3 := hex.DecodeString(c.Ciphertext)
	mac, e4 := hex.DecodeString(c.Mac)
	if m.Version != 3 || c.Cipher != "aes-128-ctr" || p.Dklen < 32 || e1 != nil || e2 != nil || e3 != nil || e4 != nil || len(iv) != 16 || len(ct) != 32 {
		return nil, fmt.Errorf("malformed key file")
	}
	var dk []byte
	switch {
	case c.Kdf == "scrypt":
		var err error
		if dk, err = scrypt.Key([]byte(pass), salt, p.N, p.R, p.P, p.Dklen); err != nil {
			return nil, err
		}
	case c.Kdf == "pbkdf2" && p.Prf == "hmac-sha256":
		dk = pbkdf2.Key([]byte(pass), salt, p.C, p.Dklen, sha256.New)
	default:
		return nil, fmt.Errorf("unknown kdf %q", c.Kdf)
	}
	if !bytes.Equal(mac, ref.Keccak(append(append([]byte{}, dk[16:32]...), ct...), 32)) {
		return nil, fmt.Errorf("wrong password")
	}
	blk, _ := aes.NewCipher(dk[:16])
	cipher.NewCTR(blk, iv).XORKeyStream(ct, ct)
	return ct, nil
}
