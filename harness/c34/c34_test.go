// C34: keys and signatures of a hardware module. The code under test is built
// with its build tag against a stand-in for the vendor's library (yubisim), all
// of it under AddressSanitizer; the stand-in's event log and reference ECDSA
// decide.
package c34

import (
	"bytes"
	"encoding/asn1"
	"fmt"
	"math/big"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/yubihsm"

	"vharness/ref"
	"vharness/vh"
	"vharness/yubisim"
)

const url = "http://127.0.0.1:12345"

type key struct {
	id  int
	d   *big.Int
	pub seth.PublicKey
}

// pool holds the numbers of the keys in use; computing a key is slow.
var pool []*key

func newKey(g *rand.Rand, id int) *key {
	poolMu.Lock()
	defer poolMu.Unlock()
	// filled in a fixed order, so that a case can be repeated by itself
	for pg := rand.New(rand.NewSource(34)); len(pool) < 48; {
		pool = append(pool, makeKey(pg, 0))
	}
	k := *pool[g.Intn(len(pool))]
	k.id = id
	return &k
}

var poolMu sync.Mutex

func makeKey(g *rand.Rand, id int) *key {
	d := new(big.Int).Mod(vh.Big(g, 256), ref.N)
	if g.Intn(8) == 0 {
		d.SetInt64(1 + int64(g.Intn(3)))
	}
	if d.Sign() == 0 {
		d.SetInt64(1)
	}
	k := &key{id: id, d: d}
	p := ref.Mul(ref.Base(), d)
	p.X.FillBytes(k.pub[:32])
	p.Y.FillBytes(k.pub[32:])
	return k
}

// sign is textbook ECDSA with a random nonce; s is made low or high on request.
func sign(g *rand.Rand, d *big.Int, digest []byte, high bool) (r, s *big.Int) {
	for {
		k := new(big.Int).Mod(vh.Big(g, 256), ref.N)
		if k.Sign() == 0 {
			continue
		}
		p := ref.Mul(ref.Base(), k)
		r = new(big.Int).Mod(p.X, ref.N)
		s = new(big.Int).Mul(r, d)
		s.Add(s, new(big.Int).SetBytes(digest))
		s.Mul(s, new(big.Int).ModInverse(k, ref.N))
		s.Mod(s, ref.N)
		if r.Sign() == 0 || s.Sign() == 0 {
			continue
		}
		half := new(big.Int).Rsh(ref.N, 1)
		if (s.Cmp(half) > 0) != high {
			s.Sub(ref.N, s)
		}
		return r, s
	}
}

type rs struct{ R, S *big.Int }

func der(r, s *big.Int) []byte {
	b, err := asn1.Marshal(rs{r, s})
	if err != nil {
		panic(err)
	}
	return b
}

// deviceErrors are the answers that mean failure.
var deviceErrors = func() []int {
	var out []int
	for i := 1; i <= 29; i++ {
		if i != 11 { // "device ok" is a success
			out = append(out, -i)
		}
	}
	return out
}()

// module fills the simulated module with objects and returns the keys that
// are to be listed.
func module(g *rand.Rand) (want map[int]*key) {
	want = map[int]*key{}
	used := map[int]bool{}
	n := 1 + g.Intn(9)
	if g.Intn(12) == 0 {
		n = 0
	}
	for i := 0; i < n; i++ {
		id := 1 + g.Intn(0xfffe)
		if g.Intn(6) == 0 {
			id = []int{1, 255, 256, 0x7fff, 0x8000, 0xffff}[g.Intn(6)]
		}
		if used[id] {
			continue
		}
		used[id] = true
		k := newKey(g, id)
		for _, o := range want {
			if o.pub == k.pub {
				k = makeKey(g, id)
				break
			}
		}
		o := &yubisim.Object{ID: id, Type: int(yubihsm.TypeAsymmetric), Algo: int(yubihsm.AlgoECK256), Len: 32,
			Domains: 1 + g.Intn(0xffff), Sequence: g.Intn(256), Origin: 1 + g.Intn(2),
			Label: string("key-" + fmt.Sprint(i)), Pub: k.pub[:], PubAlgo: int(yubihsm.AlgoECK256)}
		for j := range o.Caps {
			o.Caps[j] = byte(g.Intn(256))
		}
		o.Caps[7] |= 1 << 7 // may sign ECDSA (bit 7)
		switch g.Intn(6) {
		case 0: // a key that may not sign
			o.Caps[7] &^= 1 << 7
		case 1: // a key of another curve
			o.Algo, o.PubAlgo = int(yubihsm.AlgoECP256), int(yubihsm.AlgoECP256)
		case 2:
			o.Type = int([]yubihsm.ObjectType{yubihsm.TypeOpaque, yubihsm.TypeAuthKey, yubihsm.TypeWrapKey, yubihsm.TypeHMACKey}[g.Intn(4)])
			o.Algo = int(yubihsm.AlgoOpaqueData)
		default:
			want[id] = k
		}
		yubisim.Add(o)
	}
	return want
}

// world is one module with its owner.
type world struct {
	c        *vh.Case
	g        *rand.Rand
	want     map[int]*key
	pass     []byte
	hsm      seth.HSM
	unlocked bool
	session  int // number of the session in use
	keys     []seth.HSMKey
}

func (w *world) unlock(kind int) {
	c, g := w.c, w.g
	pass := w.pass
	fail, name := false, "right"
	before := yubisim.Logged()
	switch kind {
	case 0:
		name, fail = "wrong", true
		pass = append([]byte(nil), pass...)
		switch g.Intn(3) {
		case 0:
			pass[g.Intn(len(pass))] ^= byte(1 + g.Intn(255))
		case 1:
			pass = pass[:len(pass)-1]
		case 2:
			pass = append(pass, 0)
		}
		if len(pass) == 0 {
			name = "empty"
		}
	case 1:
		name, fail = "empty", true
		pass = nil
	case 2:
		name, fail = "no session", true
		yubisim.Fail(yubisim.Create, 0, 1, deviceErrors[g.Intn(len(deviceErrors))])
	case 3:
		name, fail = "not authenticated", true
		yubisim.Fail(yubisim.Auth, 0, 1, deviceErrors[g.Intn(len(deviceErrors))])
	}
	c.Seen("unlock", name)
	c.Count("unlocks", 1)
	var err error
	if !c.Guard("unlock-panics", func() { err = w.hsm.Unlock(append([]byte(nil), pass...)) }) {
		return
	}
	yubisim.Fail(yubisim.Create, 0, 0, 0)
	yubisim.Fail(yubisim.Auth, 0, 0, 0)
	if fail != (err != nil) {
		c.Fail("unlock-result", "Unlock with %s password/answer: error is %v", name, err)
	}
	w.unlocked = err == nil && !fail
	w.session = 0
	for _, e := range yubisim.Events(before) {
		if e.Op == yubisim.Create && e.ID != 1 {
			c.Fail("unlock-key", "session created with authentication key %d", e.ID)
		}
		if e.Op == yubisim.Create && !bytes.Equal(e.Data, pass) && len(pass) <= len(e.Data) {
			c.Fail("unlock-password", "password sent is %x, want %x", e.Data, pass)
		}
		if e.Op == yubisim.Auth && e.RC == 0 {
			w.session = e.Session
		}
	}
	if w.unlocked && w.session == 0 {
		c.Fail("unlock-session", "unlocked without an authenticated session")
	}
}

func (w *world) list() {
	c, g := w.c, w.g
	faulty := ""
	var badID int
	if w.unlocked {
		switch g.Intn(6) {
		case 0:
			faulty = "list"
			yubisim.Fail(yubisim.List, 0, 1, deviceErrors[g.Intn(len(deviceErrors))])
		case 1:
			faulty = "pubkey"
			yubisim.Fail(yubisim.Pubkey, g.Intn(len(w.want)+1), 1, deviceErrors[g.Intn(len(deviceErrors))])
		case 2:
			if len(w.want) == 0 {
				break
			}
			faulty = "form"
			for badID = range w.want {
				break
			}
			ids := sortedIDs(w.want)
			badID = ids[g.Intn(len(ids))]
			k := w.want[badID]
			switch g.Intn(6) {
			case 0:
				yubisim.SetPub(badID, k.pub[:63], int(yubihsm.AlgoECK256))
			case 1:
				yubisim.SetPub(badID, nil, int(yubihsm.AlgoECK256))
			case 2:
				yubisim.SetPub(badID, append(k.pub[:], 0), int(yubihsm.AlgoECK256))
			case 3:
				yubisim.SetPub(badID, k.pub[:32], int(yubihsm.AlgoECK256))
			case 4:
				yubisim.SetPub(badID, k.pub[:], int(yubihsm.AlgoECP256))
			case 5:
				yubisim.SetPub(badID, append([]byte{4}, k.pub[:]...), int(yubihsm.AlgoECK256))
			}
		}
	}
	c.Seen("list", fmt.Sprint(w.unlocked, faulty))
	c.Count("lists", 1)
	var keys []seth.HSMKey
	var err error
	ok := c.Guard("pubkeys-panics", func() { keys, err = w.hsm.Pubkeys() })
	yubisim.Fail(yubisim.List, 0, 0, 0)
	yubisim.Fail(yubisim.Pubkey, 0, 0, 0)
	if badID != 0 {
		yubisim.SetPub(badID, w.want[badID].pub[:], int(yubihsm.AlgoECK256))
	}
	if !ok {
		return
	}
	if !w.unlocked {
		if err == nil {
			c.Fail("locked-keys", "a locked module lists %d keys", len(keys))
		}
		return
	}
	if err != nil {
		if faulty == "" {
			c.Fail("list-fails", "Pubkeys: %v %+v", err, yubisim.Events(0))
		}
		return
	}
	// a fault may have met no call (the list may be kept); what is listed
	// must be right all the same
	if len(keys) != len(w.want) {
		c.Fail("list-size", "%d keys listed, the module has %d (fault %q)", len(keys), len(w.want), faulty)
		return
	}
	seen := map[int]bool{}
	for i := range keys {
		var id int
		if n, _ := fmt.Sscanf(keys[i].ID, "yubihsm:%d", &id); n != 1 || keys[i].ID != fmt.Sprintf("yubihsm:%d", id) {
			c.Fail("list-id", "key listed as %q", keys[i].ID)
			return
		}
		k := w.want[id]
		if k == nil || seen[id] {
			c.Fail("list-set", "key %d listed, wanted %v (seen before: %v)", id, sortedIDs(w.want), seen[id])
			return
		}
		seen[id] = true
		if keys[i].Public != k.pub {
			c.Fail("list-public", "key %d: public key %x, want %x (fault %q)", id, keys[i].Public[:], k.pub[:], faulty)
			return
		}
	}
	w.keys = keys
}

func sortedIDs(m map[int]*key) []int {
	var out []int
	for id := range m {
		out = append(out, id)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func (w *world) sign() {
	c, g := w.c, w.g
	if len(w.keys) == 0 {
		return
	}
	i := g.Intn(len(w.keys))
	hk := &w.keys[i]
	name := "listed"
	unknown := false
	switch g.Intn(5) {
	case 0: // as the command line asks: by identifier
		hk = &seth.HSMKey{ID: w.keys[i].ID}
		name = "identifier"
	case 1:
		id := 1 + g.Intn(0xffff)
		hk = &seth.HSMKey{ID: fmt.Sprintf("yubihsm:%d", id), Public: w.keys[i].Public, Aux: w.keys[i].Aux}
		unknown = w.want[id] == nil
		if !unknown {
			return
		}
		name = "unknown"
	case 2:
		hk = &seth.HSMKey{ID: w.keys[i].ID[:len(w.keys[i].ID)-1], Public: w.keys[i].Public}
		for j := range w.keys {
			if w.keys[j].ID == hk.ID {
				return
			}
		}
		unknown, name = true, "prefix"
	}
	c.Seen("signer", fmt.Sprint(name, w.unlocked))
	var sg seth.Signer
	var err error
	if !c.Guard("signer-panics", func() { sg, err = w.hsm.Signer(hk) }) {
		return
	}
	if unknown || !w.unlocked {
		if err == nil {
			c.Fail("signer-given", "Signer(%s) of a module (unlocked %v) gives a signer", name, w.unlocked)
		}
		return
	}
	if err != nil {
		c.Fail("signer-refused", "Signer(%s): %v", name, err)
		return
	}
	var k *key
	for id, x := range w.want {
		if fmt.Sprintf("yubihsm:%d", id) == w.keys[i].ID {
			k = x
		}
	}
	for n := 1 + g.Intn(3); n > 0 && !c.Failed(); n-- {
		w.one(k, sg)
	}
}

// one is one signature, by key k.
func (w *world) one(k *key, sg seth.Signer) {
	c, g := w.c, w.g
	var h seth.Hash
	g.Read(h[:])
	if g.Intn(10) == 0 {
		h = seth.Hash{}
		h[31] = byte(g.Intn(2))
	} else if g.Intn(10) == 0 {
		for i := range h {
			h[i] = 0xff
		}
	}
	r, s := sign(g, k.d, h[:], g.Intn(2) == 0)
	reply, rc, name, honest := der(r, s), 0, "good", true
	if g.Intn(3) == 0 {
		honest = false
		n := ref.N
		switch g.Intn(17) {
		case 0:
			name = "another key's"
			other := newKey(g, 0)
			for other.d.Cmp(k.d) == 0 {
				other = newKey(g, 0)
			}
			r, s = sign(g, other.d, h[:], g.Intn(2) == 0)
			reply = der(r, s)
		case 1:
			name = "of another digest"
			o := h
			o[g.Intn(32)] ^= byte(1 + g.Intn(255))
			r, s = sign(g, k.d, o[:], g.Intn(2) == 0)
			reply = der(r, s)
		case 2:
			name, reply = "r is 0", der(new(big.Int), s)
		case 3:
			name, reply = "s is 0", der(r, new(big.Int))
		case 4:
			name, reply = "r too big", der(new(big.Int).Add(r, n), s)
		case 5:
			name, reply = "s too big", der(r, new(big.Int).Add(s, n))
		case 6:
			name, reply = "r negative", der(new(big.Int).Neg(r), s)
		case 7:
			name, reply = "s negative", der(r, new(big.Int).Neg(s))
		case 8:
			name, reply = "r huge", der(new(big.Int).Lsh(r, uint(8+g.Intn(900))), s)
		case 9:
			name, reply = "s huge", der(r, new(big.Int).Lsh(s, uint(8+g.Intn(900))))
		case 10:
			name, reply = "trailing bytes", append(reply, vh.Bytes(g, 1+g.Intn(9))...)
		case 11:
			name, reply = "cut", reply[:g.Intn(len(reply))]
		case 12:
			name, reply = "garbage", vh.Bytes(g, g.Intn(100))
		case 13:
			name, reply = "changed", append([]byte(nil), reply...)
			reply[g.Intn(len(reply))] ^= 1 << uint(g.Intn(8))
		case 14:
			name, reply = "longer than the buffer", vh.Bytes(g, 2049+g.Intn(1500))
		case 15:
			name, reply = "n itself", der(n, n)
		default:
			name, rc = "failure", deviceErrors[g.Intn(len(deviceErrors))]
		}
	}
	yubisim.SetSig(k.id, reply, rc)
	c.Seen("reply", name)
	c.Count("signatures", 1)
	before := yubisim.Logged()
	given := h
	var sig *seth.Signature
	var err error
	if !c.Guard("sign-panics", func() { sig, err = sg(&h) }) {
		c.Sample("reply %q: panic", name)
		return
	}
	if h != given {
		c.Fail("sign-digest-changed", "signing changes the digest")
	}
	asked := 0
	for _, e := range yubisim.Events(before) {
		if e.Op != yubisim.Sign {
			continue
		}
		asked++
		if e.ID != k.id || e.Len != 32 || !bytes.Equal(e.Data, h[:]) || e.Session != w.session || !e.Authed {
			c.Fail("sign-request", "key %d digest %x: the module was asked for %+v (session %d)", k.id, h[:], e, w.session)
		}
	}
	if asked == 0 {
		c.Fail("sign-unasked", "the module was not asked to sign")
	}
	if err != nil {
		if honest {
			c.Fail("sign-refused", "a correct reply is refused: %v", err)
		}
		return
	}
	if sig == nil {
		c.Fail("sign-nil", "no signature and no error (reply %q)", name)
		return
	}
	gr, gs := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:64])
	half := new(big.Int).Rsh(ref.N, 1)
	p := ref.Point{X: new(big.Int).SetBytes(k.pub[:32]), Y: new(big.Int).SetBytes(k.pub[32:])}
	if gr.Sign() == 0 || gs.Sign() == 0 || gr.Cmp(ref.N) >= 0 || gs.Cmp(half) > 0 || sig[64] > 1 || !ref.Verify(p, h[:], gr, gs) {
		c.Fail("sign-invalid", "key %d, digest %x, reply %q: signature %x is not a canonical signature of it by the key", k.id, h[:], name, sig[:])
		return
	}
	q, ok := ref.Recover(h[:], gr, gs, uint(sig[64]))
	if !ok || !q.Eq(p) {
		c.Fail("sign-recovers", "key %d, digest %x, reply %q: signature %x recovers to another key", k.id, h[:], name, sig[:])
	}
	if honest {
		c.Count("signatures_verified", 1)
	}
}

func TestProperty(t *testing.T) {
	r := vh.Start("C34", "runtime-monitored")
	r.Rule("Unlock fails exactly if the module does not authenticate; a locked module gives neither keys nor signers; the keys listed are exactly the usable secp256k1 keys with their own public keys, also after failures; a signer asks the module once for exactly the digest with exactly the key, in the authenticated session, and returns a low-s signature that verifies (reference ECDSA) and recovers to the key, or an error; sessions are released exactly once and never used after (AddressSanitizer); package yubihsm passes arguments, objects and error codes unchanged.")
	r.Assume("The vendor library and the module are a stand-in that keeps the library's calling contract (argument checks, buffer lengths, ownership); the cryptography of the session is the vendor's and not judged.")

	// Histories of unlocking, listing and signing.
	r.Cases("histories", r.Scale(700, 12000), 1, func(c *vh.Case) {
		g := c.Rng
		yubisim.Reset()
		w := &world{c: c, g: g, pass: vh.Bytes(g, 1+g.Intn(40))}
		yubisim.Password(w.pass)
		w.want = module(g)
		w.hsm = seth.FindHSM("yubihsm")
		if w.hsm == nil {
			c.Fail("not-found", "the module is not found")
			return
		}
		live := yubisim.Live()
		steps := 3 + g.Intn(12)
		for i := 0; i < steps && !c.Failed(); i++ {
			switch k := g.Intn(10); {
			case i == 0 && g.Intn(4) != 0, k == 0:
				w.unlock(4)
			case k == 1:
				w.unlock(g.Intn(4))
			case k < 5:
				w.list()
			default:
				w.sign()
			}
			c.Eval(1)
		}
		// only the session in use is left (others of earlier cases may have
		// been released meanwhile)
		if n := yubisim.Live() - live; w.unlocked && n > 1 || !w.unlocked && n > 0 {
			c.Fail("sessions-left", "%d sessions of this module are left, unlocked %v", n, w.unlocked)
		}
		c.Cell(len(w.want), steps, w.unlocked)
	})

	// Which module is found.
	r.Cases("probe", r.Scale(60, 600), 1, func(c *vh.Case) {
		g := c.Rng
		yubisim.Reset()
		var hints []string
		want := url
		for i := g.Intn(4); i > 0; i-- {
			switch g.Intn(3) {
			case 0:
				hints = append(hints, "slot=3")
			case 1:
				want = fmt.Sprintf("http://10.0.0.%d:%d", g.Intn(256), 1+g.Intn(65535))
				hints = append(hints, want)
			default:
				want = fmt.Sprintf("https://hsm%d.example/", g.Intn(100))
				hints = append(hints, want)
			}
		}
		n := 0
		for _, h := range hints {
			if strings.HasPrefix(h, "http") {
				n++
			}
		}
		op, fail := yubisim.Connect, g.Intn(3) == 0
		if g.Intn(2) == 0 {
			op = yubisim.InitConnector
		}
		if fail {
			yubisim.Fail(op, 0, 1, deviceErrors[g.Intn(len(deviceErrors))])
		}
		h := seth.FindHSM("yubihsm", hints...)
		if fail != (h == nil) {
			c.Fail("probe-result", "connecting fails: %v, module found: %v", fail, h != nil)
		}
		for _, e := range yubisim.Events(0) {
			if e.Op != yubisim.InitConnector && e.Op != yubisim.Connect {
				continue // a finalizer's, of an earlier case
			}
			ok := string(e.Data) == want
			if n > 1 { // which of several is taken is not specified
				ok = false
				for _, h := range hints {
					ok = ok || string(e.Data) == h && strings.HasPrefix(h, "http")
				}
			}
			if !ok {
				c.Fail("probe-url", "hints %q: connects to %q", hints, e.Data)
			}
		}
		c.Cell("probe", len(hints), n, fail, op)
		c.Eval(1)
	})

	api(r)
	cli(r)
	gc(r)

	r.Finish()
}

// gc: sessions are released by the time nobody can use them, and not before.
func gc(r *vh.Run) {
	r.Cases("lifetime", r.Scale(25, 300), 1, func(c *vh.Case) {
		g := c.Rng
		yubisim.Reset()
		pass := vh.Bytes(g, 8)
		yubisim.Password(pass)
		k := newKey(g, 1+g.Intn(1000))
		o := &yubisim.Object{ID: k.id, Type: int(yubihsm.TypeAsymmetric), Algo: int(yubihsm.AlgoECK256), Pub: k.pub[:], PubAlgo: int(yubihsm.AlgoECK256)}
		o.Caps[7] = 1 << 7
		yubisim.Add(o)
		var h seth.Hash
		g.Read(h[:])
		rr, ss := sign(g, k.d, h[:], false)
		yubisim.SetSig(k.id, der(rr, ss), 0)
		op := []int{yubisim.Sign, yubisim.Pubkey, yubisim.List, yubisim.Auth, yubisim.Info, yubisim.Generate}[c.Index%6]
		yubisim.Delay(op, 30000)
		stop := make(chan bool)
		done := make(chan bool)
		collections := 0
		go func() {
			defer close(done)
			for {
				select {
				case <-stop:
					return
				default:
				}
				if yubisim.Busy() > 0 {
					runtime.GC()
					collections++
				}
				time.Sleep(200 * time.Microsecond)
			}
		}()
		err := lastUse(op, pass, k, &h)
		close(stop)
		<-done
		yubisim.Delay(op, 0)
		if err != nil {
			c.Fail("released-early", "operation %d in the last use of a session: %v", op, err)
		}
		c.Count("collections_during_calls", collections)
		c.Cell("lifetime", op, collections > 0)
		c.Eval(1)
	})
	// every session of this process is out of use now
	yubisim.Reset()
	deadline := time.Now().Add(20 * time.Second)
	for yubisim.Live() > yubisim.Created()/10+1 && time.Now().Before(deadline) {
		runtime.GC()
		time.Sleep(10 * time.Millisecond)
	}
	c := r.NewCase("released", 0)
	if yubisim.Live() > yubisim.Created()/10+1 {
		c.Fail("never-released", "%d of %d sessions are never released", yubisim.Live(), yubisim.Created())
	}
	r.Count("sessions_created", yubisim.Created())
	r.Count("sessions_left", yubisim.Live())
}

// lastUse makes one call on a session that nothing refers to afterwards.
//
//go:noinline
func lastUse(op int, pass []byte, k *key, h *seth.Hash) error {
	if op == yubisim.Sign {
		sg := func() seth.Signer {
			m := seth.FindHSM("yubihsm")
			if err := m.Unlock(pass); err != nil {
				panic(err)
			}
			pks, err := m.Pubkeys()
			if err != nil {
				panic(err)
			}
			s, err := m.Signer(&pks[0])
			if err != nil {
				panic(err)
			}
			return s
		}()
		_, err := sg(h)
		return err
	}
	conn, err := yubihsm.Connect(url)
	if err != nil {
		return err
	}
	ctx := new(yubihsm.Context)
	s, err := conn.NewDerivedSession(1, pass, false, ctx)
	if err != nil {
		return err
	}
	if op == yubisim.Auth {
		return s.Authenticate(ctx)
	}
	if err := s.Authenticate(ctx); err != nil {
		return err
	}
	switch op {
	case yubisim.Pubkey:
		_, err = s.GetPublicKey(k.id)
	case yubisim.List:
		_, err = s.ListObjects(nil)
	case yubisim.Info:
		_, err = s.GetObject(k.id, yubihsm.TypeAsymmetric)
	case yubisim.Generate:
		_, err = s.GenerateECKey("x", 1, new(yubihsm.Capabilities), yubihsm.AlgoECK256)
	}
	return err
}
