package c34

import (
	"bytes"
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/philhofer/seth/yubihsm"

	"vharness/vh"
	"vharness/yubisim"
)

var algos = []yubihsm.Algorithm{yubihsm.AlgoRSA2048, yubihsm.AlgoECP256, yubihsm.AlgoECK256, yubihsm.AlgoHMACSHA256,
	yubihsm.AlgoOpaqueData, yubihsm.AlgoED25519, yubihsm.AlgoAES256CCMWrap, yubihsm.AlgoECP224}

var types = []yubihsm.ObjectType{yubihsm.TypeOpaque, yubihsm.TypeAuthKey, yubihsm.TypeAsymmetric, yubihsm.TypeWrapKey,
	yubihsm.TypeHMACKey, yubihsm.TypeTemplate, yubihsm.TypeOTPAEADKey}

// capNames are the vendor's names of the capability bits.
var capNames = strings.Fields(`get_opaque put_opaque put_authkey put_asymmetric asymmetric_gen asymmetric_sign_pkcs
	asymmetric_sign_pss asymmetric_sign_ecdsa asymmetric_sign_eddsa asymmetric_decrypt_pkcs asymmetric_decrypt_oaep
	asymmetric_decrypt_ecdh export_wrapped import_wrapped put_wrapkey generate_wrapkey export_under_wrap put_option
	get_option get_randomness put_hmackey hmackey_generate hmac_data hmac_verify audit ssh_certify get_template
	put_template reset otp_decrypt otp_aead_create otp_aead_random otp_aead_rewrap_from otp_aead_rewrap_to attest
	put_otp_aead_key generate_otp_aead_key wrap_data unwrap_data delete_opaque delete_authkey delete_asymmetric
	delete_wrap_key delete_hmac_key delete_template delete_otp_aead_key`)

func names(caps [8]byte) string {
	var out []string
	for i, n := range capNames {
		if caps[7-i/8]>>uint(i%8)&1 != 0 {
			out = append(out, n)
		}
	}
	return strings.Join(out, ",")
}

func randObject(g *rand.Rand, id int) *yubisim.Object {
	o := &yubisim.Object{ID: id, Type: int(types[g.Intn(len(types))]), Algo: int(algos[g.Intn(len(algos))]),
		Len: g.Intn(65536), Domains: g.Intn(65536), Sequence: g.Intn(256), Origin: g.Intn(256)}
	for i := 2; i < 8; i++ {
		o.Caps[i], o.Delegated[i] = byte(g.Intn(256)), byte(g.Intn(256))
	}
	// only named capabilities
	o.Caps[2] &= 0x3f
	o.Delegated[2] &= 0x3f
	n := g.Intn(41)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(1 + g.Intn(255))
	}
	o.Label = string(b)
	if g.Intn(3) == 0 {
		o.Label = []string{"", "main", "backup"}[g.Intn(3)]
	}
	return o
}

func matches(o *yubisim.Object, f *yubihsm.Filter, capBits [8]byte) bool {
	if f == nil {
		return true
	}
	if f.ID != 0 && f.ID != o.ID || f.Type != 0 && int(f.Type) != o.Type || f.Algorithm != 0 && int(f.Algorithm) != o.Algo ||
		f.Domains != 0 && f.Domains&o.Domains == 0 || f.Label != "" && f.Label != o.Label {
		return false
	}
	want, has := false, false
	for i := range capBits {
		want = want || capBits[i] != 0
		has = has || capBits[i]&o.Caps[i] != 0
	}
	return !want || has
}

func sameObject(o *yubihsm.Object, w *yubisim.Object) string {
	got := fmt.Sprint(o.ID, o.Length, o.Domains, int(o.Type), int(o.Algorithm), o.Sequence, o.Origin, o.Label,
		"|", o.Capabilities.String(), "|", o.DelegatedCapabilities.String())
	want := fmt.Sprint(w.ID, w.Len, w.Domains, w.Type, w.Algo, byte(w.Sequence), byte(w.Origin), w.Label,
		"|", names(w.Caps), "|", names(w.Delegated))
	if got != want {
		return fmt.Sprintf("object is %q, the module's is %q", got, want)
	}
	return ""
}

// api checks package yubihsm by itself.
func api(r *vh.Run) {
	r.Cases("api", r.Scale(250, 5000), 1, func(c *vh.Case) {
		g := c.Rng
		yubisim.Reset()
		secret := vh.Bytes(g, 32)
		yubisim.Password(secret)
		conn, err := yubihsm.Connect(url)
		if err != nil {
			c.Fail("connect", "Connect: %v", err)
			return
		}
		defer conn.Disconnect()
		ctx := new(yubihsm.Context)
		var s *yubihsm.Session
		if g.Intn(2) == 0 {
			s, err = conn.NewDerivedSession(1+g.Intn(9), secret, false, ctx)
		} else {
			s, err = conn.NewSession(1+g.Intn(9), secret[:16], secret[16:], false, ctx)
		}
		if err != nil {
			c.Fail("session", "session with the right secret: %v", err)
			return
		}
		live := yubisim.Live()
		defer func() {
			if err := s.Destroy(); err != nil {
				c.Fail("destroy", "Destroy: %v", err)
			}
			if n := yubisim.Live(); n >= live {
				c.Fail("destroy-keeps", "%d sessions before Destroy, %d after", live, n)
			}
			s.Destroy() // "safe to call multiple times"
			if _, err := s.ListObjects(nil); err == nil {
				c.Fail("destroyed-usable", "a destroyed session lists objects")
			}
		}()
		if _, err := s.ListObjects(nil); err != yubihsm.ErrInvalidSession {
			c.Fail("unauthenticated", "ListObjects before Authenticate: %v", err)
		}
		if err := s.Authenticate(ctx); err != nil {
			c.Fail("authenticate", "Authenticate: %v", err)
			return
		}
		objs := map[int]*yubisim.Object{}
		for i := g.Intn(12); i > 0; i-- {
			id := 1 + g.Intn(0xffff)
			if objs[id] == nil {
				objs[id] = randObject(g, id)
				yubisim.Add(objs[id])
			}
		}
		var f *yubihsm.Filter
		var bits [8]byte
		if g.Intn(3) != 0 {
			f = new(yubihsm.Filter)
			ref := randObject(g, 1+g.Intn(0xffff))
			for _, o := range objs {
				if g.Intn(2) == 0 {
					ref = o
				}
			}
			if g.Intn(3) == 0 {
				f.ID = ref.ID
			}
			if g.Intn(3) == 0 {
				f.Type = yubihsm.ObjectType(ref.Type)
			}
			if g.Intn(3) == 0 {
				f.Algorithm = yubihsm.Algorithm(ref.Algo)
			}
			if g.Intn(3) == 0 {
				f.Label = ref.Label
			}
			if g.Intn(3) == 0 {
				f.Domains = yubihsm.Domains(1+g.Intn(16), 1+g.Intn(16))
			}
			if g.Intn(3) == 0 {
				i, j := g.Intn(len(capNames)), g.Intn(len(capNames))
				cs, err := yubihsm.CapabilitiesByName(capNames[i], capNames[j])
				if err != nil {
					c.Fail("capability-name", "%s: %v", capNames[i], err)
					return
				}
				f.Capabilities = *cs
				bits[7-i/8] |= 1 << uint(i%8)
				bits[7-j/8] |= 1 << uint(j%8)
				if cs.String() != names(bits) {
					c.Fail("capability-string", "capabilities %q print as %q", names(bits), cs.String())
				}
			}
		}
		got, err := s.ListObjects(f)
		if err != nil {
			c.Fail("list", "ListObjects: %v", err)
			return
		}
		var ids, want []int
		for _, o := range got {
			ids = append(ids, o.ID)
			if objs[o.ID] == nil {
				c.Fail("list-object", "object %d is not the module's", o.ID)
				return
			}
			if d := sameObject(o, objs[o.ID]); d != "" {
				c.Fail("list-object", "%s", d)
			}
		}
		for id, o := range objs {
			if matches(o, f, bits) {
				want = append(want, id)
			}
			for _, t := range types {
				got, err := s.GetObject(id, t)
				if int(t) != o.Type {
					if err != yubihsm.ErrObjectNotFound {
						c.Fail("object-type", "GetObject with another type: %v", err)
					}
					continue
				}
				if err != nil {
					c.Fail("object", "GetObject: %v", err)
				} else if d := sameObject(got, o); d != "" {
					c.Fail("object", "%s", d)
				}
			}
		}
		sort.Ints(ids)
		sort.Ints(want)
		if !reflect.DeepEqual(ids, want) {
			c.Fail("list-filter", "filter %+v lists %v, want %v", f, ids, want)
		}
		// every code of the library becomes the same code in Go
		for i := 1; i <= 29; i++ {
			yubisim.Fail(yubisim.Info, 0, 1, -i)
			_, err := s.GetObject(1, types[0])
			yubisim.Fail(yubisim.Info, 0, 0, 0)
			if i == 11 {
				if err != nil {
					c.Fail("code-ok", "device ok is an error: %v", err)
				}
			} else if rc, ok := err.(yubihsm.ReturnCode); !ok || int(rc) != -i || rc.Error() == "" {
				c.Fail("code", "code %d becomes %v", -i, err)
			}
		}
		// a new key
		cs, _ := yubihsm.CapabilitiesByName("asymmetric_sign_ecdsa")
		label := []string{"", "k", strings.Repeat("l", 40)}[g.Intn(3)]
		dom := 1 + g.Intn(0xffff)
		id, err := s.GenerateECKey(label, dom, cs, yubihsm.AlgoECK256)
		if err != nil {
			c.Fail("generate", "GenerateECKey: %v", err)
		} else if o, err := s.GetObject(id, yubihsm.TypeAsymmetric); err != nil {
			c.Fail("generate-object", "the new key %d: %v", id, err)
		} else if o.Label != label || o.Domains != dom || o.Algorithm != yubihsm.AlgoECK256 || o.Capabilities.String() != "asymmetric_sign_ecdsa" {
			c.Fail("generate-object", "the new key is %+v", o)
		}
		// plain messages
		req := vh.Bytes(g, []int{0, 1, 10, 200}[g.Intn(4)])
		rsp := vh.Bytes(g, g.Intn(60))
		room, used := g.Intn(80), 0
		if room > 0 {
			used = g.Intn(room + 1)
		}
		cmd := yubihsm.CmdEcho
		if len(req) == 0 {
			cmd = yubihsm.CmdGetDeviceInfo
		}
		yubisim.SetPlain(rsp, 0x81)
		before := yubisim.Logged()
		res := &yubihsm.Message{Data: make([]byte, used, room)}
		c.Guard("send-panics", func() { err = conn.Send(&yubihsm.Message{Command: cmd, Data: req}, res) })
		var ev []yubisim.Event
		for _, e := range yubisim.Events(before) {
			if e.Op == yubisim.Plain { // the rest is finalizers', of earlier cases
				ev = append(ev, e)
			}
		}
		switch {
		case c.Failed():
		case len(ev) != 1 || ev[0].ID != int(cmd) || !bytes.Equal(ev[0].Data, req):
			c.Fail("send-request", "message %x: the module was sent %+v", req, ev)
		case len(rsp) > room:
			if err == nil {
				c.Fail("send-room", "an answer of %d bytes fits in %d", len(rsp), room)
			}
		case err != nil:
			c.Fail("send", "Send: %v", err)
		case int(res.Command) != 0x81 || !bytes.Equal(res.Data, rsp):
			c.Fail("send-answer", "answer %x arrives as %+v", rsp, res)
		}
		di, err := conn.DeviceInfo()
		if err != nil || di.Major != 2 || di.Minor != 1 || di.Patch != 3 || di.Serial != 0xfedcba || di.LogTotal != 62 || di.LogUsed != 17 || len(di.Algorithms) == 0 {
			c.Fail("device-info", "DeviceInfo: %+v %v", di, err)
		} else {
			for _, a := range di.Algorithms {
				if n := a.String(); n == "<nil>" || yubihsm.AlgorithmByName(n) != a {
					c.Fail("algorithm-name", "algorithm %d is named %q, which names %d", a, n, yubihsm.AlgorithmByName(n))
				}
			}
		}
		for i, n := range capNames {
			if k := yubihsm.CapabilityByName(n); int(k) != i || k.String() != n {
				c.Fail("capability", "capability %s is %d and named %s", n, k, k)
			}
		}
		if _, err := yubihsm.CapabilitiesByName("asymmetric_sign_ecdsa", "no_such"); err == nil {
			c.Fail("capability-unknown", "an unknown capability has no error")
		}
		for _, t := range types {
			if yubihsm.TypeByName(t.String()) != t {
				c.Fail("type-name", "type %d is named %q, which names %d", t, t, yubihsm.TypeByName(t.String()))
			}
		}
		for _, o := range []yubihsm.Option{yubihsm.OptionForceAudit, yubihsm.OptionCommandAudit} {
			if yubihsm.OptionByName(o.String()) != o {
				c.Fail("option-name", "option %d is named %q", o, o)
			}
		}
		c.Cell("api", len(objs), f == nil, len(want), len(req), room >= len(rsp))
		c.Eval(1)
	})
}
