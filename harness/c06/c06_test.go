// C06: keyfiles.
package c06

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"hash"
	"math/big"
	"strings"
	"testing"

	"github.com/philhofer/seth"
	"golang.org/x/crypto/pbkdf2"
	"golang.org/x/crypto/scrypt"

	"vharness/ref"
	"vharness/vh"
)

// kf is an independent model of the version 3 format.
type kf struct {
	kdf            string
	n, r, p, c     int
	prf            string
	dklen          int
	salt, iv       []byte
	ct, mac        []byte
	address        string
	extra          map[string]interface{}
	key            []byte
	pass           []byte
	hexUpper       bool
	paramsOverride map[string]interface{}
	ivOverride     interface{}
}

var prfs = map[string]func() hash.Hash{
	"hmac-sha1": sha1.New, "hmac-sha224": sha256.New224, "hmac-sha256": sha256.New, "hmac-sha384": sha512.New384, "hmac-sha512": sha512.New,
}
var prfNames = []string{"hmac-sha256", "hmac-sha512", "hmac-sha384", "hmac-sha224", "hmac-sha1"}

func (k *kf) derive(pass []byte) []byte {
	if k.kdf == "pbkdf2" {
		return pbkdf2.Key(pass, k.salt, k.c, k.dklen, prfs[k.prf])
	}
	dk, err := scrypt.Key(pass, k.salt, k.n, k.r, k.p, k.dklen)
	if err != nil {
		panic(err)
	}
	return dk
}

func (k *kf) seal() {
	dk := k.derive(k.pass)
	blk, _ := aes.NewCipher(dk[:16])
	k.ct = make([]byte, len(k.key))
	cipher.NewCTR(blk, k.iv).XORKeyStream(k.ct, k.key)
	k.mac = ref.Keccak(append(append([]byte{}, dk[16:32]...), k.ct...), 32)
}

func (k *kf) json() []byte {
	hx := hex.EncodeToString
	if k.hexUpper {
		hx = func(b []byte) string { return strings.ToUpper(hex.EncodeToString(b)) }
	}
	params := map[string]interface{}{"dklen": k.dklen, "salt": hx(k.salt)}
	if k.kdf == "pbkdf2" {
		params["c"], params["prf"] = k.c, k.prf
	} else {
		params["n"], params["r"], params["p"] = k.n, k.r, k.p
	}
	for n, v := range k.paramsOverride {
		params[n] = v
	}
	var cp interface{} = map[string]interface{}{"iv": hx(k.iv)}
	if k.ivOverride != nil {
		cp = k.ivOverride
	}
	m := map[string]interface{}{
		"version": 3, "id": "3198bc9c-6672-5ab3-d995-4942343ae5b6",
		"crypto": map[string]interface{}{
			"cipher": "aes-128-ctr", "cipherparams": cp, "ciphertext": hx(k.ct),
			"kdf": k.kdf, "kdfparams": params, "mac": hx(k.mac),
		},
	}
	if k.address != "" {
		m["address"] = k.address
	}
	for n, v := range k.extra {
		m[n] = v
	}
	b, _ := json.Marshal(m)
	return b
}

func priv(c *vh.Case) []byte {
	d := vh.Big(c.Rng, 256)
	d.Mod(d, ref.N)
	if d.Sign() == 0 {
		d.SetInt64(9)
	}
	b := make([]byte, 32)
	d.FillBytes(b)
	return b
}

func password(c *vh.Case) []byte {
	switch c.Rng.Intn(5) {
	case 0:
		return []byte("p")
	case 1:
		return []byte("пароль-密码-" + fmt.Sprint(c.Rng.Intn(1000)))
	case 2: // around the HMAC block size
		return append(vh.Bytes(c.Rng, 60+c.Rng.Intn(80)), 1)
	default:
		return append(vh.Bytes(c.Rng, c.Rng.Intn(30)), byte(1+c.Rng.Intn(255)))
	}
}

func make1(c *vh.Case) *kf {
	k := &kf{key: priv(c), pass: password(c), salt: vh.Bytes(c.Rng, 8+c.Rng.Intn(40)), iv: vh.Bytes(c.Rng, 16), dklen: 32}
	if c.Rng.Intn(8) == 0 {
		k.dklen = []int{33, 48, 64, 128}[c.Rng.Intn(4)]
	}
	if c.Rng.Intn(8) == 0 { // counter overflow in the cipher
		for i := range k.iv {
			k.iv[i] = 0xff
		}
	}
	if c.Rng.Intn(2) == 0 {
		k.kdf = "pbkdf2"
		k.c = 1 + c.Rng.Intn(20)
		k.prf = prfNames[c.Rng.Intn(len(prfNames))]
	} else {
		k.kdf = "scrypt"
		k.n, k.r, k.p = 2<<uint(c.Rng.Intn(5)), 1+c.Rng.Intn(8), 1+c.Rng.Intn(3)
	}
	if c.Rng.Intn(2) == 0 {
		k.address = hex.EncodeToString(seth.NewPrivateKey(new(big.Int).SetBytes(k.key)).Address()[:])
		if c.Rng.Intn(3) == 0 {
			k.address = strings.ToUpper(k.address)
		}
	}
	k.hexUpper = c.Rng.Intn(4) == 0
	k.seal()
	return k
}

func open(js, pass []byte) (*seth.PrivateKey, error) {
	f := new(seth.Keyfile)
	if err := json.Unmarshal(js, f); err != nil {
		return nil, err
	}
	return f.Private(pass)
}

func TestProperty(t *testing.T) {
	r := vh.Start("C06", "exploration")
	r.Rule("a case is a keyfile made by an independent writer (or by the library) with a password, then one corruption of it; distinct by the kind of corruption and KDF; a corruption that leaves the file equivalent is not counted")
	r.Assume("x/crypto's scrypt and pbkdf2 and crypto/aes are right; passwords that HMAC itself identifies (zero padding) count as the same password")
	defer r.Finish()

	r.Cases("open", r.Scale(4000, 100000), 0, func(c *vh.Case) {
		k := make1(c)
		js := k.json()
		f := new(seth.Keyfile)
		if err := json.Unmarshal(js, f); err != nil {
			c.Fail("json", "keyfile %s does not parse: %v", js, err)
			return
		}
		got, err := f.Private(k.pass)
		c.Eval(1)
		if err != nil || !bytes.Equal(got[:], k.key) {
			c.Fail("open", "standard keyfile %s with password %q: %v, %v, want key %x", js, k.pass, got, err, k.key)
			return
		}
		// opening it again, and after a trip through JSON
		if got, err = f.Private(k.pass); err != nil || !bytes.Equal(got[:], k.key) {
			c.Fail("reopen", "second opening of %s: %v %v", js, got, err)
		}
		js2, err := json.Marshal(f)
		if err != nil {
			c.Fail("json", "keyfile does not marshal: %v", err)
		} else if got, err = open(js2, k.pass); err != nil || !bytes.Equal(got[:], k.key) {
			c.Fail("json", "keyfile re-marshalled from %s to %s: %v %v", js, js2, got, err)
		}
		c.Eval(2)
		c.Cell("open", k.kdf, k.prf, k.n, k.r, k.p, k.c, k.dklen, len(k.pass), k.address != "")
		c.Sample("%s password %q -> ok", js, k.pass)
		// wrong passwords
		for i := 0; i < 3; i++ {
			w := append([]byte{}, k.pass...)
			switch c.Rng.Intn(4) {
			case 0:
				w[c.Rng.Intn(len(w))] ^= 1 << uint(c.Rng.Intn(8))
			case 1:
				w = w[:len(w)-1]
			case 2:
				w = append(w, byte(1+c.Rng.Intn(255)))
			case 3:
				w = password(c)
			}
			if bytes.Equal(bytes.TrimRight(w, "\x00"), bytes.TrimRight(k.pass, "\x00")) {
				continue
			}
			got, err := f.Private(w)
			c.Eval(1)
			c.Count("wrong_passwords", 1)
			if err == nil || got != nil {
				c.Fail("wrong-password", "keyfile %s opens with %q instead of %q: %v %v", js, w, k.pass, got, err)
			}
		}
	})

	r.Cases("tamper", r.Scale(8000, 200000), 0, func(c *vh.Case) {
		k := make1(c)
		flip := func(b []byte) { b[c.Rng.Intn(len(b))] ^= 1 << uint(c.Rng.Intn(8)) }
		kind := ""
		switch c.Rng.Intn(10) {
		case 0:
			flip(k.ct)
			kind = "ciphertext"
		case 1:
			flip(k.mac)
			kind = "mac"
		case 2:
			flip(k.salt)
			kind = "salt"
		case 3:
			k.ct, kind = k.ct[:len(k.ct)-1-c.Rng.Intn(len(k.ct))], "ciphertext-short"
		case 4:
			k.ct, kind = append(k.ct, vh.Bytes(c.Rng, 1+c.Rng.Intn(3))...), "ciphertext-long"
		case 5:
			if c.Rng.Intn(2) == 0 {
				k.mac = k.mac[:c.Rng.Intn(32)]
			} else {
				k.mac = append(k.mac, 0)
			}
			kind = "mac-length"
		case 6:
			k.salt, kind = append(k.salt, byte(1+c.Rng.Intn(255))), "salt-long"
		case 7:
			if k.kdf == "pbkdf2" {
				k.c, kind = k.c+1+c.Rng.Intn(3), "c"
			} else {
				k.n, kind = k.n*2, "n"
			}
		case 8:
			if k.kdf == "pbkdf2" {
				p := prfNames[c.Rng.Intn(len(prfNames))]
				if p == k.prf {
					return
				}
				k.prf, kind = p, "prf"
			} else if c.Rng.Intn(2) == 0 {
				k.r, kind = k.r+1, "r"
			} else {
				k.p, kind = k.p+1, "p"
			}
		case 9: // not protected by the MAC, only by the address
			if k.address == "" {
				return
			}
			if c.Rng.Intn(2) == 0 {
				flip(k.iv)
				kind = "iv"
			} else {
				b, _ := hex.DecodeString(k.address)
				kind = "address"
				switch c.Rng.Intn(4) {
				case 0:
					b, kind = b[:1+c.Rng.Intn(19)], "address-short"
				case 1:
					b, kind = append(b, vh.Bytes(c.Rng, 1+c.Rng.Intn(12))...), "address-long"
				case 2:
					b, kind = append(make([]byte, 12), b...), "address-padded"
				default:
					flip(b)
				}
				k.address = hex.EncodeToString(b)
			}
		}
		js := k.json()
		got, err := open(js, k.pass)
		c.Eval(1)
		c.Count("tampered", 1)
		c.Seen("tamper_kinds", k.kdf+"/"+kind)
		c.Cell("tamper", kind, string(js))
		if err == nil || got != nil {
			c.Fail("tamper-"+kind, "keyfile with changed %s opens: %s: %v %v (key %x)", kind, js, got, err, k.key)
		}
	})

	// malformed but self-consistent where possible (the MAC is right), so
	// that parsing gets as far as it can
	nums := []interface{}{0, -1, 1, 15, 16, 17, 31, -32, 1 << 30, int64(1) << 40, int64(1) << 50, int64(1)<<62 + 1, "32", nil, 1.5, 1e300, []int{1}}
	r.Cases("malformed", r.Scale(6000, 150000), 0, func(c *vh.Case) {
		k := make1(c)
		kind := ""
		mayOpen := false
		switch c.Rng.Intn(9) {
		case 0: // wrong-size key under a right MAC
			k.key = vh.Bytes(c.Rng, []int{0, 1, 16, 31, 33, 48, 64}[c.Rng.Intn(7)])
			k.address = ""
			k.seal()
			kind = "keysize"
		case 1:
			iv := vh.Bytes(c.Rng, []int{0, 1, 8, 12, 15, 17, 32}[c.Rng.Intn(7)])
			k.ivOverride = map[string]interface{}{"iv": hex.EncodeToString(iv)}
			kind = "ivsize"
		case 2:
			k.ivOverride = []interface{}{map[string]interface{}{}, nil, "x", 3, []int{}, map[string]interface{}{"iv": 7}, map[string]interface{}{"iv": "zz"}}[c.Rng.Intn(7)]
			if k.ivOverride == nil {
				k.ivOverride = json.RawMessage("null")
			}
			kind = "cipherparams"
		case 3, 4, 5:
			name := []string{"dklen", "c"}[c.Rng.Intn(2)]
			if k.kdf == "scrypt" {
				name = []string{"dklen", "n", "r", "p"}[c.Rng.Intn(4)]
			}
			v := nums[c.Rng.Intn(len(nums))]
			if name == "c" && fmt.Sprint(v) == fmt.Sprint(1<<30) || fmt.Sprint(v) == fmt.Sprint(int64(1)<<40) && name == "c" || name == "c" && fmt.Sprint(v)[0] > '1' {
				return // a valid but endless derivation
			}
			if name == "c" {
				switch v.(type) {
				case int64:
					return
				case int:
					if v.(int) > 100 {
						return
					}
					mayOpen = v.(int) == k.c
				}
			}
			if name == "n" || name == "r" || name == "p" {
				mayOpen = fmt.Sprint(v) == fmt.Sprint(map[string]int{"n": k.n, "r": k.r, "p": k.p}[name])
			}
			k.paramsOverride = map[string]interface{}{name: v}
			kind = fmt.Sprintf("%s=%v", name, v)
		case 6:
			k.paramsOverride = map[string]interface{}{"salt": []interface{}{"zz", 5, "abc", nil}[c.Rng.Intn(4)]}
			kind = "salt"
		case 7:
			js := k.json()
			i := c.Rng.Intn(len(js))
			js = append(append([]byte{}, js[:i]...), js[i+1+c.Rng.Intn(len(js)-i):]...)
			c.Guard("malformed-panic", func() {
				got, err := open(js, k.pass)
				if err == nil && !bytes.Equal(got[:], k.key) {
					c.Fail("malformed-key", "damaged keyfile %s gives a wrong key %x", js, got[:])
				}
			})
			c.Eval(1)
			return
		case 8:
			k.extra = map[string]interface{}{"crypto": []interface{}{nil, 3, map[string]interface{}{}, map[string]interface{}{"kdf": "scrypt"}, map[string]interface{}{"kdf": "pbkdf2", "kdfparams": nil}, map[string]interface{}{"kdf": "none"}}[c.Rng.Intn(6)]}
			kind = "crypto"
		}
		js := k.json()
		c.Seen("malformed_kinds", kind)
		c.Cell("malformed", kind, k.kdf)
		c.Count("malformed", 1)
		c.Guard("malformed-panic", func() {
			got, err := open(js, k.pass)
			c.Eval(1)
			if err == nil && (!mayOpen || !bytes.Equal(got[:], k.key)) {
				c.Fail("malformed-"+strings.SplitN(kind, "=", 2)[0], "malformed keyfile (%s) %s opens as %x", kind, js, got[:])
			}
		})
	})

	// keyfiles written by the library (full-cost scrypt)
	r.Cases("save", r.Scale(10, 100), 6, func(c *vh.Case) {
		key, pass := priv(c), password(c)
		p := seth.NewPrivateKey(new(big.Int).SetBytes(key))
		f := p.ToKeyfile("some name", pass)
		f2 := p.ToKeyfile("some name", pass)
		if f.Crypto.Ciphertext == f2.Crypto.Ciphertext || bytes.Equal(f.Crypto.KDFParams, f2.Crypto.KDFParams) || bytes.Equal(f.Crypto.CipherParams, f2.Crypto.CipherParams) || f.ID == f2.ID {
			c.Fail("save-fresh", "two keyfiles of one key share salt, iv or id: %+v %+v", f, f2)
		}
		js, err := json.Marshal(f)
		if err != nil {
			c.Fail("save-json", "%v", err)
			return
		}
		if bytes.Contains(bytes.ToLower(js), []byte(hex.EncodeToString(key))) {
			c.Fail("save-leak", "keyfile contains the key")
		}
		if got, err := f.Private(pass); err != nil || !bytes.Equal(got[:], key) {
			c.Fail("save", "saved key %x does not open: %v %v", key, got, err)
		}
		if got, err := open(js, pass); err != nil || !bytes.Equal(got[:], key) {
			c.Fail("save", "saved key %x does not open through JSON: %v %v", key, got, err)
		}
		if got, err := f.Private(append(pass, 'x')); err == nil {
			c.Fail("save-wrong-password", "saved key opens with another password: %v", got)
		}
		// independent reader
		var m struct {
			Version int
			Name    string
			Crypto  struct {
				Cipher, Ciphertext, KDF, MAC string
				CipherParams                 struct{ IV string }
				KDFParams                    struct {
					N, R, P, DKLen int
					Salt           string
				}
			}
		}
		if err := json.Unmarshal(js, &m); err != nil || m.Version != 3 || m.Crypto.Cipher != "aes-128-ctr" || m.Crypto.KDF != "scrypt" || m.Name != "some name" {
			c.Fail("save-format", "saved keyfile is not in the standard format: %s (%v)", js, err)
			return
		}
		hx := func(s string) []byte { b, _ := hex.DecodeString(s); return b }
		dk, err := scrypt.Key(pass, hx(m.Crypto.KDFParams.Salt), m.Crypto.KDFParams.N, m.Crypto.KDFParams.R, m.Crypto.KDFParams.P, m.Crypto.KDFParams.DKLen)
		ct := hx(m.Crypto.Ciphertext)
		if err != nil || len(dk) < 32 || !bytes.Equal(ref.Keccak(append(append([]byte{}, dk[16:32]...), ct...), 32), hx(m.Crypto.MAC)) {
			c.Fail("save-format", "independent reader rejects %s", js)
			return
		}
		blk, _ := aes.NewCipher(dk[:16])
		pt := make([]byte, len(ct))
		cipher.NewCTR(blk, hx(m.Crypto.CipherParams.IV)).XORKeyStream(pt, ct)
		if !bytes.Equal(pt, key) {
			c.Fail("save-format", "independent reader gets %x, key is %x", pt, key)
		}
		c.Eval(6)
		c.Count("library_keyfiles", 1)
		c.Cell("save", c.Index)
	})
}
