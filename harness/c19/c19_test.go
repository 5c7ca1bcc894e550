// C19: parsing and printing of currency amounts and rates.
package c19

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"strings"
	"testing"

	"github.com/philhofer/seth"
	"github.com/philhofer/seth/cc"

	"vharness/vh"
)

type cur struct {
	c    cc.Currency
	name string
	d    int
	addr string
}

// The registry as documented in the package: name, decimals, token address.
var table = strings.Fields(`
EUR/8 GBP/8 USD/8 BTC/8 ETH/18 ZEC/9
AION/8/0x4CEdA7906a5Ed2179785Cd3A40A69ee8bc99C466 AIR/8/0x27dce1ec4d3f72c3e457cc50354f1f975ddef488
ANT/18/0x960b236a07cf122663c4303350609a66a7b288c0 BAT/18/0x0d8775f648430679a709e98d2b0cb6250d2887ef
BNT/18/0x1f573d6fb3f13d689ff844b4ce37794d79a7ff1c DGD/9/0xe0b7927c4af23765cb51314a0e0521a9645f0e2a
DICE/16/0x2e071d2966aa7d8decb1005885ba1977d6038a65 EDG/0/0x08711d3b02c8758f2fb3ab4e80228418a7f8e39c
EOS/18/0x86fa049857e0209aa7d9e616f7eb3b3b78ecfdb0 FUN/8/0xbbb1bd2d741f05e144e6c4517676a15554fd4b8d
GNO/18/0x6810e776880c02933d47db1b9fc05908e5386b96 GNT/18/0xa74476443119a942de498590fe1f2454d7d4ac0d
GOOD/6/0xae616e72d3d89e847f74e8ace41ca68bbf56af79 GUP/3/0xf7b098298f7c69fc14610bf71d5e02c60792894c
HODL/8/0xb4b7d0c65b3618bc8706ab7b3719519ead624067 ICN/18/0x888666ca69e0f178ded6d75b5726cee99a87d698
MKR/18/0xc66ea802717bfb9833400264dd12c2bceaa34a6d MLN/18/0xbeb9ef514a379b997e0798fdcc901ee474b6d9a1
OMG/18/0xd26114cd6ee289accf82350c8d8487fedb8a0c07 1ST/18/0xaf30d2a7e90d7dc361c8c4585e9bb7d2f6f15bc7
PLBT/6/0x0affa06e7fbe5bc9a764c979aa66e8256a631f02 QTUM/18/0x9a642d6b3368ddc662CA244bAdf32cDA716005BC
REP/18/0x48c80f1f4d53d5951e5d5438b54cba84f29f32a5 RLC/9/0x607f4c5bb672230e8672085532f7e901544a7375
SNGLS/0/0xaec2e87e0a235266d9c5adc9deb4b2e29b54d009 SNT/18/0x744d70fdbe2ba4cf95131626614a1763df805b9e
TKN/8/0xaaaf91d9b90df800df4f55c205fd6989c977e73a UET/18/0x27f706edde3ad952ef647dd67e24e38cd0803dd6
🦄/0/0x89205a3a3b2a69de6dbf7f01ed13b2108b2c43e7 VEROS/5/0xedbaf3c5100302dcdda53269322f3730b1f0416d
WINGS/18/0x667088b212ce3d06a1b553a7221e1fd19000d9af XAUR/8/0x4df812f6064def1e5e029f1ca858777cc98d2d81
ZRX/18/0xe41d2489571d322189246dafa5ebde1f4699f498`)

var curs []cur

func init() {
	for _, l := range table {
		f := strings.Split(l, "/")
		k := cur{name: f[0], c: cc.Currency(f[0])}
		fmt.Sscan(f[1], &k.d)
		if len(f) > 2 {
			k.addr = f[2]
		}
		curs = append(curs, k)
	}
	for d := 0; d <= 40; d++ {
		n := fmt.Sprintf("VH%d", d)
		curs = append(curs, cur{name: n, c: cc.NewCurrency(n, d), d: d})
	}
}

func pow10(n int) *big.Int {
	return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil)
}

// canonical is the decimal text of v units with d decimals.
func canonical(v *big.Int, d int) string {
	abs := new(big.Int).Abs(v)
	q, m := new(big.Int).QuoRem(abs, pow10(d), new(big.Int))
	s := q.String()
	if d > 0 {
		f := m.String()
		s += "." + strings.Repeat("0", d-len(f)) + f
	}
	if v.Sign() < 0 {
		s = "-" + s
	}
	return s
}

func value(g *rand.Rand, d int) *big.Int {
	var v *big.Int
	switch g.Intn(6) {
	case 0:
		v = big.NewInt(int64(g.Intn(12)))
	case 1:
		v = pow10(g.Intn(d + 30))
		v.Add(v, big.NewInt(int64(g.Intn(3)-1)))
	case 2:
		v = vh.Big(g, 64)
	case 3:
		v = vh.Big(g, 1+g.Intn(400))
	case 4:
		v = new(big.Int).Mul(vh.Big(g, 1+g.Intn(80)), pow10(d))
	default:
		v = vh.Big(g, 1+g.Intn(d*3+8))
	}
	if g.Intn(3) == 0 {
		v.Neg(v)
	}
	return v
}

// write renders v in one of the texts that denote it.
func write(g *rand.Rand, v *big.Int, d int) string {
	s := canonical(v, d)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	if i := strings.IndexByte(s, '.'); i >= 0 {
		ip, fp := s[:i], s[i+1:]
		if g.Intn(2) == 0 {
			fp = strings.TrimRight(fp, "0")
		}
		switch {
		case fp == "" && g.Intn(2) == 0:
			s = ip
		case ip == "0" && fp != "" && g.Intn(3) == 0:
			s = "." + fp
		default:
			s = ip + "." + fp
		}
	}
	if s[0] != '.' && g.Intn(4) == 0 {
		s = strings.Repeat("0", 1+g.Intn(4)) + s
	}
	if neg {
		s = "-" + s
	}
	return s
}

func bad(g *rand.Rand, d int) (string, string) {
	digits := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('0' + g.Intn(10))
		}
		return string(b)
	}
	a, b := digits(1+g.Intn(25)), ""
	if d > 0 {
		b = digits(1 + g.Intn(d))
	}
	junk := "eExX_,+-/:abcdef"
	j := string(junk[g.Intn(len(junk))])
	switch g.Intn(10) {
	case 0:
		return "", "empty"
	case 1:
		return []string{"-", ".", "-."}[g.Intn(3)], "no digit"
	case 2:
		return a + "." + digits(d+1+g.Intn(5)), "too many fractional digits"
	case 3:
		return a + "." + strings.Repeat("0", d+1+g.Intn(3)), "too many fractional zeros"
	case 4:
		return a + "." + b + "." + digits(1+g.Intn(3)), "two points"
	case 5:
		return "+" + a, "plus sign"
	case 6:
		return "--" + a, "two signs"
	case 7:
		i := g.Intn(len(a))
		return a[:i+1] + j + a[i+1:] + "1", "junk in the integer part"
	case 8:
		i := g.Intn(len(b) + 1)
		return a + "." + b[:i] + j + b[i:] + "1", "junk in the fractional part"
	default:
		return a + "." + []string{"+", "-"}[g.Intn(2)] + b, "signed fraction"
	}
}

func same(a *cc.Amount, v *big.Int, c cc.Currency) bool {
	return a.Currency == c && a.Amount.Cmp(v) == 0
}

func TestProperty(t *testing.T) {
	r := vh.Start("C19", "exploration")
	r.Rule("a case is a generated amount, one of its texts, a currency and the previous contents of the destination, or a malformed text; distinct by currency decimals, length class and form")
	r.Assume("decimal numbers of the package's registered currencies and of registered currencies with 0 to 40 decimals whose names hold no white space")
	defer r.Finish()

	r.Cases("registry", len(curs), 1, func(c *vh.Case) {
		k := curs[c.Index]
		if !k.c.Exists() || k.c.Name() != k.name || k.c.Digits() != k.d {
			c.Fail("registry", "%s has %d digits, want %d", k.name, k.c.Digits(), k.d)
		}
		if got, ok := cc.CurrencyByName(k.name); !ok || got != k.c {
			c.Fail("byname", "CurrencyByName(%q) = %q, %v", k.name, got, ok)
		}
		if k.c.Token() != (k.addr != "") {
			c.Fail("token", "%s Token() = %v", k.name, k.c.Token())
		}
		if k.addr != "" {
			var a seth.Address
			if err := a.FromString(k.addr); err != nil {
				r.HarnessError("address %s: %v", k.addr, err)
			}
			if p := k.c.Addr(); p == nil || *p != a {
				c.Fail("addr", "%s has address %v, want %s", k.name, p, k.addr)
			}
			if got, ok := cc.TokenByAddress(&a); !ok || got != k.c {
				c.Fail("byaddr", "TokenByAddress(%s) = %q, %v, want %s", k.addr, got, ok, k.name)
			}
		}
		r.Cell("registry", k.name)
		r.Eval(1)
	})

	prior := func(g *rand.Rand) *cc.Amount {
		k := curs[g.Intn(len(curs))]
		return &cc.Amount{Currency: k.c, Amount: *value(g, k.d)}
	}

	// text -> integer -> text over every entry point, into used destinations
	r.Cases("roundtrip", r.Scale(60000, 1500000), 0, func(c *vh.Case) {
		g := c.Rng
		k := curs[g.Intn(len(curs))]
		v := value(g, k.d)
		num := write(g, v, k.d)
		txt := num + " " + k.name
		want := canonical(v, k.d) + " " + k.name
		dst := prior(g)
		var err error
		mode := g.Intn(7)
		names := []string{"ParseAmount(method)", "ParseAmount", "UnmarshalText", "Unmarshal JSON", "Sscan", "Sscanf", "JSON struct"}
		c.Guard("panic", func() {
			switch mode {
			case 0:
				dst, err = k.c.ParseAmount(num)
			case 1:
				dst, err = cc.ParseAmount(txt)
			case 2:
				err = dst.UnmarshalText([]byte(txt))
			case 3:
				b, _ := json.Marshal(txt)
				err = json.Unmarshal(b, dst)
			case 4:
				_, err = fmt.Sscan(txt, dst)
			case 5:
				_, err = fmt.Sscanf("x "+txt+" y", "x %v y", dst)
			case 6:
				type T struct{ A *cc.Amount }
				b, _ := json.Marshal(map[string]string{"A": txt})
				tt := &T{dst}
				err = json.Unmarshal(b, tt)
				dst = tt.A
			}
		})
		r.Eval(1)
		if err != nil {
			c.Fail("refused", "%s of %q: %v", names[mode], txt, err)
			return
		}
		if !same(dst, v, k.c) {
			c.Fail("value", "%s of %q stored %s %s, want %s", names[mode], txt, &dst.Amount, dst.Currency, v)
			return
		}
		if s := dst.String(); s != want {
			c.Fail("print", "%s units of %s (%d decimals) print as %q, want %q", v, k.name, k.d, s, want)
		}
		if b, err := dst.MarshalText(); err != nil || string(b) != want {
			c.Fail("marshal", "%s units of %s marshal as %q (%v), want %q", v, k.name, b, err, want)
		}
		js, err := json.Marshal(dst)
		var back string
		if err != nil || json.Unmarshal(js, &back) != nil || back != want {
			c.Fail("json", "%s units of %s: JSON %s (%v), want %q", v, k.name, js, err, want)
		}
		if !same(dst, v, k.c) {
			c.Fail("printing changed", "printing changed %s units of %s", v, k.name)
		}
		r.Cell(names[mode], k.d, len(num)/4, strings.IndexByte(num, '.') >= 0, v.Sign())
	})

	r.Cases("refused", r.Scale(60000, 1500000), 0, func(c *vh.Case) {
		g := c.Rng
		k := curs[g.Intn(len(curs))]
		num, why := bad(g, k.d)
		name := k.name
		if num != "" && g.Intn(5) == 0 {
			num, why = write(g, value(g, k.d), k.d), "unknown currency"
			name = []string{"", "XYZZY", strings.ToLower(k.name) + "x", k.name + "x"}[g.Intn(4)]
		}
		txt := num + " " + name
		trail := g.Intn(8) == 0
		if trail {
			num, name, why = write(g, value(g, k.d), k.d), k.name, "more after the amount"
			txt = num + " " + name + []string{" x", " 0", " " + k.name, " 1 " + k.name, " .", ", x", "\n1 " + k.name, "\nx", "\nx\n", "\n \nx\n\n"}[g.Intn(10)]
		}
		dst := prior(g)
		ov, oc := new(big.Int).Set(&dst.Amount), dst.Currency
		ptr := dst
		var err error
		mode := g.Intn(5)
		if trail && mode == 4 {
			mode = 3 // a scan leaves the rest to others
		}
		if (trail || why == "unknown currency") && mode == 0 {
			mode = 1
		}
		names := []string{"ParseAmount(method)", "ParseAmount", "UnmarshalText", "Unmarshal JSON", "Sscan"}
		c.Guard("panic", func() {
			var a *cc.Amount
			switch mode {
			case 0:
				a, err = k.c.ParseAmount(num)
			case 1:
				a, err = cc.ParseAmount(txt)
			case 2:
				err = dst.UnmarshalText([]byte(txt))
			case 3:
				b, _ := json.Marshal(txt)
				err = json.Unmarshal(b, dst)
			case 4:
				_, err = fmt.Sscan(txt, dst)
			}
			if err != nil && a != nil {
				c.Fail("value and error", "%s of %q returned both an amount and an error", names[mode], txt)
			}
		})
		r.Eval(1)
		if err == nil {
			c.Fail("accepted", "%s of %q (%s, %d decimals) succeeded", names[mode], txt, why, k.d)
		}
		if !same(ptr, ov, oc) {
			c.Fail("destination", "%s of %q failed (%v) and changed the destination from %s units of %s to %s units of %s", names[mode], txt, err, ov, oc, &ptr.Amount, ptr.Currency)
		}
		r.Cell("bad", names[mode], why, k.d)
	})
}
