// C20: rates, conversion and arithmetic of amounts.
package c20

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"testing"

	"github.com/philhofer/seth/cc"

	"vharness/vh"
)

var curs []cc.Currency

func init() {
	curs = []cc.Currency{cc.EUR, cc.BTC, cc.ETH, cc.ZEC, cc.EDG, cc.SNGLS, cc.GUP, cc.DICE, cc.OST}
	for d := 0; d <= 30; d++ {
		curs = append(curs, cc.NewCurrency(fmt.Sprintf("VH%d", d), d))
	}
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

// scale is 10^n as a rational.
func scale(n int) *big.Rat {
	if n >= 0 {
		return new(big.Rat).SetInt(pow10(n))
	}
	return new(big.Rat).SetFrac(big.NewInt(1), pow10(-n))
}

func num(g *rand.Rand) *big.Int {
	var v *big.Int
	switch g.Intn(6) {
	case 0:
		v = big.NewInt(int64(g.Intn(10)))
	case 1:
		v = pow10(g.Intn(40))
		v.Add(v, big.NewInt(int64(g.Intn(3)-1)))
	case 2:
		v = vh.Big(g, 64)
	default:
		v = vh.Big(g, 1+g.Intn(200))
	}
	if g.Intn(3) == 0 {
		v.Neg(v)
	}
	return v
}

func raw(r *cc.Rate) *big.Int { return (*big.Int)(r) }

func rate(g *rand.Rand) *cc.Rate {
	v := num(g)
	switch g.Intn(4) {
	case 0:
		v = new(big.Int).Mul(vh.Big(g, 1+g.Intn(20)), pow10(g.Intn(9)))
	case 1:
		v = big.NewInt(int64(1 + g.Intn(100)))
	}
	return (*cc.Rate)(v)
}

var one = new(big.Rat).SetInt64(1)

// within reports |a-b| < d (or <=, if incl).
func within(a, b, d *big.Rat, incl bool) bool {
	x := new(big.Rat).Sub(a, b)
	c := x.Abs(x).Cmp(d)
	return c < 0 || incl && c == 0
}

func ratOf(v *big.Int) *big.Rat { return new(big.Rat).SetInt(v) }

func TestProperty(t *testing.T) {
	r := vh.Start("C20", "exploration")
	r.Rule("a case is a generated operation on generated amounts and rates, compared with exact rationals; distinct by operation, decimals and magnitude")
	r.Assume("the direction of rounding is not documented: results within one unit of the exact value, and exact when it is representable, are accepted")
	defer r.Finish()
	unit := scale(-cc.RateDigits)

	r.Cases("newrate", r.Scale(60000, 1500000), 0, func(c *vh.Case) {
		g := c.Rng
		var f float64
		switch g.Intn(6) {
		case 0:
			f = float64(g.Intn(2000)-1000) / 100
		case 1: // decimals that binary fractions do not represent
			f = float64(g.Int63n(1e14)) / 1e8
		case 2:
			f = g.NormFloat64() * math.Pow(10, float64(g.Intn(40)-20))
		case 3:
			f = math.Float64frombits(g.Uint64())
		case 4:
			f = (float64(g.Intn(1000)) + 0.5) / 256 / 1e5
		default:
			f = float64(g.Int63n(1<<53)) * math.Pow(2, float64(g.Intn(60)-50))
		}
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1
		}
		if g.Intn(2) == 0 {
			f = -f
		}
		var x *cc.Rate
		if !c.Guard("panic", func() { x = cc.NewRate(f) }) {
			return
		}
		r.Eval(1)
		exact := new(big.Rat).SetFloat64(f)
		got := new(big.Rat).Mul(ratOf(raw(x)), unit)
		if !within(got, exact, new(big.Rat).Mul(unit, big.NewRat(1, 2)), true) {
			c.Fail("nearest", "NewRate(%v) = %s, which is not the nearest rate", f, x)
		}
		// the float nearest to the stored rate
		want, _ := got.Float64()
		if ff := x.Float(); ff != want && !(math.IsInf(want, 0) && ff == want) {
			c.Fail("float", "rate %s as a float is %v, want %v", x, ff, want)
		}
		r.Cell("newrate", int(math.Log2(math.Abs(f)+1e-300))/3, f < 0)
	})

	r.Cases("rates", r.Scale(40000, 1000000), 0, func(c *vh.Case) {
		g := c.Rng
		x := rate(g)
		v := new(big.Int).Set(raw(x))
		if x.Sign() != v.Sign() {
			c.Fail("sign", "rate %s has sign %d", v, x.Sign())
		}
		// text and JSON round trips into used destinations
		s := x.String()
		if p, err := cc.ParseRate(s); err != nil || raw(p).Cmp(v) != 0 {
			c.Fail("text", "rate %s units prints as %q, which parses as %v (%v)", v, s, p, err)
		}
		if want := new(big.Rat).Mul(ratOf(v), unit).FloatString(cc.RateDigits); s != want {
			c.Fail("print", "rate %s units prints as %q, want %q", v, s, want)
		}
		y := rate(g)
		if _, err := fmt.Sscan(s, y); err != nil || raw(y).Cmp(v) != 0 {
			c.Fail("scan", "rate %q scans as %s (%v)", s, y, err)
		}
		wantf, _ := new(big.Rat).Mul(ratOf(v), unit).Float64()
		if f := x.Float(); f != wantf {
			c.Fail("float", "rate %s as a float is %v, want %v", s, f, wantf)
		}
		for _, text := range []string{".5", "5.", "7", "-.25", "0", "3.00000001"} {
			e, _ := new(big.Rat).SetString("0" + text)
			if text[0] == '-' {
				e, _ = new(big.Rat).SetString("-0" + text[1:])
			}
			e.Mul(e, scale(cc.RateDigits))
			for i, y := range []*cc.Rate{rate(g), rate(g), rate(g)} {
				var err error
				switch i {
				case 0:
					_, err = fmt.Sscan(text, y)
				case 1:
					err = y.UnmarshalJSON([]byte(text))
				default:
					y, err = cc.ParseRate(text)
				}
				if err == nil && (!e.IsInt() || raw(y).Cmp(e.Num()) != 0) {
					c.Fail("text", "%q is read as rate %s", text, y)
				}
			}
		}
		js, err := json.Marshal(x)
		y = rate(g)
		if err != nil {
			c.Fail("json", "rate %s: %v", s, err)
		} else if err := json.Unmarshal(js, y); err != nil || raw(y).Cmp(v) != 0 {
			c.Fail("json", "rate %s as JSON %s decodes to %s (%v)", s, js, y, err)
		}
		y = rate(g)
		if err := json.Unmarshal([]byte(`"`+s+`"`), y); err != nil || raw(y).Cmp(v) != 0 {
			c.Fail("json", "rate %q as a JSON string decodes to %s (%v)", s, y, err)
		}
		if raw(x).Cmp(v) != 0 {
			c.Fail("operand", "printing changed a rate")
		}
		// inverse
		var inv *cc.Rate
		if !c.Guard("panic", func() { inv = x.Inverse() }) {
			return
		}
		if v.Sign() == 0 {
			if inv.Sign() != 0 {
				c.Fail("inverse", "inverse of zero is %s", inv)
			}
		} else {
			exact := new(big.Rat).Inv(new(big.Rat).Mul(ratOf(v), unit))
			got := new(big.Rat).Mul(ratOf(raw(inv)), unit)
			if !within(got, exact, unit, false) {
				c.Fail("inverse", "inverse of %s is %s, exactly %s", s, inv, exact.FloatString(20))
			}
		}
		if raw(x).Cmp(v) != 0 {
			c.Fail("operand", "Inverse changed the rate from %s to %s", v, raw(x))
		}
		// malformed
		bad := []string{"", "-", ".", "1..2", "+1", "1e5", "0x10", "1_0", "1.-5", "1.+5", "1.000000001", "abc", "1 2", "\"", "null1", "--1", "1.2.3", "\"1", "1\""}
		b := bad[g.Intn(len(bad))]
		if p, err := cc.ParseRate(b); err == nil || p != nil {
			c.Fail("malformed", "ParseRate(%q) = %v, %v", b, p, err)
		}
		y = rate(g)
		yv := new(big.Int).Set(raw(y))
		c.Guard("panic", func() {
			if err := y.UnmarshalJSON([]byte(b)); err == nil {
				c.Fail("malformed", "UnmarshalJSON(%q) gave %s", b, y)
			}
		})
		if raw(y).Cmp(yv) != 0 {
			c.Fail("destination", "a failed UnmarshalJSON(%q) changed the rate", b)
		}
		r.Eval(1)
		r.Cell("rate", v.BitLen()/4, v.Sign(), b)
	})

	convert := func(c *vh.Case, what string, got *cc.Amount, from *big.Int, fd int, to cc.Currency, x *big.Rat, tol *big.Rat) {
		if got.Currency != to {
			c.Fail("currency", "%s: result is in %s, want %s", what, got.Currency, to)
			return
		}
		exact := new(big.Rat).Mul(ratOf(from), x)
		exact.Mul(exact, scale(to.Digits()-fd))
		g := ratOf(&got.Amount)
		if tol == nil {
			if !within(g, exact, one, false) {
				c.Fail("convert", "%s: %s units, exactly %s", what, &got.Amount, exact.FloatString(10))
			}
			return
		}
		e := new(big.Rat).Mul(ratOf(new(big.Int).Abs(from)), tol)
		e.Mul(e, scale(to.Digits()-fd))
		e.Add(e, one)
		if !within(g, exact, e, false) {
			c.Fail("convert", "%s: %s units, exactly %s", what, &got.Amount, exact.FloatString(10))
		}
	}

	r.Cases("convert", r.Scale(60000, 1500000), 0, func(c *vh.Case) {
		g := c.Rng
		from, to := curs[g.Intn(len(curs))], curs[g.Intn(len(curs))]
		a := &cc.Amount{Currency: from, Amount: *num(g)}
		x := rate(g)
		av, xv := new(big.Int).Set(&a.Amount), new(big.Int).Set(raw(x))
		rr := new(big.Rat).Mul(ratOf(xv), unit)
		what := fmt.Sprintf("%s units of %s (%d decimals) to %s (%d) at %s", av, from, from.Digits(), to, to.Digits(), x)
		intact := func(w string) {
			if a.Amount.Cmp(av) != 0 || a.Currency != from {
				c.Fail("operand", "%s changed its amount (%s)", w, what)
			}
			if raw(x).Cmp(xv) != 0 {
				c.Fail("operand", "%s changed its rate (%s)", w, what)
			}
		}
		c.Guard("panic", func() {
			convert(c, what, cc.Convert(a, to, x), av, from.Digits(), to, rr, nil)
		})
		intact("Convert")
		c.Guard("panic", func() {
			// what is done with the result does not reach the amount
			x, to := x, to
			if g.Intn(3) == 0 {
				x, to = cc.NewRate(1), from
			}
			res := cc.Convert(a, to, x)
			res.Neg().Add(&cc.Amount{Currency: to, Amount: *big.NewInt(1)})
			for i := range res.Amount.Bits() {
				res.Amount.Bits()[i] ^= 0x55
			}
		})
		intact("changing the result of Convert")
		if from != to {
			p := &cc.Pair{From: from, To: to, Rate: *x}
			c.Guard("panic", func() {
				convert(c, "Pair.Convert "+what, p.Convert(a), av, from.Digits(), to, rr, nil)
			})
			intact("Pair.Convert")
			if xv.Sign() != 0 {
				// the other way, at the inverse rate
				b := &cc.Amount{Currency: to, Amount: *av}
				c.Guard("panic", func() {
					convert(c, "Pair.Convert back "+what, p.Convert(b), av, to.Digits(), from, new(big.Rat).Inv(rr), unit)
				})
				if b.Amount.Cmp(av) != 0 {
					c.Fail("operand", "Pair.Convert changed its amount")
				}
				inv := p.Inverse()
				if inv.From != to || inv.To != from || raw(&inv.Rate).Cmp(raw(x.Inverse())) != 0 {
					c.Fail("pair inverse", "the inverse of %s is %s", p, inv)
				}
			}
			if p.From != from || p.To != to || raw(&p.Rate).Cmp(xv) != 0 {
				c.Fail("operand", "Pair operations changed the pair")
			}
			// a third currency is refused
			third := curs[g.Intn(len(curs))]
			if third != from && third != to {
				b := &cc.Amount{Currency: third, Amount: *av}
				var res *cc.Amount
				if val, _ := vh.Panics(func() { res = p.Convert(b) }); val == nil {
					c.Fail("mismatch", "pair %s converted an amount of %s to %s", p, third, res)
				}
			}
			// text round trip into a used destination
			s := p.String()
			q := &cc.Pair{From: curs[g.Intn(len(curs))], To: curs[g.Intn(len(curs))], Rate: *rate(g)}
			err := q.FromString(s)
			if err != nil || q.From != from || q.To != to || raw(&q.Rate).Cmp(xv) != 0 {
				c.Fail("pair text", "pair %q parses as %s (%v)", s, q, err)
			}
			js, err := json.Marshal(p)
			var q2 cc.Pair
			if err != nil || json.Unmarshal(js, &q2) != nil || q2.From != from || q2.To != to || raw(&q2.Rate).Cmp(xv) != 0 {
				c.Fail("pair json", "pair %q as JSON is %s (%v), which decodes to %s", s, js, err, &q2)
			}
			bad := []string{"", " /", "1 ETH", "1 ETH/", "1 /ETH", "x ETH/USD", "1 ETH/NOSUCH", "1 NOSUCH/ETH", "ETH/USD 1", "1.000000001 ETH/USD", "/ 1"}
			bs := bad[g.Intn(len(bad))]
			before := q.String()
			c.Guard("panic", func() {
				if err := q.FromString(bs); err == nil {
					c.Fail("pair malformed", "pair %q parses as %s", bs, q)
				} else if q.String() != before {
					c.Fail("destination", "a failed parse of pair %q changed the destination from %s to %s", bs, before, q)
				}
			})
		}
		r.Eval(1)
		r.Cell("convert", from.Digits(), to.Digits(), xv.Sign(), av.Sign())
	})

	r.Cases("arith", r.Scale(60000, 1500000), 0, func(c *vh.Case) {
		g := c.Rng
		ca := curs[g.Intn(len(curs))]
		cb := ca
		if g.Intn(4) == 0 {
			cb = curs[g.Intn(len(curs))]
		}
		a, b := &cc.Amount{Currency: ca, Amount: *num(g)}, &cc.Amount{Currency: cb, Amount: *num(g)}
		blank := g.Intn(8) == 0
		if blank {
			a = new(cc.Amount) // uninitialised: adopts the first operand's currency
			if g.Intn(3) == 0 {
				a.Amount.Set(vh.Big(g, 90)) // of no currency, and not nothing
			}
		}
		self := g.Intn(10) == 0
		if self {
			b, cb = a, a.Currency
		}
		av, bv := new(big.Int).Set(&a.Amount), new(big.Int).Set(&b.Amount)
		cur := a.Currency
		op := g.Intn(6)
		names := []string{"Add", "Sub", "Cmp", "Neg", "Copy", "Sign"}
		mismatch := cur != cb && op < 3 && !(blank && av.Sign() == 0 && op < 2)
		var res *cc.Amount
		cmp := 0
		val, stack := vh.Panics(func() {
			switch op {
			case 0:
				res = a.Add(b)
			case 1:
				res = a.Sub(b)
			case 2:
				cmp = a.Cmp(b)
			case 3:
				res = a.Neg()
			case 4:
				res = a.Copy()
			case 5:
				cmp = a.Sign()
			}
		})
		what := fmt.Sprintf("%s of %s %s and %s %s", names[op], av, cur, bv, cb)
		r.Eval(1)
		if mismatch {
			if val == nil {
				c.Fail("mismatch", "%s was computed", what)
			}
			if a.Amount.Cmp(av) != 0 || b.Amount.Cmp(bv) != 0 {
				c.Fail("operand", "%s was refused and changed an operand", what)
			}
			r.Cell("mismatch", names[op])
			return
		}
		if val != nil {
			c.Fail("panic", "%s: %v\n%s", what, val, stack)
			return
		}
		want := new(big.Int).Set(av)
		wcur := cur
		switch op {
		case 0:
			want.Add(av, bv)
			wcur = cb
		case 1:
			want.Sub(av, bv)
			wcur = cb
		case 2:
			if cmp != av.Cmp(bv) {
				c.Fail("cmp", "%s = %d", what, cmp)
			}
		case 3:
			want.Neg(av)
		case 5:
			if cmp != av.Sign() {
				c.Fail("sign", "%s = %d", what, cmp)
			}
		}
		if op < 2 || op == 3 {
			if res != a {
				c.Fail("receiver", "%s did not return its receiver", what)
			}
		}
		if res != nil && (res.Amount.Cmp(want) != 0 || res.Currency != wcur) {
			c.Fail("result", "%s = %s %s", what, &res.Amount, res.Currency)
		}
		if b != a && (b.Amount.Cmp(bv) != 0 || b.Currency != cb) {
			c.Fail("operand", "%s changed its operand", what)
		}
		// later changes to the result must not reach the operands
		if res != nil && b != a {
			res.Amount.Add(&res.Amount, big.NewInt(1))
			for _, w := range res.Amount.Bits() {
				_ = w
			}
			bits := res.Amount.Bits()
			for i := range bits {
				bits[i] ^= 0x55
			}
			if b.Amount.Cmp(bv) != 0 {
				c.Fail("aliasing", "%s: the result shares memory with the operand", what)
			}
			if op == 4 && a.Amount.Cmp(av) != 0 {
				c.Fail("aliasing", "%s: the copy shares memory with the original", what)
			}
		}
		r.Cell("arith", names[op], blank, self, av.BitLen()/16, bv.BitLen()/16)
	})
	if one := raw(cc.One); one.Cmp(pow10(8)) != 0 {
		r.NewCase("one", 0).Fail("one", "One is %s after all operations", one)
	}
}
