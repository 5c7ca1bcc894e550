package ref

import "math/big"

// Affine secp256k1 arithmetic with math/big. Infinity is (0, 0).
var (
	P, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F", 16)
	N, _  = new(big.Int).SetString("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141", 16)
	Gx, _ = new(big.Int).SetString("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798", 16)
	Gy, _ = new(big.Int).SetString("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8", 16)
)

type Point struct{ X, Y *big.Int }

func Inf() Point  { return Point{new(big.Int), new(big.Int)} }
func Base() Point { return Point{new(big.Int).Set(Gx), new(big.Int).Set(Gy)} }

func (p Point) IsInf() bool { return p.X.Sign() == 0 && p.Y.Sign() == 0 }
func (p Point) Eq(q Point) bool {
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}
func (p Point) Copy() Point { return Point{new(big.Int).Set(p.X), new(big.Int).Set(p.Y)} }

func OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Mul(x, x)
	r.Mul(r, x)
	r.Add(r, big.NewInt(7))
	l.Sub(l, r)
	return l.Mod(l, P).Sign() == 0
}

func Neg(p Point) Point {
	if p.IsInf() {
		return Inf()
	}
	y := new(big.Int).Sub(P, p.Y)
	y.Mod(y, P)
	return Point{new(big.Int).Set(p.X), y}
}

func Add(p, q Point) Point {
	if p.IsInf() {
		return q.Copy()
	}
	if q.IsInf() {
		return p.Copy()
	}
	var m *big.Int
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if s.Mod(s, P).Sign() == 0 {
			return Inf()
		}
		m = new(big.Int).Mul(p.X, p.X)
		m.Mul(m, big.NewInt(3))
		d := new(big.Int).Lsh(p.Y, 1)
		m.Mul(m, d.ModInverse(d.Mod(d, P), P))
	} else {
		m = new(big.Int).Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		m.Mul(m, d.ModInverse(d.Mod(d, P), P))
	}
	m.Mod(m, P)
	x := new(big.Int).Mul(m, m)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	x.Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, m)
	y.Sub(y, p.Y)
	y.Mod(y, P)
	return Point{x, y}
}

// Mul returns k*p by double-and-add; k may be any non-negative integer.
func Mul(p Point, k *big.Int) Point {
	k = new(big.Int).Mod(k, N)
	r := Inf()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

// Lift returns the point with abscissa x and the given parity of y.
func Lift(x *big.Int, odd uint) (Point, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Point{}, false
	}
	y2 := new(big.Int).Mul(x, x)
	y2.Mul(y2, x)
	y2.Add(y2, big.NewInt(7))
	y2.Mod(y2, P)
	y := new(big.Int).ModSqrt(y2, P)
	if y == nil {
		return Point{}, false
	}
	if y.Bit(0) != odd&1 {
		y.Sub(P, y)
	}
	return Point{new(big.Int).Set(x), y}, true
}

// LiftY returns a point with ordinate y, when one exists.
func LiftY(y *big.Int) (Point, bool) {
	if y.Sign() <= 0 || y.Cmp(P) >= 0 {
		return Point{}, false
	}
	c := new(big.Int).Mul(y, y)
	c.Sub(c, big.NewInt(7))
	c.Mod(c, P)
	// p = 7 mod 9: a cube root of a cubic residue c is c^((p+2)/9)
	e := new(big.Int).Add(P, big.NewInt(2))
	e.Div(e, big.NewInt(9))
	x := new(big.Int).Exp(c, e, P)
	if !OnCurve(x, y) {
		return Point{}, false
	}
	return Point{x, new(big.Int).Set(y)}, true
}

// Recover is textbook public key recovery for recovery ids 0 and 1; ok is
// false when there is no valid key.
func Recover(hash []byte, r, s *big.Int, v uint) (Point, bool) {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return Point{}, false
	}
	R, ok := Lift(r, v)
	if !ok {
		return Point{}, false
	}
	ri := new(big.Int).ModInverse(r, N)
	e := new(big.Int).SetBytes(hash)
	u1 := new(big.Int).Mul(e, ri)
	u1.Neg(u1).Mod(u1, N)
	u2 := new(big.Int).Mul(s, ri)
	u2.Mod(u2, N)
	q := Add(Mul(Base(), u1), Mul(R, u2))
	return q, !q.IsInf()
}

// Verify is textbook ECDSA verification.
func Verify(q Point, hash []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	e := new(big.Int).SetBytes(hash)
	u1 := new(big.Int).Mul(e, w)
	u1.Mod(u1, N)
	u2 := new(big.Int).Mul(r, w)
	u2.Mod(u2, N)
	p := Add(Mul(Base(), u1), Mul(q, u2))
	if p.IsInf() {
		return false
	}
	x := new(big.Int).Mod(p.X, N)
	return x.Cmp(r) == 0
}
