// Package ref is the reference model: plain, from the specifications, sharing
// no code with the repository under test (big-integer curve arithmetic, own
// Base58, own BIP-32/39 state transition functions).
package ref

import (
	"math/big"
	"sync"
	"sync/atomic"
)

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// Point is an affine point; Inf marks the point at infinity.
type Point struct {
	X, Y *big.Int
	Inf  bool
}

var Infinity = Point{Inf: true}
var G = Point{X: gx, Y: gy}

type jac struct{ x, y, z *big.Int } // z == 0 is infinity

func mod(v *big.Int) *big.Int { return v.Mod(v, P) }

func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }
func sub(a, b *big.Int) *big.Int { return mod(new(big.Int).Sub(a, b)) }
func sml(a *big.Int, k int64) *big.Int {
	return mod(new(big.Int).Mul(a, big.NewInt(k)))
}

func (a jac) double() jac {
	if a.z.Sign() == 0 || a.y.Sign() == 0 {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	yy := mul(a.y, a.y)
	s := sml(mul(a.x, yy), 4)
	m := sml(mul(a.x, a.x), 3)
	x := sub(mul(m, m), sml(s, 2))
	y := sub(mul(m, sub(s, x)), sml(mul(yy, yy), 8))
	z := sml(mul(a.y, a.z), 2)
	return jac{x, y, z}
}

// addAffine adds an affine (finite) point.
func (a jac) addAffine(b Point) jac {
	if a.z.Sign() == 0 {
		return jac{new(big.Int).Set(b.X), new(big.Int).Set(b.Y), big.NewInt(1)}
	}
	zz := mul(a.z, a.z)
	u := mul(b.X, zz)
	s := mul(b.Y, mul(zz, a.z))
	h := sub(u, a.x)
	r := sub(s, a.y)
	if h.Sign() == 0 {
		if r.Sign() == 0 {
			return a.double()
		}
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	hh := mul(h, h)
	hhh := mul(hh, h)
	v := mul(a.x, hh)
	x := sub(sub(mul(r, r), hhh), sml(v, 2))
	y := sub(mul(r, sub(v, x)), mul(a.y, hhh))
	return jac{x, y, mul(a.z, h)}
}

func (a jac) affine() Point {
	if a.z.Sign() == 0 {
		return Infinity
	}
	zi := new(big.Int).ModInverse(a.z, P)
	zz := mul(zi, zi)
	return Point{X: mul(a.x, zz), Y: mul(a.y, mul(zz, zi))}
}

func toJac(p Point) jac {
	if p.Inf {
		return jac{big.NewInt(1), big.NewInt(1), big.NewInt(0)}
	}
	return jac{p.X, p.Y, big.NewInt(1)}
}

// comb[i][j] = (j+1) * 2^(8i) * G
var comb [32][255]Point
var combOnce sync.Once
var slowCalls atomic.Int64

func initComb() {
	base := toJac(G)
	for i := 0; i < 32; i++ {
		b := base.affine()
		acc := make([]jac, 255)
		cur := toJac(b)
		for j := 0; j < 255; j++ {
			acc[j] = cur
			cur = cur.addAffine(b)
		}
		base = cur // 256 * b
		// batch inversion
		pre := make([]*big.Int, 255)
		run := big.NewInt(1)
		for j := range acc {
			pre[j] = run
			run = mul(run, acc[j].z)
		}
		inv := new(big.Int).ModInverse(run, P)
		for j := 254; j >= 0; j-- {
			zi := mul(inv, pre[j])
			inv = mul(inv, acc[j].z)
			zz := mul(zi, zi)
			comb[i][j] = Point{X: mul(acc[j].x, zz), Y: mul(acc[j].y, mul(zz, zi))}
		}
	}
}

func baseJac(k *big.Int) jac {
	b := Bytes32(new(big.Int).Mod(k, N))
	if slowCalls.Add(1) <= 24 { // short-lived processes: double and add
		acc := toJac(Infinity)
		for i := 0; i < 256; i++ {
			acc = acc.double()
			if b[i/8]&(0x80>>uint(i%8)) != 0 {
				acc = acc.addAffine(G)
			}
		}
		return acc
	}
	combOnce.Do(initComb)
	acc := toJac(Infinity)
	for i := 0; i < 32; i++ {
		d := b[31-i]
		if d != 0 {
			acc = acc.addAffine(comb[i][d-1])
		}
	}
	return acc
}

// BaseMult returns k*G.
func BaseMult(k *big.Int) Point { return baseJac(k).affine() }

// AddBase returns k*G + q.
func AddBase(k *big.Int, q Point) Point {
	j := baseJac(k)
	if q.Inf {
		return j.affine()
	}
	return j.addAffine(q).affine()
}

// Add returns a+b.
func Add(a, b Point) Point {
	if b.Inf {
		return a
	}
	return toJac(a).addAffine(b).affine()
}

// Neg returns -a.
func Neg(a Point) Point {
	if a.Inf {
		return a
	}
	return Point{X: a.X, Y: sub(big.NewInt(0), a.Y)}
}

// LiftX returns the point with abscissa x and the given ordinate parity.
func LiftX(x *big.Int, odd uint) (Point, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Point{}, false
	}
	w := mod(new(big.Int).Add(mul(mul(x, x), x), big.NewInt(7)))
	e := new(big.Int).Rsh(new(big.Int).Add(P, big.NewInt(1)), 2)
	y := new(big.Int).Exp(w, e, P)
	if mul(y, y).Cmp(w) != 0 {
		return Point{}, false
	}
	if y.Bit(0) != odd {
		y = sub(big.NewInt(0), y)
	}
	return Point{X: new(big.Int).Set(x), Y: y}, true
}

// LiftY returns a point with ordinate y, if there is one.
func LiftY(y *big.Int) (Point, bool) {
	w := sub(mul(y, y), big.NewInt(7))
	// cube root: p-1 = 3*q with q not divisible by 3, so a root of a cubic
	// residue w is w^((2q+1)/3)  or w^((q+2)/3) depending on q mod 3.
	q := new(big.Int).Div(new(big.Int).Sub(P, big.NewInt(1)), big.NewInt(3))
	for _, e3 := range []*big.Int{
		new(big.Int).Add(q, big.NewInt(1)),
		new(big.Int).Add(new(big.Int).Lsh(q, 1), big.NewInt(1)),
	} {
		e, r := new(big.Int).DivMod(e3, big.NewInt(3), new(big.Int))
		if r.Sign() != 0 {
			continue
		}
		x := new(big.Int).Exp(w, e, P)
		if mul(mul(x, x), x).Cmp(w) == 0 {
			return Point{X: x, Y: new(big.Int).Set(y)}, true
		}
	}
	return Point{}, false
}

// OnCurve tells whether a finite point satisfies the curve equation.
func OnCurve(p Point) bool {
	return !p.Inf && mul(p.Y, p.Y).Cmp(mod(new(big.Int).Add(mul(mul(p.X, p.X), p.X), big.NewInt(7)))) == 0
}

// Compress gives the 33-byte SEC1 form.
func Compress(p Point) [33]byte {
	var o [33]byte
	o[0] = 2 + byte(p.Y.Bit(0))
	b := Bytes32(p.X)
	copy(o[1:], b[:])
	return o
}

// Bytes32 left-pads to 32 bytes.
func Bytes32(v *big.Int) [32]byte {
	var o [32]byte
	v.FillBytes(o[:])
	return o
}
