package props

import (
	"math/big"

	"verif/harness/pbt"
)

// gz is an exact complex number, or none (nil re) after a division by zero.
type gz struct{ re, im *big.Rat }

func zr(r *big.Rat) gz  { return gz{r, new(big.Rat)} }
func (z gz) zero() bool { return z.re.Sign() == 0 && z.im.Sign() == 0 }
func (z gz) x() *X      { return xz(z.re, z.im) }
func radd(a, b *big.Rat) *big.Rat {
	return new(big.Rat).Add(a, b)
}
func rmul(a, b *big.Rat) *big.Rat { return new(big.Rat).Mul(a, b) }
func rneg(a *big.Rat) *big.Rat    { return new(big.Rat).Neg(a) }
func zadd(a, b gz) gz             { return gz{radd(a.re, b.re), radd(a.im, b.im)} }
func zneg(a gz) gz                { return gz{rneg(a.re), rneg(a.im)} }
func zmul(a, b gz) gz {
	return gz{radd(rmul(a.re, b.re), rneg(rmul(a.im, b.im))), radd(rmul(a.re, b.im), rmul(a.im, b.re))}
}
func zinv(a gz) gz {
	n := radd(rmul(a.re, a.re), rmul(a.im, a.im))
	n.Inv(n)
	return gz{rmul(a.re, n), rneg(rmul(a.im, n))}
}
func zpow(a gz, n int) gz {
	if n < 0 {
		return zpow(zinv(a), -n)
	}
	r := zr(big.NewRat(1, 1))
	for ; n > 0; n-- {
		r = zmul(r, a)
	}
	return r
}
func (z gz) bits() int {
	return z.re.Num().BitLen() + z.re.Denom().BitLen() + z.im.Num().BitLen() + z.im.Denom().BitLen()
}

func genZ(t *T, bits int) gz {
	switch t.W(4, 3, 3) {
	case 0:
		return zr(new(big.Rat).SetInt(t.Big(bits)))
	case 1:
		return zr(genRat(t, bits))
	}
	b := min(bits, pbt.Of(t, 5, 40, 90))
	return gz{genRat(t, b), genRat(t, b)}
}

// genLit writes a number in one of the ways it can be entered.
func genLit(t *T, z gz) *X {
	real := func(r *big.Rat) *X {
		k := xI(t.Big(8))
		if k.N.Sign() == 0 {
			k = xi(1)
		}
		n, d := new(big.Int).Mul(r.Num(), k.N), new(big.Int).Mul(r.Denom(), k.N)
		switch t.W(4, 2, 2, 1) {
		case 1: // unreduced, either sign
			if d.Sign() < 0 && r.IsInt() {
				break
			}
			return &X{K: 'r', N: n, D: d}
		case 2:
			return xE("Rational", xI(n), xI(d))
		case 3:
			return xE("Times", xI(n), xE("Power", xI(d), xi(-1)))
		}
		return xq(r)
	}
	if z.im.Sign() == 0 {
		return real(z.re)
	}
	switch t.W(3, 1, 1) {
	case 1:
		return xE("Complex", real(z.re), real(z.im))
	case 2:
		return xE("Plus", real(z.re), xE("Times", real(z.im), sys("I")))
	}
	return xc(xq(z.re), xq(z.im))
}

// genTree draws an arithmetic expression with its value; divisors are not zero.
func genTree(t *T, depth, bits int) (*X, gz) {
	if depth <= 0 || t.P(1, 6) {
		z := genZ(t, bits)
		return genLit(t, z), z
	}
	switch t.W(4, 4, 2, 2, 3, 1) {
	case 0:
		n := t.Int(2, 4)
		x, v := xE("Plus"), zr(new(big.Rat))
		for ; n > 0; n-- {
			y, w := genTree(t, depth-1, bits)
			x.P, v = append(x.P, y), zadd(v, w)
		}
		return x, v
	case 1:
		n := t.Int(2, 4)
		x, v := xE("Times"), zr(big.NewRat(1, 1))
		for ; n > 0; n-- {
			y, w := genTree(t, depth-1, bits)
			x.P, v = append(x.P, y), zmul(v, w)
		}
		return x, v
	case 2:
		y, w := genTree(t, depth-1, bits)
		z, u := genTree(t, depth-1, bits)
		return xE("Plus", y, xE("Times", xi(-1), z)), zadd(w, zneg(u))
	case 3:
		y, w := genTree(t, depth-1, bits)
		z, u := genTree(t, depth-1, bits)
		if u.zero() {
			z, u = xi(2), zr(big.NewRat(2, 1))
		}
		return pbt.Of(t, xE("Divide", y, z), xE("Times", y, xE("Power", z, xi(-1))), xE("Times", xE("Power", z, xi(-1)), y)), zmul(w, zinv(u))
	case 4:
		y, w := genTree(t, depth-1, min(bits, 40))
		n := t.Near(7)
		if w.bits() > 2000 {
			n = t.Near(2)
		}
		if w.zero() && n <= 0 {
			n = 1 - n
		}
		return xE("Power", y, xi(int64(n))), zpow(w, n)
	}
	y, w := genTree(t, depth-1, bits)
	return xE("Times", xi(-1), y), zneg(w)
}

func isNumeral(x *X) bool { return x.isNum() || x.K == 'r' }

func init() {
	big1 := func(z gz) bool {
		return !z.re.IsInt() || z.im.Sign() != 0 || z.re.Num().BitLen() > 63
	}
	check := func(t *T, es ES, x *X, z gz) {
		if got := ev(es, x); !xeq(got, z.x()) {
			t.Failf("is %v and not %v", got, z.x())
		}
	}
	pbt.Register(&pbt.Prop{
		ID: "C04", Title: "exact arithmetic",
		Rule: "the exact result is a fraction, has an imaginary part or more than 63 bits; zero: the divisor really is zero",
		Facets: []pbt.Facet{
			{Name: "tree", Quick: 40000, Thorough: 1500000, Batch: 2000, Run: func(t *T) {
				es := t.ES()
				x, z := genTree(t, t.Int(1, 3), pbt.Of(t, 10, 64, 130, 200))
				t.Case("%v", x)
				t.NontrivialIf(big1(z))
				check(t, es, x, z)
			}},
			{Name: "fold", Quick: 40000, Thorough: 1500000, Batch: 2000, Run: func(t *T) {
				// Long sums and products of numbers of every kind, in any order,
				// in one go, nested or through Plus @@ list.
				es := t.ES()
				mul := t.Bool()
				h, v := "Plus", zr(new(big.Rat))
				if mul {
					h, v = "Times", zr(big.NewRat(1, 1))
				}
				bits := pbt.Of(t, 4, 30, 64, 128)
				x := xE(h)
				for n := t.Int(2, 9); n > 0; n-- {
					w := genZ(t, bits)
					if n > 1 && t.P(1, 8) { // near cancellation
						if mul && !v.zero() {
							w = zinv(v)
						} else if !mul {
							w = zneg(v)
						}
					}
					x.P = append(x.P, genLit(t, w))
					if mul {
						v = zmul(v, w)
					} else {
						v = zadd(v, w)
					}
				}
				y := xe(x.P[0])
				for _, i := range t.Perm(len(x.P) - 1) {
					y.P = append(y.P, x.P[1+i])
				}
				switch t.W(3, 1, 1) {
				case 1:
					y = xE("Apply", sys(h), xl(y.args()...))
				case 2:
					y = xE("Fold", sys(h), xl(y.args()...))
				}
				t.Case("%v", y)
				t.NontrivialIf(big1(v))
				check(t, es, y, v)
			}},
			{Name: "zero", Quick: 8000, Thorough: 100000, Batch: 2000, Run: func(t *T) {
				es := t.ES()
				x, v := genTree(t, t.Int(0, 1), 60)
				y, w := genTree(t, t.Int(0, 1), 60)
				d := pbt.Of(t, xi(0), xE("Plus", y, xE("Times", w.x(), xi(-1))), xE("Times", xi(0), y), xE("Plus", y, zneg(w).x()))
				var q *X
				switch t.W(3, 3, 2, 2) {
				case 0:
					q = xE("Divide", x, d)
				case 1:
					q = xE("Times", x, xE("Power", d, xi(-1)))
				case 2:
					q = xE("Power", d, xi(int64(-t.Int(1, 5))))
				case 3:
					q = xE("Rational", xI(t.Big(70)), xi(0))
				}
				t.Case("%v", q)
				t.Nontrivial()
				_ = v
				if got := ev(es, q); isNumeral(got) || contains(got, func(x *X) bool { return x.K == 'r' && x.D.Sign() == 0 }) {
					t.Failf("division by zero gives %v", got)
				}
			}},
			{Name: "parts", Quick: 15000, Thorough: 400000, Batch: 2000, Run: func(t *T) {
				es := t.ES()
				z := genZ(t, 130)
				x := genLit(t, z)
				zero := new(big.Rat)
				var want *X
				f := pbt.Of(t, "Re", "Im", "Conjugate", "Numerator", "Denominator", "Identity", "Head")
				t.NontrivialIf(big1(z))
				switch f {
				case "Re":
					want = xq(z.re)
				case "Im":
					want = xq(z.im)
				case "Conjugate":
					want = xz(z.re, rneg(z.im))
				case "Numerator", "Denominator":
					z.im = zero
					x = genLit(t, z)
					want = xI(z.re.Num())
					if f == "Denominator" {
						want = xI(z.re.Denom())
					}
				case "Identity":
					want = z.x()
				case "Head":
					want = sys("Integer")
					if z.im.Sign() != 0 {
						want = sys("Complex")
					} else if !z.re.IsInt() {
						want = sys("Rational")
					}
				}
				c := xE(f, x)
				t.Case("%v", c)
				if got := ev(es, c); !xeq(got, want) {
					t.Failf("is %v and not %v", got, want)
				}
			}},
		},
	})
}
