package props

import (
	"math"
	"math/big"

	"verif/harness/pbt"
)

// az is a complex number known exactly together with a bound on the error the
// computed value may have; approx tells whether an approximate number took part.
type az struct {
	z      gz
	err    float64
	approx bool
}

func zabs(z gz) float64 {
	a, _ := z.re.Float64()
	b, _ := z.im.Float64()
	return math.Hypot(a, b)
}

const eps = 4e-16

func aadd(a, b az) az {
	z := zadd(a.z, b.z)
	r := az{z, a.err + b.err, a.approx || b.approx}
	if r.approx {
		r.err += eps * (zabs(a.z) + zabs(b.z) + zabs(z))
	}
	return r
}

func amul(a, b az) az {
	r := az{zmul(a.z, b.z), a.err*zabs(b.z) + b.err*zabs(a.z) + a.err*b.err, a.approx || b.approx}
	if r.approx {
		r.err += 4 * eps * zabs(a.z) * zabs(b.z)
	}
	return r
}

func apow(t *T, a az, n int) az {
	m := zabs(a.z)
	if n < 0 && a.err > m/8 {
		t.Discard()
	}
	if n == 0 {
		return az{zr(big.NewRat(1, 1)), 0, false}
	}
	r := az{zpow(a.z, n), 0, a.approx}
	if a.approx {
		N := math.Abs(float64(n))
		rel := 1.2*N*a.err/m + 8*eps*N*(1+math.Abs(math.Log(m))) + 30*eps
		if m == 0 {
			if n > 0 && a.err == 0 {
				return r
			}
			t.Discard()
		}
		if rel > 0.1 {
			t.Discard()
		}
		r.err = 1.5 * rel * zabs(r.z)
	}
	return r
}

func genA(t *T) (*X, az) {
	if t.P(1, 2) {
		f := genFloat(t)
		switch t.W(5, 1, 1, 1) {
		case 1:
			im := genFloat(t)
			z := gz{new(big.Rat).SetFloat64(f), new(big.Rat).SetFloat64(im)}
			return xc(xf(f), xf(im)), az{z, 0, true}
		case 2:
			z := gz{new(big.Rat).SetFloat64(f), genRat(t, 10)}
			if z.im.Sign() == 0 {
				z.im.SetInt64(1)
			}
			return xc(xf(f), xq(z.im)), az{z, eps * zabs(z), true}
		case 3:
			z := gz{genRat(t, 10), new(big.Rat).SetFloat64(f)}
			return xc(xq(z.re), xf(f)), az{z, eps * zabs(z), true}
		}
		return xf(f), az{zr(new(big.Rat).SetFloat64(f)), 0, true}
	}
	z := genZ(t, pbt.Of(t, 6, 20, 60))
	return z.x(), az{z, 0, false}
}

// Promoting an exact operand costs one rounding.
func promote(a az, other bool) az {
	if other && !a.approx {
		a.err += eps * zabs(a.z)
	}
	return a
}

func genATree(t *T, depth int) (*X, az) {
	if depth <= 0 || t.P(1, 6) {
		return genA(t)
	}
	one := zr(big.NewRat(1, 1))
	switch t.W(4, 4, 2, 3) {
	case 0, 1:
		n := t.Int(2, 5)
		mul := t.Bool()
		h := "Plus"
		acc := az{zr(new(big.Rat)), 0, false}
		if mul {
			h, acc = "Times", az{one, 0, false}
		}
		x := xE(h)
		var vs []az
		any, sum := false, 0.0
		for ; n > 0; n-- {
			y, v := genATree(t, depth-1)
			x.P = append(x.P, y)
			vs = append(vs, v)
			any = any || v.approx
			sum += zabs(v.z)
		}
		for _, v := range vs {
			v = promote(v, any)
			if mul {
				acc = amul(acc, v)
			} else {
				acc = aadd(acc, v)
			}
		}
		if any { // the order of summation is free
			if mul {
				p := 1.0
				for _, v := range vs {
					p *= math.Max(zabs(v.z)+v.err, 1e-300)
				}
				acc.err += 30 * eps * p
			} else {
				acc.err += 30 * eps * sum
			}
		}
		return x, acc
	case 2:
		y, a := genATree(t, depth-1)
		z, b := genATree(t, depth-1)
		if zabs(b.z) <= 4*b.err {
			t.Discard()
		}
		inv := apow(t, b, -1)
		any := a.approx || b.approx
		r := amul(promote(a, any), promote(inv, any))
		r.approx = any
		return xE("Times", y, xE("Power", z, xi(-1))), r
	}
	y, a := genATree(t, depth-1)
	n := t.Near(6)
	if a.z.bits() > 1500 {
		n = t.Near(2)
	}
	if zabs(a.z) <= 4*a.err && n <= 0 {
		n = 1 - n
	}
	return xE("Power", y, xi(int64(n))), apow(t, a, n)
}

func hasFloat(x *X) bool { return contains(x, func(x *X) bool { return x.K == 'f' }) }

// near tells whether got is the number v within err.
func near(got *X, v gz, err float64) bool {
	if !isNumeral(got) {
		return false
	}
	re, im := reim(got)
	d := zadd(gz{re.rat(), im.rat()}, zneg(v))
	return zabs(d) <= err
}

// fl is a real number with an error bound.
type fl struct{ v, e float64 }

// genReal draws an exact real numeric expression with its value.
func genReal(t *T, depth int) (*X, fl) {
	const e = 1e-15
	if depth <= 0 || t.P(1, 8) {
		switch t.W(4, 3, 1, 1, 1) {
		case 0:
			r := genRat(t, 6)
			v, _ := r.Float64()
			return xq(r), fl{v, math.Abs(v) * 1e-16}
		case 1:
			n := int64(t.Near(12))
			return xi(n), fl{float64(n), 0}
		case 2:
			return sys("Pi"), fl{math.Pi, e}
		case 3:
			return sys("E"), fl{math.E, e}
		}
		return sys("Degree"), fl{math.Pi / 180, e / 50}
	}
	n := t.W(3, 3, 2, 1, 1, 1, 2, 2, 2, 1, 1)
	x, a := genReal(t, depth-1)
	if a.e > 1e-9 || math.Abs(a.v) > 1e6 {
		t.Discard()
	}
	pos := func() {
		if a.v <= 1e-3 {
			t.Discard()
		}
	}
	switch n {
	case 0:
		y, b := genReal(t, depth-1)
		return xE("Plus", x, y), fl{a.v + b.v, a.e + b.e + e*(math.Abs(a.v)+math.Abs(b.v))}
	case 1:
		y, b := genReal(t, depth-1)
		return xE("Times", x, y), fl{a.v * b.v, a.e*math.Abs(b.v) + b.e*math.Abs(a.v) + a.e*b.e + e*math.Abs(a.v*b.v)}
	case 2:
		return xE("Sin", x), fl{math.Sin(a.v), a.e + e*(1+math.Abs(a.v))}
	case 3:
		return xE("Cos", x), fl{math.Cos(a.v), a.e + e*(1+math.Abs(a.v))}
	case 4:
		c := math.Cos(a.v)
		if math.Abs(c) < 1e-2 {
			t.Discard()
		}
		return xE("Tan", x), fl{math.Tan(a.v), 2 * (a.e + e*(1+math.Abs(a.v))) / (c * c)}
	case 5:
		return xE("ArcTan", x), fl{math.Atan(a.v), a.e + e}
	case 6:
		if math.Abs(a.v) > 30 || math.Abs(a.v) < 1e-9 || math.Abs(a.v-1) < 1e-9 {
			t.Discard() // exponents 0. and 1. give exact results by design
		}
		v := math.Exp(a.v)
		return pbt.Of(t, xE("Exp", x), xE("Power", sys("E"), x)), fl{v, v * (2*a.e + e*(20+10*math.Abs(a.v)))}
	case 7:
		pos()
		return xE("Log", x), fl{math.Log(a.v), 2*a.e/a.v + e*(1+math.Abs(math.Log(a.v)))*4}
	case 8:
		pos()
		return pbt.Of(t, xE("Sqrt", x), xE("Power", x, xq(big.NewRat(1, 2)))), fl{math.Sqrt(a.v), a.e/math.Sqrt(a.v) + 40*e*math.Sqrt(a.v)}
	case 9:
		pos()
		r := genRat(t, 3)
		p, _ := r.Float64()
		v := math.Pow(a.v, p)
		return xE("Power", x, xq(r)), fl{v, v * (2*math.Abs(p)*a.e/a.v + 20*e*(1+math.Abs(p))*(2+math.Abs(math.Log(a.v))))}
	}
	return xE("Abs", x), fl{math.Abs(a.v), a.e}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C05", Title: "approximate arithmetic",
		Rule: "mixed: exact and approximate operands occur together; power: base or exponent is approximate and neither is 0 or 1; numeric: the expression applies at least one function",
		Facets: []pbt.Facet{
			{Name: "mixed", Quick: 60000, Thorough: 2000000, Batch: 2500, Run: func(t *T) {
				es := t.ES()
				x, a := genATree(t, t.Int(1, 3))
				t.Case("%v", x)
				exact := contains(x, func(x *X) bool { return x.K == 'i' || x.K == 'r' })
				t.NontrivialIf(hasFloat(x) && exact)
				m := zabs(a.z)
				if a.err > 1e-6*m+1e-9 || math.IsNaN(a.err) {
					t.Discard() // too much cancellation to say anything
				}
				got := ev(es, x)
				if !a.approx {
					if hasFloat(x) {
						return // x^0
					}
					if !xeq(got, a.z.x()) {
						t.Failf("is %v and not exactly %v", got, a.z.x())
					}
					return
				}
				if !hasFloat(got) {
					t.Failf("is %v, which is not an approximate number", got)
				}
				if !near(got, a.z, a.err) {
					t.Failf("is %v and not %v within %.3g", got, a.z.x(), a.err)
				}
			}},
			{Name: "power", Quick: 20000, Thorough: 500000, Batch: 2500, Run: func(t *T) {
				// Positive approximate or exact bases to approximate or exact powers.
				es := t.ES()
				num := func(lo int) (*X, float64, bool) {
					switch t.W(3, 2, 2) {
					case 0:
						f := float64(t.Int(lo, 4000)) / 250
						return xf(f), f, true
					case 1:
						n := int64(t.Int(lo/250, 12))
						return xi(n), float64(n), false
					}
					r := big.NewRat(int64(t.Int(lo, 2000)), int64(t.Int(1, 250)))
					v, _ := r.Float64()
					return xq(r), v, false
				}
				b, bv, ba := num(1)
				p, pv, pa := num(-4000)
				if !ba && !pa || bv == 0 {
					t.Discard()
				}
				x := xE("Power", b, p)
				t.Case("%v", x)
				t.NontrivialIf(bv != 1 && pv != 1 && pv != 0)
				want := math.Pow(bv, pv)
				rel := 1e-15 * (20 + 8*math.Abs(pv)*(1+math.Abs(math.Log(bv))))
				got := ev(es, x)
				if pv == 0 || pv == 1 || bv == 1 {
					if !isNumeral(got) {
						t.Failf("is %v", got)
					}
				} else if got.K != 'f' {
					t.Failf("is %v, which is not an approximate number", got)
				}
				g, _ := got.rat().Float64()
				if want > 1e300 || want < 1e-300 {
					t.Discard()
				}
				if math.Abs(g-want) > rel*want {
					t.Failf("is %v and not %v", got, want)
				}
				if r := t.W(3, 1); r == 1 { // negative base
					n := xE("Power", xE("Times", xi(-1), b), p)
					t.Case("%v", n)
					neg := ev(es, n)
					if !isNumeral(neg) {
						t.Failf("is %v", neg)
					}
					re, im := reim(neg)
					a, _ := re.rat().Float64()
					c, _ := im.rat().Float64()
					if m := math.Hypot(a, c); math.Abs(m-want) > (rel+1e-12)*want {
						t.Failf("%v has absolute value %v and not %v", neg, m, want)
					}
					wa, wc := want*math.Cos(math.Pi*pv), want*math.Sin(math.Pi*pv)
					if math.Abs(a-wa) > 1e-11*want || math.Abs(c-wc) > 1e-11*want {
						t.Failf("is %v and not %v + %v I", neg, wa, wc)
					}
				}
			}},
			{Name: "numeric", Quick: 20000, Thorough: 500000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x, v := genReal(t, t.Int(0, 3))
				if v.e > 1e-7*math.Abs(v.v)+1e-10 || math.IsNaN(v.v) || math.IsInf(v.v, 0) {
					t.Discard()
				}
				t.Case("N[%v]", x)
				t.NontrivialIf(x.K == 'e')
				got := ev(es, xE("N", x))
				if got.K == 'c' && math.Abs(flt(got.P[1])) <= v.e*2 {
					got = got.P[0]
				}
				if got.K != 'f' {
					t.Failf("is %v and not an approximate number near %v", got, v.v)
				}
				if math.Abs(flt(got)-v.v) > 3*v.e+1e-300 {
					t.Failf("is %v and not %v within %.3g", got, v.v, v.e)
				}
				// without N nothing exact turns approximate
				if e := ev(es, x); hasFloat(e) {
					t.Failf("exact %v evaluates to %v", x, e)
				}
			}},
			{Name: "N", Quick: 15000, Thorough: 300000, Batch: 2500, Run: func(t *T) {
				// N of exact numbers, alone or as an argument of a list or call.
				es := t.ES()
				z := genZ(t, pbt.Of(t, 10, 60, 130, 300))
				x := z.x()
				c := xE("N", x)
				k := t.W(3, 1, 1)
				switch k {
				case 1:
					c = xE("N", xl(x, glo("a"), xs("s")))
				case 2:
					c = xE("N", xG("f", x))
				}
				t.Case("%v", c)
				t.NontrivialIf(!z.zero())
				got := ev(es, c)
				if k > 0 {
					if got.K != 'e' || len(got.P) != len(c.P[1].P) || !xeq(got.P[0], c.P[1].P[0]) {
						t.Failf("is %v", got)
					}
					got = got.P[1]
				}
				if !hasFloat(got) || !near(got, z, 4*eps*zabs(z)) {
					t.Failf("is %v", got)
				}
			}},
		},
	})
}

func flt(x *X) float64 {
	if x.K == 'f' {
		f, _ := x.F.Float64()
		return f
	}
	f, _ := x.rat().Float64()
	return f
}
