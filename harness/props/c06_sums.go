package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/harness/pbt"
)

// regroup rewrites a sum or product tree with other orders and groupings.
func regroup(t *T, x *X) *X {
	if x.K != 'e' {
		return x
	}
	y := &X{K: 'e', P: []*X{x.P[0]}}
	nary := x.head("Plus") || x.head("Times")
	for _, a := range x.args() {
		b := regroup(t, a)
		if nary && a.K == 'e' && xeq(a.P[0], x.P[0]) {
			y.P = append(y.P, b.args()...)
		} else {
			y.P = append(y.P, b)
		}
	}
	if !nary {
		return y
	}
	var ops []*X
	for _, i := range t.Perm(len(y.P) - 1) {
		ops = append(ops, y.P[1+i])
	}
	for len(ops) > 2 && t.P(1, 2) {
		i := t.Int(0, len(ops)-2)
		n := t.Int(2, len(ops)-i)
		g := xe(x.P[0], append([]*X(nil), ops[i:i+n]...)...)
		ops = append(append(append([]*X(nil), ops[:i]...), g), ops[i+n:]...)
	}
	return xe(x.P[0], ops...)
}

// mono is a monomial: base (printed) -> integer exponent.
type mono map[string]int

func (m mono) key() string {
	var s []string
	for b, e := range m {
		if e != 0 {
			s = append(s, fmt.Sprintf("%s^%d", b, e))
		}
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

var bases = []*X{glo("x"), glo("y"), glo("z"), xG("f", glo("x")), xG("f", xi(1)), glo("aa"), sys("Pi")}

// genMono draws a product of powers written in some way.
func genMono(t *T) (*X, gz, mono) {
	c := zr(big.NewRat(1, 1))
	x := xE("Times")
	m := mono{}
	for n := t.Int(0, 4); n > 0; n-- {
		b := pbt.Pick(t, bases)
		e := t.Near(3)
		m[b.String()] += e
		switch {
		case e == 1 && t.P(2, 3):
			x.P = append(x.P, b)
		case e != 0 && e%2 == 0 && t.P(1, 4):
			x.P = append(x.P, xE("Power", xE("Power", b, xi(int64(e/2))), xi(2)))
		default:
			x.P = append(x.P, xE("Power", b, xi(int64(e))))
		}
	}
	for n := t.W(1, 4, 2); n > 0; n-- {
		w := genZ(t, 8)
		if t.P(2, 3) {
			w = zr(new(big.Rat).SetInt64(int64(t.Near(3))))
		}
		c = zmul(c, w)
		x.P = append(x.P, w.x())
	}
	if len(x.P) == 2 && t.Bool() {
		return x.P[1], c, m
	}
	return x, c, m
}

// readMono reads an evaluated term; ok is false when it is not a canonical
// product (one number at most, each base once, no nesting).
func readMono(x *X) (gz, mono, bool) {
	c := zr(big.NewRat(1, 1))
	m := mono{}
	fs := []*X{x}
	if x.head("Times") {
		fs = x.args()
		if len(fs) < 2 {
			return c, m, false
		}
	}
	nums := 0
	for _, f := range fs {
		if isNumeral(f) {
			nums++
			re, im := reim(f)
			if re.rat() == nil || re.K == 'f' || im.K == 'f' {
				return c, m, false
			}
			c = gz{re.rat(), im.rat()}
			continue
		}
		b, e := f, 1
		if f.head("Power") && len(f.P) == 3 && f.P[2].K == 'i' {
			b, e = f.P[1], int(f.P[2].N.Int64())
			if e == 0 || e == 1 {
				return c, m, false
			}
		}
		if b.head("Plus") || b.head("Times") || b.head("Power") {
			return c, m, false
		}
		if _, dup := m[b.String()]; dup {
			return c, m, false
		}
		m[b.String()] = e
	}
	if nums > 1 || nums == 1 && len(fs) > 1 && xeq(c.x(), xi(1)) {
		return c, m, false
	}
	return c, m, true
}

func zeq(a, b gz) bool { return a.re.Cmp(b.re) == 0 && a.im.Cmp(b.im) == 0 }

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C06", Title: "canonical sums and products",
		Rule: "terms and factors: at least two operands share a term or base; group: at least two operands change place or group; value: at least two variables",
		Facets: []pbt.Facet{
			{Name: "terms", Quick: 8000, Thorough: 800000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x := xE("Plus")
				want := map[string]gz{}
				n := t.Int(1, 7)
				var prev []*X
				var pm []mono
				var pc []gz
				for i := 0; i < n; i++ {
					y, c, m := genMono(t)
					if len(prev) > 0 && t.P(1, 3) { // a like term
						j := t.N(uint64(len(prev)))
						k := zr(new(big.Rat).SetInt64(int64(t.Near(2))))
						y, c, m = xE("Times", prev[j], k.x()), zmul(pc[j], k), pm[j]
					}
					prev, pm, pc = append(prev, y), append(pm, m), append(pc, c)
					x.P = append(x.P, y)
					k := m.key()
					if w, ok := want[k]; ok {
						c = zadd(c, w)
					}
					want[k] = c
				}
				t.NontrivialIf(len(want) < n)
				for k, c := range want {
					if c.zero() {
						delete(want, k)
					}
				}
				x = regroup(t, x)
				t.Case("%v", x)
				got := ev(es, x)
				ts := []*X{got}
				if got.head("Plus") {
					ts = got.args()
					if len(ts) < 2 {
						t.Failf("is the sum %v", got)
					}
				} else if xeq(got, xi(0)) {
					ts = nil
				}
				seen := map[string]bool{}
				for _, s := range ts {
					c, m, ok := readMono(s)
					if !ok {
						t.Failf("is %v, where %v is not in canonical form", got, s)
					}
					w, in := want[m.key()]
					if !in || seen[m.key()] || !zeq(c, w) {
						t.Failf("is %v, where %v should not occur", got, s)
					}
					seen[m.key()] = true
				}
				if len(seen) != len(want) {
					t.Failf("is %v, where a term is missing", got)
				}
			}},
			{Name: "factors", Quick: 8000, Thorough: 800000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x := xE("Times")
				c, m := zr(big.NewRat(1, 1)), mono{}
				used := 0
				for n := t.Int(1, 6); n > 0; n-- {
					y, d, k := genMono(t)
					e := 1
					if t.P(1, 4) {
						e = t.Near(3)
						if d.zero() && e <= 0 {
							e = 2
						}
						y = xE("Power", y, xi(int64(e)))
					}
					x.P = append(x.P, y)
					c = zmul(c, zpow(d, e))
					for b, f := range k {
						m[b] += f * e
						used++
					}
				}
				t.NontrivialIf(used > len(m))
				x = regroup(t, x)
				t.Case("%v", x)
				got := ev(es, x)
				d, k, ok := readMono(got)
				if c.zero() {
					if !xeq(got, xi(0)) {
						t.Failf("is %v and not 0", got)
					}
					return
				}
				if !ok || !zeq(c, d) || m.key() != k.key() {
					t.Failf("is %v and not %v times %s", got, c.x(), m.key())
				}
			}},
			{Name: "group", Quick: 10000, Thorough: 800000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x := genAlgExact(t, t.Int(1, 3))
				y := regroup(t, x)
				t.Case("%v", x)
				t.Case("%v", y)
				t.NontrivialIf(!xeq(x, y))
				a, b := ev(es, x), ev(es, y)
				if undefined(a) || undefined(b) {
					t.Discard()
				}
				if scaledSum(es, x) { // -1 and the like distribute over a sum next to them
					t.Label("product with a sum: compared by value")
					vals := map[string]gz{}
					for _, v := range []string{"x", "y", "z"} {
						vals["Global`"+v] = zr(genRat(t, 8))
					}
					v, ok := algVal(a, vals)
					w, ok2 := algVal(b, vals)
					if ok && ok2 && !zeq(v, w) {
						t.Failf("evaluate to %v and %v, which differ at %v", a, b, vals)
					}
					return
				}
				if !xeq(a, b) {
					t.Failf("evaluate to %v and %v", a, b)
				}
			}},
			{Name: "value", Quick: 10000, Thorough: 800000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x := genAlgExact(t, t.Int(1, 4))
				t.Case("%v", x)
				vars := []string{"x", "y", "z"}
				vals := map[string]gz{}
				rules := xl()
				used := 0
				for _, v := range vars {
					z := zr(genRat(t, 5))
					if t.P(1, 4) {
						z = genZ(t, 4)
					}
					vals["Global`"+v] = z
					rules.P = append(rules.P, xE("Rule", glo(v), z.x()))
					if contains(x, func(x *X) bool { return x.K == 'y' && x.S == "Global`"+v }) {
						used++
					}
				}
				t.Case("at %v", rules)
				t.NontrivialIf(used > 1)
				want, ok := algVal(x, vals)
				if !ok {
					t.Discard()
				}
				got := ev(es, xE("ReplaceAll", ev(es, x), rules))
				if !xeq(got, want.x()) {
					t.Failf("has the value %v and not %v after evaluation to %v", got, want.x(), ev(es, x))
				}
			}},
			{Name: "neutral", Quick: 3000, Thorough: 100000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x := genAlgExact(t, t.Int(0, 2))
				a := ev(es, x)
				if undefined(a) {
					t.Discard()
				}
				t.Case("%v", x)
				t.NontrivialIf(x.K == 'e')
				for _, c := range []struct{ x, want *X }{
					{xE("Plus", x), a}, {xE("Times", x), a},
					{xE("Plus", x, xi(0)), a}, {xE("Plus", xi(0), x), a},
					{xE("Times", x, xi(1)), a}, {xE("Times", xi(1), x), a},
					{xE("Times", xi(0), x), xi(0)}, {xE("Power", x, xi(1)), a},
					{xE("Plus", x, xE("Times", xi(-1), x)), xi(0)},
					{xE("Plus"), xi(0)}, {xE("Times"), xi(1)},
				} {
					if got := ev(es, c.x); !xeq(got, c.want) {
						t.Failf("%v is %v and not %v", c.x, got, c.want)
					}
				}
				if !xeq(a, xi(0)) {
					for _, c := range []*X{xE("Power", x, xi(0)), xE("Times", x, xE("Power", x, xi(-1)))} {
						if got := ev(es, c); !xeq(got, xi(1)) {
							t.Failf("%v is %v and not 1", c, got)
						}
					}
				}
			}},
		},
	})
}

// genAlgExact draws sums, products and integer powers over x, y, z with exact
// coefficients.
func genAlgExact(t *T, depth int) *X {
	if depth <= 0 || t.P(1, 6) {
		switch t.W(5, 3, 1) {
		case 0:
			return glo(pbt.Of(t, "x", "y", "z"))
		case 1:
			return genSmall(t)
		}
		return genZ(t, 5).x()
	}
	if t.P(1, 4) {
		return xE("Power", genAlgExact(t, depth-1), xi(int64(t.Near(3))))
	}
	x := xE(pbt.Of(t, "Plus", "Times"))
	for n := t.Int(2, 4); n > 0; n-- {
		x.P = append(x.P, genAlgExact(t, depth-1))
	}
	return x
}

// algVal computes the exact value of such an expression.
func algVal(x *X, vals map[string]gz) (gz, bool) {
	switch {
	case x.K == 'y':
		v, ok := vals[x.S]
		return v, ok
	case isNumeral(x):
		re, im := reim(x)
		return gz{re.rat(), im.rat()}, true
	case x.head("Plus"):
		s := zr(new(big.Rat))
		for _, a := range x.args() {
			v, ok := algVal(a, vals)
			if !ok {
				return s, false
			}
			s = zadd(s, v)
		}
		return s, true
	case x.head("Times"):
		s := zr(big.NewRat(1, 1))
		for _, a := range x.args() {
			v, ok := algVal(a, vals)
			if !ok {
				return s, false
			}
			s = zmul(s, v)
		}
		return s, true
	case x.head("Power") && x.P[2].K == 'i':
		v, ok := algVal(x.P[1], vals)
		e := int(x.P[2].N.Int64())
		if !ok || v.zero() && e <= 0 || v.bits() > 4000 {
			return v, false
		}
		return zpow(v, e), true
	}
	return gz{}, false
}

// scaledSum tells whether x has a product of a number and a sum.
func scaledSum(es ES, x *X) bool {
	return contains(x, func(x *X) bool {
		if !x.head("Times") && !x.head("Power") {
			return false
		}
		return contains(ev(es, x), func(y *X) bool { return y.head("Plus") }) || contains(x, func(y *X) bool { return y.head("Plus") })
	})
}

// undefined tells that a division by zero took place.
func undefined(x *X) bool {
	return contains(x, func(x *X) bool {
		return strings.HasSuffix(x.S, "Infinity") || x.S == "System`Indeterminate"
	})
}
