package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C29",
		Title: "Polynomial and rational-function algebra preserves value",
		Rule:  "the polynomial has at least two terms, and some product or power must be multiplied out, divided or collected",
		Facets: []pbt.Facet{
			{Name: "expand", Quick: 1600, Thorough: 30000, Batch: 50, Run: polyExpand},
			{Name: "coefficients", Quick: 1000, Thorough: 20000, Batch: 50, Run: polyCoefficients},
			{Name: "division", Quick: 300, Thorough: 12000, Batch: 30, Run: polyDivision},
			{Name: "gcd", Quick: 240, Thorough: 10000, Batch: 30, Run: polyGCDs},
			{Name: "factors", Quick: 400, Thorough: 16000, Batch: 50, Run: polyFactors},
			{Name: "fractions", Quick: 1600, Thorough: 24000, Batch: 50, Run: polyFractions},
			{Name: "apart", Quick: 240, Thorough: 8000, Batch: 20, Run: polyApart},
			{Name: "kinds", Quick: 1200, Thorough: 30000, Batch: 100, Run: polyKinds},
			{Name: "distribute", Quick: 500, Thorough: 20000, Batch: 50, Run: polyDistribute},
		},
	})
}

// A polynomial in x, y and z with Gaussian-rational coefficients.
type poly map[[3]int]gz

var polyVars = []string{"x", "y", "z"}

func (p poly) add(m [3]int, c gz) {
	if s, ok := p[m]; ok {
		c = zadd(s, c)
	}
	if c.zero() {
		delete(p, m)
	} else {
		p[m] = c
	}
}

func (p poly) plus(q poly) poly {
	r := poly{}
	for m, c := range p {
		r.add(m, c)
	}
	for m, c := range q {
		r.add(m, c)
	}
	return r
}

func (p poly) times(q poly) poly {
	r := poly{}
	for m, c := range p {
		for n, d := range q {
			r.add([3]int{m[0] + n[0], m[1] + n[1], m[2] + n[2]}, zmul(c, d))
		}
	}
	return r
}

func (p poly) pow(n int) poly {
	r := polyNum(zr(big.NewRat(1, 1)))
	for ; n > 0; n-- {
		r = r.times(p)
	}
	return r
}

func (p poly) same(q poly) bool {
	return len(p.plus(q.scale(zr(big.NewRat(-1, 1))))) == 0
}

func (p poly) scale(c gz) poly { return p.times(polyNum(c)) }

func polyNum(c gz) poly {
	p := poly{}
	p.add([3]int{}, c)
	return p
}

func polyVar(i int) poly {
	var m [3]int
	m[i] = 1
	return poly{m: zr(big.NewRat(1, 1))}
}

// x is the polynomial as a sum of terms in no particular order.
func (p poly) x() *X {
	var ms [][3]int
	for m := range p {
		ms = append(ms, m)
	}
	sort.Slice(ms, func(i, j int) bool { return fmt.Sprint(ms[i]) < fmt.Sprint(ms[j]) })
	s := xE("Plus")
	for _, m := range ms {
		x := xE("Times", p[m].x())
		for i, e := range m {
			if e > 0 {
				x.P = append(x.P, xE("Power", glo(polyVars[i]), xi(int64(e))))
			}
		}
		s.P = append(s.P, x)
	}
	return s
}

func (p poly) String() string { return p.x().String() }

// polyOf multiplies out an expression which is a polynomial.
func polyOf(x *X) (poly, bool) {
	if isNumeral(x) && !hasFloat(x) {
		re, im := reim(x)
		return polyNum(gz{re.rat(), im.rat()}), true
	}
	if x.K == 'y' {
		for i, v := range polyVars {
			if x.S == "Global`"+v {
				return polyVar(i), true
			}
		}
		return nil, false
	}
	switch {
	case x.head("Plus"), x.head("Times"):
		plus := x.head("Plus")
		r := polyNum(zr(big.NewRat(1, 1)))
		if plus {
			r = poly{}
		}
		for _, a := range x.args() {
			p, ok := polyOf(a)
			if !ok {
				return nil, false
			}
			if plus {
				r = r.plus(p)
			} else {
				r = r.times(p)
			}
		}
		return r, true
	case x.head("Power") && len(x.P) == 3 && x.P[2].K == 'i' && x.P[2].N.Sign() >= 0:
		p, ok := polyOf(x.P[1])
		if !ok || !x.P[2].N.IsInt64() || x.P[2].N.Int64() > 200 {
			return nil, false
		}
		return p.pow(int(x.P[2].N.Int64())), true
	}
	return nil, false
}

// degree in variable i; -1 for zero.
func (p poly) degree(i int) int {
	d := -1
	for m := range p {
		d = max(d, m[i])
	}
	return d
}

// coefficient of the power of a variable, free of it.
func (p poly) coefficient(i, n int) poly {
	r := poly{}
	for m, c := range p {
		if m[i] == n {
			m[i] = 0
			r.add(m, c)
		}
	}
	return r
}

// divide in x, by a divisor whose leading coefficient is a number.
func (p poly) divide(d poly) (q, r poly) {
	q, r = poly{}, p
	n := d.degree(0)
	lc := d.coefficient(0, n)
	inv := polyNum(zinv(lc[[3]int{}]))
	for r.degree(0) >= n {
		k := r.degree(0)
		s := r.coefficient(0, k).times(inv).times(polyVar(0).pow(k - n))
		q = q.plus(s)
		r = r.plus(s.times(d).scale(zr(big.NewRat(-1, 1))))
	}
	return q, r
}

func (p poly) monic() poly {
	if len(p) == 0 {
		return p
	}
	return p.scale(zinv(p.coefficient(0, p.degree(0))[[3]int{}]))
}

func polyGCD(a, b poly) poly {
	for len(b) > 0 {
		_, r := a.divide(b)
		a, b = b, r.monic()
	}
	return a.monic()
}

func (p poly) deriv() poly {
	r := poly{}
	for m, c := range p {
		if m[0] > 0 {
			n := m
			n[0]--
			r.add(n, zmul(c, zr(big.NewRat(int64(m[0]), 1))))
		}
	}
	return r
}

func genCoef(t *T) *big.Rat {
	switch t.W(5, 2, 1) {
	case 0:
		return big.NewRat(int64(t.Near(9)), 1)
	case 1:
		return big.NewRat(int64(t.Near(9)), int64(t.Int(1, 6)))
	}
	return genRat(t, 40)
}

// genUni draws a polynomial in x of a degree with at most that many terms.
func genUni(t *T, deg int) poly {
	p := poly{}
	n := deg + 1
	if deg > 3 && t.P(1, 2) {
		n = t.Int(2, 4)
	}
	for i := 0; i < n; i++ {
		k := i
		if n <= deg {
			k = t.Int(0, deg)
		}
		p.add([3]int{k}, zr(genCoef(t)))
	}
	lead := genCoef(t)
	if lead.Sign() == 0 || t.P(1, 3) {
		lead = big.NewRat(1, 1)
	}
	delete(p, [3]int{deg})
	p.add([3]int{deg}, zr(lead))
	return p
}

// genUnexpanded draws an expression which is a polynomial.
func genUnexpanded(t *T, depth, vars int, cmplx bool) *X {
	if depth <= 0 || t.P(1, 5) {
		switch t.W(4, 2, 1) {
		case 0:
			return glo(polyVars[t.Int(0, vars-1)])
		case 1:
			return xq(genCoef(t))
		}
		if cmplx && t.P(1, 3) {
			return xz(big.NewRat(int64(t.Near(3)), 1), big.NewRat(int64(t.Near(3)), int64(t.Int(1, 2))))
		}
		return xE("Times", xq(genCoef(t)), xE("Power", glo(polyVars[t.Int(0, vars-1)]), xi(int64(t.Int(1, 5)))))
	}
	switch t.W(4, 3, 2) {
	case 0:
		x := xE("Plus")
		for n := t.Int(2, 4); n > 0; n-- {
			x.P = append(x.P, genUnexpanded(t, depth-1, vars, cmplx))
		}
		return x
	case 1:
		x := xE("Times")
		for n := t.Int(2, 3); n > 0; n-- {
			x.P = append(x.P, genUnexpanded(t, depth-1, vars, cmplx))
		}
		return x
	}
	return xE("Power", genUnexpanded(t, depth-1, vars, cmplx), xi(int64(t.Int(2, 4))))
}

// drawPoly discards expressions that are too big to expand in reasonable time.
func drawPoly(t *T, depth, vars int, cmplx bool) (*X, poly) {
	x := genUnexpanded(t, depth, vars, cmplx)
	work := 0
	var bound func(x *X) (terms, deg int)
	bound = func(x *X) (int, int) {
		switch {
		case x.head("Plus"):
			n, d := 0, 0
			for _, a := range x.args() {
				k, e := bound(a)
				n, d = n+k, max(d, e)
			}
			work += n
			return n, d
		case x.head("Times"):
			n, d := 1, 0
			for _, a := range x.args() {
				k, e := bound(a)
				n, d = n*k, d+e
			}
			work += n
			return n, d
		case x.head("Power"):
			k, e := bound(x.P[1])
			m, n := int(x.P[2].N.Int64()), 1
			// The number of ways to choose m of k terms, with repetition.
			for i := 1; i <= m; i++ {
				n = n * (k + i - 1) / i
				if n > 5000 {
					break
				}
			}
			work += n
			return n, e * m
		}
		return 1, 1
	}
	if n, d := bound(x); n > 120 || work > 200 || d > 24 {
		t.Discard()
	}
	p, ok := polyOf(x)
	if !ok {
		panic(x.String())
	}
	return x, p
}

// isMonomial tells whether x has no product or power to multiply out.
func isMonomial(x *X) bool {
	factor := func(x *X) bool {
		return x.K == 'y' || isNumeral(x) || x.head("Power") && len(x.P) == 3 && x.P[1].K == 'y' && x.P[2].K == 'i'
	}
	if x.head("Times") {
		for _, a := range x.args() {
			if !factor(a) {
				return false
			}
		}
		return true
	}
	return factor(x)
}

func isExpanded(x *X) bool {
	if !x.head("Plus") {
		return isMonomial(x)
	}
	for _, a := range x.args() {
		if !isMonomial(a) {
			return false
		}
	}
	return true
}

func wantPoly(t *T, es ES, call *X, w poly) *X {
	got := ev(es, call)
	p, ok := polyOf(got)
	if !ok || !p.same(w) {
		t.Failf("%s is %s instead of %s", call, got, w)
	}
	return got
}

func polyPoints(t *T, n int) (out []map[string]gz) {
	for i := 0; i < n; i++ {
		m := map[string]gz{}
		for _, v := range polyVars {
			m["Global`"+v] = zr(big.NewRat(int64(1000+t.Int(0, 5000)), int64(t.Int(1, 7))*2+1))
		}
		out = append(out, m)
	}
	return
}

// wantValue compares the values of two expressions at random points.
func wantValue(t *T, call, got, x *X) {
	for _, at := range polyPoints(t, 3) {
		v, ok := algVal(x, at)
		if !ok {
			t.Discard()
		}
		if w, ok := algVal(got, at); !ok || !zeq(v, w) {
			t.Failf("%s is %s, which differs in value", call, got)
		}
	}
}

func polyExpand(t *T) {
	es := t.ES()
	if t.P(1, 4) {
		// Fractions: the value stays.
		x := genAlgExact(t, t.Int(1, 3))
		for _, at := range polyPoints(t, 2) {
			if _, ok := algVal(x, at); !ok {
				t.Discard()
			}
		}
		t.Case("Expand %s", x)
		t.NontrivialIf(contains(x, func(x *X) bool { return x.head("Plus") }))
		f := pbt.Of(t, "Expand", "ExpandAll")
		call := xE(f, x)
		wantValue(t, call, ev(es, call), x)
		return
	}
	x, p := drawPoly(t, t.Int(1, 3), t.Int(1, 3), t.P(1, 4))
	t.Case("Expand %s", x)
	t.NontrivialIf(len(p) > 1 && contains(x, func(x *X) bool {
		return (x.head("Times") || x.head("Power")) && contains(x, func(y *X) bool { return y.head("Plus") })
	}))
	switch t.W(5, 1, 1) {
	case 0:
		got := wantPoly(t, es, xE("Expand", x), p)
		if !isExpanded(got) {
			t.Failf("Expand[%s] is %s", x, got)
		}
	case 1:
		got := ev(es, xE("ExpandAll", xG("g", x, xl(x))))
		if len(got.P) != 3 || !isExpanded(got.P[1]) || !xeq(got.P[2], xl(got.P[1])) {
			t.Failf("ExpandAll[g[p, {p}]] with p = %s is %s", x, got)
		}
		if q, ok := polyOf(got.P[1]); !ok || !q.same(p) {
			t.Failf("ExpandAll[g[p, {p}]] with p = %s is %s", x, got)
		}
	case 2:
		// Equal polynomials expand to the same expression.
		a, b := ev(es, xE("Expand", x)), ev(es, xE("Expand", p.x()))
		if !xeq(a, b) {
			t.Failf("Expand[%s] is %s, but as a sum it is %s", x, a, b)
		}
		want(t, es, xE("Expand", xE("Plus", x, xE("Times", xi(-1), p.x()))), xi(0))
	}
}

func polyCoefficients(t *T) {
	es := t.ES()
	x, p := drawPoly(t, t.Int(0, 3), t.Int(1, 3), false)
	i := t.Int(0, 2)
	v := glo(polyVars[i])
	t.Case("in %s: %s", polyVars[i], x)
	t.NontrivialIf(len(p) > 1)
	deg := p.degree(i)
	switch t.W(4, 3, 2, 2) {
	case 0:
		n := t.Int(0, max(0, deg)+1)
		wantPoly(t, es, xE("Coefficient", x, v, xi(int64(n))), p.coefficient(i, n))
		wantPoly(t, es, xE("Coefficient", x, v), p.coefficient(i, 1))
	case 1:
		var l *X = ev(es, xE("CoefficientList", x, v))
		if !l.head("List") || len(l.args()) != deg+1 {
			t.Failf("CoefficientList[%s, %s] is %s", x, v, l)
		}
		for n, c := range l.args() {
			if q, ok := polyOf(c); !ok || !q.same(p.coefficient(i, n)) {
				t.Failf("CoefficientList[%s, %s] is %s: wrong in part %d", x, v, l, n+1)
			}
		}
	case 2:
		w := xi(int64(deg))
		if deg < 0 {
			w = xE("Times", xi(-1), sys("Infinity"))
		}
		want(t, es, xE("Exponent", x, v), ev(es, w))
		if deg < 0 {
			return
		}
		low := deg
		for low > 0 && len(p.coefficient(i, low-1)) > 0 {
			low--
		}
		low = deg
		for n := 0; n <= deg; n++ {
			if len(p.coefficient(i, n)) > 0 {
				low = n
				break
			}
		}
		want(t, es, xE("Exponent", x, v, sys("Min")), xi(int64(low)))
		var all []*X
		for n := 0; n <= deg; n++ {
			if len(p.coefficient(i, n)) > 0 {
				all = append(all, xi(int64(n)))
			}
		}
		want(t, es, xE("Union", xE("Exponent", x, v, sys("List"))), xl(all...))
	case 3:
		// The coefficient of a product of powers.
		a, b := t.Int(1, 3), t.Int(1, 3)
		j := (i + 1) % 3
		form := xE("Times", xE("Power", v, xi(int64(a))), xE("Power", glo(polyVars[j]), xi(int64(b))))
		wantPoly(t, es, xE("Coefficient", x, form), p.coefficient(i, a).coefficient(j, b))
	}
}

func polyDivision(t *T) {
	es := t.ES()
	b := genUni(t, t.Int(0, 5))
	var a poly
	switch t.W(6, 1, 4, 2) {
	case 0:
		a = genUni(t, t.Int(0, 10))
	case 1:
		a = genUni(t, t.Int(18, 30))
		b = genUni(t, t.Int(1, 3))
	case 2:
		a = b.times(genUni(t, t.Int(0, 4)))
		if t.Bool() {
			a = a.plus(polyNum(zr(genCoef(t))))
		}
	case 3:
		a = genUni(t, t.Int(0, 5))
		// Coefficients with other variables, and a divisor that starts with a number.
		_, q := drawPoly(t, 1, 3, false)
		a = a.plus(q)
		if b.degree(0) > 0 {
			b = b.plus(polyVar(1).times(polyVar(0).pow(t.Int(0, b.degree(0)-1))))
		}
	}
	q, r := a.divide(b)
	xa, xb := a.x(), b.x()
	t.Case("%s divided by %s", xa, xb)
	t.NontrivialIf(len(q) > 1 && len(b) > 1)
	v := glo("x")
	if t.P(1, 4) {
		wantPoly(t, es, xE("PolynomialQuotient", xa, xb, v), q)
		wantPoly(t, es, xE("PolynomialRemainder", xa, xb, v), r)
	}
	call := xE("PolynomialQuotientRemainder", xa, xb, v)
	got := ev(es, call)
	if !got.head("List") || len(got.args()) != 2 {
		t.Failf("%s is %s", call, got)
	}
	gq, ok1 := polyOf(got.args()[0])
	gr, ok2 := polyOf(got.args()[1])
	if !ok1 || !ok2 || !gq.same(q) || !gr.same(r) {
		t.Failf("%s is %s instead of %s, %s", call, got, q, r)
	}
}

func polyGCDs(t *T) {
	es := t.ES()
	g := genUni(t, t.Int(0, 3))
	if t.P(1, 4) {
		g = g.pow(2)
	}
	a, b := g.times(genUni(t, t.Int(0, 3))), g.times(genUni(t, t.Int(0, 3)))
	if t.P(1, 8) {
		a = polyVar(0).pow(t.Int(2, 12)).plus(polyNum(zr(big.NewRat(-1, 1))))
	}
	if a.degree(0) < 1 || b.degree(0) < 1 {
		t.Discard()
	}
	w := polyGCD(a, b)
	t.Case("gcd %s, %s", a, b)
	t.NontrivialIf(w.degree(0) > 0)
	call := xE("PolynomialGCD", a.x(), b.x())
	got := ev(es, call)
	p, ok := polyOf(got)
	if !ok || !p.monic().same(w) {
		t.Failf("%s is %s instead of a multiple of %s", call, got, w)
	}
	want(t, es, xE("SquareFreeQ", a.x()), boolX(polyGCD(a, a.deriv()).degree(0) == 0))
}

// factorsOf splits a product of powers.
func factorsOf(x *X) (bases []*X, exps []int) {
	parts := []*X{x}
	if x.head("Times") {
		parts = x.args()
	}
	for _, f := range parts {
		e := 1
		if f.head("Power") && f.P[2].K == 'i' && f.P[2].N.IsInt64() {
			e, f = int(f.P[2].N.Int64()), f.P[1]
		}
		bases, exps = append(bases, f), append(exps, e)
	}
	return
}

func polyFactors(t *T) {
	es := t.ES()
	switch t.W(3, 3, 2, 1) {
	case 0:
		p := polyNum(zr(genCoef(t)))
		for k := t.Int(1, 3); k > 0; k-- {
			p = p.times(genUni(t, t.Int(1, 2)).pow(t.Int(1, 3)))
		}
		if p.degree(0) > 9 || p.degree(0) < 1 {
			t.Discard()
		}
		t.Case("FactorSquareFree %s", p)
		t.NontrivialIf(polyGCD(p, p.deriv()).degree(0) > 0)
		call := xE("FactorSquareFree", p.x())
		got := wantPoly(t, es, call, p)
		bases, _ := factorsOf(got)
		prod := polyNum(zr(big.NewRat(1, 1)))
		for _, f := range bases {
			q, _ := polyOf(f)
			prod = prod.times(q)
		}
		if polyGCD(prod, prod.deriv()).degree(0) != 0 {
			t.Failf("%s is %s, whose bases are not free of squares", call, got)
		}
	case 1:
		x, p := drawPoly(t, t.Int(0, 3), t.Int(1, 3), false)
		t.Case("FactorTerms %s", x)
		t.NontrivialIf(len(p) > 1)
		wantPoly(t, es, xE("FactorTerms", x), p)
		call := xE("FactorTermsList", x)
		got := ev(es, call)
		if !got.head("List") || len(got.args()) != 2 || !got.args()[0].isExact() {
			t.Failf("%s is %s", call, got)
		}
		c, rest := got.args()[0].rat(), got.args()[1]
		q, ok := polyOf(rest)
		if !ok || !q.scale(zr(c)).same(p) {
			t.Failf("%s is %s", call, got)
		}
		if len(p) == 0 {
			return
		}
		content := new(big.Int)
		for _, k := range q {
			if !k.re.IsInt() {
				t.Failf("%s leaves fractions: %s", call, got)
			}
			content.GCD(nil, nil, content, new(big.Int).Abs(k.re.Num()))
		}
		if content.Cmp(bi(1)) != 0 {
			t.Failf("%s leaves a common factor: %s", call, got)
		}
	case 2:
		x, p := drawPoly(t, t.Int(0, 3), t.Int(1, 3), false)
		t.Case("Factor %s", x)
		t.NontrivialIf(len(p) > 1)
		wantPoly(t, es, xE("Factor", x), p)
		wantPoly(t, es, xE("FactorSquareFree", p.x()), p)
	case 3:
		x := genAlgExact(t, 2)
		t.Case("Factor %s", x)
		t.NontrivialIf(size(x) > 3)
		for _, f := range []string{"Factor", "FactorSquareFree", "FactorTerms"} {
			if f == "FactorTerms" && contains(x, func(x *X) bool { return isNumeral(x) && !x.isNum() || x.K == 'c' }) {
				continue
			}
			call := xE(f, x)
			got := ev(es, call)
			if !contains(got, func(x *X) bool { return x.head("GCD") }) {
				wantValue(t, call, got, x)
			}
		}
	}
}

// inFraction tells whether x divides by something.
func inFraction(x *X) bool {
	return contains(x, func(x *X) bool {
		return x.K == 'r' || x.head("Power") && x.P[2].K == 'i' && x.P[2].N.Sign() < 0
	})
}

func polyFractions(t *T) {
	es := t.ES()
	var x *X
	whole := false
	term := func() *X {
		n, _ := drawPoly(t, t.Int(0, 1), 3, false)
		d, q := drawPoly(t, t.Int(0, 1), 3, false)
		if len(q) == 0 {
			t.Discard()
		}
		if len(q) > 5 {
			t.Discard()
		}
		return xE("Times", n, xE("Power", d, xi(-int64(1+t.W(4, 1)))))
	}
	switch t.W(3, 2, 1) {
	case 0:
		whole = true
		x = xE("Plus")
		for n := t.Int(1, 2); n > 0; n-- {
			x.P = append(x.P, term())
		}
	case 1:
		whole = true
		x = term()
		if t.Bool() {
			x = xE("Times", x, term())
		}
	case 2:
		x = genAlgExact(t, t.Int(1, 2))
	}
	for _, at := range polyPoints(t, 2) {
		if _, ok := algVal(x, at); !ok {
			t.Discard()
		}
	}
	t.Case("%s", x)
	t.NontrivialIf(contains(x, func(x *X) bool { return x.head("Power") && x.P[2].N.Sign() < 0 }) && contains(x, func(x *X) bool { return x.head("Plus") }))
	if whole && t.Bool() || t.P(1, 3) {
		call := xE("Together", x)
		got := ev(es, call)
		if contains(got, func(x *X) bool { return x.head("GCD") }) {
			t.Discard()
		}
		wantValue(t, call, got, x)
		return
	}
	n, d := ev(es, xE("Numerator", x)), ev(es, xE("Denominator", x))
	quot := xE("Times", n, xE("Power", d, xi(-1)))
	wantValue(t, xl(xE("Numerator", x), xE("Denominator", x)), quot, x)
	// Only factors of the product count: the parts of a sum stay as they are.
	at := ev(es, x)
	bases, exps := factorsOf(at)
	up, down := xE("Times"), xE("Times")
	for i, b := range bases {
		switch {
		case b.K == 'r':
			up.P, down.P = append(up.P, xI(b.rat().Num())), append(down.P, xI(b.rat().Denom()))
		case exps[i] < 0:
			down.P = append(down.P, xE("Power", b, xi(int64(-exps[i]))))
		default:
			up.P = append(up.P, xE("Power", b, xi(int64(exps[i]))))
		}
	}
	wantValue(t, xE("Numerator", at), n, up)
	wantValue(t, xE("Denominator", at), d, down)
}

func polyApart(t *T) {
	es := t.ES()
	v := glo("x")
	if t.P(1, 4) {
		x := genAlgExact(t, 2)
		for _, at := range polyPoints(t, 2) {
			if _, ok := algVal(x, at); !ok {
				t.Discard()
			}
		}
		t.Case("Apart %s", x)
		t.NontrivialIf(size(x) > 3)
		call := xE("Apart", x)
		if t.Bool() {
			call.P = append(call.P, v)
		}
		wantValue(t, call, ev(es, call), x)
		return
	}
	// Different linear factors, some of them with a coefficient or a power.
	n := t.Int(1, 3)
	den := xE("Times")
	seen := map[string]bool{}
	repeated := false
	for i := 0; i < n; i++ {
		a, b := int64(1), int64(t.Near(6))
		if t.P(1, 3) {
			a = int64(t.Int(2, 4))
		}
		root := big.NewRat(-b, a).String()
		if seen[root] {
			continue
		}
		seen[root] = true
		f := xE("Plus", xE("Times", xi(a), v), xi(b))
		if t.P(1, 4) {
			repeated = true
			f = xE("Power", f, xi(2))
		}
		den.P = append(den.P, xE("Power", f, xi(-1)))
	}
	num := genUni(t, t.Int(0, n+1))
	if t.P(1, 4) {
		num = polyNum(zr(genCoef(t)))
	}
	if len(num) == 0 {
		t.Discard()
	}
	x := xE("Times", append([]*X{num.x()}, den.args()...)...)
	call := xE("Apart", x, v)
	t.Case("%s", call)
	t.NontrivialIf(n > 1)
	got := ev(es, call)
	wantValue(t, call, got, x)
	if repeated {
		return
	}
	// Every denominator of the result has one factor with x.
	terms := []*X{got}
	if got.head("Plus") {
		terms = got.args()
	}
	for _, term := range terms {
		bases, exps := factorsOf(term)
		with, below := 0, 0
		for i, b := range bases {
			if !contains(b, func(x *X) bool { return x.S == "Global`x" }) {
				continue
			}
			with++
			if exps[i] < 0 {
				below++
			}
		}
		if below > 0 && with != 1 && len(den.args()) == 2 && ev(es, x).head("Times") {
			t.Failf("%s is %s: %s is not a partial fraction", call, got, term)
		}
	}
}

func polyKinds(t *T) {
	es := t.ES()
	i := t.Int(0, 2)
	v := glo(polyVars[i])
	x, p := drawPoly(t, t.Int(0, 2), 3, false)
	isPoly := true
	extra := ""
	if t.P(2, 3) {
		other := glo(polyVars[(i+1)%3])
		in := t.Bool()
		b := other
		if in {
			b = v
		}
		f := pbt.Of(t, xE("Power", b, xi(-int64(t.Int(1, 3)))), xE("Power", b, xq(big.NewRat(int64(2*t.Int(0, 2)+1), 2))),
			xE("Power", b, glo("w")), xE("Sin", b), xG("f", b, xi(1)), xE("Power", xi(2), b), xE("Log", xE("Plus", b, xi(1))))
		coef := xi(int64(t.Int(1, 5)))
		if t.Bool() {
			coef = xE("Times", coef, glo("u"))
		}
		if in || t.Bool() {
			x = xE("Plus", x, xE("Times", coef, f))
		} else {
			x = xE("Plus", x, xE("Times", coef, f, xE("Power", v, xi(2))))
		}
		isPoly, extra = !in, f.String()
	}
	t.Case("%s in %s %s", x, v, extra)
	t.NontrivialIf(len(p) > 1)
	want(t, es, xE("PolynomialQ", x, v), boolX(isPoly))
	if extra == "" {
		var all []*X
		e := ev(es, x)
		for _, n := range polyVars {
			if contains(e, func(x *X) bool { return x.S == "Global`"+n }) {
				all = append(all, glo(n))
			}
		}
		want(t, es, xE("Variables", x), xl(all...))
	}
}

func polyDistribute(t *T) {
	es := t.ES()
	atom := func() *X { return pbt.Of(t, glo("a"), glo("b"), glo("c"), glo("d"), xi(int64(t.Near(4)))) }
	over := pbt.Of(t, "Plus", "Plus", "g", "List")
	hd := func(h string, a []*X) *X {
		if h == "g" {
			return xG(h, a...)
		}
		return xE(h, a...)
	}
	var args []*X
	var choices [][]*X
	total := 1
	for n := t.Int(0, 3); n > 0; n-- {
		if t.Bool() {
			a := atom()
			args, choices = append(args, a), append(choices, []*X{a})
			continue
		}
		var l []*X
		for k := t.Int(2, 3); k > 0; k-- {
			l = append(l, atom())
		}
		s := ev(es, hd(over, l))
		if !s.head("Plus") && over == "Plus" {
			args, choices = append(args, s), append(choices, []*X{s})
			continue
		}
		total *= len(s.args())
		args, choices = append(args, s), append(choices, s.args())
	}
	outer := pbt.Of(t, "f", "f", "Times")
	if outer == "Times" && over != "Plus" || outer == "Times" && len(args) < 2 {
		outer = "f"
	}
	build := func(a []*X) *X {
		if outer == "Times" {
			return xE("Times", a...)
		}
		return xG("f", a...)
	}
	call := xE("Distribute", build(args))
	if over != "Plus" || t.Bool() {
		if over == "g" {
			call.P = append(call.P, glo("g"))
		} else {
			call.P = append(call.P, sys(over))
		}
	}
	t.Case("%s", call)
	t.NontrivialIf(total > 2)
	rows := [][]*X{nil}
	any := false
	for i, c := range choices {
		any = any || args[i].head(over) || over == "g" && len(c) > 1
		var next [][]*X
		for _, r := range rows {
			for _, e := range c {
				next = append(next, append(append([]*X{}, r...), e))
			}
		}
		rows = next
	}
	if outer == "Times" {
		// The product evaluates first: its value is what counts.
		got := ev(es, call)
		at := map[string]gz{}
		for i, n := range strings.Split("a b c d", " ") {
			at["Global`"+n] = zr(big.NewRat(int64(1000*i+1+t.Int(0, 900)), 7))
		}
		v, ok1 := algVal(build(args), at)
		w, ok2 := algVal(got, at)
		if !ok1 || !ok2 || !zeq(v, w) {
			t.Failf("%s is %s", call, got)
		}
		return
	}
	var sum []*X
	for _, r := range rows {
		sum = append(sum, build(r))
	}
	w := build(args)
	if any {
		w = hd(over, sum)
	}
	if over == "g" && !any || over == "List" && !any {
		// Without anything to distribute over, the head may or may not be added.
		got := ev(es, call)
		if a, b := ev(es, w), ev(es, hd(over, []*X{w})); !xeq(got, a) && !xeq(got, b) {
			t.Failf("%s is %s", call, got)
		}
		return
	}
	want(t, es, call, ev(es, w))
}
