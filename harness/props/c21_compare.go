package props

import (
	"math"
	"math/big"
	"sort"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C21",
		Title: "Comparisons and extrema on numbers are mathematically correct",
		Rule:  "pairs and chains: at least two of the numbers are within a relative distance of 2^-20, equal in value, or of different kinds; roots: an irrational number is compared with a rational one",
		Facets: []pbt.Facet{
			{Name: "pairs", Quick: 8000, Thorough: 200000, Batch: 500, Run: comparePairs},
			{Name: "chains", Quick: 4000, Thorough: 100000, Batch: 500, Run: compareChains},
			{Name: "roots", Quick: 600, Thorough: 10000, Batch: 50, Run: compareRoots},
		},
	})
}

func genRealNumber(t *T) *X {
	switch t.W(3, 2, 3, 2) {
	case 1:
		return xI(t.Big(130))
	case 2:
		return xq(genRat(t, 30))
	case 3:
		return xf(genFloat(t))
	}
	return genSmall(t)
}

// closeNumber draws a number of any kind close to x or equal in value.
func closeNumber(t *T, x *X) *X {
	r := x.rat()
	switch t.W(3, 3, 3, 2, 2, 2, 1) {
	case 0:
		return genRealNumber(t)
	case 1: // the nearest real
		f, _ := r.Float64()
		if math.IsInf(f, 0) {
			return x
		}
		return xf(f)
	case 2: // the exact value
		return xq(r)
	case 3: // next to it
		return xq(radd(r, big.NewRat(int64(t.Near(2)), 1)))
	case 4:
		d := new(big.Rat).SetFrac(bi(int64(t.Near(3))), new(big.Int).Lsh(bi(1), uint(t.Int(1, 130))))
		return xq(radd(r, d))
	case 5: // a neighbouring real
		f, _ := r.Float64()
		if math.IsInf(f, 0) {
			return x
		}
		for k := t.Int(1, 3); k > 0; k-- {
			f = math.Nextafter(f, math.Inf(pbt.Of(t, 1, -1)))
		}
		if f != 0 && math.Abs(f) < 1e-290 {
			f = 0
		}
		return xf(f)
	}
	return xq(rneg(r))
}

func isClose(a, b *big.Rat) bool {
	d := radd(a, rneg(b))
	d.Abs(d)
	m := new(big.Rat).Abs(a)
	if n := new(big.Rat).Abs(b); n.Cmp(m) > 0 {
		m = n
	}
	return d.Cmp(new(big.Rat).Mul(m, big.NewRat(1, 1<<20))) <= 0
}

// equalTruth tells what Equal has to say: 1, 0, or -1 when rounding decides.
func equalTruth(a, b *X) int {
	x, y := a.rat(), b.rat()
	if x.Cmp(y) == 0 {
		return 1
	}
	if a.K != 'f' && b.K != 'f' {
		return 0
	}
	d := radd(x, rneg(y))
	d.Abs(d)
	m := new(big.Rat).Abs(x)
	if n := new(big.Rat).Abs(y); n.Cmp(m) > 0 {
		m = n
	}
	switch {
	case d.Cmp(new(big.Rat).Mul(m, new(big.Rat).SetFrac64(1, 1<<49))) <= 0:
		return 1
	case d.Cmp(new(big.Rat).Mul(m, new(big.Rat).SetFrac64(1, 1<<40))) >= 0:
		return 0
	}
	return -1
}

func mustBool(t *T, es ES, x *X, want bool) {
	if got := ev(es, x); !xeq(got, pbool(want)) {
		t.Failf("%s is %s instead of %v", x, got, want)
	}
}

func comparePairs(t *T) {
	es := t.ES()
	a := genRealNumber(t)
	b := closeNumber(t, a)
	if t.Bool() {
		a, b = b, a
	}
	t.Case("%s with %s", a, b)
	t.NontrivialIf(a.K != b.K || isClose(a.rat(), b.rat()))
	c := a.rat().Cmp(b.rat())
	mustBool(t, es, xE("Less", a, b), c < 0)
	mustBool(t, es, xE("Greater", a, b), c > 0)
	mustBool(t, es, xE("LessEqual", a, b), c <= 0)
	mustBool(t, es, xE("GreaterEqual", a, b), c >= 0)
	switch equalTruth(a, b) {
	case 1:
		mustBool(t, es, xE("Equal", a, b), true)
		mustBool(t, es, xE("Unequal", a, b), false)
	case 0:
		mustBool(t, es, xE("Equal", a, b), false)
		mustBool(t, es, xE("Unequal", a, b), true)
	case -1:
		if e := ev(es, xE("Equal", a, b)); !xeq(e, pbool(true)) && !xeq(e, pbool(false)) || !xeq(ev(es, xE("Unequal", a, b)), ev(es, xE("Not", e))) {
			t.Failf("Equal and Unequal of %s and %s are %s and %s", a, b, e, ev(es, xE("Unequal", a, b)))
		}
	}
	s := a.rat().Sign()
	mustBool(t, es, xE("Positive", a), s > 0)
	mustBool(t, es, xE("Negative", a), s < 0)
	if got := ev(es, xE("Sign", a)); !got.isNum() || got.rat() == nil || got.rat().Cmp(big.NewRat(int64(s), 1)) != 0 {
		t.Failf("Sign[%s] is %s", a, got)
	}
	for _, f := range []string{"Max", "Min"} {
		got := ev(es, xE(f, a, b))
		want := a
		if (f == "Max") == (c < 0) {
			want = b
		}
		if !xeq(got, want) && !(c == 0 && (xeq(got, a) || xeq(got, b))) {
			t.Failf("%s[%s, %s] is %s", f, a, b, got)
		}
	}
	// what is not a real number is not decided
	u := pbt.Of(t, glo("u21"), xG("g21", a), xz(big.NewRat(1, 1), big.NewRat(int64(1+t.N(3)), 1)), xE("Plus", glo("u21"), b))
	op := pbt.Of(t, "Less", "Greater", "LessEqual", "GreaterEqual", "Equal", "Unequal")
	x := xE(op, a, u)
	if t.Bool() {
		x = xE(op, u, a)
	}
	got := ev(es, x)
	if u.K == 'c' && (op == "Equal" || op == "Unequal") {
		if !xeq(got, pbool(op == "Unequal")) {
			t.Failf("%s is %s", x, got)
		}
	} else if xeq(got, pbool(true)) || xeq(got, pbool(false)) {
		t.Failf("%s is %s", x, got)
	}
}

func compareChains(t *T) {
	es := t.ES()
	l := []*X{genRealNumber(t)}
	for k := t.Int(1, 4); k > 0; k-- {
		l = append(l, closeNumber(t, pbt.Pick(t, l)))
	}
	if t.Bool() {
		sort.SliceStable(l, func(i, j int) bool { return l[i].rat().Cmp(l[j].rat()) < 0 })
	}
	t.Case("%s", xl(l...))
	op := pbt.Of(t, "Less", "Greater", "LessEqual", "GreaterEqual")
	want := true
	for i := 1; i < len(l); i++ {
		c := l[i-1].rat().Cmp(l[i].rat())
		ok := map[string]bool{"Less": c < 0, "Greater": c > 0, "LessEqual": c <= 0, "GreaterEqual": c >= 0}[op]
		want = want && ok
		t.NontrivialIf(isClose(l[i-1].rat(), l[i].rat()) || l[i-1].K != l[i].K)
	}
	mustBool(t, es, xE(op, l...), want)

	// a chain with something undecided in it
	u := append(append([]*X{}, l...), glo("u21"))
	i := t.Int(0, len(l))
	u[i], u[len(l)] = u[len(l)], u[i]
	if got := ev(es, xE(op, u...)); xeq(got, pbool(true)) {
		t.Failf("%s is True", xE(op, u...))
	}

	// extreme values of nested lists in any order
	p := t.Perm(len(l))
	args := []*X{}
	for _, i := range p {
		args = append(args, l[i])
	}
	if len(args) > 1 && t.Bool() {
		k := t.Int(1, len(args)-1)
		args = append(append([]*X{}, args[:k]...), xl(args[k:]...))
	}
	for _, f := range []string{"Max", "Min"} {
		best := l[0]
		for _, x := range l {
			if c := x.rat().Cmp(best.rat()); f == "Max" && c > 0 || f == "Min" && c < 0 {
				best = x
			}
		}
		same := func(got *X) bool {
			return got.isNum() && got.rat() != nil && got.rat().Cmp(best.rat()) == 0
		}
		if got := ev(es, xE(f, args...)); !same(got) {
			t.Failf("%s is %s", xE(f, args...), got)
		}
		x := xE(f, append(append([]*X{}, args...), glo("u21"))...)
		got := ev(es, x)
		ok := got.head(f) && len(got.P) == 3
		if ok {
			ok = same(got.P[1]) && xeq(got.P[2], glo("u21")) || same(got.P[2]) && xeq(got.P[1], glo("u21"))
		}
		if !ok {
			t.Failf("%s is %s", x, got)
		}
	}
	// Equal of several: all pairs
	all, some := true, false
	for _, x := range l[1:] {
		switch equalTruth(l[0], x) {
		case 0:
			all = false
		case -1:
			some = true
		}
	}
	if !some {
		mustBool(t, es, xE("Equal", l...), all)
	}
}

func compareRoots(t *T) {
	es := t.ES()
	n := int64(t.Int(2, 300))
	var x *X
	var v float64
	switch t.W(4, 2, 1, 1, 1) {
	case 0:
		x, v = xE("Power", xi(n), xq(bigRat(1, 2))), math.Sqrt(float64(n))
	case 1:
		x, v = xE("Power", xi(n), xq(bigRat(1, 3))), math.Cbrt(float64(n))
	case 2:
		x, v = sys("Pi"), math.Pi
	case 3:
		x, v = sys("E"), math.E
	case 4:
		x, v = xE("Log", xi(n)), math.Log(float64(n))
	}
	if t.P(1, 3) {
		k := int64(t.Near(9))
		x, v = xE("Plus", x, xi(k)), v+float64(k)
	}
	if t.P(1, 4) {
		x, v = xE("Times", xi(-1), x), -v
	}
	d := int64(t.Int(1, 1000))
	num := int64(math.Floor(v * float64(d)))
	y := xq(bigRat(num+int64(t.Near(2)), d))
	if t.P(1, 4) {
		f, _ := y.rat().Float64()
		y = xf(f)
	}
	w, _ := y.rat().Float64()
	if math.Abs(v-w) < 1e-9 {
		t.Discard()
	}
	t.Case("%s with %s", x, y)
	t.Nontrivial()
	a, b := x, y
	if t.Bool() {
		a, b, v, w = y, x, w, v
	}
	mustBool(t, es, xE("Less", a, b), v < w)
	mustBool(t, es, xE("Greater", a, b), v > w)
	mustBool(t, es, xE("LessEqual", a, b), v <= w)
	mustBool(t, es, xE("GreaterEqual", a, b), v >= w)
	mustBool(t, es, xE("Equal", a, b), false)
	if got := ev(es, xE("Unequal", a, b)); xeq(got, pbool(false)) {
		t.Failf("%s is False", xE("Unequal", a, b))
	}
	for _, f := range []string{"Max", "Min"} {
		got := ev(es, xE(f, a, b))
		if got.head(f) {
			continue
		}
		want := a
		if (f == "Max") == (v < w) {
			want = b
		}
		if !xeq(got, ev(es, want)) {
			t.Failf("%s is %s", xE(f, a, b), got)
		}
	}
}
