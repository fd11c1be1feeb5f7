package props

import (
	"math/big"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C23",
		Title: "List functions compute what a plain list program would",
		Rule:  "parts: the expression has at least two elements or the request is out of range; build, sets: the result of some function has at least two elements",
		Facets: []pbt.Facet{
			{Name: "parts", Quick: 6000, Thorough: 150000, Batch: 400, Run: listParts},
			{Name: "build", Quick: 3000, Thorough: 80000, Batch: 300, Run: listBuild},
			{Name: "sets", Quick: 3000, Thorough: 80000, Batch: 300, Run: listSets},
			{Name: "select", Quick: 2500, Thorough: 60000, Batch: 250, Run: listSelect},
		},
	})
}

// listElem draws an evaluated expression, often one drawn before.
func listElem(t *T, es ES, pool *[]*X) *X {
	if len(*pool) > 0 && t.P(2, 5) {
		x := pbt.Pick(t, *pool)
		if t.P(1, 6) {
			x = ev(es, mutate(t, x))
		}
		return x
	}
	var x *X
	switch t.W(5, 2, 2, 1) {
	case 0:
		x = genSmall(t)
	case 1:
		x = glo(pbt.Of(t, "a", "b", "c"))
	case 2:
		x = genEvaluated(t, es, 2)
	case 3:
		x = ev(es, xl(genSmall(t), glo(pbt.Of(t, "a", "b"))))
	}
	*pool = append(*pool, x)
	return x
}

func listHead(t *T) *X {
	if t.P(1, 4) {
		return pbt.Of(t, glo("f"), xG("h", glo("a")), glo("g"))
	}
	return sys("List")
}

func listOf(h *X, l []*X) *X { return &X{K: 'e', P: append([]*X{h}, l...)} }

func genElems(t *T, es ES, pool *[]*X, max int) (l []*X) {
	for k := t.N(uint64(max + 1)); k > 0; k-- {
		l = append(l, listElem(t, es, pool))
	}
	return
}

// isPlain holds when an expression built from the parts stays as it is.
func isPlain(es ES, x *X) bool { return xeq(ev(es, x), x) }

// pick is the reference of Part: nil when the request is not valid.
func pick(x *X, idx []*X) *X {
	if len(idx) == 0 {
		return x
	}
	if x.K != 'e' {
		return nil
	}
	n := len(x.P) - 1
	i := idx[0]
	var want []int
	switch {
	case i.K == 'i':
		k := i.N
		if !k.IsInt64() {
			return nil
		}
		j := int(k.Int64())
		if k.CmpAbs(big.NewInt(int64(n))) > 0 {
			return nil
		}
		if j < 0 {
			j += n + 1
		}
		return pick(x.P[j], idx[1:])
	case i.K == 'y':
		for j := 1; j <= n; j++ {
			want = append(want, j)
		}
	default:
		end := func(e *X) (int, bool) {
			if e.K == 'y' {
				return n, true
			}
			if !e.N.IsInt64() || e.N.CmpAbs(big.NewInt(int64(n+1))) > 0 {
				return 0, false
			}
			j := int(e.N.Int64())
			if j < 0 {
				j += n + 1
			}
			return j, true
		}
		step := 1
		if len(i.P) == 4 {
			s := i.P[3].N
			step = int(s.Int64())
		}
		a, ok1 := end(i.P[1])
		b, ok2 := end(i.P[2])
		if !ok1 || !ok2 || step == 0 {
			return nil
		}
		if step > 0 && (a < 1 || b > n || a > b+1) || step < 0 && (a > n || b < 1 || a < b-1) {
			return nil
		}
		for j := a; step > 0 && j <= b || step < 0 && j >= b; j += step {
			want = append(want, j)
		}
	}
	out := []*X{x.P[0]}
	for _, j := range want {
		y := pick(x.P[j], idx[1:])
		if y == nil {
			return nil
		}
		out = append(out, y)
	}
	return &X{K: 'e', P: out}
}

func genIndex(t *T, n int) *X {
	switch t.W(12, 2, 1) {
	case 0:
		return xi(int64(t.Near(n + 1)))
	case 1:
		return xi(int64(t.Near(1)))
	}
	x := bigPow(64, int64(t.Near(n+1)))
	if t.Bool() {
		x.Neg(x)
	}
	return xI(x)
}

func genSpan(t *T, n int) *X {
	a, b := genIndex(t, n), genIndex(t, n)
	if t.P(1, 4) {
		b = sys("All")
	}
	if t.P(1, 2) {
		return xE("Span", a, b, xi(int64(t.Near(3))))
	}
	return xE("Span", a, b)
}

// samePart compares the result of a request with the reference; an invalid
// request has to leave something that is not a plain result.
func samePart(t *T, x, got, want *X, es ES, subject *X) {
	if want == nil {
		if !contains(got, func(y *X) bool { return y.head("Part") || y.head("Take") }) {
			t.Failf("%s is %s although the request is not valid", x, got)
		}
		return
	}
	if w := ev(es, want); !xeq(got, w) {
		t.Failf("%s is %s instead of %s", x, got, w)
	}
}

func listParts(t *T) {
	es := t.ES()
	pool := []*X{}
	var x *X
	if t.P(1, 3) { // a matrix
		rows := []*X{}
		for k := t.N(4); k > 0; k-- {
			rows = append(rows, listOf(listHead(t), genElems(t, es, &pool, 4)))
		}
		x = listOf(listHead(t), rows)
	} else {
		x = listOf(listHead(t), genElems(t, es, &pool, 7))
	}
	if !isPlain(es, x) {
		t.Discard()
	}
	n := len(x.P) - 1
	t.Case("%s", x)
	t.NontrivialIf(n >= 2)
	for k := 0; k < 3; k++ {
		var idx []*X
		y := x
		for d := t.Int(1, 2); d > 0; d-- {
			m := 0
			if y.K == 'e' {
				m = len(y.P) - 1
			}
			switch t.W(4, 1, 3) {
			case 0:
				i := genIndex(t, m)
				idx = append(idx, i)
				if z := pick(y, []*X{i}); z != nil {
					y = z
				}
			case 1:
				idx = append(idx, sys("All"))
				if m > 0 {
					y = y.P[1]
				}
			case 2:
				idx = append(idx, genSpan(t, m))
				if m > 0 {
					y = y.P[1]
				}
			}
		}
		q := xE("Part", append([]*X{x}, idx...)...)
		want := pick(x, idx)
		t.Logf("%s", q)
		t.NontrivialIf(want == nil)
		samePart(t, q, ev(es, q), want, es, x)
	}
	// Take
	var spec *X
	var want *X
	switch t.W(3, 2, 2) {
	case 0:
		spec = genIndex(t, n)
		switch k := spec.N; {
		case k.CmpAbs(big.NewInt(int64(n))) > 0:
		case k.Sign() >= 0:
			want = pick(x, []*X{xE("Span", xi(1), spec)})
		default:
			want = pick(x, []*X{xE("Span", spec, xi(-1))})
		}
	default:
		s := genSpan(t, n)
		spec = xl(s.P[1:]...)
		want = pick(x, []*X{s})
	}
	q := xE("Take", x, spec)
	t.Logf("%s", q)
	samePart(t, q, ev(es, q), want, es, x)
	// the ends
	if n > 0 {
		mustBe(t, es, xE("First", x), x.P[1])
		mustBe(t, es, xE("Last", x), x.P[n])
		mustBe(t, es, xE("Rest", x), listOf(x.P[0], x.P[2:]))
	} else {
		for _, f := range []string{"First", "Last", "Rest"} {
			q := xE(f, x)
			if got := ev(es, q); !xeq(got, q) {
				t.Failf("%s is %s", q, got)
			}
		}
	}
	mustBe(t, es, xE("Length", x), xi(int64(n)))
	mustBe(t, es, xE("Join", xE("Part", x, xE("Span", xi(1), xi(int64(n/2)))), xE("Part", x, xE("Span", xi(int64(n/2+1)), sys("All")))), x)
}

// mustBe fails unless x evaluates to the value of want.
func mustBe(t *T, es ES, x, want *X) {
	if got, w := ev(es, x), ev(es, want); !xeq(got, w) {
		t.Failf("%s is %s instead of %s", x, got, w)
	}
}

func listBuild(t *T) {
	es := t.ES()
	pool := []*X{}
	h := listHead(t)
	l := genElems(t, es, &pool, 6)
	x := listOf(h, l)
	if !isPlain(es, x) {
		t.Discard()
	}
	e := listElem(t, es, &pool)
	t.Case("%s and %s", x, e)
	t.NontrivialIf(len(l) >= 2)
	mustBe(t, es, xE("Append", x, e), listOf(h, append(append([]*X{}, l...), e)))
	mustBe(t, es, xE("Prepend", x, e), listOf(h, append([]*X{e}, l...)))
	rev := []*X{}
	for i := len(l) - 1; i >= 0; i-- {
		rev = append(rev, l[i])
	}
	mustBe(t, es, xE("Reverse", x), listOf(h, rev))
	// AppendTo and PrependTo in a row
	if h.K == 'y' && h.S == "System`List" {
		v := glo("v23")
		ev(es, xE("Set", v, x))
		cur := append([]*X{}, l...)
		for k := t.N(3); k > 0; k-- {
			y := listElem(t, es, &pool)
			if t.Bool() {
				cur = append(cur, y)
				mustBe(t, es, xE("AppendTo", v, y), listOf(h, cur))
			} else {
				cur = append([]*X{y}, cur...)
				mustBe(t, es, xE("PrependTo", v, y), listOf(h, cur))
			}
		}
		mustBe(t, es, v, listOf(h, cur))
		ev(es, xE("Clear", v))
	}
	// Join
	all := append([]*X{}, l...)
	args := []*X{x}
	for k := t.N(3); k > 0; k-- {
		m := genElems(t, es, &pool, 4)
		all = append(all, m...)
		args = append(args, listOf(h, m))
	}
	mustBe(t, es, xE("Join", args...), listOf(h, all))
	if q := xE("Join", append(args, xG("k", e))...); t.P(1, 3) {
		if got := ev(es, q); !contains(got, func(y *X) bool { return y.head("Join") }) {
			t.Failf("%s is %s", q, got)
		}
	}
	// padding
	n := t.Int(0, 8)
	pad := xi(0)
	pargs := []*X{x, xi(int64(n))}
	if t.Bool() && !e.head("List") {
		pad = e
		pargs = append(pargs, e)
	}
	right, left := []*X{}, []*X{}
	for i := 0; i < n; i++ {
		if i < len(l) {
			right = append(right, l[i])
		} else {
			right = append(right, pad)
		}
		if j := len(l) - n + i; j >= 0 {
			left = append(left, l[j])
		} else {
			left = append(left, pad)
		}
	}
	mustBe(t, es, xE("PadRight", pargs...), listOf(h, right))
	mustBe(t, es, xE("PadLeft", pargs...), listOf(h, left))
	if f := pbt.Of(t, "PadLeft", "PadRight"); t.P(1, 4) {
		// a count that no list can have is left alone
		q := xE(f, x, xI(bigPow(64, int64(t.Int(0, 3)))))
		if got := ev(es, q); !xeq(got, q) {
			t.Failf("%s is %s", q, clip(got.String()))
		}
	}
	rep := []*X{}
	for i := 0; i < n; i++ {
		rep = append(rep, e)
	}
	mustBe(t, es, xE("ConstantArray", e, xi(int64(n))), xl(rep...))
	// Range and its parts
	a, d := t.Near(5), t.Near(3)
	if d != 0 {
		r := []*X{}
		b := a + d*t.Int(0, 5)
		for i := a; d > 0 && i <= b || d < 0 && i >= b; i += d {
			r = append(r, xi(int64(i)))
		}
		mustBe(t, es, xE("Range", xi(int64(a)), xi(int64(b)), xi(int64(d))), xl(r...))
	}
}

func keyOf(x *X) string { return x.String() }

func listSets(t *T) {
	es := t.ES()
	pool := []*X{}
	h := listHead(t)
	lists := [][]*X{}
	args := []*X{}
	for k := t.Int(1, 3); k > 0; k-- {
		l := genElems(t, es, &pool, 6)
		x := listOf(h, l)
		if !isPlain(es, x) {
			t.Discard()
		}
		lists = append(lists, l)
		args = append(args, x)
	}
	t.Case("%s", xl(args...))
	count := make([]map[string]int, len(lists))
	for i, l := range lists {
		count[i] = map[string]int{}
		for _, x := range l {
			count[i][keyOf(x)]++
		}
	}
	uniq := func(ls ...[]*X) (out []*X) {
		seen := map[string]bool{}
		for _, l := range ls {
			for _, x := range l {
				if !seen[keyOf(x)] {
					seen[keyOf(x)] = true
					out = append(out, x)
				}
			}
		}
		return
	}
	keep := func(l []*X, f func(x *X) bool) (out []*X) {
		for _, x := range l {
			if f(x) {
				out = append(out, x)
			}
		}
		return
	}
	u := uniq(lists...)
	t.NontrivialIf(len(u) >= 2)
	// results that are sorted sets
	sorted := func(f string, want []*X) {
		q := xE(f, args...)
		got := ev(es, q)
		if got.K != 'e' || !xeq(got.P[0], h) || len(got.P)-1 != len(want) {
			t.Failf("%s is %s instead of the elements %s", q, got, xl(want...))
		}
		in := map[string]bool{}
		for _, x := range want {
			in[keyOf(x)] = true
		}
		for i, x := range got.P[1:] {
			if !in[keyOf(x)] {
				t.Failf("%s is %s instead of the elements %s", q, got, xl(want...))
			}
			if i > 0 && !xeq(ev(es, xE("Order", got.P[i], x)), xi(1)) {
				t.Failf("%s is %s: %s stands before %s", q, got, got.P[i], x)
			}
		}
	}
	sorted("Union", u)
	sorted("Intersection", keep(uniq(lists[0]), func(x *X) bool {
		for _, c := range count {
			if c[keyOf(x)] == 0 {
				return false
			}
		}
		return true
	}))
	sorted("Complement", keep(uniq(lists[0]), func(x *X) bool {
		for _, c := range count[1:] {
			if c[keyOf(x)] > 0 {
				return false
			}
		}
		return true
	}))
	d := uniq(lists[0])
	mustBe(t, es, xE("DeleteDuplicates", args[0]), listOf(h, d))
	tally := []*X{}
	for _, x := range d {
		tally = append(tally, xl(x, xi(int64(count[0][keyOf(x)]))))
	}
	mustBe(t, es, xE("Tally", xl(lists[0]...)), xl(tally...))
	s := ev(es, xE("Sort", args[0]))
	if len(s.P) != len(args[0].P) {
		t.Failf("Sort[%s] is %s", args[0], s)
	}
	c := map[string]int{}
	for i, x := range s.P[1:] {
		c[keyOf(x)]++
		if i > 0 && xeq(ev(es, xE("Order", s.P[i], x)), xi(-1)) {
			t.Failf("Sort[%s] is %s", args[0], s)
		}
	}
	for k, n := range c {
		if count[0][k] != n {
			t.Failf("Sort[%s] is %s", args[0], s)
		}
	}
}

// tests pairs predicates with patterns of the same meaning
var listTests = []struct {
	pat, fn *X
	f       func(x *X) bool
}{
	{blank(), xE("Function", sys("True")), func(x *X) bool { return true }},
	{xE("Blank", sys("Integer")), sys("IntegerQ"), func(x *X) bool { return x.K == 'i' }},
	{xE("Blank", sys("Symbol")), xE("Function", xE("SameQ", xE("Head", xE("Slot", xi(1))), sys("Symbol"))), func(x *X) bool { return x.K == 'y' }},
	{xE("Blank", sys("List")), sys("ListQ"), func(x *X) bool { return x.head("List") }},
	{xE("PatternTest", blank(), sys("EvenQ")), sys("EvenQ"), func(x *X) bool { return x.K == 'i' && x.N.Bit(0) == 0 }},
	{xE("Except", xE("Blank", sys("Integer"))), xE("Function", xE("Not", xE("IntegerQ", xE("Slot", xi(1))))), func(x *X) bool { return x.K != 'i' }},
}

func listSelect(t *T) {
	es := t.ES()
	pool := []*X{}
	h := listHead(t)
	l := genElems(t, es, &pool, 8)
	x := listOf(h, l)
	if !isPlain(es, x) {
		t.Discard()
	}
	pat, fn, f := blank(), (*X)(nil), (func(x *X) bool)(nil)
	switch t.W(3, 2) {
	case 0:
		c := pbt.Pick(t, listTests)
		pat, fn, f = c.pat, c.fn, c.f
	case 1: // a literal
		e := listElem(t, es, &pool)
		pat = e
		fn = xE("Function", xE("SameQ", xE("Slot", xi(1)), e))
		f = func(x *X) bool { return xeq(x, e) }
		if contains(e, func(y *X) bool { return y.K == 'y' && (y.S == "System`Blank" || y.S == "System`Pattern") }) {
			t.Discard()
		}
	}
	yes, no := []*X{}, []*X{}
	for _, y := range l {
		if f(y) {
			yes = append(yes, y)
		} else {
			no = append(no, y)
		}
	}
	t.Case("%s with %s", x, pat)
	t.NontrivialIf(len(yes) > 0 && len(no) > 0)
	mustBe(t, es, xE("Select", x, fn), listOf(h, yes))
	n := t.Int(0, len(yes)+1)
	first := yes
	if n < len(yes) {
		first = yes[:n]
	}
	mustBe(t, es, xE("Select", x, fn, xi(int64(n))), listOf(h, first))
	mustBe(t, es, xE("Cases", x, pat), xl(yes...))
	mustBe(t, es, xE("DeleteCases", x, pat), listOf(h, no))
	mustBe(t, es, xE("Count", x, pat), xi(int64(len(yes))))
	mustBe(t, es, xE("MemberQ", x, pat), pbool(len(yes) > 0))
	// every element chosen is passed through the rule once
	tag := []*X{}
	for _, y := range yes {
		tag = append(tag, xG("tag", y))
	}
	rule := pbt.Of(t, "Rule", "RuleDelayed")
	mustBe(t, es, xE("Cases", x, xE(rule, xE("Pattern", glo("p23"), pat), xG("tag", glo("p23")))), xl(tag...))
	// the function is called once for every element, in order, and not after
	// a throw
	if len(l) > 0 {
		v := glo("calls23")
		stop := t.Int(0, len(l))
		ev(es, xE("Set", v, xl()))
		call := xE("Function", xE("CompoundExpression", xE("AppendTo", v, xE("Slot", xi(1))),
			xE("If", xE("GreaterEqual", xE("Length", v), xi(int64(stop+1))), xE("Throw", glo("out23"))), sys("False")))
		got := ev(es, xE("Catch", xE("Select", x, call)))
		want := listOf(h, nil)
		if stop < len(l) {
			want = glo("out23")
		}
		if !xeq(got, ev(es, want)) {
			t.Failf("a throw from call %d of the predicate on %s gives %s", stop+1, x, got)
		}
		k := stop + 1
		if k > len(l) {
			k = len(l)
		}
		mustBe(t, es, v, xl(l[:k]...))
	}
}
