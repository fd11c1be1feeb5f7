package props

import (
	"math/big"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C25",
		Title: "Functional iteration applies functions exactly as specified",
		Rule:  "fold, nest, while, fixed: the function is applied at least twice; slots: the body has a slot below the top and a nested function or a repeated slot",
		Facets: []pbt.Facet{
			{Name: "fold", Quick: 2500, Thorough: 60000, Batch: 250, Run: iterFold},
			{Name: "nest", Quick: 2500, Thorough: 60000, Batch: 250, Run: iterNest},
			{Name: "while", Quick: 3000, Thorough: 80000, Batch: 250, Run: iterWhile},
			{Name: "fixed", Quick: 1500, Thorough: 40000, Batch: 250, Run: iterFixed},
			{Name: "slots", Quick: 5000, Thorough: 100000, Batch: 400, Run: iterSlots},
		},
	})
}

// logged makes a function that notes its arguments in the list l25.
func logged(t *T, n int, body *X) *X {
	args := []*X{}
	for i := 1; i <= n; i++ {
		args = append(args, xE("Slot", xi(int64(i))))
	}
	f := xE("Function", xE("CompoundExpression", xE("AppendTo", glo("l25"), xl(args...)), body))
	if t.Bool() {
		return f
	}
	// the same with named parameters
	names := []*X{}
	for i := 1; i <= n; i++ {
		names = append(names, glo(string(rune('p'+i))+"25"))
	}
	var sub func(x *X) *X
	sub = func(x *X) *X {
		if x.head("Slot") {
			return names[x.P[1].N.Int64()-1]
		}
		if x.K != 'e' {
			return x
		}
		out := &X{K: 'e'}
		for _, c := range x.P {
			out.P = append(out.P, sub(c))
		}
		return out
	}
	params := xl(names...)
	if n == 1 && t.Bool() {
		params = names[0]
	}
	return xE("Function", params, sub(f.P[1]))
}

// unary is a function with its reference.
type unary struct {
	body *X
	f    func(x *X) *X
}

func intOf(x *X) *big.Int {
	if x.K != 'i' {
		return nil
	}
	return x.N
}

func slot1() *X { return xE("Slot", xi(1)) }
func slot2() *X { return xE("Slot", xi(2)) }

// genUnary draws a function on integers or on anything.
func genUnary(t *T) unary {
	k := int64(t.Near(3))
	m := int64(t.Int(2, 9))
	switch t.W(3, 2, 2, 2, 2) {
	case 1:
		return unary{xE("Plus", slot1(), xi(k)), func(x *X) *X { return xI(new(big.Int).Add(x.N, bi(k))) }}
	case 2: // never ends in a fixed point or ends early
		return unary{xE("Mod", xE("Plus", xE("Times", slot1(), slot1()), xi(k)), xi(m)), func(x *X) *X {
			v := new(big.Int).Mul(x.N, x.N)
			v.Add(v, bi(k))
			return xI(v.Mod(v, bi(m)))
		}}
	case 3:
		return unary{xE("If", xE("Greater", slot1(), xi(k)), xE("Plus", slot1(), xi(-1)), slot1()), func(x *X) *X {
			if x.N.Cmp(bi(k)) > 0 {
				return xI(new(big.Int).Sub(x.N, bi(1)))
			}
			return x
		}}
	case 4: // Collatz
		return unary{xE("If", xE("EvenQ", slot1()), xE("Times", slot1(), xq(bigRat(1, 2))), xE("Plus", xE("Times", xi(3), slot1()), xi(1))), func(x *X) *X {
			if x.N.Bit(0) == 0 {
				return xI(new(big.Int).Rsh(x.N, 1))
			}
			v := new(big.Int).Mul(x.N, bi(3))
			return xI(v.Add(v, bi(1)))
		}}
	}
	return unary{xG("u25", slot1()), func(x *X) *X { return xG("u25", x) }}
}

func clearLog(es ES) { ev(es, xE("Set", glo("l25"), xl())) }

// mustLog checks value and calls of an expression.
func mustLog(t *T, es ES, q, want *X, calls []*X) {
	clearLog(es)
	if got := ev(es, q); !xeq(got, want) {
		t.Failf("%s is %s instead of %s", q, got, want)
	}
	if got := ev(es, glo("l25")); !xeq(got, xl(calls...)) {
		t.Failf("%s calls the function on %s instead of %s", q, got, xl(calls...))
	}
}

func iterFold(t *T) {
	es := t.ES()
	n := t.N(6)
	l := []*X{}
	ints := t.Bool()
	el := func() *X {
		if ints || t.P(2, 3) {
			return xi(int64(t.Near(9)))
		}
		return pbt.Of(t, glo("a"), xl(), xl(glo("a"), xi(1)), xs("s"))
	}
	for ; n > 0; n-- {
		l = append(l, el())
	}
	h := listHead(t)
	x := el()
	body := xG("v25", slot1(), slot2())
	f := func(a, b *X) *X { return xG("v25", a, b) }
	if ints {
		switch t.W(1, 1, 1) {
		case 1:
			body = xE("Plus", xE("Times", xi(2), slot1()), slot2())
			f = func(a, b *X) *X { return xI(new(big.Int).Add(new(big.Int).Lsh(a.N, 1), b.N)) }
		case 2:
			body = slot2()
			f = func(a, b *X) *X { return b }
		}
	}
	fn := logged(t, 2, body)
	t.Case("%s %s %s", fn, x, listOf(h, l))
	t.NontrivialIf(len(l) >= 2)
	cur, all, calls := x, []*X{x}, []*X{}
	for _, y := range l {
		calls = append(calls, xl(cur, y))
		cur = f(cur, y)
		all = append(all, cur)
	}
	mustLog(t, es, xE("FoldList", fn, x, listOf(h, l)), listOf(h, all), calls)
	mustLog(t, es, xE("Fold", fn, x, listOf(h, l)), cur, calls)
	whole := listOf(h, append([]*X{x}, l...))
	mustLog(t, es, xE("FoldList", fn, whole), listOf(h, all), calls)
	mustLog(t, es, xE("Fold", fn, whole), cur, calls)
	// a throw ends the fold
	if len(calls) > 0 {
		k := t.Int(1, len(calls))
		stop := xE("Function", xE("CompoundExpression", fn2(fn, 2), xE("If", xE("GreaterEqual", xE("Length", glo("l25")), xi(int64(k))), xE("Throw", glo("out25"))), body))
		mustLog(t, es, xE("Catch", xE(pbt.Of(t, "Fold", "FoldList"), stop, x, listOf(h, l))), glo("out25"), calls[:k])
	}
	// other functions that call a function once per element
	calls1 := []*X{}
	vals := []*X{}
	un := unary{xG("u25", slot1()), func(x *X) *X { return xG("u25", x) }}
	for _, y := range l {
		calls1 = append(calls1, xl(y))
		vals = append(vals, un.f(y))
	}
	fn1 := logged(t, 1, un.body)
	mustLog(t, es, xE("Map", fn1, listOf(h, l)), listOf(h, vals), calls1)
	mustLog(t, es, xE("Scan", fn1, listOf(h, l)), sys("Null"), calls1)
	idx, tags := []*X{}, []*X{}
	for i := range l {
		idx = append(idx, xl(xi(int64(i+1))))
		tags = append(tags, un.f(xi(int64(i+1))))
	}
	mustLog(t, es, xE("Array", fn1, xi(int64(len(l)))), xl(tags...), idx)
	// Select stops when it has found as many as wanted
	chosen := []*X{glo("z25")}
	for _, y := range l {
		if t.Bool() {
			chosen = append(chosen, y)
		}
	}
	in := func(y *X) bool {
		for _, c := range chosen {
			if xeq(c, y) {
				return true
			}
		}
		return false
	}
	max := t.Int(0, len(l)+1)
	found, calls2, all2 := []*X{}, []*X{}, []*X{}
	for i, y := range l {
		if len(found) < max {
			calls2 = append(calls2, calls1[i])
			if in(y) {
				found = append(found, y)
			}
		}
		if in(y) {
			all2 = append(all2, y)
		}
	}
	sel := logged(t, 1, xE("MemberQ", xl(chosen...), slot1()))
	mustLog(t, es, xE("Select", listOf(h, l), sel), listOf(h, all2), calls1)
	mustLog(t, es, xE("Select", listOf(h, l), sel, xi(int64(max))), listOf(h, found), calls2)
	if len(calls1) > 0 {
		k := t.Int(1, len(calls1))
		stop := xE("Function", xE("CompoundExpression", fn2(fn1, 1), xE("If", xE("GreaterEqual", xE("Length", glo("l25")), xi(int64(k))), xE("Throw", glo("out25"))), sys("True")))
		q := pbt.Of(t, xE("Map", stop, listOf(h, l)), xE("Scan", stop, listOf(h, l)), xE("Select", listOf(h, l), stop))
		mustLog(t, es, xE("Catch", q), glo("out25"), calls1[:k])
	}
	if len(l) >= 2 {
		g := logged(t, len(l), xG("w25", slot2(), slot1()))
		mustLog(t, es, xE("Apply", g, listOf(h, l)), xG("w25", l[1], l[0]), []*X{xl(l...)})
	}
}

// fn2 is the part of a logged function that notes its arguments.
func fn2(fn *X, n int) *X {
	args := []*X{}
	for i := 1; i <= n; i++ {
		args = append(args, xE("Slot", xi(int64(i))))
	}
	return xE("AppendTo", glo("l25"), xl(args...))
}

func iterNest(t *T) {
	es := t.ES()
	u := genUnary(t)
	x := xi(int64(t.Near(9)))
	fn := logged(t, 1, u.body)
	n := t.N(7)
	t.Case("%s %s %d", fn, x, n)
	t.NontrivialIf(n >= 2)
	cur, all, calls := x, []*X{x}, []*X{}
	for i := 0; i < int(n); i++ {
		calls = append(calls, xl(cur))
		cur = u.f(cur)
		all = append(all, cur)
	}
	mustLog(t, es, xE("NestList", fn, x, xi(int64(n))), xl(all...), calls)
	mustLog(t, es, xE("Nest", fn, x, xi(int64(n))), cur, calls)
	if len(calls) > 0 {
		k := t.Int(1, len(calls))
		stop := xE("Function", xE("CompoundExpression", fn2(fn, 1), xE("If", xE("GreaterEqual", xE("Length", glo("l25")), xi(int64(k))), xE("Throw", glo("out25"))), u.body))
		mustLog(t, es, xE("Catch", xE(pbt.Of(t, "Nest", "NestList"), stop, x, xi(int64(n)))), glo("out25"), calls[:k])
	}
	// impossible counts do nothing
	bad := pbt.Of(t, xi(-1), glo("a"), xf(1.5), xI(bigPow(64, int64(n))), xI(new(big.Int).Neg(bigPow(64, 0))))
	f := pbt.Of(t, "Nest", "NestList", "Array")
	clearLog(es)
	q := xE(f, fn, x, bad)
	if f == "Array" {
		q = xE(f, fn, bad)
	}
	got := ev(es, q)
	if !contains(got, func(y *X) bool { return y.head(f) || f == "Nest" && y.head("NestList") }) {
		t.Failf("%s is %s", q, clip(got.String()))
	}
	if l := ev(es, glo("l25")); !xeq(l, xl()) {
		t.Failf("%s calls the function on %s", q, clip(l.String()))
	}
}

func iterWhile(t *T) {
	es := t.ES()
	u := genUnary(t)
	x := xi(int64(t.Near(12)))
	fn := logged(t, 1, u.body)
	limit := int64(t.Int(0, 6))
	// the test sees the last m results
	m := t.Int(0, 3)
	all := t.P(1, 8)
	if all {
		m = 1
	}
	var test *X
	var holds func(l []*X) bool
	log := xE("AppendTo", glo("t25"), xl(func() (s []*X) {
		for i := 1; i <= m; i++ {
			s = append(s, xE("Slot", xi(int64(i))))
		}
		return
	}()...))
	steps := 0
	cond := func(c *X) *X { return xE("Function", xE("CompoundExpression", log, c)) }
	switch t.W(2, 2, 2, 1) {
	case 0: // a counter decides
		test = cond(xE("Less", xE("Length", glo("t25")), xi(limit+1)))
		holds = func(l []*X) bool { steps++; return steps <= int(limit) }
	case 1:
		if m == 0 {
			m = 1
			log.P[2] = xl(slot1())
		}
		test = cond(xE("UnsameQ", xE("Slot", xi(int64(m))), xi(limit)))
		holds = func(l []*X) bool { return !xeq(l[m-1], xi(limit)) }
	case 2:
		m = 2
		all = false
		log.P[2] = xl(slot1(), slot2())
		test = cond(xE("UnsameQ", slot1(), slot2()))
		holds = func(l []*X) bool { return !xeq(l[0], l[1]) }
	case 3: // something that is not True ends it
		test = cond(pbt.Of(t, sys("False"), glo("a"), xi(1), sys("Null")))
		holds = func(l []*X) bool { return false }
	}
	max := int64(t.Int(0, 12))
	extra := int64(t.Int(0, 3))
	args := []*X{fn, x, test}
	form := t.W(1, 2, 3, 2)
	if form == 0 && m == 1 && !all {
		// the default window
	} else {
		form = form | 1
		mx := xi(int64(m))
		if all {
			mx = sys("All")
		}
		args = append(args, mx)
	}
	// without a limit the loop has to end on its own
	ref := func(max, extra int64) (res, calls, tests []*X, done bool) {
		steps = 0
		res = []*X{x}
		for i := int64(0); max < 0 || i < max; i++ {
			if i > 60 {
				return nil, nil, nil, false
			}
			if len(res) >= m {
				w := res[len(res)-m:]
				if all {
					w = res
				}
				tests = append(tests, xl(w[:m]...))
				if all && len(w) >= m {
					w = w[:m]
				}
				if !holds(w) {
					break
				}
			}
			calls = append(calls, xl(res[len(res)-1]))
			res = append(res, u.f(res[len(res)-1]))
		}
		for i := int64(0); i < extra; i++ {
			calls = append(calls, xl(res[len(res)-1]))
			res = append(res, u.f(res[len(res)-1]))
		}
		return res, calls, tests, true
	}
	mx, ex := int64(-1), int64(0)
	res, calls, tests, done := ref(mx, ex)
	if !done || len(args) == 4 && t.Bool() {
		if len(args) == 3 {
			args = append(args, xi(int64(m)))
		}
		mx = max
		args = append(args, xi(max))
		if t.Bool() {
			ex = extra
			args = append(args, xi(extra))
		}
		res, calls, tests, _ = ref(mx, ex)
	} else if len(args) == 4 && t.P(1, 3) {
		ex = extra
		args = append(args, sys("Infinity"), xi(extra))
		res, calls, tests, _ = ref(-1, ex)
	}
	t.Case("%s", xE("NestWhileList", args...))
	t.NontrivialIf(len(calls) >= 2)
	for _, f := range []string{"NestWhileList", "NestWhile"} {
		ev(es, xE("Set", glo("t25"), xl()))
		want := xl(res...)
		if f == "NestWhile" {
			want = res[len(res)-1]
		}
		mustLog(t, es, xE(f, args...), want, calls)
		if got := ev(es, glo("t25")); !xeq(got, xl(tests...)) {
			t.Failf("%s calls the test on %s instead of %s", xE(f, args...), got, xl(tests...))
		}
	}
}

func iterFixed(t *T) {
	es := t.ES()
	x := xi(int64(t.Near(12)))
	u := genUnary(t)
	for k := 0; k < 6; k++ {
		c := x
		ends := false
		for i := 0; i < 50 && !ends && c.K == 'i'; i++ {
			n := u.f(c)
			ends = xeq(c, n)
			c = n
		}
		if ends {
			break
		}
		u = genUnary(t)
	}
	fn := logged(t, 1, u.body)
	t.Case("%s %s", fn, x)
	res, calls := []*X{x}, []*X{}
	for {
		c := res[len(res)-1]
		if c.K != 'i' {
			t.Discard()
		}
		n := u.f(c)
		calls = append(calls, xl(c))
		res = append(res, n)
		if xeq(c, n) {
			break
		}
		if len(res) > 60 {
			t.Discard()
		}
	}
	t.NontrivialIf(len(calls) >= 2)
	mustLog(t, es, xE("FixedPointList", fn, x), xl(res...), calls)
	mustLog(t, es, xE("FixedPoint", fn, x), res[len(res)-1], calls)
}

// genBody draws the body of a pure function with inert heads.
func genBody(t *T, depth, nslots int, names []*X) *X {
	if depth <= 0 || t.P(1, 4) {
		switch t.W(4, 2, 1) {
		case 1:
			return pbt.Pick(t, append([]*X{glo("a")}, names...))
		case 2:
			return genSmall(t)
		}
		if nslots == 0 {
			return glo("c")
		}
		return xE("Slot", xi(int64(t.Int(1, nslots))))
	}
	switch t.W(5, 2, 2) {
	case 1: // a function inside
		n := t.Int(1, 2)
		f := xE("Function", genBody(t, depth-1, n, names))
		if t.Bool() { // applied
			args := []*X{}
			for i := 0; i < n; i++ {
				args = append(args, genBody(t, depth-1, nslots, names))
			}
			return xe(f, args...)
		}
		return xG("g25", f)
	case 2: // named parameters, all different
		k := t.Int(1, 2)
		ps := []*X{}
		for i := 0; i < k; i++ {
			ps = append(ps, glo(string(rune('p'+len(names)+i))+"25"))
		}
		f := xE("Function", xl(ps...), genBody(t, depth-1, nslots, append(append([]*X{}, names...), ps...)))
		args := []*X{}
		for i := 0; i < k; i++ {
			args = append(args, genBody(t, depth-1, nslots, names))
		}
		return xe(f, args...)
	}
	args := []*X{}
	for k := t.N(4); k > 0; k-- {
		args = append(args, genBody(t, depth-1, nslots, names))
	}
	return listOf(pbt.Of(t, glo("g25"), glo("h25"), sys("List")), args)
}

func isFunction(x *X) bool { return x.head("Function") }

// fill puts the arguments into the slots of a body but not into those of the
// functions inside it.
func fillSlots(x *X, args []*X) *X {
	if x.head("Slot") {
		if k := x.P[1].N.Int64(); k >= 1 && int(k) <= len(args) {
			return args[k-1]
		}
		return x
	}
	if x.K != 'e' || isFunction(x) && len(x.P) == 2 {
		return x
	}
	out := &X{K: 'e'}
	for _, c := range x.P {
		out.P = append(out.P, fillSlots(c, args))
	}
	return out
}

func putNames(x *X, m map[string]*X) *X {
	if x.K == 'y' {
		if v := m[x.S]; v != nil {
			return v
		}
		return x
	}
	if x.K != 'e' {
		return x
	}
	if isFunction(x) && len(x.P) == 3 { // its own parameters are others
		inner := map[string]*X{}
		for k, v := range m {
			inner[k] = v
		}
		for _, p := range x.P[1].P[1:] {
			delete(inner, p.S)
		}
		return xe(x.P[0], x.P[1], putNames(x.P[2], inner))
	}
	out := &X{K: 'e'}
	for _, c := range x.P {
		out.P = append(out.P, putNames(c, m))
	}
	return out
}

// applyAll reduces every function that is applied to arguments, arguments
// first.
func applyAll(x *X) *X {
	if x.K != 'e' || isFunction(x) {
		return x
	}
	out := &X{K: 'e'}
	for _, c := range x.P {
		out.P = append(out.P, applyAll(c))
	}
	h := out.P[0]
	if isFunction(h) {
		if len(h.P) == 2 {
			return applyAll(fillSlots(h.P[1], out.P[1:]))
		}
		m := map[string]*X{}
		for i, p := range h.P[1].P[1:] {
			m[p.S] = out.P[i+1]
		}
		return applyAll(putNames(h.P[2], m))
	}
	return out
}

func iterSlots(t *T) {
	es := t.ES()
	n := t.Int(1, 3)
	body := genBody(t, t.W(0, 1, 3, 3, 2), n, nil)
	f := xE("Function", body)
	args := []*X{}
	for k := t.Int(n, n+1); k > 0; k-- {
		a := genBody(t, 2, 0, nil)
		if contains(a, isFunction) {
			a = glo("d")
		}
		args = append(args, a)
	}
	q := xe(f, args...)
	t.Case("%s", q)
	t.NontrivialIf(body.K == 'e' && contains(body, func(x *X) bool { return x.head("Slot") }) && (contains(body, isFunction) || leafs(body) >= 5))
	want := applyAll(q)
	if got := ev(es, q); !xeq(got, want) {
		t.Failf("%s is %s instead of %s", q, got, want)
	}
}
