package props

import (
	"math/big"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C24",
		Title: "Structural functions traverse exactly the specified parts",
		Rule:  "levels: the specification selects at least one part and leaves out at least one; sizes: the expression is at least three levels deep; shape: the result differs from the expression",
		Facets: []pbt.Facet{
			{Name: "levels", Quick: 6000, Thorough: 150000, Batch: 400, Run: structLevels},
			{Name: "sizes", Quick: 4000, Thorough: 80000, Batch: 400, Run: structSizes},
			{Name: "shape", Quick: 4000, Thorough: 80000, Batch: 400, Run: structShape},
		},
	})
}

// genStruct draws an expression of inert heads that evaluates to itself.
func genStruct(t *T, depth int) *X {
	if depth <= 0 || t.P(1, 3) {
		switch t.W(4, 3, 1, 1, 1, 1) {
		case 1:
			return glo(pbt.Of(t, "a", "b", "c"))
		case 2:
			return xs(pbt.Of(t, "", "s"))
		case 3:
			return xq(bigRat(1, 2))
		case 4:
			return xz(big.NewRat(1, 1), big.NewRat(2, 1))
		case 5:
			return xf(1.5)
		}
		return xi(int64(t.Near(2)))
	}
	h := sys("List")
	switch t.W(4, 3, 1) {
	case 1:
		h = glo(pbt.Of(t, "f", "g"))
	case 2:
		h = xG("k", glo("a"))
	}
	args := []*X{}
	for k := t.N(4); k > 0; k-- {
		args = append(args, genStruct(t, depth-1))
	}
	return listOf(h, args)
}

func depthOf(x *X) int {
	if x.K != 'e' {
		return 1
	}
	d := 1
	for _, c := range x.P[1:] {
		if e := depthOf(c); e > d {
			d = e
		}
	}
	return d + 1
}

// levelRange is a level specification: levels from lo to hi, negative numbers
// count depths.
type levelRange struct{ lo, hi int }

const noLevel = 1 << 20

func (r levelRange) has(level int, x *X) bool {
	d := depthOf(x)
	lo := r.lo >= 0 && level >= r.lo || r.lo < 0 && d <= -r.lo
	hi := r.hi >= 0 && level <= r.hi || r.hi < 0 && d >= -r.hi
	return lo && hi
}

// mapLevels applies f to every part that the specification selects, the parts
// of a part before it.
func mapLevels(x *X, pos []int64, r levelRange, f func(orig, done *X, pos []int64) *X) *X {
	done := x
	if x.K == 'e' {
		done = &X{K: 'e', P: []*X{x.P[0]}}
		for i, c := range x.P[1:] {
			p := append(append([]int64{}, pos...), int64(i+1))
			done.P = append(done.P, mapLevels(c, p, r, f))
		}
	}
	if r.has(len(pos), x) {
		return f(x, done, pos)
	}
	return done
}

func genLevels(t *T) (*X, levelRange) {
	inf := sys("Infinity")
	ninf := xE("Times", xi(-1), inf)
	bound := func() (*X, int) {
		switch t.W(8, 1, 1) {
		case 1:
			return inf, noLevel
		case 2:
			return ninf, -noLevel
		}
		k := t.Near(4)
		return xi(int64(k)), k
	}
	switch t.W(2, 2, 4) {
	case 0:
		x, k := bound()
		return x, levelRange{1, k}
	case 1:
		x, k := bound()
		return xl(x), levelRange{k, k}
	}
	x, a := bound()
	y, b := bound()
	return xl(x, y), levelRange{a, b}
}

func posX(pos []int64) *X {
	out := []*X{}
	for _, i := range pos {
		out = append(out, xi(i))
	}
	return xl(out...)
}

func structLevels(t *T) {
	es := t.ES()
	x := genStruct(t, t.W(0, 1, 3, 4, 2))
	if x.K != 'e' && t.P(3, 4) {
		x = xl(x, genStruct(t, 3))
	}
	spec, r := genLevels(t)
	t.Case("%s at %s", x, spec)
	n, all := 0, 0
	selected := []*X{}
	order := []*X{}
	mapLevels(x, nil, levelRange{0, noLevel}, func(o, d *X, p []int64) *X {
		all++
		if r.has(len(p), o) {
			n++
			selected = append(selected, o)
			order = append(order, posX(p))
		}
		return d
	})
	t.NontrivialIf(n > 0 && n < all)
	check := func(q, want *X) {
		if got := ev(es, q); !xeq(got, want) {
			t.Failf("%s is %s instead of %s", q, got, want)
		}
	}
	u := glo("u24")
	check(xE("Map", u, x, spec), mapLevels(x, nil, r, func(o, d *X, p []int64) *X { return xe(u, d) }))
	check(xE("MapIndexed", u, x, spec), mapLevels(x, nil, r, func(o, d *X, p []int64) *X { return xe(u, d, posX(p)) }))
	check(xE("Apply", u, x, spec), mapLevels(x, nil, r, func(o, d *X, p []int64) *X {
		if d.K != 'e' {
			return d
		}
		return listOf(u, d.P[1:])
	}))
	// counting
	for _, c := range listTests[:4] {
		k := 0
		for _, s := range selected {
			if c.f(s) {
				k++
			}
		}
		check(xE("Count", x, c.pat, spec), xi(int64(k)))
	}
	if len(selected) > 0 {
		lit := pbt.Pick(t, selected)
		k := 0
		for _, s := range selected {
			if xeq(s, lit) {
				k++
			}
		}
		check(xE("Count", x, lit, spec), xi(int64(k)))
	}
	// the functions are called depth first
	v := glo("l24")
	ev(es, xE("Set", v, xl()))
	ev(es, xE("MapIndexed", xE("Function", xE("CompoundExpression", xE("AppendTo", v, xE("Slot", xi(2))), xE("Slot", xi(1)))), x, spec))
	check(v, xl(order...))
	// the default levels
	if x.K == 'e' {
		one := levelRange{1, 1}
		check(xE("Map", u, x), mapLevels(x, nil, one, func(o, d *X, p []int64) *X { return xe(u, d) }))
		check(xE("MapIndexed", u, x), mapLevels(x, nil, one, func(o, d *X, p []int64) *X { return xe(u, d, posX(p)) }))
		check(xE("Apply", u, x), listOf(u, x.P[1:]))
		ev(es, xE("Set", v, xl()))
		check(xE("Scan", xE("Function", xE("AppendTo", v, xE("Slot", xi(1)))), x), sys("Null"))
		check(v, xl(x.P[1:]...))
		// a pure function as new head
		check(xE("Apply", xE("Function", xl(xE("SlotSequence", xi(1)))), x), ev(es, xe(xE("Function", xl(xE("SlotSequence", xi(1)))), x.P[1:]...)))
	} else {
		check(xE("Map", u, x), x)
		check(xE("Apply", u, x), x)
	}
}

func leafs(x *X) int64 {
	if x.K != 'e' {
		return 1
	}
	n := int64(0)
	for _, c := range x.P {
		n += leafs(c)
	}
	return n
}

func headSym(x *X) *X {
	switch x.K {
	case 'i':
		return sys("Integer")
	case 'r':
		return sys("Rational")
	case 'f':
		return sys("Real")
	case 'c':
		return sys("Complex")
	case 's':
		return sys("String")
	case 'y':
		return sys("Symbol")
	}
	return x.P[0]
}

func structSizes(t *T) {
	es := t.ES()
	x := genStruct(t, t.W(0, 1, 3, 4, 2))
	if x.K != 'e' && t.P(3, 4) {
		x = xl(x, genStruct(t, 3))
	}
	if t.P(1, 4) {
		x = genEvaluated(t, es, 3)
		if !isPlain(es, x) {
			t.Discard()
		}
	}
	t.Case("%s", x)
	t.NontrivialIf(depthOf(x) >= 4)
	check := func(q, want *X) {
		if got := ev(es, q); !xeq(got, want) {
			t.Failf("%s is %s instead of %s", q, got, want)
		}
	}
	check(xE("Depth", x), xi(int64(depthOf(x))))
	check(xE("LeafCount", x), xi(leafs(x)))
	n := 0
	if x.K == 'e' {
		n = len(x.P) - 1
	}
	check(xE("Length", x), xi(int64(n)))
	check(xE("Head", x), headSym(x))
	check(xE("AtomQ", x), pbool(x.K != 'e'))
	// every part is found, and nothing else
	parts := []*X{}
	var walk func(x *X)
	walk = func(y *X) {
		parts = append(parts, y)
		if y.K == 'e' {
			for _, c := range y.P {
				walk(c)
			}
		}
	}
	walk(x)
	y := pbt.Pick(t, parts)
	if contains(y, func(z *X) bool { return z.K == 'y' && z.S == "System`Plus" || z.K == 'y' && z.S == "System`Times" }) {
		return // sums and products match as part of longer ones
	}
	check(xE("FreeQ", x, y), pbool(false))
	z := xG("absent24", y)
	check(xE("FreeQ", x, z), pbool(true))
	for _, c := range []struct {
		pat *X
		k   byte
	}{{xE("Blank", sys("Integer")), 'i'}, {xE("Blank", sys("Symbol")), 'y'}, {xE("Blank", sys("String")), 's'}, {xE("Blank", sys("Real")), 'f'}} {
		has := false
		for _, p := range parts {
			has = has || p.K == c.k
		}
		check(xE("FreeQ", x, c.pat), pbool(!has))
	}
}

func flat(x *X, h *X, level int) (out []*X) {
	for _, c := range x.P[1:] {
		if c.K == 'e' && xeq(c.P[0], h) && level > 0 {
			out = append(out, flat(c, h, level-1)...)
		} else {
			out = append(out, c)
		}
	}
	return
}

func structShape(t *T) {
	es := t.ES()
	x := genStruct(t, t.W(0, 1, 3, 4))
	if x.K != 'e' {
		x = xl(x)
	}
	t.Case("%s", x)
	check := func(q, want *X) {
		if got := ev(es, q); !xeq(got, want) {
			t.Failf("%s is %s instead of %s", q, got, want)
		}
		t.NontrivialIf(!xeq(want, x))
	}
	check(xE("Flatten", x), listOf(x.P[0], flat(x, x.P[0], noLevel)))
	n := t.Int(0, 4)
	check(xE("Flatten", x, xi(int64(n))), listOf(x.P[0], flat(x, x.P[0], n)))
	check(xE("Flatten", x, pbt.Of(t, sys("Infinity"), xI(bigPow(64, int64(n))))), listOf(x.P[0], flat(x, x.P[0], noLevel)))
	// Thread
	g := glo("g24")
	args := []*X{}
	m := t.Int(0, 3)
	any, ok := false, true
	for k := t.N(4); k > 0; k-- {
		switch t.W(3, 2, 1) {
		case 0:
			l := []*X{}
			for i := 0; i < m; i++ {
				l = append(l, genStruct(t, 1))
			}
			args = append(args, xl(l...))
			any = true
		case 1:
			a := genStruct(t, 1)
			if a.head("List") {
				a = glo("b")
			}
			args = append(args, a)
		case 2:
			l := []*X{}
			for i := t.N(4); i > 0; i-- {
				l = append(l, genStruct(t, 1))
			}
			args = append(args, xl(l...))
			any = true
		}
	}
	m = -1
	for _, a := range args {
		if a.head("List") {
			ok = ok && (m < 0 || m == len(a.P)-1)
			m = len(a.P) - 1
		}
	}
	y := xe(g, args...)
	want := y
	if any && ok {
		out := []*X{}
		for i := 1; i <= m; i++ {
			r := []*X{}
			for _, a := range args {
				if a.head("List") {
					r = append(r, a.P[i])
				} else {
					r = append(r, a)
				}
			}
			out = append(out, xe(g, r...))
		}
		want = xl(out...)
	}
	check(xE("Thread", y), want)
	// Distribute over a head
	h := pbt.Of(t, glo("f"), sys("List"), xG("k", glo("a")))
	rows := [][]*X{{}}
	for _, c := range x.P[1:] {
		next := [][]*X{}
		opts := []*X{c}
		if c.K == 'e' && xeq(c.P[0], h) {
			opts = c.P[1:]
		}
		for _, r := range rows {
			for _, o := range opts {
				next = append(next, append(append([]*X{}, r...), o))
			}
		}
		rows = next
	}
	if len(rows) <= 200 {
		out := []*X{}
		for _, r := range rows {
			out = append(out, listOf(x.P[0], r))
		}
		check(xE("Distribute", x, h), listOf(h, out))
	}
	// replacing a head throughout keeps everything else
	var swap func(x *X) *X
	swap = func(x *X) *X {
		if x.K == 'y' && x.S == "System`List" {
			return glo("w24")
		}
		if x.K != 'e' {
			return x
		}
		out := &X{K: 'e'}
		for _, c := range x.P {
			out.P = append(out.P, swap(c))
		}
		return out
	}
	check(xE("ReplaceAll", x, xE("Rule", sys("List"), glo("w24"))), swap(x))
	// a part replaced
	if len(x.P) > 1 {
		i := t.Int(1, len(x.P)-1)
		z := append([]*X{}, x.P...)
		z[i] = glo("new24")
		check(xE("ReplacePart", x, xE("Rule", xi(int64(i)), glo("new24"))), &X{K: 'e', P: z})
	}
}
