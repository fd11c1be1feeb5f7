package props

import (
	"fmt"
	"math"
	"math/big"

	"verif/harness/pbt"
)

// A number in the model of iteration.
type itNum struct {
	r *big.Rat
	// 0: exact, 1: a real, 2: either (the first value when only the step is real)
	kind int
}

func (n itNum) x() *X {
	if n.kind == 0 {
		return xq(n.r)
	}
	f, _ := n.r.Float64()
	return xf(f)
}

// itBound is the source of a bound and its value in an environment.
type itBound struct {
	x   *X
	val func(env map[string]*X) (itNum, bool)
}

func asItNum(x *X) (itNum, bool) {
	switch x.K {
	case 'i', 'r':
		return itNum{r: x.rat()}, true
	case 'f':
		r, _ := x.F.Rat(nil)
		return itNum{r: r, kind: 1}, true
	}
	return itNum{}, false
}

type itSpec struct {
	v    *X // the variable; nil for a number of copies
	x    *X
	vals func(env map[string]*X) ([]*X, bool)
}

type itNode struct {
	fn    string // empty for a leaf
	specs []*itSpec
	body  *itNode
	leaf  *X // the value at the leaf, in terms of the variables
	exit  string
	at    int
	muted bool
	set   *X // assigned to at the end of each leaf
}

type itModel struct {
	t      *T
	es     ES
	log    []*X
	outer  []*X
	thrown *X
	ret    *X
	steps  int
}

func (m *itModel) constant(near int64) itNum {
	t := m.t
	n := itNum{r: new(big.Rat).SetInt64(int64(t.Near(4)) + near)}
	switch t.W(6, 2, 2) {
	case 1:
		n.r = radd(n.r, big.NewRat(int64(t.Int(-3, 3)), int64(pbt.Of(t, 2, 3, 4))))
	case 2:
		n.r, n.kind = radd(n.r, big.NewRat(int64(t.Int(-7, 7)), 8)), 1
	}
	return n
}

// bound draws a bound: a number, a variable or expression with that value, or a
// value that depends on a surrounding variable.
func (m *itModel) bound(near int64, big_ *big.Int) itBound {
	t := m.t
	n := m.constant(near)
	if big_ != nil {
		n = itNum{r: radd(new(big.Rat).SetInt(big_), new(big.Rat).SetInt64(int64(t.Near(3))+near))}
	}
	fixed := func(x *X) itBound {
		return itBound{x, func(map[string]*X) (itNum, bool) { return n, true }}
	}
	switch t.W(8, 2, 2, 4) {
	case 1:
		b := glo(fmt.Sprintf("b%dx%d", t.Index, t.Int(0, 1<<30)))
		ev(m.es, xE("Set", b, n.x()))
		return fixed(b)
	case 2:
		d := itNum{r: big.NewRat(int64(t.Near(3)), 1)}
		return fixed(xE("Plus", d.x(), itNum{r: radd(n.r, rneg(d.r)), kind: n.kind}.x()))
	case 3:
		if len(m.outer) > 0 && big_ == nil {
			v := pbt.Pick(t, m.outer)
			add := int64(t.Near(2))
			x := v
			if add != 0 {
				x = xE("Plus", v, xi(add))
			}
			return itBound{x, func(env map[string]*X) (itNum, bool) {
				o, ok := asItNum(env[v.String()])
				if !ok {
					return o, false
				}
				return itNum{r: radd(o.r, new(big.Rat).SetInt64(add)), kind: o.kind}, true
			}}
		}
	}
	return fixed(n.x())
}

func dyadic(r *big.Rat) bool {
	d := r.Denom()
	return d.TrailingZeroBits() == uint(d.BitLen()-1)
}

func (m *itModel) rng(lo, hi, step *itBound) func(env map[string]*X) ([]*X, bool) {
	return func(env map[string]*X) ([]*X, bool) {
		a, s := itNum{r: big.NewRat(1, 1)}, itNum{r: big.NewRat(1, 1)}
		ok := true
		if lo != nil {
			a, ok = lo.val(env)
		}
		b, ok2 := hi.val(env)
		ok3 := true
		if step != nil {
			s, ok3 = step.val(env)
		}
		if !ok || !ok2 || !ok3 || s.r.Sign() == 0 {
			return nil, false
		}
		if a.kind|s.kind != 0 && (!dyadic(a.r) || !dyadic(s.r) || !dyadic(b.r) || a.r.Num().BitLen() > 40) {
			m.t.Discard() // rounding decides which values there are
		}
		out := []*X{}
		for k := int64(0); ; k++ {
			c := itNum{r: radd(a.r, rmul(s.r, big.NewRat(k, 1))), kind: a.kind | s.kind}
			if c.r.Cmp(b.r)*s.r.Sign() > 0 {
				return out, true
			}
			x := c.x()
			out = append(out, x)
			if len(out) > 40 {
				m.t.Discard()
			}
		}
	}
}

func (m *itModel) step() itBound {
	t := m.t
	n := itNum{r: big.NewRat(1, 1)}
	switch t.W(2, 3, 3, 2, 1) {
	case 1:
		n.r = new(big.Rat).SetInt64(int64(t.Near(3)))
	case 2:
		n.r = big.NewRat(int64(t.Near(7)), int64(pbt.Of(t, 2, 3, 4)))
	case 3:
		n.r, n.kind = big.NewRat(int64(t.Near(20)), 8), 1
	case 4:
		if len(m.outer) > 0 {
			v := pbt.Pick(t, m.outer)
			return itBound{v, func(env map[string]*X) (itNum, bool) { return asItNum(env[v.String()]) }}
		}
	}
	if n.r.Sign() == 0 {
		n.r.SetInt64(-1)
	}
	return itBound{n.x(), func(map[string]*X) (itNum, bool) { return n, true }}
}

func (m *itModel) spec(v *X) *itSpec {
	t := m.t
	var huge *big.Int
	if t.P(1, 12) {
		huge = bigPow(100, 0)
	}
	switch t.W(4, 4, 5, 3) {
	case 0:
		hi := m.bound(2, nil)
		return &itSpec{v: v, x: xl(v, hi.x), vals: m.rng(nil, &hi, nil)}
	case 1:
		lo, hi := m.bound(0, huge), m.bound(2, huge)
		return &itSpec{v: v, x: xl(v, lo.x, hi.x), vals: m.rng(&lo, &hi, nil)}
	case 2:
		near := int64(t.Near(3))
		lo, hi, s := m.bound(0, huge), m.bound(near, huge), m.step()
		if huge != nil {
			s = itBound{xi(-1), func(map[string]*X) (itNum, bool) { return itNum{r: big.NewRat(-1, 1)}, true }}
		}
		return &itSpec{v: v, x: xl(v, lo.x, hi.x, s.x), vals: m.rng(&lo, &hi, &s)}
	}
	l := xl()
	for k := t.Int(0, 4); k > 0; k-- {
		l.P = append(l.P, pbt.Of(t, xi(int64(t.Near(5))), xq(bigRat(1, 2)), glo("a"), xs("s"), xl(xi(1)), xG("q", glo("a"))))
	}
	x := l
	if t.P(1, 4) {
		x = glo(fmt.Sprintf("b%dx%d", t.Index, t.Int(0, 1<<30)))
		ev(m.es, xE("Set", x, l))
	}
	return &itSpec{v: v, x: xl(v, x), vals: func(map[string]*X) ([]*X, bool) { return l.args(), true }}
}

func (m *itModel) variable(indexed bool) *X {
	t := m.t
	v := glo(fmt.Sprintf("%s%d", pbt.Of(t, "i", "j", "k"), t.Index))
	if indexed && t.P(1, 8) {
		return xe(glo(fmt.Sprintf("w%d", t.Index)), xi(int64(t.Int(1, 2))))
	}
	return v
}

// gen draws a nest of iterations; sums says that the value has to be a number or
// a term.
func (m *itModel) gen(depth int, sums bool) *itNode {
	t := m.t
	if depth == 0 {
		n := &itNode{at: 1 << 30}
		n.leaf = xG("h", m.outer...)
		if t.P(1, 3) && len(m.outer) > 0 && sums {
			n.leaf = pbt.Pick(t, m.outer)
		}
		return n
	}
	fns := []string{"Table", "Do", "Sum", "Product", "ParallelTable"}
	if sums {
		fns = []string{"Sum", "Product"}
	}
	n := &itNode{fn: pbt.Pick(t, fns)}
	par := n.fn == "ParallelTable"
	outer := m.outer
	if depth > 1 && par {
		depth = 1
	}
	if t.P(1, 6) {
		b := m.bound(2, nil)
		n.specs = append(n.specs, &itSpec{x: b.x, vals: func(env map[string]*X) ([]*X, bool) {
			v, ok := b.val(env)
			if !ok || v.kind != 0 || !v.r.IsInt() {
				return nil, false
			}
			return m.rng(nil, &b, nil)(env)
		}})
	} else {
		for k := 1 + t.W(4, 2, 1); k > 0; k-- {
			v := m.variable(!par)
			n.specs = append(n.specs, m.spec(v))
		}
		// All specifications of a call are evaluated before its variables exist.
		for _, s := range n.specs {
			known := false
			for _, o := range m.outer {
				known = known || xeq(o, s.v)
			}
			if !known {
				m.outer = append(m.outer[:len(m.outer):len(m.outer)], s.v)
			}
		}
	}
	n.body = m.gen(depth-1, sums || n.fn == "Sum" || n.fn == "Product")
	if n.body.fn == "" {
		n.body.muted = par
		if !par && t.P(1, 2) {
			n.body.at = t.Int(1, 6)
			n.body.exit = "Throw"
			if n.fn == "Do" && t.P(1, 2) {
				n.body.exit = "Return"
			}
		}
		if !par && n.body.exit == "" && n.specs[0].v != nil && t.P(1, 5) {
			n.body.set = pbt.Pick(t, n.specs).v
		}
	}
	m.outer = outer
	return n
}

func (m *itModel) src(n *itNode, log *X) *X {
	if n.fn == "" {
		if n.muted {
			return n.leaf
		}
		noted := xE("Set", log, xE("Append", log, xG("h", n.leaf)))
		switch {
		case n.exit == "Throw":
			return xE("CompoundExpression", xE("If", xE("GreaterEqual", xE("Length", noted), xi(int64(n.at))), xE("Throw", xG("out", n.leaf))), n.leaf)
		case n.exit == "Return":
			return xE("If", xE("GreaterEqual", xE("Length", noted), xi(int64(n.at))), xE("Return", xG("out", n.leaf)), n.leaf)
		case n.set != nil:
			r := xG("r", n.leaf)
			return xE("CompoundExpression", noted, xE("Set", log, xE("Append", log, n.leaf)), xE("Set", n.set, xG("lost", r)), xi(7))
		}
		return xE("CompoundExpression", noted, n.leaf)
	}
	x := xE(n.fn, m.src(n.body, log))
	for _, s := range n.specs {
		x.P = append(x.P, s.x)
	}
	return x
}

func itSubst(x *X, env map[string]*X) *X {
	if v := env[x.String()]; v != nil {
		return v
	}
	if x.K != 'e' {
		return x
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, itSubst(p, env))
	}
	return n
}

// run gives the value of an iteration; nil with m.thrown or m.ret set.
func (m *itModel) run(n *itNode, env map[string]*X) *X {
	t := m.t
	if n.fn == "" {
		leaf := itSubst(n.leaf, env)
		if n.muted {
			return leaf
		}
		m.log = append(m.log, xG("h", leaf))
		if n.exit != "" && len(m.log) >= n.at {
			out := xG("out", leaf)
			if n.exit == "Throw" {
				m.thrown = out
			} else {
				m.ret = out
			}
			return nil
		}
		if n.set != nil {
			m.log = append(m.log, leaf)
			return xi(7)
		}
		return leaf
	}
	lists := [][]*X{}
	empty := false
	for _, s := range n.specs {
		l, ok := s.vals(env)
		if !ok {
			t.Discard() // not a specification in this environment
		}
		lists = append(lists, l)
		empty = empty || len(l) == 0
	}
	head := map[string]string{"Table": "List", "ParallelTable": "List", "Sum": "Plus", "Product": "Times", "Do": "Null"}[n.fn]
	res := xE(head)
	if empty {
		lists = nil
	}
	pos := make([]int, len(lists))
	for len(lists) > 0 {
		if m.steps++; m.steps > 120 {
			t.Discard()
		}
		in := map[string]*X{}
		for k, v := range env {
			in[k] = v
		}
		for i, s := range n.specs {
			if s.v != nil {
				in[s.v.String()] = lists[i][pos[i]]
			}
		}
		v := m.run(n.body, in)
		if m.thrown != nil {
			return nil
		}
		if m.ret != nil {
			v, m.ret = m.ret, nil
			return v
		}
		res.P = append(res.P, v)
		i := len(lists) - 1
		for i >= 0 {
			pos[i]++
			if pos[i] < len(lists[i]) {
				break
			}
			pos[i] = 0
			i--
		}
		if i < 0 {
			break
		}
	}
	if n.fn == "Do" {
		return sys("Null")
	}
	return res
}

// itSame compares a result with the model, which allows an exact number or a
// real in some places.
func itSame(got, want *X) bool {
	if want.head("Alternatives") {
		return itSame(got, want.P[1]) || itSame(got, want.P[2])
	}
	if want.K == 'f' && got.K == 'f' {
		g, w := flt(got), flt(want)
		return math.Abs(g-w) <= 1e-12*math.Abs(w)
	}
	if want.K == 'e' && got.K == 'e' {
		if len(want.P) != len(got.P) {
			return false
		}
		for i := range want.P {
			if !itSame(got.P[i], want.P[i]) {
				return false
			}
		}
		return true
	}
	return xeq(got, want)
}

func itLists(t *T) {
	es := t.ES()
	m := &itModel{t: t, es: es}
	n := m.gen(1+t.W(4, 3, 1), false)
	log := glo(fmt.Sprintf("log%d", t.Index))
	src := m.src(n, log)

	// What the variables are before.
	type prior struct{ x, want *X }
	var priors []prior
	for _, name := range []string{"i", "j", "k", "w"} {
		v := glo(fmt.Sprintf("%s%d", name, t.Index))
		ev(es, xE("ClearAll", v))
		k := t.W(3, 3, 2)
		if name == "w" {
			k = 2 * t.W(1, 3)
		}
		switch k {
		case 0:
			priors = append(priors, prior{v, v})
			if name == "w" {
				priors = append(priors, prior{xe(v, xi(1)), xe(v, xi(1))})
			}
		case 1:
			val := pbt.Of(t, xi(22), xl(xi(1), glo("a")), xG("q", glo("z")), xs("old"))
			ev(es, xE("Set", v, val))
			priors = append(priors, prior{v, val})
		case 2:
			val := pbt.Of(t, xi(5), glo("z"), xs("old"))
			for _, i := range []int64{1, 3} {
				ev(es, xE("Set", xe(v, xi(i)), val))
				priors = append(priors, prior{xe(v, xi(i)), val})
			}
			ev(es, xE("SetDelayed", xe(v, xE("Pattern", glo("x"), xE("Blank"))), xG("gen", glo("x"))))
			priors = append(priors, prior{xe(v, xi(8)), xG("gen", xi(8))})
			priors = append(priors, prior{v, v})
		}
	}
	for _, p := range priors {
		t.Logf("%s is %s", p.x, p.want)
	}
	ev(es, xE("Set", log, xl()))
	t.Case("%s", src.Src())
	want := m.run(n, map[string]*X{})
	if m.thrown != nil {
		want = m.thrown
	}
	got := ev(es, xE("Catch", src))
	gotLog := ev(es, log)
	t.NontrivialIf(m.steps >= 3)
	t.Label(n.fn)
	if m.thrown != nil {
		t.Label("left early")
	}
	if !itSame(gotLog, xl(m.log...)) {
		t.Failf("visited %s, want %s", gotLog, xl(m.log...))
	}
	if contains(want, func(x *X) bool { return x.head("Plus") || x.head("Times") }) {
		if contains(want, func(x *X) bool { return x.head("Alternatives") }) {
			want = nil // a mixture of number types: the visited values decide
		} else {
			want = ev(es, want)
		}
	}
	if want != nil && !itSame(got, want) {
		t.Failf("gives %s, want %s", got, want)
	}
	for _, p := range priors {
		if g := ev(es, p.x); !xeq(g, p.want) {
			t.Failf("%s is %s afterwards, %s before", p.x, g, p.want)
		}
	}
}

func itRanges(t *T) {
	es := t.ES()
	m := &itModel{t: t, es: es}
	s := m.spec(glo("u"))
	for s.x.P[len(s.x.P)-1].head("List") || len(s.x.P) == 3 && contains(s.x, func(x *X) bool { return x.K == 'y' && len(x.S) > 9 && x.S[:8] == "Global`b" }) {
		s = m.spec(glo("u"))
	}
	vals, ok := s.vals(nil)
	if !ok {
		t.Discard()
	}
	x := xE("Range", s.x.P[2:]...)
	want := xl(vals...)
	switch t.W(5, 1, 1, 1) {
	case 1: // Range is Listable
		x.P[1] = xl(x.P[1], x.P[1])
		want = xl(want, want)
	case 2:
		n := int64(t.Int(0, 12))
		f := pbt.Of(t, glo("f"), xE("Function", xl(sys("Slot"))), xE("Plus", glo("a"), glo("b")))
		if f.head("Function") {
			f = xE("Function", xl(xE("Slot", xi(1))))
		}
		x, want = xE("Array", f, xi(n)), xl()
		for i := int64(1); i <= n; i++ {
			if f.head("Function") {
				want.P = append(want.P, xl(xi(i)))
			} else {
				want.P = append(want.P, xe(f, xi(i)))
			}
		}
	case 3:
		n := int64(t.Int(0, 12))
		c := genInert(t, 2)
		x, want = xE("ConstantArray", c, xi(n)), xl()
		for i := int64(1); i <= n; i++ {
			want.P = append(want.P, c)
		}
		want = ev(es, want)
	}
	t.Case("%s", x.Src())
	t.NontrivialIf(len(want.args()) > 1)
	if got := ev(es, x); !itSame(got, want) {
		t.Failf("gives %s, want %s", got, want)
	}
}

// itSymbolic: bounds that are not numbers leave the call as it is and run
// nothing; sums known in closed form agree with the sums they stand for.
func itSymbolic(t *T) {
	es := t.ES()
	v, n := glo("i"), glo("n")
	if t.P(1, 2) {
		log := glo(fmt.Sprintf("log%d", t.Index))
		ev(es, xE("Set", log, xi(0)))
		bad := pbt.Of(t, glo("z"), xE("Plus", glo("z"), xi(1)), xs("s"), xG("q", xi(1)))
		spec := pbt.Of(t, xl(v, bad), xl(v, bad, xi(3)), xl(v, xi(1), bad), xl(v, xi(1), xi(3), bad),
			xl(xi(2), xi(3)), xl(v, xi(1), xi(3), xi(0)), xl(v), xl(v, xi(1), xi(2), xi(1), xi(1)))
		x := xE(pbt.Of(t, "Table", "Do", "Sum", "Product"), xE("CompoundExpression", xE("Set", log, xi(1)), xG("h", v)))
		good := xl(glo("j"), xi(2))
		if t.P(1, 3) {
			x.P = append(x.P, good)
		}
		x.P = append(x.P, spec)
		if t.P(1, 3) {
			x.P = append(x.P, good)
		}
		t.Case("%s", x.Src())
		t.Nontrivial()
		got := ev(es, x)
		if g := ev(es, log); !xeq(g, xi(0)) {
			t.Failf("ran its body without a range to run over; gives %s", got)
		}
		for _, u := range []*X{v, glo("j")} {
			if g := ev(es, u); !xeq(g, u) {
				t.Failf("%s is %s afterwards", u, g)
			}
		}
		return
	}
	c := int64(t.Int(1, 9))
	d := int64(t.Int(0, 9))
	end := pbt.Of(t, n, xE("Times", xi(c), n), xE("Plus", n, xi(d)))
	spec := pbt.Of(t, xl(v, end), xl(v, xi(0), n), xl(v, xi(1), n))
	if len(spec.P) == 4 {
		end = n
	}
	k := int64(t.Int(0, 30))
	t.Case("Sum[i, %s] at n = %d", spec.Src(), k)
	t.NontrivialIf(k > 1)
	sum := ev(es, xE("Sum", v, spec))
	at := func(x *X) *X { return ev(es, xE("ReplaceAll", x, xE("Rule", n, xi(k)))) }
	last := at(end).rat()
	if last == nil || !last.IsInt() {
		t.Failf("%s at n = %d is %s", end, k, at(end))
	}
	total := big.NewRat(0, 1)
	for i := int64(1); i <= last.Num().Int64(); i++ {
		total = radd(total, big.NewRat(i, 1))
	}
	if got := at(sum); !xeq(got, xq(total)) {
		t.Failf("%s gives %s, want %s", sum, got, xq(total))
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C14",
		Title: "Iterators visit exactly the specified values and restore their variable",
		Rule:  "at least three iterations (two values for ranges)",
		Facets: []pbt.Facet{
			{Name: "loops", Quick: 5000, Thorough: 120000, Batch: 250, Run: itLists},
			{Name: "ranges", Quick: 3000, Thorough: 60000, Batch: 500, Run: itRanges},
			{Name: "symbolic", Quick: 1500, Thorough: 30000, Batch: 500, Run: itSymbolic},
		},
	})
}
