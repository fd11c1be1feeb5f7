package props

import (
	"fmt"
	"math/big"
	"sort"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C22",
		Title: "Boolean logic agrees with truth tables",
		Rule:  "formulas: at least two connectives, and a symbol that is not determined or an operand with a side effect; lists: at least two elements; comparisons: a chain of at least three terms, with numbers and symbols",
		Facets: []pbt.Facet{
			{Name: "formulas", Quick: 5000, Thorough: 150000, Batch: 200, Run: boolFormulas},
			{Name: "lists", Quick: 1000, Thorough: 20000, Batch: 100, Run: boolLists},
			{Name: "comparisons", Quick: 4000, Thorough: 100000, Batch: 200, Run: boolChains},
		},
	})
}

// blNode is a formula.
type blNode struct {
	op   string // True False sym cmp note And Or Not TrueQ BooleanQ BooleTest
	i    int
	n    int64
	kids []*blNode
}

type boolModel struct {
	t   *T
	log []*X
	// operators and undetermined or logging leaves, for the statistics
	ops, open int
}

func (m *boolModel) gen(depth int, noted bool) *blNode {
	t := m.t
	w := []int{2, 2, 4, 2, 3, 5, 5, 3, 1, 1, 1}
	if depth == 0 {
		w = []int{2, 2, 4, 2}
	}
	n := &blNode{}
	switch t.W(w...) {
	case 0:
		n.op = "True"
	case 1:
		n.op = "False"
	case 2:
		n.op, n.i = "sym", t.Int(0, 2)
		m.open++
	case 3:
		n.op, n.n = "cmp", int64(t.Int(0, 3))
		n.i = t.Int(0, 3)
		m.open++
	case 4:
		n.op, n.n = "note", int64(t.N(100))
		n.kids = []*blNode{m.gen(depth-1, noted)}
		m.open++
	case 5, 6:
		n.op = pbt.Of(t, "And", "Or")
		m.ops++
		for k := t.W(1, 1, 5, 3, 2); k > 0; k-- {
			n.kids = append(n.kids, m.gen(depth-1, noted))
		}
	case 7:
		n.op, n.kids = "Not", []*blNode{m.gen(depth-1, noted)}
		m.ops++
	case 8:
		n.op, n.kids = "TrueQ", []*blNode{m.gen(depth-1, noted)}
	case 9:
		n.op, n.kids = "BooleanQ", []*blNode{m.gen(depth-1, noted)}
	case 10:
		n.op, n.kids = "Boole", []*blNode{m.gen(depth-1, noted)}
	}
	return n
}

func (m *boolModel) x(n *blNode, sym func(int) *X, w, note *X) *X {
	var k []*X
	for _, c := range n.kids {
		k = append(k, m.x(c, sym, w, note))
	}
	switch n.op {
	case "True", "False":
		return sys(n.op)
	case "sym":
		return sym(n.i)
	case "cmp":
		return xE([]string{"Less", "Greater", "LessEqual", "Equal"}[n.i], w, xi(n.n))
	case "note":
		return xE("CompoundExpression", xE("Set", note, xE("Append", note, xi(n.n))), k[0])
	case "Boole":
		return xE("Greater", xE("Boole", k[0]), xi(0))
	}
	return xE(n.op, k...)
}

// run gives a residual formula, and notes what is evaluated.
func (m *boolModel) run(n *blNode) *blNode {
	c := func(b bool) *blNode {
		if b {
			return &blNode{op: "True"}
		}
		return &blNode{op: "False"}
	}
	known := func(n *blNode) bool { return n.op == "True" || n.op == "False" }
	switch n.op {
	case "note":
		m.log = append(m.log, xi(n.n))
		return m.run(n.kids[0])
	case "And", "Or":
		stop := "False"
		if n.op == "Or" {
			stop = "True"
		}
		r := &blNode{op: n.op}
		for _, k := range n.kids {
			v := m.run(k)
			if v.op == stop {
				return v
			}
			if !known(v) {
				r.kids = append(r.kids, v)
			}
		}
		if len(r.kids) == 0 {
			return c(n.op == "And")
		}
		return r
	case "Not":
		v := m.run(n.kids[0])
		if known(v) {
			return c(v.op == "False")
		}
		return &blNode{op: "Not", kids: []*blNode{v}}
	case "TrueQ":
		return c(m.run(n.kids[0]).op == "True")
	case "BooleanQ":
		return c(known(m.run(n.kids[0])))
	case "Boole":
		v := m.run(n.kids[0])
		if known(v) {
			return v
		}
		return &blNode{op: "Boole", kids: []*blNode{v}}
	}
	return n
}

func (n *blNode) truth(s [3]bool, w int64) bool {
	switch n.op {
	case "sym":
		return s[n.i]
	case "cmp":
		return []bool{w < n.n, w > n.n, w <= n.n, w == n.n}[n.i]
	case "And", "Or":
		for _, k := range n.kids {
			if k.truth(s, w) != (n.op == "And") {
				return n.op == "Or"
			}
		}
		return n.op == "And"
	case "Not":
		return !n.kids[0].truth(s, w)
	case "Boole":
		return n.kids[0].truth(s, w)
	}
	return n.op == "True"
}

func boolFormulas(t *T) {
	es := t.ES()
	m := &boolModel{t: t}
	n := m.gen(4, true)
	sym := func(i int) *X { return glo(fmt.Sprintf("b%dbl%d", i, t.Index)) }
	w, note := glo(fmt.Sprintf("w%dbl", t.Index)), glo(fmt.Sprintf("log%dbl", t.Index))
	ev(es, xE("Set", note, xl()))
	x := m.x(n, sym, w, note)
	t.Case("%s", x)
	t.NontrivialIf(m.ops >= 2 && m.open > 0)
	want := m.run(n)
	got := ev(es, x)
	if l := ev(es, note); !xeq(l, xl(m.log...)) {
		t.Failf("it evaluates the operands %s instead of %s", l, xl(m.log...))
	}
	if want.op == "True" || want.op == "False" {
		if !xeq(got, sys(want.op)) {
			t.Failf("the value is %s instead of %s", got, want.op)
		}
		return
	}
	t.Label("undetermined")
	if again := ev(es, got); !xeq(again, got) {
		t.Failf("%s evaluates again to %s", got, again)
	}
	for s := 0; s < 8; s++ {
		for v := int64(-1); v <= 4; v += int64(1 + t.Int(0, 2)) {
			set := [3]bool{s&1 > 0, s&2 > 0, s&4 > 0}
			y := got
			rules := xl(xE("Rule", w, xi(v)))
			for i := range set {
				rules.P = append(rules.P, xE("Rule", sym(i), pbool(set[i])))
			}
			if r := ev(es, xE("ReplaceAll", y, rules)); !xeq(r, pbool(want.truth(set, v))) {
				t.Failf("%s for %s is %s instead of %v", got, rules, r, want.truth(set, v))
			}
		}
	}
}

func boolLists(t *T) {
	es := t.ES()
	h := pbt.Of(t, sys("List"), sys("List"), glo("h22"))
	l := xe(h)
	even, all := int64(0), true
	lim := int64(t.Near(5))
	for k := t.Int(0, 6); k > 0; k-- {
		v := int64(t.Near(6))
		if t.P(1, 2) {
			v = lim - int64(t.Int(0, 3))
		}
		l.P = append(l.P, xi(v))
		if v%2 == 0 {
			even++
		}
		all = all && v < lim
	}
	t.Case("%s, %d", l, lim)
	t.NontrivialIf(len(l.P) > 2)
	mustBool(t, es, xE("AllTrue", l, sys("EvenQ")), even == int64(len(l.args())))
	mustBool(t, es, xE("AllTrue", l, xE("Function", xE("Less", xE("Slot", xi(1)), xi(lim)))), all)
	lst := xl(l.args()...)
	want := xl()
	for _, a := range l.args() {
		if a.N.Int64() < lim {
			want.P = append(want.P, xi(1))
		} else {
			want.P = append(want.P, xi(0))
		}
	}
	if got := ev(es, xE("Boole", xE("Map", xE("Function", xE("Less", xE("Slot", xi(1)), xi(lim))), lst))); !xeq(got, want) {
		t.Failf("Boole of %s < %d is %s", lst, lim, got)
	}
}

// blChain is a chain of comparisons of numbers and symbols.
type blChain struct {
	terms []*X
	ops   []string
}

func (c *blChain) x(head bool) *X {
	same := len(c.ops) > 0
	for _, o := range c.ops {
		same = same && o == c.ops[0]
	}
	if same && head {
		return xE(c.ops[0], c.terms...)
	}
	r := xE("Inequality", c.terms[0])
	for i, o := range c.ops {
		r.P = append(r.P, sys(o), c.terms[i+1])
	}
	return r
}

func (c *blChain) truth(val func(*X) *big.Rat) bool {
	for i, o := range c.ops {
		s := val(c.terms[i]).Cmp(val(c.terms[i+1]))
		ok := false
		switch o {
		case "Less":
			ok = s < 0
		case "LessEqual":
			ok = s <= 0
		case "Equal":
			ok = s == 0
		case "GreaterEqual":
			ok = s >= 0
		case "Greater":
			ok = s > 0
		}
		if !ok {
			return false
		}
	}
	return true
}

// boolChains generates chains of comparisons and combinations of them. What
// is left of one must have the truth value of the chain for all values of the
// symbols.
func boolChains(t *T) {
	es := t.ES()
	var sym [3]*X
	for i := range sym {
		sym[i] = glo(fmt.Sprintf("c%dbl%d", i, t.Index))
	}
	rnd := func(k int) *X {
		if t.P(1, 5) {
			return xq(big.NewRat(int64(t.Int(-3*k, 5*k)), int64(t.Int(1, 3))))
		}
		return xi(int64(t.Int(-k, 2*k)))
	}
	var chains []*blChain
	num, syms := 0, 0
	chain := func() *blChain {
		c := &blChain{}
		up := t.W(3, 3, 1)
		for k := t.W(0, 0, 4, 6, 4, 2); k > 0; k-- {
			if t.P(1, 2) {
				c.terms = append(c.terms, rnd(3))
				num++
			} else {
				c.terms = append(c.terms, sym[t.Int(0, 2)])
				syms++
			}
			if k > 1 {
				var o string
				switch up {
				case 0:
					o = pbt.Of(t, "Less", "LessEqual", "Less", "LessEqual", "Equal")
				case 1:
					o = pbt.Of(t, "Greater", "GreaterEqual", "Greater", "GreaterEqual", "Equal")
				default:
					o = pbt.Of(t, "Less", "LessEqual", "Equal", "GreaterEqual", "Greater")
				}
				c.ops = append(c.ops, o)
			}
		}
		// numbers in the order of the chain leave more to be decided
		if up != 2 && t.P(2, 3) {
			var ns []*X
			for _, x := range c.terms {
				if x.isNum() {
					ns = append(ns, x)
				}
			}
			sort.Slice(ns, func(i, j int) bool {
				return (ns[i].rat().Cmp(ns[j].rat()) < 0) == (up == 0) && ns[i].rat().Cmp(ns[j].rat()) != 0
			})
			for i, x := range c.terms {
				if x.isNum() {
					c.terms[i], ns = ns[0], ns[1:]
				}
			}
		}
		chains = append(chains, c)
		return c
	}
	x := chain().x(t.P(2, 3))
	truth := func(val func(*X) *big.Rat) bool { return chains[0].truth(val) }
	switch t.W(4, 1, 1, 1) {
	case 1:
		c := chain()
		x = xE("And", x, c.x(true))
		truth = func(val func(*X) *big.Rat) bool { return chains[0].truth(val) && c.truth(val) }
	case 2:
		c := chain()
		x = xE("Or", x, c.x(true))
		truth = func(val func(*X) *big.Rat) bool { return chains[0].truth(val) || c.truth(val) }
	case 3:
		x = xE("Not", x)
		truth = func(val func(*X) *big.Rat) bool { return !chains[0].truth(val) }
	}
	t.Case("%s", x)
	t.NontrivialIf(len(chains[0].ops) >= 2 && num > 0 && syms > 0)
	got := ev(es, x)
	if again := ev(es, got); !xeq(again, got) {
		t.Failf("%s evaluates again to %s", got, again)
	}
	for k := 0; k < 12; k++ {
		vals := map[string]*big.Rat{}
		rules := xl()
		for _, s := range sym {
			v := rnd(3)
			// values of the numbers in the chains are decisive
			if t.P(1, 2) {
				c := chains[t.Int(0, len(chains)-1)]
				if y := c.terms[t.Int(0, len(c.terms)-1)]; y.isNum() {
					v = xq(new(big.Rat).Add(y.rat(), big.NewRat(int64(t.Int(-1, 1)), 2)))
				}
			}
			vals[s.S] = v.rat()
			rules.P = append(rules.P, xE("Rule", s, v))
		}
		want := truth(func(y *X) *big.Rat {
			if y.isNum() {
				return y.rat()
			}
			return vals[y.S]
		})
		if r := ev(es, xE("ReplaceAll", got, rules)); !xeq(r, pbool(want)) {
			t.Failf("%s for %s is %s instead of %v", got, rules, r, want)
		}
	}
}
