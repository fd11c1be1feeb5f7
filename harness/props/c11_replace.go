package props

import (
	"verif/harness/pbt"
)

type refRule struct {
	lhs, rhs, cond *X
	inner          *X // a second condition, inside of the first
	delayed        bool
}

func (r *refRule) x() *X {
	rhs := r.rhs
	if r.inner != nil {
		rhs = xE("Condition", rhs, r.inner)
	}
	if r.cond != nil {
		rhs = xE("Condition", rhs, r.cond)
	}
	if r.delayed {
		return xE("RuleDelayed", r.lhs, rhs)
	}
	return xE("Rule", r.lhs, rhs)
}

func rulesX(t *T, rs []*refRule) *X {
	if len(rs) == 1 && t.Bool() {
		return rs[0].x()
	}
	l := xl()
	for _, r := range rs {
		l.P = append(l.P, r.x())
	}
	return l
}

// apply gives the replacement of e by the first match that satisfies the
// condition.
func (r *refRule) apply(t *T, e *X) (*X, bool) {
	for _, b := range refMatch(t, r.lhs, e) {
		if (r.cond == nil || refCond(substBinds(r.cond, b))) && (r.inner == nil || refCond(substBinds(r.inner, b))) {
			return substBinds(r.rhs, b), true
		}
	}
	return e, false
}

func refReplaceAll(t *T, e *X, rs []*refRule) (*X, bool) {
	for _, r := range rs {
		if res, ok := r.apply(t, e); ok {
			return res, true
		}
	}
	if e.K != 'e' {
		return e, false
	}
	n := &X{K: 'e'}
	any := false
	for _, p := range e.P {
		q, ok := refReplaceAll(t, p, rs)
		any = any || ok
		n.P = append(n.P, q)
	}
	return n, any
}

// subject: inert ordered expressions in which the names of pattern variables
// occur as ordinary symbols.
func replSubject(t *T, depth int) *X {
	if depth <= 0 || t.P(1, 4) {
		if t.P(1, 3) {
			return glo(pbt.Of(t, "x", "y", "z"))
		}
		return matchAtom(t)
	}
	x := pbt.Of(t, xG("f"), xG("f"), xG("g"), xl(), xG("hold"))
	if t.P(1, 12) {
		x = xe(xG("f", matchAtom(t)))
	}
	for i := t.W(1, 3, 4, 3, 1); i > 0; i-- {
		if len(x.P) > 1 && t.P(1, 5) {
			x.P = append(x.P, x.P[1])
		} else {
			x.P = append(x.P, replSubject(t, depth-1))
		}
	}
	return x
}

func subparts(e *X) []*X {
	out := []*X{e}
	for _, p := range e.P {
		out = append(out, subparts(p)...)
	}
	return out
}

func genRHS(t *T, vars []*X, depth int) *X {
	v := func() *X {
		if len(vars) > 0 && t.P(3, 4) {
			return pbt.Pick(t, vars)
		}
		return pbt.Of(t, glo("q"), xi(7), glo("a"), glo("y"))
	}
	switch {
	case depth <= 0 || t.P(1, 3):
		return v()
	case t.P(1, 4):
		return xE(pbt.Of(t, "IntegerQ", "AtomQ", "Head", "Hold"), v())
	}
	x := pbt.Of(t, xG("r"), xl(), xG("f"), xG("hold"))
	for i := t.Int(0, 3); i > 0; i-- {
		x.P = append(x.P, genRHS(t, vars, depth-1))
	}
	return x
}

func genRule(t *T, e *X) *refRule {
	g := &patGen{t: t, vars: []string{"x", "y", "z", "w"}}
	sub := pbt.Pick(t, subparts(e))
	if t.P(1, 6) {
		sub = replSubject(t, 1)
	}
	r := &refRule{delayed: t.Bool()}
	switch {
	case t.P(1, 4):
		r.lhs = sub
	case sub.K == 'e' && t.P(2, 3):
		r.lhs = g.compound(sub, 1)
	default:
		r.lhs = g.pat(sub, 1)
	}
	vars := patVars(r.lhs)
	r.rhs = genRHS(t, vars, 2)
	if t.P(1, 5) {
		var sv []*X
		for _, v := range vars {
			if !contains(r.lhs, func(x *X) bool { return x.head("Pattern") && x.P[1].S == v.S && !x.P[2].head("Blank") }) {
				sv = append(sv, v)
			}
		}
		if len(sv) > 0 {
			r.cond = g.cond(pbt.Pick(t, sv))
			if t.P(1, 3) {
				r.inner = g.cond(pbt.Pick(t, sv))
			}
			r.delayed = true
		}
	}
	return r
}

// settle brings a rule into the form it has once evaluated.
func (r *refRule) settle(es ES) {
	if !r.delayed && r.cond == nil {
		r.rhs = ev(es, r.rhs)
	}
}

func genRules(t *T, es ES, e *X) []*refRule {
	var rs []*refRule
	for i := t.W(4, 4, 2); i >= 0; i-- {
		rs = append(rs, genRule(t, e))
	}
	return rs
}

func rulesSrc(rs []*refRule) string {
	s := ""
	for _, r := range rs {
		s += r.x().Src() + "\n"
	}
	return s
}

func replaceAllFacet(t *T) {
	es := t.ES()
	run(es, matchSetup)
	e := ev(es, replSubject(t, 3))
	rs := genRules(t, es, e)
	rx := rulesX(t, rs)
	call := xE("ReplaceAll", xE("Unevaluated", e), rx)
	single := t.P(1, 3)
	if single {
		call.P[0] = sys("Replace")
	}
	t.Case("%s", call.Src())
	for _, r := range rs {
		r.settle(es)
	}
	var want *X
	var ok bool
	if single {
		want = e
		for _, r := range rs {
			if want, ok = r.apply(t, e); ok {
				break
			}
		}
	} else {
		want, ok = refReplaceAll(t, e, rs)
	}
	t.NontrivialIf(ok && len(rs) > 0)
	got := ev(es, call)
	if w := ev(es, want); !xeq(got, w) {
		t.Failf("%s gives %s, expected %s", call, got, w)
	}
}

func replaceRepeated(t *T) {
	es := t.ES()
	run(es, matchSetup)
	// Rules that make an expression smaller or use up a symbol: they terminate.
	e := ev(es, replSubject(t, 3))
	g := &patGen{t: t, vars: []string{"x", "y", "z"}}
	var rs []*refRule
	for i := t.W(3, 4, 3); i >= 0; i-- {
		r := &refRule{delayed: t.Bool()}
		sub := pbt.Pick(t, subparts(e))
		if sub.K == 'e' && t.P(3, 4) {
			r.lhs = xe(sub.P[0])
			for range sub.args() {
				switch t.W(3, 1, 1) {
				case 0:
					r.lhs.P = append(r.lhs.P, xE("Pattern", g.name(), xE("Blank")))
				case 1:
					r.lhs.P = append(r.lhs.P, xE("Blank"))
				default:
					r.lhs.P = append(r.lhs.P, xE("Pattern", glo("w"), xE("BlankNullSequence")))
				}
			}
			if vs := patVars(r.lhs); len(vs) > 0 && t.P(3, 4) {
				r.rhs = pbt.Pick(t, vs)
				if r.rhs.S == "Global`w" {
					r.rhs = xG("k", r.rhs)
				}
			} else {
				r.rhs = glo("q")
			}
		} else {
			r.lhs = sub
			r.rhs = pbt.Of(t, glo("q"), glo("p"), xG("k", glo("q")))
		}
		rs = append(rs, r)
	}
	call := xE("ReplaceRepeated", xE("Unevaluated", e), rulesX(t, rs))
	t.Case("%s", call.Src())
	for _, r := range rs {
		r.settle(es)
	}
	want := e
	steps := 0
	for {
		n, _ := refReplaceAll(t, want, rs)
		n = ev(es, n)
		if xeq(n, want) {
			break
		}
		want = n
		if steps++; steps > 30 {
			t.Discard()
		}
	}
	t.NontrivialIf(steps > 1)
	if got := ev(es, call); !xeq(got, want) {
		t.Failf("%s gives %s, expected %s", call, got, want)
	}
	if again := ev(es, xE("ReplaceAll", xE("Unevaluated", want), rulesX(t, rs))); !xeq(again, want) {
		t.Failf("the result %s of %s can still be rewritten to %s", want, call, again)
	}
}

// Some of the arguments of a Flat function.
func replaceFlat(t *T) {
	es := t.ES()
	run(es, matchSetup)
	h := pbt.Of(t, "ff", "foi", "fof", "fooi")
	at := matchHeads["Global`"+h]
	e := xG(h)
	for i := t.Int(2, 6); i > 0; i-- {
		if t.P(1, 5) {
			e.P = append(e.P, xG("g", pbt.Of(t, glo("a"), glo("b"))))
			continue
		}
		e.P = append(e.P, pbt.Of(t, glo("a"), glo("b"), glo("c"), xi(1), xi(2)))
	}
	e = ev(es, e)
	lhs := xG(h)
	for i := t.Int(2, 3); i > 0; i-- {
		switch t.W(4, 2, 1) {
		case 0:
			lhs.P = append(lhs.P, pbt.Pick(t, e.args()))
		case 1:
			lhs.P = append(lhs.P, patn(pbt.Of(t, "x", "y"), xE("Blank")))
		default:
			lhs.P = append(lhs.P, patn(pbt.Of(t, "x", "y"), xE("Blank", sys(pbt.Of(t, "Integer", "Symbol")))))
			if !at.oneid {
				lhs.P[len(lhs.P)-1] = lhs.P[len(lhs.P)-1].P[2]
			}
		}
	}
	rhs := genRHS(t, patVars(lhs), 1)
	r := &refRule{lhs: lhs, rhs: rhs, delayed: true}
	if v := patVars(lhs); len(v) > 0 && t.P(1, 4) {
		r.cond = xE(pbt.Of(t, "IntegerQ", "AtomQ"), v[0])
	}
	outer := pbt.Of(t, xl(e), xG("g", e, glo("a")), e)
	call := xE("ReplaceAll", outer, r.x())
	t.Case("%s", call.Src())
	loose := xE("HoldPattern", xe(lhs.P[0]))
	loose.P[1].P = append(loose.P[1].P, patn("start$", xE("BlankNullSequence")))
	loose.P[1].P = append(loose.P[1].P, lhs.args()...)
	loose.P[1].P = append(loose.P[1].P, patn("end$", xE("BlankNullSequence")))
	if at.orderless {
		loose.P[1].P = append(loose.P[1].P[:1:1], loose.P[1].P[2:]...)
	}
	var results []*X
	accept := func(ms []binds, f func(binds) *X) {
		for _, b := range ms {
			if r.cond != nil && !refCond(substBinds(r.cond, b)) || r.inner != nil && !refCond(substBinds(r.inner, b)) {
				continue
			}
			results = append(results, f(b))
		}
	}
	accept(refMatch(t, lhs, e), func(b binds) *X { return substBinds(rhs, b) })
	if len(results) == 0 {
		accept(refMatch(t, loose.P[1], e), func(b binds) *X {
			if at.orderless {
				return substBinds(xe(lhs.P[0], rhs, glo("end$")), b)
			}
			return substBinds(xe(lhs.P[0], glo("start$"), rhs, glo("end$")), b)
		})
	}
	t.NontrivialIf(len(results) > 0)
	got := ev(es, call)
	if len(results) == 0 {
		if w := ev(es, outer); !xeq(got, w) {
			t.Failf("%s gives %s although nothing matches", call, got)
		}
		return
	}
	if !at.orderless {
		results = results[:1]
	}
	for _, x := range results {
		w := x
		if outer.head("List") {
			w = xl(x)
		} else if !xeq(outer, e) {
			w = xG("g", x, glo("a"))
		}
		if xeq(got, ev(es, w)) {
			return
		}
	}
	t.Failf("%s gives %s, expected for example %s in place of %s", call, got, ev(es, results[0]), e)
}

func refReplaceParts(t *T, e *X, rs []*refRule, pos []*X) *X {
	if e.K != 'e' {
		return e
	}
	n := xe(e.P[0])
	for i, p := range e.args() {
		at := append(pos[:len(pos):len(pos)], xi(int64(i+1)))
		done := false
		for _, r := range rs {
			res, ok := r.apply(t, xl(at...))
			if !ok && len(at) == 1 {
				res, ok = r.apply(t, at[0])
			}
			if ok {
				n.P = append(n.P, res)
				done = true
				break
			}
		}
		if !done {
			n.P = append(n.P, refReplaceParts(t, p, rs, at))
		}
	}
	return n
}

func replacePart(t *T) {
	es := t.ES()
	e := ev(es, replSubject(t, 3))
	if e.K != 'e' {
		e = xl(e)
	}
	val := func(i int) *X { return pbt.Of(t, glo("q"), xG("h", xi(int64(i))), xl(), glo("x")) }
	if t.P(1, 5) {
		i := t.Int(1, 4)
		call := xE("ReplacePart", e, val(0), xi(int64(i)))
		t.Case("%s", call.Src())
		if i >= len(e.P) {
			return
		}
		t.Nontrivial()
		w := clone(e)
		w.P[i] = call.P[2]
		if got := ev(es, call); !xeq(got, w) {
			t.Failf("%s gives %s, expected %s", call, got, w)
		}
		return
	}
	// Positions in the tree, and some outside.
	var poss [][]int
	var walk func(x *X, at []int)
	walk = func(x *X, at []int) {
		if len(at) > 0 {
			poss = append(poss, at)
		}
		if x.K == 'e' {
			for i, p := range x.args() {
				walk(p, append(at[:len(at):len(at)], i+1))
			}
		}
	}
	walk(e, nil)
	poss = append(poss, []int{len(e.P)})
	var rs []*refRule
	// A bare integer stands for the position of one level; a pattern in its
	// place would also match the positions as lists.
	bare := t.P(1, 4)
	for i := t.W(3, 3, 2); i >= 0; i-- {
		p := pbt.Pick(t, poss)
		l := xl()
		for _, k := range p {
			switch t.W(8, 1, 1) {
			case 1:
				l.P = append(l.P, xE("Blank"))
			case 2:
				l.P = append(l.P, patn("i", xE("Blank")))
			default:
				l.P = append(l.P, xi(int64(k)))
			}
		}
		if t.P(1, 10) {
			l.P = append(l.P, xi(1))
		}
		lhs := l
		if bare {
			if lhs = l.P[1]; lhs.K != 'i' {
				lhs = xi(int64(p[0]))
			}
		}
		r := &refRule{lhs: lhs, rhs: val(i)}
		if contains(lhs, func(x *X) bool { return x.head("Pattern") }) && t.Bool() {
			r.rhs = xG("h", glo("i"))
		}
		rs = append(rs, r)
	}
	call := xE("ReplacePart", e, rulesX(t, rs))
	t.Case("%s", call.Src())
	w := ev(es, refReplaceParts(t, e, rs, nil))
	t.NontrivialIf(!xeq(w, e))
	if got := ev(es, call); !xeq(got, w) {
		t.Failf("%s gives %s, expected %s", call, got, w)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C11",
		Title: "Replacement rewrites exactly the matching parts, outermost and first rule first",
		Rule:  "some rule applies (repeated: at least two passes; part: the expression changes)",
		Facets: []pbt.Facet{
			{Name: "replace", Quick: 9000, Thorough: 900000, Batch: 200, Run: replaceAllFacet},
			{Name: "repeated", Quick: 3000, Thorough: 300000, Batch: 200, Run: replaceRepeated},
			{Name: "flat", Quick: 3000, Thorough: 300000, Batch: 200, Run: replaceFlat},
			{Name: "part", Quick: 4000, Thorough: 400000, Batch: 200, Run: replacePart},
		},
	})
}
