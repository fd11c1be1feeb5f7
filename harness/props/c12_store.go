package props

import (
	"fmt"
	"sort"
	"strings"

	"verif/harness/pbt"
)

// A definition in the model of the store: a rule for calls of one function.
type storeRule struct {
	refRule
	key  string // the left-hand side with its parameters numbered
	args map[string]bool
	test bool
}

// alpha numbers the names that a pattern uses more than once and drops the
// others.
func alpha(p *X, uses map[string]int, names map[string]string) *X {
	if p.head("Pattern") {
		n := p.P[1].S
		if uses[n] < 2 {
			return alpha(p.P[2], uses, names)
		}
		if names[n] == "" {
			names[n] = fmt.Sprintf("n%d", len(names))
		}
		return xE("Pattern", glo(names[n]), alpha(p.P[2], uses, names))
	}
	if p.K != 'e' {
		return p
	}
	n := &X{K: 'e'}
	for _, q := range p.P {
		n.P = append(n.P, alpha(q, uses, names))
	}
	return n
}

var storeArgs = []*X{
	xi(1), xi(2), xq(bigRat(1, 2)), xq(bigRat(-1, 3)), xs("s"), xs("t"), glo("a"), glo("b"),
	xl(), xl(xi(1)), xl(glo("b")), xl(xi(1), xi(2)), xl(xi(2), xi(2)), xG("h", xi(1)), xG("h", glo("a")),
}

// The tuples of arguments on which rules are compared.
var storeTuples = func() (out [][]*X) {
	out = append(out, nil)
	for _, a := range storeArgs {
		out = append(out, []*X{a})
	}
	for _, a := range storeArgs {
		for _, b := range storeArgs {
			out = append(out, []*X{a, b})
		}
	}
	for _, a := range storeArgs[4:8] {
		for _, b := range storeArgs[4:8] {
			out = append(out, []*X{a, b, glo("a")}, []*X{a, b, xs("s")})
		}
	}
	return out
}()

func newStoreRule(t *T, lhs, rhs, cond *X) *storeRule {
	r := &storeRule{refRule: refRule{lhs: lhs, rhs: rhs, cond: cond, delayed: true}, args: map[string]bool{}}
	uses := map[string]int{}
	for _, n := range patNames(lhs) {
		uses[n]++
	}
	r.key = alpha(lhs, uses, map[string]string{}).String()
	r.test = contains(lhs, func(x *X) bool { return x.head("PatternTest") })
	for i, args := range storeTuples {
		if len(refMatch(t, lhs, xe(lhs.P[0], args...))) > 0 {
			r.args[fmt.Sprint(i)] = true
		}
	}
	return r
}

// seqAt gives the place of the argument that stands for a sequence, or 0.
func seqAt(lhs *X) int {
	for i, p := range lhs.args() {
		if p.head("Pattern") {
			p = p.P[2]
		}
		if p.head("BlankSequence") || p.head("BlankNullSequence") {
			return i + 1
		}
	}
	return 0
}

// narrower decides whether r must be tried before s.
func (r *storeRule) narrower(s *storeRule) bool {
	if s.cond != nil || len(r.args) > len(s.args) {
		return false
	}
	// Patterns with sequences are compared when their arguments correspond.
	if rs, ss := seqAt(r.lhs), seqAt(s.lhs); len(r.lhs.P) > 3 || rs > 0 && (rs != ss || len(r.lhs.P) != len(s.lhs.P)) {
		return false
	}
	if r.test || s.test {
		// Tests are not compared with each other or with anything but _.
		if s.test || len(r.lhs.P) != len(s.lhs.P) {
			return false
		}
		for i, p := range r.lhs.args() {
			q := s.lhs.args()[i]
			if q.head("Pattern") {
				q = q.P[2]
			}
			if contains(p, func(x *X) bool { return x.head("PatternTest") }) && !(q.head("Blank") && len(q.P) == 1) {
				return false
			}
		}
	}
	for a := range r.args {
		if !s.args[a] {
			return false
		}
	}
	return len(r.args) < len(s.args) || r.cond != nil && s.cond == nil && r.key == s.key
}

type storeModel struct {
	rules map[string][]*storeRule
	own   map[string]*X // values, of delayed definitions the text
	attrs map[string]map[string]bool
	next  int64
}

func (m *storeModel) define(f string, r *storeRule) {
	for i, old := range m.rules[f] {
		if (old.cond == nil) != (r.cond == nil) {
			continue
		}
		if old.cond != nil && !(xeq(old.cond, r.cond) && xeq(old.lhs, r.lhs)) {
			continue
		}
		if old.key == r.key {
			m.rules[f][i] = r
			return
		}
	}
	m.rules[f] = append(m.rules[f], r)
}

// value evaluates the values of variables in an expression.
func (m *storeModel) value(x *X) *X {
	if x.K == 'y' {
		if v, ok := m.own[x.S]; ok {
			return m.value(v)
		}
		return x
	}
	if x.K != 'e' {
		return x
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, m.value(p))
	}
	return n
}

// results lists the values a call may have: those of the applicable rules to
// which no other is preferred.
func (m *storeModel) results(t *T, call *X) (out []*X) {
	var app []*storeRule
	var res []*X
	for _, r := range m.rules[call.P[0].S] {
		if x, ok := r.apply(t, call); ok {
			app = append(app, r)
			res = append(res, m.value(x))
		}
	}
	for i, r := range app {
		best := true
		for _, s := range app {
			best = best && !s.narrower(r)
		}
		if best {
			out = append(out, res[i])
		}
	}
	if len(app) == 0 {
		out = []*X{call}
	}
	return out
}

func genStorePattern(t *T, f *X) *X {
	names := []string{"x", "y", "z", "first", "restOfThem"}
	used := map[string]bool{}
	seqs := 0
	var pat func(depth int) *X
	pat = func(depth int) *X {
		p := blank()
		switch t.W(8, 6, 4, 2, 2, 3) {
		case 1:
			return pbt.Pick(t, storeArgs)
		case 2:
			p = xE("Blank", sys(pbt.Of(t, "Integer", "Rational", "String", "Symbol", "List")))
		case 3:
			if seqs == 0 && depth == 0 {
				seqs++
				p = xE(pbt.Of(t, "BlankSequence", "BlankNullSequence"))
			}
		case 4:
			p = xE("PatternTest", blank(), sys(pbt.Of(t, "IntegerQ", "EvenQ", "AtomQ")))
		case 5:
			if depth == 0 {
				l := pbt.Of(t, xl(), xl(), xG("h"))
				for i := t.Int(0, 2); i > 0; i-- {
					l.P = append(l.P, pat(1))
				}
				return l
			}
		}
		if t.P(1, 5) {
			return p
		}
		n := pbt.Pick(t, names)
		if used[n] && (!p.head("Blank") || t.P(2, 3)) {
			return p
		}
		used[n] = true
		return patn(n, p)
	}
	lhs := xe(f)
	for i := t.W(1, 10, 8, 1); i > 0; i-- {
		lhs.P = append(lhs.P, pat(0))
	}
	// A name used twice stands for single arguments.
	if contains(lhs, func(x *X) bool { return x.head("BlankSequence") || x.head("BlankNullSequence") }) {
		count := map[string]int{}
		for _, v := range patNames(lhs) {
			if count[v]++; count[v] > 1 {
				t.Discard()
			}
		}
	}
	return lhs
}

func patNames(p *X) (out []string) {
	if p.head("Pattern") {
		return append(patNames(p.P[2]), p.P[1].S)
	}
	for _, q := range p.P {
		out = append(out, patNames(q)...)
	}
	return out
}

func stripHold(x *X) *X {
	if x.head("HoldPattern") {
		return x.P[1]
	}
	return x
}

func storeHistory(t *T) {
	es := t.ES()
	id := fmt.Sprintf("%d", t.Index%1000)
	fs := []*X{glo("sf" + id), glo("sg" + id)}
	vs := []*X{glo("su" + id), glo("sv" + id)}
	ev(es, xE("ClearAll", fs[0], fs[1], vs[0], vs[1]))
	m := &storeModel{rules: map[string][]*storeRule{}, own: map[string]*X{}, attrs: map[string]map[string]bool{}}
	overlap, changes := 0, 0
	do := func(op, want *X) {
		t.Case("%s", op.Src())
		if got := ev(es, op); want != nil && !xeq(got, want) {
			t.Failf("%s gives %s, expected %s", op.Src(), got, want)
		}
	}
	null := sys("Null")
	for steps := t.Int(1, 9); steps > 0; steps-- {
		f := pbt.Pick(t, fs)
		v := pbt.Pick(t, vs)
		switch t.W(12, 5, 1, 1, 2, 2, 1, 1) {
		case 0:
			m.next++
			lhs := genStorePattern(t, f)
			rhs := xG("r", xi(m.next))
			for _, n := range patNames(lhs) {
				rhs.P = append(rhs.P, &X{K: 'y', S: n})
			}
			if t.P(1, 5) {
				rhs.P = append(rhs.P, vs[t.Int(0, 1)])
			}
			var cond *X
			if len(rhs.P) > 2 && t.P(1, 6) {
				if n := rhs.P[2]; n.K == 'y' && !contains(lhs, func(x *X) bool { return x.head("BlankSequence") || x.head("BlankNullSequence") }) {
					cond = pbt.Of(t, xE("AtomQ", n), xE("IntegerQ", n), xE("UnsameQ", n, xi(2)))
					if !strings.HasPrefix(n.S, "Global`s") {
						t.Label("conditional rule")
					} else {
						cond = nil
					}
				}
			}
			body := rhs
			if cond != nil {
				body = xE("Condition", rhs, cond)
			}
			if cond == nil && t.P(1, 3) {
				// Immediate: variables get their present values; parameters have none.
				rhs = m.value(rhs)
				do(xE("Set", lhs, body), rhs)
			} else {
				do(xE("SetDelayed", lhs, body), null)
			}
			r := newStoreRule(t, lhs, rhs, cond)
			for _, s := range m.rules[f.S] {
				if r.narrower(s) || s.narrower(r) || s.key == r.key {
					overlap++
				}
			}
			m.define(f.S, r)
		case 1:
			changes++
			switch t.W(4, 2, 2, 2, 1, 1) {
			case 0:
				w := xi(int64(t.Near(5)))
				do(xE("Set", v, w), w)
				m.own[v.S] = w
			case 1:
				// The first variable may stand for the second.
				do(xE("SetDelayed", vs[0], xG("r", vs[1])), null)
				m.own[vs[0].S] = xG("r", vs[1])
			case 2, 3:
				cur := m.own[v.S]
				if cur == nil || cur.K != 'i' {
					w := xl(xi(1), glo("a"))
					do(xE("Set", v, w), w)
					m.own[v.S] = w
					break
				}
				n := int64(t.Near(4))
				old, add := cur.N.Int64(), n
				switch t.W(2, 2, 1, 1, 1, 1) {
				case 0:
					do(xE("AddTo", v, xi(n)), xi(old+n))
				case 1:
					do(xE("Increment", v), xi(old))
					add = 1
				case 2:
					do(xE("PreIncrement", v), xi(old+1))
					add = 1
				case 3:
					do(xE("Decrement", v), xi(old))
					add = -1
				case 4:
					do(xE("PreDecrement", v), xi(old-1))
					add = -1
				default:
					do(xE("SubtractFrom", v, xi(n)), xi(old-n))
					add = -n
				}
				m.own[v.S] = xi(old + add)
			case 4:
				cur := m.own[v.S]
				if cur == nil || !cur.head("List") {
					break
				}
				w := clone(cur)
				e := xi(int64(t.Near(5)))
				if t.Bool() {
					w.P = append(w.P, e)
					do(xE("AppendTo", v, e), w)
				} else {
					w = xl(append([]*X{e}, cur.args()...)...)
					do(xE("PrependTo", v, e), w)
				}
				m.own[v.S] = w
			case 5:
				w := xi(int64(t.Near(9)))
				do(xE("Set", vs[0], xE("Set", vs[1], w)), w)
				m.own[vs[0].S], m.own[vs[1].S] = w, w
			}
		case 2:
			s := pbt.Of(t, f, v)
			do(xE("Clear", s), null)
			delete(m.rules, s.S)
			delete(m.own, s.S)
			changes++
		case 3:
			do(xE("ClearAll", f, v), null)
			delete(m.rules, f.S)
			delete(m.own, v.S)
			delete(m.attrs, f.S)
			changes++
		case 4:
			// A value at the argument that a variable stands for.
			m.next++
			if contains(m.value(v), func(x *X) bool { return x.K == 'y' && x.S == v.S }) {
				break
			}
			w := xG("r", xi(m.next))
			do(xE("Set", xe(f, v), w), w)
			m.define(f.S, newStoreRule(t, xe(f, m.value(v)), w, nil))
		case 5:
			var names []*X
			for _, n := range []string{"NHoldAll", "NumericFunction", "ReadProtected", "NHoldFirst"} {
				if t.P(1, 3) {
					names = append(names, sys(n))
				}
			}
			if m.attrs[f.S] == nil {
				m.attrs[f.S] = map[string]bool{}
			}
			at := xl(names...)
			if len(names) == 1 && t.Bool() {
				at = names[0]
			}
			switch t.W(2, 2, 1) {
			case 0:
				do(xE("SetAttributes", f, at), null)
			case 1:
				do(xE("ClearAttributes", f, at), null)
				for _, n := range names {
					delete(m.attrs[f.S], n.S)
				}
				names = nil
			default:
				do(xE("Set", xE("Attributes", f), xl(names...)), nil)
				m.attrs[f.S] = map[string]bool{}
			}
			for _, n := range names {
				m.attrs[f.S][n.S] = true
			}
		case 6:
			do(xE("Set", xE("DownValues", f), xE("DownValues", f)), nil)
		case 7:
			m.next++
			lhs := genStorePattern(t, f)
			rhs := xG("r", xi(m.next))
			do(xE("Set", xE("DownValues", f), xl(xE("RuleDelayed", xE("HoldPattern", lhs), rhs))), nil)
			m.rules[f.S] = []*storeRule{newStoreRule(t, lhs, rhs, nil)}
			changes++
		}
		// The whole store after every step.
		for _, v := range vs {
			if got, want := ev(es, v), m.value(v); !xeq(got, want) {
				t.Failf("%s is %s, expected %s", v, got, want)
			}
		}
		for _, f := range fs {
			dv := ev(es, xE("DownValues", f))
			var rs []*refRule
			for _, d := range dv.args() {
				r := &refRule{lhs: stripHold(d.P[1]), rhs: d.P[2]}
				if r.rhs.head("Condition") {
					r.rhs, r.cond = r.rhs.P[1], r.rhs.P[2]
				}
				rs = append(rs, r)
			}
			if len(rs) != len(m.rules[f.S]) {
				t.Failf("DownValues of %s are %s, expected %d", f, dv, len(m.rules[f.S]))
			}
			var want []*X
			for n := range m.attrs[f.S] {
				want = append(want, &X{K: 'y', S: n})
			}
			sort.Slice(want, func(i, j int) bool { return want[i].S < want[j].S })
			if got := ev(es, xE("Attributes", f)); !xeq(got, xl(want...)) {
				t.Failf("Attributes of %s are %s, expected %s", f, got, xl(want...))
			}
			for i := 0; i < 5; i++ {
				call := xe(f, pbt.Pick(t, storeTuples)...)
				got := ev(es, call)
				var ws []*X
				ok := false
				for _, w := range m.results(t, call) {
					ws = append(ws, ev(es, w))
					ok = ok || xeq(got, ws[len(ws)-1])
				}
				if !ok {
					t.Logf("definitions: %s", dv)
					t.Failf("%s gives %s, expected %s", call, got, join(ws))
				}
				// The reported definitions are the ones in use.
				for _, r := range rs {
					if res, ok := r.apply(t, call); ok {
						if w := ev(es, m.value(res)); !xeq(got, w) {
							t.Logf("definitions: %s", dv)
							t.Failf("%s gives %s, the reported definitions %s", call, got, w)
						}
						break
					}
				}
			}
		}
	}
	t.NontrivialIf(overlap > 0 || changes > 1)
	if overlap > 0 {
		t.Label("overlapping rules")
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C12",
		Title: "The definition store behaves like a map from left-hand sides to values",
		Rule:  "two definitions of one function overlap or replace each other, or at least two changes of values, clears or resets",
		Facets: []pbt.Facet{
			{Name: "history", Quick: 9000, Thorough: 600000, Batch: 100, Run: storeHistory},
		},
	})
}
