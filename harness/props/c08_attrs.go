package props

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"verif/harness/pbt"
)

var allAttrs = []string{"Orderless", "Flat", "OneIdentity", "Listable", "Constant", "NumericFunction", "Protected",
	"ReadProtected", "HoldFirst", "HoldRest", "HoldAll", "HoldAllComplete", "NHoldFirst", "NHoldRest", "NHoldAll",
	"SequenceHold", "Temporary", "Stub"}

type attrSet map[string]bool

func (s attrSet) list() *X {
	var names []string
	for n := range s {
		names = append(names, n)
	}
	sort.Strings(names)
	l := xl()
	for _, n := range names {
		l.P = append(l.P, sys(n))
	}
	return l
}

// setAttrs gives f the attributes through a random history.
func setAttrs(t *T, es ES, f *X, s attrSet, hist bool) {
	if !hist {
		ev(es, xE("Set", xE("Attributes", f), s.list()))
		return
	}
	now := attrSet{}
	if t.P(1, 2) {
		for i := t.Int(0, 4); i > 0; i-- {
			n := pbt.Pick(t, allAttrs)
			now[n] = true
		}
		ev(es, xE("Set", xE("Attributes", f), now.list()))
	}
	for _, n := range allAttrs {
		switch {
		case s[n] && (!now[n] || t.P(1, 3)):
			ev(es, xE("SetAttributes", f, pbt.Of(t, sys(n), xl(sys(n)))))
		case !s[n] && (now[n] || t.P(1, 8)):
			ev(es, xE("ClearAttributes", f, pbt.Of(t, sys(n), xl(sys(n)))))
		}
	}
}

// attrModel evaluates calls of one function by its attributes.
type attrModel struct {
	f     *X
	tick  *X
	attrs attrSet
	log   []*X
}

func (m *attrModel) isTick(x *X) bool { return x.K == 'e' && xeq(x.P[0], m.tick) }
func (m *attrModel) isF(x *X) bool    { return x.K == 'e' && xeq(x.P[0], m.f) }

func splice(args []*X, is func(*X) bool) (out []*X) {
	for _, a := range args {
		if is(a) {
			out = append(out, splice(a.args(), is)...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func isSeq(x *X) bool { return x.head("Sequence") }

func (m *attrModel) eval(x *X) *X {
	switch {
	case x.K != 'e':
		return x
	case m.isTick(x):
		m.log = append(m.log, x.P[1])
		return m.eval(x.P[2])
	case m.isF(x):
		return m.call(m.receive(x.args()))
	}
	// List, Sequence, Evaluate and functions without attributes
	var args []*X
	for _, a := range x.args() {
		args = append(args, m.eval(a))
	}
	return xe(x.P[0], splice(args, func(a *X) bool { return isSeq(a) || a.head("Evaluate") })...)
}

func (m *attrModel) held(i int) bool {
	a := m.attrs
	return a["HoldAll"] || a["HoldAllComplete"] || a["HoldFirst"] && i == 0 || a["HoldRest"] && i > 0
}

// partly: only some positions are held.
func (m *attrModel) partly() bool {
	a := m.attrs
	return a["HoldFirst"] != a["HoldRest"] && !a["HoldAll"] && !a["HoldAllComplete"]
}

// receive evaluates the arguments of a call as far as they are evaluated.
func (m *attrModel) receive(args []*X) []*X {
	var out []*X
	complete := m.attrs["HoldAllComplete"]
	for i, a := range args {
		if m.held(i) && (complete || !a.head("Evaluate")) {
			out = append(out, a)
		} else if a.head("Unevaluated") {
			out = append(out, a)
		} else {
			out = append(out, m.eval(a))
		}
	}
	if !complete {
		out = splice(out, func(x *X) bool { return x.head("Evaluate") || isSeq(x) && !m.attrs["SequenceHold"] })
		out = splice(out, func(x *X) bool { return x.head("Unevaluated") })
	}
	return out
}

// call gives the normal form of a call with the arguments it has received.
func (m *attrModel) call(args []*X) *X {
	if m.attrs["Flat"] {
		args = splice(args, m.isF)
	}
	if m.attrs["Orderless"] {
		args = append([]*X{}, args...)
		sort.SliceStable(args, func(i, j int) bool { return refOrder(args[i], args[j]) > 0 })
	}
	if m.attrs["Listable"] {
		n, ok := -1, true
		for _, a := range args {
			if a.head("List") {
				ok = ok && (n < 0 || n == len(a.args()))
				n = len(a.args())
			}
		}
		if n >= 0 && ok {
			l := xl()
			for k := 0; k < n; k++ {
				var each []*X
				for _, a := range args {
					if a.head("List") {
						a = a.args()[k]
					}
					each = append(each, a)
				}
				l.P = append(l.P, m.call(each))
			}
			return l
		}
	}
	return xe(m.f, args...)
}

type attrGen struct {
	t     *T
	m     *attrModel
	ticks int64
	rule  bool
	plain bool // no Sequence or Evaluate
}

func (g *attrGen) inert() *X {
	return pbt.Of(g.t, xi(int64(g.t.Near(4))), glo("a"), glo("b"), glo("c"), xs("s"), xG("q", glo("a")), xG("q", xi(2)))
}

// value draws an argument. quiet: nothing in it may be evaluated, or change the
// number of arguments.
func (g *attrGen) value(depth int, quiet, top bool) *X {
	t := g.t
	switch w := t.W(4, 5, 3, 2, 2, 1, 1); {
	case w == 1 && !quiet:
		g.ticks++
		k := g.ticks
		return xe(g.m.tick, xi(k), g.value(depth-1, true, false))
	case w == 2 && depth > 0 && !quiet:
		// Lists are threaded over; sequences in held lists would not be spliced.
		l := xl()
		for i := pbt.Of(t, 2, 2, 1, 3, 0); i > 0; i-- {
			l.P = append(l.P, g.value(depth-1, quiet, false))
		}
		return l
	case w == 3 && depth > 0 && top && !g.plain && !quiet && !(g.m.attrs["SequenceHold"] && g.m.attrs["Flat"]):
		s := xE("Sequence")
		for i := t.Int(0, 3); i > 0; i-- {
			s.P = append(s.P, g.value(depth-1, quiet, false))
		}
		return s
	case w == 4 && depth > 0 && !quiet && !g.rule && !(g.m.attrs["Flat"] && g.m.partly()):
		// Flattening brings what is in a held call to the top.
		plain := g.plain
		g.plain = plain || g.m.attrs["Flat"]
		x := g.call(depth - 1)
		g.plain = plain
		return x
	case w == 5 && top && !g.plain && depth > 0 && !quiet:
		e := xE("Evaluate")
		for i := pbt.Of(t, 1, 1, 2, 0); i > 0; i-- {
			e.P = append(e.P, g.value(depth-1, quiet, false))
		}
		return e
	case w == 6 && depth > 0 && !quiet:
		l := xG("q")
		for i := t.Int(0, 3); i > 0; i-- {
			l.P = append(l.P, g.value(depth-1, quiet, false))
		}
		return l
	}
	return g.inert()
}

func (g *attrGen) call(depth int) *X {
	t, a := g.t, g.m.attrs
	x := xe(g.m.f)
	// When only some positions are held, what is held must not move to a position
	// that is not, and the other way round.
	partly := g.m.partly()
	n := pbt.Of(t, 2, 1, 3, 0, 4)
	for i := 0; i < n; i++ {
		v := g.value(depth, false, true)
		if partly && g.m.held(i) && (a["Orderless"] || a["Flat"] && contains(v, g.m.isF)) {
			v = g.value(depth, true, true)
		}
		if partly && (isSeq(v) || v.head("Evaluate") || contains(v, isSeq)) {
			if g.m.held(i) && contains(v, g.m.isTick) || i == 0 && len(v.P) != 2 {
				v = g.value(depth, true, true)
			}
		}
		if g.rule && !g.m.held(i) && t.P(1, 6) {
			v = xE("Unevaluated", g.value(1, t.P(1, 3), false))
		}
		x.P = append(x.P, v)
	}
	return x
}

func attrNew(t *T, es ES, attrs attrSet) *attrModel {
	m := &attrModel{f: glo(fmt.Sprintf("f%d", t.Index)), tick: glo(fmt.Sprintf("tick%d", t.Index)), attrs: attrs}
	log := glo(fmt.Sprintf("log%d", t.Index))
	ev(es, xE("ClearAll", m.f))
	ev(es, xE("Set", log, xl()))
	run(es, fmt.Sprintf("Attributes[%s] = {HoldAll}; %s[k_, v_] := (%s = Append[%s, k]; v)", m.tick.Src(), m.tick.Src(), log.Src(), log.Src()))
	return m
}

func attrCompare(t *T, es ES, m *attrModel, x, want *X) {
	got := ev(es, x)
	log := ev(es, glo(fmt.Sprintf("log%d", t.Index)))
	if !xeq(log, xl(m.log...)) {
		t.Failf("evaluated %s, want %s", log, xl(m.log...))
	}
	if !xeq(got, want) {
		t.Failf("gives %s, want %s", got, want)
	}
}

var holdNames = []string{"HoldFirst", "HoldRest", "HoldAll", "HoldAllComplete", "SequenceHold"}

func drawAttrs(t *T, names []string) attrSet {
	s := attrSet{}
	for i := pbt.Of(t, 1, 2, 0, 3, 5); i > 0; i-- {
		s[pbt.Pick(t, names)] = true
	}
	return s
}

func attrForms(t *T) {
	es := t.ES()
	attrs := drawAttrs(t, append([]string{"Flat", "Orderless", "Listable", "OneIdentity", "Flat", "Orderless", "Listable", "NumericFunction", "NHoldAll", "ReadProtected"}, holdNames...))
	m := attrNew(t, es, attrs)
	setAttrs(t, es, m.f, attrs, t.P(1, 3))
	g := &attrGen{t: t, m: m}
	x := g.call(2 + t.W(3, 1))
	t.Case("Attributes[f] = %s; %s", attrs.list().Src(), strings.ReplaceAll(x.Src(), fmt.Sprint(t.Index), ""))
	t.NontrivialIf(len(attrs) > 0 && len(x.args()) > 1)
	for n := range attrs {
		t.Label(n)
	}
	attrCompare(t, es, m, x, m.eval(x))
}

// attrRules: a definition sees the arguments as the attributes say.
func attrRules(t *T) {
	es := t.ES()
	attrs := drawAttrs(t, holdNames)
	m := attrNew(t, es, attrs)
	setAttrs(t, es, m.f, attrs, t.P(1, 3))
	ev(es, xE("SetDelayed", xe(m.f, xE("Pattern", glo("x"), xE("BlankNullSequence"))), xE("Hold", glo("x"))))
	g := &attrGen{t: t, m: m, rule: true}
	x := g.call(2)
	head := ""
	if t.P(1, 3) {
		// The attributes are those of what the head evaluates to.
		v := glo(fmt.Sprintf("v%d", t.Index))
		ev(es, xE("ClearAll", v))
		if t.P(1, 3) {
			setAttrs(t, es, v, drawAttrs(t, holdNames), false)
		}
		ev(es, xE("Set", v, m.f))
		x = xe(pbt.Of(t, v, xE("If", sys("True"), m.f)), x.args()...)
		head = " by another name"
	}
	t.Case("Attributes[f] = %s; f[x___] := Hold[x]; %s%s", attrs.list().Src(), strings.ReplaceAll(x.Src(), fmt.Sprint(t.Index), ""), head)
	t.NontrivialIf(len(attrs) > 0 && len(x.args()) > 1)
	for n := range attrs {
		t.Label(n)
	}
	args := m.receive(x.args())
	// Hold in turn receives what the rule inserts.
	m.attrs = attrSet{"HoldAll": true}
	attrCompare(t, es, m, x, xE("Hold", m.receive(args)...))
}

// attrReports: attributes are reported as they were set and cleared.
// attrHeads: calls whose head is not a symbol have no attributes. Their head is
// evaluated first and then all arguments.
func attrHeads(t *T) {
	es := t.ES()
	attrs := drawAttrs(t, holdNames)
	m := attrNew(t, es, attrs)
	setAttrs(t, es, m.f, attrs, t.P(1, 3))
	g := &attrGen{t: t, m: m}
	var h *X
	kind := t.W(4, 1, 2, 2)
	switch kind {
	case 0:
		h = g.call(1)
	case 1:
		h = pbt.Of(t, xs("s"), xi(3), xq(big.NewRat(1, 2)))
	}
	var args, want []*X
	for k := t.Int(0, 3); k > 0; k-- {
		args = append(args, g.value(2, false, true))
	}
	var wantHead *X
	if h != nil {
		wantHead = m.eval(h)
	}
	for _, a := range args {
		want = append(want, m.eval(a))
	}
	want = splice(want, func(a *X) bool { return isSeq(a) || a.head("Evaluate") })
	var res *X
	switch kind {
	case 2: // slots
		body := xl()
		for i := range want {
			body.P = append(body.P, xE("Slot", xi(int64(i+1))))
		}
		h, res = xE("Function", body), xl(want...)
	case 3: // named parameters
		ps, body := xl(), xl()
		for i := range want {
			p := glo(fmt.Sprintf("p%d", i))
			ps.P, body.P = append(ps.P, p), append(body.P, p)
		}
		h, res = xE("Function", ps, body), xl(want...)
		if len(want) == 0 {
			h = xE("Function", body)
		}
	default:
		res = xe(wantHead, want...)
	}
	x := xe(h, args...)
	t.Case("Attributes[f] = %s; %s", attrs.list().Src(), strings.ReplaceAll(x.Src(), fmt.Sprint(t.Index), ""))
	t.NontrivialIf(len(attrs) > 0 && len(args) > 1)
	attrCompare(t, es, m, x, res)
}

func attrReports(t *T) {
	es := t.ES()
	var syms []*X
	model := map[string]attrSet{}
	valued := false
	for i, n := 0, t.Int(1, 3); i < n; i++ {
		s := glo(fmt.Sprintf("s%d%s", t.Index, string(rune('a'+i))))
		ev(es, xE("ClearAll", s))
		syms = append(syms, s)
		model[s.S] = attrSet{}
		switch t.W(2, 1, 1) {
		case 1:
			ev(es, xE("SetDelayed", xe(s, xi(1)), xi(2)))
		case 2:
			ev(es, xE("Set", s, xi(5)))
			valued = true
		}
	}
	var hist []string
	step := func(x *X) {
		hist = append(hist, x.Src())
		ev(es, x)
	}
	changes := 0
	for i := t.Int(1, 8); i > 0; i-- {
		s := pbt.Pick(t, syms)
		names := []string{}
		for k := pbt.Of(t, 1, 0, 2, 4); k > 0; k-- {
			names = append(names, pbt.Pick(t, allAttrs))
		}
		l := xl()
		for _, n := range names {
			l.P = append(l.P, sys(n))
		}
		arg := l
		if len(names) == 1 && t.P(1, 2) {
			arg = l.P[1]
		}
		targets, target := []*X{s}, s
		if !valued && t.P(1, 5) {
			targets, target = syms, xl(syms...)
		}
		switch t.W(3, 3, 2, 1, 1, 1) {
		case 0:
			step(xE("SetAttributes", target, arg))
			for _, s := range targets {
				for _, n := range names {
					model[s.S][n] = true
				}
			}
		case 1:
			step(xE("ClearAttributes", target, arg))
			for _, s := range targets {
				for _, n := range names {
					delete(model[s.S], n)
				}
			}
		case 2:
			step(xE("Set", xE("Attributes", s), l))
			model[s.S] = attrSet{}
			for _, n := range names {
				model[s.S][n] = true
			}
		case 3:
			step(xE("Protect", s))
			model[s.S]["Protected"] = true
		case 4:
			step(xE("Unprotect", s))
			delete(model[s.S], "Protected")
		case 5:
			step(xE("Clear", s)) // definitions only
		}
		changes++
	}
	t.Case("%s", strings.Join(hist, "; "))
	t.NontrivialIf(changes > 1)
	for _, s := range syms {
		if got := ev(es, xE("Attributes", s)); !xeq(got, model[s.S].list()) {
			t.Failf("Attributes[%s] is %s, want %s", s, got, model[s.S].list())
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C08",
		Title: "Attributes govern argument evaluation and normal form as documented",
		Rule:  "at least one attribute and two arguments (two changes for reports)",
		Facets: []pbt.Facet{
			{Name: "forms", Quick: 5000, Thorough: 150000, Batch: 250, Run: attrForms},
			{Name: "rules", Quick: 4000, Thorough: 100000, Batch: 250, Run: attrRules},
			{Name: "heads", Quick: 3000, Thorough: 60000, Batch: 250, Run: attrHeads},
			{Name: "reports", Quick: 1500, Thorough: 40000, Batch: 250, Run: attrReports},
		},
	})
}
