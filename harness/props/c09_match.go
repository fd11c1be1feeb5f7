package props

import (
	"math/big"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce/matcher"

	"verif/harness/pbt"
)

// A brute-force matcher over X: it lists every way to choose sequences and
// assignments, in the documented order for ordered heads.

type binds map[string]*X

func (b binds) with(name string, v *X) (binds, bool) {
	if old, ok := b[name]; ok {
		return b, xeq(old, v)
	}
	n := binds{name: v}
	for k, o := range b {
		n[k] = o
	}
	return n, true
}

func (b binds) String() string {
	var ks []string
	for k := range b {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, k := range ks {
		sb.WriteString(k + "=" + b[k].String() + "; ")
	}
	return "{" + sb.String() + "}"
}

type refAttrs struct {
	orderless, flat, oneid bool
	def                    *X
}

// Heads with attributes used by the generators.
var matchHeads = map[string]refAttrs{
	"Global`of":    {orderless: true},
	"Global`ff":    {flat: true},
	"Global`fof":   {orderless: true, flat: true},
	"Global`foi":   {flat: true, oneid: true},
	"Global`fooi":  {orderless: true, flat: true, oneid: true},
	"System`Plus":  {orderless: true, flat: true, oneid: true, def: xi(0)},
	"System`Times": {orderless: true, flat: true, oneid: true, def: xi(1)},
	"System`Power": {oneid: true, def: xi(1)},
}

var matchSetup = "SetAttributes[of, Orderless]; SetAttributes[ff, Flat]; SetAttributes[fof, {Flat, Orderless}]; SetAttributes[foi, {Flat, OneIdentity}]; SetAttributes[fooi, {Flat, Orderless, OneIdentity}]; SetAttributes[hold, HoldAllComplete];"

var matchTests = map[string]func(*X) bool{
	"IntegerQ": func(x *X) bool { return x.K == 'i' },
	"NumberQ":  func(x *X) bool { return x.isNum() },
	"AtomQ":    func(x *X) bool { return x.K != 'e' },
	"ListQ":    func(x *X) bool { return x.head("List") },
	"EvenQ":    func(x *X) bool { return x.K == 'i' && x.N.Bit(0) == 0 },
}

// refCond evaluates the conditions the generator writes.
func refCond(c *X) bool {
	switch {
	case c.head("SameQ"):
		return xeq(c.P[1], c.P[2])
	case c.head("UnsameQ"):
		return !xeq(c.P[1], c.P[2])
	case c.head("And"):
		return refCond(c.P[1]) && refCond(c.P[2])
	case c.head("Or"):
		return refCond(c.P[1]) || refCond(c.P[2])
	case c.K == 'e' && c.P[0].K == 'y' && len(c.P) == 2:
		return matchTests[strings.TrimPrefix(c.P[0].S, "System`")](c.P[1])
	}
	return xeq(c, sys("True"))
}

// refTest applies a test of the generators to an expression.
func refTest(test, e *X) bool {
	if test.head("Function") {
		return refCond(substSlot(test.P[1], e))
	}
	return matchTests[strings.TrimPrefix(test.S, "System`")](e)
}

func substSlot(x, v *X) *X {
	if x.head("Slot") {
		return v
	}
	if x.K != 'e' {
		return x
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, substSlot(p, v))
	}
	return n
}

func substBinds(x *X, b binds) *X {
	if x.K == 'y' {
		if v, ok := b[x.S]; ok {
			return v
		}
		return x
	}
	if x.K != 'e' {
		return x
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, substBinds(p, b))
	}
	return n
}

func headOf(e *X) *X {
	switch e.K {
	case 'i':
		return sys("Integer")
	case 'r':
		return sys("Rational")
	case 'f':
		return sys("Real")
	case 'c':
		return sys("Complex")
	case 's':
		return sys("String")
	case 'y':
		return sys("Symbol")
	}
	return e.P[0]
}

type refMatcher struct {
	budget int
}

var errBudget = "reference budget"

func (m *refMatcher) step() {
	m.budget--
	if m.budget < 0 {
		panic(errBudget)
	}
}

// match lists the bindings with which p matches e, extending b.
func (m *refMatcher) match(p, e *X, b binds) []binds {
	m.step()
	if p.K == 'e' && p.P[0].K == 'y' {
		switch p.P[0].S {
		case "System`Blank", "System`BlankSequence", "System`BlankNullSequence":
			if len(p.P) == 1 || xeq(headOf(e), p.P[1]) {
				return []binds{b}
			}
			return nil
		case "System`Pattern":
			var out []binds
			for _, n := range m.match(p.P[2], e, b) {
				if n2, ok := n.with(p.P[1].S, e); ok {
					out = append(out, n2)
				}
			}
			return out
		case "System`PatternTest":
			out := m.match(p.P[1], e, b)
			if !refTest(p.P[2], e) {
				return nil
			}
			return out
		case "System`Condition":
			var out []binds
			for _, n := range m.match(p.P[1], e, b) {
				if refCond(substBinds(p.P[2], n)) {
					out = append(out, n)
				}
			}
			return out
		case "System`Alternatives":
			var out []binds
			seen := map[string]bool{}
			for _, alt := range p.P[1:] {
				for _, n := range m.match(alt, e, b) {
					if k := n.String(); !seen[k] {
						seen[k] = true
						out = append(out, n)
					}
				}
			}
			return out
		case "System`Except":
			if len(m.match(p.P[1], e, b)) > 0 {
				return nil
			}
			if len(p.P) == 3 {
				return m.match(p.P[2], e, b)
			}
			return []binds{b}
		case "System`HoldPattern", "System`Optional":
			return m.match(p.P[1], e, b)
		}
	}
	if p.K != 'e' {
		if xeq(p, e) {
			return []binds{b}
		}
		return nil
	}
	switch e.K {
	case 'r':
		e = xE("Rational", xI(e.N), xI(e.D))
	case 'c':
		e = xE("Complex", e.P[0], e.P[1])
	}
	var at refAttrs
	if p.P[0].K == 'y' {
		at = matchHeads[p.P[0].S]
	}
	if at.def != nil && at.oneid && !(e.K == 'e' && xeq(e.P[0], p.P[0])) {
		for _, a := range p.args() {
			if a.head("Optional") {
				// x can stand for the head applied to x alone.
				e = xe(p.P[0], e)
				break
			}
		}
	}
	if e.K != 'e' {
		return nil
	}
	if p.P[0].head("Verbatim") && xeq(p.P[0].P[1], e.P[0]) {
		// Verbatim[h][...] matches without the attributes of h.
		return m.seq(e.P[0], refAttrs{oneid: matchHeads[e.P[0].S].oneid}, p.args(), e.args(), b)
	}
	if p.P[0].K == 'y' && xeq(p.P[0], e.P[0]) {
		return m.seq(p.P[0], at, p.args(), e.args(), b)
	}
	return m.seq(sys("Sequence"), refAttrs{}, p.P, e.P, b)
}

// refForm is what one argument pattern can take from an argument list.
type refForm struct {
	min, max int
	elem     *X     // pattern of every single element
	name     string // variable bound to all of them
	optional bool
	def      *X
	single   bool // a lone element is bound as itself
	wrap     bool // several are bound as a call of the flat head
}

const many = 1 << 30

func (m *refMatcher) form(p *X, head *X, at refAttrs) refForm {
	f := refForm{min: 1, max: 1}
	if p.head("Optional") {
		f.optional = true
		f.def = at.def
		if len(p.P) == 3 {
			f.def = p.P[2]
		}
		p = p.P[1]
	}
	var test *X
	if p.head("PatternTest") {
		test = p.P[2]
		p = p.P[1]
	}
	inner := p
	if p.head("Pattern") {
		inner = p.P[2]
	}
	isSeq := true
	switch {
	case inner.head("BlankSequence"):
		f.max = many
	case inner.head("BlankNullSequence"):
		f.min, f.max = 0, many
	case inner.head("Repeated"):
		f.max = many
		if len(inner.P) == 3 {
			n := int(inner.P[2].P[1].N.Int64())
			f.min, f.max = n, n
		}
		inner = inner.P[1]
	case inner.head("RepeatedNull"):
		f.min, f.max = 0, many
		inner = inner.P[1]
	case inner.head("Blank"):
		isSeq = false
		f.single = true
		if at.flat && !f.optional {
			f.max = many
			f.single = at.oneid
			f.wrap = true
			if len(inner.P) == 2 {
				if xeq(inner.P[1], head) {
					f.min = 2
					inner = xE("Blank")
				} else {
					f.max = 1
				}
			}
		}
	default:
		isSeq = false
		f.single = true
	}
	if f.optional {
		f.single = true
		if f.def != nil {
			f.min = 0
		}
		if at.flat && inner.head("Blank") {
			f.max, f.wrap = many, true
		}
	}
	if isSeq {
		f.single = true // Sequence[x] is x
	}
	if p.head("Pattern") && (isSeq || f.single || f.wrap) {
		f.name = p.P[1].S
	}
	f.elem = inner
	if inner.head("BlankSequence") || inner.head("BlankNullSequence") {
		f.elem = xE("Blank", inner.P[1:]...)
	}
	if test != nil {
		f.elem = xE("PatternTest", f.elem, test)
	}
	return f
}

func (m *refMatcher) seq(head *X, at refAttrs, ps, es []*X, b binds) []binds {
	forms := make([]refForm, len(ps))
	for i, p := range ps {
		forms[i] = m.form(p, head, at)
	}
	var out []binds
	counts := make([]int, len(forms))
	var alloc func(i, left int)
	alloc = func(i, left int) {
		m.step()
		if i == len(forms) {
			if left == 0 {
				out = append(out, m.assign(head, at, forms, counts, es, b)...)
			}
			return
		}
		f := forms[i]
		hi := f.max
		if hi > left {
			hi = left
		}
		if f.optional { // an optional argument is taken when it can be
			for n := hi; n >= f.min; n-- {
				counts[i] = n
				alloc(i+1, left-n)
			}
			return
		}
		for n := f.min; n <= hi; n++ {
			counts[i] = n
			alloc(i+1, left-n)
		}
	}
	alloc(0, len(es))
	return out
}

// assign lists the matches once the number of elements of each form is fixed.
func (m *refMatcher) assign(head *X, at refAttrs, forms []refForm, counts []int, es []*X, b binds) []binds {
	taken := make([]bool, len(es))
	var out []binds
	var rec func(i, k, last int, chosen []*X, b binds)
	rec = func(i, k, last int, chosen []*X, b binds) {
		m.step()
		if i == len(forms) {
			out = append(out, b)
			return
		}
		f := forms[i]
		if k == counts[i] {
			if f.name != "" {
				var v *X
				switch {
				case k == 1 && f.single:
					v = chosen[0]
				case k == 0 && f.optional:
					v = f.def
				case f.wrap:
					v = xe(head, chosen...)
				default:
					v = xE("Sequence", chosen...)
				}
				var ok bool
				if b, ok = b.with(f.name, v); !ok {
					return
				}
			}
			next := -1
			if !at.orderless {
				next = last
			}
			rec(i+1, 0, next, nil, b)
			return
		}
		lo, hi := last+1, len(es)
		if !at.orderless {
			hi = last + 2
		}
		for j := lo; j < hi; j++ {
			if taken[j] {
				continue
			}
			taken[j] = true
			for _, n := range m.match(f.elem, es[j], b) {
				rec(i, k+1, j, append(chosen[:len(chosen):len(chosen)], es[j]), n)
			}
			taken[j] = false
		}
	}
	rec(0, 0, -1, nil, b)
	return out
}

// refMatch runs the reference within a budget of steps.
func refMatch(t *T, p, e *X) (out []binds) {
	defer func() {
		if r := recover(); r != nil {
			if r == errBudget {
				t.Discard()
			}
			panic(r)
		}
	}()
	m := &refMatcher{budget: 60000}
	return m.match(p, e, binds{})
}

// allMatches lists what the match iterator yields.
func allMatches(es ES, p, e *X, limit int) []string {
	var out []string
	mi, cont := matcher.NewMatchIter(e.Ex(), p.Ex(), matcher.EmptyPD(), es)
	for cont {
		ok, pm, done := mi.Next()
		cont = !done
		if ok {
			out = append(out, pdString(pm))
			if len(out) > limit {
				break
			}
		}
	}
	return out
}

func pdBinds(pm *matcher.PDManager) binds {
	b := binds{}
	for _, r := range from(pm.Expression()).args() {
		b[r.P[1].S] = r.P[2]
	}
	return b
}

func pdString(pm *matcher.PDManager) string { return pdBinds(pm).String() }

func bindStrings(bs []binds) []string {
	var out []string
	for _, b := range bs {
		out = append(out, b.String())
	}
	return out
}

// patGen derives a pattern from an expression.
type patGen struct {
	t      *T
	vars   []string
	noVars bool
	plain  bool // no attributes inside
}

func (g *patGen) name() *X { return glo(pbt.Pick(g.t, g.vars)) }

func (g *patGen) bind(p *X, num, den int) *X {
	if !g.noVars && g.t.P(num, den) {
		return xE("Pattern", g.name(), p)
	}
	return p
}

func (g *patGen) blankFor(e *X, kind string) *X {
	t := g.t
	switch t.W(6, 3, 1) {
	case 1:
		return xE(kind, headOf(e))
	case 2:
		return xE(kind, pbt.Of(t, sys("Integer"), sys("Symbol"), glo("f"), sys("List"), sys("Rational")))
	}
	return xE(kind)
}

func (g *patGen) test() *X {
	t := g.t
	if t.P(1, 4) {
		return xE("Function", xE(pbt.Of(t, "UnsameQ", "SameQ"), xE("Slot", xi(1)), matchAtom(t)))
	}
	return sys(pbt.Of(t, "IntegerQ", "NumberQ", "AtomQ", "EvenQ", "ListQ"))
}

// pat is a pattern derived from e that often matches it.
func (g *patGen) pat(e *X, depth int) *X {
	t := g.t
	if depth < 0 {
		return g.bind(g.blankFor(e, "Blank"), 1, 2)
	}
	switch t.W(4, 7, 8, 3, 3, 3, 2, 1) {
	case 0:
		return e
	case 1:
		return g.bind(g.blankFor(e, "Blank"), 3, 4)
	case 2:
		return g.bind(g.compound(e, depth), 1, 6)
	case 3: // PatternTest
		return xE("PatternTest", g.pat1(e, depth-1), g.test())
	case 4: // Condition on a variable of its own
		if g.noVars {
			return xE("Blank")
		}
		v := g.name()
		p := xE("Pattern", v, g.blankFor(e, "Blank"))
		return xE("Condition", p, g.cond(v))
	case 5: // Alternatives
		alts := xE("Alternatives")
		n := t.Int(1, 3)
		at := int(t.N(uint64(n)))
		for i := 0; i < n; i++ {
			if i == at {
				alts.P = append(alts.P, g.pat(e, depth-1))
			} else {
				alts.P = append(alts.P, g.pat(matchExpr(t, 1), depth-1))
			}
		}
		return alts
	case 6: // Except
		sub := &patGen{t: t, noVars: true}
		other := matchExpr(t, 1)
		if t.P(1, 4) {
			other = e
		}
		ex := xE("Except", sub.pat(other, depth-1))
		if t.Bool() {
			ex.P = append(ex.P, g.pat(e, depth-1))
		}
		return ex
	}
	return xE("HoldPattern", g.pat(e, depth-1))
}

// pat1 is a pattern of one element that PatternTest can carry anywhere.
func (g *patGen) pat1(e *X, depth int) *X {
	if g.t.P(2, 3) {
		return g.bind(g.blankFor(e, "Blank"), 2, 3)
	}
	return g.pat(e, depth)
}

func (g *patGen) cond(v *X) *X {
	t := g.t
	switch t.W(2, 2, 1) {
	case 0:
		return xE(pbt.Of(t, "IntegerQ", "NumberQ", "AtomQ", "EvenQ"), v)
	case 1:
		return xE(pbt.Of(t, "UnsameQ", "SameQ"), v, matchAtom(t))
	}
	return xE(pbt.Of(t, "And", "Or"), g.cond(v), g.cond(v))
}

func (g *patGen) compound(e *X, depth int) *X {
	t := g.t
	switch e.K {
	case 'r':
		return xE("Rational", g.pat(xI(e.N), depth-1), g.pat(xI(e.D), depth-1))
	case 'c':
		return xE("Complex", g.pat(e.P[0], depth-1), g.pat(e.P[1], depth-1))
	}
	if e.K != 'e' {
		return g.bind(g.blankFor(e, "Blank"), 1, 2)
	}
	at := refAttrs{}
	if e.P[0].K == 'y' {
		at = matchHeads[e.P[0].S]
	}
	h := e.P[0]
	plainHead := at == refAttrs{}
	if plainHead && t.P(1, 6) {
		h = g.bind(xE("Blank"), 1, 2)
	} else if h.K == 'e' {
		h = g.pat(h, depth-1)
	}
	if h.K == 'y' && t.P(1, 10) {
		h = xE("Verbatim", h)
		at, plainHead = refAttrs{}, true
	}
	p := xe(h)
	args := e.args()
	if at.orderless && t.P(2, 3) {
		// The pattern's own arguments come in any order.
		var sh []*X
		for _, i := range t.Perm(len(args)) {
			sh = append(sh, args[i])
		}
		args = sh
	}
	seqs := 0
	for i := 0; i < len(args); {
		if seqs < 3 && t.P(1, 3) {
			run := t.Int(0, len(args)-i)
			if run > 3 {
				run = t.Int(0, run)
			}
			seqs++
			p.P = append(p.P, g.sequence(args[i:i+run], plainHead))
			i += run
			continue
		}
		if at.flat {
			p.P = append(p.P, g.flatArg(args[i], at))
			if t.P(1, 3) {
				i++ // let it swallow more
			}
			i++
			continue
		}
		if !plainHead && at.def == nil || plainHead {
			if plainHead && t.P(1, 8) {
				o := xE("Optional", xE("Pattern", g.optName(), xE("Blank")), matchAtom(t))
				if g.noVars {
					o = xE("Optional", xE("Blank"), matchAtom(t))
				}
				p.P = append(p.P, o)
				if t.Bool() {
					i++
				}
				continue
			}
		}
		p.P = append(p.P, g.pat(args[i], depth-1))
		i++
	}
	if seqs < 3 && t.P(1, 6) {
		p.P = append(p.P, g.sequence(nil, plainHead))
	}
	return p
}

func (g *patGen) optName() *X {
	if g.noVars {
		return glo("x")
	}
	return g.name()
}

// flatArg is an argument pattern of a Flat head.
func (g *patGen) flatArg(e *X, at refAttrs) *X {
	t := g.t
	switch t.W(5, 2, 1) {
	case 1:
		return e
	case 2:
		if at.oneid {
			return g.bind(xE("Blank", pbt.Of(t, headOf(e), sys("Integer"), sys("Symbol"))), 2, 3)
		}
		return xE("Blank", pbt.Of(t, headOf(e), sys("Integer"), sys("Symbol")))
	}
	return g.bind(xE("Blank"), 4, 5)
}

// sequence is a pattern for a run of arguments.
func (g *patGen) sequence(run []*X, plainHead bool) *X {
	t := g.t
	var e *X = xi(1)
	if len(run) > 0 {
		e = run[0]
	}
	w := []int{5, 4, 2, 1, 1}
	if !plainHead {
		w = []int{5, 4, 0, 0, 0}
	}
	switch t.W(w...) {
	case 0:
		p := g.bind(g.blankFor(e, "BlankNullSequence"), 3, 4)
		if t.P(1, 6) && plainHead {
			p = xE("PatternTest", p, g.test())
		}
		return p
	case 1:
		p := g.bind(g.blankFor(e, "BlankSequence"), 3, 4)
		if t.P(1, 6) && plainHead {
			p = xE("PatternTest", p, g.test())
		}
		return p
	case 2:
		return g.bind(xE("Repeated", g.pat(e, 0)), 1, 3)
	case 3:
		return g.bind(xE("RepeatedNull", g.pat(e, 0)), 1, 3)
	}
	n := len(run)
	if t.P(1, 4) {
		n = t.Int(0, 3)
	}
	return g.bind(xE("Repeated", g.pat(e, 0), xl(xi(int64(n)))), 1, 3)
}

func bigRat(n, d int64) *big.Rat { return big.NewRat(n, d) }

func matchAtom(t *T) *X {
	switch t.W(5, 5, 1, 1, 1, 1) {
	case 0:
		return xi(int64(t.N(4)))
	case 1:
		return glo(pbt.Of(t, "a", "b", "c"))
	case 2:
		return xs(pbt.Of(t, "s", ""))
	case 3:
		return xf(1.5)
	case 4:
		return xz(bigRat(1, 2), bigRat(int64(t.N(3)), 1))
	}
	return xq(bigRat(int64(t.Int(1, 3)), 2))
}

// matchExpr is a subject of a match, in evaluated form.
func matchExpr(t *T, depth int) *X {
	if depth <= 0 || t.P(1, 4) {
		return matchAtom(t)
	}
	h := pbt.Of(t, "f", "f", "List", "g", "of", "of", "ff", "fof", "foi", "fooi")
	n := t.W(1, 2, 4, 4, 2, 1)
	var x *X
	at := refAttrs{}
	if h == "List" {
		x = xl()
	} else {
		x = xG(h)
		at = matchHeads["Global`"+h]
	}
	if t.P(1, 12) && at == (refAttrs{}) {
		x = xe(xG("f", matchAtom(t)))
	}
	for i := 0; i < n; i++ {
		var a *X
		if i > 0 && t.P(1, 4) {
			a = x.P[1+int(t.N(uint64(i)))]
		} else {
			a = matchExpr(t, depth-1)
		}
		x.P = append(x.P, a)
	}
	return x
}

// genMatch draws a subject, evaluated, and a pattern for it.
func genMatch(t *T, es ES, depth int) (p, e *X) {
	run(es, matchSetup)
	e = ev(es, matchExpr(t, depth))
	g := &patGen{t: t, vars: []string{"x", "y", "z", "w"}}
	p = g.pat(e, depth)
	if t.P(2, 3) && e.K == 'e' {
		p = g.compound(e, depth)
		if t.P(1, 8) {
			p = g.bind(p, 1, 1)
		}
		if t.P(1, 8) {
			v := []*X{}
			for _, n := range g.vars {
				if contains(p, func(x *X) bool { return x.head("Pattern") && x.P[1].S == "Global`"+n }) &&
					!contains(p, func(x *X) bool { return x.head("Pattern") && x.P[1].S == "Global`"+n && !x.P[2].head("Blank") }) {
					v = append(v, glo(n))
				}
			}
			if len(v) > 0 {
				c := g.cond(pbt.Pick(t, v))
				if len(v) > 1 && t.Bool() {
					c = xE(pbt.Of(t, "SameQ", "UnsameQ"), v[0], v[1])
				}
				p = xE("Condition", p, c)
			}
		}
	}
	if t.P(1, 3) && e.K == 'e' {
		e = ev(es, mutateMatch(t, e))
	}
	return p, e
}

func mutateMatch(t *T, e *X) *X {
	n := clone(e)
	if n.K != 'e' || len(n.P) == 1 {
		return matchAtom(t)
	}
	i := 1 + int(t.N(uint64(len(n.P)-1)))
	switch t.W(3, 2, 2, 1) {
	case 0:
		n.P[i] = mutateMatch(t, n.P[i])
	case 1:
		n.P = append(n.P[:i:i], n.P[i+1:]...)
	case 2:
		n.P = append(n.P, n.P[i])
	default:
		n.P[i], n.P[1] = n.P[1], n.P[i]
	}
	return n
}

func patVars(p *X) []*X {
	var out []*X
	seen := map[string]bool{}
	var rec func(x *X)
	rec = func(x *X) {
		if x.head("Pattern") && !seen[x.P[1].S] {
			seen[x.P[1].S] = true
			out = append(out, x.P[1])
		}
		for _, c := range x.P {
			rec(c)
		}
	}
	rec(p)
	return out
}

// readBack is a right-hand side that shows what every variable was bound to.
func readBack(vars []*X) *X {
	rhs := xG("hold")
	for _, v := range vars {
		rhs.P = append(rhs.P, xG("hold", v))
	}
	return rhs
}

// shown is what readBack gives under b: sequences are spliced in, unbound
// variables stay.
func shown(vars []*X, b binds) *X {
	rhs := xG("hold")
	for _, v := range vars {
		rhs.P = append(rhs.P, xG("hold", substBinds(v, b)))
	}
	return rhs
}

func matchFacet(t *T) {
	es := t.ES()
	p, e := genMatch(t, es, t.W(0, 2, 3, 1))
	t.Case("%s\n%s", e.Src(), p.Src())
	ref := refMatch(t, p, e)
	if len(ref) > 400 {
		t.Discard()
	}
	want := map[string]bool{}
	for _, b := range ref {
		want[b.String()] = true
	}
	got := allMatches(es, p, e, 500)
	t.NontrivialIf(len(patVars(p)) > 0 && p.K == 'e' && e.K == 'e')
	if len(ref) > 0 {
		t.Label("matches")
	} else {
		t.Label("does not match")
	}
	if (len(got) > 0) != (len(ref) > 0) {
		t.Failf("matching %s with %s: found %d matches, but there are %d: %s", e, p, len(got), len(ref), firstOf(bindStrings(ref)))
	}
	for _, g := range got {
		if !want[g] {
			t.Failf("matching %s with %s binds %s, which is not a match", e, p, g)
		}
	}
	// The same through the language.
	if r := ev(es, xE("MatchQ", xE("Unevaluated", e), xE("Unevaluated", p))); !xeq(r, sys(map[bool]string{true: "True", false: "False"}[len(ref) > 0])) {
		t.Failf("MatchQ[%s, %s] gives %s although there are %d matches", e, p, r, len(ref))
	}
	vars := patVars(p)
	r := ev(es, xE("Replace", xE("Unevaluated", e), xE("RuleDelayed", p, readBack(vars))))
	if len(ref) == 0 {
		if !xeq(r, e) {
			t.Failf("%s does not match %s, but replacing gives %s", e, p, r)
		}
		return
	}
	for _, b := range ref {
		if xeq(r, shown(vars, b)) {
			return
		}
	}
	t.Failf("replacing %s by %s shows the bindings %s; the matches are %s", e, p, r, firstOf(bindStrings(ref)))
}

func firstOf(s []string) string {
	if len(s) > 6 {
		s = append(s[:6:6], "...")
	}
	return strings.Join(s, " or ")
}

// built subjects: fill a pattern with chosen values, far larger than the
// reference can search.
func matchBuilt(t *T) {
	es := t.ES()
	run(es, matchSetup)
	h := pbt.Of(t, "f", "List", "of", "f", "foi", "fooi")
	at := matchHeads["Global`"+h]
	head := glo(h)
	if h == "List" {
		head = sys(h)
	}
	vals := binds{}
	seqv := map[string][]*X{}
	p := xe(head)
	e := xe(head)
	n := t.Int(2, 5)
	if at.orderless {
		n = t.Int(2, 3)
	}
	unbounded := 0
	for i := 0; i < n; i++ {
		name := "Global`" + pbt.Of(t, "x", "y", "z", "w", "v")
		if old, ok := seqv[name]; ok {
			if len(old) > 0 && p.K == 'e' {
				// again: the same kind of pattern
				for _, q := range p.args() {
					if q.head("Pattern") && q.P[1].S == name {
						p.P = append(p.P, q)
						e.P = append(e.P, old...)
						break
					}
				}
			}
			continue
		}
		switch {
		case t.P(1, 3) && unbounded < 2:
			unbounded++
			k := int(t.N(4))
			if at.orderless {
				k = int(t.N(3))
			}
			if t.P(1, 4) && !at.orderless {
				k = t.Int(4, 12)
			}
			var vs []*X
			for j := 0; j < k; j++ {
				vs = append(vs, matchAtom(t))
			}
			kind := "BlankNullSequence"
			if k > 0 && t.Bool() {
				kind = "BlankSequence"
			}
			p.P = append(p.P, xE("Pattern", &X{K: 'y', S: name}, xE(kind)))
			e.P = append(e.P, vs...)
			seqv[name] = vs
		case t.P(1, 4):
			v := matchExpr(t, 1)
			p.P = append(p.P, v)
			e.P = append(e.P, v)
		default:
			v := ev(es, matchExpr(t, 2))
			if v.K == 'e' && xeq(v.P[0], head) && at.flat {
				v = matchAtom(t)
			}
			p.P = append(p.P, xE("Pattern", &X{K: 'y', S: name}, xE("Blank")))
			e.P = append(e.P, v)
			vals[name] = v
			seqv[name] = []*X{v}
		}
	}
	subj := ev(es, e)
	t.Case("%s\n%s", subj.Src(), p.Src())
	t.NontrivialIf(len(patVars(p)) > 0)
	var pats *X = p
	// Arguments of the pattern evaluate as those of the subject do.
	if r := ev(es, xE("MatchQ", subj, pats)); !xeq(r, sys("True")) {
		t.Failf("%s was made by filling in %s but MatchQ gives %s", subj, p, r)
	}
	// Putting the bindings back into the pattern gives the subject.
	rhs := xE("RuleDelayed", pats, xG("hold2", stripPatterns(p)))
	back := ev(es, xE("Replace", subj, rhs))
	if !xeq(back, xG("hold2", subj)) {
		t.Failf("the bindings of %s with %s put back into the pattern give %s", subj, p, back)
	}
}

// stripPatterns leaves the variables of a pattern only.
func stripPatterns(p *X) *X {
	if p.head("Pattern") {
		return p.P[1]
	}
	if p.K != 'e' {
		return p
	}
	n := &X{K: 'e'}
	for _, c := range p.P {
		n.P = append(n.P, stripPatterns(c))
	}
	return n
}

// Matching leaves the bindings it was given and all definitions alone.
func matchTrace(t *T) {
	es := t.ES()
	p, e := genMatch(t, es, t.W(0, 2, 3))
	vars := patVars(p)
	ref := refMatch(t, p, e)
	pre := matcher.EmptyPD()
	given := binds{}
	for _, v := range vars {
		if t.P(1, 3) {
			var val *X
			if len(ref) > 0 && t.P(2, 3) {
				val = pbt.Pick(t, ref)[v.S]
			}
			if val == nil {
				val = matchAtom(t)
			}
			given[v.S] = val
			pre.Define(v.S, val.Ex())
		}
	}
	t.Case("%s\n%s\ngiven %s", e.Src(), p.Src(), given)
	t.NontrivialIf(len(vars) > 0 && len(given) > 0)
	ok, pm := matcher.IsMatchQ(e.Ex(), p.Ex(), pre, es)
	if got := pdString(pre); got != given.String() {
		t.Failf("matching %s with %s changed the bindings it was given from %s to %s", e, p, given, got)
	}
	if ok {
		got := pdBinds(pm)
		for k, v := range given {
			if got[k] == nil || !xeq(got[k], v) {
				t.Failf("matching %s with %s under %s gives %s", e, p, given, got)
			}
		}
	} else if got := pdString(pm); got != given.String() {
		t.Failf("the failed match of %s with %s under %s leaves %s", e, p, given, got)
	}
	for _, v := range vars {
		if r := ev(es, v); !xeq(r, v) {
			t.Failf("after matching %s with %s, %s is %s", e, p, v, r)
		}
	}
	// A pattern variable with a global value is matched all the same.
	if len(vars) > 0 {
		v := pbt.Pick(t, vars)
		val := matchAtom(t)
		asg := func(h string, args ...*X) {
			ev(es, xE(h, args...))
		}
		asg("Set", glo("rule"), xE("RuleDelayed", p, readBack(vars)))
		before := ev(es, xE("Replace", e, glo("rule")))
		asg("Set", v, val)
		after := ev(es, xE("With", xl(xE("Set", glo("r2"), glo("rule"))), xE("Replace", e, glo("r2"))))
		still := ev(es, v)
		asg("Clear", v)
		asg("Clear", glo("rule"))
		if !xeq(still, val) {
			t.Failf("after matching with %s in which %s = %s, it is %s", p, v, val, still)
		}
		if len(ref) > 0 && !contains(p, func(x *X) bool { return x.head("Alternatives") }) && xeq(before, after) == false {
			t.Failf("replacing %s by %s gives %s, and %s when %s = %s", e, p, before, after, v, val)
		}
	}
}

// genDefaults draws a sum and a pattern with optional terms, factors and
// exponents.
func genDefaults(t *T, es ES) (p, e *X) {
	e = ev(es, genMonoSum(t))
	name := func() *X { return glo(pbt.Of(t, "p", "q", "r", "s")) }
	opt := func() *X { return xE("Optional", xE("Pattern", name(), xE("Blank"))) }
	v := func() *X {
		switch t.W(3, 2, 1) {
		case 1:
			return glo(pbt.Of(t, "x", "y"))
		case 2:
			return xE("Pattern", name(), xE("Blank", sys(pbt.Of(t, "Integer", "Symbol"))))
		}
		return xE("Pattern", name(), xE("Blank"))
	}
	pow := func() *X {
		if t.Bool() {
			return v()
		}
		if t.Bool() {
			return xE("Power", v(), opt())
		}
		return xE("Power", v(), v())
	}
	prod := func() *X {
		switch t.W(2, 3, 2, 1) {
		case 1:
			return xE("Times", opt(), pow())
		case 2:
			return xE("Times", v(), pow())
		case 3:
			return xE("Times", opt(), pow(), pow())
		}
		return pow()
	}
	switch t.W(2, 3, 2, 1) {
	case 0:
		p = prod()
	case 1:
		p = xE("Plus", opt(), prod())
	case 2:
		p = xE("Plus", prod(), prod())
	default:
		p = xE("Plus", opt(), prod(), prod())
	}
	return p, e
}

// Optional arguments of sums, products and powers.
func matchDefaults(t *T) {
	es := t.ES()
	p, e := genDefaults(t, es)
	t.Case("%s\n%s", e.Src(), p.Src())
	ref := refMatch(t, p, e)
	if len(ref) > 300 {
		t.Discard()
	}
	t.NontrivialIf(contains(p, func(x *X) bool { return x.head("Optional") }))
	want := map[string]bool{}
	for _, b := range ref {
		want[b.String()] = true
	}
	got := allMatches(es, p, e, 500)
	if (len(got) > 0) != (len(ref) > 0) {
		t.Failf("matching %s with %s: found %d matches, but there are %d: %s", e, p, len(got), len(ref), firstOf(bindStrings(ref)))
	}
	for _, g := range got {
		if !want[g] {
			t.Failf("matching %s with %s binds %s, which is not a match", e, p, g)
		}
	}
}

func genMonoSum(t *T) *X {
	sym := func() *X { return glo(pbt.Of(t, "x", "y", "a", "b")) }
	pow := func() *X {
		if t.Bool() {
			return sym()
		}
		return xE("Power", sym(), pbt.Of(t, xi(2), xi(3), xi(-1), glo("n"), xq(bigRat(1, 2))))
	}
	term := func() *X {
		m := xE("Times")
		for i := t.Int(1, 2); i > 0; i-- {
			m.P = append(m.P, pow())
		}
		if t.P(1, 3) {
			m.P = append(m.P, xi(int64(t.Int(2, 4))))
		}
		return m
	}
	s := xE("Plus")
	for i := t.Int(1, 3); i > 0; i-- {
		s.P = append(s.P, term())
	}
	if t.P(1, 4) {
		s.P = append(s.P, xi(int64(t.Int(1, 3))))
	}
	return s
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C09",
		Title: "Pattern matching accepts exactly the expressions a pattern describes",
		Rule:  "the pattern has variables and is compound (default facet: has optional arguments)",
		Facets: []pbt.Facet{
			{Name: "match", Quick: 9000, Thorough: 900000, Batch: 200, Run: matchFacet},
			{Name: "built", Quick: 2500, Thorough: 250000, Batch: 200, Run: matchBuilt},
			{Name: "trace", Quick: 2500, Thorough: 200000, Batch: 200, Run: matchTrace},
			{Name: "defaults", Quick: 3000, Thorough: 300000, Batch: 200, Run: matchDefaults},
		},
	})
}
