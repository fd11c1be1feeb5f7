package props

import (
	"fmt"
	"math/big"

	"verif/harness/pbt"
)

// A small imperative language over integers: programs are generated as trees,
// written as expressions, and run by a reference interpreter with lexical scopes.

type pnode struct {
	op    string
	name  string
	n     int64
	kids  []*pnode
	names []string // variables of a scope, parameters
	texts []bool   // of a With: the value is substituted unevaluated
	pats  []*pat
}

type pat struct {
	x  *X
	ok func(n int64) bool
}

type pfunc struct {
	name   string
	params []string
	rec    bool
	body   *pnode
	free   map[string]bool
}

// kinds of name in scope
const (
	pkMutable = iota
	pkFixed   // parameters and With variables
	pkText    // With variables substituted unevaluated
	pkIter    // a variable of a Do
)

type pscope struct {
	name string
	kind int
	up   *pscope
}

func (s *pscope) find(name string) *pscope {
	for ; s != nil; s = s.up {
		if s.name == name {
			return s
		}
	}
	return nil
}

type prog struct {
	t       *T
	scoping bool // more scopes than control flow
	globals []string
	funcs   []*pfunc
	cur     *pfunc // the function whose body is being drawn
	selfs   int    // calls of it so far
	texts   int
	loops   int
	slots   int // parameters of the innermost function with slots
	budget  int
}

// where the value of a statement goes
type pctx struct {
	sc      *pscope
	ret     bool // a Return reaches a function or loop
	brk     bool // a Break reaches a loop
	typed   bool // the value has to be an integer
	retInt  bool // a Return has to give an integer
	inCatch bool
}

func (c pctx) arg() pctx               { c.ret, c.brk, c.typed = false, false, true; return c }
func (c pctx) with(s *pscope) pctx     { c.sc = s; return c }
func (p *prog) lit() *pnode            { return &pnode{op: "int", n: int64(p.t.Near(6))} }
func nd(op string, k ...*pnode) *pnode { return &pnode{op: op, kids: k} }
func (p *prog) use(name string) *pnode {
	if p.cur != nil {
		p.cur.free[name] = true
	}
	return &pnode{op: "var", name: name}
}

// readable and assignable names
func (p *prog) names(c pctx, assign bool) []string {
	var out []string
	seen := map[string]bool{}
	for s := c.sc; s != nil; s = s.up {
		if !seen[s.name] {
			seen[s.name] = true
			if !assign || s.kind == pkMutable || s.kind == pkIter {
				out = append(out, s.name)
			}
		}
	}
	for _, g := range p.globals {
		if !seen[g] {
			out = append(out, g)
		}
	}
	return append(out, "q")
}

func (p *prog) intx(c pctx, depth int) *pnode {
	t := p.t
	c = c.arg()
	if depth <= 0 || p.budget <= 0 {
		if t.P(2, 3) {
			return p.use(pbt.Pick(t, p.names(c, false)))
		}
		return p.lit()
	}
	p.budget--
	w := []int{5, 3, 3, 1, 3, 3, 2, 1, 1, 1, 1, 3, 2, 2, 1, 1, 1}
	if p.scoping {
		w = []int{5, 2, 3, 1, 2, 3, 1, 0, 0, 0, 0, 4, 6, 3, 3, 0, 1}
	}
	switch t.W(w...) {
	case 0:
		return p.use(pbt.Pick(t, p.names(c, false)))
	case 1:
		return p.lit()
	case 2:
		n := nd("Plus", p.intx(c, depth-1), p.intx(c, depth-1))
		if t.P(1, 4) {
			n.kids = append(n.kids, p.intx(c, depth-1))
		}
		return n
	case 3:
		return nd("Times", p.lit(), p.intx(c, depth-1))
	case 4:
		return nd("note", p.intx(c, depth-1))
	case 5:
		return p.assign(c, depth)
	case 6:
		return nd("If", p.boolx(c, depth-1), p.intx(c, depth-1), p.intx(c, depth-1))
	case 7:
		n := nd("Which")
		for k := t.Int(0, 2); k > 0; k-- {
			n.kids = append(n.kids, p.boolx(c, depth-1), p.intx(c, depth-1))
		}
		n.kids = append(n.kids, nd("True"), p.intx(c, depth-1))
		return n
	case 8:
		return p.switchx(c, depth, true)
	case 9:
		return nd("Catch", p.stmts(c, depth-1, true))
	case 10:
		return nd("Throw", p.intx(c, depth-1))
	case 11:
		return p.call(c, depth)
	case 12:
		return p.scope(c, depth)
	case 13:
		return p.stmts(c, depth-1, true)
	case 14:
		return p.pure(c, depth)
	case 16:
		// the sum of a function over a list
		f := p.pure1(c, depth, pbt.Of(t, 1, 1, 2))
		n := &pnode{op: "over", name: "Map"}
		if len(f.names) == 2 {
			n.name = "Fold"
			n.kids = append(n.kids, f, p.intx(c, depth-1))
		} else {
			n.kids = append(n.kids, f)
		}
		for k := t.Int(1, 3); k > 0; k-- {
			n.kids = append(n.kids, p.intx(c, depth-1))
		}
		return n
	}
	if p.slots > 0 {
		return &pnode{op: "slot", n: int64(t.Int(1, p.slots))}
	}
	return p.lit()
}

func (p *prog) assign(c pctx, depth int) *pnode {
	t := p.t
	name := pbt.Pick(t, p.names(c, true))
	p.use(name)
	switch t.W(4, 2, 1, 1, 1, 2, 1) {
	case 1:
		return &pnode{op: "Increment", name: name}
	case 2:
		return &pnode{op: "Decrement", name: name}
	case 3:
		return &pnode{op: "PreIncrement", name: name}
	case 4:
		return &pnode{op: "PreDecrement", name: name}
	case 5:
		return &pnode{op: "AddTo", name: name, kids: []*pnode{p.intx(c, depth-1)}}
	case 6:
		return &pnode{op: "SubtractFrom", name: name, kids: []*pnode{p.intx(c, depth-1)}}
	}
	return &pnode{op: "Set", name: name, kids: []*pnode{p.intx(c, depth-1)}}
}

func (p *prog) boolx(c pctx, depth int) *pnode {
	t := p.t
	c = c.arg()
	switch t.W(5, 2, 2, 1, 1, 1, 1) {
	case 1:
		return nd("Greater", p.intx(c, depth-1), p.intx(c, depth-1))
	case 2:
		return nd("Equal", p.intx(c, depth-1), p.intx(c, depth-1))
	case 3:
		return nd("EvenQ", p.intx(c, depth-1))
	case 4:
		if depth > 0 {
			return nd("And", p.boolx(c, depth-1), p.boolx(c, depth-1))
		}
	case 5:
		if depth > 0 {
			return nd("Or", p.boolx(c, depth-1), p.boolx(c, depth-1))
		}
	case 6:
		if depth > 0 {
			return nd("Not", p.boolx(c, depth-1))
		}
	}
	return nd("Less", p.intx(c, depth-1), p.intx(c, depth-1))
}

func (p *prog) switchx(c pctx, depth int, typed bool) *pnode {
	t := p.t
	n := nd("Switch", p.intx(c, depth-1))
	add := func(x *X, ok func(int64) bool) {
		n.pats = append(n.pats, &pat{x, ok})
		if typed {
			n.kids = append(n.kids, p.intx(c, depth-1))
		} else {
			n.kids = append(n.kids, p.stmt(c, depth-1))
		}
	}
	for k := t.Int(0, 2); k > 0; k-- {
		v := int64(t.Near(4))
		switch t.W(3, 1, 1) {
		case 0:
			add(xi(v), func(n int64) bool { return n == v })
		case 1:
			add(xE("Alternatives", xi(v), xi(v+1)), func(n int64) bool { return n == v || n == v+1 })
		case 2:
			add(xE("PatternTest", xE("Blank"), sys("EvenQ")), func(n int64) bool { return n%2 == 0 })
		}
	}
	add(xE("Blank"), func(int64) bool { return true })
	return n
}

// stmts is a sequence of statements; a typed one ends in an integer.
func (p *prog) stmts(c pctx, depth int, typed bool) *pnode {
	t := p.t
	n := nd("CompoundExpression")
	inner := c
	inner.typed = false
	for k := t.W(1, 3, 2, 1); k > 0; k-- {
		n.kids = append(n.kids, p.stmt(inner, depth-1))
	}
	switch {
	case typed:
		n.kids = append(n.kids, p.intx(c, depth-1))
	case t.P(1, 3) || len(n.kids) == 0:
		n.kids = append(n.kids, nd("Null"))
	}
	return n
}

func (p *prog) stmt(c pctx, depth int) *pnode {
	t := p.t
	if c.typed {
		return p.intx(c, depth)
	}
	if depth <= 0 || p.budget <= 0 {
		switch t.W(3, 2, 1, 1, 1) {
		case 1:
			return nd("note", p.intx(c, 0))
		case 2:
			if c.brk {
				return nd("Break")
			}
		case 3:
			if c.ret {
				return nd("Return", p.intx(c, 0))
			}
		case 4:
			if c.inCatch {
				return nd("Throw", p.intx(c, 0))
			}
		}
		return p.assign(c, 0)
	}
	p.budget--
	w := []int{4, 3, 4, 2, 1, 2, 2, 2, 1, 2, 2, 2, 2, 2}
	if p.scoping {
		w = []int{3, 3, 2, 1, 1, 1, 1, 2, 1, 2, 1, 1, 7, 3}
	}
	switch t.W(w...) {
	case 0:
		return p.assign(c, depth)
	case 1:
		return nd("note", p.intx(c, depth-1))
	case 2:
		n := nd("If", p.boolx(c, depth-1), p.stmt(c, depth-1))
		if t.Bool() {
			n.kids = append(n.kids, p.stmt(c, depth-1))
		}
		return n
	case 3:
		n := nd("Which")
		for k := t.Int(1, 3); k > 0; k-- {
			n.kids = append(n.kids, p.boolx(c, depth-1), p.stmt(c, depth-1))
		}
		return n
	case 4:
		return p.switchx(c, depth, false)
	case 5, 6, 7:
		return p.loop(c, depth)
	case 8:
		cc := c
		cc.inCatch = true
		return nd("Catch", p.stmts(cc, depth-1, false))
	case 9:
		if c.inCatch || t.P(1, 8) {
			return nd("If", p.boolx(c, depth-1), nd("Throw", p.intx(c, depth-1)))
		}
	case 10:
		if c.ret {
			return nd("If", p.boolx(c, depth-1), nd("Return", p.intx(c, depth-1)))
		}
	case 11:
		if c.brk {
			return nd("If", p.boolx(c, depth-1), nd("Break"))
		}
	case 12:
		return p.scope(c, depth)
	}
	return p.stmts(c, depth, false)
}

func (p *prog) loop(c pctx, depth int) *pnode {
	t := p.t
	in := c
	in.ret, in.brk, in.typed, in.retInt = true, true, false, false
	if t.P(1, 2) {
		// Do
		n := nd("Do")
		if t.P(1, 4) {
			n.kids = []*pnode{p.intx(c, 0), p.stmt(in, depth-1)}
			return n
		}
		var can []string
		if p.texts == 0 {
			for _, name := range append([]string{"i", "j"}, p.names(c, true)...) {
				if s := c.sc.find(name); s == nil || s.kind == pkMutable || s.kind == pkIter {
					can = append(can, name)
				}
			}
		}
		if len(can) == 0 || t.P(1, 3) {
			p.loops++
			can = []string{fmt.Sprintf("v%d", p.loops)}
		}
		n.name = pbt.Pick(t, can)
		p.use(n.name)
		n.kids = []*pnode{nd("int"), p.intx(c, 0), nil}
		n.kids[0].n = int64(t.Near(2))
		n.kids[2] = p.stmt(in.with(&pscope{n.name, pkIter, c.sc}), depth-1)
		return n
	}
	// a counter of its own bounds the loop
	p.loops++
	w := fmt.Sprintf("v%d", p.loops)
	count := &pnode{op: "Less", kids: []*pnode{{op: "PreIncrement", name: w}, {op: "int", n: int64(t.Int(1, 5))}}}
	start := &pnode{op: "Set", name: w, kids: []*pnode{{op: "int"}}}
	cond := count
	if t.P(1, 2) {
		cond = nd("And", count, p.boolx(c, depth-1))
	}
	if t.P(1, 2) {
		return nd("CompoundExpression", start, nd("While", cond, p.stmt(in, depth-1)))
	}
	init := start
	if t.P(1, 2) {
		init = nd("CompoundExpression", start, p.assign(c, 0))
	}
	return nd("For", init, cond, p.assign(c, 1), p.stmt(in, depth-1))
}

// scope is a Module, Block or With around a statement or an integer.
func (p *prog) scope(c pctx, depth int) *pnode {
	t := p.t
	n := nd(pbt.Of(t, "Module", "With", "Block"))
	if n.op == "Block" && p.texts > 0 {
		n.op = "Module"
	}
	pool := append([]string{}, p.globals...)
	pool = append(pool, p.names(c, false)...)
	sc := c.sc
	var undef []string
	texts := p.texts
	for k := 1 + t.W(3, 1); k > 0; k-- {
		name := pbt.Pick(t, pool)
		if s := c.sc.find(name); n.op == "Block" && s != nil && s.kind != pkMutable && s.kind != pkIter {
			continue // put in for the variable
		}
		dup := len(name) > 1 && name[0] == 'v' || name == "n" || name == "q" // counters stay as they are
		for _, o := range n.names {
			dup = dup || o == name
		}
		if dup {
			continue
		}
		n.names = append(n.names, name)
		text := false
		switch {
		case n.op == "With":
			text = t.P(1, 4)
			text = text && p.slots == 0
			if text {
				texts++
				cc := c
				cc.inCatch = false
				n.kids = append(n.kids, p.intx(cc, 1))
				sc = &pscope{name, pkText, sc}
			} else {
				n.kids = append(n.kids, p.intx(c, depth-1))
				sc = &pscope{name, pkFixed, sc}
			}
		case t.P(1, 5):
			n.kids = append(n.kids, nil)
			undef = append(undef, name)
			sc = &pscope{name, pkMutable, sc}
		default:
			n.kids = append(n.kids, p.intx(c, depth-1))
			sc = &pscope{name, pkMutable, sc}
		}
		n.texts = append(n.texts, text)
	}
	wasTexts := p.texts
	p.texts = texts
	var body *pnode
	in := c.with(sc)
	if c.typed {
		body = p.stmts(in, depth-1, true)
	} else {
		body = p.stmts(in, depth-1, t.Bool())
	}
	var first []*pnode
	for _, u := range undef {
		first = append(first, &pnode{op: "Set", name: u, kids: []*pnode{p.lit()}})
	}
	body.kids = append(first, body.kids...)
	n.kids = append(n.kids, body)
	p.texts = wasTexts
	return n
}

func (p *prog) call(c pctx, depth int) *pnode {
	t := p.t
	can := p.funcs
	if p.cur != nil && p.cur.rec && p.selfs < 2 && p.texts == 0 && c.sc.find(p.cur.params[0]).kind == pkFixed && t.P(2, 3) {
		p.selfs++
		n := &pnode{op: "call", name: p.cur.name}
		n.kids = append(n.kids, nd("Plus", nd("down"), &pnode{op: "int", n: -1}))
		for range p.cur.params[1:] {
			n.kids = append(n.kids, p.intx(c, depth-1))
		}
		return n
	}
	if len(can) == 0 {
		return p.intx(c, depth-1)
	}
	f := pbt.Pick(t, can)
	if p.cur != nil {
		for k := range f.free {
			p.cur.free[k] = true
		}
	}
	n := &pnode{op: "call", name: f.name}
	for i := range f.params {
		if i == 0 && f.rec {
			n.kids = append(n.kids, &pnode{op: "int", n: int64(t.Int(0, 3))})
			continue
		}
		n.kids = append(n.kids, p.intx(c, depth-1))
	}
	return n
}

// pure applies a pure function.
func (p *prog) pure(c pctx, depth int) *pnode {
	n := p.pure1(c, depth, 1+p.t.W(3, 1))
	for range n.names {
		n.kids = append(n.kids, p.intx(c, depth-1))
	}
	return n
}

func (p *prog) pure1(c pctx, depth, k int) *pnode {
	t := p.t
	n := nd("pure")
	sc := c.sc
	slots := p.slots
	in := c
	if t.P(1, 3) {
		n.name = "&"
		p.slots = k
		for i := 0; i < k; i++ {
			n.names = append(n.names, fmt.Sprintf("#%d", i+1))
		}
		n.kids = append(n.kids, nil)
		n.kids[0] = p.intx(in.with(sc), depth-1)
		if t.P(3, 4) {
			n.kids[0] = nd("Plus", &pnode{op: "slot", n: int64(t.Int(1, k))}, n.kids[0])
		}
		p.slots = slots
	} else {
		for len(n.names) < k {
			name := pbt.Pick(t, append([]string{"u"}, p.globals...))
			dup := false
			for _, o := range n.names {
				dup = dup || o == name
			}
			if dup {
				name = "w"
			}
			n.names = append(n.names, name)
			sc = &pscope{name, pkFixed, sc}
		}
		n.kids = append(n.kids, p.intx(in.with(sc), depth-1))
	}
	return n
}

func (p *prog) define(name string) {
	t := p.t
	f := &pfunc{name: name, free: map[string]bool{}}
	p.cur, p.selfs = f, 0
	if t.P(1, 3) {
		f.rec = true
		f.params = append(f.params, "n")
	}
	var sc *pscope
	for _, q := range p.globals {
		if t.P(2, 5) {
			f.params = append(f.params, q)
		}
	}
	for _, q := range f.params {
		sc = &pscope{q, pkFixed, sc}
	}
	c := pctx{sc: sc, ret: true, retInt: true}
	p.budget = 14
	f.body = p.stmts(c, 3, true)
	if f.rec {
		f.body = nd("If", nd("Less", nd("down"), &pnode{op: "int", n: 1}), p.lit(), f.body)
	}
	for _, q := range f.params {
		delete(f.free, q)
	}
	p.funcs = append(p.funcs, f)
	p.cur = nil
}

// ---- writing

func (p *prog) name(s string) *X {
	return glo(fmt.Sprintf("%s%dp", s, p.t.Index))
}

func (p *prog) x(n *pnode) *X {
	var k []*X
	for _, c := range n.kids {
		if c == nil {
			k = append(k, nil)
		} else {
			k = append(k, p.x(c))
		}
	}
	switch n.op {
	case "int":
		return xi(n.n)
	case "var":
		return p.name(n.name)
	case "down":
		return p.name("n")
	case "slot":
		return xE("Slot", xi(n.n))
	case "True", "Null":
		return sys(n.op)
	case "Set", "AddTo", "SubtractFrom":
		return xE(n.op, p.name(n.name), k[0])
	case "Increment", "Decrement", "PreIncrement", "PreDecrement":
		return xE(n.op, p.name(n.name))
	case "note":
		return xe(p.name("note"), k...)
	case "call":
		return xe(p.name(n.name), k...)
	case "Switch":
		x := xE("Switch", k[0])
		for i, q := range n.pats {
			x.P = append(x.P, q.x, k[i+1])
		}
		return x
	case "Do":
		if n.name == "" {
			return xE("Do", k[1], k[0])
		}
		return xE("Do", k[2], xl(p.name(n.name), k[0], k[1]))
	case "Module", "Block", "With":
		vars := xl()
		for i, v := range n.names {
			if k[i] == nil {
				vars.P = append(vars.P, p.name(v))
				continue
			}
			set := "Set"
			if n.texts[i] {
				set = "SetDelayed"
			}
			vars.P = append(vars.P, xE(set, p.name(v), k[i]))
		}
		return xE(n.op, vars, k[len(k)-1])
	case "pure":
		var f *X
		if n.name == "&" {
			f = xE("Function", k[0])
		} else if len(n.names) == 1 && len(n.kids[0].kids)%2 == 0 {
			f = xE("Function", p.name(n.names[0]), k[0])
		} else {
			vars := xl()
			for _, v := range n.names {
				vars.P = append(vars.P, p.name(v))
			}
			f = xE("Function", vars, k[0])
		}
		if len(k) == 1 {
			return f
		}
		return xe(f, k[1:]...)
	case "over":
		if n.name == "Fold" {
			return xE("Fold", k[0], k[1], xl(k[2:]...))
		}
		return xE("Apply", sys("Plus"), xE("Map", k[0], xl(k[1:]...)))
	}
	return xE(n.op, k...)
}

// ---- running

type pcell struct {
	name  string
	val   *X
	text  *pnode
	scope *pcell // of the text
	up    *pcell
}

type pctl struct{ kind, val *X }

type pinterp struct {
	p       *prog
	globals map[string]*pcell
	log     []*X
	steps   int
	seen    map[string]bool
}

var (
	pBreak  = sys("Break")
	pReturn = sys("Return")
	pThrow  = sys("Throw")
)

func (m *pinterp) cell(env *pcell, name string) *pcell {
	for ; env != nil; env = env.up {
		if env.name == name {
			return env
		}
	}
	if m.globals[name] == nil {
		m.globals[name] = &pcell{name: name}
	}
	return m.globals[name]
}

func pbool(b bool) *X {
	if b {
		return sys("True")
	}
	return sys("False")
}

func isTrue(x *X) bool { return x != nil && x.K == 'y' && x.S == "System`True" }

// run gives a value, and a signal with it when control leaves.
func (m *pinterp) run(n *pnode, env *pcell) (*X, *X) {
	if m.steps++; m.steps > 4000 {
		m.p.t.Discard()
	}
	m.seen[n.op] = true
	null := sys("Null")
	switch n.op {
	case "int":
		return xi(n.n), nil
	case "True", "Null":
		return sys(n.op), nil
	case "var", "down":
		name := n.name
		if n.op == "down" {
			name = "n"
		}
		c := m.cell(env, name)
		if c.text != nil {
			return m.run(c.text, c.scope)
		}
		if c.val == nil {
			m.p.t.Discard()
		}
		return c.val, nil
	case "slot":
		return m.cell(env, fmt.Sprintf("#%d", n.n)).val, nil
	case "Plus", "Times", "Less", "Greater", "Equal", "EvenQ", "note":
		var v []*X
		for _, k := range n.kids {
			x, sig := m.run(k, env)
			if sig != nil {
				return x, sig
			}
			if x.K != 'i' {
				m.p.t.Discard()
			}
			v = append(v, x)
		}
		switch n.op {
		case "Plus", "Times":
			r := new(big.Int).Set(v[0].N)
			for _, x := range v[1:] {
				if n.op == "Plus" {
					r.Add(r, x.N)
				} else {
					r.Mul(r, x.N)
				}
			}
			return xI(r), nil
		case "Less":
			return pbool(v[0].N.Cmp(v[1].N) < 0), nil
		case "Greater":
			return pbool(v[0].N.Cmp(v[1].N) > 0), nil
		case "Equal":
			return pbool(v[0].N.Cmp(v[1].N) == 0), nil
		case "EvenQ":
			return pbool(v[0].N.Bit(0) == 0), nil
		}
		m.log = append(m.log, v[0])
		return v[0], nil
	case "Not":
		x, sig := m.run(n.kids[0], env)
		if sig != nil {
			return x, sig
		}
		return pbool(!isTrue(x)), nil
	case "And", "Or":
		for _, k := range n.kids {
			x, sig := m.run(k, env)
			if sig != nil {
				return x, sig
			}
			if isTrue(x) != (n.op == "And") {
				return x, nil
			}
		}
		return pbool(n.op == "And"), nil
	case "Set", "AddTo", "SubtractFrom":
		x, sig := m.run(n.kids[0], env)
		if sig != nil {
			return x, sig
		}
		c := m.cell(env, n.name)
		if n.op != "Set" {
			if c.val == nil {
				m.p.t.Discard()
			}
			r := new(big.Int)
			if n.op == "AddTo" {
				r.Add(c.val.N, x.N)
			} else {
				r.Sub(c.val.N, x.N)
			}
			x = xI(r)
		}
		c.val = x
		return x, nil
	case "Increment", "Decrement", "PreIncrement", "PreDecrement":
		c := m.cell(env, n.name)
		if c.val == nil {
			m.p.t.Discard()
		}
		old := c.val
		d := int64(1)
		if n.op == "Decrement" || n.op == "PreDecrement" {
			d = -1
		}
		c.val = xI(new(big.Int).Add(old.N, bi(d)))
		if n.op[0] == 'P' {
			return c.val, nil
		}
		return old, nil
	case "CompoundExpression":
		x := null
		for _, k := range n.kids {
			var sig *X
			if x, sig = m.run(k, env); sig != nil {
				return x, sig
			}
		}
		return x, nil
	case "If":
		x, sig := m.run(n.kids[0], env)
		if sig != nil {
			return x, sig
		}
		if isTrue(x) {
			return m.run(n.kids[1], env)
		}
		if len(n.kids) > 2 {
			return m.run(n.kids[2], env)
		}
		return null, nil
	case "Which":
		for i := 0; i < len(n.kids); i += 2 {
			x, sig := m.run(n.kids[i], env)
			if sig != nil {
				return x, sig
			}
			if isTrue(x) {
				return m.run(n.kids[i+1], env)
			}
		}
		return null, nil
	case "Switch":
		x, sig := m.run(n.kids[0], env)
		if sig != nil {
			return x, sig
		}
		if !x.N.IsInt64() {
			m.p.t.Discard()
		}
		for i, q := range n.pats {
			if q.ok(x.N.Int64()) {
				return m.run(n.kids[i+1], env)
			}
		}
	case "Catch":
		x, sig := m.run(n.kids[0], env)
		if sig == pThrow {
			return x, nil
		}
		return x, sig
	case "Throw", "Return":
		x, sig := m.run(n.kids[0], env)
		if sig != nil {
			return x, sig
		}
		if n.op == "Throw" {
			return x, pThrow
		}
		return x, pReturn
	case "Break":
		return null, pBreak
	case "While", "For":
		if n.op == "For" {
			if x, sig := m.run(n.kids[0], env); sig != nil {
				return x, sig
			}
		}
		for {
			cond, body := n.kids[0], n.kids[1]
			if n.op == "For" {
				cond, body = n.kids[1], n.kids[3]
			}
			x, sig := m.run(cond, env)
			if sig != nil {
				return x, sig
			}
			if !isTrue(x) {
				return null, nil
			}
			x, sig = m.run(body, env)
			if sig == nil && n.op == "For" {
				x, sig = m.run(n.kids[2], env)
			}
			switch sig {
			case pBreak:
				return null, nil
			case pReturn:
				return x, nil
			case pThrow:
				return x, sig
			}
		}
	case "Do":
		lo := int64(1)
		last, body := n.kids[0], n.kids[1]
		if n.name != "" {
			lo, last, body = n.kids[0].n, n.kids[1], n.kids[2]
		}
		x, sig := m.run(last, env)
		if sig != nil {
			return x, sig
		}
		if x.N.Cmp(bi(lo+30)) > 0 {
			m.p.t.Discard()
		}
		var c *pcell
		if n.name != "" {
			c = m.cell(env, n.name)
			was := c.val
			defer func() { c.val = was }()
		}
		for k := lo; x.N.Cmp(bi(k)) >= 0; k++ {
			if c != nil {
				c.val = xi(k)
			}
			v, sig := m.run(body, env)
			switch sig {
			case pBreak:
				return null, nil
			case pReturn:
				return v, nil
			case pThrow:
				return v, sig
			}
		}
		return null, nil
	case "Block":
		var vals []*X
		for _, k := range n.kids[:len(n.kids)-1] {
			if k == nil {
				vals = append(vals, nil)
				continue
			}
			x, sig := m.run(k, env)
			if sig != nil {
				return x, sig
			}
			vals = append(vals, x)
		}
		for i, v := range n.names {
			c := m.cell(env, v)
			was := c.val
			defer func() { c.val = was }()
			c.val = vals[i]
		}
		return m.run(n.kids[len(n.kids)-1], env)
	case "Module", "With":
		in := env
		for i, v := range n.names {
			c := &pcell{name: v}
			if n.texts[i] {
				c.text, c.scope = n.kids[i], env
			} else if n.kids[i] != nil {
				x, sig := m.run(n.kids[i], env)
				if sig != nil {
					return x, sig
				}
				c.val = x
			}
			c.up = in
			in = c
		}
		return m.run(n.kids[len(n.kids)-1], in)
	case "pure":
		in := env
		for i, v := range n.names {
			x, sig := m.run(n.kids[i+1], env)
			if sig != nil {
				return x, sig
			}
			in = &pcell{name: v, val: x, up: in}
		}
		return m.run(n.kids[0], in)
	case "over":
		var v []*X
		for _, k := range n.kids[1:] {
			x, sig := m.run(k, env)
			if sig != nil {
				return x, sig
			}
			v = append(v, x)
		}
		f := n.kids[0]
		sum := new(big.Int)
		acc := v[0]
		for i, x := range v {
			in := env
			if n.name == "Fold" {
				if i == 0 {
					continue
				}
				in = &pcell{name: f.names[0], val: acc, up: in}
				in = &pcell{name: f.names[1], val: x, up: in}
			} else {
				in = &pcell{name: f.names[0], val: x, up: in}
			}
			var sig *X
			if acc, sig = m.run(f.kids[0], in); sig != nil {
				return acc, sig
			}
			sum.Add(sum, acc.N)
		}
		if n.name == "Fold" {
			return acc, nil
		}
		return xI(sum), nil
	case "call":
		var f *pfunc
		for _, g := range m.p.funcs {
			if g.name == n.name {
				f = g
			}
		}
		var in *pcell
		for i, v := range f.params {
			x, sig := m.run(n.kids[i], env)
			if sig != nil {
				return x, sig
			}
			in = &pcell{name: v, val: x, up: in}
		}
		x, sig := m.run(f.body, in)
		if sig == pReturn {
			sig = nil
		}
		return x, sig
	}
	panic("op " + n.op)
}

// runProg draws, runs and compares a program.
func runProg(t *T, scoping bool) {
	es := t.ES()
	p := &prog{t: t, scoping: scoping, globals: []string{"x", "y", "z"}}
	if !scoping {
		p.globals = []string{"x", "y"}
	}
	log, note := p.name("log"), p.name("note")
	v := p.name("v")
	ev(es, xE("Set", log, xl()))
	ev(es, xE("SetDelayed", xe(note, xE("Pattern", v, xE("Blank"))), xE("CompoundExpression", xE("Set", log, xE("Append", log, v)), v)))
	for k := t.Int(0, 2); k > 0; k-- {
		p.define(fmt.Sprintf("f%d", len(p.funcs)))
	}
	m := &pinterp{p: p, globals: map[string]*pcell{}, seen: map[string]bool{}}
	for _, f := range p.funcs {
		lhs := xe(p.name(f.name))
		for _, q := range f.params {
			lhs.P = append(lhs.P, xE("Pattern", p.name(q), xE("Blank")))
		}
		def := xE("SetDelayed", lhs, p.x(f.body))
		t.Logf("%s", def)
		ev(es, def)
	}
	for i, g := range p.globals {
		m.globals[g] = &pcell{name: g, val: xi(int64(10 * (i + 1)))}
		ev(es, xE("Set", p.name(g), xi(int64(10*(i+1)))))
	}
	m.globals["q"] = &pcell{name: "q", val: xi(0)}
	ev(es, xE("Set", p.name("q"), xi(0)))
	for k := 1 + t.W(3, 1, 1); k > 0; k-- {
		p.budget = 22
		var n *pnode
		c := pctx{}
		if t.P(1, 3) {
			c.inCatch = true
			n = nd("Catch", p.stmts(c, 4, t.Bool()))
		} else {
			n = p.stmts(c, 4, t.Bool())
		}
		x := p.x(n)
		t.Case("%s", x)
		t.Logf("%s", x)
		want, sig := m.run(n, nil)
		if sig == pThrow {
			want = xG("UNCAUGHT", want)
		}
		got := ev(es, x)
		if want.K == 'e' && got.K == 'e' && got.P[0].S == want.P[0].S {
			want = got // which form an uncaught exception takes is not compared
			got = want
		}
		if !xeq(got, want) {
			t.Failf("the value is %s instead of %s", got, want)
		}
		gotLog := ev(es, log)
		if !xeq(gotLog, xl(m.log...)) {
			t.Failf("it notes %s instead of %s", gotLog, xl(m.log...))
		}
		for name, c := range m.globals {
			w := c.val
			if w == nil {
				w = p.name(name)
			}
			if g := ev(es, p.name(name)); !xeq(g, w) {
				t.Failf("afterwards %s is %s instead of %s", p.name(name), g, w)
			}
		}
	}
	left := 0
	for _, op := range []string{"Throw", "Return", "Break", "call", "While", "For", "Do", "Module", "Block", "With", "pure", "Which", "Switch", "Catch"} {
		if m.seen[op] {
			t.Label(op)
			left++
		}
	}
	t.NontrivialIf(left >= 2)
}
