package props

import (
	"fmt"
	"strings"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C38",
		Title: "The session history records every input and output faithfully",
		Rule:  "the inputs refer to the history at least once and contain an assignment or a throw",
		Facets: []pbt.Facet{
			{Name: "session", Quick: 2500, Thorough: 60000, Batch: 50, Run: histSession},
			{Name: "program", Quick: 64, Thorough: 1500, Batch: 4, Run: histProgram},
		},
	})
}

// history is a reference model of a session: variables that are assigned
// immediately or delayed, the inputs and outputs so far, and exceptions.
type history struct {
	t       *T
	es      ES
	names   []string
	first   int64 // number of the first line
	line    int64
	ins     []*X
	outs    []*X
	env     map[string]*X
	fuel    int
	free    string   // a variable without a value
	usable  []string // the variables that may occur
	thrown  *X
	refs    bool
	effects bool
}

func lineRef(back int64) *X {
	return xE("Out", xE("Plus", sys("$Line"), xi(-back)))
}

func (m *history) genExpr(depth int, nested bool) *X {
	t := m.t
	k := t.W(3, 3, 3, 3, 2, 2, 1, 1, 1)
	if depth <= 0 && (k == 1 || k == 2 || k > 5) {
		k = 0
	}
	past := m.line - m.first
	switch k {
	case 1:
		l := []*X{}
		for n := t.Int(0, 3); n > 0; n-- {
			l = append(l, m.genExpr(depth-1, true))
		}
		return xl(l...)
	case 2:
		return xE("Plus", m.genExpr(depth-1, true), m.genExpr(depth-1, true))
	case 3:
		return glo(pbt.Pick(t, m.usable))
	case 4, 5:
		if past == 0 {
			break
		}
		m.refs = true
		back := int64(t.Int(1, int(past)))
		if k == 5 {
			return xE("In", xi(m.line-back))
		}
		if back <= 2 && t.P(3, 4) {
			return lineRef(back)
		}
		return xE("Out", xi(m.line-back))
	case 6: // an assignment inside
		m.effects = true
		return xE("Set", glo(pbt.Pick(t, m.names)), m.genExpr(depth-1, true))
	case 7:
		m.effects = true
		return m.genThrow(depth)
	case 8:
		return sys("$Line")
	}
	return xi(int64(t.Near(20)))
}

func (m *history) genThrow(depth int) *X {
	return xE("Throw", m.genExpr(depth-1, true))
}

func (m *history) genInput() *X {
	t := m.t
	k := t.Int(0, len(m.names)-1)
	name := glo(m.names[k])
	m.usable = m.names
	switch t.W(5, 4, 2, 1, 2, 2, 1) {
	case 1:
		m.effects = true
		m.usable = append(m.names[k+1:len(m.names):len(m.names)], m.free)
		return xE("Set", name, m.genExpr(2, false))
	case 2:
		m.effects = true
		m.usable = append(m.names[k+1:len(m.names):len(m.names)], m.free)
		return xE("SetDelayed", name, m.genExpr(2, false))
	case 3:
		m.effects = true
		return xE("Clear", name)
	case 4:
		m.effects = true
		return m.genThrow(2)
	case 5: // an input that changes something each time it is evaluated
		m.effects = true
		if m.env["Global`"+m.names[k]] == nil {
			return xE("Set", name, xi(int64(t.Near(9))))
		}
		x := xE("Set", name, xE("Plus", name, xi(1)))
		switch t.W(2, 2, 1, 1) {
		case 1:
			x = xE("Evaluate", x)
		case 2:
			x = xE("CompoundExpression", x, sys("Null"))
		case 3:
			x = xl(x, xE("Throw", name))
		}
		return x
	case 6:
		switch t.W(2, 1, 1) {
		case 1:
			return xE("Sequence", m.genExpr(1, true), xi(7))
		case 2:
			return xE("Hold", m.genExpr(1, true))
		}
		return xE("CompoundExpression", m.genExpr(1, true), m.genExpr(2, true))
	}
	return m.genExpr(3, false)
}

// eval is the reference evaluator. Everything that has a value is resolved, so
// the interpreter is only asked to combine normal forms of other names.
func (m *history) eval(x *X) *X {
	m.fuel--
	if m.fuel < 0 {
		m.t.Discard()
	}
	if m.thrown != nil {
		return x
	}
	switch x.K {
	case 'y':
		if x.S == "System`$Line" {
			return xi(m.line)
		}
		if v := m.env[x.S]; v != nil && strings.HasPrefix(x.S, "Global`") {
			return m.eval(v)
		}
		return x
	case 'e':
	default:
		return x
	}
	h := strings.TrimPrefix(x.P[0].S, "System`")
	switch h {
	case "Hold":
		return x
	case "Set":
		v := m.eval(x.P[2])
		if m.thrown != nil {
			return x
		}
		if spliced(v) {
			m.t.Discard()
		}
		m.env[x.P[1].S] = v
		return m.eval(v)
	case "SetDelayed":
		m.env[x.P[1].S] = x.P[2]
		return sys("Null")
	case "Clear":
		delete(m.env, x.P[1].S)
		return sys("Null")
	case "Throw":
		args := []*X{}
		for _, a := range x.args() {
			v := m.eval(a)
			if m.thrown != nil {
				return x
			}
			if spliced(v) {
				m.t.Discard()
			}
			args = append(args, v)
		}
		m.thrown = xE("Throw", args...)
		return x
	case "CompoundExpression":
		v := sys("Null")
		for _, a := range x.args() {
			v = m.eval(a)
			if m.thrown != nil {
				return x
			}
		}
		return v
	case "In", "Out":
		k := m.eval(x.P[1])
		if k.K != 'i' {
			panic("line number")
		}
		i := k.N.Int64() - m.first
		if i < 0 || i >= int64(len(m.outs)) {
			return xE(h, k)
		}
		if h == "In" {
			return m.eval(m.ins[i])
		}
		return m.eval(m.outs[i])
	}
	args := []*X{}
	for _, a := range x.args() {
		v := m.eval(a)
		if m.thrown != nil {
			return x
		}
		if spliced(v) {
			args = append(args, v.args()...)
			continue
		}
		args = append(args, v)
	}
	r := xe(x.P[0], args...)
	if size(r) > 200 {
		m.t.Discard()
	}
	if h == "Plus" || h == "Times" || h == "Power" {
		r = m.rename(ev(m.es, m.rename(r, "hm", "hz")), "hz", "hm")
	}
	if !xeq(r, x) { // until nothing changes
		return m.eval(r)
	}
	return r
}

func (m *history) rename(x *X, from, to string) *X {
	if x.K == 'y' && strings.HasPrefix(x.S, "Global`") && strings.HasSuffix(x.S, from) {
		return &X{K: 'y', S: strings.TrimSuffix(x.S, from) + to}
	}
	if len(x.P) == 0 {
		return x
	}
	y := *x
	y.P = make([]*X, len(x.P))
	for i := range x.P {
		y.P[i] = m.rename(x.P[i], from, to)
	}
	return &y
}

// spliced holds for values whose parts replace them as an argument.
func spliced(x *X) bool { return x.head("Sequence") || x.head("Evaluate") }

// step evaluates one input in the model. An exception gives nil.
func (m *history) step(in *X) *X {
	m.thrown = nil
	m.fuel = 2000
	v := m.eval(in)
	if m.thrown != nil {
		return nil
	}
	return v
}

// held checks the report of an exception.
func (m *history) held(res *X) {
	v := m.thrown.args()[0]
	if !res.head("Hold") || !contains(res, func(y *X) bool { return xeq(y, v) }) {
		m.t.Failf("the exception %s is reported as %s", m.thrown, res)
	}
}

func newHistory(t *T, es ES, first int64, tag string) *history {
	m := &history{t: t, es: es, first: first, line: first, env: map[string]*X{}}
	for _, n := range []string{"a", "b", "c"} {
		m.names = append(m.names, n+tag+"hm")
	}
	m.free = "d" + tag + "hm"
	return m
}

func histSession(t *T) {
	es := t.ES()
	start := ev(es, sys("$Line"))
	if start.K != 'i' {
		t.Failf("$Line is %s", start)
	}
	m := newHistory(t, es, start.N.Int64(), fmt.Sprint(t.Index))
	n := t.Int(2, 9)
	log := []string{}
	for k := 0; k < n; k++ {
		in := m.genInput()
		log = append(log, fmt.Sprintf("In[%d]:= %s", m.line, in))
		t.Case("%s", strings.Join(log, "\n"))
		w := m.step(in)
		e := in.Ex()
		res := from(es.ProcessTopLevelResult(e, es.Eval(e)))
		if es.HasThrown() {
			t.Failf("the exception is still there after line %d", m.line)
		}
		if w == nil {
			m.held(res)
		} else if !xeq(res, w) {
			t.Failf("line %d gives %s instead of %s", m.line, res, w)
		}
		m.ins = append(m.ins, in)
		m.outs = append(m.outs, res)
		m.line++
		want(t, es, sys("$Line"), xi(m.line))
	}
	t.NontrivialIf(m.refs && m.effects)
	// Everything is still there.
	for i := range m.outs {
		x := xE("Out", xi(m.first+int64(i)))
		w := m.step(x)
		if got := ev(es, x); w != nil && !xeq(got, w) {
			t.Failf("%s is %s instead of %s in the end", x, got, w)
		}
	}
	for k := t.Int(1, 4); k > 0; k-- {
		i := t.Int(0, n-1)
		x := xE("In", xi(m.first+int64(i)))
		w := m.step(x)
		got := ev(es, x)
		if w == nil {
			if !contains(got, func(y *X) bool { return xeq(y, m.thrown.args()[0]) }) || !contains(got, func(y *X) bool { return y.K == 'y' && y.S == "Global`UNCAUGHT" }) {
				t.Failf("%s gives %s instead of throwing %s", x, got, m.thrown)
			}
		} else if !xeq(got, w) {
			t.Failf("%s is %s instead of %s in the end", x, got, w)
		}
	}
	for _, s := range m.names {
		w := m.step(glo(s))
		if got := ev(es, glo(s)); w != nil && !xeq(got, w) {
			t.Failf("%s is %s instead of %s in the end", s, got, w)
		}
	}
}

// histProgram feeds the inputs to the program and reads its transcript.
func histProgram(t *T) {
	es := t.ES()
	m := newHistory(t, es, 1, "p")
	n := t.Int(3, 14)
	lines := []string{}
	wants := []*X{}
	for k := 0; k < n; k++ {
		in := m.genInput()
		src := strings.ReplaceAll(in.Src(), "Out[Plus[$Line, -1]]", "%")
		src = strings.ReplaceAll(src, "Out[Plus[$Line, -2]]", "%%")
		w := m.step(in)
		out := w
		if w == nil {
			// How an exception is shown is not specified, so it is not referred to.
			out = xE("Hold", m.thrown)
		}
		lines = append(lines, src)
		wants = append(wants, w)
		m.ins = append(m.ins, in)
		m.outs = append(m.outs, out)
		m.line++
	}
	text := strings.Join(lines, "\n") + "\n"
	t.Case("%s", text)
	t.NontrivialIf(m.refs && m.effects)
	got := cli(t, text, "-rawterm")
	rest := got
	for i, w := range wants {
		mark := fmt.Sprintf("In[%d]:= ", i+1)
		k := strings.Index(rest, mark)
		if k < 0 {
			t.Failf("there is no prompt %d in\n%s", i+1, clip(got))
		}
		rest = rest[k+len(mark):]
		end := strings.Index(rest, fmt.Sprintf("In[%d]:= ", i+2))
		if end < 0 {
			t.Failf("there is no prompt %d in\n%s", i+2, clip(got))
		}
		shown := rest[:end]
		mark = fmt.Sprintf("Out[%d]= ", i+1)
		k = strings.Index(shown, mark)
		if w != nil && xeq(w, sys("Null")) {
			if k >= 0 {
				t.Failf("line %d shows a result in\n%s", i+1, clip(got))
			}
			continue
		}
		if k < 0 {
			t.Failf("line %d shows no result in\n%s", i+1, clip(got))
		}
		shown = strings.TrimSpace(shown[k+len(mark):])
		if w == nil {
			if !strings.HasPrefix(shown, "Hold[") {
				t.Failf("line %d shows %s for an exception", i+1, shown)
			}
			continue
		}
		if contains(w, func(y *X) bool { return y.head("Hold") || spliced(y) }) {
			continue
		}
		if v := ev(es, parse(es, shown)); !xeq(v, w) {
			t.Failf("line %d shows %s instead of %s in\n%s", i+1, shown, w, clip(got))
		}
	}
}
