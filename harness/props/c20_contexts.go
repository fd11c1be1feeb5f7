package props

import (
	"fmt"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/atoms"

	"verif/harness/pbt"
)

// names is a model of the contexts of a session.
type names struct {
	context string
	path    []string
	begun   []string
	pkgs    []struct {
		name, context string
		path          []string
	}
	exists map[string]bool
	value  map[string]int64
}

func (m *names) resolve(name string) string {
	if strings.HasPrefix(name, "`") {
		return m.context + name[1:]
	}
	if strings.Contains(name, "`") {
		return name
	}
	for _, c := range append([]string{m.context}, m.path...) {
		if m.exists[c+name] {
			return c + name
		}
	}
	return m.context + name
}

// short gives the printed form of an existing symbol.
func (m *names) short(full string) string {
	name := full[strings.LastIndex(full, "`")+1:]
	if m.resolve(name) == full {
		return name
	}
	return full
}

func c20History(t *T) {
	es := t.ES()
	id := t.Index
	ctx := func(s string) string {
		if s == "Global" || s == "System" {
			return s + "`"
		}
		return fmt.Sprintf("Ctx%d%s`", id, s)
	}
	contexts := []string{ctx("A"), ctx("B"), ctx("A") + "P`", ctx("C"), "Global`"}
	bare := []string{fmt.Sprintf("xx%d", id), fmt.Sprintf("yy%d", id), fmt.Sprintf("zz%d", id)}
	m := &names{context: "Global`", path: []string{"System`", "Global`"}, exists: map[string]bool{}, value: map[string]int64{}}
	reset := func() {
		es.Define(atoms.NewSymbol("System`$Context"), atoms.NewString("Global`"))
		es.Define(atoms.NewSymbol("System`$ContextPath"), atoms.E(atoms.S("List"), atoms.NewString("System`"), atoms.NewString("Global`")))
	}
	start := from(es.Eval(atoms.NewSymbol("System`$ContextPath")))
	if !xeq(start, xl(xs("System`"), xs("Global`"))) {
		t.Failf("the session starts with the path %s", start)
	}
	defer func() {
		for range m.begun {
			run(es, "System`End[]")
		}
		for range m.pkgs {
			run(es, "System`EndPackage[]")
		}
		reset()
	}()
	var text strings.Builder
	switches := 0
	do := func(src string, want *X) {
		fmt.Fprintf(&text, "%s\n", src)
		t.Case("%s", text.String())
		if got := run(es, src); !xeq(got, want) {
			t.Failf("%s gives %s\nexpected %s", src, got, want)
		}
	}
	str := func(l []string) *X {
		var x []*X
		for _, s := range l {
			x = append(x, xs(s))
		}
		return xl(x...)
	}
	for n := t.Int(1, 18); n > 0; n-- {
		name := pbt.Pick(t, bare)
		switch t.W(4, 3, 3, 1) {
		case 1:
			name = pbt.Pick(t, contexts) + name
		case 2:
			switches++
			switch t.W(3, 3, 2, 2, 1, 1) {
			case 0:
				c := pbt.Pick(t, contexts)
				new := c
				if t.P(1, 3) {
					c = "`P`"
					new = m.context + "P`"
				}
				m.begun = append(m.begun, m.context)
				m.context = new
				do(fmt.Sprintf("Begin[%q]", c), xs(new))
			case 1:
				was := m.context
				if k := len(m.begun); k > 0 {
					m.context, m.begun = m.begun[k-1], m.begun[:k-1]
				}
				do("End[]", xs(was))
			case 2:
				c := pbt.Pick(t, contexts)
				m.pkgs = append(m.pkgs, struct {
					name, context string
					path          []string
				}{c, m.context, m.path})
				m.context, m.path = c, []string{c, "System`"}
				do(fmt.Sprintf("BeginPackage[%q]", c), sys("Null"))
			case 3:
				if k := len(m.pkgs); k > 0 {
					p := m.pkgs[k-1]
					m.pkgs = m.pkgs[:k-1]
					m.context, m.path = p.context, append([]string{p.name}, p.path...)
				}
				do("EndPackage[]", sys("Null"))
			case 4:
				m.context = pbt.Pick(t, contexts)
				do(fmt.Sprintf("$Context = %q", m.context), xs(m.context))
			case 5:
				m.path = []string{"System`"}
				for _, i := range t.Perm(len(contexts)) {
					if t.Bool() {
						m.path = append(m.path, contexts[i])
					}
				}
				if t.Bool() {
					m.path = append(m.path[1:], "System`")
				}
				do("$ContextPath = "+str(m.path).Src(), str(m.path))
			}
			do("{$Context, $ContextPath}", xl(xs(m.context), str(m.path)))
			continue
		case 3:
			name = "`" + name
		}
		full := m.resolve(name)
		t.Finding("deep-name", strings.Count(full, "`") > 2)
		switch t.W(3, 3, 2) {
		case 0:
			v := int64(t.Int(1, 99))
			m.value[full] = v
			do(fmt.Sprintf("%s = %d", name, v), xi(v))
			m.exists[full] = true
		case 1:
			m.exists[full] = true
			want := &X{K: 'y', S: full}
			if v, has := m.value[full]; has {
				want = xi(v)
			}
			do(name, want)
			if got := parse(es, name); got.K != 'y' || got.S != full {
				t.Failf("%s stands for %s\nexpected %s", name, got.S, full)
			}
		case 2:
			for f := range m.exists {
				sym := atoms.NewSymbol(f)
				got := sym.StringForm(expreduce.ActualStringFormArgsFull("InputForm", es))
				if want := m.short(f); got != want {
					t.Failf("in %s with %v the symbol %s is shown as %s\nexpected %s", m.context, m.path, f, got, want)
				}
				if back := parse(es, got); back.K != 'y' || back.S != f {
					t.Failf("in %s with %v the symbol %s is shown as %s, which stands for %s", m.context, m.path, f, got, back.S)
				}
			}
		}
	}
	for f, v := range m.value {
		if got := run(es, f); !xeq(got, xi(v)) {
			t.Failf("%s is %s\nexpected %d", f, got, v)
		}
	}
	t.NontrivialIf(switches >= 2 && len(m.exists) >= 2)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C20", Title: "Symbols resolve to the right context and keep their identity",
		Rule: "history: two or more changes of context and two or more symbols",
		Known: map[string]func(t *T){
			"deep-name": func(t *T) {
				if got := parse(t.ES(), "a`b`c`d"); got.S != "a`b`c`d" {
					t.Failf("a`b`c`d is read as %s", got)
				}
			},
		},
		Facets: []pbt.Facet{
			{Name: "history", Quick: 8000, Thorough: 400000, Batch: 200, Run: c20History},
		},
	})
}
