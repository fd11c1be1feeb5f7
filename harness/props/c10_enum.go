package props

import (
	"sort"

	"verif/harness/pbt"
)

// enumFacet compares everything ReplaceList and the match iterator yield with
// the reference list.
func enumFacet(t *T) {
	es := t.ES()
	p, e := genMatch(t, es, t.W(0, 2, 3, 1))
	enumCompare(t, es, p, e)
}

// inOrder says whether the order of matches is specified: no commutative head
// is involved.
func inOrder(p *X) bool {
	return !contains(p, func(x *X) bool { return x.K == 'y' && matchHeads[x.S].orderless })
}

func enumCompare(t *T, es ES, p, e *X) {
	t.Case("%s\n%s", e.Src(), p.Src())
	ref := refMatch(t, p, e)
	if len(ref) > 600 {
		t.Discard()
	}
	vars := patVars(p)
	t.NontrivialIf(len(ref) > 1 && len(vars) > 0)
	want := bindStrings(ref)
	got := allMatches(es, p, e, len(want)+50)
	ordered := inOrder(p)
	if ordered {
		t.Label("ordered")
	} else {
		t.Label("orderless")
	}
	compareLists(t, "iterating the matches of "+e.String()+" with "+p.String(), got, want, ordered)

	r := ev(es, xE("ReplaceList", xE("Unevaluated", e), xE("Rule", p, readBack(vars))))
	if !r.head("List") {
		t.Failf("ReplaceList[%s, %s] gives %s", e, p, r)
	}
	var gotL, wantL []string
	for _, x := range r.args() {
		gotL = append(gotL, x.String())
	}
	for _, b := range ref {
		wantL = append(wantL, shown(vars, b).String())
	}
	if !ordered && contains(p, func(x *X) bool { return x.head("Alternatives") }) {
		// Which alternatives coincide depends on the order the pattern's
		// arguments are looked at in.
		gotL, wantL = distinct(gotL), distinct(wantL)
	}
	compareLists(t, "ReplaceList of "+e.String()+" with "+p.String(), gotL, wantL, ordered)
	if len(ref) > 0 && ordered {
		if r := ev(es, xE("Replace", xE("Unevaluated", e), xE("RuleDelayed", p, readBack(vars)))); r.String() != wantL[0] {
			t.Failf("replacing %s by %s gives %s; the first match is %s", e, p, r, wantL[0])
		}
	}
}

func distinct(in []string) (out []string) {
	seen := map[string]bool{}
	for _, s := range in {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

func compareLists(t *T, what string, got, want []string, ordered bool) {
	if !ordered {
		got = append([]string{}, got...)
		want = append([]string{}, want...)
		sort.Strings(got)
		sort.Strings(want)
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		g, w := "nothing", "nothing"
		if i < len(got) {
			g = got[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			t.Failf("%s gives %d results, expected %d; number %d is %s, expected %s", what, len(got), len(want), i+1, g, w)
		}
	}
}

// enumForms: argument lists against sequences of forms of every kind, which is
// the distribution of components on its own.
func enumForms(t *T) {
	es := t.ES()
	run(es, matchSetup)
	h := pbt.Of(t, "f", "f", "of", "ff", "foi", "fof", "fooi")
	at := matchHeads["Global`"+h]
	e, p := xG(h), xG(h)
	n := t.Int(0, 7)
	if at.orderless {
		n = t.Int(0, 5)
	}
	distinct := t.Bool()
	for i := 0; i < n; i++ {
		if distinct {
			e.P = append(e.P, xi(int64(i+1)))
		} else {
			e.P = append(e.P, pbt.Of(t, glo("a"), glo("b"), xi(1), xi(2)))
		}
	}
	if at.flat && n < 2 {
		e = xG("f")
		p = xG("f")
		at = refAttrs{}
	}
	e = ev(es, e)
	names := []string{"x", "y", "z", "w", "v"}
	k := t.Int(0, 5)
	if at.orderless {
		k = t.Int(0, 4)
	}
	for i := 0; i < k; i++ {
		nm := names[i]
		if t.P(1, 8) && i > 0 {
			nm = names[t.N(uint64(i))]
		}
		var in *X
		hd := []*X{}
		if t.P(1, 5) {
			hd = []*X{sys(pbt.Of(t, "Integer", "Symbol"))}
		}
		switch t.W(4, 4, 4, 1, 1) {
		case 0:
			in = xE("Blank", hd...)
			if at.flat && !at.oneid {
				in = xE("Blank")
			}
		case 1:
			in = xE("BlankSequence", hd...)
		case 2:
			in = xE("BlankNullSequence", hd...)
		case 3:
			in = xE("Repeated", xE("Blank", hd...), xl(xi(int64(t.Int(0, 3)))))
		case 4:
			if h == "f" {
				p.P = append(p.P, xE("Optional", patn(nm, xE("Blank")), xi(9)))
				continue
			}
			in = xE("Repeated", xE("Blank", hd...))
		}
		p.P = append(p.P, patn(nm, in))
	}
	enumCompare(t, es, p, e)
}

// enumDefaults: sums and products with optional terms.
func enumDefaults(t *T) {
	es := t.ES()
	p, e := genDefaults(t, es)
	t.Case("%s\n%s", e.Src(), p.Src())
	ref := refMatch(t, p, e)
	if len(ref) > 300 {
		t.Discard()
	}
	t.NontrivialIf(len(ref) > 1)
	compareLists(t, "iterating the matches of "+e.String()+" with "+p.String(), allMatches(es, p, e, 400), bindStrings(ref), false)
}

// enumCounts: longer lists, where the number of splits is known.
func enumCounts(t *T) {
	es := t.ES()
	n, k := t.Int(0, 16), t.Int(1, 3)
	e, p := xG("f"), xG("f")
	for i := 0; i < n; i++ {
		e.P = append(e.P, xi(int64(i)))
	}
	mins := 0
	var vars []*X
	for i := 0; i < k; i++ {
		v := glo(string(rune('x' + i)))
		vars = append(vars, v)
		kind := "BlankNullSequence"
		if t.Bool() {
			kind = "BlankSequence"
			mins++
		}
		p.P = append(p.P, xE("Pattern", v, xE(kind)))
	}
	t.Case("%s\n%s", e.Src(), p.Src())
	t.NontrivialIf(n > 4 && k > 1)
	want := 0
	if free := n - mins; free >= 0 {
		want = map[int]int{1: 1, 2: free + 1, 3: (free + 1) * (free + 2) / 2}[k]
	}
	row := xl()
	for _, v := range vars {
		row.P = append(row.P, xl(v))
	}
	r := ev(es, xE("ReplaceList", e, xE("Rule", p, row)))
	if len(r.args()) != want {
		t.Failf("ReplaceList[%s, %s] gives %d results, expected %d", e, p, len(r.args()), want)
	}
	var last []int
	for _, x := range r.args() {
		flat := xG("f")
		var lens []int
		for _, part := range x.args() {
			flat.P = append(flat.P, part.args()...)
			lens = append(lens, len(part.args()))
		}
		if !xeq(flat, e) {
			t.Failf("ReplaceList[%s, %s] contains %s", e, p, x)
		}
		for i := range last {
			if lens[i] != last[i] {
				if lens[i] < last[i] {
					t.Failf("ReplaceList[%s, %s]: %s comes after one with lengths %v", e, p, x, last)
				}
				break
			} else if i == len(last)-1 {
				t.Failf("ReplaceList[%s, %s] repeats lengths %v", e, p, last)
			}
		}
		last = lens
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C10",
		Title: "All ways to match are enumerated, each once, in a fixed order",
		Rule:  "there is more than one way to match (counts facet: more than 4 arguments and more than one form)",
		Facets: []pbt.Facet{
			{Name: "forms", Quick: 8000, Thorough: 800000, Batch: 200, Run: enumForms},
			{Name: "patterns", Quick: 10000, Thorough: 700000, Batch: 200, Run: enumFacet},
			{Name: "defaults", Quick: 2000, Thorough: 200000, Batch: 200, Run: enumDefaults},
			{Name: "counts", Quick: 800, Thorough: 60000, Batch: 100, Run: enumCounts},
		},
	})
}
