package props

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C33",
		Title: "Saved definitions load back to the same behaviour",
		Rule:  "a definition with a compound value or a pattern is saved and its loaded form is used, or a damaged file is refused",
		Facets: []pbt.Facet{
			{Name: "values", Quick: 1200, Thorough: 60000, Batch: 100, Run: saveValues},
			{Name: "functions", Quick: 900, Thorough: 40000, Batch: 60, Run: saveFunctions},
			{Name: "encoding", Quick: 2000, Thorough: 100000, Batch: 200, Run: saveEncoding},
			{Name: "damaged", Quick: 500, Thorough: 20000, Batch: 50, Run: saveDamaged},
			{Name: "programs", Quick: 120, Thorough: 2400, Batch: 10, Run: savePrograms},
		},
	})
}

func scratch(tag string) string {
	dir, err := os.MkdirTemp("", "verif-"+tag+"-")
	if err != nil {
		panic(err)
	}
	return dir
}

// genValue draws a value of any kind, as evaluation leaves it.
func genValue(t *T, es ES) *X {
	switch t.W(4, 3, 3, 2, 2, 2) {
	case 0:
		return genEvaluated(t, es, t.Int(0, 3))
	case 1:
		return ev(es, genStored(t, es))
	case 2:
		return ev(es, genInert(t, t.Int(0, 4)))
	case 3:
		return xs(genAnyText(t))
	case 4:
		x, _ := genReal(t, 2)
		return ev(es, xl(xE("N", x), xE("N", x, xi(int64(t.Int(20, 80))))))
	}
	return xl(xI(bigPow(uint(t.Int(60, 900)), int64(t.Int(0, 5)))), xs(string(genRunes(t))), xf(genFloat(t)), xz(bigRat(int64(t.Near(9)), 7), bigRat(int64(1+t.Int(0, 5)), 3)))
}

func saveFile(t *T, es ES, path string, names []string) {
	var quoted []*X
	for _, n := range names {
		quoted = append(quoted, xs(n))
	}
	save := xE("Save", xs(path), xl(quoted...))
	if got := ev(es, save); !xeq(got, sys("Null")) {
		t.Failf("%s is %s", save, got)
	}
}

func loadFile(t *T, es ES, path string) {
	get := xE("Get", xs(path))
	if got := ev(es, get); !xeq(got, sys("Null")) {
		t.Failf("%s is %s", get, got)
	}
}

func saveValues(t *T) {
	es := pooled(2)
	dir := scratch("c33")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f.mx")
	n := t.Int(1, 4)
	var names []string
	var values []*X
	big := false
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("%sv%d$%d", pbt.Of(t, "Global`", "Global`", "ctx`", "Other`"), t.Index, i)
		v := genValue(t, es[0])
		if contains(v, func(x *X) bool { return x.head("Sequence") || x.head("Unevaluated") }) {
			t.Discard()
		}
		names = append(names, name)
		sym := &X{K: 'y', S: name}
		// The value may still have something left to evaluate: what counts is what
		// the symbol is in the first session.
		ev(es[0], xE("Set", sym, v))
		values = append(values, ev(es[0], sym))
		big = big || size(v) > 1
		if t.P(1, 3) {
			ev(es[1], xE("Set", sym, genAtom(t)))
		}
	}
	t.Case("%s", srcs(values))
	t.NontrivialIf(big)
	saveFile(t, es[0], path, names)
	loads := 1 + t.W(4, 1)
	for i := 0; i < loads; i++ {
		loadFile(t, es[1], path)
	}
	for i, name := range names {
		sym := &X{K: 'y', S: name}
		if got := ev(es[1], sym); !xeq(got, values[i]) {
			t.Failf("%s was saved with the value %s and loaded with %s", name, values[i], got)
		}
		a := fullText(values[i])
		if got := ev(es[1], xE("ToString", sym, sys("FullForm"))); got.K != 's' || ev(es[0], xE("ToString", sym, sys("FullForm"))).S != got.S {
			t.Failf("%s prints as %s after loading, its value is %s", name, got, a)
		}
	}
}

// A random history of definitions for functions in two contexts. What the saved
// functions do in the session that made them is the reference.
func saveFunctions(t *T) {
	es := pooled(2)
	dir := scratch("c33")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f.mx")
	id := t.Index
	fs := []string{fmt.Sprintf("Global`sf%d", id), fmt.Sprintf("Global`sg%d", id), fmt.Sprintf("sctx`sh%d", id)}
	f := func() string { return pbt.Pick(t, fs) }
	// Definitions of functions which no value refers to in a loop: a call of a
	// later function appears in the definition of an earlier one only.
	inner := func(i int, arg string) string {
		if i+1 < len(fs) && t.P(1, 3) {
			return fs[t.Int(i+1, len(fs)-1)] + "[" + arg + "]"
		}
		return pbt.Of(t, "{%s, u}", "%s^2 + 1", "w[%s, \"s\\\\t\"]", "Module[{q = %s}, q = {q, q}; q]", "Length[{%s, 2}]", "Map[Function[s, {s, 1}], {%s}]", "2.5 + %s", "If[NumberQ[%[1]s], %[1]s + 1, no[%[1]s]]")
	}
	define := func() string {
		i := t.Int(0, len(fs)-1)
		g := fs[i]
		body := func(arg string) string {
			b := inner(i, arg)
			if strings.Contains(b, "%") {
				b = fmt.Sprintf(b, arg)
			}
			return b
		}
		switch t.W(4, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1) {
		case 0:
			return fmt.Sprintf("%s[x_] := %s", g, body("x"))
		case 1:
			return fmt.Sprintf("%s[%d] = %s", g, t.Int(0, 4), body("k"))
		case 2:
			return fmt.Sprintf("%s[x_Integer] := %s /; x > %d", g, body("x"), t.Int(0, 4))
		case 3:
			return fmt.Sprintf("%s[x_, y_] := %s", g, body("x + y"))
		case 4:
			return fmt.Sprintf("%s[x_String] := %s", g, body("{x}"))
		case 5:
			return fmt.Sprintf("%s[x_?NumberQ, r___] := %s", g, body("{x, r}"))
		case 6:
			return fmt.Sprintf("%[1]s[x_, {y_}] := %[1]s[x, {y}] = %[2]s", g, body("{x, y}"))
		case 7:
			return fmt.Sprintf("SetAttributes[%s, %s]", g, pbt.Of(t, "HoldFirst", "HoldAll", "Listable", "Orderless", "OneIdentity"))
		case 8:
			return fmt.Sprintf("%s[%d] =.", g, t.Int(0, 4))
		case 9:
			return fmt.Sprintf("%s[x : {__}] := %s", g, body("Length[x]"))
		}
		return fmt.Sprintf("%s[a_, a_] := %s", g, body("same[a]"))
	}
	call := func() string {
		return f() + pbt.Of(t, "[2]", "[3]", "[0]", "[k]", "[5, 6]", "[6, 5]", "[\"t\"]", "[7, {8}]", "[{1, 2}]", "[1 + 1]", "[k, k]", "[2.5]", "[1/2, m, m]", "[]", "[f1[2]]", "[{1, 2}, {3, 4}]")
	}
	var hist []string
	do := func(es ES, src string) *X { return run(es, src) }
	both := func(src string) {
		a, b := do(es[0], src), do(es[1], src)
		if !xeq(a, b) {
			t.Failf("%s is %s where it was defined and %s where it was loaded\nhistory: %s", src, a, b, strings.Join(hist, "; "))
		}
	}
	// Something may be there before loading.
	for k := t.Int(0, 2); k > 0; k-- {
		src := define()
		hist = append(hist, "(loading session) "+src)
		do(es[1], src)
	}
	compound := false
	for round := t.Int(1, 2); round > 0; round-- {
		for k := t.Int(1, 6); k > 0; k-- {
			src := define()
			if t.P(1, 4) {
				src = call()
			}
			compound = compound || strings.Contains(src, "_")
			hist = append(hist, src)
			do(es[0], src)
		}
		// What was not defined cannot be saved.
		for _, g := range fs {
			do(es[0], "SetAttributes["+g+", {}]; "+g)
		}
		hist = append(hist, "Save, Get")
		saveFile(t, es[0], path, fs)
		loadFile(t, es[1], path)
		for _, g := range fs {
			both("DownValues[" + g + "]")
			both("Attributes[" + g + "]")
		}
		for k := t.Int(2, 8); k > 0; k-- {
			src := call()
			hist = append(hist, src)
			both(src)
		}
		for k := t.Int(0, 3); k > 0; k-- {
			src := define()
			hist = append(hist, "(both) "+src)
			do(es[0], src)
			do(es[1], src)
			c := call()
			hist = append(hist, c)
			both(c)
		}
		// The sessions share nothing.
		if t.P(1, 3) {
			g := fs[0]
			do(es[1], g+"[2] = onlyhere")
			hist = append(hist, "(loading session) "+g+"[2] = onlyhere")
			if got := do(es[0], "DownValues["+g+"]"); contains(got, func(x *X) bool { return x.K == 'y' && strings.HasSuffix(x.S, "`onlyhere") }) {
				t.Failf("a definition made after loading shows in the session that saved: %s", got)
			}
			do(es[1], g+"[2] =.")
			do(es[0], g+"[2] =.")
			hist = append(hist, "(both) "+g+"[2] =.")
		}
		// Built-in functions saved along with definitions keep working.
		if t.P(1, 3) {
			b := pbt.Of(t, "Plus", "Sin", "Length", "Map", "Module")
			do(es[0], fmt.Sprintf("%s[mark%d, more, {x_}] := {x, found}", b, id))
			hist = append(hist, fmt.Sprintf("%s[mark%d, more, {x_}] := {x, found}", b, id))
			saveFile(t, es[0], path, []string{"System`" + b, fs[1]})
			loadFile(t, es[1], path)
			both(fmt.Sprintf("%s[mark%d, more, {3}]", b, id))
			for _, src := range []string{"1 + k + 2", "Sin[0]", "Length[{1, 2}]", "Map[w, {1, 2}]", "Module[{q = 3}, q + 1]", "Attributes[" + b + "]"} {
				both(src)
			}
			both("Length[DownValues[" + b + "]]")
		}
	}
	t.Case("%s", strings.Join(hist, "; "))
	t.NontrivialIf(compound)
	for _, g := range fs {
		for _, s := range es {
			do(s, "ClearAll["+g+"]")
		}
	}
}

func saveEncoding(t *T) {
	es := t.ES()
	x := genValue(t, es)
	if t.P(1, 3) {
		x = genInert(t, 4)
	}
	e := x.Ex()
	if t.Bool() {
		e = es.Eval(e)
	}
	t.Case("%s", x)
	t.NontrivialIf(size(x) > 1)
	atoms.RegisterGobAtoms()
	if t.Bool() {
		e.Hash()
	}
	type box struct{ E Ex }
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode([]box{{e}, {atoms.NewString("end")}}); err != nil {
		t.Failf("encoding: %v", err)
	}
	var got []box
	if err := gob.NewDecoder(&buf).Decode(&got); err != nil {
		t.Failf("decoding: %v", err)
	}
	if len(got) != 2 || !xeq(from(got[0].E), from(e)) || !xeq(from(got[1].E), xs("end")) {
		t.Failf("%s comes back as %s", from(e), from(got[0].E))
	}
	if got[0].E.Hash() != e.Hash() || !atoms.IsSameQ(got[0].E, e) {
		t.Failf("%s and its decoded copy are not the same to the interpreter", from(e))
	}
	if a, b := evEx(es, e.DeepCopy()), evEx(es, got[0].E); !xeq(a, b) {
		t.Failf("%s evaluates to %s, its decoded copy to %s", from(e), a, b)
	}
}

// A damaged file is refused and changes nothing.
func saveDamaged(t *T) {
	es := pooled(2)
	dir := scratch("c33")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f.mx")
	name := fmt.Sprintf("Global`dm%d", t.Index)
	other := fmt.Sprintf("Global`dn%d", t.Index)
	sym := &X{K: 'y', S: name}
	v := ev(es[0], xE("Set", sym, xl(genValue(t, es[0]), xi(int64(t.Int(0, 9))))))
	if contains(v, func(x *X) bool { return x.head("Sequence") || x.head("Unevaluated") }) {
		t.Discard()
	}
	v = ev(es[0], sym)
	run(es[0], other+"[x_] := {x, 1}")
	saveFile(t, es[0], path, []string{other, name})
	data, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	old := xs("kept")
	ev(es[1], xE("Set", sym, old))
	how, p := "", path
	bad := append([]byte{}, data...)
	const header = 8
	switch t.W(3, 3, 2, 1, 1, 1) {
	case 0:
		n := t.Int(header, len(data)-1)
		how, bad = fmt.Sprintf("cut to %d bytes", n), bad[:n]
	case 1:
		n, b := t.Int(header, len(data)-1), t.Int(0, 7)
		how = fmt.Sprintf("bit %d of byte %d changed", b, n)
		bad[n] ^= 1 << b
	case 2:
		n := t.Int(header, len(data)-1)
		how = fmt.Sprintf("byte %d missing", n)
		bad = append(bad[:n], bad[n+1:]...)
	case 3:
		how, p = "no such file", filepath.Join(dir, "g.mx")
	case 4:
		how, p = "a directory", dir
	case 5:
		q := filepath.Join(dir, "none", "f.mx")
		how = "saving where there is no directory"
		save := xE("Save", xs(q), xl(xs(name)))
		if got := ev(es[0], save); !xeq(got, sys("$Failed")) {
			t.Failf("%s is %s", save, got)
		}
		p = q
	}
	t.Case("%s %s", how, v)
	t.Nontrivial()
	if err := os.WriteFile(path, bad, 0o600); err != nil {
		panic(err)
	}
	got := ev(es[1], xE("Get", xs(p)))
	now := ev(es[1], sym)
	switch {
	case xeq(got, sys("$Failed")):
		if !xeq(now, old) {
			t.Failf("a file with %s failed to load but changed the value to %s", how, now)
		}
	case xeq(got, sys("Null")) && p == path:
		// Not every bit of a compressed file means something.
		if !xeq(now, v) {
			t.Failf("a file with %s loaded as %s instead of %s", how, now, v)
		}
		t.Label("harmless")
	default:
		t.Failf("loading a file with %s is %s", how, got)
	}
	want(t, es[1], xE("Plus", xi(1), xi(1)), xi(2))
}

// One run of the program saves, another loads.
func savePrograms(t *T) {
	dir := scratch("c33")
	defer os.RemoveAll(dir)
	path := filepath.Join(dir, "f.mx")
	script := func(name string, lines []string) string {
		p := filepath.Join(dir, name)
		if err := os.WriteFile(p, []byte(strings.Join(lines, "\n")), 0o600); err != nil {
			panic(err)
		}
		return p
	}
	fillers := func(name string) (out []string) {
		for k := t.Int(0, 4); k > 0; k-- {
			out = append(out, fmt.Sprintf("%[1]s%[2]d; %[1]s%[2]d = %[2]d", name, k))
		}
		return
	}
	// The values refer to functions which only the second program has.
	values := []string{"h[2]", "{h[1], h[h[1]]}", "h[\"a\"]", "w[h[3], k]", "{1.5, h[x]}", "1/3", "\"p\\\\q\\n\"", "12345678901234567890123", "f[h[4]]", "Hold[h[2]]", "{{h[2]}, h[2]}"}
	n := t.Int(1, 4)
	first := fillers("p")
	var names, ask, exprs []string
	for i := 0; i < n; i++ {
		v := pbt.Pick(t, values)
		exprs = append(exprs, v)
		first = append(first, fmt.Sprintf("y%d = %s", i, v))
		if t.Bool() {
			first = append(first, fmt.Sprintf("y%d", i))
		}
		names = append(names, fmt.Sprintf("\"Global`y%d\"", i))
		ask = append(ask, fmt.Sprintf("y%d", i))
	}
	fn := "f[x_] := {x, k}"
	if t.Bool() {
		first = append(first, fn, "f[5]")
		names = append(names, "\"Global`f\"")
	}
	inFirst := strings.Contains(strings.Join(names, ""), "`f\"")
	first = append(first, fmt.Sprintf("Print[Save[%q, {%s}]]", path, strings.Join(names, ", ")))
	h := "h[u_] := {u, done}"
	second := []string{h}
	second = append(second, fillers("q")...)
	third := append([]string{h}, second[1:]...)
	second = append(second, fmt.Sprintf("Print[Get[%q]]", path))
	third = append(third, "Print[Null]")
	if inFirst {
		third = append(third, fn)
	}
	for i, v := range exprs {
		third = append(third, fmt.Sprintf("y%d = %s", i, v))
	}
	for _, l := range []*[]string{&second, &third} {
		for _, a := range ask {
			*l = append(*l, fmt.Sprintf("Print[FullForm[%s]]", a), fmt.Sprintf("Print[FullForm[w[%s, h[7]]]]", a))
		}
		*l = append(*l, "Print[FullForm[f[8]]]")
	}
	t.Case("%s | %s", strings.Join(first, "; "), strings.Join(second, "; "))
	t.NontrivialIf(strings.Contains(strings.Join(exprs, ""), "h["))
	if got := cli(t, "", "-script", script("1.m", first)); !strings.HasSuffix(got, "Null\n") {
		t.Failf("saving printed %q", got)
	}
	got := cli(t, "", "-script", script("2.m", second))
	ref := cli(t, "", "-script", script("3.m", third))
	if got != ref {
		t.Failf("after loading, the program printed\n%s\ninstead of\n%s", got, ref)
	}
}
