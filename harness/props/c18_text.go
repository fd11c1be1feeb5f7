package props

import (
	"bytes"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/expreduce/parser"
	"github.com/corywalker/expreduce/pkg/expreduceapi"

	"verif/harness/pbt"
)

var textOps = strings.Fields("+ - * / ^ . ; , ;; = := ^= ^:= /: =. -> :> /. //. /; // //@ /@ @ @@ @@@ @* /* ~ ~~ <> == != === =!= < <= > >= && || ! !! ' & | : :: ? ?? ++ -- += -= *= /= ** << >> >>> .. ... [ ] [[ ]] { } ( ) % %% %3 \\ \\@ \\% \\^ \\_ \\+ \\& \\` ` (* *)")

var textAtoms = strings.Fields("a x f Plus List Global`a System`x `b c` a`b`c` $x $ContextPath 1 0 -1 42 123456789012345678901234567890 1.5 .5 1. 2^^101 16^^ff 2^^9 1*^5 1.5*^3 1.5`10 1``5 1.5` 1.5``3 1_2 # #1 #0 ## ##2 #a #99999999999999999999 _ __ ___ _. x_ x__ x___ x_. _h x_h x__h x_h_ x_._ ____ x_____ _Integer x_`h \"s\" \"\" \"a\\\"b\" \"a\\nb\" \"(*\" \"\\q\" \" (*c*) (*(*d*)*) (* (**) *)")

var textRunes = []string{"\n", "\r\n", "\t", " ", "\x00", "\x7f", "\x80", "\xff", "\xc3", "é", "π", "ⅈ", "ⅉ", "ℝ", "∞", "∑", "ω", "×", "÷", "∈", "¬", "≠", "√", "\u00a0", "\ufeff", "\U0001F600", "\uf431", "\uf3c7", "\ufffd", "\u0080", "中", "٣"}

var textNamed = strings.Fields("\\[Omega] \\[Alpha] \\[Pi] \\[Element] \\[Sqrt] \\[Equal] \\[And] \\[Function] \\[Nope] \\[ \\[Alpha \\[] \\[RawDoubleQuote] \\[RawLeftBracket] \\[RawWedge] \\[Transpose] \\[Sum] \\[Integrate] \\[DifferentialD] \\[Del] \\[ImaginaryI] \\[LongEqual] \\101 \\.41 \\:03b1 \\:d800 \\:ffff \\.ff \\377 \\400 \\: \\.")

// Texts in the syntax of the language, to be damaged.
var textWhole = []string{
	"f[x_, y_:2] := x^2 + y /; x > 0",
	"Table[{i, j}, {i, 1, 3}, {j, i}]",
	"Module[{a = 1, b}, b = a + 1; If[b > 1, Return[b]]; While[a < 3, a++]; {a, b}]",
	"(#1 + #2 &)[1, 2] /. {a -> b, x_Integer :> x + 1}",
	"expr //. {Sin[x_]^2 + Cos[x_]^2 -> 1} // Simplify",
	"lst[[2, 1]] + lst[[1]][[2]] - Part[lst, All]",
	"\"a string with \\\"quotes\\\" and (* no comment *)\" <> \"b\"",
	"(* a comment (* nested *) with \"quotes *) 1 + 2 * 3 / 4 ^ 5",
	"a && b || !c && d == e != f < g <= h",
	"f @ g /@ h @@ {1, 2, 3} @@@ {{4}}",
	"BeginPackage[\"foo`\"];\nbar::usage = \"bar does things\";\nEndPackage[]",
	"D[f[x], x] + f'[x] + f''[x] + x!",
	"{1, 2.5, 3/4, 1 + 2 I, -5, -2.5 + x, \"s\", {}}",
	"x = 3;\ny = 4;\nx*y\n",
	"a /: f[a] = 5",
	"MatchQ[{1, x, y}, {_Integer, __Symbol, ___}] ? a | b : c",
	"x[1][2][[3]]++ - --y + z-- - ++w",
	"1;;3;;2",
	"Solve[a x^2 + b x + c == 0, x]",
}

const textChars = "()[]{}\"*`_#%!&@~\\^'?.;:,=<>|/+-01ax \n"

func textPiece(t *T) string {
	switch t.W(6, 6, 2, 1) {
	case 0:
		return pbt.Pick(t, textAtoms)
	case 1:
		return pbt.Pick(t, textOps)
	case 2:
		return pbt.Pick(t, textRunes)
	}
	return pbt.Pick(t, textNamed)
}

// genAnyText draws a text: pieces of the syntax in any order, a valid text
// with a few changes, or bytes.
func genAnyText(t *T) string {
	switch t.W(4, 7, 1) {
	case 0:
		var b strings.Builder
		spaced := t.Bool()
		for n := t.Int(0, 12); n > 0; n-- {
			b.WriteString(textPiece(t))
			if spaced {
				b.WriteString(" ")
			}
		}
		return b.String()
	case 1:
		s := pbt.Pick(t, textWhole)
		if t.P(1, 4) {
			s += pbt.Of(t, " ", "\n", ";", ", ", "+") + pbt.Pick(t, textWhole)
		}
		for n := t.Int(0, 3); n > 0; n-- {
			i := t.Int(0, len(s))
			j := min(len(s), i+t.Int(0, 6))
			switch t.Int(0, 4) {
			case 0: // take out
				s = s[:i] + s[j:]
			case 1:
				s = s[:i] + textPiece(t) + s[i:]
			case 2:
				s = s[:i] + textPiece(t) + s[j:]
			case 3: // cut off
				s = s[:i]
			case 4: // repeat
				s = s[:j] + s[i:]
			}
		}
		return s
	}
	b := make([]byte, t.Int(0, 30))
	for i := range b {
		if t.Bool() {
			b[i] = byte(t.Int(0, 255))
		} else {
			b[i] = textChars[t.Int(0, len(textChars)-1)]
		}
	}
	return string(b)
}

// stillReads checks that the session reads and evaluates what it should.
func stillReads(t *T, es ES) {
	got := run(es, "{1+1, vf[\"s\", vx_] // Hold, $Context, $ContextPath}")
	want := xl(xi(2), xE("Hold", xG("vf", xs("s"), xE("Pattern", glo("vx"), xE("Blank")))), xs("Global`"), xl(xs("System`"), xs("Global`")))
	if got.head("List") && len(got.P) == 5 && got.P[4].head("List") {
		path := got.P[4].args()
		sysAt, gloAt := false, false
		for _, p := range path {
			sysAt = sysAt || xeq(p, xs("System`"))
			gloAt = gloAt || xeq(p, xs("Global`"))
		}
		if sysAt && gloAt {
			got, want = xl(got.P[1:4]...), xl(want.P[1:4]...)
		}
	}
	if !xeq(got, want) {
		t.Failf("after it the session evaluates to %s\ninstead of %s", got, want)
	}
}

// held prints an expression in every form.
func printAll(es ES, e Ex) int {
	n := 0
	for _, form := range []string{"InputForm", "OutputForm", "FullForm", "TeXForm"} {
		n += len(e.StringForm(expreduceapi.ToStringParams{
			Form: form, Context: atoms.NewString("Global`"), ContextPath: atoms.E(atoms.S("List"), atoms.NewString("System`"), atoms.NewString("Global`")), Esi: es,
		}))
	}
	return n
}

func c18Text(t *T) {
	es := t.ES()
	s := genAnyText(t)
	t.Case("%q", s)
	e := parser.Interp(s, es)
	if e == nil {
		t.Failf("reading gives nothing")
	}
	x := from(e)
	if x.K == 'e' {
		t.Nontrivial()
	}
	printAll(es, e)
	stillReads(t, es)
}

// c18Script reads a text one statement after another until it ends.
func c18Script(t *T) {
	es := t.ES()
	var s string
	for n := t.Int(1, 4); n > 0; n-- {
		s += genAnyText(t) + pbt.Of(t, "\n", "\n\n", ";\n", " ", "")
	}
	t.Case("%q", s)
	buf := bytes.NewBufferString(parser.ReplaceSyms(s))
	read := 0
	for {
		e, err := parser.InterpBuf(buf, "file", es)
		if err != nil {
			break
		}
		printAll(es, e)
		if read++; read > len(s) {
			t.Failf("more statements than characters")
		}
	}
	t.NontrivialIf(read > 1)
	stillReads(t, es)
}

func c18Large(t *T) {
	es := t.ES()
	n := t.Int(1, 40)
	for k := t.Int(0, 3); k > 0; k-- {
		n *= t.Int(1, 12)
	}
	unit := pbt.Of(t, "(", "[", "{", "f[", "a+", "a ", "-", "!", "a,", "a;", "\n", "a\n", "(*", "\"", "x", "1", "`", "_", "a`", "f@", "a&", "'", "{a,", "a^", "a=", "#", "%", ".5", "a[[", "\\[Alpha]", "a->", "a==", "a<")
	s := strings.Repeat(unit, n) + pbt.Of(t, "", "a", "1")
	if t.Bool() {
		s += strings.Repeat(map[string]string{"(": ")", "[": "]", "{": "}", "f[": "]", "(*": "*)", "\"": "\"", "{a,": "}", "a[[": "]]"}[unit], n)
	}
	t.Case("%d times %q: %.60q, %d bytes", n, unit, s, len(s))
	t.NontrivialIf(n > 100)
	e := parser.Interp(s, es)
	if n < 2000 {
		printAll(es, e)
	}
	stillReads(t, es)
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C18", Title: "Reading arbitrary text never crashes or hangs the process",
		Rule: "text: the text is read as a compound expression; script: two or more statements are read; large: more than 100 repetitions",
		Facets: []pbt.Facet{
			{Name: "text", Quick: 40000, Thorough: 3000000, Batch: 500, Run: c18Text},
			{Name: "script", Quick: 10000, Thorough: 800000, Batch: 300, Run: c18Script},
			{Name: "large", Quick: 1500, Thorough: 60000, Batch: 50, Run: c18Large},
		},
	})
}
