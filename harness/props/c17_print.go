package props

import (
	"math/big"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"
	"github.com/corywalker/expreduce/pkg/expreduceapi"

	"verif/harness/pbt"
)

// printed gives the text of an expression as a session shows it.
func printed(es ES, e Ex, form string) string {
	return e.StringForm(expreduceapi.ToStringParams{
		Form: form, Context: atoms.NewString("Global`"), PreviousHead: "<TOPLEVEL>",
		ContextPath: atoms.E(atoms.S("List"), atoms.NewString("System`"), atoms.NewString("Global`")), Esi: es,
	})
}

// sameValue is the normal form in which an expression and the reading of its
// text are compared: sums and products are flat, sorted, and have one number
// each; all other structure stays.
func sameValue(x *X) *X {
	switch x.K {
	case 'c':
		return sameValue(xE("Plus", x.P[0], xE("Times", x.P[1], sys("I"))))
	case 'e':
	default:
		return x
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, sameValue(p))
	}
	switch {
	case (n.head("Rational") || n.head("Complex")) && len(n.P) == 3 && n.P[1].isExact() && n.P[2].isExact():
		if n.head("Complex") {
			return sameValue(xE("Plus", n.P[1], xE("Times", n.P[2], sys("I"))))
		}
		if n.P[2].rat().Sign() != 0 {
			return xq(new(big.Rat).Quo(n.P[1].rat(), n.P[2].rat()))
		}
	case n.head("Sqrt") && len(n.P) == 2:
		return sameValue(xE("Power", n.P[1], xq(big.NewRat(1, 2))))
	case n.head("Power") && len(n.P) == 3 && isMinusOne(n.P[2]) && n.P[1].head("Power") && len(n.P[1].P) == 3 && xeq(n.P[1].P[2], xq(big.NewRat(1, 2))):
		return xE("Power", n.P[1].P[1], xq(big.NewRat(-1, 2)))
	case n.head("Power") && len(n.P) == 3 && isMinusOne(n.P[2]) && n.P[1].head("Times") && len(n.P[1].P) >= 3:
		inv := xE("Times")
		for _, f := range n.P[1].args() {
			inv.P = append(inv.P, xE("Power", f, xi(-1)))
		}
		return sameValue(inv)
	case n.head("Power") && len(n.P) == 3 && isMinusOne(n.P[2]) && (n.P[1].K == 'i' || n.P[1].K == 'r') && n.P[1].rat().Sign() != 0:
		return xq(new(big.Rat).Inv(n.P[1].rat()))
	case n.head("Times") && len(n.P) >= 3:
		return collect(n, "Times", big.NewRat(1, 1), (*big.Rat).Mul)
	case n.head("Plus") && len(n.P) >= 3:
		return collect(n, "Plus", new(big.Rat), (*big.Rat).Add)
	}
	return n
}

func (x *X) isExact() bool { return x.K == 'i' || x.K == 'r' }

func isMinusOne(x *X) bool { return x.K == 'i' && x.N.IsInt64() && x.N.Int64() == -1 }

func collect(n *X, head string, unit *big.Rat, op func(z, a, b *big.Rat) *big.Rat) *X {
	num := new(big.Rat).Set(unit)
	var rest []*X
	var add func(*X)
	add = func(f *X) {
		switch {
		case f.head(head) && len(f.P) >= 3:
			for _, q := range f.args() {
				add(q)
			}
		case f.K == 'i' || f.K == 'r':
			op(num, num, f.rat())
		default:
			rest = append(rest, f)
		}
	}
	add(n)
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].String() < rest[j].String() })
	if head == "Times" && num.Sign() == 0 {
		return xi(0)
	}
	if len(rest) == 0 || num.Cmp(unit) != 0 {
		rest = append([]*X{xq(num)}, rest...)
	}
	if len(rest) == 1 {
		return rest[0]
	}
	return xE(head, rest...)
}

// genPrinted draws an expression of operators and calls.
func genPrinted(t *T, depth int) *X {
	g := &syntaxGen{t: t}
	x := g.gen(depth).x
	var walk func(x *X) *X
	walk = func(x *X) *X {
		switch {
		case x.K == 'i' || x.K == 'f':
			switch t.W(5, 2, 2, 2) {
			case 0:
				if x.K == 'f' {
					return xi(4)
				}
				return x
			case 1:
				return xi(int64(t.Int(1, 12)) * -1)
			case 2:
				return xq(big.NewRat(int64(t.Int(-7, 7)), int64(t.Int(2, 9))))
			}
			return xz(big.NewRat(int64(t.Int(-2, 2)), int64(t.Int(1, 2))), big.NewRat(int64(t.Int(-3, 3)), int64(t.Int(1, 3))))
		case x.K == 's':
			return xs(genLiteral(t))
		case x.K == 'y' && t.P(1, 12):
			return glo(pbt.Of(t, "x1", "longName", "$s", "Listable2", "α"))
		case x.K != 'e':
			return x
		case x.head("Slot") || x.head("Blank") || x.head("BlankSequence") || x.head("BlankNullSequence") || x.head("Out"):
			return x
		case x.head("Derivative"):
			return x
		case x.head("Power") && t.P(1, 3):
			return xE("Power", walk(x.P[1]), pbt.Of(t, xi(-1), xi(2), xq(big.NewRat(1, 2)), xq(big.NewRat(-1, 2)), xi(-2), xE("Times", xi(-1), glo("a"))))
		}
		n := &X{K: 'e'}
		for _, p := range x.P {
			n.P = append(n.P, walk(p))
		}
		return n
	}
	return walk(x)
}

// genLiteral draws the contents of a string.
func genLiteral(t *T) string {
	s := ""
	for n := t.Int(0, 4); n > 0; n-- {
		s += pbt.Of(t, "a", "b c", "\"", "\\", "\n", "\t", "-", "*)", "(*", "[", "}", ";", "%", "é", "n", "\\n", "#1", "\r", ".", ":", "012", "[x]")
	}
	return s
}

// signedSum tells whether x is a number times a sum, which its printed form
// does not keep: the sign is multiplied into the sum when it is read.
func signedSum(x *X) bool {
	if !x.head("Times") || len(x.P) < 3 || !x.P[1].isExact() || x.P[1].rat().Sign() > 0 {
		return false
	}
	for _, p := range x.P[2:] {
		if p.head("Plus") {
			return true
		}
	}
	return false
}

// displayHeads are the heads that are shown as what they contain, or that do
// not stay as they are when they are evaluated.
var displayHeads = map[string]bool{
	"HoldForm": true, "InputForm": true, "OutputForm": true, "FullForm": true, "TeXForm": true, "TraditionalForm": true,
	"StandardForm": true, "Infix": true, "Definition": true, "Sequence": true, "Throw": true, "UNCAUGHT": true,
	"Infinity": true, "ComplexInfinity": true, "DirectedInfinity": true, "Indeterminate": true,
}

// c17Value prints values: what is read back evaluates to the value again.
func c17Value(t *T) {
	es := t.ES()
	var v *X
	switch t.W(4, 2, 3) {
	case 0:
		v = ev(es, genAlgExact(t, t.Int(1, 4)))
	case 1:
		v = ev(es, genInert(t, t.Int(0, 3)))
	default:
		v = ev(es, genCall(t, es, 1))
	}
	if contains(v, func(q *X) bool {
		return q.K == 'f' || q.K == 'y' && displayHeads[strings.TrimPrefix(q.S, "System`")] || q.head("Power") && len(q.P) > 3 || signedSum(q)
	}) {
		t.Discard()
	}
	if impure(v) || !xeq(ev(es, v), v) {
		t.Discard()
	}
	t.Case("%s", v)
	want := sameValue(v)
	t.NontrivialIf(size(v) > 4)
	for _, form := range []string{"InputForm", "FullForm"} {
		s := printed(es, v.Ex(), form)
		if got := ev(es, parse(es, s)); !xeq(sameValue(got), want) {
			t.Failf("%s: %s\nreads and evaluates to %s", form, s, got)
		}
	}
}

func c17Held(t *T) {
	es := t.ES()
	x := xE("Hold", genPrinted(t, t.Int(1, 4)))
	t.Case("%s", x)
	t.NontrivialIf(size(x) > 8)
	want := sameValue(x)
	if contains(want, func(q *X) bool { return xeq(q, xE("Power", xi(0), xi(-1))) }) {
		t.Discard()
	}
	for _, form := range []string{"InputForm", "FullForm"} {
		s := printed(es, x.Ex(), form)
		if got := sameValue(parse(es, s)); !xeq(got, want) {
			t.Failf("%s: %s\nreads as %s\nexpected %s", form, s, got, want)
		}
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C17", Title: "Printed expressions read back as the same expression",
		Rule: "held: more than 8 parts; value: more than 4 parts",
		Facets: []pbt.Facet{
			{Name: "held", Quick: 40000, Thorough: 3000000, Batch: 1000, Run: c17Held},
			{Name: "value", Quick: 20000, Thorough: 1000000, Batch: 500, Run: c17Value},
		},
	})
}
