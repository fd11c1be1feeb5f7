package props

import (
	"math/big"
	"sort"
	"strings"

	"verif/harness/pbt"
)

// Kinds of tokens, which decide where white space is needed.
const (
	tkWord  = iota // symbol
	tkNum          // number
	tkStr          // string
	tkPat          // pattern or slot
	tkOpen         // ( [ { [[
	tkClose        // ) ] } ]]
	tkOp           // infix or prefix operator: something follows
	tkPost         // postfix operator
	tkComma
	tkTimes // multiplication without an operator
)

type tok struct {
	kind int
	s    string
}

// A term is an expression with its text.
type term struct {
	x    *X
	toks []tok
	prec int
	// tail is the lowest precedence of a prefix operator at the right end, head
	// that of a postfix operator at the left end: an operator that binds more
	// tightly there takes away a part of the term.
	tail, head int
}

// Precedences as documented for the Wolfram Language.
const (
	pAtom   = 200
	pTest   = 105
	pCall   = 100
	pInc    = 98
	pPreInc = 97
	pAt     = 95
	pMap    = 90
	pFact   = 85
	pPrime  = 84
	pJoin   = 80
	pPower  = 75
	pDot    = 70
	pMinus  = 65
	pDivide = 60
	pTimes  = 58
	pPlus   = 55
	pSpan   = 50
	pLess   = 45
	pSame   = 42
	pElem   = 41
	pNot    = 38
	pAnd    = 35
	pOr     = 33
	pAlt    = 28
	pColon  = 26
	pCond   = 22
	pRule   = 20
	pRepl   = 18
	pAddTo  = 16
	pFun    = 14
	pPost   = 10
	pSet    = 8
	pComp   = 5
)

var noEdge = 1000

func (a *term) parens() *term {
	toks := append([]tok{{tkOpen, "("}}, a.toks...)
	return &term{a.x, append(toks, tok{tkClose, ")"}), pAtom, noEdge, noEdge}
}

type syntaxGen struct {
	t *T
}

func (g *syntaxGen) atom() *term {
	t := g.t
	one := func(kind int, s string, x *X) *term { return &term{x, []tok{{kind, s}}, pAtom, noEdge, noEdge} }
	switch t.W(8, 5, 1, 1, 1, 2, 1) {
	case 0:
		n := pbt.Of(t, "a", "b", "c", "x", "y", "f", "g", "h1", "$v", "Plus", "Sin", "αβ", "List")
		if n == "Plus" || n == "Sin" || n == "List" {
			return one(tkWord, n, sys(n))
		}
		return one(tkWord, n, glo(n))
	case 1:
		n := pbt.Of(t, "1", "2", "0", "3", "10", "25", "123456789012345678901234567890", "007")
		v, _ := new(big.Int).SetString(n, 10)
		return one(tkNum, n, xI(v))
	case 2:
		n := pbt.Of(t, "1.5", "0.25", "2.", ".5", "10.75")
		v, _, _ := big.ParseFloat(n, 10, 64, big.ToNearestEven)
		f, _ := v.Float64()
		return one(tkNum, n, xf(f))
	case 3:
		s := pbt.Of(t, "s", "", "a b", "(* no comment *)", "x+y", "#&", "{", "é", "a\\\"b", "a\\\\b", "l\\nm", "t\\tu")
		v := strings.NewReplacer(`\"`, `"`, `\\`, `\`, `\n`, "\n", `\t`, "\t").Replace(s)
		return one(tkStr, `"`+s+`"`, xs(v))
	case 4:
		switch t.Int(0, 3) {
		case 0:
			return one(tkWord, "ctx`a", &X{K: 'y', S: "ctx`a"})
		case 1:
			return one(tkWord, "Global`b", glo("b"))
		case 2:
			return one(tkWord, "System`Times", sys("Times"))
		}
		return one(tkWord, "d`e`f", &X{K: 'y', S: "d`e`f"})
	case 5:
		n := pbt.Of(t, "", "1", "2", "17")
		k := int64(1)
		if n != "" {
			v, _ := new(big.Int).SetString(n, 10)
			k = v.Int64()
		}
		return one(tkPat, "#"+n, xE("Slot", xi(k)))
	}
	if t.P(1, 8) {
		return one(tkStr, "%", xE("Out", xE("Plus", sys("$Line"), xi(-1))))
	}
	// a blank
	kind := t.Int(0, 2)
	blank := xE([]string{"Blank", "BlankSequence", "BlankNullSequence"}[kind])
	s := strings.Repeat("_", kind+1)
	opt := false
	if t.Bool() {
		h := pbt.Of(t, "h", "Integer")
		s += h
		if h == "h" {
			blank.P = append(blank.P, glo(h))
		} else {
			blank.P = append(blank.P, sys(h))
		}
	} else if kind == 0 && t.P(1, 4) {
		opt = true
	}
	x := blank
	if t.P(2, 3) {
		x = xE("Pattern", glo("x"), blank)
		s = "x" + s
	}
	if opt {
		x = xE("Optional", x)
		s += "."
	}
	return one(tkPat, s, x)
}

// operand draws an operand of an operator: min is the lowest precedence that
// needs no parentheses, prec that of the operator; left and right tell at
// which sides of the operand the operator stands.
func (g *syntaxGen) operand(a *term, prec, min int, left, right bool) *term {
	t := g.t
	prefix := a.prec == pMinus || a.prec == pNot || a.prec == pPreInc
	switch {
	case t.P(1, 12):
		return a.parens()
	case right && a.tail < prec || left && a.head < prec:
		return a.parens()
	case a.prec >= min:
		return a
	case prefix && left && !right && t.P(3, 4):
		// An operator before a prefix operator does not reach its operand.
		b := *a
		b.tail = minOf(b.tail, a.prec)
		return &b
	case a.prec == pFun && right && !left && !hasColon(a) && t.P(3, 4):
		b := *a
		b.head = minOf(b.head, a.prec)
		return &b
	}
	return a.parens()
}

// hasColon: the grammar takes a colon as less tight than &, and the parser
// corrects that only where nothing follows.
func hasColon(a *term) bool {
	for _, k := range a.toks {
		if k.kind == tkOp && k.s == ":" {
			return true
		}
	}
	return false
}

func minOf(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// infix joins operands; those of flat operators are passed at once.
func infix(x *X, prec int, op func(i int) tok, parts []*term) *term {
	r := &term{x: x, prec: prec, head: parts[0].head, tail: parts[len(parts)-1].tail}
	for i, p := range parts {
		if i > 0 {
			r.toks = append(r.toks, op(i))
		}
		r.toks = append(r.toks, p.toks...)
	}
	return r
}

func (g *syntaxGen) prefix(s string, prec int, depth int, x func(*X) *X) *term {
	a := g.gen(depth)
	if a.prec < prec {
		a = a.parens()
	} else {
		a = g.operand(a, prec, prec, true, false)
	}
	return &term{x: x(a.x), toks: append([]tok{{tkOp, s}}, a.toks...), prec: prec, tail: minOf(a.tail, prec), head: noEdge}
}

func (g *syntaxGen) postfix(s string, prec int, depth int, x func(*X) *X) *term {
	a := g.operand(g.gen(depth), prec, prec, false, true)
	toks := append(append([]tok(nil), a.toks...), tok{tkPost, s})
	return &term{x: x(a.x), toks: toks, prec: prec, tail: noEdge, head: a.head}
}

func (g *syntaxGen) flat(head, op string, prec, min, depth int) *term {
	n := 2
	if g.t.P(1, 3) {
		n += g.t.Int(0, 2)
	}
	x := xE(head)
	var parts []*term
	for i := 0; i < n; i++ {
		a := g.operand(g.gen(depth), prec, min, i > 0, i < n-1)
		if op == ";;" && a.toks[0].s == "!" {
			a = a.parens() // "a;;!" may be a factorial
		}
		parts = append(parts, a)
		x.P = append(x.P, a.x)
	}
	return infix(x, prec, func(int) tok { return tok{tkOp, op} }, parts)
}

// binary draws a call of an operator with two operands; assoc is 'l' or 'r' or
// 0 if neither operand may be the operator itself.
func (g *syntaxGen) binary(head, op string, prec int, assoc byte, depth int) *term {
	lmin, rmin := prec+1, prec+1
	if assoc == 'l' {
		lmin = prec
	} else if assoc == 'r' {
		rmin = prec
	}
	a := g.operand(g.gen(depth), prec, lmin, false, true)
	b := g.operand(g.gen(depth), prec, rmin, true, false)
	return infix(xE(head, a.x, b.x), prec, func(int) tok { return tok{tkOp, op} }, []*term{a, b})
}

func (g *syntaxGen) list(n, depth int) (toks []tok, xsl []*X) {
	for i := 0; i < n; i++ {
		a := g.gen(depth)
		if i > 0 {
			toks = append(toks, tok{tkComma, ","})
		}
		toks = append(toks, a.toks...)
		xsl = append(xsl, a.x)
	}
	return
}

func neg(x *X) *X {
	switch x.K {
	case 'i':
		return xI(new(big.Int).Neg(x.N))
	case 'f':
		return &X{K: 'f', F: new(big.Float).Neg(x.F)}
	}
	return xE("Times", xi(-1), x)
}

func (g *syntaxGen) gen(depth int) *term {
	t := g.t
	if depth <= 0 || t.P(1, 6) {
		return g.atom()
	}
	depth--
	switch t.W(8, 6, 6, 3, 4, 4, 4, 3, 3, 3, 3, 2, 2, 3, 3, 2, 3, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1) {
	case 0: // + and -
		n := 2
		if t.P(1, 3) {
			n += t.Int(0, 2)
		}
		x := xE("Plus")
		var parts []*term
		ops := make([]string, n)
		for i := 0; i < n; i++ {
			min := pPlus + 1
			a := g.operand(g.gen(depth), pPlus, min, i > 0, i < n-1)
			parts = append(parts, a)
			ops[i] = "+"
			if i > 0 && t.P(1, 3) {
				ops[i] = "-"
				x.P = append(x.P, neg(a.x))
			} else {
				x.P = append(x.P, a.x)
			}
		}
		return infix(x, pPlus, func(i int) tok { return tok{tkOp, ops[i]} }, parts)
	case 1: // *
		return g.flat("Times", "*", pTimes, pTimes+1, depth)
	case 2: // multiplication without a sign
		n := 2 + t.Int(0, 1)
		x := xE("Times")
		var parts []*term
		for i := 0; i < n; i++ {
			a := g.operand(g.gen(depth), pTimes, pTimes+1, i > 0, i < n-1)
			if k := a.toks[0].kind; i > 0 && (k == tkOp || a.toks[0].s == "%") {
				a = a.parens()
			}
			if k := a.toks[len(a.toks)-1].kind; i < n-1 && k == tkPost {
				a = a.parens()
			}
			// A number is not followed by a number or a slot by a number.
			if i > 0 && a.toks[0].kind == tkNum {
				a = a.parens()
			}
			parts = append(parts, a)
			x.P = append(x.P, a.x)
		}
		return infix(x, pTimes, func(int) tok { return tok{kind: tkTimes} }, parts)
	case 3: // /
		a := g.operand(g.gen(depth), pDivide, pDivide, false, true)
		b := g.operand(g.gen(depth), pDivide, pDivide+1, true, false)
		return infix(xE("Times", a.x, xE("Power", b.x, xi(-1))), pDivide, func(int) tok { return tok{tkOp, "/"} }, []*term{a, b})
	case 4:
		return g.binary("Power", "^", pPower, 'r', depth)
	case 5: // minus sign
		return g.prefix("-", pMinus, depth, neg)
	case 6: // call
		h := g.operand(g.gen(depth), pCall, pCall, false, true)
		if h.prec == pTest {
			h = h.parens()
		}
		toks, args := g.list(t.Int(0, 3), depth)
		toks = append(append(append([]tok(nil), h.toks...), tok{tkOpen, "["}), toks...)
		return &term{xe(h.x, args...), append(toks, tok{tkClose, "]"}), pCall, noEdge, h.head}
	case 7: // part
		h := g.operand(g.gen(depth), pCall, pCall, false, true)
		if h.prec == pTest {
			h = h.parens()
		}
		toks, args := g.list(t.Int(1, 2), depth)
		toks = append(append(append([]tok(nil), h.toks...), tok{tkOpen, "[["}), toks...)
		return &term{xE("Part", append([]*X{h.x}, args...)...), append(toks, tok{tkClose, "]]"}), pCall, noEdge, h.head}
	case 8:
		toks, args := g.list(t.Int(0, 3), depth)
		toks = append([]tok{{tkOpen, "{"}}, toks...)
		return &term{xl(args...), append(toks, tok{tkClose, "}"}), pAtom, noEdge, noEdge}
	case 9: // comparisons
		ops := []string{"==", "!=", "<", "<=", ">", ">="}
		heads := []string{"Equal", "Unequal", "Less", "LessEqual", "Greater", "GreaterEqual"}
		n := 2
		if t.P(1, 2) {
			n += t.Int(0, 2)
		}
		same := t.Bool()
		var parts []*term
		var used []int
		for i := 0; i < n; i++ {
			parts = append(parts, g.operand(g.gen(depth), pLess, pLess+1, i > 0, i < n-1))
			used = append(used, t.Int(0, 5))
			if same {
				used[i] = used[0]
			}
		}
		x := xE("Inequality", parts[0].x)
		plain := xE(heads[used[1]], parts[0].x)
		mixed := false
		for i := 1; i < n; i++ {
			x.P = append(x.P, sys(heads[used[i]]), parts[i].x)
			plain.P = append(plain.P, parts[i].x)
			mixed = mixed || used[i] != used[1]
		}
		if !mixed {
			x = plain
		}
		return infix(x, pLess, func(i int) tok { return tok{tkOp, ops[used[i]]} }, parts)
	case 10:
		return g.flat("And", "&&", pAnd, pAnd+1, depth)
	case 11:
		return g.flat("Or", "||", pOr, pOr+1, depth)
	case 12:
		return g.prefix("!", pNot, depth, func(x *X) *X { return xE("Not", x) })
	case 13:
		h := pbt.Of(t, "Rule", "RuleDelayed")
		return g.binary(h, map[string]string{"Rule": "->", "RuleDelayed": ":>"}[h], pRule, 'r', depth)
	case 14:
		h := pbt.Of(t, "ReplaceAll", "ReplaceRepeated")
		return g.binary(h, map[string]string{"ReplaceAll": "/.", "ReplaceRepeated": "//."}[h], pRepl, 'l', depth)
	case 15:
		return g.binary("Condition", "/;", pCond, 'l', depth)
	case 16: // = :=
		h := pbt.Of(t, "Set", "SetDelayed")
		r := g.binary(h, map[string]string{"Set": "=", "SetDelayed": ":="}[h], pSet, 'r', depth)
		if t.P(1, 8) {
			r.x = xE(map[string]string{"Set": "TagSet", "SetDelayed": "TagSetDelayed"}[h], glo("a"), r.x.P[1], r.x.P[2])
			r.toks = append([]tok{{tkWord, "a"}, {tkOp, "/:"}}, r.toks...)
			r.head = noEdge
		}
		return r
	case 17: // @ /@ @@ @@@
		switch t.Int(0, 3) {
		case 0:
			a := g.operand(g.gen(depth), pAt, pAt+1, false, true)
			b := g.operand(g.gen(depth), pAt, pAt, true, false)
			return infix(xe(a.x, b.x), pAt, func(int) tok { return tok{tkOp, "@"} }, []*term{a, b})
		case 1:
			return g.binary("Map", "/@", pMap, 'r', depth)
		case 2:
			return g.binary("Apply", "@@", pMap, 'r', depth)
		}
		r := g.binary("Apply", "@@@", pMap, 'r', depth)
		r.x.P = append(r.x.P, xl(xi(1)))
		return r
	case 18: // //
		a := g.operand(g.gen(depth), pPost, pPost, false, true)
		b := g.operand(g.gen(depth), pPost, pPost+1, true, false)
		return infix(xe(b.x, a.x), pPost, func(int) tok { return tok{tkOp, "//"} }, []*term{a, b})
	case 19:
		return g.postfix("&", pFun, depth, func(x *X) *X { return xE("Function", x) })
	case 20:
		if t.Bool() {
			r := g.postfix("!", pFact, depth, func(x *X) *X { return xE("Factorial", x) })
			if n := len(r.toks); r.toks[n-2].s == "!" { // "a! !" is a double factorial
				r.toks = append(append([]tok{{tkOpen, "("}}, r.toks[:n-1]...), tok{tkClose, ")"}, r.toks[n-1])
				r.head = noEdge
			}
			return r
		}
		a := g.gen(depth)
		if a.prec == pPrime {
			a = a.parens()
		}
		a = g.operand(a, pPrime, pPrime+1, false, true)
		return &term{xe(xE("Derivative", xi(1)), a.x), append(append([]tok(nil), a.toks...), tok{tkPost, "'"}), pPrime, noEdge, a.head}
	case 21: // ++ --
		op := pbt.Of(t, "++", "--")
		if t.Bool() {
			a := g.gen(depth)
			if a.prec == pInc || a.prec == pPreInc {
				a = a.parens()
			}
			a = g.operand(a, pInc, pInc, false, true)
			h := map[string]string{"++": "Increment", "--": "Decrement"}[op]
			return &term{xE(h, a.x), append(append([]tok(nil), a.toks...), tok{tkPost, op}), pInc, noEdge, a.head}
		}
		a := g.gen(depth)
		if a.prec == pInc || a.prec == pPreInc {
			a = a.parens()
		}
		a = g.operand(a, pInc, pInc, true, false)
		h := map[string]string{"++": "PreIncrement", "--": "PreDecrement"}[op]
		return &term{xE(h, a.x), append([]tok{{tkOp, op}}, a.toks...), pPreInc, minOf(a.tail, pPreInc), noEdge}
	case 22:
		h := pbt.Of(t, "AddTo", "SubtractFrom")
		return g.binary(h, map[string]string{"AddTo": "+=", "SubtractFrom": "-="}[h], pAddTo, 'r', depth)
	case 23: // ;
		r := g.flat("CompoundExpression", ";", pComp, pComp+1, depth)
		if t.P(1, 3) && r.tail > pComp {
			r.x.P = append(r.x.P, sys("Null"))
			r.toks = append(r.toks, tok{tkPost, ";"})
			r.tail = noEdge
		}
		return r
	case 24:
		switch t.Int(0, 3) {
		case 0:
			return g.flat("SameQ", "===", pSame, pLess+1, depth)
		case 1:
			return g.flat("UnsameQ", "=!=", pSame, pLess+1, depth)
		case 2:
			return g.binaryMin("Element", "∈", pElem, pLess+1, depth)
		}
		return g.flat("Span", ";;", pSpan, pSpan+1, depth)
	case 25:
		if t.Bool() {
			return g.flat("StringJoin", "<>", pJoin, pJoin+1, depth)
		}
		return g.flat("Dot", ".", pDot, pDot+1, depth)
	case 26:
		if t.Bool() {
			return g.flat("Alternatives", "|", pAlt, pAlt+1, depth)
		}
		a := g.operand(g.gen(depth), pTest, pTest, false, true)
		b := g.operand(g.gen(depth), pTest, pTest+1, true, false)
		return infix(xE("PatternTest", a.x, b.x), pTest, func(int) tok { return tok{tkOp, "?"} }, []*term{a, b})
	}
	// : for names of patterns and for default values
	b := g.operand(g.gen(depth), pColon, pColon+1, true, false)
	if t.Bool() {
		a := &term{glo("a"), []tok{{tkWord, "a"}}, pAtom, noEdge, noEdge}
		return infix(xE("Pattern", a.x, b.x), pColon, func(int) tok { return tok{tkOp, ":"} }, []*term{a, b})
	}
	a := &term{xE("Pattern", glo("y"), xE("Blank")), []tok{{tkPat, "y_"}}, pAtom, noEdge, noEdge}
	return infix(xE("Optional", a.x, b.x), pColon, func(int) tok { return tok{tkOp, ":"} }, []*term{a, b})
}

func (g *syntaxGen) binaryMin(head, op string, prec, min, depth int) *term {
	a := g.operand(g.gen(depth), prec, min, false, true)
	b := g.operand(g.gen(depth), prec, min, true, false)
	return infix(xE(head, a.x, b.x), prec, func(int) tok { return tok{tkOp, op} }, []*term{a, b})
}

// glues tells whether two tokens can stand next to each other.
func glues(a, b tok) bool {
	switch {
	case a.kind == tkTimes || b.kind == tkTimes:
		return false
	case a.kind == tkComma || b.kind == tkComma:
		return true
	case a.kind == tkStr || b.kind == tkStr:
		return true
	case a.kind == tkOpen:
		return b.kind != tkOp || b.s == "-"
	case b.kind == tkClose:
		return true
	case b.kind == tkOpen:
		// no comment, and no operator made of two
		return a.kind != tkPost
	case a.kind == tkOp && (b.kind == tkWord):
		return true
	case a.kind == tkOp && b.kind == tkNum:
		return b.s[0] != '.' && a.s != "."
	case a.kind == tkOp && b.kind == tkPat:
		return a.s != "." && b.s[0] != '.'
	case b.kind == tkOp || b.kind == tkPost:
		switch a.kind {
		case tkWord, tkClose:
			return b.s != "." || a.kind == tkClose
		case tkNum:
			return !strings.HasSuffix(a.s, ".") && b.s[0] != '.'
		case tkPat:
			return b.s[0] != '.'
		}
	}
	return false
}

// layout writes tokens with white space, comments and line breaks.
func (g *syntaxGen) layout(toks []tok) string {
	t := g.t
	var b strings.Builder
	style := t.W(3, 2, 2) // plain, dense, wild
	depth := 0
	for i, k := range toks {
		if i > 0 {
			p := toks[i-1]
			if !(p.kind == tkTimes) {
				open := depth > 0 || p.kind == tkOp && p.s[0] != ';' // a; and a;; are complete
				glue := glues(p, k)
				mult := k.kind == tkTimes
				sep := " "
				switch style {
				case 0:
					if glue && !(p.kind == tkOp || k.kind == tkOp) {
						sep = ""
					}
				case 1:
					if glue {
						sep = ""
					}
				case 2:
					sep = pbt.Of(t, "", " ", "  ", "\t", " (* c *) ", "(* a (* nested *) + *)", "\n", " \n  ", "\n\n", "(* two\nlines *)")
					if strings.Contains(sep, "\n") && (!open || mult) || sep == "" && !glue {
						sep = " "
					}
				}
				b.WriteString(sep)
			}
		}
		b.WriteString(k.s)
		switch k.kind {
		case tkOpen:
			depth++
		case tkClose:
			depth--
		}
	}
	return b.String()
}

// sameSyntax is the normal form in which expressions are compared: factors of
// products are put in one sequence, integers in it multiplied.
func sameSyntax(x *X) *X {
	if x.K != 'e' {
		return x
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, sameSyntax(p))
	}
	if !n.head("Times") || len(n.P) < 3 {
		return n
	}
	sign := bi(1)
	var rest []*X
	var add func(*X)
	add = func(f *X) {
		switch {
		case f.head("Times") && len(f.P) >= 3:
			for _, q := range f.args() {
				add(q)
			}
		case f.K == 'i':
			sign.Mul(sign, f.N)
		case f.K == 'f' && f.F.Sign() < 0:
			sign.Neg(sign)
			rest = append(rest, &X{K: 'f', F: new(big.Float).Neg(f.F)})
		default:
			rest = append(rest, f)
		}
	}
	add(n)
	sort.SliceStable(rest, func(i, j int) bool { return rest[i].String() < rest[j].String() })
	if len(rest) == 0 {
		return xI(sign)
	}
	if len(rest) == 1 && rest[0].K == 'f' && sign.Cmp(bi(-1)) == 0 {
		return neg(rest[0])
	}
	if sign.Cmp(bi(1)) != 0 {
		rest = append([]*X{xI(sign)}, rest...)
	}
	if len(rest) == 1 {
		return rest[0]
	}
	return xE("Times", rest...)
}

// fullText writes an expression without operators.
func fullText(x *X) string {
	switch x.K {
	case 's':
		return `"` + strings.NewReplacer(`"`, `\"`, `\`, `\\`, "\n", `\n`, "\t", `\t`).Replace(x.S) + `"`
	case 'y':
		return x.S
	case 'e':
		var args []string
		if x.P[0].K == 'y' {
			for _, a := range x.args() {
				args = append(args, fullText(a))
			}
			return x.P[0].S + "[" + strings.Join(args, ", ") + "]"
		}
		for _, a := range x.args() {
			args = append(args, fullText(a))
		}
		return "(" + fullText(x.P[0]) + ")[" + strings.Join(args, ", ") + "]"
	}
	return x.Src()
}

func countOps(toks []tok) int {
	n := 0
	for _, k := range toks {
		if k.kind == tkOp || k.kind == tkPost || k.kind == tkTimes {
			n++
		}
	}
	return n
}

func c16Tree(t *T) {
	es := t.ES()
	g := &syntaxGen{t: t}
	a := g.gen(t.Int(1, 5))
	src := g.layout(a.toks)
	t.Case("%s", src)
	t.NontrivialIf(countOps(a.toks) >= 2)
	got := sameSyntax(parse(es, src))
	want := sameSyntax(a.x)
	if !xeq(got, want) {
		t.Failf("read as  %s\nexpected %s", got, want)
	}
	full := fullText(a.x)
	if got := sameSyntax(parse(es, full)); !xeq(got, want) {
		t.Failf("without operators:\n%s\nis read as %s\nexpected   %s", full, got, want)
	}
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C16", Title: "Operator syntax parses to the documented structure",
		Rule: "tree: two or more operators",
		Facets: []pbt.Facet{
			{Name: "tree", Quick: 100000, Thorough: 6000000, Batch: 1000, Run: c16Tree},
		},
	})
}
