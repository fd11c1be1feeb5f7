package props

import (
	"math"
	"math/big"
	"math/cmplx"
	"strings"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C30",
		Title: "Calculus operations are correct",
		Rule:  "a product, power or composition is differentiated, or a sum is evaluated in closed form",
		Facets: []pbt.Facet{
			{Name: "derivative", Quick: 5000, Thorough: 100000, Batch: 100, Run: calcD},
			{Name: "repeated", Quick: 500, Thorough: 20000, Batch: 50, Run: calcRepeated},
			{Name: "unknown", Quick: 1000, Thorough: 40000, Batch: 100, Run: calcUnknown},
			{Name: "linear", Quick: 500, Thorough: 20000, Batch: 50, Run: calcLinear},
			{Name: "lists", Quick: 1500, Thorough: 20000, Batch: 50, Run: calcLists},
			{Name: "sums", Quick: 800, Thorough: 30000, Batch: 100, Run: calcSums},
		},
	})
}

// diff is the derivative of x with respect to a symbol by the rules of
// calculus, without simplification. A function with "'" after its name is its
// derivative.
func diff(x *X, v string) *X {
	if x.K == 'y' {
		if x.S == v {
			return xi(1)
		}
		return xi(0)
	}
	if !contains(x, func(y *X) bool { return y.K == 'y' && y.S == v }) {
		return xi(0)
	}
	if x.K == 'c' {
		return xi(0)
	}
	a := x.args()
	switch {
	case x.head("Plus"):
		s := xE("Plus")
		for _, y := range a {
			s.P = append(s.P, diff(y, v))
		}
		return s
	case x.head("Times"):
		s := xE("Plus")
		for i := range a {
			p := xE("Times", a...)
			p.P = append([]*X{}, p.P...)
			p.P[i+1] = diff(a[i], v)
			s.P = append(s.P, p)
		}
		return s
	case x.head("List"):
		s := xl()
		for _, y := range a {
			s.P = append(s.P, diff(y, v))
		}
		return s
	case x.head("Power"):
		b, e := a[0], a[1]
		if !contains(e, func(y *X) bool { return y.K == 'y' && y.S == v }) {
			return xE("Times", e, xE("Power", b, xE("Plus", e, xi(-1))), diff(b, v))
		}
		if !contains(b, func(y *X) bool { return y.K == 'y' && y.S == v }) {
			return xE("Times", x, xE("Log", b), diff(e, v))
		}
		return xE("Times", x, xE("Plus", xE("Times", diff(e, v), xE("Log", b)), xE("Times", e, diff(b, v), xE("Power", b, xi(-1)))))
	case len(a) == 1 && x.P[0].K == 'y':
		u := a[0]
		var d *X
		pw := func(e int64, y *X) *X { return xE("Power", y, xi(e)) }
		switch strings.TrimPrefix(x.P[0].S, "System`") {
		case "Sin":
			d = xE("Cos", u)
		case "Cos":
			d = xE("Times", xi(-1), xE("Sin", u))
		case "Tan":
			d = pw(-2, xE("Cos", u))
		case "Cot":
			d = xE("Times", xi(-1), pw(-2, xE("Sin", u)))
		case "Log":
			d = pw(-1, u)
		case "Exp":
			d = x
		case "Sqrt":
			d = xE("Times", xq(big.NewRat(1, 2)), xE("Power", u, xq(big.NewRat(-1, 2))))
		case "Abs":
			d = xG("sign", u)
		case "Csc", "Sec":
			return diff(normD(x), v)
		default:
			d = xe(&X{K: 'y', S: x.P[0].S + "'"}, u)
		}
		return xE("Times", d, diff(u, v))
	}
	panic("diff " + x.String())
}

// normD replaces derivatives which were left unevaluated.
func normD(x *X) *X {
	if x.K != 'e' {
		return x
	}
	if x.P[0].K == 'e' && x.P[0].P[0].K == 'e' && x.P[0].P[0].head("Derivative") && len(x.P) == 2 {
		// Derivative[1][f][u]
		f := x.P[0].P[1]
		if f.S == "System`Abs" {
			return xG("sign", normD(x.P[1]))
		}
		return xe(&X{K: 'y', S: f.S + "'"}, normD(x.P[1]))
	}
	n := &X{K: 'e'}
	for _, p := range x.P {
		n.P = append(n.P, normD(p))
	}
	if n.head("Csc") || n.head("Sec") {
		f := map[bool]string{true: "Sin", false: "Cos"}[n.head("Csc")]
		return xE("Power", xE(f, n.P[1]), xi(-1))
	}
	if !n.head("D") || len(n.P) != 3 {
		return n
	}
	w := n.P[2]
	if w.K == 'y' {
		return diff(n.P[1], w.S)
	}
	const tmp = "Global`tmpvar"
	v := &X{K: 'y', S: tmp}
	return swapX(diff(swapX(n.P[1], w, v), tmp), v, w)
}

// swapX replaces every occurrence of an expression.
func swapX(x, from, to *X) *X {
	if xeq(x, from) {
		return to
	}
	if x.K != 'e' {
		return x
	}
	r := &X{K: 'e'}
	for _, p := range x.P {
		r.P = append(r.P, swapX(p, from, to))
	}
	return r
}

type calcEnv struct {
	vals  map[string]complex128
	scale float64 // the largest number on the way
	bad   bool
	cuts  bool // inverse functions are not evaluated on their cuts
}

// evalC is the value of an expression. Unknown functions have values of their own.
func (e *calcEnv) evalC(x *X) complex128 {
	r := e.eval1(x)
	if m := cmplx.Abs(r); m > e.scale {
		e.scale = m
	}
	if cmplx.IsNaN(r) || cmplx.IsInf(r) {
		e.bad = true
	}
	return r
}

func (e *calcEnv) eval1(x *X) complex128 {
	switch x.K {
	case 'i', 'r':
		f, _ := x.rat().Float64()
		return complex(f, 0)
	case 'f':
		f, _ := x.F.Float64()
		return complex(f, 0)
	case 'c':
		return complex(real(e.evalC(x.P[0])), real(e.evalC(x.P[1])))
	case 'y':
		switch x.S {
		case "System`Pi":
			return math.Pi
		case "System`E":
			return math.E
		}
		if v, ok := e.vals[x.S]; ok {
			return v
		}
		e.bad = true
		return 0
	case 'e':
	default:
		e.bad = true
		return 0
	}
	if x.P[0].K != 'y' {
		e.bad = true
		return 0
	}
	var a []complex128
	for _, p := range x.args() {
		a = append(a, e.evalC(p))
	}
	switch h := strings.TrimPrefix(x.P[0].S, "System`"); {
	case e.cuts && (h == "Arg" || h == "Log" || h == "Sqrt" || h == "Power") && real(a[0]) < 0 && math.Abs(imag(a[0])) < 1e-9*-real(a[0]) &&
		x.P[1].K == 'e' && contains(x.P[1], func(y *X) bool { return y.K == 'f' }):
		// The side of the cut depends on rounding.
		e.bad = true
		return 0
	case e.cuts && (h == "Sqrt" || h == "Log" || h == "Power" && len(a) == 2 && (real(a[1]) < 1 || a[1] != complex(math.Round(real(a[1])), 0))) && cmplx.Abs(a[0]) < 1e-9:
		e.bad = true
		return 0
	case h == "Plus":
		s := complex128(0)
		for _, v := range a {
			s += v
		}
		return s
	case h == "Times":
		s := complex128(1)
		for _, v := range a {
			s *= v
		}
		return s
	case h == "Power" && len(a) == 2:
		if cmplx.Abs(a[0]) < 1e-13 || real(a[1]) > 0 && real(a[1]) < 1 && cmplx.Abs(a[0]) < 1e-11 {
			// Zero but for rounding, which a root would make large.
			if real(a[1]) <= 0 {
				e.bad = true
			}
			return 0
		}
		return cmplx.Exp(a[1] * cmplx.Log(onCut(a[0])))
	case len(a) != 1:
		e.bad = true
		return 0
	case h == "Sin":
		return cmplx.Sin(a[0])
	case h == "Cos":
		return cmplx.Cos(a[0])
	case h == "Tan":
		return cmplx.Sin(a[0]) / cmplx.Cos(a[0])
	case h == "Cot":
		return cmplx.Cos(a[0]) / cmplx.Sin(a[0])
	case h == "Csc":
		return 1 / cmplx.Sin(a[0])
	case h == "Sec":
		return 1 / cmplx.Cos(a[0])
	case h == "Exp":
		return cmplx.Exp(a[0])
	case h == "Sinh":
		return cmplx.Sinh(a[0])
	case h == "Cosh":
		return cmplx.Cosh(a[0])
	case h == "Tanh":
		return cmplx.Sinh(a[0]) / cmplx.Cosh(a[0])
	case h == "Coth":
		return cmplx.Cosh(a[0]) / cmplx.Sinh(a[0])
	case h == "Csch":
		return 1 / cmplx.Sinh(a[0])
	case h == "Sech":
		return 1 / cmplx.Cosh(a[0])
	case e.cuts && (h == "ArcSin" || h == "ArcCos") && math.Abs(imag(a[0])) < 1e-9 && math.Abs(real(a[0])) > 1-1e-9,
		e.cuts && (h == "ArcTan" || h == "ArcCot") && math.Abs(real(a[0])) < 1e-9 && math.Abs(imag(a[0])) > 1-1e-9:
		e.bad = true
		return 0
	case h == "ArcCot" || h == "Private`ArcCot":
		if a[0] == 0 {
			return math.Pi / 2
		}
		return cmplx.Atan(1 / a[0])
	case h == "ArcTan":
		return cmplx.Atan(a[0])
	case h == "ArcSin":
		return cmplx.Asin(a[0])
	case h == "ArcCos":
		return cmplx.Acos(a[0])
	case h == "ArcCosh" && !e.cuts:
		return cmplx.Acosh(onReal(a[0]))
	case h == "Sqrt" && cmplx.Abs(a[0]) < 1e-11:
		return 0
	case h == "Sqrt":
		return cmplx.Sqrt(onCut(a[0]))
	case h == "Re":
		return complex(real(onReal(a[0])), 0)
	case h == "Im":
		return complex(imag(onReal(a[0])), 0)
	case h == "Arg":
		if cmplx.Abs(a[0]) < 1e-9 {
			e.bad = true
		}
		return complex(cmplx.Phase(onReal(a[0])), 0)
	case h == "Conjugate":
		return cmplx.Conj(a[0])
	case h == "Log":
		if a[0] == 0 {
			e.bad = true
			return 0
		}
		return cmplx.Log(onCut(a[0]))
	case h == "Abs":
		return complex(cmplx.Abs(a[0]), 0)
	case h == "Global`sign":
		// Abs is differentiated as a function of a real variable.
		if math.Abs(imag(a[0])) > 1e-9 || math.Abs(real(a[0])) < 1e-6 {
			e.bad = true
		}
		if real(a[0]) < 0 {
			return -1
		}
		return 1
	case strings.HasPrefix(h, "Global`"):
		// The k-th derivative of sin(c u) + exp(d u), for each name its own c and d.
		name := strings.TrimRight(h, "'")
		k := float64(len(h) - len(name))
		c := 0.5 + 0.17*float64(name[len(name)-1]%7)
		d := 0.2 + 0.13*float64(name[len(name)-1]%5)
		return complex(math.Pow(c, k), 0)*cmplx.Sin(complex(c, 0)*a[0]+complex(k*math.Pi/2, 0)) + complex(math.Pow(d, k), 0)*cmplx.Exp(complex(d, 0)*a[0])
	}
	e.bad = true
	return 0
}

// onCut puts the numbers of the negative axis on the same side of the cut.
func onCut(z complex128) complex128 {
	if real(z) < 0 && math.Abs(imag(z)) < 1e-11*-real(z) {
		return complex(real(z), 0)
	}
	return z
}

// onReal puts the numbers next to the axes on them.
func onReal(z complex128) complex128 {
	r, i := real(z), imag(z)
	switch {
	case math.Abs(i) < 1e-11*math.Abs(r):
		i = 0
	case math.Abs(r) < 1e-11*math.Abs(i):
		r = 0
	}
	return complex(r, i)
}

// moderate tells that the numbers of an expression are of ordinary size, as
// exponents and bases too.
func moderate(x *X) bool {
	return !contains(x, func(y *X) bool {
		if !y.head("Power") && !y.head("Exp") || contains(y, func(z *X) bool { return z.K == 'y' && strings.HasPrefix(z.S, "Global`") }) {
			return false
		}
		e := calcEnv{}
		e.evalC(y)
		return e.bad || e.scale > 1e6
	})
}

func calcPoint(t *T, i int) map[string]complex128 {
	m := map[string]complex128{}
	for _, v := range []string{"x", "y", "a", "b"} {
		m["Global`"+v] = complex(0.3+float64(t.Int(0, 4000))/2500, 0)
	}
	return m
}

// sameAt compares values at random points, at which neither is extreme.
func sameAt(t *T, got, w *X) (same, decided bool) {
	good := 0
	for i := 0; i < 8 && good < 3; i++ {
		at := calcPoint(t, i)
		e1, e2 := &calcEnv{vals: at}, &calcEnv{vals: at}
		ref := e1.evalC(w)
		if e1.bad || e1.scale > 1e6 {
			continue
		}
		val := e2.evalC(got)
		if e2.bad || e2.scale > 1e9 {
			continue
		}
		good++
		if cmplx.Abs(val-ref) > 1e-7*(1+e1.scale) {
			// A point near a cut or a singularity decides nothing alone: see the
			// value next to it.
			return false, true
		}
	}
	return true, good > 0
}

// genCalc draws an expression which can be differentiated.
func genCalc(t *T, depth int, fns []string) *X {
	if depth <= 0 || t.P(1, 7) {
		switch t.W(6, 2, 2, 1, 1) {
		case 0:
			return glo("x")
		case 1:
			return glo(pbt.Of(t, "y", "a", "b"))
		case 2:
			return xi(int64(t.Int(1, 4)))
		case 3:
			return pbt.Of(t, xi(-1), xi(-2), xq(big.NewRat(1, 2)), xq(big.NewRat(-3, 2)), xf(1.5))
		}
		return pbt.Of(t, sys("Pi"), sys("E"), xi(0))
	}
	sub := func() *X { return genCalc(t, depth-1, fns) }
	switch t.W(4, 4, 3, 5, 1, 1) {
	case 0:
		x := xE("Plus", sub(), sub())
		if t.P(1, 3) {
			x.P = append(x.P, sub())
		}
		return x
	case 1:
		x := xE("Times", sub(), sub())
		if t.P(1, 3) {
			x.P = append(x.P, sub())
		}
		return x
	case 2:
		return xE("Power", sub(), pbt.Of(t, xi(2), xi(3), xi(-1), xi(-2), xq(big.NewRat(1, 2)), xq(big.NewRat(-1, 3)), glo("a")))
	case 3:
		f := pbt.Pick(t, fns)
		if strings.HasPrefix(f, "Global`") {
			return xe(&X{K: 'y', S: f}, sub())
		}
		return xE(f, sub())
	case 4:
		return xE("Power", sub(), sub())
	}
	return xE("Times", sub(), xE("Power", sub(), xi(-1)))
}

var calcFns = []string{"Sin", "Cos", "Exp", "Log", "Sqrt", "Sin", "Cos", "Abs"}

// evaluates draws an expression with a value, and gives what it evaluates to.
func calcDraw(t *T, es ES, depth int, fns []string) *X {
	x := genCalc(t, depth, fns)
	t.Case("%s", x)
	if !moderate(x) {
		t.Discard()
	}
	e := ev(es, x)
	if undefined(e) || size(e) > 60 {
		t.Discard()
	}
	return x
}

// unevaluated finds a derivative that was left as it is.
func leftD(x *X) bool {
	return contains(x, func(x *X) bool { return x.head("D") || x.head("Derivative") })
}

func calcWant(t *T, call, got, w *X) {
	if undefined(got) {
		t.Discard()
	}
	same, decided := sameAt(t, normD(got), w)
	if !decided {
		t.Discard()
	}
	if !same {
		t.Failf("%s is %s, which differs in value from %s", call, got, w)
	}
}

func calcD(t *T) {
	es := t.ES()
	x := calcDraw(t, es, t.Int(2, 4), calcFns)
	t.Case("D %s", x)
	t.NontrivialIf(contains(x, func(y *X) bool { return y.K == 'e' && !y.head("Plus") && len(y.P) > 1 }))
	call := xE("D", x, glo("x"))
	got := ev(es, call)
	if got.head("D") {
		// Nothing is claimed about functions without a rule.
		t.Label("left")
		if !contains(x, func(x *X) bool { return x.head("Abs") }) && !contains(ev(es, x), func(x *X) bool {
			return x.head("Tan") || x.head("Cot") || x.head("Sinh") || x.head("Cosh") || x.head("Csc") || x.head("Sec")
		}) {
			t.Failf("%s is left as it is: %s", call, got)
		}
	}
	// Evaluation of x itself is not in question here.
	calcWant(t, call, got, diff(normD(ev(es, x)), "Global`x"))
}

func calcRepeated(t *T) {
	es := t.ES()
	x := calcDraw(t, es, t.Int(1, 3), calcFns[:7])
	vs := []string{"x", "y", "a"}
	e := ev(es, x)
	w := normD(e)
	var call *X
	n := t.Int(2, 3)
	if t.Bool() {
		call = x
		for i := 0; i < n; i++ {
			v := vs[t.W(3, 1, 1)]
			call, w = xE("D", call, glo(v)), diff(w, "Global`"+v)
		}
	} else {
		n = t.Int(0, 3)
		call = xE("D", x, xl(glo("x"), xi(int64(n))))
		for i := 0; i < n; i++ {
			w = diff(w, "Global`x")
		}
	}
	t.Case("%s", call)
	t.NontrivialIf(n > 1 && size(e) > 3)
	calcWant(t, call, ev(es, call), w)
}

func calcUnknown(t *T) {
	es := t.ES()
	fns := []string{"Sin", "Log", "Global`f", "Global`g", "Global`h", "Global`f"}
	x := calcDraw(t, es, t.Int(2, 3), fns)
	t.Case("D %s", x)
	t.NontrivialIf(contains(x, func(y *X) bool { return y.K == 'e' && strings.HasPrefix(y.P[0].S, "Global`") }))
	e := normD(ev(es, x))
	call := xE("D", x, glo("x"))
	w := diff(e, "Global`x")
	if t.P(1, 4) {
		call, w = xE("D", call, glo("x")), diff(w, "Global`x")
	}
	calcWant(t, call, ev(es, call), w)
}

// Derivatives of sums, products, quotients and compositions from those of their
// parts, and independence of the name of the variable.
func calcLinear(t *T) {
	es := t.ES()
	fns := append([]string{"Global`f"}, calcFns[:5]...)
	p, q := calcDraw(t, es, t.Int(1, 2), fns), calcDraw(t, es, t.Int(1, 2), fns)
	d := func(x *X) *X { return xE("D", x, glo("x")) }
	var call, w *X
	switch t.W(2, 2, 1, 2) {
	case 0:
		a, b := xq(genCoef(t)), glo("b")
		call = d(xE("Plus", xE("Times", a, p), xE("Times", b, q)))
		w = xE("Plus", xE("Times", a, d(p)), xE("Times", b, d(q)))
	case 1:
		call = d(xE("Times", p, q))
		w = xE("Plus", xE("Times", d(p), q), xE("Times", p, d(q)))
	case 2:
		call = d(xE("Times", p, xE("Power", q, xi(-1))))
		w = xE("Times", xE("Plus", xE("Times", d(p), q), xE("Times", xi(-1), p, d(q))), xE("Power", q, xi(-2)))
	case 3:
		// The same with another variable.
		call = d(p)
		old := substSyms(p, map[string]*X{"x": glo("v1"), "v1": glo("x")})
		r := ev(es, xE("D", old, glo("v1")))
		w = substSyms(r, map[string]*X{"v1": glo("x")})
	}
	t.Case("%s", call)
	t.Nontrivial()
	got, ref := ev(es, call), ev(es, w)
	if undefined(got) || undefined(ref) {
		t.Discard()
	}
	calcWant(t, call, got, normD(ref))
}

func calcLists(t *T) {
	es := t.ES()
	switch t.W(2, 2, 1, 1) {
	case 0:
		var l, each []*X
		for n := t.Int(0, 3); n > 0; n-- {
			x := calcDraw(t, es, t.Int(0, 2), calcFns)
			if t.P(1, 4) {
				x = xl(x, glo("x"))
			}
			l, each = append(l, x), append(each, xE("D", x, glo("x")))
		}
		t.Case("%s", xl(l...))
		t.NontrivialIf(len(l) > 1)
		mustBe(t, es, xE("D", xl(l...), glo("x")), xl(each...))
	case 1:
		x := calcDraw(t, es, t.Int(0, 3), calcFns)
		var vs, each []*X
		for n := t.Int(0, 3); n > 0; n-- {
			v := glo(pbt.Of(t, "x", "y", "a"))
			vs, each = append(vs, v), append(each, xE("D", x, v))
		}
		t.Case("Grad %s %s", x, xl(vs...))
		t.NontrivialIf(len(vs) > 1)
		mustBe(t, es, xE("Grad", x, xl(vs...)), xl(each...))
	case 2:
		x := calcDraw(t, es, t.Int(0, 3), calcFns)
		t.Case("constant %s", x)
		t.NontrivialIf(size(x) > 2)
		want(t, es, xE("D", x, glo("w")), xi(0))
	case 3:
		// Functions as variables.
		x := calcDraw(t, es, t.Int(1, 2), calcFns[:5])
		call := substSyms(x, map[string]*X{"x": xG("u", glo("s"))})
		t.Case("in u[s]: %s", call)
		t.NontrivialIf(size(x) > 2)
		f := xE("D", call, xG("u", glo("s")))
		got := swapX(ev(es, f), xG("u", glo("s")), glo("x"))
		calcWant(t, f, got, diff(normD(ev(es, x)), "Global`x"))
	}
}

func calcSums(t *T) {
	es := t.ES()
	i := glo("k")
	switch t.W(3, 2, 1, 3) {
	case 0:
		// The closed form, with the bound filled in afterwards.
		n := t.Int(0, 60)
		lo := int64(t.Int(0, 1))
		b := glo("n")
		bound := b
		top := int64(n)
		iter := xl(i, xi(lo), bound)
		if lo == 1 && t.Bool() {
			k := int64(t.Int(0, 4))
			bound = pbt.Of(t, b, xE("Plus", b, xi(k)), xE("Times", xi(k+1), b))
			switch {
			case bound.head("Plus"):
				top += k
			case bound.head("Times"):
				top *= k + 1
			}
			iter = xl(i, bound)
		}
		s := xE("Sum", i, iter)
		t.Case("%s with n -> %d", s, n)
		t.NontrivialIf(n > 1)
		want(t, es, xE("ReplaceAll", s, xE("Rule", b, xi(int64(n)))), xi(top*(top+1)/2))
		if got := ev(es, s); contains(got, func(x *X) bool { return x.S == "Global`k" }) && bound == b {
			t.Failf("%s is %s", s, got)
		}
	case 1:
		// Numeric bounds of any kind, through the same closed forms.
		n := int64(t.Near(40))
		v := n
		var bound *X = xi(n)
		if t.P(1, 3) {
			bound = xE("Plus", xi(n), xq(big.NewRat(1, int64(t.Int(2, 3)))))
		}
		if v < 0 {
			v = 0
		}
		s := xE("Sum", i, pbt.Of(t, xl(i, bound), xl(i, xi(1), bound), xl(i, xi(0), bound)))
		t.Case("%s", s)
		t.NontrivialIf(v > 1)
		want(t, es, s, xi(v*(v+1)/2))
	case 2:
		// An infinite sum with a coefficient, which may not depend on the variable.
		c := pbt.Of(t, xi(1), xi(int64(t.Int(2, 9))), glo("c"), xq(big.NewRat(2, 3)), xE("Plus", glo("c"), xi(1)), xE("Times", glo("c"), xE("Sin", glo("d"))))
		dep := t.P(1, 3)
		if dep {
			c = pbt.Of(t, i, xE("Sin", i), xE("Plus", i, xi(1)), xE("Times", glo("c"), i), xE("Power", xi(2), i))
		}
		s := xE("Sum", xE("Times", c, xE("Power", i, xi(-2))), xl(i, xi(1), sys("Infinity")))
		if c.K == 'i' && c.N.Cmp(bi(1)) == 0 {
			s = xE("Sum", xE("Power", i, xi(-2)), xl(i, xi(1), sys("Infinity")))
		}
		t.Case("%s", s)
		t.Nontrivial()
		got := ev(es, s)
		if got.head("Sum") {
			return
		}
		if dep {
			t.Failf("%s is %s", s, got)
		}
		want(t, es, xE("Plus", got, xE("Times", xi(-1), c, xq(big.NewRat(1, 6)), xE("Power", sys("Pi"), xi(2)))), xi(0))
	case 3:
		// Symbolic terms, one by one.
		f := pbt.Of(t, "Sum", "Product")
		body := pbt.Of(t, xE("Power", glo("x"), i), xE("Plus", glo("x"), i), xE("Times", i, glo("y")), xG("f", i), xE("Power", xE("Plus", i, glo("a")), xi(-1)), xl(i, glo("x")), xE("D", xE("Power", glo("x"), i), glo("x")))
		lo, hi := t.Near(4), t.Near(6)
		s := xE(f, body, xl(i, xi(int64(lo)), xi(int64(hi))))
		t.Case("%s", s)
		t.NontrivialIf(hi > lo)
		w := xE(map[string]string{"Sum": "Plus", "Product": "Times"}[f])
		for n := lo; n <= hi; n++ {
			w.P = append(w.P, substSyms(body, map[string]*X{"k": xi(int64(n))}))
		}
		if hi < lo {
			w = xi(map[string]int64{"Sum": 0, "Product": 1}[f])
		}
		mustBe(t, es, s, w)
	}
}
