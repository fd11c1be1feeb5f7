package props

import (
	"math"
	"math/big"
	"math/cmplx"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C32",
		Title: "Simplification and elementary functions preserve numeric value",
		Rule:  "the result differs from the expression, so that a transformation took place",
		Facets: []pbt.Facet{
			{Name: "powers", Quick: 20000, Thorough: 600000, Batch: 200, Run: elemPowers},
			{Name: "trigonometry", Quick: 16000, Thorough: 400000, Batch: 200, Run: elemTrig},
			{Name: "mixed", Quick: 10000, Thorough: 300000, Batch: 100, Run: elemMixed},
			{Name: "reals", Quick: 2000, Thorough: 60000, Batch: 200, Run: elemReals},
			{Name: "transformations", Quick: 5000, Thorough: 80000, Batch: 50, Run: elemTransform},
		},
	})
}

const (
	anyReal = iota
	positive
	anyComplex
)

func elemPoint(t *T, kind int) map[string]complex128 {
	m := map[string]complex128{}
	for _, v := range []string{"x", "y", "z"} {
		re := 0.1 + float64(t.Int(0, 3000))/1000
		im := 0.0
		if kind != positive && t.Bool() {
			re = -re
		}
		if kind == anyComplex {
			im = float64(t.Int(-3000, 3000)) / 1000
		}
		m["Global`"+v] = complex(re, im)
	}
	return m
}

// sameElem compares the values of two expressions at random points.
func sameElem(t *T, what string, x, got *X, kinds ...int) {
	decided := 0
	for i := 0; i < 10 && decided < 4; i++ {
		at := elemPoint(t, kinds[i%len(kinds)])
		e1, e2 := &calcEnv{vals: at, cuts: true}, &calcEnv{vals: at, cuts: true}
		ref := e1.evalC(x)
		if e1.bad || e1.scale > 1e5 {
			continue
		}
		val := e2.evalC(got)
		if e2.bad || e2.scale > 1e7 {
			continue
		}
		decided++
		if cmplx.Abs(val-ref) > 1e-6*(1+math.Max(e1.scale, e2.scale)) {
			t.Failf("%s\nis %s\nwhose value at %v is %v instead of %v", what, got, at, val, ref)
		}
	}
	if decided == 0 {
		t.Discard()
	}
}

func automatic(t *T, es ES, x *X) {
	t.Case("%s", x)
	if !moderate(x) || hasPole(x) || vanishes(x) {
		t.Discard()
	}
	got := ev(es, x)
	if undefined(got) {
		// There may be a reason: the reference must have none then.
		at := elemPoint(t, positive)
		e := calcEnv{vals: at}
		e.evalC(x)
		if e.bad || e.scale > 1e5 || tiny(x, at) {
			t.Discard()
		}
		t.Failf("%s is %s", x, got)
	}
	t.NontrivialIf(!xeq(got, x))
	sameElem(t, x.String(), x, got, anyReal, anyComplex, positive)
}

// hasPole tells that a constant part has no value, or none that is far enough from
// a pole to tell.
func hasPole(x *X) bool {
	return contains(x, func(y *X) bool {
		if y.K != 'e' || contains(y, func(z *X) bool { return z.K == 'y' && len(z.S) > 7 && z.S[:7] == "Global`" }) {
			return false
		}
		e := calcEnv{}
		e.evalC(y)
		return e.bad || e.scale > 1e6
	})
}

// vanishes tells that a part with symbols is zero, or infinite, everywhere.
func vanishes(x *X) bool {
	at := map[string]complex128{"Global`x": 1.2345 + 0.321i, "Global`y": 0.8765 - 0.543i, "Global`z": -0.6543 - 0.987i}
	return contains(x, func(y *X) bool {
		if y.K != 'e' || !contains(y, func(z *X) bool { return z.K == 'y' && at[z.S] != 0 }) {
			return false
		}
		e := calcEnv{vals: at}
		v := e.evalC(y)
		return e.bad || cmplx.Abs(v) < 1e-9 || e.scale > 1e7
	})
}

// tiny tells that a part is zero or nearly so.
func tiny(x *X, at map[string]complex128) bool {
	return contains(x, func(y *X) bool {
		if y.K == 'y' && at[y.S] == 0 {
			return false
		}
		e := calcEnv{vals: at}
		return cmplx.Abs(e.evalC(y)) < 1e-7
	})
}

func smallExp(t *T) *X {
	if t.Bool() {
		return xi(int64(t.Int(-3, 4)))
	}
	return xq(big.NewRat(int64(t.Int(-5, 5)), int64(t.Int(2, 4))))
}

func elemAtom(t *T) *X {
	switch t.W(5, 3, 3, 2, 1, 1) {
	case 0:
		return glo(pbt.Of(t, "x", "x", "y"))
	case 1:
		return xi(int64(t.Int(-12, 12)))
	case 2:
		return xq(big.NewRat(int64(t.Int(-9, 9)), int64(t.Int(1, 6))))
	case 3:
		return xz(big.NewRat(int64(t.Int(-3, 3)), 1), big.NewRat(int64(t.Int(-3, 3)), 1))
	case 4:
		return sys(pbt.Of(t, "Pi", "E"))
	}
	return xf(float64(t.Int(-20, 20)) / 8)
}

// genPower draws expressions of powers, roots, logarithms and absolute values.
func genPower(t *T, depth int) *X {
	if depth <= 0 {
		return elemAtom(t)
	}
	sub := func() *X { return genPower(t, depth-1-t.Int(0, 1)) }
	switch t.W(8, 3, 4, 2, 2, 1, 2, 1) {
	case 0:
		return xE("Power", sub(), smallExp(t))
	case 1:
		return xE("Plus", sub(), sub())
	case 2:
		x := xE("Times", sub(), sub())
		if t.P(1, 3) {
			x.P = append(x.P, sub())
		}
		return x
	case 3:
		return xE("Sqrt", sub())
	case 4:
		return xE("Log", sub())
	case 5:
		return xE(pbt.Of(t, "Abs", "Re", "Im", "Conjugate", "Arg"), sub())
	case 6:
		return xE("Power", sys("E"), sub())
	}
	return xE("Power", sub(), elemAtom(t))
}

func elemPowers(t *T) { automatic(t, t.ES(), genPower(t, t.Int(1, 4))) }

// angle draws an argument of a trigonometric function.
func angle(t *T) *X {
	pi := xE("Times", xq(big.NewRat(int64(t.Int(-14, 14)), int64(pbt.Of(t, 1, 2, 3, 4, 6, 5, 12)))), sys("Pi"))
	sym := glo(pbt.Of(t, "x", "y"))
	if t.P(1, 2) {
		sym = xE("Times", pbt.Of(t, xi(-1), xi(2), xi(-2), xc(xi(0), xi(1)), xc(xi(0), xi(-1)), xc(xi(0), xi(2)), xq(big.NewRat(-1, 2))), sym)
	}
	switch t.W(3, 3, 2, 2, 2, 1, 1) {
	case 0:
		return pi
	case 1:
		return xE("Plus", pi, sym)
	case 2:
		return sym
	case 3:
		// Sums of several terms.
		s := xE("Plus", sym, xE("Times", pbt.Of(t, xi(1), xi(-1), xi(-3), xc(xi(0), xi(1))), glo("y")))
		if t.Bool() {
			s.P = append(s.P, xE("Times", pbt.Of(t, xi(1), xi(-1), xc(xi(0), xi(1))), glo("z")))
		}
		if t.Bool() {
			s.P = append(s.P, xi(int64(t.Int(-3, 3))))
		}
		return s
	case 4:
		return xE("Plus", sym, xi(int64(t.Int(-3, 3))))
	case 5:
		return xE(pbt.Of(t, "ArcSin", "ArcCos", "ArcTan"), pbt.Of(t, xi(0), xi(1), xi(-1), xq(big.NewRat(1, 2)), xq(big.NewRat(-1, 2)), glo("x"), xE("Times", xi(-1), glo("x")), xE("Plus", xi(-1), glo("x"))))
	}
	return elemAtom(t)
}

var trigFns = []string{"Sin", "Cos", "Tan", "Cot", "Sec", "Csc", "Sin", "Cos", "Tan", "Cot", "Sinh", "Cosh", "Tanh", "Csch", "Coth", "Csch"}

func genTrig(t *T, depth int) *X {
	f := func() *X {
		x := xE(pbt.Pick(t, trigFns), angle(t))
		if t.P(1, 3) {
			x = xE("Power", x, xi(int64(t.Int(-3, 3))))
		}
		return x
	}
	if depth <= 0 {
		return f()
	}
	switch t.W(2, 1, 2, 1) {
	case 0:
		return xE("Times", f(), genTrig(t, depth-1))
	case 1:
		return xE("Plus", f(), genTrig(t, depth-1))
	case 2:
		// A function and its relatives with the same argument.
		a := angle(t)
		return xE("Times", xE("Power", xE(pbt.Pick(t, trigFns), a), xi(int64(t.Int(-2, 2)))), xE("Power", xE(pbt.Pick(t, trigFns), a), xi(int64(t.Int(-2, 2)))))
	}
	return xE(pbt.Of(t, "ArcSin", "ArcCos", "ArcTan"), pbt.Of(t, f(), angle(t), xi(int64(t.Int(-1, 1)))))
}

func elemTrig(t *T) { automatic(t, t.ES(), genTrig(t, t.Int(0, 2))) }

func genMixed(t *T, depth int) *X {
	if depth <= 0 {
		return elemAtom(t)
	}
	sub := func() *X { return genMixed(t, depth-1-t.Int(0, 1)) }
	switch t.W(3, 3, 3, 3, 2, 1) {
	case 0:
		return xE("Plus", sub(), sub())
	case 1:
		return xE("Times", sub(), sub())
	case 2:
		return xE("Power", sub(), smallExp(t))
	case 3:
		return xE(pbt.Of(t, "Sin", "Cos", "Tan", "Exp", "Log", "Sqrt", "Abs", "Cot", "ArcTan", "Re", "Im"), sub())
	case 4:
		return genTrig(t, 0)
	}
	return genPower(t, 2)
}

func elemMixed(t *T) { automatic(t, t.ES(), genMixed(t, t.Int(2, 4))) }

// elemReals evaluates functions at floating point numbers.
func elemReals(t *T) {
	es := t.ES()
	v := float64(t.Int(-400000, 400000)) / 65536
	a := xf(v)
	var x *X
	switch t.W(4, 3) {
	case 0:
		f := pbt.Of(t, "Sin", "Cos", "Tan", "Exp", "Log", "Sqrt", "Abs", "ArcTan")
		x = xE(f, a)
	case 1:
		x = xE("Power", a, pbt.Of(t, xf(float64(t.Int(-20, 20))/8), xq(big.NewRat(int64(t.Int(-7, 7)), 2)), xq(big.NewRat(int64(t.Int(-7, 7)), 3)), xi(int64(t.Int(-5, 5)))))
	}
	t.Case("%s", x)
	t.Nontrivial()
	e := calcEnv{}
	ref := e.evalC(x)
	if e.bad || e.scale > 1e8 || v == 0 {
		t.Discard()
	}
	got := ev(es, x)
	g := calcEnv{}
	val := g.evalC(got)
	if g.bad || cmplx.Abs(val-ref) > 1e-9*(1+e.scale) {
		t.Failf("%s is %s instead of %v", x, got, ref)
	}
}

// genShaped draws expressions of the forms that the transformations know about.
func genShaped(t *T, depth int) *X {
	i := func(n int64) *X { return xc(xi(0), xi(n)) }
	q := func() *X { return xq(big.NewRat(int64(t.Int(-6, 6)), int64(t.Int(1, 4)))) }
	v := func() *X { return glo(pbt.Of(t, "x", "y", "z")) }
	sub := func() *X {
		if depth <= 0 {
			if t.P(1, 4) {
				return elemAtom(t)
			}
			return v()
		}
		return genShaped(t, depth-1)
	}
	lin := func() *X {
		return xE("Plus", xE("Times", q(), v()), pbt.Of(t, q(), xE("Times", q(), v()), xE("Times", i(int64(t.Int(-2, 2))), v())))
	}
	switch t.W(2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1) {
	case 0:
		// Exponentials of complex multiples.
		return xE("Times", sub(), xE("Power", sys("E"), xE("Times", pbt.Of(t, xE("Plus", v(), xE("Times", i(1), v())), xz(big.NewRat(int64(t.Int(-2, 2)), 1), big.NewRat(int64(t.Int(-3, 3)), 2))), pbt.Of(t, v(), sys("Pi"), q()))))
	case 1:
		// Roots of negative integers.
		return xE("Times", xE("Power", xi(int64(t.Int(-12, -1))), xq(big.NewRat(int64(t.Int(-5, 5)), int64(t.Int(2, 4))))), xE("Plus", sub(), xE("Times", i(1), xE("Sqrt", xi(int64(t.Int(2, 6)))))))
	case 2:
		// Multiples of 1 - Cos[x].
		a := pbt.Of(t, v(), xi(int64(t.Int(-3, 3))))
		return xE("Times", pbt.Of(t, xq(big.NewRat(1, 2)), xq(big.NewRat(-1, 2)), xi(1)), pbt.Of(t, v(), xi(1)), xE("Plus", a, xE("Times", xi(pbt.Of(t, int64(-1), 1)), a, xE("Cos", sub()))))
	case 3:
		// Sums with a common factor.
		f := xi(int64(t.Int(-6, 6)))
		return xE("Plus", xE("Times", f, sub()), xE("Times", f, v()), xE("Times", f, q()))
	case 4:
		// Fractions over one denominator.
		d := xE("Power", lin(), xi(int64(t.Int(-2, -1))))
		return xE("Plus", xE("Times", sub(), d), xE("Times", lin(), d))
	case 5:
		return xE("Power", xE("Plus", sub(), lin()), xi(int64(t.Int(-3, 3))))
	case 6:
		return xE("Sqrt", xE("Plus", xE("Times", xi(int64(t.Int(-8, 8))), v()), xE("Times", xi(4), sub()), xi(int64(t.Int(-2, 2)*4))))
	case 7:
		y := sub()
		return xE("Plus", xE("Power", sys("E"), y), xE("Times", q(), xE("Power", sys("E"), xE("Times", xi(-1), y))))
	case 8:
		return xE(pbt.Of(t, "Cos", "Sin", "Tan"), pbt.Of(t, xE("Times", xi(int64(t.Int(-2, 3))), sub()), lin()))
	case 9:
		return xE("Times", sub(), sub())
	case 10:
		return xE(pbt.Of(t, "Abs", "Log", "Re", "Im", "Conjugate"), pbt.Of(t, xE("Times", q(), sub()), xE("Plus", v(), xE("Times", i(1), v()))))
	}
	return xE("Plus", sub(), sub())
}

// genPositive draws expressions whose parts are positive when the symbols are.
func genPositive(t *T, depth int) *X {
	if depth <= 0 {
		return pbt.Of(t, glo("x"), glo("y"), xi(int64(t.Int(1, 12))), xq(big.NewRat(int64(t.Int(1, 9)), int64(t.Int(1, 6)))))
	}
	sub := func() *X { return genPositive(t, depth-1-t.Int(0, 1)) }
	switch t.W(4, 4, 2, 1, 1) {
	case 0:
		return xE("Power", sub(), smallExp(t))
	case 1:
		return xE("Times", sub(), sub())
	case 2:
		return xE("Sqrt", sub())
	case 3:
		return xE("Plus", sub(), sub())
	}
	return xE("Power", sub(), glo(pbt.Of(t, "x", "y")))
}

func elemTransform(t *T) {
	es := t.ES()
	var x *X
	f := pbt.Of(t, "Simplify", "FullSimplify", "Simplify", "ComplexExpand", "PowerExpand", "TrigToExp", "TrigExpand", "TrigReduce", "Expand", "ExpandAll", "Together", "Factor")
	switch {
	case t.P(2, 3) && f != "PowerExpand":
		x = genShaped(t, t.Int(0, 2))
	case f == "PowerExpand":
		x = genPositive(t, t.Int(1, 3))
	case f == "TrigToExp" || f == "TrigExpand" || f == "TrigReduce" || t.P(1, 4):
		x = genTrig(t, t.Int(0, 2))
	case t.Bool():
		x = genPower(t, t.Int(1, 3))
	default:
		x = genMixed(t, t.Int(1, 3))
	}
	call := xE(f, x)
	if f == "PowerExpand" && t.Bool() {
		call = xE(f, xE("Log", x))
		x = call.args()[0]
	}
	t.Case("%s", call)
	if !moderate(x) || hasPole(x) || vanishes(x) {
		t.Discard()
	}
	e := ev(es, x)
	if undefined(e) || size(e) > 40 {
		t.Discard()
	}
	got := ev(es, call)
	if undefined(got) {
		t.Failf("%s is %s", call, got)
	}
	t.NontrivialIf(!xeq(got, e))
	kinds := []int{anyReal, anyComplex, positive}
	switch f {
	case "PowerExpand":
		kinds = []int{positive}
	case "ComplexExpand":
		kinds = []int{anyReal}
	}
	sameElem(t, call.String(), e, got, kinds...)
}
