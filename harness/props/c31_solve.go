package props

import (
	"math"
	"math/big"
	"math/cmplx"
	"strings"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C31",
		Title: "Every solution returned by Solve satisfies the equation",
		Rule:  "the equation depends on the unknown in a way other than being solved for it already",
		Facets: []pbt.Facet{
			{Name: "polynomial", Quick: 400, Thorough: 6000, Batch: 20, Run: solvePoly},
			{Name: "isolation", Quick: 800, Thorough: 12000, Batch: 25, Run: solveChain},
			{Name: "symbolic", Quick: 300, Thorough: 5000, Batch: 20, Run: solveSymbolic},
			{Name: "system", Quick: 300, Thorough: 8000, Batch: 25, Run: solveSystem},
			{Name: "substitution", Quick: 120, Thorough: 3000, Batch: 20, Run: solvePowers},
		},
	})
}

// condition evaluates a condition on numbers: 1 true, 0 false, -1 not decided.
func condition(x *X, at map[string]complex128) int {
	num := func(x *X) (float64, bool) {
		e := calcEnv{vals: at}
		v := e.evalC(x)
		return real(v), !e.bad && math.Abs(imag(v)) < 1e-9*(1+math.Abs(real(v)))
	}
	compare := func(op string, a, b *X) int {
		l, ok1 := num(a)
		r, ok2 := num(b)
		if !ok1 || !ok2 {
			return -1
		}
		close := math.Abs(l-r) <= 1e-9*(1+math.Abs(l)+math.Abs(r))
		if close {
			// An exact coincidence is decided only for numbers.
			if a.isNum() && b.isNum() {
				return map[bool]int{true: 1, false: 0}[strings.HasSuffix(op, "Equal")]
			}
			return -1
		}
		ok := false
		switch op {
		case "Less", "LessEqual":
			ok = l < r
		case "Greater", "GreaterEqual":
			ok = l > r
		case "Equal":
		default:
			return -1
		}
		return map[bool]int{true: 1, false: 0}[ok]
	}
	if x.K == 'y' {
		switch x.S {
		case "System`True":
			return 1
		case "System`False":
			return 0
		}
		return -1
	}
	if x.K != 'e' {
		return -1
	}
	a := x.args()
	switch {
	case x.head("And"), x.head("Or"):
		stop := map[bool]int{true: 0, false: 1}[x.head("And")]
		r := 1 - stop
		for _, p := range a {
			switch c := condition(p, at); {
			case c == stop:
				return stop
			case c < 0:
				r = -1
			}
		}
		return r
	case x.head("Element") && len(a) == 2:
		return 1 // Only ever about the free integers.
	case x.head("Inequality"):
		r := 1
		for i := 0; i+2 < len(a); i += 2 {
			switch c := compare(strings.TrimPrefix(a[i+1].S, "System`"), a[i], a[i+2]); {
			case c == 0:
				return 0
			case c < 0:
				r = -1
			}
		}
		return r
	case x.P[0].K == 'y':
		r := 1
		for i := 0; i+1 < len(a); i++ {
			switch c := compare(strings.TrimPrefix(x.P[0].S, "System`"), a[i], a[i+1]); {
			case c == 0:
				return 0
			case c < 0:
				r = -1
			}
		}
		return r
	}
	return -1
}

// freeIntegers replaces C[1], C[2], ...
func freeIntegers(x *X, k func(*X) *X) *X {
	if x.K != 'e' {
		return x
	}
	if len(x.P) == 2 && x.P[0].K == 'y' && (x.P[0].S == "System`C" || strings.HasSuffix(x.P[0].S, "`C")) {
		return k(x.P[1])
	}
	r := &X{K: 'e'}
	for _, p := range x.P {
		r.P = append(r.P, freeIntegers(p, k))
	}
	return r
}

// solution is one of the answers: values for the unknowns.
type solution map[string]*X

// solutions reads an answer of Solve. The second result tells that it is no list of
// solutions, which is how Solve says that it cannot solve.
func solutions(t *T, call, got *X, vars ...string) ([]solution, bool) {
	if !got.head("List") {
		return nil, false
	}
	var all []solution
	for _, s := range got.args() {
		if !s.head("List") {
			t.Failf("%s is %s, which is not a list of lists of rules", call, got)
		}
		m := solution{}
		for _, r := range s.args() {
			if !r.head("Rule") || len(r.P) != 3 || r.P[1].K != 'y' {
				t.Failf("%s is %s, which is not a list of lists of rules", call, got)
			}
			v := strings.TrimPrefix(r.P[1].S, "Global`")
			known := false
			for _, w := range vars {
				known = known || v == w
			}
			if _, twice := m[v]; twice || !known {
				t.Failf("%s is %s, with %s in place of one of the unknowns", call, got, v)
			}
			for _, bad := range []string{"Indeterminate", "ComplexInfinity", "Infinity", "DirectedInfinity", "Undefined"} {
				if contains(r.P[2], func(y *X) bool { return y.K == 'y' && strings.HasSuffix(y.S, "`"+bad) }) {
					t.Failf("%s is %s, where the value of %s is none", call, got, v)
				}
			}
			m[v] = r.P[2]
		}
		all = append(all, m)
	}
	return all, true
}

// substX replaces symbols.
func substX(x *X, m map[string]*X) *X {
	if x.K == 'y' {
		if r, ok := m[strings.TrimPrefix(x.S, "Global`")]; ok {
			return r
		}
	}
	if x.K != 'e' {
		return x
	}
	r := &X{K: 'e'}
	for _, p := range x.P {
		r.P = append(r.P, substX(p, m))
	}
	return r
}

// values splits a conditional value.
func unconditional(x *X) (val, cond *X) {
	if x.head("ConditionalExpression") && len(x.P) == 3 {
		return x.P[1], x.P[2]
	}
	return x, sys("True")
}

// holdsAt checks a solution in the equations at a point. The free integers are given.
func holdsAt(t *T, call, got *X, eqs [][2]*X, s solution, at map[string]complex128, ks []int64) bool {
	pick := func(i *X) *X {
		if i.K == 'i' && i.N.IsInt64() && i.N.Int64() > 0 {
			return xi(ks[int(i.N.Int64()-1)%len(ks)])
		}
		return xi(ks[0])
	}
	m := map[string]*X{}
	for v, x := range s {
		val, cond := unconditional(freeIntegers(x, pick))
		if condition(cond, at) != 1 {
			return false
		}
		m[v] = val
	}
	checked := false
	for _, q := range eqs {
		e1, e2 := calcEnv{vals: at}, calcEnv{vals: at}
		l, r := e1.evalC(substX(q[0], m)), e2.evalC(substX(q[1], m))
		if e1.bad || e2.bad || e1.scale > 1e7 || e2.scale > 1e7 {
			continue
		}
		checked = true
		if tol := 2e-6 * (1 + math.Max(e1.scale, e2.scale)); cmplx.Abs(l-r) > tol {
			t.Failf("%s is %s, but with %v the sides of %s == %s are %v and %v (free integers %v, at %v)", call, got, showSolution(s), q[0], q[1], l, r, ks, at)
		}
	}
	return checked
}

func showSolution(s solution) string {
	out := ""
	for v, x := range s {
		out += v + " -> " + x.String() + " "
	}
	return out
}

// sound checks all solutions. It gives the number that could be checked.
func sound(t *T, call, got *X, eqs [][2]*X, sols []solution, params bool) int {
	n := 0
	for _, s := range sols {
		for i := 0; i < 2; i++ {
			at := map[string]complex128{}
			if params {
				at = calcPoint(t, i)
				delete(at, "Global`x")
			}
			free := false
			for _, x := range s {
				free = free || contains(x, func(y *X) bool {
					return y.K == 'e' && len(y.P) == 2 && y.P[0].K == 'y' && strings.HasSuffix(y.P[0].S, "`C")
				})
			}
			if !free && !params && i > 0 {
				break
			}
			ks := []int64{int64(t.Int(-3, 3)), int64(t.Int(-3, 3)), int64(t.Int(-3, 3))}
			if holdsAt(t, call, got, eqs, s, at, ks) {
				n++
			}
		}
	}
	return n
}

// has looks for a value among the solutions.
func has(sols []solution, v string, want complex128) bool {
	for _, s := range sols {
		x, ok := s[v]
		if !ok {
			return true
		}
		for k := int64(0); k < 42875; k++ {
			ks := []int64{k%35 - 17, k/35%35 - 17, k/1225 - 17}
			used := 0
			val, cond := unconditional(freeIntegers(x, func(i *X) *X {
				j := 0
				if i.K == 'i' && i.N.IsInt64() && i.N.Int64() > 0 {
					j = int(i.N.Int64()-1) % 3
				}
				if j+1 > used {
					used = j + 1
				}
				return xi(ks[j])
			}))
			if condition(cond, nil) != 0 {
				e := calcEnv{}
				got := e.evalC(val)
				if e.bad || e.scale > 1e7 {
					return true // Not decided.
				}
				if cmplx.Abs(got-want) <= 1e-4*(1+cmplx.Abs(want)) {
					return true
				}
			}
			if used == 0 || used == 1 && k >= 34 || used == 2 && k >= 1224 {
				break
			}
		}
	}
	return false
}

func solveEq(t *T, es ES, l, r *X, v string) (call, got *X) {
	call = xE("Solve", xE("Equal", l, r), glo(v))
	return call, ev(es, call)
}

// eqValue is the equation x == y with its sides exchanged, shifted and scaled.
func disguise(t *T, l, r *X) (*X, *X) {
	if t.P(1, 4) {
		k := xq(nonZero(t))
		l, r = xE("Times", k, l), xE("Times", k, r)
	}
	if t.P(1, 4) {
		l, r = r, l
	}
	return l, r
}

func ratOf(t *T) *big.Rat {
	r := big.NewRat(int64(t.Int(-6, 6)), 1)
	if t.P(1, 3) {
		r.Quo(r, big.NewRat(int64(t.Int(2, 4)), 1))
	}
	return r
}

func toC(x *X) complex128 {
	e := calcEnv{}
	return e.evalC(x)
}

// solvePoly solves polynomial equations with known roots and without.
func solvePoly(t *T) {
	es := t.ES()
	x := glo("x")
	deg := 1 + t.W(4, 6, 4, 1)
	var p *X
	var roots []*X
	whole := func(r *big.Rat) *big.Rat {
		if deg == 4 {
			return new(big.Rat).SetInt(r.Num())
		}
		return r
	}
	if deg == 4 || t.P(2, 3) {
		// From roots; complex ones only in equations up to the second degree.
		fs := []*X{xq(whole(nonZero(t)))}
		for i := 0; i < deg; i++ {
			var r *X
			switch {
			case len(roots) > 0 && t.P(1, 5):
				r = roots[0]
			case deg <= 2 && t.P(1, 5):
				r = xz(ratOf(t), nonZero(t))
			default:
				r = xq(whole(ratOf(t)))
			}
			roots = append(roots, r)
			fs = append(fs, xE("Plus", x, xE("Times", xi(-1), r)))
		}
		p = xE("Times", fs...)
		if t.P(2, 3) {
			p = xE("Expand", p)
		}
	} else {
		s := xE("Plus")
		for i := 0; i < deg; i++ {
			if t.P(2, 3) {
				s.P = append(s.P, xE("Times", xq(ratOf(t)), xE("Power", x, xi(int64(i)))))
			}
		}
		s.P = append(s.P, xE("Times", xq(nonZero(t)), xE("Power", x, xi(int64(deg)))))
		p = s
	}
	l, r := p, xi(0)
	switch t.W(3, 1, 1) {
	case 1:
		// Some of it on the right.
		k := xE("Plus", xq(ratOf(t)), xE("Times", xq(ratOf(t)), x))
		l, r = xE("Expand", xE("Plus", p, k)), k
	case 2:
		k := xq(ratOf(t))
		l, r = xE("Plus", p, k), k
	}
	l, r = disguise(t, l, r)
	t.Case("%s == %s", l, r)
	t.NontrivialIf(deg > 1)
	call, got := solveEq(t, es, l, r, "x")
	sols, ok := solutions(t, call, got, "x")
	if !ok {
		if deg < 4 {
			t.Failf("%s of degree %d is not solved: %s", call, deg, got)
		}
		t.Label("unsolved")
		return
	}
	if len(sols) > deg || len(sols) == 0 {
		t.Failf("%s of degree %d has the solutions %s", call, deg, got)
	}
	sound(t, call, got, [][2]*X{{l, r}}, sols, false)
	for _, v := range roots {
		if !has(sols, "x", toC(v)) {
			t.Failf("%s is %s, without the root %s", call, got, v)
		}
	}
}

func nonZero(t *T) *big.Rat {
	r := ratOf(t)
	if r.Sign() == 0 {
		return big.NewRat(1, 1)
	}
	return r
}

// solveChain solves f(x) == f(x0) for compositions f in which x occurs once.
func solveChain(t *T) {
	es := t.ES()
	x0 := xq(ratOf(t))
	f := glo("x")
	complete := true
	depth := t.Int(1, 3)
	periodic, branches, cut := 0, 0, false
	for i := 0; i < depth; i++ {
		at := calcEnv{vals: map[string]complex128{"Global`x": toC(x0)}}
		v := at.evalC(f)
		if at.bad || at.scale > 1e3 {
			t.Discard()
		}
		if cmplx.Abs(v) > 50 {
			complete = false // Perhaps among members of a family further out.
		}
		if real(v) < 0 && math.Abs(imag(v)) < 1e-9 {
			cut = true // On the cut of roots and logarithms.
		}
		switch t.W(4, 4, 2, 3, 2, 2, 2, 1, 2, 1, 1) {
		case 0:
			f = xE("Plus", f, pbt.Of(t, xq(ratOf(t)), sys("Pi"), xE("Sqrt", xi(2))))
		case 1:
			f = xE("Times", pbt.Of(t, xq(nonZero(t)), xq(nonZero(t)), sys("Pi"), xE("Sqrt", xi(3)), xi(-1)), f)
		case 2:
			f = xE("Power", f, xi(-1))
		case 3:
			n := int64(t.Int(2, 5))
			if n > 2 {
				branches++
			}
			f = xE("Power", f, xi(n))
		case 4:
			f = xE("Sqrt", f)
		case 5:
			f = xE("Power", f, pbt.Of(t, xq(big.NewRat(1, 3)), xq(big.NewRat(1, 2)), xq(big.NewRat(1, 5)), xq(big.NewRat(1, 4))))
		case 6:
			f = xE("Log", f)
			branches++
		case 7:
			// Complex arguments are not found.
			f = xE("Abs", f)
			if math.Abs(imag(v)) > 1e-12 {
				complete = false
			}
		case 8:
			f = xE("Power", pbt.Of(t, sys("E"), xi(2), xi(3), xi(10)), f)
			periodic++
		case 9:
			f = xE(pbt.Of(t, "Sin", "Cos", "Tan", "Cot", "Sec", "Csc", "Cosh"), f)
			periodic++
		case 10:
			branches++
			if math.Abs(real(v)) >= 1 {
				complete = false
			}
			f = xE(pbt.Of(t, "ArcSin", "ArcCos", "ArcTan"), f)
		}
	}
	if periodic+branches > 1 {
		t.Discard() // The answers become very large.
	}
	root := func(y *X) bool {
		return y.head("Log") || y.head("Power") && len(y.P) == 3 && y.P[2].K == 'r'
	}
	e := ev(es, f)
	if cut && contains(e, root) {
		complete = false // Rounding decides on which side of it the check takes place.
	}
	if contains(e, func(y *X) bool { return root(y) && y.head("Power") && y.P[2].rat().Num().CmpAbs(big.NewInt(1)) != 0 }) {
		t.Discard() // Powers with other exponents are inverted with a warning.
	}
	var r *X
	if t.P(5, 6) {
		r = substX(f, map[string]*X{"x": x0})
	} else {
		r = xq(ratOf(t)) // Perhaps without a solution.
		complete = false
	}
	if !moderate(r) {
		t.Discard()
	}
	l, r := disguise(t, f, r)
	t.Case("%s == %s", l, r)
	t.NontrivialIf(depth > 1)
	if undefined(ev(es, l)) || undefined(ev(es, r)) {
		t.Discard()
	}
	if e := (calcEnv{vals: map[string]complex128{"Global`x": toC(x0)}}); complete {
		e.evalC(f)
		if e.bad || e.scale > 1e4 {
			t.Discard()
		}
	}
	call, got := solveEq(t, es, l, r, "x")
	sols, ok := solutions(t, call, got, "x")
	if !ok {
		t.Label("unsolved")
		return
	}
	sound(t, call, got, [][2]*X{{l, r}}, sols, false)
	if complete && !has(sols, "x", toC(x0)) {
		t.Failf("%s is %s, without x -> %s", call, got, x0)
	}
}

// solveSymbolic solves equations with other symbols in them.
func solveSymbolic(t *T) {
	es := t.ES()
	x := glo("x")
	coef := func() *X {
		switch t.W(3, 2, 2) {
		case 0:
			return glo(pbt.Of(t, "a", "b", "y"))
		case 1:
			return xq(nonZero(t))
		}
		return pbt.Of(t, xE("Plus", glo("a"), xi(1)), xE("Times", glo("a"), glo("b")), xE("Power", glo("y"), xi(2)), xE("Plus", glo("a"), glo("b")))
	}
	var l, r *X
	switch t.W(3, 3, 2, 1, 2) {
	case 0:
		l, r = xE("Plus", xE("Times", coef(), x), coef()), coef()
	case 1:
		l, r = xE("Plus", xE("Times", coef(), xE("Power", x, xi(2))), xE("Times", coef(), x), coef()), xi(0)
		if t.P(1, 3) {
			r = coef()
		}
	case 2:
		l, r = xE("Power", xE("Plus", xE("Times", coef(), x), coef()), xi(int64(t.Int(2, 5)))), coef()
	case 3:
		l, r = xE("Plus", xE("Times", coef(), x), coef()), xE("Times", coef(), x)
	case 4:
		l = pbt.Of(t, xE("Power", sys("E"), x), xE("Tan", x), xE("Sin", x), xE("Cos", x), xE("Cosh", x), xE("Sec", x), xE("Csc", x), xE("Cot", x), xE("Log", x), xE("Power", x, xi(-1)), xE("Power", glo("b"), x))
		l, r = xE("Plus", xE("Times", coef(), l), coef()), coef()
	}
	l, r = disguise(t, l, r)
	t.Case("%s == %s", l, r)
	t.Nontrivial()
	call, got := solveEq(t, es, l, r, "x")
	sols, ok := solutions(t, call, got, "x")
	if !ok {
		t.Label("unsolved")
		return
	}
	sound(t, call, got, [][2]*X{{l, r}}, sols, true)
}

// solveSystem solves two linear equations.
func solveSystem(t *T) {
	es := t.ES()
	x, y := glo("x"), glo("y")
	sx, sy := ratOf(t), ratOf(t)
	var m [2][2]*big.Rat
	for i := range m {
		for j := range m[i] {
			m[i][j] = ratOf(t)
		}
	}
	if t.P(1, 6) {
		k := ratOf(t)
		for j := range m[1] {
			m[1][j] = new(big.Rat).Mul(k, m[0][j])
		}
	}
	det := new(big.Rat).Sub(new(big.Rat).Mul(m[0][0], m[1][1]), new(big.Rat).Mul(m[0][1], m[1][0]))
	var eqs [][2]*X
	var list []*X
	usable := true
	for i := range m {
		c := new(big.Rat).Add(new(big.Rat).Mul(m[i][0], sx), new(big.Rat).Mul(m[i][1], sy))
		if det.Sign() == 0 && t.Bool() {
			c = ratOf(t)
		}
		if m[i][0].Sign() == 0 && m[i][1].Sign() == 0 {
			usable = false
		}
		l, r := xE("Plus", xE("Times", xq(m[i][0]), x), xE("Times", xq(m[i][1]), y)), xq(c)
		if t.P(1, 3) {
			k := xq(ratOf(t))
			l, r = xE("Plus", l, k), xE("Plus", r, k)
		}
		if t.P(1, 4) {
			// A part on the other side.
			p := xE("Times", xq(m[i][1]), y)
			l, r = xE("Times", xq(m[i][0]), x), xE("Plus", xq(c), xE("Times", xi(-1), p))
		}
		l, r = disguise(t, l, r)
		eqs = append(eqs, [2]*X{l, r})
		list = append(list, xE("Equal", l, r))
	}
	vars := []*X{x, y}
	if t.P(1, 3) {
		vars = []*X{y, x}
	}
	call := xE("Solve", xl(list...), xl(vars...))
	t.Case("%s", call)
	t.NontrivialIf(det.Sign() != 0)
	if !usable {
		t.Discard()
	}
	got := ev(es, call)
	sols, ok := solutions(t, call, got, "x", "y")
	if !ok {
		if det.Sign() != 0 {
			t.Failf("%s has a solution but is not solved: %s", call, got)
		}
		t.Label("unsolved")
		return
	}
	for _, s := range sols {
		// One unknown may stay free.
		at := map[string]complex128{"Global`x": complex(float64(t.Int(-9, 9))/4, 0), "Global`y": complex(float64(t.Int(-9, 9))/4, 0)}
		if len(s) == 2 {
			for v := range s {
				delete(at, "Global`"+v)
			}
		}
		holdsAt(t, call, got, eqs, s, at, []int64{0})
	}
	if det.Sign() != 0 {
		if len(sols) != 1 || !has(sols, "x", complex(toF(sx), 0)) || !has(sols, "y", complex(toF(sy), 0)) {
			t.Failf("%s is %s instead of x = %s, y = %s", call, got, sx, sy)
		}
	}
}

func toF(r *big.Rat) float64 { f, _ := r.Float64(); return f }

// solvePowers solves equations that are quadratic in a power of the unknown.
func solvePowers(t *T) {
	es := t.ES()
	x := glo("x")
	e := pbt.Of(t, big.NewRat(1, 2), big.NewRat(1, 3), big.NewRat(-1, 1), big.NewRat(-1, 2), big.NewRat(1, 4))
	r1, r2 := ratOf(t), ratOf(t)
	sum, prod := new(big.Rat).Add(r1, r2), new(big.Rat).Mul(r1, r2)
	sum.Neg(sum)
	e2 := new(big.Rat).Mul(e, big.NewRat(2, 1))
	l := xE("Plus", xE("Power", x, xq(e2)), xE("Times", xq(sum), xE("Power", x, xq(e))), xq(prod))
	l, r := disguise(t, l, xi(0))
	t.Case("%s == %s", l, r)
	t.NontrivialIf(r1.Cmp(r2) != 0)
	call, got := solveEq(t, es, l, r, "x")
	sols, ok := solutions(t, call, got, "x")
	if !ok {
		t.Label("unsolved")
		return
	}
	sound(t, call, got, [][2]*X{{l, r}}, sols, false)
	for _, v := range []*big.Rat{r1, r2} {
		// x = v^(1/e) is a solution for every positive v.
		if v.Sign() > 0 {
			w := cmplx.Pow(complex(toF(v), 0), complex(1/toF(e), 0))
			if !has(sols, "x", w) {
				t.Failf("%s is %s, without x = %v", call, got, w)
			}
		}
	}
}
