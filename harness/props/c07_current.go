package props

import (
	"strings"

	"verif/harness/pbt"
)

// The symbols of a history start with p, those of its replay with q, so that
// both sort alike among themselves and among all others.
func renamed(x *X, to string) *X {
	if x.K == 'y' && len(x.S) == 9 && strings.HasPrefix(x.S, "Global`") && (x.S[7] == 'p' || x.S[7] == 'q') {
		return glo(to + x.S[8:])
	}
	if len(x.P) == 0 {
		return x
	}
	y := *x
	y.P = make([]*X, len(x.P))
	for i := range x.P {
		y.P[i] = renamed(x.P[i], to)
	}
	return &y
}

// genCurrent draws an expression over the defined symbols: functions pf and
// pg, variables pa and pb, and the stored variables given.
func genCurrent(t *T, depth int, stored []string) *X {
	if depth <= 0 || t.P(1, 5) {
		switch t.W(3, 3, 1, 3) {
		case 0:
			return xi(int64(t.Near(3)))
		case 1:
			return glo(pbt.Of(t, "pa", "pb"))
		case 2:
			return glo("x")
		}
		if len(stored) > 0 {
			return glo(pbt.Pick(t, stored))
		}
		return glo("pa")
	}
	sub := func() *X { return genCurrent(t, depth-1, stored) }
	switch t.W(6, 2, 2, 2, 1, 1, 1, 1) {
	case 0:
		return xG("pf", sub())
	case 1:
		return xG("pf", sub(), sub())
	case 2:
		return xG("pg", sub())
	case 3:
		return xl(sub(), sub())
	case 4:
		return xE("Plus", sub(), sub())
	case 5:
		return xE("Times", xi(2), sub())
	case 6:
		return xG("h", sub(), sub())
	}
	held := func() *X { return genCurrent(t, depth-1, nil) }
	return xE("If", xE("Greater", sub(), xi(0)), held(), held())
}

// genChange draws a change of definitions. Values of pa use pb, those of pf use
// both, those of pg use all, so that every evaluation ends.
func genChange(t *T) *X {
	num := func() *X { return xi(int64(t.Near(3))) }
	pat := func() (*X, *X) {
		switch t.W(4, 2, 2, 1, 1) {
		case 1:
			return patn("u", xE("Blank", sys("Integer"))), glo("u")
		case 2:
			return num(), xi(7)
		case 3:
			return xE("PatternTest", patn("u", blank()), xE("Function", xE("Greater", slot(1), glo("pb")))), glo("u")
		case 4:
			return xE("Condition", patn("u", blank()), xE("Less", glo("u"), glo("pa"))), glo("u")
		}
		return patn("u", blank()), glo("u")
	}
	val := func(u *X, fs ...string) *X {
		switch t.W(2, 2, 2, 1, 1) {
		case 0:
			return xE("Plus", u, xi(int64(10*t.Int(1, 3))))
		case 1:
			return xG("h", u, glo(pbt.Of(t, "pa", "pb")))
		case 2:
			if len(fs) > 0 {
				return xl(xG(pbt.Pick(t, fs), u))
			}
			return xl(u, u)
		case 3:
			return xE("Plus", u, glo("pb"))
		}
		return num()
	}
	set := func(lhs, rhs *X) *X {
		r := rhs
		if t.P(1, 4) {
			r = xE("Condition", rhs, xE("Greater", glo(pbt.Of(t, "pa", "pb")), xi(0)))
			return xE("SetDelayed", lhs, r)
		}
		return xE(pbt.Of(t, "SetDelayed", "SetDelayed", "Set"), lhs, r)
	}
	switch t.W(6, 2, 3, 4, 4, 2, 2, 1, 1) {
	case 0:
		p, u := pat()
		return set(xG("pf", p), val(u))
	case 1:
		p, u := pat()
		return set(xG("pf", p, patn("w", blank())), val(u))
	case 2:
		p, u := pat()
		return set(xG("pg", p), val(u, "pf"))
	case 3:
		return xE("Set", glo("pb"), num())
	case 4:
		return xE(pbt.Of(t, "Set", "SetDelayed"), glo("pa"), pbt.Of(t, num(), glo("pb"), xE("Plus", glo("pb"), xi(1)), xG("h", glo("pb"))))
	case 5:
		return xE("Clear", glo(pbt.Of(t, "pa", "pb", "pf", "pg")))
	case 6:
		return xE("SetAttributes", glo(pbt.Of(t, "pf", "pg")), sys(pbt.Of(t, "Orderless", "Listable")))
	case 7:
		return xE("ClearAttributes", glo(pbt.Of(t, "pf", "pg")), sys(pbt.Of(t, "Orderless", "Listable")))
	}
	return xE("ClearAll", glo(pbt.Of(t, "pa", "pb", "pf", "pg")))
}

var impure = func(x *X) bool {
	return x.S == "System`Module" || x.S == "System`Hash" || x.S == "System`Trace"
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C07", Title: "current definitions",
		Rule: "current: values stored in variables or kept as objects while definitions change, non-trivial when a value is read again after a change that alters it; again: calls of built-in functions evaluated repeatedly, non-trivial when evaluation changed the call",
		Facets: []pbt.Facet{
			{Name: "current", Quick: 9000, Thorough: 250000, Batch: 300, Run: func(t *T) {
				es := t.ES()
				run(es, "ClearAll[pa, pb, pf, pg, s1, s2]")
				var changes []*X
				// replay evaluates a new copy of x under a new copy of all definitions.
				replay := func(x *X) *X {
					run(es, "ClearAll[qa, qb, qf, qg]")
					for _, c := range changes {
						ev(es, renamed(c, "q"))
					}
					return renamed(ev(es, renamed(x, "q")), "p")
				}
				var stored []string
				value := map[string]*X{}
				kept := map[string]Ex{}
				subst := func(x *X) *X { return substSyms(x, value) }
				for n := t.Int(4, 14); n > 0; n-- {
					switch t.W(5, 3, 4) {
					case 0:
						c := genChange(t)
						t.Case("%v", c)
						ev(es, c)
						changes = append(changes, c)
					case 1:
						x := genCurrent(t, 2, stored)
						name := pbt.Of(t, "s1", "s2")
						want := replay(subst(x))
						var got *X
						if t.Bool() {
							got = ev(es, xE("Set", glo(name), x))
							delete(kept, name)
						} else {
							// The object itself is kept and evaluated again later.
							kept[name] = es.Eval(x.Ex())
							got = from(kept[name])
							run(es, "ClearAll["+name+"]")
							es.Eval(xE("Set", glo(name), got).Ex())
						}
						t.Case("%s = %v", name, x)
						if !xeq(got, want) {
							t.Failf("gave %v; under a new copy of the definitions it is %v", got, want)
						}
						if value[name] == nil {
							stored = append(stored, name)
						}
						value[name] = got
					default:
						if len(stored) == 0 {
							continue
						}
						name := pbt.Pick(t, stored)
						x := glo(name)
						if t.P(1, 3) {
							x = genCurrent(t, 1, stored)
						}
						t.Case("%v", x)
						want := replay(subst(x))
						got := ev(es, x)
						t.NontrivialIf(!xeq(got, subst(x)))
						if !xeq(got, want) {
							t.Failf("gave %v; under a new copy of the definitions it is %v", got, want)
						}
						if k := kept[name]; k != nil && xeq(x, glo(name)) {
							if got := evEx(es, k); !xeq(got, want) {
								t.Failf("the object %v kept from before gave %v; under a new copy of the definitions it is %v", from(k), got, want)
							}
						}
					}
				}
			}},
			{Name: "again", Quick: 9000, Thorough: 400000, Batch: 300, Run: func(t *T) {
				es := t.ES()
				x := genCall(t, es, 2)
				if contains(x, impure) {
					t.Discard()
				}
				t.Case("%v", x)
				r := ev(es, x)
				t.NontrivialIf(!xeq(r, x))
				if contains(r, func(x *X) bool { return x.S == "Global`UNCAUGHT" }) {
					t.Discard()
				}
				if r2 := ev(es, x); !xeq(r2, r) {
					t.Failf("gave %v, then %v", r, r2)
				}
				if r3 := ev(es, r); !xeq(r3, r) {
					t.Failf("gave %v, which evaluates to %v", r, r3)
				}
				// One object, evaluated over and over.
				e := x.Ex()
				e1 := es.Eval(e)
				if got := from(es.Eval(e1)); !xeq(got, r) {
					t.Failf("evaluating the result %v again gave %v", r, got)
				}
				if got := from(es.Eval(e)); !xeq(got, r) {
					t.Failf("evaluating the same object again gave %v, not %v", got, r)
				}
			}},
		},
	})
}

// substSyms puts values in place of global symbols.
func substSyms(x *X, value map[string]*X) *X {
	if x.K == 'y' {
		if v := value[short(x.S)]; v != nil && strings.HasPrefix(x.S, "Global`") {
			return v
		}
		return x
	}
	if len(x.P) == 0 {
		return x
	}
	y := *x
	y.P = make([]*X, len(x.P))
	for i := range x.P {
		y.P[i] = substSyms(x.P[i], value)
	}
	return &y
}
