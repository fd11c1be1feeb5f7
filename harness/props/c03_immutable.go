package props

import (
	"math/big"

	"github.com/corywalker/expreduce/expreduce/atoms"

	"verif/harness/pbt"
)

// build makes an expression of the system under test in which the symbols in
// shared stand for existing objects (not copies).
func (x *X) build(shared map[string]Ex) Ex {
	if x.K == 'y' {
		if e, ok := shared[x.S]; ok {
			return e
		}
	}
	if x.K != 'e' {
		return x.Ex()
	}
	parts := make([]Ex, len(x.P))
	for i := range x.P {
		parts[i] = x.P[i].build(shared)
	}
	return atoms.NewExpression(parts)
}

// genStored draws the kind of value programs keep: lists, calls, numbers, held code.
func genStored(t *T, es ES) *X {
	switch t.W(4, 2, 2, 2, 1) {
	case 0:
		return genList(t, t.Int(0, 2))
	case 1:
		return genInert(t, 2)
	case 2:
		return genEvaluated(t, es, 2)
	case 3:
		return xE(pbt.Of(t, "Hold", "HoldComplete", "HoldForm"), genCall(t, es, 0))
	}
	return xl(genHole(t, 'M'), genHole(t, 'Q'), genHole(t, 'V'))
}

func genUse(t *T, es ES, names []string) *X {
	return fill(t, pbt.Pick(t, templates(es)), func(k byte) *X {
		switch k {
		case 'E', 'L', 'A', 'M':
			if t.P(2, 3) {
				v := glo(pbt.Pick(t, names))
				switch t.W(6, 1, 1) {
				case 1:
					return xl(v, genHole(t, 'E'))
				case 2:
					return xE("ReleaseHold", v)
				}
				return v
			}
		case 'U':
			if t.P(1, 3) {
				return xE("Rule", genHole(t, 'P'), glo(pbt.Pick(t, names)))
			}
		}
		return genHole(t, k)
	})
}

// scramble overwrites everything reachable from a deep copy.
func scramble(t *T, e Ex, atomsToo bool) {
	switch v := e.(type) {
	case *atoms.Integer:
		if atomsToo {
			v.Val.Add(v.Val, big.NewInt(1))
		}
	case *atoms.Rational:
		if atomsToo {
			v.Num.Add(v.Num, v.Den)
		}
	case *atoms.Flt:
		if atomsToo {
			v.Val.Add(v.Val, big.NewFloat(1))
		}
	case *atoms.String:
		if atomsToo {
			v.Val += "!"
		}
	case *atoms.Symbol:
		if atomsToo {
			v.Name += "1"
		}
	case *atoms.Complex:
		if atomsToo {
			scramble(t, v.Re, true)
			scramble(t, v.Im, true)
			v.Re = atoms.NewInt(17)
		}
	case *atoms.Expression:
		for i := range v.Parts {
			scramble(t, v.Parts[i], atomsToo)
			if t.Bool() {
				v.Parts[i] = atoms.NewString("changed")
			}
		}
		v.AppendEx(atoms.NewInt(99))
		v.ClearHashes()
	}
}

var storeNames = []string{"v1", "v2", "v3"}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C03", Title: "immutability",
		Rule: "stored: values kept in variables and passed to generated calls of built-in functions, non-trivial when a call used a variable; held: result objects passed again as the same object, non-trivial likewise; copies: an expression whose copy is overwritten everywhere, non-trivial when it has a nested part",
		Facets: []pbt.Facet{
			{Name: "stored", Quick: 18000, Thorough: 250000, Batch: 250, Run: func(t *T) {
				es := t.ES()
				run(es, "ClearAll[v1, v2, v3, m]")
				want := map[string]*X{}
				for _, n := range storeNames {
					v := genStored(t, es)
					want[n] = ev(es, xE("Set", glo(n), v))
					t.Case("%s = %v", n, v)
				}
				for _, n := range storeNames {
					if got := ev(es, xE("HoldComplete", xE("Evaluate", glo(n)))); false {
						_ = got
					}
					want[n] = ev(es, glo(n))
				}
				for i := t.Int(1, 5); i > 0; i-- {
					u := genUse(t, es, storeNames)
					t.Case("%v", u)
					used := func(x *X) bool { return x.K == 'y' && want[short(x.S)] != nil }
					t.NontrivialIf(contains(u, used))
					if t.P(1, 4) && !contains(u, bigHash) {
						n := pbt.Pick(t, storeNames)
						r := ev(es, xE("Set", glo(n), u))
						_ = r
						want[n] = ev(es, glo(n))
						t.Case("  stored in %s", n)
					} else {
						ev(es, u)
					}
					for _, n := range storeNames {
						if got := ev(es, glo(n)); !xeq(got, want[n]) {
							t.Failf("%s was %v and is now %v", n, want[n], got)
						}
					}
				}
			}},
			{Name: "held", Quick: 20000, Thorough: 300000, Batch: 400, Run: func(t *T) {
				es := t.ES()
				shared := map[string]Ex{}
				want := map[string]*X{}
				for _, n := range storeNames {
					v := genStored(t, es)
					t.Case("%s: %v", n, v)
					e := es.Eval(v.Ex())
					if es.HasThrown() {
						es.Throw(nil)
						t.Discard()
					}
					shared["Global`"+n] = e
					want["Global`"+n] = from(e)
				}
				for i := t.Int(1, 5); i > 0; i-- {
					u := genUse(t, es, storeNames)
					t.Case("%v", u)
					used := func(x *X) bool { return x.K == 'y' && want[x.S] != nil }
					t.NontrivialIf(contains(u, used))
					r := es.Eval(u.build(shared))
					if es.HasThrown() {
						es.Throw(nil)
						r = atoms.NewInt(0)
					}
					rx := from(r)
					for _, n := range storeNames {
						n = "Global`" + n
						if got := from(shared[n]); !xeq(got, want[n]) {
							t.Failf("object %s was %v and is now %v", n, want[n], got)
						}
						if shared[n].Hash() != want[n].Ex().Hash() {
							t.Failf("object %s (%v) has a stale hash", n, want[n])
						}
					}
					if t.P(1, 3) && !contains(u, bigHash) {
						n := "Global`" + pbt.Pick(t, storeNames)
						shared[n], want[n] = r, rx
						t.Case("  kept as %s", short(n))
					}
				}
			}},
			{Name: "copies", Quick: 20000, Thorough: 500000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				x := genBig(t, es)
				t.Case("%v", x)
				t.NontrivialIf(size(x) > 3)
				e := x.Ex()
				if t.Bool() {
					e = es.Eval(e)
					x = from(e)
				}
				if t.Bool() {
					e.Hash()
				}
				h := x.Ex().Hash()
				var c Ex
				how := t.Int(0, 2)
				switch how {
				case 0:
					c = e.DeepCopy()
				case 1:
					c = e.Copy()
				case 2:
					ex, ok := e.(*atoms.Expression)
					if !ok {
						t.Discard()
					}
					sc := atoms.ShallowCopy(ex)
					c = sc
				}
				t.Logf("copied with %s", []string{"DeepCopy", "Copy", "ShallowCopy"}[how])
				if !xeq(from(c), x) || c.Hash() != h {
					t.Failf("the copy is %v", from(c))
				}
				if how == 2 {
					sc := c.(*atoms.Expression)
					for i := range sc.Parts {
						sc.Parts[i] = atoms.NewInt(5)
					}
					sc.AppendEx(atoms.NewInt(6))
					sc.ClearHashes()
				} else {
					scramble(t, c, how == 0)
				}
				if got := from(e); !xeq(got, x) {
					t.Failf("changing the copy changed the original to %v", got)
				}
				if e.Hash() != h {
					t.Failf("changing the copy changed the hash of the original")
				}
			}},
		},
	})
}

// Hash results are huge integers, which make loop bounds explode.
func bigHash(x *X) bool { return x.S == "System`Hash" }

func short(s string) string {
	if len(s) > 7 && s[:7] == "Global`" {
		return s[7:]
	}
	return s
}
