package props

import (
	"fmt"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C15",
		Title: "Control flow executes exactly the code it should",
		Rule:  "programs: at least two different control or scoping constructs run; undecided: the construct cannot be decided and has branches with side effects",
		Facets: []pbt.Facet{
			{Name: "programs", Quick: 6000, Thorough: 200000, Batch: 100, Run: func(t *T) { runProg(t, false) }},
			{Name: "undecided", Quick: 800, Thorough: 10000, Batch: 50, Run: undecidedFlow},
		},
	})
}

// undecidedFlow: an undecided If, a Switch nothing matches and a Which with no
// true condition run none of their branches; deciding the condition later runs
// the right one.
func undecidedFlow(t *T) {
	es := t.ES()
	u, c := glo(fmt.Sprintf("u%dfl", t.Index)), glo(fmt.Sprintf("c%dfl", t.Index))
	r := glo(fmt.Sprintf("r%dfl", t.Index))
	ev(es, xE("ClearAll", u))
	ev(es, xE("Set", c, xl()))
	mark := func(n int64) *X {
		return xE("CompoundExpression", xE("Set", c, xE("Append", c, xi(n))), xi(n))
	}
	cond := pbt.Of(t, func() *X { return u }, func() *X { return xE("Less", u, xi(3)) }, func() *X { return xE("Equal", u, xi(2)) },
		func() *X { return xE("Greater", xi(5), xE("Plus", u, xi(1))) })()
	when := func(v int64) bool {
		switch {
		case cond.head("Less"):
			return v < 3
		case cond.head("Equal"):
			return v == 2
		case cond.head("Greater"):
			return 5 > v+1
		}
		return false
	}
	v := int64(t.Int(0, 6))
	var x *X
	want := int64(0) // the branch once u is v
	kept := true
	wantNow := []*X{}
	switch t.W(3, 2, 2) {
	case 0:
		x = xE("If", cond, mark(1), mark(2))
		want = 2
		if when(v) {
			want = 1
		}
		if cond.K == 'y' {
			want = 0
		}
	case 1:
		x = xE("Switch", u)
		for k := int64(t.Int(1, 3)); k > 0; k-- {
			p := int64(t.Int(0, 6))
			x.P = append(x.P, xi(p), mark(10+k))
			if p == v && want == 0 {
				want = 10 + k
			}
		}
	case 2:
		// conditions that are not True are passed over
		x = xE("Which", cond, mark(1), xE("Equal", xi(1), xi(2)), mark(2))
		if t.Bool() {
			x.P = append(x.P, sys("True"), mark(3))
			wantNow = append(wantNow, xi(3))
		}
		kept = false
	}
	t.Case("%s; %s=%d", x, u, v)
	t.Nontrivial()
	got := ev(es, xE("Set", r, x))
	if l := ev(es, c); !xeq(l, xl(wantNow...)) {
		t.Failf("the branches %s ran before the condition was decided", l)
	}
	if kept && !got.head(x.P[0].S[len("System`"):]) {
		t.Failf("undecided, the value is %s", got)
	}
	if !kept {
		return
	}
	ev(es, xE("Set", u, xi(v)))
	got = ev(es, r)
	l := ev(es, c)
	if want == 0 {
		if !xeq(l, xl()) {
			t.Failf("with %s = %d the branches %s ran", u, v, l)
		}
		return
	}
	if !xeq(got, xi(want)) || !xeq(l, xl(xi(want))) {
		t.Failf("with %s = %d the value is %s after the branches %s, instead of branch %d", u, v, got, l, want)
	}
}
