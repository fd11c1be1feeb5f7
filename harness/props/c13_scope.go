package props

import (
	"fmt"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C13",
		Title: "Scoping constructs isolate their variables",
		Rule:  "programs: at least two different control or scoping constructs run; definitions: a scope changes a function that is defined outside",
		Facets: []pbt.Facet{
			{Name: "programs", Quick: 6000, Thorough: 200000, Batch: 100, Run: func(t *T) { runProg(t, true) }},
			{Name: "definitions", Quick: 1500, Thorough: 40000, Batch: 50, Run: scopeDefs},
		},
	})
}

type sdNode struct {
	op   string // set, is, gis, clear, throw, Module, Block, catch
	i, v int64
	name string
	kids []*sdNode
}

// scopeDefs localises functions with definitions and attributes.
func scopeDefs(t *T) {
	es := t.ES()
	nm := func(s string) *X { return glo(fmt.Sprintf("%s%dsd", s, t.Index)) }
	names := []string{"f", "h"}
	log := nm("log")
	ev(es, xE("Set", log, xl()))
	type table map[int64]int64
	outer := map[string]*table{}
	blank := func() *X { return xE("Pattern", glo("i"), xE("Blank")) }
	attrs := map[string]*X{}
	for _, n := range names {
		ev(es, xE("ClearAll", nm(n)))
		tb := table{}
		for i := int64(1); i <= 3; i++ {
			if t.P(2, 3) {
				tb[i] = int64(t.Int(10, 19))
				ev(es, xE("Set", xe(nm(n), xi(i)), xi(tb[i])))
			}
		}
		if t.P(1, 3) {
			ev(es, xE("SetAttributes", nm(n), sys(pbt.Of(t, "Listable", "OneIdentity", "NHoldAll"))))
		}
		attrs[n] = ev(es, xE("Attributes", nm(n)))
		outer[n] = &tb
		// a function outside that sees whatever is current
		ev(es, xE("SetDelayed", xe(nm("g"+n), blank()), xe(nm(n), glo("i"))))
	}
	downs := map[string]*X{}
	for _, n := range names {
		downs[n] = ev(es, xE("DownValues", nm(n)))
	}

	var gen func(depth int, local map[string]bool, catch bool) *sdNode
	gen = func(depth int, local map[string]bool, catch bool) *sdNode {
		n := &sdNode{name: pbt.Pick(t, names), i: int64(t.Int(1, 3)), v: int64(t.Int(10, 19))}
		w := []int{4, 4, 3, 1, 1, 4, 4, 1}
		if depth == 0 {
			w[5], w[6], w[7] = 0, 0, 0
		}
		n.op = []string{"is", "set", "gis", "clear", "throw", "Module", "Block", "catch"}[t.W(w...)]
		if !local[n.name] && (n.op == "set" || n.op == "clear") {
			n.op = "is" // the global definitions stay as they are
		}
		if n.op == "throw" && !catch {
			n.op = "is"
		}
		switch n.op {
		case "Module", "Block", "catch":
			in := map[string]bool{}
			for k := range local {
				in[k] = true
			}
			if n.op == "catch" {
				catch = true
			} else {
				in[n.name] = true
			}
			for k := t.Int(1, 4); k > 0; k-- {
				n.kids = append(n.kids, gen(depth-1, in, catch))
			}
		}
		return n
	}
	root := &sdNode{op: "catch"}
	for k := t.Int(1, 3); k > 0; k-- {
		root.kids = append(root.kids, gen(3, map[string]bool{}, true))
	}
	var x func(n *sdNode) *X
	seq := func(kids []*sdNode) *X {
		s := xE("CompoundExpression")
		for _, k := range kids {
			s.P = append(s.P, x(k))
		}
		s.P = append(s.P, sys("Null"))
		return s
	}
	note := func(v *X) *X { return xE("Set", log, xE("Append", log, v)) }
	x = func(n *sdNode) *X {
		switch n.op {
		case "set":
			return xE("Set", xe(nm(n.name), xi(n.i)), xi(n.v))
		case "is":
			return note(xE("If", xE("SameQ", xE("Head", xe(nm(n.name), xi(n.i))), sys("Integer")), xe(nm(n.name), xi(n.i)), xs("none")))
		case "gis":
			g := xe(nm("g"+n.name), xi(n.i))
			return note(xE("If", xE("SameQ", xE("Head", g), sys("Integer")), g, xs("none")))
		case "clear":
			return xE("Clear", nm(n.name))
		case "throw":
			return xE("Throw", xi(n.v))
		case "catch":
			return xE("Catch", seq(n.kids))
		}
		return xE(n.op, xl(nm(n.name)), seq(n.kids))
	}
	var want []*X
	nontrivial := false
	// lexical: names that are a Module's own; dynamic: the current global tables
	var do func(n *sdNode, lex map[string]*table) bool
	do = func(n *sdNode, lex map[string]*table) bool {
		tb := outer[n.name]
		if lex[n.name] != nil && n.op != "gis" {
			tb = lex[n.name]
		}
		switch n.op {
		case "set":
			(*tb)[n.i] = n.v
			nontrivial = true
		case "clear":
			*tb = table{}
		case "is", "gis":
			if v, ok := (*tb)[n.i]; ok {
				want = append(want, xi(v))
			} else {
				want = append(want, xs("none"))
			}
		case "throw":
			return true
		case "catch", "Module", "Block":
			in := map[string]*table{}
			for k, v := range lex {
				in[k] = v
			}
			switch {
			case n.op == "Module":
				in[n.name] = &table{}
			case n.op == "Block" && lex[n.name] != nil:
				in[n.name] = &table{}
			case n.op == "Block":
				was := outer[n.name]
				outer[n.name] = &table{}
				defer func() { outer[n.name] = was }()
			}
			for _, k := range n.kids {
				if do(k, in) {
					return n.op != "catch"
				}
			}
		}
		return false
	}
	do(root, map[string]*table{})
	src := x(root)
	t.Case("%s", src)
	t.NontrivialIf(nontrivial)
	ev(es, src)
	if got := ev(es, log); !xeq(got, xl(want...)) {
		t.Failf("it notes %s instead of %s", got, xl(want...))
	}
	for _, n := range names {
		if got := ev(es, xE("DownValues", nm(n))); !xeq(got, downs[n]) {
			t.Failf("afterwards the definitions of %s are %s instead of %s", nm(n), got, downs[n])
		}
		if got := ev(es, xE("Attributes", nm(n))); !xeq(got, attrs[n]) {
			t.Failf("afterwards the attributes of %s are %s instead of %s", nm(n), got, attrs[n])
		}
	}
}
