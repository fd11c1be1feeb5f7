package props

import (
	"fmt"
	"runtime/debug"
	"strings"
	"sync"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/pkg/expreduceapi"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C40",
		Title: "Interpreter sessions are independent and safe to use concurrently",
		Rule:  "at least two goroutines evaluate at the same time, and definitions or the state of a session change or are read by several",
		Facets: []pbt.Facet{
			{Name: "sessions", Quick: 320, Thorough: 12000, Batch: 40, Run: conSessions},
			{Name: "create", Quick: 8, Thorough: 160, Batch: 1, Run: conCreate},
			{Name: "parallel", Quick: 400, Thorough: 12000, Batch: 50, Run: conParallel},
			{Name: "shared", Quick: 240, Thorough: 8000, Batch: 30, Run: conShared},
		},
		Known: map[string]func(t *T){"parallel-dynamic": knownParallelDynamic},
	})
}

// Constructs that give a symbol a value for a while, like Block, Table and what
// uses them, do so for all goroutines of the session. They are left out of the
// bodies of ParallelTable.
func knownParallelDynamic(t *T) {
	es := t.ES()
	for k := 0; k < 50; k++ {
		want(t, es, parse(es, "ParallelTable[Expand[(x + i)^2], {i, 30}] === Table[Expand[(x + i)^2], {i, 30}]"), sys("True"))
	}
}

// Sessions of this process, which several cases use.
var conPool []ES

func pooled(n int) []ES {
	for len(conPool) < n {
		conPool = append(conPool, pbt.NewES())
	}
	return conPool[:n]
}

const conReset = "$Context = \"Global`\"; ClearAll[pa, pb, pf, pg, pm, pr, pt]; SeedRandom[1]"

var conLines = []string{
	"pr = RandomReal[]",
	"Table[RandomReal[{1, 5}], {i, 3}]",
	"SeedRandom[%d]",
	"pr = 1; Do[pr = {pr, %d}, {i, 3}]; Length[Flatten[{pr}]]",
	"Module[{v = %d}, v = v + 1; v*2]",
	"Module[{g}, g[0] = 1; g[n_] := n*g[n - 1]; g[8]]",
	"pm[n_] := pm[n] = pm[n - 1] + n; pm[0] = %d; pm[12]",
	"D[Sin[x]^%d + x^x, x]",
	"Expand[(x + y + %d)^5]",
	"Catch[Do[If[i > %d, Throw[i]], {i, 100}]]",
	"Reap[Do[Sow[i^2], {i, 3}]; Sow[%d]]",
	"ToString[DownValues[pf], InputForm]",
	"DownValues[pm]",
	"Solve[x^2 - %d == 0, x]",
	"Block[{pa = %d}, {pa, pb, pf[pa]}]",
	"Attributes[pf]",
	"pt = Sort[{c, %d, a, \"s\", 2.5, b[1]}]",
	"{x, y, z} /. {x -> %d, z :> w}",
	"StringJoin[\"a\", ToString[%d*x]]",
	"BeginPackage[\"pk`\"]; pkv = %d; EndPackage[]; pkv",
	"Begin[\"pq`\"]; pqv = %d; pqr = {pqv, Global`x, $Context}; End[]",
	"Trace[1 + %d]",
	"f[#1, %d]& /@ {1, 2, 3}",
	"Table[{i, j}, {i, 2}, {j, i, %d}]",
	"Union[{3, 1, %d, 1}]",
	"Integrate[x^%d, x]",
}

type conStep struct {
	x    *X
	text string
}

func (s conStep) String() string {
	if s.x != nil {
		return s.x.String()
	}
	return s.text
}

func genConProgram(t *T, es ES) []conStep {
	steps := []conStep{}
	for n := t.Int(2, 8); n > 0; n-- {
		switch t.W(4, 3, 3, 3) {
		case 0:
			s := pbt.Pick(t, conLines)
			if strings.Contains(s, "%d") {
				s = fmt.Sprintf(s, t.Int(1, 6))
			}
			steps = append(steps, conStep{text: s})
		case 1:
			steps = append(steps, conStep{x: genChange(t)})
		case 2:
			steps = append(steps, conStep{x: genCurrent(t, 2, nil)})
		case 3:
			steps = append(steps, conStep{x: genCall(t, es, 1)})
		}
	}
	return steps
}

// runCon gives the result of every step and how it is printed.
func runCon(es ES, steps []conStep) []string {
	run(es, conReset)
	out := []string{}
	for _, s := range steps {
		var v *X
		if s.x != nil {
			v = ev(es, s.x)
		} else {
			v = run(es, s.text)
		}
		out = append(out, v.String()+"   "+printed(es, v.Ex(), "InputForm"))
	}
	return out
}

// The numbers of local variables go on in a session.
func localNames(s string) bool { return strings.Contains(s, "$") }

// together runs functions at the same time, and panics if one of them does.
func together(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan bool)
	died := make([]any, len(fs))
	for k, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					died[k] = fmt.Sprintf("in a goroutine: %v\n%s", r, debug.Stack())
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
	for _, r := range died {
		if r != nil {
			panic(r)
		}
	}
}

func conSessions(t *T) {
	n := t.Int(2, 3)
	pool := pooled(n)
	progs := make([][]conStep, n)
	log := []string{}
	same := t.P(1, 5)
	for k := range progs {
		if k > 0 && same {
			progs[k] = progs[0]
		} else {
			progs[k] = genConProgram(t, pool[0])
		}
		log = append(log, fmt.Sprintf("session %d: %v", k, progs[k]))
	}
	t.Case("%s", strings.Join(log, "\n"))
	t.Nontrivial()
	alone := make([][]string, n)
	for k := range progs {
		alone[k] = runCon(pool[k], progs[k])
	}
	got := make([][]string, n)
	fs := []func(){}
	for k := range progs {
		fs = append(fs, func() { got[k] = runCon(pool[k], progs[k]) })
	}
	together(fs...)
	for k := range progs {
		for i := range progs[k] {
			if localNames(alone[k][i]) {
				continue
			}
			if got[k][i] != alone[k][i] {
				t.Failf("session %d: %s gives %s alone and %s next to other sessions", k, progs[k][i], clip(alone[k][i]), clip(got[k][i]))
			}
		}
	}
}

// conCreate creates sessions while others evaluate.
func conCreate(t *T) {
	pool := pooled(1)
	prog := genConProgram(t, pool[0])
	t.Case("%v", prog)
	t.Nontrivial()
	alone := runCon(pool[0], prog)
	n := t.Int(1, 2)
	got := make([][]string, n+1)
	fs := []func(){}
	for k := 0; k < n; k++ {
		fs = append(fs, func() { got[k] = runCon(expreduce.NewEvalState(), prog) })
	}
	fs = append(fs, func() { got[n] = runCon(pool[0], prog) })
	together(fs...)
	for k := range got {
		for i := range prog {
			if localNames(alone[i]) || strings.Contains(alone[i], "RandomReal") {
				continue
			}
			if got[k][i] != alone[i] {
				t.Failf("%s gives %s alone and %s in a session created next to others", prog[i], clip(alone[i]), clip(got[k][i]))
			}
		}
	}
}

// genPure draws a body without side effects that may use the iterator.
func genPure(t *T, depth int, it *X) *X {
	if depth <= 0 || t.P(1, 6) {
		return pbt.Of(t, it, it, glo("x"), glo("pa"), xi(int64(t.Near(6))), glo("stored"))
	}
	sub := func() *X { return genPure(t, depth-1, it) }
	switch t.W(3, 3, 3, 2, 2, 2, 2, 2, 1, 1, 1, 1, 2) {
	case 12: // local names must not be shared
		v := glo("lv")
		return xE("Module", xl(xE("Set", v, sub())), xE("CompoundExpression", xE("Set", v, xl(v, it)), xl(v, sub())))
	case 1:
		return xE("Times", sub(), sub())
	case 2:
		return xG("pf", sub())
	case 3:
		return xl(sub(), sub())
	case 4:
		return xE("Sort", xl(sub(), sub(), sub()))
	case 5:
		return xE("ReplaceAll", sub(), xl(xE("Rule", pbt.Of(t, glo("x"), patn("u", xE("Blank", sys("Integer")))), pbt.Of(t, xi(7), glo("y")))))
	case 6:
		return xE("Map", xE("Function", xl(slot(1), sub())), xl(sub(), sub()))
	case 7:
		return xG("pg", sub(), sub())
	case 8:
		return xE("If", xE("Greater", it, xi(2)), sub(), sub())
	case 9:
		return xE("MatchQ", sub(), pbt.Of(t, xE("Blank", sys("Integer")), xE("List", xE("BlankSequence")), xE("Plus", patn("u", blank()), patn("w", blank()))))
	case 10:
		return xE("D", xE("Power", glo("x"), pbt.Of(t, it, xi(2))), glo("x"))
	case 11:
		return xE("StringJoin", xE("ToString", sub(), sys("InputForm")), xs("s"))
	}
	return xE("Plus", sub(), sub())
}

func conParallel(t *T) {
	es := pooled(1)[0]
	run(es, conReset)
	for n := t.Int(0, 4); n > 0; n-- {
		c := pbt.Of(t,
			"pf[u_] := {u, pa}", "pf[u_Integer] := u^2 + 1", "pf[u_] := pf[u] + 1 /; False",
			"pf[n_Integer] := If[n <= 0, 1, n*pf[n - 1]] /; n < 9", "SetAttributes[pg, Orderless]", "SetAttributes[pg, {Flat, Listable}]",
			"pg[u_, u_] := same[u]", "pa = 5", "pa := pb + 1", "pb = 3",
			"stored = {x + pa, f[pa, 2], Sqrt[8]}", "stored = Expand[(x + y)^4]", "stored := pf[2]")
		t.Logf("%s", c)
		run(es, c)
	}
	it := glo("pi1")
	body := genPure(t, 3, it)
	iter := xl(it, xi(int64(t.Int(2, 12))))
	x := xE("ParallelTable", body, iter)
	t.Case("%s", x)
	t.NontrivialIf(contains(body, func(y *X) bool { return y.K == 'y' && strings.HasPrefix(y.S, "Global`p") || y.S == "Global`stored" }))
	w := ev(es, xE("Table", body, iter))
	if got := ev(es, x); !xeq(got, w) {
		t.Failf("it is %s, and Table gives %s", got, w)
	}
	// Several goroutines evaluate in the same session.
	n := t.Int(2, 4)
	got := make([]*X, n)
	fs := []func(){}
	alone := ev(es, xE("Part", xE("Table", body, xl(it, xi(3), xi(3))), xi(1)))
	for k := 0; k < n; k++ {
		fs = append(fs, func() { got[k] = ev(es, substSyms(body, map[string]*X{"pi1": xi(3)})) })
	}
	together(fs...)
	for k := range got {
		if !xeq(got[k], alone) {
			t.Failf("with 3, a goroutine gets %s instead of %s", got[k], alone)
		}
	}
}

// conShared uses the definitions of one session from several goroutines.
func conShared(t *T) {
	es := pooled(1)[0]
	tag := fmt.Sprint(t.Index) + "cs"
	n := t.Int(2, 4)
	type op struct {
		kind int
		name string
		val  int
	}
	ops := make([][]op, n)
	final := map[string]map[int]bool{}
	rules := map[string]map[int]bool{} // everybody defines the same function
	log := []string{}
	for k := range ops {
		for m := t.Int(1, 12); m > 0; m-- {
			o := op{kind: t.W(4, 2, 2, 1, 1, 5), name: fmt.Sprintf("s%d%s", t.Int(0, 3), tag), val: t.Int(1, 99)}
			if t.Bool() { // of this goroutine only
				o.name = fmt.Sprintf("o%d%s", k, tag)
			}
			ops[k] = append(ops[k], o)
		}
		last := map[string]int{}
		for _, o := range ops[k] {
			if o.kind == 0 {
				last[o.name] = o.val
			}
			if o.kind == 5 {
				if rules[o.name] == nil {
					rules[o.name] = map[int]bool{}
				}
				rules[o.name][o.val] = true
			}
		}
		for s, v := range last {
			if final[s] == nil {
				final[s] = map[int]bool{}
			}
			final[s][v] = true
		}
		log = append(log, fmt.Sprint(ops[k]))
	}
	t.Case("%s", strings.Join(log, "\n"))
	t.Nontrivial()
	bad := make([]string, n)
	fs := []func(){}
	for k := range ops {
		fs = append(fs, func() {
			for _, o := range ops[k] {
				sym := glo(o.name)
				switch o.kind {
				case 0:
					ev(es, xE("Set", sym, xi(int64(o.val))))
				case 1:
					v := ev(es, xl(sym, xE("Plus", xi(1), xi(2))))
					if !v.head("List") || len(v.P) != 3 || !xeq(v.P[2], xi(3)) {
						bad[k] = v.String()
					}
				case 2:
					es.MarkSeen("Global`" + o.name)
				case 3:
					var d expreduceapi.Def
					d, _ = es.GetDefined("Global`" + o.name)
					_ = len(d.Downvalues)
				case 5:
					ev(es, xE("Set", xG("f"+o.name, xi(int64(o.val))), xi(int64(o.val))))
				case 4:
					es.GetDefinedMap().CopyDefs()
				}
			}
		})
	}
	together(fs...)
	for k, s := range bad {
		if s != "" {
			t.Failf("goroutine %d reads %s", k, s)
		}
	}
	for s, vals := range rules {
		for i := range vals {
			if v := ev(es, xG("f"+s, xi(int64(i)))); !xeq(v, xi(int64(i))) {
				t.Failf("the definition f%s[%d] is lost", s, i)
			}
		}
	}
	for s, vals := range final {
		v := ev(es, glo(s))
		if v.K != 'i' || !vals[int(v.N.Int64())] {
			t.Failf("%s is %s in the end", s, v)
		}
	}
}
