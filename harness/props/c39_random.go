package props

import (
	"fmt"
	"math/big"
	"strings"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C39",
		Title: "Random values lie in range and repeat under the same seed",
		Rule:  "an interval other than the one from 0 to 1 is drawn from, or a seed is used again after other evaluations",
		Facets: []pbt.Facet{
			{Name: "range", Quick: 3000, Thorough: 60000, Batch: 100, Run: rndRange},
			{Name: "repeat", Quick: 2000, Thorough: 40000, Batch: 50, Run: rndRepeat},
		},
	})
}

func genBound(t *T) *X {
	switch t.W(4, 2, 2, 1, 1) {
	case 1:
		return xq(genRat(t, pbt.Of(t, 4, 8, 40)))
	case 2:
		return xf(pbt.Of(t, 0.5, -0.5, 1.5, 1e-3, -1e10, 1e30, 123.25, -7.75, 1e-30))
	case 3:
		return xI(t.Big(100))
	case 4:
		return xi(0)
	}
	return xi(int64(t.Near(100)))
}

// bound gives the exact value of a number.
func bound(x *X) *big.Rat {
	if x.K == 'f' {
		r, _ := x.F.Rat(nil)
		return r
	}
	return x.rat()
}

func rndRange(t *T) {
	es := t.ES()
	lo, hi := xi(0), xi(1)
	x := xE("RandomReal")
	switch t.W(1, 3, 6) {
	case 1:
		hi = genBound(t)
		x = xE("RandomReal", hi)
	case 2:
		lo, hi = genBound(t), genBound(t)
		if t.P(1, 8) {
			hi = lo
		}
		if t.P(1, 6) && lo.K == 'i' { // narrow, far from 0
			hi = xI(new(big.Int).Add(lo.N, big.NewInt(1)))
		}
		x = xE("RandomReal", xl(lo, hi))
	}
	if x.P != nil && len(x.P) > 1 {
		t.NontrivialIf(!xeq(lo, xi(0)) || !xeq(hi, xi(1)))
	}
	a, b := bound(lo), bound(hi)
	if a.Cmp(b) > 0 {
		a, b = b, a
	}
	if t.P(1, 2) {
		t.Case("%s", x)
	} else {
		s := t.Near(1000000)
		t.Case("SeedRandom[%d]; %s", s, x)
		want(t, es, xE("SeedRandom", xi(int64(s))), sys("Null"))
	}
	abs := func(r *big.Rat) *big.Rat { return new(big.Rat).Abs(r) }
	scale := new(big.Rat).Add(abs(a), abs(b))
	slack := new(big.Rat).Mul(scale, new(big.Rat).SetFrac64(1, 1<<48))
	width := new(big.Rat).Sub(b, a)
	n := 1
	if t.P(1, 10) {
		n = 60
	}
	quarters := map[int64]bool{}
	seen := map[string]int{}
	for i := 0; i < n; i++ {
		v := ev(es, x)
		if v.K != 'f' {
			if a.Cmp(b) == 0 && v.isNum() && v.rat().Cmp(a) == 0 {
				continue
			}
			t.Failf("%s is %s", x, v)
		}
		r := bound(v)
		if new(big.Rat).Add(r, slack).Cmp(a) < 0 || new(big.Rat).Sub(r, slack).Cmp(b) > 0 {
			t.Failf("%s gives %s outside of the interval", x, v.F.Text('g', 20))
		}
		if width.Sign() > 0 {
			q := new(big.Rat).Quo(new(big.Rat).Sub(r, a), width)
			q.Mul(q, big.NewRat(4, 1))
			quarters[new(big.Int).Quo(q.Num(), q.Denom()).Int64()] = true
		}
		seen[v.F.Text('p', 0)]++
	}
	// All of 60 numbers in one half of the interval, or two of them the same, is
	// less likely than 1 in 10^11.
	if n > 1 && width.Cmp(new(big.Rat).Mul(scale, new(big.Rat).SetFrac64(1, 1<<10))) > 0 {
		if len(quarters) < 3 {
			t.Failf("60 times %s is never in two quarters of the interval", x)
		}
		if len(seen) < n-1 {
			t.Failf("60 times %s gives only %d numbers", x, len(seen))
		}
	}
}

func genDraw(t *T, tag string) *X {
	r := xE("RandomReal")
	switch t.W(3, 2, 2) {
	case 1:
		r = xE("RandomReal", genBound(t))
	case 2:
		r = xE("RandomReal", xl(genBound(t), genBound(t)))
	}
	switch t.W(5, 2, 1, 1, 1, 1) {
	case 1:
		return xE("Table", r, xl(glo("i"+tag), xi(int64(t.Int(0, 5)))))
	case 2:
		return xl(r, xE("RandomReal"), r)
	case 3:
		return xE("Module", xl(xE("Set", glo("v"+tag), r)), xl(glo("v"+tag), glo("v"+tag), r))
	case 4:
		return xE("Map", xE("Function", xl(xE("Slot", xi(1)), r)), xl(xi(1), xi(2)))
	case 5:
		return xE("Sum", r, xl(glo("i"+tag), xi(int64(t.Int(1, 4)))))
	}
	return r
}

var rndOther = []string{
	"N[Pi]",
	"Expand[(x + y)^3]",
	"Table[i^2, {i, 4}]",
	"Module[{v = 2}, v + 1]",
	"Sort[{c, a, b}]",
	"Catch[Throw[1]]",
	"Solve[x^2 == 4, x]",
	"Unique[]",
	"D[Sin[x]^2, x]",
	"1/3 + 0.5",
	"SeedRandom[x]",
	"RandomReal[1, 2, 3]",
	"PrimeQ[123457]",
	"f[x_] := x; f[3]; Clear[f]",
}

func rndRepeat(t *T) {
	es := t.ES()
	tag := fmt.Sprint(t.Index) + "rr"
	draws := []*X{}
	for n := t.Int(1, 6); n > 0; n-- {
		draws = append(draws, genDraw(t, tag))
	}
	seed := xi(int64(t.Near(1000)))
	if t.P(1, 3) {
		seed = xI(t.Big(130))
	}
	log := []string{}
	run := func(x *X) *X {
		log = append(log, x.String())
		t.Case("%s", strings.Join(log, "\n"))
		return ev(es, x)
	}
	other := 0
	idle := func(p int) {
		for t.P(p, 3) {
			log = append(log, pbt.Pick(t, rndOther))
			ev(es, parse(es, log[len(log)-1]))
			other++
		}
	}
	first := []*X{}
	for round := 0; round < 3; round++ {
		idle(1)
		if round > 0 { // numbers from elsewhere in between
			if t.P(1, 3) {
				run(xE("SeedRandom", xi(int64(t.Near(1000)))))
			}
			for t.P(1, 2) {
				run(genDraw(t, tag))
				other++
			}
		}
		if v := run(xE("SeedRandom", seed)); !xeq(v, sys("Null")) {
			t.Failf("it is %s", v)
		}
		for i, d := range draws {
			idle(1)
			v := run(d)
			if round == 0 {
				first = append(first, v)
			} else if !xeq(v, first[i]) {
				t.Failf("%s gives %s instead of %s after the same seed", d, v, first[i])
			}
		}
	}
	t.NontrivialIf(other > 0)
}
