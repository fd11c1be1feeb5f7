package props

import (
	"math/big"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C27",
		Title: "Combinatorial functions enumerate exactly the right objects",
		Rule:  "permutations, tuples: at least two elements, of which two are equal or one is compound; partitions: at least 5 partitions or a restriction that removes some; counting: a zero, negative or large argument or at least three arguments",
		Facets: []pbt.Facet{
			{Name: "permutations", Quick: 2000, Thorough: 40000, Batch: 100, Run: combPermutations},
			{Name: "tuples", Quick: 700, Thorough: 10000, Batch: 50, Run: combTuples},
			{Name: "partitions", Quick: 1500, Thorough: 20000, Batch: 100, Run: combPartitions},
			{Name: "counting", Quick: 3000, Thorough: 60000, Batch: 250, Run: combCounting},
		},
	})
}

// combElems draws a list of elements in normal form with repetitions, some of
// which are equal in value or look alike without being the same.
func combElems(t *T, es ES, n int) []*X {
	if t.P(1, 8) {
		// Numbers of equal value and different kind are different elements.
		var l []*X
		for k := t.Int(1, n); k > 0; k-- {
			l = append(l, pbt.Of(t, xi(1), xf(1), xi(2), xf(2), xq(bigRat(1, 2)), xf(0.5), xs("1"), xi(-1)))
		}
		return l
	}
	pool := []*X{}
	for {
		l := genElems(t, es, &pool, n)
		if len(l) == 0 && t.P(4, 5) {
			continue
		}
		return l
	}
}

func repeats(l []*X) bool {
	for i, a := range l {
		for _, b := range l[:i] {
			if xeq(a, b) {
				return true
			}
		}
	}
	return false
}

func compound(l []*X) bool {
	for _, a := range l {
		if a.K == 'e' {
			return true
		}
	}
	return false
}

// refPermutations lists the arrangements in order of position, first
// occurrences only.
func refPermutations(l []*X) [][]*X {
	if len(l) == 0 {
		return [][]*X{{}}
	}
	out := [][]*X{}
	for i, x := range l {
		dup := false
		for _, y := range l[:i] {
			dup = dup || xeq(x, y)
		}
		if dup {
			continue
		}
		rest := append(append([]*X{}, l[:i]...), l[i+1:]...)
		for _, r := range refPermutations(rest) {
			out = append(out, append([]*X{x}, r...))
		}
	}
	return out
}

func combPermutations(t *T) {
	es := t.ES()
	l := combElems(t, es, pbt.Of(t, 3, 4, 5))
	h := "List"
	if t.P(1, 5) {
		h = "f"
	}
	x := xE("List", l...)
	if h == "f" {
		x = xG("combHead", l...)
	}
	if !isPlain(es, x) {
		t.Discard()
	}
	t.Case("Permutations[%s]", x)
	t.NontrivialIf(len(l) >= 2 && (repeats(l) || compound(l)))
	w := []*X{}
	for _, p := range refPermutations(l) {
		w = append(w, xl(p...))
	}
	want(t, es, xE("Permutations", x), xl(w...))
	want(t, es, xE("Length", xE("Permutations", x)), xi(int64(len(w))))
}

func combTuples(t *T) {
	es := t.ES()
	l := combElems(t, es, 4)
	n := t.Int(0, 3)
	size := 1
	for i := 0; i < n; i++ {
		size *= len(l)
	}
	x := xl(l...)
	if size > 90 || !isPlain(es, x) {
		t.Discard()
	}
	t.Case("Tuples[%s,%d]", x, n)
	t.NontrivialIf(len(l) >= 2 && n >= 2 && (repeats(l) || compound(l)))
	w := []*X{}
	for i := 0; i < size; i++ {
		tup := make([]*X, n)
		for j, k := n-1, i; j >= 0; j-- {
			tup[j] = l[k%len(l)]
			k /= len(l)
		}
		w = append(w, xl(tup...))
	}
	want(t, es, xE("Tuples", x, xi(int64(n))), xl(w...))
}

// refPartitions lists the partitions of n into at most k parts of at most m,
// the largest parts first.
func refPartitions(n, k, m int) [][]*X {
	if n == 0 {
		return [][]*X{{}}
	}
	out := [][]*X{}
	if k <= 0 {
		return out
	}
	for p := m; p >= 1; p-- {
		if p > n {
			continue
		}
		for _, r := range refPartitions(n-p, k-1, p) {
			out = append(out, append([]*X{xi(int64(p))}, r...))
		}
	}
	return out
}

func combPartitions(t *T) {
	es := t.ES()
	n := t.Int(0, pbt.Of(t, 5, 9, 14))
	if t.P(1, 12) {
		n = -t.Int(1, 20)
	}
	x := xE("IntegerPartitions", xi(int64(n)))
	k := n
	restricted := t.P(2, 3) && n > 0
	if restricted {
		k = t.Int(0, n+2)
		x.P = append(x.P, xi(int64(k)))
		if t.P(1, 12) {
			k = n
			x.P[len(x.P)-1] = xI(bigPow(uint(t.Int(63, 66)), int64(t.Near(2))))
		}
	}
	t.Case("%s", x)
	all := refPartitions(n, n, n)
	ps := all
	if restricted {
		ps = refPartitions(n, k, n)
	}
	if n < 0 {
		ps = nil
	}
	t.NontrivialIf(len(ps) >= 5 || len(ps) < len(all))
	w := []*X{}
	for _, p := range ps {
		w = append(w, xl(p...))
	}
	want(t, es, x, xl(w...))
}

func bigFactorial(n int64) *big.Int { return new(big.Int).MulRange(1, n) }

func combCounting(t *T) {
	es := t.ES()
	switch t.W(2, 3) {
	case 0:
		n := int64(t.Near(pbt.Of(t, 6, 25, 300)))
		t.Case("Factorial[%d]", n)
		t.NontrivialIf(n <= 0 || n > 20)
		if n < 0 {
			want(t, es, xE("Factorial", xi(n)), sys("ComplexInfinity"))
			return
		}
		want(t, es, xE("Factorial", xi(n)), xI(bigFactorial(n)))
		want(t, es, xE("Times", xi(n+1), xE("Factorial", xi(n))), xI(bigFactorial(n+1)))
		want(t, es, xE("Factorial", xl(xi(n), xi(3), glo("combSym"))), xl(xI(bigFactorial(n)), xi(6), xE("Factorial", glo("combSym"))))
		if got := run(es, "("+xi(n).Src()+")!"); !xeq(got, xI(bigFactorial(n))) {
			t.Failf("(%d)! is %s", n, got)
		}
	case 1:
		args := []*X{}
		sum := int64(0)
		d := bi(1)
		for k := t.Int(0, 5); k > 0; k-- {
			n := int64(t.Int(0, pbt.Of(t, 3, 10, 40)))
			args = append(args, xi(n))
			sum += n
			d.Mul(d, bigFactorial(n))
		}
		t.Case("Multinomial[%s]", join(args))
		t.NontrivialIf(len(args) >= 3)
		want(t, es, xE("Multinomial", args...), xI(new(big.Int).Div(bigFactorial(sum), d)))
		if len(args) == 2 {
			bin := new(big.Int).Binomial(sum, args[0].N.Int64())
			want(t, es, xE("Multinomial", args[1], args[0]), xI(bin))
		}
	}
}
