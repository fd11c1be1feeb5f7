package props

import (
	"math/big"
	"sort"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"

	"verif/harness/pbt"
)

// genAlg draws sums, products and powers whose evaluation is cheap.
func genAlg(t *T, depth int, syms []string) *X {
	if depth <= 0 || t.P(1, 4) {
		switch t.W(4, 2, 1, 1) {
		case 0:
			return glo(pbt.Pick(t, syms))
		case 1:
			return genSmall(t)
		case 2:
			return pbt.Of(t, xq(big.NewRat(1, 2)), xq(big.NewRat(-2, 3)), xc(xi(0), xi(1)), xc(xi(1), xi(-1)), xc(xi(1), xi(2)))
		}
		return pbt.Of(t, xs("s"), xf(0.5), xf(2), sys("Pi"), sys("List"))
	}
	nary := func(h string) *X {
		x := xE(h)
		for i := t.Int(2, 4); i > 0; i-- {
			x.P = append(x.P, genAlg(t, depth-1, syms))
		}
		return x
	}
	switch t.W(2, 3, 2, 3) {
	case 0:
		return nary("Plus")
	case 1:
		return nary("Times")
	case 2:
		if t.Bool() {
			b := genAlg(t, depth-1, syms)
			for contains(b, func(x *X) bool { return x.K == 'f' }) || b.isNum() {
				b = glo(pbt.Pick(t, syms))
			}
			return xE("Power", b, xi(int64(t.Near(3))))
		}
		return xE("Power", glo(pbt.Pick(t, syms)), genAlg(t, depth-1, syms))
	}
	x := xe(glo(pbt.Of(t, "f", "g")))
	for i := t.Int(0, 3); i > 0; i-- {
		x.P = append(x.P, genAlg(t, depth-1, syms))
	}
	return x
}

// evaluated draws an expression that evaluation leaves alone.
func genEvaluated(t *T, es ES, depth int) *X {
	syms := []string{"x", "y", "z"}
	if t.P(1, 4) {
		syms = symNames
	}
	var x *X
	if t.P(1, 4) {
		x = genInert(t, depth)
	} else {
		x = genAlg(t, depth, syms)
	}
	return ev(es, x)
}

func numKind(x *X) int {
	return strings.IndexByte("irfc", x.K)
}

func reim(x *X) (*X, *X) {
	if x.K == 'c' {
		return x.P[0], x.P[1]
	}
	return x, xi(0)
}

// refOrder is the reference order for expressions without arithmetic heads:
// 1 if a comes first, -1 if b does, 0 if they are the same.
func refOrder(a, b *X) int {
	rank := func(x *X) int {
		switch {
		case x.isNum():
			return 0
		case x.K == 's':
			return 1
		case x.K == 'y':
			return 2
		}
		return 3
	}
	if ra, rb := rank(a), rank(b); ra != rb {
		if ra < rb {
			return 1
		}
		return -1
	}
	switch rank(a) {
	case 0:
		ar, ai := reim(a)
		br, bi := reim(b)
		if c := br.rat().Cmp(ar.rat()); c != 0 {
			return c
		}
		return bi.rat().Cmp(ai.rat()) // ties between kinds are left open
	case 1, 2:
		return strings.Compare(b.S, a.S)
	}
	if len(a.P) != len(b.P) {
		if len(a.P) < len(b.P) {
			return 1
		}
		return -1
	}
	for i := range a.P {
		if o := refOrder(a.P[i], b.P[i]); o != 0 {
			return o
		}
	}
	return 0
}

// sameValueDiffKind tells whether the reference order leaves the pair open.
func openPair(a, b *X) bool { return refOrder(a, b) == 0 && !xeq(a, b) }

// mutate changes one spot of x.
func mutate(t *T, x *X) *X {
	x = clone(x)
	n := int(t.N(uint64(size(x))))
	var walk func(p *X) bool
	walk = func(p *X) bool {
		if n == 0 {
			switch {
			case p.K == 'i':
				p.N = new(big.Int).Add(p.N, big.NewInt(int64(pbt.Of(t, 1, -1))))
			case p.K == 'e' && t.Bool() && len(p.P) > 1:
				p.P = p.P[:len(p.P)-1]
			case p.K == 'e' && t.Bool():
				p.P = append(p.P, genAtom(t))
			default:
				*p = *genAtom(t)
			}
			return true
		}
		n--
		for _, c := range p.P {
			if p.K == 'c' {
				if n == 0 {
					*p = *genAtom(t)
					return true
				}
				n--
				continue
			}
			if walk(c) {
				return true
			}
		}
		return false
	}
	walk(x)
	return x
}

// nearNumber draws a number close to or equal in value to x.
func nearNumber(t *T, x *X) *X {
	switch t.W(2, 2, 2, 2, 1) {
	case 0: // same value as a float, if there is one near
		f, _ := new(big.Float).SetRat(reAsRat(x)).Float64()
		if f > 1e300 || f < -1e300 {
			return xf(0.5)
		}
		return xf(f)
	case 1:
		d := new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).SetBit(new(big.Int).Abs(t.Big(120)), 62, 1))
		return xq(d.Add(d, reAsRat(x)))
	case 2:
		return xq(new(big.Rat).Add(reAsRat(x), big.NewRat(int64(t.Near(2)), 1)))
	case 3:
		return xz(reAsRat(x), big.NewRat(int64(t.Near(2)), int64(t.Int(1, 2))))
	}
	return clone(x)
}

func reAsRat(x *X) *big.Rat {
	r, _ := reim(x)
	return r.rat()
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C01", Title: "canonical order",
		Rule: "laws: 5 evaluated expressions, all pairs and triples, non-trivial when at least 3 are distinct; reference: a pair compared with an independent order on inert expressions, non-trivial when the pair is unequal or a mutated twin; numbers: close or equal-valued numbers of any kinds, non-trivial when their values differ by less than 1 or kinds differ; sort/orderless: a list and a permutation, non-trivial when the list was not already sorted",
		Facets: []pbt.Facet{
			{Name: "laws", Quick: 40000, Thorough: 1500000, Batch: 500, Run: func(t *T) {
				es := t.ES()
				var p []Ex
				var xsl []*X
				n := t.Int(2, 5)
				for i := 0; i < n; i++ {
					x := genEvaluated(t, es, t.Int(1, 3))
					xsl = append(xsl, x)
					p = append(p, x.Ex())
					t.Case("%v", x)
				}
				distinct := map[string]bool{}
				for _, x := range xsl {
					distinct[x.String()] = true
				}
				t.NontrivialIf(len(distinct) > 2)
				o := make([][]int64, n)
				for i := range p {
					o[i] = make([]int64, n)
					for j := range p {
						o[i][j] = atoms.ExOrder(p[i], p[j])
					}
				}
				for i := range p {
					for j := range p {
						if o[i][j] < -1 || o[i][j] > 1 || o[i][j] != -o[j][i] {
							t.Failf("order of\n %v and\n %v is %d one way and %d the other", xsl[i], xsl[j], o[i][j], o[j][i])
						}
						if (o[i][j] == 0) != xeq(xsl[i], xsl[j]) {
							t.Failf("order of\n %v and\n %v is %d", xsl[i], xsl[j], o[i][j])
						}
						for k := range p {
							if o[i][j] > 0 && o[j][k] > 0 && o[i][k] <= 0 {
								t.Failf("not transitive:\n %v before\n %v before\n %v, but first against last is %d", xsl[i], xsl[j], xsl[k], o[i][k])
							}
						}
					}
				}
				if got := ev(es, xE("Order", xsl[0], xsl[1])); !xeq(got, xi(o[0][1])) {
					t.Failf("Order[%v, %v] gives %v, comparison gives %d", xsl[0], xsl[1], got, o[0][1])
				}
			}},
			{Name: "reference", Quick: 40000, Thorough: 1000000, Batch: 5000, Run: func(t *T) {
				a := genInert(t, t.Int(0, 3))
				var b *X
				if t.Bool() {
					b = mutate(t, a)
				} else {
					b = genInert(t, t.Int(0, 3))
				}
				t.Case("%v ? %v", a, b)
				t.NontrivialIf(a.K == 'e' || b.K == 'e')
				got := int(atoms.ExOrder(a.Ex(), b.Ex()))
				if want := refOrder(a, b); got != want && !(want == 0 && !xeq(a, b)) {
					t.Failf("order is %d, expected %d", got, want)
				}
			}},
			{Name: "numbers", Quick: 40000, Thorough: 1000000, Batch: 5000, Run: func(t *T) {
				a := genNumber(t)
				b := nearNumber(t, a)
				t.Case("%v ? %v", a, b)
				t.Nontrivial()
				got, back := int(atoms.ExOrder(a.Ex(), b.Ex())), int(atoms.ExOrder(b.Ex(), a.Ex()))
				want := refOrder(a, b)
				if got != -back {
					t.Failf("order is %d one way and %d the other", got, back)
				}
				if want == 0 && !xeq(a, b) {
					t.Label("equal value, different kind")
					if got == 0 {
						t.Failf("different numbers %v and %v compare as the same", a, b)
					}
				} else if got != want {
					t.Failf("order is %d, expected %d", got, want)
				}
			}},
			{Name: "sort", Quick: 6000, Thorough: 200000, Batch: 200, Run: func(t *T) {
				es := t.ES()
				n := t.W(1, 1, 3, 3, 3, 3)
				if t.P(1, 3) {
					n = t.Int(6, 40)
				}
				var xsl []*X
				for i := 0; i < n; i++ {
					if i > 0 && t.P(1, 6) {
						xsl = append(xsl, clone(pbt.Pick(t, xsl)))
					} else {
						xsl = append(xsl, genEvaluated(t, es, t.Int(0, 2)))
					}
				}
				for _, x := range xsl {
					if x.head("Sequence") {
						t.Discard()
					}
				}
				head := pbt.Of(t, sys("List"), glo("f"), glo("oless"))
				if t.P(1, 8) && n > 0 { // sorting keeps any head
					head = glo("g")
				}
				perm := t.Perm(n)
				shuffled := make([]*X, n)
				for i, j := range perm {
					shuffled[i] = xsl[j]
				}
				in, in2 := xe(head, xsl...), xe(head, shuffled...)
				t.Case("%v", in)
				t.Logf("permuted %v", in2)
				var r1, r2 *X
				if head.S == "Global`oless" {
					run(es, "SetAttributes[oless, Orderless]")
					t.Label("orderless function")
					r1, r2 = ev(es, in), ev(es, in2)
				} else {
					r1, r2 = ev(es, xE("Sort", in)), ev(es, xE("Sort", in2))
				}
				if !xeq(r1, r2) {
					t.Failf("result depends on the order given:\n %v\n %v", r1, r2)
				}
				if r1.K != 'e' || !xeq(r1.P[0], head) || len(r1.P) != n+1 {
					t.Failf("result %v is not a rearrangement", r1)
				}
				key := func(l []*X) string {
					var s []string
					for _, x := range l {
						s = append(s, x.String())
					}
					sort.Strings(s)
					return strings.Join(s, " , ")
				}
				if key(r1.args()) != key(xsl) {
					t.Failf("result %v is not a rearrangement", r1)
				}
				for i := 1; i+1 < len(r1.P); i++ {
					if atoms.ExOrder(r1.P[i].Ex(), r1.P[i+1].Ex()) < 0 {
						t.Failf("result %v is not in order at %v", r1, r1.P[i])
					}
				}
				t.NontrivialIf(!xeq(in, r1) || !xeq(in2, r1))
			}},
		},
	})
}
