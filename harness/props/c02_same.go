package props

import (
	"math"
	"math/big"
	"strings"

	"github.com/corywalker/expreduce/expreduce/atoms"

	"verif/harness/pbt"
)

// twin draws an expression that is easily confused with x.
func twin(t *T, x *X) *X {
	x = clone(x)
	var spots []*X
	var walk func(p *X)
	walk = func(p *X) {
		spots = append(spots, p)
		if p.K == 'e' {
			for _, c := range p.P {
				walk(c)
			}
		}
	}
	walk(x)
	p := pbt.Pick(t, spots)
	switch p.K {
	case 'i':
		switch t.W(2, 2, 2, 1, 1) {
		case 0:
			p.N = new(big.Int).Neg(p.N)
		case 1: // same low bits
			p.N = new(big.Int).Add(p.N, new(big.Int).Lsh(bi(1), uint(pbt.Of(t, 8, 32, 53, 63, 64, 128))))
		case 2:
			f, _ := new(big.Float).SetInt(p.N).Float64()
			if !math.IsInf(f, 0) {
				*p = *xf(f)
			}
		case 3:
			*p = *xs(p.N.String())
		case 4:
			*p = *xc(clone(p), xi(1))
		}
	case 'r':
		switch t.W(1, 1, 1, 1) {
		case 0:
			p.N = new(big.Int).Neg(p.N)
		case 1:
			n, d := p.N, p.D
			s := n.Sign()
			n = new(big.Int).Abs(n)
			if n.Cmp(bi(1)) > 0 {
				p.N, p.D = new(big.Int).Mul(d, bi(int64(s))), n
			} else {
				p.N = new(big.Int).Add(p.N, p.D)
			}
		case 2:
			*p = *xE("Power", xI(p.D), xi(-1))
		case 3:
			f, _ := new(big.Float).SetRat(p.rat()).Float64()
			*p = *xf(f)
		}
	case 'f':
		switch t.W(1, 1, 1) {
		case 0:
			f, _ := p.F.Float64()
			if f == 0 {
				*p = *xf(0.5)
			} else {
				*p = *xf(-f)
			}
		case 1:
			f, _ := p.F.Float64()
			*p = *xf(f * (1 + 1e-9))
			if f == 0 {
				*p = *xf(1e-9)
			}
		case 2:
			i, _ := p.F.Int(nil)
			*p = *xI(i)
		}
	case 'c':
		switch t.W(1, 1, 1) {
		case 0:
			p.P[0], p.P[1] = p.P[1], p.P[0]
		case 1:
			*p = *xE("Complex", p.P...)
		case 2:
			p.P[1] = xq(new(big.Rat).Neg(p.P[1].rat()))
		}
		if p.K == 'c' && p.P[1].K == 'i' && p.P[1].N.Sign() == 0 {
			*p = *xi(0)
		}
	case 's':
		switch t.W(1, 1) {
		case 0:
			if p.S != "" && p.S[0] >= 'a' && p.S[0] <= 'z' {
				*p = *glo(p.S)
			} else {
				*p = *xs(p.S + " ")
			}
		case 1:
			*p = *xs("Global`" + p.S)
		}
	case 'y':
		switch t.W(1, 1, 1) {
		case 0:
			*p = *xs(p.S)
		case 1:
			*p = *xs(p.S[7:])
		case 2:
			*p = *glo(p.S[7:] + "1")
		}
	case 'e':
		n := len(p.P)
		switch t.W(1, 1, 1, 1, 1, 1) {
		case 0:
			if n > 1 {
				i := int(t.N(uint64(n - 1)))
				p.P[i], p.P[i+1] = p.P[i+1], p.P[i]
			}
		case 1: // f[a, b] against f[f[a], b]
			if n > 1 {
				p.P[1] = xe(p.P[0], p.P[1])
			} else {
				*p = *xe(clone(p))
			}
		case 2: // f[a, b] against f[a][b]
			if n > 2 {
				*p = *xe(xe(p.P[0], p.P[1]), p.P[2:]...)
			} else {
				p.P = append(p.P, clone(p.P[0]))
			}
		case 3:
			p.P = append(p.P, clone(p.P[n-1]))
		case 4:
			if n > 1 {
				p.P = p.P[:n-1]
			} else {
				*p = *p.P[0]
			}
		case 5: // f[a, b] against {f, a, b}
			if !p.head("List") {
				*p = *xl(p.P...)
			} else {
				*p = *xG("List", p.args()...)
			}
		}
	}
	return x
}

func nearFloats(a, b *X) bool {
	if a.K != 'f' || b.K != 'f' {
		return false
	}
	x, _ := a.F.Float64()
	y, _ := b.F.Float64()
	return math.Abs(x-y) <= 1e-12*math.Abs(x)
}

func genBig(t *T, es ES) *X {
	if t.Bool() {
		return genInert(t, t.Int(0, 3))
	}
	return genEvaluated(t, es, t.Int(0, 2))
}

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C02", Title: "sameness and hashes",
		Rule: "pairs: an expression and a copy or confusable twin differing in one spot, non-trivial when the two are equal or twins (not unrelated); history: an expression hashed, copied, evaluated and edited at a part, non-trivial when an edit followed a hash; grouping: lists of near twins passed to functions that group by identity, non-trivial when the list has both a repeat and a twin",
		Facets: []pbt.Facet{
			{Name: "pairs", Quick: 40000, Thorough: 1000000, Batch: 2000, Run: func(t *T) {
				es := t.ES()
				a := genBig(t, es)
				var b *X
				switch t.W(3, 6, 1) {
				case 0:
					b = clone(a)
					t.Nontrivial()
				case 1:
					b = twin(t, a)
					t.Nontrivial()
				default:
					b = genBig(t, es)
				}
				t.Case("%v ? %v", a, b)
				if nearFloats(a, b) && !xeq(a, b) {
					t.Discard()
				}
				same := xeq(a, b)
				ea, eb := a.Ex(), b.Ex()
				if t.Bool() { // hashing or copying one side first changes nothing
					ea.Hash()
					ea = ea.DeepCopy()
				}
				if got := atoms.IsSameQ(ea, eb); got != same {
					t.Failf("reported same: %v, structurally identical: %v", got, same)
				}
				if got := ea.Hash() == eb.Hash(); got != same {
					t.Failf("hashes equal: %v, structurally identical: %v", got, same)
				}
				if !xeq(from(ea), a) || !xeq(from(eb), b) {
					t.Failf("hashing or comparing changed an operand")
				}
				// System heads match up to their attributes, Complex stands for the number.
				calls := func(x *X) bool { return x.K == 'e' && strings.HasPrefix(x.P[0].S, "System`") && !x.head("List") }
				if t.P(1, 6) && !contains(a, calls) && !contains(b, calls) {
					h := func(x *X) *X { return xE("Hold", x) }
					want := map[bool]string{true: "System`True", false: "System`False"}[same]
					for _, q := range []*X{xE("SameQ", h(a), h(b)), xE("MatchQ", h(a), h(b)), xE("Not", xE("UnsameQ", h(a), h(b))), xE("Not", xE("FreeQ", h(a), h(b)))} {
						if r := ev(es, q); r.S != want {
							t.Failf("%v gives %v, structurally identical: %v", q, r, same)
						}
					}
				}
			}},
			{Name: "history", Quick: 12000, Thorough: 400000, Batch: 1000, Run: func(t *T) {
				es := t.ES()
				type item struct {
					e Ex
					x *X
				}
				x0 := xe(glo("f"), genInert(t, 2), genInert(t, 2))
				t.Case("start %v", x0)
				items := []item{{x0.Ex(), x0}}
				hashed := false
				n := t.Int(2, 9)
				for i := 0; i < n; i++ {
					k := int(t.N(uint64(len(items))))
					it := items[k]
					switch t.W(4, 2, 2, 4, 2) {
					case 0:
						t.Case("hash #%d", k)
						it.e.Hash()
						hashed = true
					case 1:
						t.Case("deep copy of #%d", k)
						items = append(items, item{it.e.DeepCopy(), clone(it.x)})
					case 2:
						t.Case("copy of #%d", k)
						items = append(items, item{it.e.Copy(), clone(it.x)})
					case 3: // replace one part through the evaluator
						if it.x.K != 'e' || len(it.x.P) < 2 {
							continue
						}
						pos := t.Int(1, len(it.x.P)-1)
						v := genInert(t, 1)
						t.Case("replace part %d of #%d by %v", pos, k, v)
						nx := clone(it.x)
						nx.P[pos] = clone(v)
						r := es.Eval(atoms.E(atoms.S("ReplacePart"), it.e, atoms.E(atoms.S("Rule"), atoms.NewInt(int64(pos)), v.Ex())))
						items = append(items, item{r, nx})
						t.NontrivialIf(hashed)
					case 4:
						t.Case("evaluate #%d", k)
						items = append(items, item{es.Eval(it.e), clone(it.x)})
					}
					for a := range items {
						if got := from(items[a].e); !xeq(got, items[a].x) {
							t.Failf("#%d is %v, expected %v", a, got, items[a].x)
						}
						if h := items[a].e.Hash(); h != items[a].x.Ex().Hash() {
							t.Failf("hash of #%d is not that of a fresh %v", a, items[a].x)
						}
						for b := range items[:a] {
							if got, want := atoms.IsSameQ(items[a].e, items[b].e), xeq(items[a].x, items[b].x); got != want && !nearFloats(items[a].x, items[b].x) {
								t.Failf("#%d and #%d: same %v, expected %v", a, b, got, want)
							}
						}
					}
				}
			}},
			{Name: "grouping", Quick: 5000, Thorough: 150000, Batch: 500, Run: func(t *T) {
				es := t.ES()
				pool := []*X{genInert(t, t.Int(0, 2))}
				for i := t.Int(1, 3); i > 0; i-- {
					pool = append(pool, twin(t, pbt.Pick(t, pool)))
				}
				for _, p := range pool {
					if p.K == 'f' || contains(p, func(x *X) bool { return x.head("Complex") }) {
						t.Discard() // near reals are one group by design
					}
				}
				var l []*X
				for i := t.Int(0, 8); i > 0; i-- {
					l = append(l, pbt.Pick(t, pool))
				}
				probe := pbt.Pick(t, pool)
				wrap := func(ys []*X) *X {
					r := xl()
					for _, y := range ys {
						r.P = append(r.P, xE("Hold", y))
					}
					return r
				}
				t.Case("%v probe %v", xl(l...), probe)
				var uniq []*X
				var cnt []int
				inL := func(x *X, ys []*X) int {
					for i, y := range ys {
						if xeq(x, y) {
							return i
						}
					}
					return -1
				}
				n := 0
				for _, x := range l {
					if xeq(x, probe) {
						n++
					}
					if i := inL(x, uniq); i >= 0 {
						cnt[i]++
					} else {
						uniq = append(uniq, x)
						cnt = append(cnt, 1)
					}
				}
				t.NontrivialIf(len(uniq) > 1 && len(uniq) < len(l))
				tally := xl()
				for i, u := range uniq {
					tally.P = append(tally.P, xl(xE("Hold", u), xi(int64(cnt[i]))))
				}
				exact := func(q, want *X) {
					if got := ev(es, q); !xeq(got, want) {
						t.Failf("%v gives\n %v, expected\n %v", q, got, want)
					}
				}
				exact(xE("DeleteDuplicates", wrap(l)), wrap(uniq))
				exact(xE("Tally", wrap(l)), tally)
				exact(xE("Count", wrap(l), xE("Hold", probe)), xi(int64(n)))
				tf := "False"
				if n > 0 {
					tf = "True"
				}
				exact(xE("MemberQ", wrap(l), xE("Hold", probe)), sys(tf))
				set := func(q *X, want []*X) {
					got := ev(es, q)
					ok := got.head("List") && len(got.args()) == len(want)
					if ok {
						for _, w := range want {
							ok = ok && inL(xE("Hold", w), got.args()) >= 0
						}
					}
					if !ok {
						t.Failf("%v gives\n %v, expected the elements of\n %v", q, got, wrap(want))
					}
				}
				var rest, both []*X
				cut := pool[:1+len(pool)/2]
				for _, u := range uniq {
					if inL(u, cut) >= 0 {
						both = append(both, u)
					} else {
						rest = append(rest, u)
					}
				}
				set(xE("Union", wrap(l)), uniq)
				set(xE("Complement", wrap(l), wrap(cut)), rest)
				set(xE("Intersection", wrap(l), wrap(cut)), both)
			}},
		},
	})
}
