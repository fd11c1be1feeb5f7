package props

import (
	"math"
	"math/big"
	"sort"

	"verif/harness/pbt"
)

func init() {
	pbt.Register(&pbt.Prop{
		ID:    "C26",
		Title: "Number theory functions are correct for every integer",
		Rule:  "division, gcd: a negative, zero, rational or larger than 64-bit argument; primes: an argument above 100, negative or rational; modular: a negative base, exponent or modulus, or an exponent above 100; fibonacci, digits: a negative, zero or larger than 64-bit argument",
		Facets: []pbt.Facet{
			{Name: "division", Quick: 5000, Thorough: 100000, Batch: 250, Run: numDivision},
			{Name: "gcd", Quick: 3000, Thorough: 60000, Batch: 250, Run: numGCD},
			{Name: "primes", Quick: 1200, Thorough: 20000, Batch: 100, Run: numPrimes},
			{Name: "modular", Quick: 3000, Thorough: 60000, Batch: 250, Run: numModular},
			{Name: "fibonacci", Quick: 1500, Thorough: 20000, Batch: 100, Run: numFibonacci},
			{Name: "digits", Quick: 2000, Thorough: 40000, Batch: 100, Run: numDigits},
		},
		Known: map[string]func(t *T){"primepi-one": knownPrimePiOne},
	})
}

func knownPrimePiOne(t *T) {
	es := t.ES()
	want(t, es, xE("PrimePi", xi(1)), xi(0))
}

// want fails unless x evaluates to exactly the value w, which is a normal form.
func want(t *T, es ES, x, w *X) {
	if got := ev(es, x); !xeq(got, w) {
		t.Failf("%s is %s instead of %s", x, got, w)
	}
}

// genArith draws an integer of any size or, sometimes, a rational.
func genArith(t *T, rational bool) *big.Rat {
	switch t.W(4, 3, 2) {
	case 1:
		return new(big.Rat).SetInt(t.Big(140))
	case 2:
		if rational {
			return genRat(t, pbt.Of(t, 4, 8, 40, 80))
		}
	}
	return big.NewRat(int64(t.Near(30)), 1)
}

func unusual(rs ...*big.Rat) bool {
	for _, r := range rs {
		if r.Sign() <= 0 || !r.IsInt() || !r.Num().IsInt64() {
			return true
		}
	}
	return false
}

func ratFloor(r *big.Rat) *big.Int {
	q, m := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	if m.Sign() < 0 {
		q.Sub(q, bi(1))
	}
	return q
}

func ratTrunc(r *big.Rat) *big.Int { return new(big.Int).Quo(r.Num(), r.Denom()) }

func ratInt(n *big.Int) *big.Rat { return new(big.Rat).SetInt(n) }

func ratSub(a, b *big.Rat) *big.Rat { return new(big.Rat).Sub(a, b) }

func floorMod(x, y *big.Rat) *big.Rat {
	q := ratFloor(new(big.Rat).Quo(x, y))
	return ratSub(x, new(big.Rat).Mul(y, ratInt(q)))
}

func boolX(b bool) *X {
	if b {
		return sys("True")
	}
	return sys("False")
}

func numDivision(t *T) {
	es := t.ES()
	x, y := genArith(t, true), genArith(t, true)
	if t.P(1, 4) { // a multiple, or next to one
		k := new(big.Rat).Mul(y, big.NewRat(int64(t.Near(5)), 1))
		x = radd(k, big.NewRat(int64(t.Near(1)), 1))
	}
	t.Case("%s and %s", xq(x), xq(y))
	t.NontrivialIf(unusual(x, y))
	m := sys("Indeterminate")
	if y.Sign() != 0 {
		m = xq(floorMod(x, y))
	}
	want(t, es, xE("Mod", xq(x), xq(y)), m)
	// The quotient and the remainder make up the number again.
	if y.Sign() != 0 {
		rest := xE("Plus", xq(x), xE("Times", xi(-1), xE("Mod", xq(x), xq(y))))
		q := ev(es, xE("Times", rest, xE("Power", xq(y), xi(-1))))
		if q.K != 'i' {
			t.Failf("(x-Mod[x,y])/y is %s for x = %s and y = %s", q, xq(x), xq(y))
		}
	}
	if x.IsInt() {
		odd := x.Num().Bit(0) == 1
		want(t, es, xE("EvenQ", xq(x)), boolX(!odd))
		want(t, es, xE("OddQ", xq(x)), boolX(odd))
	}
	ip := ratTrunc(x)
	want(t, es, xE("IntegerPart", xq(x)), xI(ip))
	want(t, es, xE("FractionalPart", xq(x)), xq(ratSub(x, ratInt(ip))))
	want(t, es, xE("Sign", xq(x)), xi(int64(x.Sign())))
	f, _ := x.Float64()
	if !math.IsInf(f, 0) && t.P(1, 3) {
		s := int64(0)
		if f > 0 {
			s = 1
		} else if f < 0 {
			s = -1
		}
		want(t, es, xE("Sign", xf(f)), xi(s))
	}
	// A list is treated element by element.
	want(t, es, xE("Mod", xl(xq(x), xq(rneg(x))), xq(y)), xl(m, ev(es, xE("Mod", xq(rneg(x)), xq(y)))))
	want(t, es, xE("Sign", xl(xq(x), xq(y))), xl(xi(int64(x.Sign())), xi(int64(y.Sign()))))
}

func ratGCD(a, b *big.Rat) *big.Rat {
	// gcd(p/q, r/s) = gcd(p s, r q)/(q s)
	n := new(big.Int).GCD(nil, nil,
		new(big.Int).Abs(new(big.Int).Mul(a.Num(), b.Denom())),
		new(big.Int).Abs(new(big.Int).Mul(b.Num(), a.Denom())))
	return new(big.Rat).SetFrac(n, new(big.Int).Mul(a.Denom(), b.Denom()))
}

func ratLCM(a, b *big.Rat) *big.Rat {
	if a.Sign() == 0 || b.Sign() == 0 {
		return new(big.Rat)
	}
	r := new(big.Rat).Mul(a, b)
	r.Quo(r, ratGCD(a, b))
	return r.Abs(r)
}

func numGCD(t *T) {
	es := t.ES()
	n := t.Int(1, 5)
	common := big.NewRat(1, 1)
	if t.P(1, 2) {
		common = genArith(t, true)
	}
	rs := []*big.Rat{}
	args := []*X{}
	for i := 0; i < n; i++ {
		r := genArith(t, true)
		if t.P(2, 3) {
			r = new(big.Rat).Mul(r, common)
		}
		rs = append(rs, r)
		args = append(args, xq(r))
	}
	t.Case("%s", join(args))
	t.NontrivialIf(n > 1 && unusual(rs...))
	g, l := new(big.Rat), big.NewRat(1, 1)
	l.Abs(rs[0])
	for i, r := range rs {
		g = ratGCD(g, r)
		if i > 0 {
			l = ratLCM(l, r)
		}
	}
	want(t, es, xE("GCD", args...), xq(g))
	want(t, es, xE("LCM", args...), xq(l))
	if n >= 3 {
		want(t, es, xE("GCD", xE("GCD", args[:2]...), xE("GCD", args[2:]...)), xq(g))
		want(t, es, xE("LCM", args[0], xE("LCM", args[1:]...)), xq(l))
	}
	if n >= 2 {
		want(t, es, xE("LCM", xl(args[0], args[1]), args[1]), xl(xq(ratLCM(rs[0], rs[1])), xq(ratLCM(rs[1], rs[1]))))
	}
	// The Bezout identity of a symbolic argument is not decided: it stays.
	if got := ev(es, xE("GCD", append([]*X{glo("a")}, args...)...)); !contains(got, func(x *X) bool { return xeq(x, glo("a")) }) {
		t.Failf("GCD[a,%s] is %s", join(args), got)
	}
}

var sieve = func() []bool {
	const n = 1 << 17
	s := make([]bool, n)
	for i := 2; i < n; i++ {
		s[i] = true
	}
	for i := 2; i*i < n; i++ {
		if s[i] {
			for j := i * i; j < n; j += i {
				s[j] = false
			}
		}
	}
	return s
}()

var primeList = func() []int64 {
	r := []int64{}
	for i, p := range sieve {
		if p {
			r = append(r, int64(i))
		}
	}
	return r
}()

func countPrimes(n int64) int64 {
	return int64(sort.Search(len(primeList), func(i int) bool { return primeList[i] > n }))
}

// Primes beyond the machine range (Mersenne primes and others).
var bigPrimes = func() []*big.Int {
	r := []*big.Int{}
	for _, e := range []uint{31, 61, 89, 107, 127} {
		r = append(r, new(big.Int).Sub(new(big.Int).Lsh(bi(1), e), bi(1)))
	}
	r = append(r, bi(math.MaxInt64-24))                                  // 2^63-25
	r = append(r, new(big.Int).Sub(new(big.Int).Lsh(bi(1), 64), bi(59))) // 2^64-59
	r = append(r, new(big.Int).Add(new(big.Int).Lsh(bi(1), 64), bi(13))) // 2^64+13
	return r
}()

func numPrimes(t *T) {
	es := t.ES()
	switch t.W(3, 3, 3, 4, 2) {
	case 0: // recognition
		n := bi(int64(t.Int(0, len(sieve)-1)))
		p := sieve[n.Int64()]
		switch t.W(3, 2, 2, 2) {
		case 1:
			n = bi(int64(t.Int(0, 60)))
			p = sieve[n.Int64()]
		case 2:
			n, p = pbt.Pick(t, bigPrimes), true
		case 3:
			n = new(big.Int).Mul(pbt.Pick(t, bigPrimes), bi(primeList[t.Int(0, 2000)]))
			p = false
		}
		if t.Bool() {
			n = new(big.Int).Neg(n)
		}
		t.Case("PrimeQ[%s]", n)
		t.NontrivialIf(n.CmpAbs(bi(100)) > 0 || n.Sign() < 0)
		want(t, es, xE("PrimeQ", xI(n)), boolX(p))
		want(t, es, xE("PrimeQ", xl(xI(n), xi(7), xi(9))), xl(boolX(p), boolX(true), boolX(false)))
	case 1: // the n-th prime
		k := t.Int(1, pbt.Of(t, 20, 300, len(primeList)))
		t.Case("Prime[%d]", k)
		t.NontrivialIf(k > 25)
		want(t, es, xE("Prime", xi(int64(k))), xi(primeList[k-1]))
		if t.P(1, 8) {
			n := new(big.Int).Neg(t.Big(70))
			if n.Sign() > 0 {
				n.Neg(n)
			}
			if t.Bool() { // far beyond the range
				n = new(big.Int).Add(bigPow(64, 0), bi(int64(t.Int(0, 9))))
			}
			want(t, es, xE("Prime", xI(n)), xE("Prime", xI(n)))
		}
	case 2: // the number of primes
		k := t.Near(pbt.Of(t, 30, 1000, len(sieve)-1))
		x := xi(int64(k))
		if t.P(1, 3) {
			x = xf(float64(k) + pbt.Of(t, 0, 0.25, 0.5, 0.75))
		}
		t.Case("PrimePi[%s]", x)
		t.NontrivialIf(k > 100 || k < 0)
		r := x.rat()
		w := countPrimes(ratFloor(r).Int64())
		got := ev(es, xE("PrimePi", x))
		if xeq(got, xi(w)) {
			return
		}
		t.Finding("primepi-one", ratFloor(r).Cmp(bi(1)) == 0 && xeq(got, xi(1)))
		t.Failf("PrimePi[%s] is %s instead of %d", x, got, w)
	case 3: // factorization
		fs := map[int64]int64{}
		n := big.NewRat(1, 1)
		for k := t.Int(0, 5); k > 0; k-- {
			p := primeList[t.Int(0, pbt.Of(t, 4, 10, 40))]
			e := int64(t.Int(1, 5))
			if t.P(1, 4) {
				e = -e
			}
			fs[p] += e
			f := big.NewRat(p, 1)
			if e < 0 {
				f.Inv(f)
				e = -e
			}
			for ; e > 0; e-- {
				n.Mul(n, f)
			}
		}
		ps := []int64{}
		size := 0
		for p, e := range fs {
			if e != 0 {
				ps = append(ps, p)
			}
			if e < 0 {
				size -= int(e)
			} else {
				size += int(e)
			}
		}
		if size > 14 {
			t.Discard()
		}
		sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
		w := []*X{}
		if t.P(1, 3) {
			n.Neg(n)
			w = append(w, xl(xi(-1), xi(1)))
		}
		for _, p := range ps {
			w = append(w, xl(xi(p), xi(fs[p])))
		}
		if len(w) == 0 {
			w = append(w, xl(xi(1), xi(1)))
		}
		t.Case("FactorInteger[%s]", xq(n))
		t.NontrivialIf(n.Sign() < 0 || !n.IsInt() || n.Num().Cmp(bi(100)) > 0)
		want(t, es, xE("FactorInteger", xq(n)), xl(w...))
	case 4: // the totient
		n := int64(t.Int(0, pbt.Of(t, 12, 100, 400)))
		w := int64(0)
		for i := int64(1); i <= n; i++ {
			if new(big.Int).GCD(nil, nil, bi(i), bi(n)).Int64() == 1 {
				w++
			}
		}
		if t.P(1, 3) {
			n = -n
		}
		t.Case("EulerPhi[%d]", n)
		t.NontrivialIf(n > 100 || n < 0)
		want(t, es, xE("EulerPhi", xi(n)), xi(w))
	}
}

func numModular(t *T) {
	es := t.ES()
	a := genArith(t, false).Num()
	m := genArith(t, false).Num()
	e := t.Big(pbt.Of(t, 4, 8, 140))
	if t.P(3, 5) {
		e.Abs(e)
	}
	if new(big.Int).Abs(m).Sign() == 0 {
		m = bi(7)
	}
	t.Case("PowerMod[%s,%s,%s]", a, e, m)
	t.NontrivialIf(a.Sign() < 0 || m.Sign() < 0 || e.Sign() < 0 || e.CmpAbs(bi(100)) > 0)
	mm := new(big.Int).Abs(m)
	base := new(big.Int).Mod(a, mm)
	x := xE("PowerMod", xI(a), xI(e), xI(m))
	if e.Sign() < 0 {
		inv := new(big.Int).ModInverse(base, mm)
		if inv == nil { // there is no inverse: nothing can be returned
			if got := ev(es, x); got.K == 'i' {
				t.Failf("%s is %s although the base has no inverse", x, got)
			}
			return
		}
		base = inv
	}
	// Square and multiply.
	r := new(big.Int).Mod(bi(1), mm)
	ae := new(big.Int).Abs(e)
	for i := ae.BitLen() - 1; i >= 0; i-- {
		r.Mul(r, r).Mod(r, mm)
		if ae.Bit(i) == 1 {
			r.Mul(r, base).Mod(r, mm)
		}
	}
	w := floorMod(ratInt(r), ratInt(m)).Num()
	want(t, es, x, xI(w))
	if e.Sign() >= 0 && e.Cmp(bi(60)) < 0 && a.BitLen() < 40 {
		if a.Sign() != 0 || e.Sign() != 0 {
			want(t, es, xE("Mod", xE("Power", xI(a), xI(e)), xI(m)), xI(w))
		}
	}
}

func numFibonacci(t *T) {
	es := t.ES()
	n := t.Near(pbt.Of(t, 12, 60, 400, 3000))
	t.Case("Fibonacci[%d]", n)
	t.NontrivialIf(n <= 0 || n > 92)
	k := n
	if k < 0 {
		k = -k
	}
	a, b := bi(0), bi(1)
	for i := 0; i < k; i++ {
		a.Add(a, b)
		a, b = b, a
	}
	if n < 0 && k%2 == 0 {
		a.Neg(a)
	}
	want(t, es, xE("Fibonacci", xi(int64(n))), xI(a))
	if t.P(1, 4) {
		s := glo("fibArg")
		want(t, es, xE("Fibonacci", s), xE("Fibonacci", s))
	}
	if t.P(1, 4) {
		x := xE("Plus", xE("Fibonacci", xi(int64(n+1))), xE("Fibonacci", xi(int64(n))), xE("Times", xi(-1), xE("Fibonacci", xi(int64(n+2)))))
		want(t, es, x, xi(0))
	}
}

func numDigits(t *T) {
	es := t.ES()
	n := genArith(t, false).Num()
	b := int64(t.Int(2, pbt.Of(t, 3, 10, 40, 1000)))
	if t.P(1, 4) {
		b = 10
	}
	if t.P(1, 4) { // a power of the base, or next to one
		n = new(big.Int).Add(new(big.Int).Exp(bi(b), bi(int64(t.Int(0, 20))), nil), bi(int64(t.Near(1))))
	}
	t.Case("%s in base %d", n, b)
	t.NontrivialIf(n.Sign() <= 0 || !n.IsInt64())
	ds := []*X{}
	for r := new(big.Int).Abs(n); r.Sign() > 0; {
		q, m := new(big.Int).QuoRem(r, bi(b), new(big.Int))
		ds = append([]*X{xI(m)}, ds...)
		r = q
	}
	if len(ds) == 0 {
		ds = append(ds, xi(0))
	}
	if b == 10 && t.Bool() {
		want(t, es, xE("IntegerDigits", xI(n)), xl(ds...))
		want(t, es, xE("FromDigits", xl(ds...)), xI(new(big.Int).Abs(n)))
	}
	want(t, es, xE("IntegerDigits", xI(n), xi(b)), xl(ds...))
	want(t, es, xE("FromDigits", xl(ds...), xi(b)), xI(new(big.Int).Abs(n)))
	// Any list of numbers is the value of a polynomial at the base.
	l := []*X{}
	sum := bi(0)
	for k := t.Int(0, 6); k > 0; k-- {
		d := t.Big(pbt.Of(t, 3, 8, 70))
		l = append(l, xI(d))
		sum.Mul(sum, bi(b)).Add(sum, d)
	}
	want(t, es, xE("FromDigits", xl(l...), xi(b)), xI(sum))
}
