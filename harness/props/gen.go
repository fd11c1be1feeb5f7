package props

import (
	"math/big"

	"verif/harness/pbt"
)

// Generators shared by several properties.

func genInt(t *T) *X   { return xI(t.Big(130)) }
func genSmall(t *T) *X { return xi(int64(t.Near(6))) }

func genRat(t *T, bits int) *big.Rat {
	d := t.Big(bits)
	if d.Sign() == 0 {
		d = big.NewInt(1)
	}
	return new(big.Rat).SetFrac(t.Big(bits), d)
}

// genFloat draws a finite double that is not an integer-valued surprise.
func genFloat(t *T) float64 {
	switch t.W(3, 2, 1) {
	case 0:
		return float64(t.Near(40)) / 8
	case 1:
		return float64(t.Near(100000)) / 1000
	}
	return float64(t.Near(1000000)) * 1e-3 * pbt.Of(t, 1, 1e5, 1e-5, 1e12)
}

// genNumber draws any kind of number.
func genNumber(t *T) *X {
	switch t.W(4, 2, 2, 2) {
	case 0:
		return xI(t.Big(100))
	case 1:
		return xq(genRat(t, 40))
	case 2:
		return xf(genFloat(t))
	}
	if t.Bool() {
		return xz(genRat(t, 8), genRat(t, 8))
	}
	return xz(new(big.Rat).SetInt64(int64(t.Near(4))), new(big.Rat).SetInt64(int64(t.Near(4))))
}

var symNames = []string{"a", "b", "c", "x", "y", "z", "aa", "ab", "aB", "Ab", "x1", "x10", "x2", "z$1"}

func genSym(t *T) *X { return glo(pbt.Pick(t, symNames)) }

var strPool = []string{"", "a", "b", "ab", "aa", "abc", "B", "a b", "z", "\u00e9t\u00e9", "1"}

func genStr(t *T) *X { return xs(pbt.Pick(t, strPool)) }

func genAtom(t *T) *X {
	switch t.W(4, 3, 2) {
	case 0:
		return genSym(t)
	case 1:
		return genNumber(t)
	}
	return genStr(t)
}

// genInert draws an expression whose heads have no evaluation rules.
func genInert(t *T, depth int) *X {
	if depth <= 0 || t.P(1, 3) {
		return genAtom(t)
	}
	var h *X
	switch t.W(5, 3, 1) {
	case 0:
		h = glo(pbt.Of(t, "f", "g", "h", "ff"))
	case 1:
		h = sys("List")
	default:
		h = genInert(t, depth-1)
		if h.isNum() || h.K == 's' {
			h = glo("f")
		}
	}
	n := t.W(1, 3, 3, 2, 1)
	x := xe(h)
	for i := 0; i < n; i++ {
		x.P = append(x.P, genInert(t, depth-1))
	}
	return x
}

// bigPow is 2^bits + add.
func bigPow(bits uint, add int64) *big.Int {
	n := new(big.Int).Lsh(big.NewInt(1), bits)
	return n.Add(n, big.NewInt(add))
}
