package props

import (
	"math/big"
	"strings"
	"sync"

	"verif/harness/pbt"
)

// Templates are calls of built-in functions with typed holes: a global symbol
// named by a capital letter and a digit stands for a generated argument.
// E any inert expression, L list, N small integer, Z small positive integer,
// Q rational, R real, F function of one argument, G function of two arguments,
// P pattern, U rule, S string, B truth value or relation, A sum/product/power,
// V polynomial in x, M square exact matrix, W vector of length 2, Y symbol.
var tmplText = strings.Split(strings.TrimSpace(`
Sort[E1]
Sort[L1]
Reverse[L1]
Reverse[E1]
Join[L1, L2]
Union[L1, L2]
Union[L1]
Intersection[L1, L2]
Complement[L1, L2]
DeleteDuplicates[L1]
Tally[L1]
Append[L1, E1]
Prepend[L1, E1]
Append[E1, E2]
First[L1]
Last[L1]
Rest[L1]
Take[L1, N1]
Take[L1, {N1, N2}]
Part[L1, N1]
L1[[N1, N2]]
E1[[N1]]
L1[[All, N1]]
L1[[N1 ;; N2]]
PadLeft[L1, Z1]
PadRight[L1, Z1, E1]
Select[L1, F1]
Cases[L1, P1]
Cases[E1, P1]
Cases[L1, U1]
DeleteCases[L1, P1]
Count[L1, P1]
MemberQ[L1, P1]
FreeQ[E1, P1]
MatchQ[E1, P1]
Map[F1, L1]
Map[F1, E1]
Map[F1, E1, {N1}]
MapIndexed[G1, L1]
Apply[F1, L1]
Apply[F1, L1, {Z1}]
Scan[F1, L1]
Fold[G1, E1, L1]
FoldList[G1, E1, L1]
Nest[F1, E1, Z1]
NestList[F1, E1, Z1]
Array[F1, Z1]
Flatten[L1]
Flatten[E1]
Flatten[L1, Z1]
Thread[f[L1, L2]]
Thread[f[L1, E1]]
Distribute[f[L1, g[E1, E2]]]
Distribute[f[a + b, x + y]]
Length[E1]
Depth[E1]
LeafCount[E1]
Head[E1]
Dimensions[L1]
Transpose[{L1, L1}]
Transpose[M1]
Inverse[M1]
M1 . M2
M1 . W1
W1 . W2
Total[W1]
Mean[W1]
Total[M1]
VectorQ[L1]
MatrixQ[M1]
ConstantArray[E1, Z1]
Range[N1, N2]
Range[Q1, N1]
Table[f[i], {i, Z1}]
Table[f[i, E1], {i, N1, N2}]
Table[i + j, {i, Z1}, {j, i}]
Table[f[i], {i, W1}]
Sum[i^2, {i, Z1}]
Sum[f[i], {i, N1, N2}]
Product[f[i], {i, Z1}]
ReplaceAll[E1, U1]
E1 /. {U1, U2}
Replace[E1, U1]
ReplaceList[L1, U1]
ReplacePart[L1, Z1 -> E1]
ReplaceRepeated[E1, P1 -> zz]
SameQ[E1, E2]
UnsameQ[E1, E2]
Equal[E1, E2]
Equal[Q1, R1]
Unequal[Q1, Q2]
Less[Q1, Q2, R1]
Greater[Q1, N1]
LessEqual[Q1, R1]
GreaterEqual[N1, N2, N3]
Max[Q1, N1, R1]
Max[Q1, x, N1]
Min[L1]
MinMax[W1]
Positive[Q1]
Negative[R1]
Sign[Q1]
Abs[Q1]
And[B1, B2, B3]
Or[B1, B2, B3]
Not[B1]
If[B1, E1, E2]
If[B1, E1, E2, E3]
Which[B1, E1, B2, E2, True, E3]
Switch[E1, P1, E2, _, E3]
TrueQ[B1]
AllTrue[L1, F1]
Boole[B1]
A1 + A2
A1 * A2
A1 - A2
A1^Z1
Q1 + Q2 * R1
Q1 / (Q2 + 1/3)
Expand[(V1) * (V2)]
Expand[(x + y + N1)^Z1]
ExpandAll[V1 * (x + N1)]
Coefficient[V1, x, Z1]
CoefficientList[V1, x]
Exponent[V1, x]
PolynomialQ[V1, x]
PolynomialQuotient[V1, x + N1, x]
PolynomialRemainder[V1, x^2 + N1, x]
Variables[A1]
Numerator[A1]
Denominator[A1]
Numerator[Q1]
Together[1/x + N1/y]
D[V1, x]
D[Sin[V1]*f[x], x]
GCD[N1, N2, Z1]
LCM[N1, N2]
Mod[N1, Z1]
Mod[Q1, Z1]
PowerMod[N1, Z1, Z2]
PrimeQ[Z1]
FactorInteger[Z1]
EulerPhi[Z1]
EvenQ[N1]
OddQ[N1]
Fibonacci[Z1]
IntegerDigits[N1]
IntegerDigits[N1, 2]
FromDigits[{Z1, Z2, Z3}]
IntegerPart[Q1]
FractionalPart[Q1]
Factorial[Z1]
Multinomial[Z1, Z2]
Permutations[{E1, E2, E1}]
Tuples[{E1, E2}, 2]
IntegerPartitions[Z1]
StringJoin[S1, S2]
StringLength[S1]
StringTake[S1, N1]
StringReplace[S1, S2 -> S3]
ToString[E1]
ToString[S1]
Hash[E1]
Order[E1, E2]
Hold[E1, 1 + 1]
HoldForm[L1]
ReleaseHold[Hold[E1]]
Sequence[E1, E2]
{Sequence[E1, E2], E3}
f[Evaluate[E1]]
f[Unevaluated[E1 + E2]]
Module[{m = E1}, f[m, m]]
With[{m = E1}, f[m, Hold[m]]]
Block[{m = E1}, f[m]]
CompoundExpression[E1, E2]
Catch[Throw[E1]]
Catch[f[E1, Throw[E2]]]
Reap[Sow[E1]; f[Sow[E2]]]
(f[#, #] &)[E1]
(f[#2, #1] &)[E1, E2]
Function[m, f[m, m]][E1]
Attributes[f]
Rule[E1, E2]
AtomQ[E1]
NumberQ[E1]
NumericQ[A1]
IntegerQ[E1]
StringQ[E1]
ListQ[E1]
Re[Q1 + I*N1]
Im[Q1 + I*N1]
Conjugate[Q1 + I*N1]
N[Q1]
N[{Q1, Pi}]
Exp[N1]
Log[Z1]
Sin[Q1*Pi]
Cos[Z1*Pi/6]
Sqrt[Z1]
Q1^Z1
PossibleZeroQ[A1]
Solve[x + N1 == N2, x]
Trace[E1]
E1 == E1
Map[F1, {E1, E1}]
Thread[{E1, E2} -> {E2, E1}]
Fold[G1, L1]
Identity[E1]
`), "\n")

var tmplOnce sync.Once
var tmpls []*X

func templates(es ES) []*X {
	tmplOnce.Do(func() {
		for _, s := range tmplText {
			tmpls = append(tmpls, parse(es, s))
		}
	})
	return tmpls
}

func isHole(x *X) bool {
	return x.K == 'y' && len(x.S) == 9 && strings.HasPrefix(x.S, "Global`") && x.S[7] >= 'A' && x.S[7] <= 'Z' && x.S[8] >= '1' && x.S[8] <= '9'
}

// fill replaces every hole, the same hole by the same argument.
func fill(t *T, x *X, gen func(kind byte) *X) *X {
	got := map[string]*X{}
	var walk func(x *X) *X
	walk = func(x *X) *X {
		if isHole(x) {
			if got[x.S] == nil {
				got[x.S] = gen(x.S[7])
			}
			return got[x.S]
		}
		if x.K != 'e' {
			return x
		}
		y := &X{K: 'e', P: make([]*X, len(x.P))}
		for i, p := range x.P {
			y.P[i] = walk(p)
		}
		return y
	}
	return walk(x)
}

func genList(t *T, depth int) *X {
	x := xl()
	n := t.W(1, 2, 3, 3, 2, 1)
	for i := 0; i < n; i++ {
		if i > 0 && t.P(1, 4) {
			x.P = append(x.P, x.P[1+t.N(uint64(i))])
		} else {
			x.P = append(x.P, genInert(t, depth))
		}
	}
	return x
}

func slot(n int64) *X { return xE("Slot", xi(n)) }
func blank() *X       { return xE("Blank") }
func patn(n string, p *X) *X {
	return xE("Pattern", glo(n), p)
}

// genPoly draws a polynomial in x (as a sum of terms).
func genPoly(t *T) *X {
	n := t.Int(1, 4)
	s := xE("Plus")
	for i := 0; i < n; i++ {
		s.P = append(s.P, xE("Times", genSmall(t), xE("Power", glo("x"), xi(int64(t.Int(0, 4))))))
	}
	return s
}

// genHole draws an argument of a kind.
func genHole(t *T, kind byte) *X {
	switch kind {
	case 'E':
		return genInert(t, t.Int(0, 2))
	case 'L':
		return genList(t, t.Int(0, 1))
	case 'N':
		return xi(int64(t.Near(5)))
	case 'Z':
		return xi(int64(t.Int(1, 6)))
	case 'Q':
		return xq(genRat(t, 6))
	case 'R':
		return xf(float64(t.Near(40)) / 8)
	case 'F':
		return pbt.Of(t, glo("f"), sys("Head"), xE("Function", xG("g", slot(1))), xE("Function", xl(slot(1), slot(1))), sys("IntegerQ"), sys("Identity"))
	case 'G':
		return pbt.Of(t, glo("f"), sys("List"), xE("Function", xG("g", slot(2), slot(1))))
	case 'P':
		return pbt.Of(t, blank(), patn("p", blank()), xE("Blank", sys("Integer")), xE("Blank", sys("List")), xG("f", xE("BlankNullSequence")), xE("PatternTest", blank(), sys("IntegerQ")), genInert(t, 1))
	case 'U':
		return xE(pbt.Of(t, "Rule", "RuleDelayed"), genHole(t, 'P'), pbt.Of(t, xG("r"), genInert(t, 1)))
	case 'S':
		return genStr(t)
	case 'B':
		return pbt.Of(t, sys("True"), sys("False"), glo("b"), xE("Less", genSmall(t), genSmall(t)), xE("Less", glo("x"), xi(1)), xE("Equal", glo("a"), glo("b")))
	case 'A':
		return genAlg(t, 2, []string{"x", "y", "z"})
	case 'V':
		return genPoly(t)
	case 'M':
		n := 2
		m := xl()
		for i := 0; i < n; i++ {
			m.P = append(m.P, genHole(t, 'W'))
		}
		return m
	case 'W':
		return xl(xq(genRat(t, 3)), xi(int64(t.Near(4))))
	case 'Y':
		return genSym(t)
	}
	return genInert(t, 1)
}

// genCall draws a call of a built-in function on generated arguments, sometimes
// nested.
func genCall(t *T, es ES, depth int) *X {
	x := pbt.Pick(t, templates(es))
	return fill(t, x, func(k byte) *X {
		if depth > 0 && (k == 'E' || k == 'L') && t.P(1, 5) {
			return genCall(t, es, depth-1)
		}
		return genHole(t, k)
	})
}

var _ = big.NewInt
