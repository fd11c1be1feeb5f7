#!/usr/bin/env python3
"""Writes known-findings.json: known defects, and one entry per fix: commit in
/repo (run by hand; no check runs this)."""
import json, subprocess
KNOWN = [
 ('C20', 'deep-name', 'a`b`c`d', 'a name qualified by more than two contexts is read as a product (third-party scanner)'),
 ('C40', 'parallel-dynamic', 'ParallelTable[Expand[(x + i)^2], {i, 30}]', 'ParallelTable gives wrong elements when its body gives a symbol a value for a while (Block, Table, Do, Sum, Expand of a power, ...): that value is seen by all goroutines of the session'),
 ('C26', 'primepi-one', 'PrimePi[1]', 'PrimePi counts one prime up to 1 (asserted by an existing test)'),
]
# property, subject of the commit, an input that failed
FIXED = [
 ('C22','keep the comparisons between two others and the ends','x < 3 <= 5 < y'),
 ('C32','keep the whole power of the factor taken out','12^(-7/3)'),
 ('C32','combine nested powers only where it is valid','Sqrt[x^(-5/2)]'),
 ('C32','multiply roots of negative integers only','(-2)^(1/3) (-3)^(1/3)'),
 ('C32','take the logarithm of E^p back to p','Log[E^(4 I)]'),
 ('C32','do not divide by a zero coefficient in Simplify','Simplify[-x + (-2.5 + x)]'),
 ('C32','take the sign out of a cotangent','Cot[-x + y + z]'),
 ('C32','a rational to the power 0. is 1','(-9/2)^0.'),
 ('C32','Expand leaves out addends to the power 0','Expand[(0. + x)^2]'),
 ('C31','Solve finds no solution for a reciprocal equal to zero','Solve[1/x == 0, x] was {{x -> ComplexInfinity}}'),
 ('C31','Solve finds no solution for Sec or Csc equal to zero','Solve[Sec[x] == 0, x] had ArcCos[ComplexInfinity]'),
 ('C31','Solve drops solutions whose condition does not hold','Solve[Log[x] == 5 I, x] was {{x -> Undefined}}'),
 ('C31','Solve fails as a whole when one of the branches','Solve[Sin[x^6] == -6, x] was {SolveFailed, SolveFailed}'),
 ('C31','Solve does not divide zero by zero for repeated roots','Solve[x^3 + 3 x^2 + 3 x + 1 == 0, x] was Indeterminate'),
 ('C31','Solve handles dependent and contradictory linear systems','Solve[{x + y == 2, x + y == 3}, {x, y}] was ComplexInfinity'),
 ('C31','square roots of negative numbers are multiples of I','Solve[Sqrt[x] == Sqrt[-6], x] was {}'),
 ('C31','Arg, Conjugate and Abs apply their formulas only','Arg[x] was Indeterminate'),
 ('C31','Solve finds no solution for a negative power equal to zero','Solve[1/x + 6/Sqrt[x] == 0, x] had x -> ComplexInfinity'),
 ('C31','Solve restricts roots and absolute values of families','Solve[Sin[Sqrt[x]] == -6, x] had values for which Sqrt is negative'),
 ('C31','Solve keeps solutions that satisfy the equation in another form','solutions equal but differently written were dropped'),
 ('C31','Solve solves linear equations in which terms cancel','Solve[-6 x^2 - 6 - 6 x == -6 - 6 x, x] and Solve[{-6 x - 3 y == 24, -3 x == 69/2 + 6 y}, {x, y}] were not solved'),
 ('C31','Solve finds no solution for an absolute value equal to a negative','Solve[Abs[Exp[x]] == -6, x] had solutions'),
 ('C31','Solve restricts fractional powers of families','Solve[E^(x^(-1/3)) == E^2, x] had values that are none'),
 ('C31','Solve finds no solution for an absolute value equal to a number that is not real','Solve[Abs[Log[x]]^2 == -6, x] had solutions'),
 ('C31','Arg[0] is 0','Solve[ArcCos[Sqrt[x]] == ArcCos[0], x] had Indeterminate in its condition'),
 ('C31','Solve finds no solution for a fractional power equal to a number outside','Solve[(E^x)^(-1/3) == -6, x] had solutions'),
 ('C30','the derivative of Abs follows the chain rule','D[Abs[x^2], x] was Derivative[1][Abs][x]'),
 ('C30','D with {x, n} differentiates n times','D[x^2, {x, 2}] was 0'),
 ('C30','the infinite sum of num/i^2 requires num to be free of i','Sum[i/i^2, {i, 1, Infinity}] was i Pi^2/6'),
 ('C30','the derivative of a constant list is a list','D[{}, x] and D[{1, y}, x] were 0'),
 ('C29','Numerator and Denominator of a single power','Denominator[1/x] was 1; Numerator[2 x/3] was 2 x/3'),
 ('C29','Apart divides when','Apart[x^2/((x + 1) (x + 2)), x] was 0'),
 ('C29','CoefficientList of zero','CoefficientList[0, x] was an unevaluated Table'),
 ('C29','polynomial division takes as many','PolynomialQuotientRemainder[x^30 - 1, x - 1, x] stopped after 19 steps with remainder -1 + x^11'),
 ('C29','FactorSquareFree keeps the constant','FactorSquareFree[2 x^2 + 4 x + 2] was (1 + x)^2'),
 ('C29','Exponent counts every term','Exponent[(y^2 + y)^2 (2 x + x^2), x, Min] was 0'),
 ('C33','Get forgets which evaluations','y = h[2] saved by one program and loaded by another in which h[n_] := n + 1: y stayed h[2]'),
 ('C33','Get keeps the built-in behaviour','Save["f", {"System`Plus"}]; Get["f"]; 1 + 1 gave Plus[1, 1]'),
 ('C33','Save and Get report files','Get of a truncated saved file crashed; Save to a folder that does not exist gave Null'),
 ('C40','goroutines that share expressions','ParallelTable[{stored, 1/3, i}, {i, 8}] with a stored expression, under the race detector'),
 ('C40','definitions made by several goroutines','ParallelTable[ff[i, j] = i j, {i, 4}, {j, 4}] lost definitions; ParallelTable[Module[{v = i}, v = v + 1; v], {i, 8}] gave elements of other values'),
 ('C37','StringLength and StringTake count','StringLength["é"] gave 2; StringTake["héllo",{2,3}] gave "é"; StringTake["abc",{2^64+1,2}] gave "ab"'),
 ('C37','an escaped backslash followed by a character name','"\\\\[\\\\[Alpha]" was read with the character α instead of [Alpha]; StringLength["\\\\[Alpha]"] gave 2'),
 ('C38','the history stores inputs and outputs','Evaluate[n=n+1] as an input was evaluated a second time by the history; an output Sequence[1,2] was not stored'),
 ('C40','every session draws its own sequence','SeedRandom in one session, or creating another session, restarted the random numbers of every other session'),
 ('C26','Mod, LCM, PowerMod, Fibonacci','Mod[5,-3] gave 2; LCM[-4,6] gave -12; PowerMod[3,-1,7] gave 1/3; Fibonacci[-1] overflowed the stack; Prime[2^64+1] gave 2; IntegerDigits[0] gave {}'),
 ('C27','the empty list has one permutation','Permutations[{}] gave {}; IntegerPartitions[3,2^64] gave {}'),
 ('C28','Dimensions keeps the common extents','Dimensions[{{{1},{2}},{{1,2},{3,4}}}] gave {2}; {1,2}.{{1,2},{3,4}} stayed; {{a,b},{c,d}}.{e,f,g} gave an invalid Part; Inverse[{{1,2},{2,4}}] gave ComplexInfinity; MatrixQ[{{1,{}}}] gave True'),
 ('C25','NestWhile, Nest and Array leave','NestWhile[f,x,test,-1] gave -1; Array[f,2^64+2] gave two elements; Array[f,-1] gave {}'),
 ('C23','Part and Take validate positions','{1,2}[[2^64+1]] gave 1; Take[{1,2,3},-2] stayed; Tally[{_,1}] counted the pattern; Select went on after a throw; Cases[{1},x_:>x] gave {}'),
 ('C24','Map, MapIndexed, Apply and Count','Apply[#1+#2&,{1,2}] gave {1,2}; MapIndexed[f,{a}] gave no index; Map[f,{a},0] mapped level 1; Map[f,{a,{b}},{2,-1}] mapped level 1'),
 ('C21','Numbers of different kinds are compared','1/2==x gave False; 1/2==0.5 gave False; 10^20<10^20+1 gave False; 1<I gave False; -2.5!=-1 stayed'),
 ('C01','order numbers by exact value','Order[2^60, 2^60+1]; Sort[{1/3, 0.3333333333333333}]'),
 ('C09','a pattern without arguments','MatchQ[f[1], f[]]'),
 ('C02','hash reals by','real numbers of one value and another precision hashed differently'),
 ('C02','hash real numbers','1.5 computed at another precision was a different key'),
 ('C03','evaluation builds new','x = {1, 2}; evaluating a use of x changed the stored list'),
 ('C08','calls of Flat','Attributes[f] = {Flat}; f[f[a], b]'),
 ('C21','Max and Min','Max[a, b]'),
 ('C03','Factorial does not','n = 5; n!; n'),
 ('C03','And and Or','And[True, a] kept by a variable; And[Throw[1], Print[2]]'),
 ('C12','Set evaluates','i = 2; f[i] = 3; f[2]'),
 ('C12','redefinitions do not','f[1] = 2; Block[{f}, f[1] = 3]; f[1]'),
 ('C12','ClearAll clears','x = y; ClearAll[x]'),
 ('C04','integer powers of exact','(1+I)^70; (2/3)^100'),
 ('C05','powers with one approximate','(-8)^0.5; 2^1000000.; 0.^(-1)'),
 ('C05','N makes exact','N[1/3 + I]'),
 ('C05','Log of a unit','N[Log[1/5]]'),
 ('C05','fractional powers of products','N[(-2*x)^(1/2) /. x -> -1]'),
 ('C05','Sin and ArcSin','Sin[-1 + x]'),
 ('C06','like terms','a*b + c + 2*a*b'),
 ('C06','integer powers distribute','(-x*y)^2'),
 ('C07','expressions evaluated earlier','x = a; a = 1; f[x]'),
 ('C07','an expression that throws','Catch[y = Hold[Throw[1]]; ReleaseHold[y]]'),
 ('C34','the stream "stderr"','WriteString["stderr", "x"]'),
 ('C34','OutputStream with','WriteString[OutputStream["stdout", 2^64+1], "x"]'),
 ('C35','merging time','merging two counters dropped the counts of one'),
 ('C36','RGBColor does not','Graphics[{Opacity[0.5], RGBColor[1, 0, 0], Disk[]}]'),
 ('C09','named patterns','MatchQ[{1, 2, 3}, {a:(_|__), b__}]'),
 ('C10','a sequence of one','{x__} matched with one argument'),
 ('C11','ReplaceAll applies','{a, {a}} /. {{a} -> 1, a -> 2}'),
 ('C11','ReplacePart rules','ReplacePart[{a, b}, 2 -> f[2]]'),
 ('C11','a sequence in place','f[a][b] /. f[a] -> Sequence'),
 ('C12','literal and narrower','f[x_] = 1; f[2] = 3; f[2]'),
 ('C18','unsupported syntax','a ~f; "open'),
 ('C18','a short rest','EvalInterpMany of a text with an error in its last characters'),
 ('C18','unknown characters','"\\[Foo]"'),
 ('C17','an empty string','a + ""'),
 ('C16','factorials, chains','a b!; a -> b -> c'),
 ('C17','printed text reads','(-2)^x; (a+b)[1]; (a:>a)*a; "\\"" ; x^(2^64-1)'),
 ('C17','an escaped backslash in a string is read','"\\\\[x]"'),
 ('C17','optional patterns','f[x]. ; -2 <> a'),
 ('C20','names resolve','Begin["A`"]; Begin["B`"]; End[]; End[]; $Context'),
 ('C38','the raw terminal','two lines on standard input of expreduce -rawterm'),
 ('C14','iterators count down','Range[5, 1, -1]; Range[1, 3, 1.]; i = 2; Do[If[i > 2, Return[i]], {i, 9}]; i'),
 ('C08','the attributes of the evaluated head','h = Hold; h[1+1]; Hold[Evaluate[Print[1]], Print[2]]; HoldComplete[Unevaluated[1+1]]'),
 ('C08','Flat flattens held','Attributes[f] = {Flat, HoldAll, Listable}; f[{0, 0}, f[a, f[{0, 0}, 0]]]'),
 ('C13','With evaluates its values','With[{x = Print[1]; 2}, {x, x}]; With[{x = y}, Module[{y = 2}, x]]; Function[{x, y}, x + y][1, 2]'),
 ('C15','Break leaves the loop','Do[If[i == 3, Break[]]; c = i, {i, 5}]; Catch[While[True, Throw[2]]]; CompoundExpression[]'),
 ('C13','Block restores','g[] := x; Block[{x = 2}, g[]]; h[x_] := (Block[{y = x}, Return[y]]; no); h[3]'),
 ('C25','Fold, Nest and','Fold[(n++; #1 + #2) &, 0, {1, 2, 3}]; n; NestWhileList[#/2 &, 3, EvenQ]; Nest[f, x, n]; Fold[f, x, 3]'),
]
import os
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log=[l.split(' ',1) for l in subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()]
out=[]
for p,k,i,w in KNOWN:
    out.append(dict(property=p,key=k,status='known',commit='',input=i,what=w))
seen=set()
for p,sub,i in FIXED:
    for h,s in log:
        if s.startswith('fix: '+sub):
            seen.add(h)
            out.append(dict(property=p,key='fixed-'+h,status='fixed',commit=h,input=i,what='fixed: property=%s %s %s'%(p,h,s[5:])))
            break
for h,s in log:
    if s.startswith('fix:') and h not in seen: print('no entry for',h,s)
json.dump(out,open(HERE+'/known-findings.json','w'),indent=1)
print(len(out),'entries')
