#!/usr/bin/env python3
"""Source of /verif/properties.jsonl and /verif/MANIFEST.json (run from anywhere)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, tests, files, mechanism, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=tests,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe or ["public Go API", "evaluation results"], hook_needed=None)))
A='expreduce/atoms/'; M='expreduce/matcher/'; C='expreduce/'

prop('C01','Canonical order is a strict total order and sorting respects it',
 'Any two evaluated expressions compare as exactly one of before, same or after; the relation is antisymmetric and transitive, says "same" only for identical expressions, and orders numbers by exact value and strings and symbols by name. Sort, Order and the arguments of Orderless functions therefore always yield one ordered permutation of their elements, whatever order they were given in.',
 ['inputs'],'all pairs and triples of evaluated expressions (numbers of every kind and size, strings, symbols, sums, products, powers, nested calls) and all permutations of lists of them',
 'The two stable unit tests only look at sequence allocation; the .m examples compare a few fixed pairs. Transitivity and tie-breaking are statements about every triple.',
 [A+'order.go',A+'ex_expression.go',C+'builtin_sort.go',C+'eval.go'],
 [('ExOrder compares atoms by kind then value and expressions part by part with Power/Times normalisation',A+'order.go'),('Sort and Orderless use sort.Sort with ExOrder',C+'builtin_sort.go, '+C+'eval.go')])
prop('C02','Sameness is structural identity and hashes agree with it',
 'Two expressions are reported the same exactly when they have the same structure and equal atoms of the same kind, and expressions that are the same always have equal hashes. This stays true after expressions have been hashed, evaluated, copied or had parts replaced, so that functions that group or search by identity (SameQ, MatchQ of literals, Union, Tally, DeleteDuplicates, Complement, Count) never confuse different expressions or separate identical ones.',
 ['inputs','histories'],'all pairs of expressions, including pairs that differ in one leaf, one head or one sign, before and after any sequence of hashing, evaluation, copying and part replacement',
 'Unit tests compare a handful of fixed pairs and never after in-place modification of a hashed expression.',
 [A+'sameq.go',A+'ex_expression.go',A+'ex_integer.go',A+'ex_rational.go',A+'ex_real.go',A+'ex_complex.go',A+'ex_string.go',A+'ex_symbol.go',C+'builtin_list.go'],
 [('per-type Hash and cached expression hashes',A+'ex_*.go'),('IsSameQ / IsEqual',A+'sameq.go')])
prop('C03','Values are immutable: no evaluation changes an expression someone else holds',
 'Evaluating or calling any function never changes an expression that is held, stored in a variable, kept in a history entry or returned earlier; only assignment changes what a name means. Copies made of an expression are the same as the original and independent of it: changing one never shows in the other.',
 ['inputs','histories'],'every expression that has been stored, held or returned, and every later sequence of evaluations that receives it as an argument',
 'Aliasing bugs need a value to be kept and looked at again after other functions have run on it; tests look at each result once.',
 [A+'ex_expression.go',A+'ex_complex.go',A+'ex_rational.go',C+'eval.go',C+'builtin_list.go',C+'builtin_replacement.go',C+'builtin_comparison.go'],
 [('DeepCopy/Copy/ShallowCopy before in-place changes',A+'ex_*.go'),('builtins build new expressions',C+'builtin_*.go')])
prop('C04','Exact arithmetic is exact at any size and kept in lowest terms',
 'Sums, differences, products, quotients and integer powers of integers, rationals and exact complex numbers of any magnitude equal the mathematically exact result. The result is always in canonical form: lowest terms with a positive denominator, an integer when the denominator is 1, a real number when the imaginary part is 0, and a division by exact zero never yields a number.',
 ['inputs'],'all expression trees of +, -, *, /, ^n over integers (beyond 64 bits), rationals and Gaussian rationals',
 'Tests use single-digit operands; carries, sign handling, common factors and sizes past 64 bits are never sampled.',
 [A+'calculator.go',A+'ex_integer.go',A+'ex_rational.go',A+'ex_complex.go',C+'builtin_arithmetic.go',C+'builtin_power.go',C+'eval.go'],
 [('typed accumulation of numeric parts',A+'calculator.go'),('evalRational/evalComplex canonicalise',C+'eval.go')])
prop('C05','Approximate arithmetic follows the exact result and is contagious',
 'An arithmetic operation with at least one approximate operand gives an approximate number within rounding error of the exact result, and an operation on exact operands never turns approximate by itself. N of an exact numeric expression agrees with its mathematical value to machine accuracy.',
 ['inputs'],'all trees of +, -, *, / and small powers mixing reals with integers, rationals and complex numbers; N of exact numbers, constants and elementary functions',
 'Every combination of number kinds takes its own path in the accumulator; tests exercise few of them.',
 [A+'calculator.go',A+'ex_real.go',A+'ex_complex.go',C+'builtin_arithmetic.go',C+'builtin_power.go',C+'builtin_trig.go',C+'resources/atoms.m'],
 [('promotion to Flt in the typed accumulator',A+'calculator.go'),('N rules',C+'resources.go')])
prop('C06','Sums and products reach one canonical form and keep their value',
 'Writing the terms of a sum or the factors of a product in any order and any grouping gives the same evaluated expression. That expression has the same value as the original for every value of the variables, like terms and like powers are combined, and neutral elements disappear.',
 ['inputs'],'all polynomial-like expressions over several symbols with exact coefficients, all permutations and regroupings of their operands',
 'The example tests fix one order of terms; confluence of the rewriting rules is a statement about all orders and groupings.',
 [C+'builtin_arithmetic.go',C+'resources.go',A+'order.go',A+'calculator.go'],
 [('collection of like terms and numeric part',C+'builtin_arithmetic.go'),('Plus/Times rules',C+'resources.go')])
prop('C07','Evaluation is repeatable, reaches a fixed point and uses current definitions',
 'Evaluating an expression in a given state always gives the same result, and evaluating that result again gives it unchanged. A result always reflects the definitions in force when it is computed: an expression stored or evaluated before a definition was made, changed or removed is evaluated afresh under the new definitions.',
 ['inputs','histories'],'all expressions over the built-in functions and user definitions, and all interleavings of evaluating stored expressions with (re)defining the symbols in them',
 'Caching of evaluated expressions only goes wrong when the same object is evaluated again after a change of state; tests evaluate each input once.',
 [C+'eval.go',C+'evalstate.go',A+'ex_expression.go'],
 [('fixed point loop with EvaledHash cache',C+'eval.go')])
prop('C08','Attributes govern argument evaluation and normal form as documented',
 'For every symbol and combination of attributes: arguments covered by HoldFirst/HoldRest/HoldAll/HoldAllComplete stay unevaluated and all others are evaluated exactly once and in order; Sequence, Evaluate and Unevaluated behave as documented; Flat merges nested calls, Orderless sorts arguments, Listable threads over equal-length lists; and attributes set or cleared take effect and are reported back exactly.',
 ['inputs','configurations'],'all sets of attributes on a user symbol and all argument lists mixing plain values, held code, sequences and lists',
 'Tests use built-in symbols with fixed attribute sets; the combinations interact in the evaluator.',
 [C+'eval.go',A+'ex_symbol.go',C+'builtin_system.go',C+'builtin_expression.go'],
 [('attribute handling in evalExpression',C+'eval.go'),('attribute tables',A+'ex_symbol.go')])
prop('C09','Pattern matching accepts exactly the expressions a pattern describes',
 'An expression matches a pattern exactly when there is an assignment of subexpressions to the pattern variables that turns the pattern into the expression, with repeated variables equal, heads, tests, conditions, alternatives, exceptions, repetitions, sequence blanks and optional arguments as documented, and with Flat, Orderless and OneIdentity heads matched up to those laws. The bindings used on the right-hand side of a rule are such an assignment, and a failed match leaves no trace.',
 ['inputs'],'all pairs of patterns and expressions, including several sequence blanks per argument list, repeated variables and commutative/associative heads',
 'The search space of the matcher grows combinatorially; tests sample single points of it.',
 [M+'matchq.go',M+'blank.go',M+'allocations.go',M+'parse_form.go',M+'pdmanager.go',M+'pdreplace.go',C+'builtin_pattern.go'],
 [('backtracking match iterators',M+'matchq.go'),('component forms and allocation search',M+'parse_form.go, '+M+'allocations.go')])
prop('C10','All ways to match are enumerated, each once, in a fixed order',
 'Listing all results of a rule on an expression yields every distinct way the pattern can match exactly once and nothing else, shortest sequences first and leftmost variable varying slowest. The underlying distribution of arguments to sequence patterns and assignment of components to forms likewise yields every admissible split exactly once.',
 ['inputs'],'all lists of sequence forms (fixed, bounded and unbounded lengths) and component counts; all ReplaceList calls on ordered, orderless and flat heads',
 'The two stable unit tests check a few small form lists; exhaustiveness and absence of duplicates are claims about all of them.',
 [M+'allocations.go',M+'matchq.go',C+'builtin_replacement.go'],
 [('allocIter and assnIter',M+'allocations.go'),('match iterator continuation',M+'matchq.go')])
prop('C11','Replacement rewrites exactly the matching parts, outermost and first rule first',
 'Replace acts only at the requested level, ReplaceAll on every outermost matching part scanning the expression from the outside in and using the first rule that matches, ReplaceRepeated until nothing changes, and ReplacePart only at the given position. Pattern variables on the right-hand side are replaced simultaneously by what they matched, parts that do not match are returned unchanged, and delayed right-hand sides are evaluated only after substitution.',
 ['inputs'],'all expressions, lists of rules with overlapping patterns and right-hand sides that mention pattern variables and matched material',
 'Order of rule application and capture show only with overlapping rules and nested matches.',
 [C+'replace.go',C+'builtin_replacement.go',C+'eval.go',M+'pdreplace.go',M+'pdmanager.go'],
 [('replaceAll/exprReplaceAll',C+'replace.go, '+C+'eval.go'),('ReplacePD',M+'pdreplace.go')])
prop('C12','The definition store behaves like a map from left-hand sides to values',
 'After any sequence of immediate and delayed assignments, redefinitions, attribute changes and clears, each symbol evaluates by the definitions most recently made and not cleared: redefining the same left-hand side replaces it, literal arguments win over general patterns and narrower patterns over wider ones, other symbols are unaffected, and what DownValues and Attributes report is what is used.',
 ['histories'],'all sequences of Set, SetDelayed, Clear, ClearAll, SetAttributes and Increment-like updates over several symbols',
 'Tests define each symbol once; replacement, ordering and removal depend on the history.',
 [C+'evalstate.go',C+'definition_map.go',C+'definition.go',C+'builtin_system.go',C+'builtin_arithmetic.go'],
 [('Define/GetDef/Clear with specificity order',C+'evalstate.go')])
prop('C13','Scoping constructs isolate their variables',
 'Variables of Module, Block and With and parameters of Function and of rules are visible only inside their scope: an outer variable of the same name has the same value before and after, including when the scope is left early by Return, Throw or a nested scope, recursive calls do not share Module variables, With substitutes values textually, and Block restores values and definitions.',
 ['programs','histories'],'all nestings of the scoping constructs over a small set of names, with reads, writes, recursion and early exits',
 'Leaks appear only for nested scopes, name collisions and early exits, which the examples do not combine.',
 [C+'builtin_system.go',C+'builtin_flowcontrol.go',C+'builtin_functional.go',C+'eval.go'],
 [('Module renaming with $ModuleNumber, Block save/restore, With substitution',C+'builtin_system.go')])
prop('C14','Iterators visit exactly the specified values and restore their variable',
 'Table, Do, Sum, Product, Range and every other function taking iterator specifications visit exactly the values given by start, stop and step (including negative and fractional steps, explicit value lists, bounds that depend on the variable of a surrounding iteration, and empty ranges), first iterator outermost, with exact numbers staying exact. Afterwards the iteration variable has the value or lack of value it had before, also when the loop is left early.',
 ['inputs','histories'],'all lists of one to three iterator specifications of every documented shape with integer, rational, real or symbolic bounds, with and without a prior value and an early exit',
 'Counts, boundary inclusion and restoration depend on arithmetic of arbitrary bounds and steps.',
 ['expreduce/iterspec/iterspec.go',C+'builtin_list.go',C+'builtin_arithmetic.go',C+'builtin_flowcontrol.go'],
 [('SpecFromList/MultiSpecFromLists/EvalIterationFunc','expreduce/iterspec/iterspec.go')])
prop('C15','Control flow executes exactly the code it should',
 'If, Which, Switch, While, For, Do, CompoundExpression, Return, Break, Throw and Catch evaluate exactly the branches and iterations a straightforward interpreter would, in the same order and with the same side effects and result; an exception unwinds to the nearest enclosing Catch and nothing after the throw runs.',
 ['programs'],'all small imperative programs over these constructs with counters and logging side effects, nested loops, and throws at any point',
 'Tests run single constructs; order of side effects under nesting and early exit needs generated programs.',
 [C+'builtin_flowcontrol.go',C+'builtin_system.go',C+'builtin_boolean.go',C+'eval.go',C+'evalstate.go'],
 [('flow control builtins and thrown state',C+'builtin_flowcontrol.go, '+C+'evalstate.go')])
prop('C16','Operator syntax parses to the documented structure',
 'Every combination of infix, prefix and postfix operators, calls, part brackets, lists, slots, blanks, associations of parentheses, numbers, strings, comments and line breaks parses to the expression tree determined by the documented precedence and associativity, the same tree as its fully bracketed functional form.',
 ['inputs'],'all source texts generated from the operator grammar, with random spacing, comments and redundant parentheses',
 'Precedence is a relation between every pair of operators; tests parse some tens of fixed strings.',
 ['expreduce/parser/interp.go','expreduce/parser/parens/parens.go'],
 [('conversion of the wl syntax tree','expreduce/parser/interp.go')])
prop('C17','Printed expressions read back as the same expression',
 'Printing an expression in InputForm or FullForm and parsing the text gives back the same expression, for every nesting of operators, signs, powers, rationals, complex numbers, strings, lists, rules, pure functions, patterns and ordinary calls.',
 ['inputs'],'all evaluated expressions built from the printable operators and atoms',
 'Missing or misplaced parentheses depend on the combination of outer operator, inner operator and sign.',
 [C+'string.go','expreduce/parser/parens/parens.go',A+'ex_expression.go',A+'ex_string.go',A+'ex_real.go',A+'ex_symbol.go',A+'ex_rational.go',A+'ex_complex.go'],
 [('StringForm and NeedsParens','expreduce/parser/parens/parens.go, '+C+'string.go')])
prop('C18','Reading arbitrary text never crashes or hangs the process',
 'Giving the interpreter any text whatsoever, well formed or not, leads to an expression or a reported syntax error in finite time; it never terminates the process, panics, or leaves the session unable to read and evaluate the next input.',
 ['inputs'],'all byte strings, biased to mutated and truncated programs and to unusual operators and literals',
 'A finite list of examples cannot cover malformed inputs.',
 ['expreduce/parser/interp.go',C+'easyrun.go'],
 [('error returns from the parser','expreduce/parser/interp.go'),('EvalInterpMany/ReadList loops',C+'easyrun.go')])
prop('C19','Scripts evaluate every statement once, in order, whatever the layout',
 'A script, an initialisation file, a loaded file or a list of statements is split into exactly its statements regardless of line breaks inside brackets, blank lines, comments, semicolons and trailing text; each is evaluated exactly once in order, the last result is returned, and a syntax error does not undo or repeat what came before it.',
 ['inputs','programs'],'all sequences of statements and all layouts of them',
 'Statement boundaries interact with layout in unbounded combinations.',
 [C+'easyrun.go','expreduce/parser/interp.go',C+'builtin_system.go','expreduce.go'],
 [('InterpBuf statement loop',C+'easyrun.go')])
prop('C20','Symbols resolve to the right context and keep their identity',
 'A bare name denotes the first existing symbol along the current context and the context path, and otherwise a new symbol in the current context; fully and partially qualified names denote exactly the named symbol. Begin/End and BeginPackage/EndPackage restore the context and path they found, and symbols of the same short name in different contexts never share values; printing qualifies a name exactly when its short form would not be found.',
 ['histories','programs'],'all sequences of context switches, definitions and references over several contexts and colliding names',
 'Resolution depends on everything seen before; tests cover the default context almost only.',
 ['expreduce/parser/interp.go',C+'builtin_system.go',A+'ex_symbol.go'],
 [('context resolution during conversion','expreduce/parser/interp.go'),('Begin/End rules',C+'resources.go')])
prop('C21','Comparisons and extrema on numbers are mathematically correct',
 'For real numbers of any kind and size Less, Greater, LessEqual, GreaterEqual, Equal, Unequal, Positive, Negative, Max, Min and Sign give the answer of exact comparison, are mutually consistent under negation, swapping and chaining, and stay unevaluated rather than guess when an operand is not a number; Equal and Unequal treat a real as equal to a number that agrees with it to about fourteen digits.',
 ['inputs'],'all pairs and chains of integers, rationals and reals including neighbours beyond 53 bits and equal values of different kinds, and mixtures with symbols',
 'Close values of different number kinds are a thin region no example hits.',
 [C+'builtin_comparison.go',A+'ex_integer.go',A+'ex_rational.go',A+'ex_real.go',C+'resources.go'],
 [('comparisonFn, IsEqual, extremaFunction',C+'builtin_comparison.go')])
prop('C22','Boolean logic agrees with truth tables',
 'And, Or, Not, TrueQ, BooleanQ, AllTrue, Boole and combinations of comparisons evaluate to the value given by truth tables whenever it is determined, keep an equivalent expression when undetermined, and stop at the first deciding argument without evaluating later ones.',
 ['inputs'],'all boolean expressions over constants, undetermined symbols and side-effecting operands',
 'Equivalence must hold for every assignment of the undetermined symbols and every argument order.',
 [C+'builtin_boolean.go',C+'builtin_comparison.go',C+'resources.go'],
 [('short-circuit And/Or',C+'builtin_boolean.go')])
prop('C23','List functions compute what a plain list program would',
 'Part, Take, Span, First, Last, Rest, Append, Prepend, Join, Reverse, Union, Intersection, Complement, Tally, DeleteDuplicates, Select, Count, MemberQ, Cases, PadLeft/PadRight, Range, Partition-like and related functions return exactly the elements an obvious loop would, in the same order, for any list, index and count including negative and boundary ones; out-of-range requests never return wrong elements.',
 ['inputs'],'all lists with repeated, nested and mixed elements and all index, count and span arguments in and around range',
 'Off-by-one and negative-index handling depend on length and index jointly.',
 [C+'builtin_list.go',C+'resources.go'],
 [('list builtins',C+'builtin_list.go')])
prop('C24','Structural functions traverse exactly the specified parts',
 'Map, MapIndexed, Apply, Scan, Cases, Count, DeleteCases, FreeQ, MemberQ, Depth, LeafCount, Length, Head, Flatten, Thread, Distribute and Replace act on exactly the parts at the requested levels, in depth-first order, preserve all other structure, and report positions and sizes that agree with the tree.',
 ['inputs'],'all nested expressions and level specifications',
 'Level arithmetic depends on shape and depth of the whole tree.',
 [C+'builtin_functional.go',C+'builtin_list.go',C+'builtin_expression.go',C+'builtin_manip.go',C+'resources.go'],
 [('level-spec traversal',C+'builtin_functional.go')])
prop('C25','Functional iteration applies functions exactly as specified',
 'Pure functions with slots or named parameters, Fold, FoldList, Nest, NestList, NestWhile, NestWhileList, FixedPoint, FixedPointList, Array, Select and Apply call the function on exactly the specified arguments, the specified number of times and in order, and all list-producing variants end with the value of their non-list counterpart.',
 ['inputs','programs'],'all functions (symbolic, pure, arithmetic), seeds, counts, windows and limits',
 'Boundary counts (zero, one, window larger than history, limits) are each separate paths.',
 [C+'builtin_functional.go',C+'eval.go',C+'resources.go'],
 [('Fold/Nest/FixedPoint implementations',C+'builtin_functional.go'),('evalFunction slot substitution',C+'eval.go')])
prop('C26','Number theory functions are correct for every integer',
 'PrimeQ, Prime, PrimePi, FactorInteger, GCD, LCM, Mod, PowerMod, EulerPhi, EvenQ, OddQ, Fibonacci, IntegerDigits, FromDigits, IntegerPart, FractionalPart and Sign give the mathematically defined value for all integers (and rationals where defined), positive, negative, zero and beyond 64 bits, and satisfy their defining identities.',
 ['inputs'],'all integers within and beyond machine size, all bases and moduli',
 'Tests use small positive numbers.',
 [C+'builtin_numbertheory.go',C+'resources.go'],
 [('number theory builtins',C+'builtin_numbertheory.go')])
prop('C27','Combinatorial functions enumerate exactly the right objects',
 'Permutations, Tuples, IntegerPartitions, Multinomial, Factorial and related functions return every object of the requested kind exactly once, in the documented order, with counts equal to the closed formulas, also for repeated elements and restricted lengths.',
 ['inputs'],'all small lists (with repetitions), sizes and restrictions, and all non-negative integers for the counting functions',
 'Completeness and absence of duplicates are claims about the full output for all inputs.',
 [C+'builtin_combinatorics.go',C+'resources.go'],
 [('combinatorial generators',C+'builtin_combinatorics.go')])
prop('C28','Matrix functions satisfy linear algebra',
 'Dot, Transpose, Inverse, Dimensions, VectorQ, MatrixQ, Total, Mean and related functions agree with textbook definitions on all exact vectors and matrices of compatible shape: products are associative and match index sums, an inverse multiplies to the identity, transposing twice is the identity, reported dimensions are those of the full rectangular array, and incompatible shapes are left unevaluated.',
 ['inputs'],'all rectangular and ragged arrays of exact numbers and symbols of small size',
 'Tests use a few 2x2 cases.',
 [C+'builtin_matrix.go',C+'builtin_list.go',C+'resources.go'],
 [('dimensions, Dot, Inverse, Transpose',C+'builtin_matrix.go')])
prop('C29','Polynomial and rational-function algebra preserves value',
 'Expand, ExpandAll, Factor, FactorSquareFree, FactorTerms, Together, Apart, Numerator, Denominator, Distribute, polynomial quotient, remainder, GCD, Coefficient, CoefficientList, Exponent and PolynomialQ return expressions and values that satisfy their defining identities: equal value at every point, quotient times divisor plus remainder equals dividend, the GCD divides both, coefficients rebuild the polynomial, and expanded results contain no product of sums.',
 ['inputs'],'all small polynomials and rational functions with exact coefficients in up to three variables',
 'Rule-driven algebra goes wrong on particular shapes of input only.',
 [C+'builtin_power.go',C+'builtin_manip.go',C+'builtin_simplify.go',C+'resources.go'],
 [('polynomial rules',C+'resources.go')])
prop('C30','Calculus operations are correct',
 'D of an expression agrees with its true derivative at every point of its domain, is linear and obeys product and chain rules including for undefined functions and repeated and mixed differentiation, and D of a function that it has no rule for is left unevaluated; Sum with symbolic bounds or infinite range that gives a closed form agrees with term-by-term evaluation.',
 ['inputs'],'all compositions of polynomials, elementary functions and undefined functions of small size',
 'Each combination of rules is a different rewriting path.',
 [C+'builtin_calculus.go',C+'resources.go',C+'builtin_arithmetic.go'],
 [('D, Sum and Product rules',C+'resources.go')])
prop('C31','Every solution returned by Solve satisfies the equation',
 'For polynomial equations up to the fourth degree, equations in which the unknown occurs once inside a composition of arithmetic, powers, roots, exponentials, logarithms, absolute values and trigonometric functions and their inverses, equations quadratic in a power of the unknown, and systems of two linear equations: each rule set returned by Solve, for any value of its free integers within its condition, turns the given equations into identities, and never contains an indeterminate or infinite value; equations up to the third degree and regular systems are always solved, and no solution from which such an equation was built is missing. Where Solve cannot solve, it does not return a list of solutions.',
 ['inputs'],'all linear, quadratic and factored polynomial equations and invertible compositions with exact coefficients, and small linear systems',
 'Tests list fixed equations with expected answers.',
 [C+'builtin_solve.go',C+'resources.go'],
 [('Solve rules',C+'resources.go')])
prop('C32','Simplification and elementary functions preserve numeric value',
 'Automatic evaluation of powers, roots, logarithms, absolute values and trigonometric functions, and explicit transformations (Simplify, FullSimplify, TrigExpand, TrigReduce, TrigToExp, ComplexExpand, PowerExpand on positive reals), give expressions with the same numeric value as the original wherever it is defined.',
 ['inputs'],'all small expressions of radicals, powers, logs, exponentials and trigonometric functions at exact and symbolic arguments, evaluated at sample points',
 'Branch cuts, signs of radicands and special angles each affect thin families of inputs.',
 [C+'builtin_power.go',C+'builtin_trig.go',C+'builtin_simplify.go',C+'resources.go'],
 [('radical simplification',C+'builtin_power.go'),('trig and simplify rules',C+'resources.go')])
prop('C33','Saved definitions load back to the same behaviour',
 'Saving symbols to a file and loading the file into another session reproduces the same values, definitions and function behaviour, whatever expressions, strings, contexts or functions are saved, and the internal binary encoding of expressions round-trips.',
 ['inputs','histories'],'all saved values and definition sets',
 'Depends on printing or encoding every kind of expression faithfully.',
 [C+'builtin_system.go',A+'gob.go',C+'string.go'],
 [('Save/Get',C+'builtin_system.go'),('gob registration',A+'gob.go')])
prop('C34','Output streams receive exactly what is written, in order',
 'Text written to a stream of a session reaches exactly that stream, once, completely and in the order written; standard output and standard error are reachable by name with or without their index, unknown streams are rejected without writing anywhere, and the reported list of streams is accurate.',
 ['histories'],'all sequences of writes to streams given by name, index or both, with arbitrary text, in several sessions',
 'Routing depends on names, indices and history together.',
 ['expreduce/streammanager/streammanager.go',C+'builtin_system.go'],
 [('stream table and index defaulting','expreduce/streammanager/streammanager.go')])
prop('C35','Profiling counters add up',
 'The time and count accumulated for each key of each counter group equal the sum of everything added to it, counters never mix keys or groups, merging one counter set into another adds its totals and its counts, and the printed table lists the largest totals in order.',
 ['histories'],'all sequences of additions, merges and renderings',
 'A statement about sums over arbitrary histories.',
 ['expreduce/timecounter/timecounter.go'],
 [('Group.AddTime/Update/String','expreduce/timecounter/timecounter.go')])
prop('C36','Plots and graphics draw exactly the given data',
 'Rendering a graphics expression draws every line in it, in order, with exactly its points and the colour, opacity and thickness set by the directives before it in its own or an enclosing list; other primitives and directives are left out, and malformed lines or directives are reported as errors. Plot samples each function over the whole requested interval in increasing order with the exact function values and drops only undefined points.',
 ['inputs'],'all graphics expressions with any number of lines, points and directives, and all plotted functions and ranges',
 'Tests never inspect rendered output.',
 ['expreduce/graphics/graphics.go',C+'builtin_plot.go',C+'resources.go'],
 [('Render','expreduce/graphics/graphics.go')])
prop('C37','String functions agree with text semantics',
 'StringJoin, StringLength, StringTake, StringReplace, ToString, base64 ExportString and comparisons treat strings as sequences of characters: lengths add under joining, taken pieces concatenate back, replacement replaces exactly the leftmost non-overlapping occurrences, and every string survives evaluation, storage and printing unchanged.',
 ['inputs'],'all strings including empty, long, non-ASCII and quote or backslash containing ones, and all index arguments',
 'Tests use short ASCII strings.',
 [C+'builtin_string.go',A+'ex_string.go',C+'string.go'],
 [('string builtins',C+'builtin_string.go')])
prop('C38','The session history records every input and output faithfully',
 'After any sequence of top-level inputs the line counter has advanced by exactly one per input, In[n] re-evaluates and Out[n] returns what was entered and produced at line n, an uncaught exception is reported as held and cleared without affecting the next line, and history entries are never altered by later inputs.',
 ['histories'],'all sequences of inputs including failing, throwing, aborting and self-referencing ones',
 'A property of whole sessions.',
 [C+'evalstate.go','expreduce.go',C+'resources.go'],
 [('ProcessTopLevelResult',C+'evalstate.go')])
prop('C39','Random values lie in range and repeat under the same seed',
 'RandomReal[], RandomReal[max] and RandomReal[{min, max}] always return a real number inside the requested interval (up to rounding), the numbers spread over it, and after SeedRandom with the same seed the same requests produce the same sequence again, whatever is evaluated in between.',
 ['inputs','histories'],'all intervals, seeds and histories of requests',
 'Range violations are rare events.',
 [C+'builtin_random.go',C+'resources.go'],
 [('RandomReal/SeedRandom',C+'builtin_random.go')])
prop('C40','Interpreter sessions are independent and safe to use concurrently',
 'Any number of interpreters in one process can be created and used concurrently without data races, deadlock or influence on one another: each gives the same results as when run alone. ParallelTable inside one session gives the same result as Table for bodies without side effects, evaluations by several goroutines of one session give the results of one, and the shared definitions tolerate concurrent readers and writers without losing definitions.',
 ['schedules','histories'],'all interleavings of evaluations in several sessions and of concurrent access to shared structures',
 'The single concurrency test runs one fixed workload without the race detector.',
 [C+'evalstate.go',C+'definition_map.go',C+'builtin_list.go','expreduce/timecounter/timecounter.go',M+'pdmanager.go'],
 [('per-session state, concurrent definition map',C+'evalstate.go, '+C+'definition_map.go')])

TECH = {}
CLAIMED = None
exec(open(os.path.join(ROOT,'tools','claims.py')).read())

with open(os.path.join(ROOT,'properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False)+'\n')
checks, na = [], []
for p in P:
    if p['id'] in CLAIMS:
        tech, note = CLAIMS[p['id']]
        checks.append(dict(property=p['id'], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
            technique=tech, level='exploration', level_note=note))
    else:
        na.append(dict(property=p['id'], reason=NA.get(p['id'],'check not built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='All checks are property-based tests run by harness/ (own engine, see DESIGN.md). The core packages are built with a go build overlay that supplies the generated rubi_snapshot package missing from the repository. No hooks are needed in /repo.')
json.dump(m, open(os.path.join(ROOT,'MANIFEST.json'),'w'), indent=1)
import collections
assert len({p['id'] for p in P})==len(P)
for p in P: assert len(p['title'])<=80, p['title']
print(len(P),'properties',len(checks),'checks')
