NA = {}
BASE = "Generated-input search: no violation among the cases run, none excluded beyond known-findings.json; says nothing about inputs outside the stated generators. Trusts Go, math/big and the harness's reference model. Core is built with an empty stub for the generated Rubi snapshot."
CLAIMS = {}

CLAIMS['C01'] = ('property-based testing: order laws over pairs/triples, reference order, permutation metamorphics', BASE)
CLAIMS['C02'] = ('property-based testing: pairs and construction histories against an independent structural equality, hash agreement, grouping functions against a model', BASE)
CLAIMS['C03'] = ('property-based testing: sequences of built-in calls over shared values, invariance against recorded structure and hash; deep-copy isolation', BASE)
CLAIMS['C04'] = ('property-based testing: generated arithmetic trees against exact Gaussian-rational reference arithmetic', BASE)
CLAIMS['C05'] = ('property-based testing: generated mixed exact/approximate trees against exact values with propagated rounding bounds', BASE)
CLAIMS['C06'] = ('property-based testing: generated sums and products against a monomial model, regrouping metamorphics, values at random points', BASE)
CLAIMS['C07'] = ('property-based testing: histories of storing, redefining and re-evaluating against a replay of all definitions on renamed symbols; idempotence and repeatability of generated calls', BASE)
CLAIMS['C34'] = ('property-based testing: histories of writes against a model of the outputs', BASE)
CLAIMS['C35'] = ('property-based testing: histories of additions and merges against a reference table', BASE)
CLAIMS['C36'] = ('property-based testing: generated graphics expressions against a reference traversal, malformed variants, sampled plot functions against Go floats', BASE)
CLAIMS['C09'] = ('property-based testing: generated patterns and subjects against a brute-force reference matcher, subjects built by filling in patterns, bindings put back, invariance of the given bindings', BASE)
CLAIMS['C10'] = ('property-based testing: everything the match iterator and ReplaceList yield compared with a brute-force enumeration, in order where it is specified, and counts of splits of long lists', BASE)
CLAIMS['C11'] = ('property-based testing: generated expressions, overlapping rules and positions against a reference rewriter built on the reference matcher', BASE)

CLAIMS["C12"] = ('stateful model-based testing: random histories of assignments, redefinitions, clears, increments, attribute changes and DownValues assignments against a reference store after every step', BASE)
CLAIMS['C16'] = ('grammar-based property testing: random operator terms laid out with every documented operator, read back and compared with the tree of the documented precedence table; the same term in other layouts and in full form', BASE)
CLAIMS['C18'] = ('fuzzing with structured and mutated texts: reading never panics or corrupts the session, a rejected text leaves later inputs unchanged, an accepted one prints', BASE)
CLAIMS['C17'] = ('grammar-based property testing: random operator terms and evaluated values printed in InputForm and FullForm and read back, compared as terms', BASE)
CLAIMS['C19'] = ('model-based property testing: generated scripts in generated layouts, with errors, through every way of running them including the program itself, against a model of the session', BASE)
CLAIMS['C08'] = ('model-based testing: random attribute sets and argument lists of inert, logging, held and sequence arguments against a reference evaluator of attributes; random histories of attribute changes', BASE)
CLAIMS['C14'] = ('model-based testing: random nests of Table, Do, Sum, Product and ParallelTable over every form of iterator, with prior definitions and early exits, against a reference interpreter; closed-form sums against iterated ones', BASE)
CLAIMS['C20'] = ('stateful model-based testing: random histories of context switches, definitions and references against a model of resolution, existence and printing', BASE)
CLAIMS['C13'] = ('model-based testing: random programs of nested Module, Block, With, Function and recursive rules over colliding names, against a reference interpreter; localised function definitions against a model of scopes', BASE)
CLAIMS['C15'] = ('model-based testing: random imperative programs with loops, branches, early exits and exceptions, their value, effects and final variables against a reference interpreter', BASE)
CLAIMS['C21'] = ('property-based testing: pairs and chains of close integers, rationals and reals against exact rational comparison; irrational roots against rational bounds; undecidable operands', BASE)
CLAIMS['C22'] = ('model-based testing: random boolean formulas over constants, undetermined symbols and logging operands against a reference interpreter of short-circuit logic and truth tables over all assignments', BASE)
CLAIMS['C23'] = ('model-based testing: lists with repeated, nested and mixed elements under every list function, with indices, spans and counts in and around range, against plain list programs', BASE)
CLAIMS['C24'] = ('model-based testing: nested expressions under every structural function and every form of level specification against a reference tree walk, including order of visits', BASE)
CLAIMS['C25'] = ('model-based testing: random functions that log their calls under every iteration construct with random windows, limits, counts and throws against a reference; random slot and named-parameter bodies against reference substitution', BASE)
CLAIMS['C26'] = ('model-based testing: integers and rationals of every sign and size, multiples, primes beyond 64 bits, powers of bases and their neighbours against big-integer reference algorithms and constructed factorizations', BASE)
CLAIMS['C27'] = ('model-based testing: complete enumeration of permutations, tuples and partitions of random lists with repeated and compound elements against a reference enumeration in documented order; counting functions against closed formulas', BASE)
CLAIMS['C28'] = ('model-based testing: random chains of vectors and matrices of fitting and other shapes, invertible, singular and symbolic matrices, and ragged arrays of any head against index-sum, elimination and shape references', BASE)
CLAIMS['C37'] = ('property-based testing: texts over repeating, multi-byte, escaped and control characters under every string function against reference operations on characters; printed forms read back; storage as values and as definition keys', BASE)
CLAIMS['C38'] = ('stateful model-based testing: random sessions of assignments, throws, self-changing inputs and references to earlier inputs and outputs against a reference session, in process and through the transcript of the program', BASE)
CLAIMS['C39'] = ('property-based testing: intervals of every kind and size with interval and spread checks; sequences of random requests replayed under the same seed with other evaluations and draws in between', BASE)
CLAIMS['C40'] = ("property-based testing under the race detector: random programs run alone and next to programs in other sessions, sessions created next to running ones, ParallelTable against Table and against goroutines of one session, random histories of concurrent readers and writers of one session's definitions", BASE)
CLAIMS['C33'] = ('stateful model-based testing: values of every kind and random histories of definitions saved and loaded into other sessions and other runs of the program, compared with the session that made them; binary encoding round-trips; files damaged at random', BASE)
CLAIMS['C29'] = ('model-based testing: random unexpanded polynomials and rational functions in three variables with every algebra function against a reference polynomial arithmetic, exact values at random points, defining identities of division, greatest common divisors and factorizations', BASE)
CLAIMS['C30'] = ('property-based testing: random compositions of elementary and unknown functions differentiated (also repeatedly, in lists, with respect to functions) and compared with reference differentiation at random points; closed-form sums against their values', BASE)
CLAIMS['C31'] = ('property-based testing: equations built from known roots and random invertible compositions; every returned solution is substituted and evaluated numerically, with random free integers and its conditions, and the known roots must be among the solutions', BASE)
CLAIMS['C32'] = ('property-based testing: random compositions of powers, roots, logarithms, trigonometric functions and complex parts, and expressions of the shapes the transformations know, evaluated automatically or transformed and compared with their numeric value at random real and complex points away from branch cuts', BASE)
