import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])
    if state: a['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
IN=["inputs"]
p("C01","Automatic simplification of sums and differences preserves the value",
 "Adding or subtracting any expressions yields an expression that denotes exactly the same real number as the un-simplified sum at every assignment of real values to the symbols (positive values to positive symbols) for which all operands are defined. This covers collecting equal terms, constant and irrational coefficients, flattening nested sums, cancelling to zero and contracting sin(x)^2 + cos(x)^2. No summand is ever lost, duplicated or given a wrong coefficient.",
 IN,"all lists of operand expressions and all real assignments of the symbols at which the operands are defined",
 "The unit tests compare a few dozen hand-picked sums with hand-written results; the space of operand lists, nestings and coefficient kinds is infinite.",
 ["src/sumsimpl.cpp","src/sum.cpp","src/baseptrlistfct.cpp","src/base.cpp","src/product.cpp"],
 [("pairwise merge of sorted operand lists with term collection","src/sumsimpl.cpp"),("creation of a sum from the simplified list","src/sum.cpp Sum::create")],obs=["operator+, operator-, +=, -= on Var"])
p("C02","Automatic simplification of products and quotients preserves the value",
 "Multiplying or dividing any expressions yields an expression that denotes exactly the same real number as the un-simplified product or quotient at every real assignment of the symbols (positive values to positive symbols) at which all operands are defined and no divisor is zero. This covers merging equal bases, numeric and irrational constant factors, contraction of trigonometric factors and the expansion of constant prefactors over sums.",
 IN,"all lists of operand expressions and all real assignments at which the operands are defined",
 "Tests compare selected products with literal results; contraction runs over all pairs in lists of any length and over all combinations of numeric powers, which examples cannot exhaust.",
 ["src/productsimpl.cpp","src/product.cpp","src/baseptrlistfct.cpp"],
 [("in-place pairwise contraction of a factor list","src/productsimpl.cpp contract"),("merge of factor lists","src/productsimpl.cpp merge"),("creation of a product from the simplified list","src/product.cpp Product::create")],obs=["operator*, operator/, *=, /= on Var"])
p("C03","Automatic simplification of powers and roots preserves the value",
 "Raising any expression to any exponent (including square roots, nested powers, powers of products, numeric bases and e^log(x)) yields an expression with exactly the value of the un-simplified power wherever that power is defined over the reals. Transformations that are only valid for positive bases or integral exponents are only applied when that condition is known to hold. Irrational numeric powers stay exact.",
 IN,"all base and exponent expressions and all real assignments at which the power is defined over the reals",
 "Validity depends on the sign of the base and parity of exponents at every point; tests check structural results for single examples, not the value for both signs.",
 ["src/powersimpl.cpp","src/power.cpp","src/numpowersimpl.cpp","src/primefac.cpp"],
 [("case distinction on base kind and exponent parity/sign","src/powersimpl.cpp"),("prime factor based canonicalization of prefactor*base^exponent","src/numpowersimpl.cpp, src/primefac.cpp")],obs=["pow, sqrt"])
p("C04","Expansion preserves the value",
 "Expanding any expression yields an expression with the same value at every real assignment of the symbols at which the original expression is defined.",
 IN,"all expressions and all real assignments at which they are defined",
 "Tests expand a handful of products of sums; distribution over arbitrary operand lists and integer exponents of either sign cannot be sampled exhaustively.",
 ["src/baseptrlistfct.cpp","src/sum.cpp","src/product.cpp","src/power.cpp","src/function.cpp","src/functions.cpp"],
 [("distribution of products over sums","src/baseptrlistfct.cpp expandAsProduct"),("repeated multiplication for integer powers of sums","src/power.cpp")],obs=["expand"])
p("C05","Normalization and simplification preserve the value",
 "Normalizing or simplifying any expression yields an expression with the same value at every real assignment of the symbols at which original and result are defined over the reals and no cancelled denominator is zero, and it is never undefined everywhere if the original is not; no internally used temporary symbol is left in the result. The quotient of the returned numerator and denominator of an expression has the value of that expression.",
 IN,"all expressions and all real assignments at which they are defined",
 "Normal form involves gcd cancellation, temporary symbols and caches; tests cover selected fractions only and compare to literal results.",
 ["src/fraction.cpp","src/powernormal.cpp","src/symbolmap.cpp","src/base.cpp","src/sum.cpp","src/product.cpp","src/function.cpp","src/functions.cpp","src/poly.cpp"],
 [("common denominator and cancellation","src/sum.cpp toCommonDenom, src/fraction.cpp cancel"),("temporary symbols for non-rational parts and back-replacement","src/symbolmap.cpp")],
 state=[("replacement map","non-rational subexpressions to temporary symbols during one normalization","src/symbolmap.h")],obs=["normal","simplify","numerator","denominator"])
p("C06","Differentiation yields the mathematical derivative",
 "The derivative of any expression with respect to a symbol has, at every real assignment where the expression is differentiable and the result is defined over the reals, the value of the mathematical partial derivative. Differentiating with respect to anything but a symbol yields the undefined expression.",
 IN,"all expressions, all symbols, all real assignments in the interior of the domain",
 "Every function kind and nesting combination has its own rule; tests check one or two arguments per rule.",
 ["src/sum.cpp","src/product.cpp","src/power.cpp","src/logarithm.cpp","src/trigonometric.cpp","src/symbol.cpp","src/numeric.cpp","src/constant.cpp","src/base.cpp","src/functions.cpp"],
 [("sum, product, power and chain rules","diffWrtSymbol implementations"),],obs=["diff"])
p("C07","Substitution replaces every occurrence and nothing else",
 "Substituting an expression for a symbol yields an expression whose value at any assignment equals the value of the original with the symbol assigned the value of the replacement, wherever both are defined over the reals. Every occurrence is replaced, other parts keep their value, and substituting something that does not occur leaves the value unchanged.",
 IN,"all expressions, symbols or subexpressions, replacements and real assignments",
 "Tests substitute in a few small expressions; occurrences at every depth and under every operation have to be handled.",
 ["src/base.cpp","src/sum.cpp","src/product.cpp","src/power.cpp","src/logarithm.cpp","src/trigonometric.cpp","src/baseptrlistfct.cpp","src/functions.cpp"],
 [("recursive replacement and re-simplification","subst implementations")],obs=["subst"])
p("C08","Sign queries are sound",
 "If an expression is reported positive, it is never negative, and if it is reported negative, it is never positive, at any assignment of the symbols (positive values to positive symbols) at which it is defined; an expression is never reported both. Numbers are reported positive or negative exactly according to their sign.",
 IN,"all expressions and all real assignments at which they are defined",
 "A sign claim quantifies over all assignments; tests compare with expected booleans for selected expressions.",
 ["src/sum.cpp","src/product.cpp","src/power.cpp","src/logarithm.cpp","src/trigonometric.cpp","src/symbol.cpp","src/numeric.cpp","src/constant.cpp","src/undefined.cpp","src/number.cpp"],
 [("sign rules per expression kind","isPositive/isNegative implementations")],obs=["isPositive","isNegative"])
p("C09","Equality is structural identity, and equal expressions hash equally",
 "Equality of exact expressions holds if and only if they have the same kind, the same number, name or sign attribute, and pairwise equal operands in the same order; it is symmetric, transitive and, on defined expressions, reflexive. Equal expressions have equal values and equal hashes; inequality is its negation, and the undefined expression equals nothing, itself included.",
 IN,"all pairs and triples of expressions built without inexact floating point numbers",
 "Tests compare selected pairs; an equality that confuses two kinds or ignores one attribute, or a hash reading something equality ignores, only shows for particular pairs.",
 ["src/base.cpp","src/numeric.cpp","src/symbol.cpp","src/name.cpp","src/constant.cpp","src/function.cpp","src/trigonometric.cpp","src/logarithm.cpp","src/undefined.cpp","src/baseptr.cpp","src/baseptrlist.cpp","src/number.cpp","src/var.cpp"],
 [("comparison per kind","isEqualDifferentBase implementations"),("hash per kind","hash implementations")],obs=["operator==, operator!=, std::hash on Var"])
p("C10","Operand ordering is a strict order, so operand order does not matter",
 "The canonical ordering used inside sums and products never claims both that x must precede y and that y must precede x, and never orders an expression against an equal one. Therefore adding or multiplying the same two expressions in either order gives equal results.",
 IN,"all pairs of exact expressions",
 "Order rules form a matrix over pairs of kinds with recursive cases; tests check a fraction of the pairs in one direction.",
 ["src/order.cpp","src/sumsimpl.cpp","src/productsimpl.cpp","src/name.cpp","src/numeric.cpp"],
 [("kind-by-kind comparison with recursion into operands","src/order.cpp doPermute")],obs=["operator+, operator*"])
p("C11","Exact number arithmetic is exact at any size",
 "Sums, differences, products, quotients, integral powers and comparisons for equality of integers and fractions are exact for numbers of any magnitude and sign, with fractions always in lowest terms and positive denominator. A rational power is returned as an exact fraction only if it is exactly that root. Division by zero and even roots of negative numbers are rejected with an exception and never give a number.",
 IN,"all integers and fractions of any size and sign, all rational exponents",
 "Tests use small samples; overflow, sign and reduction errors only appear for particular magnitudes and sign combinations.",
 ["src/number.cpp","src/number.h","src/numberfct.cpp","src/int.cpp"],
 [("variant of arbitrary precision rational and double","src/number.h"),("power by trivial, negative, irrational and rational cases","src/number.cpp")],obs=["Var arithmetic on numbers"])
p("C12","Numeric powers in lowest form: prime factorization keeps the number",
 "Factorizing a positive rational into primes and evaluating the factors gives the number back, and multiplying, raising, extracting or collecting factors changes the represented number exactly as stated. The canonical form prefactor * base^exponent of a numeric power always has the same value as its input, for every base, exponent, prefactor and resolution limit.",
 ["inputs","configurations"],"all rational bases, exponents and prefactors with a defined power; all prime resolution limits",
 "Tests list a few dozen powers; correctness depends on the divisibility of all exponents by all denominators.",
 ["src/primefac.cpp","src/numpowersimpl.cpp"],
 [("separate numerator/denominator prime lists","src/primefac.cpp"),("cancel/extract/collect steps","src/numpowersimpl.cpp")],obs=["pow, sqrt, operator* on numbers"])
p("C13","Numerical evaluation agrees with the value",
 "Whenever an expression is numerically evaluable, its numerical evaluation and conversion to a floating point number equals its mathematical value, and it is evaluable exactly if it contains no symbol and nothing undefined. Conversion to an integer succeeds exactly for integral values in range and throws otherwise.",
 IN,"all symbol-free expressions",
 "Tests evaluate a few constants; every kind and nesting has its own evaluation rule.",
 ["src/sum.cpp","src/product.cpp","src/power.cpp","src/numeric.cpp","src/constant.cpp","src/symbol.cpp","src/undefined.cpp","src/logarithm.cpp","src/trigonometric.cpp","src/var.cpp"],
 [("recursive numeric evaluation","numericEval implementations"),("range-checked conversion","src/var.cpp, src/int.cpp")],obs=["explicit operator double, explicit operator int"])
p("C14","Polynomial division and gcd satisfy their defining identities",
 "Dividing one polynomial by another yields quotient and remainder with dividend = quotient * divisor + remainder for every value of the variables, in exact and in pseudo division (up to the stated factor). The greatest common divisor divides both arguments without remainder, for both available algorithms.",
 IN,"all pairs of polynomial expressions in any number of variables",
 "Tests divide selected polynomials; leading coefficients, degrees and nested variables vary without bound.",
 ["src/poly.cpp","src/polyinfo.cpp","src/gcd.cpp","src/primitivegcd.cpp","src/subresultantgcd.cpp"],
 [("repeated reduction of the leading term","src/poly.cpp divide"),("recursive gcd over variables","src/gcd.cpp")],obs=["normal"])
p("C15","Linear solve, inverse and determinant are exact",
 "For every square system with non-singular coefficient matrix, the returned solution satisfies every equation, the inverse times the matrix is the identity and the determinant has the mathematical value including sign, also when rows or columns are skipped; coefficient matrix and right hand side inputs to solve and determinant are unchanged. A singular matrix is always rejected with an exception by solve and inverse, and its determinant is either zero or the same exception.",
 IN,"all dimensions, all entries, all skip patterns, all matrix/vector container types",
 "Tests use a dozen fixed matrices of small dimension; pivoting and skipping paths depend on the pattern of zeros.",
 ["src/ludecomp.h","include/tsym/solve.h","src/solve.cpp","src/directsolve.cpp","src/stdvecwrapper.h"],
 [("LU decomposition with pivoting, substitution","src/ludecomp.h, src/directsolve.cpp, src/solve.cpp"),("skip field mapping","include/tsym/solve.h")],obs=["solve","invert","determinant"])
p("C16","Trigonometric and logarithm simplification preserves the value",
 "Creating a sine, cosine, tangent, arc function, two-argument arc tangent or logarithm of any expression yields an expression with the value of that function of the argument (of the two-argument arc tangent up to a multiple of 2 pi) wherever both are defined; this includes the tabulated special angles in all quadrants, symmetries, inverse pairs and logarithm rules. Arguments outside of the real domain give the undefined expression.",
 IN,"all argument expressions and real assignments at which the function is defined",
 "Tests check some table entries in some quadrants; every multiple of pi/12, sign and composition is a case of its own.",
 ["src/trigonometric.cpp","src/numtrigosimpl.cpp","src/logarithm.cpp","src/function.cpp"],
 [("table of special angles and range shift","src/numtrigosimpl.cpp"),("symmetry and inverse rules","src/trigonometric.cpp"),("log of products, powers and constants","src/logarithm.cpp")],obs=["sin, cos, tan, asin, acos, atan, atan2, log"])
p("C17","Undefined is absorbing",
 "Every arithmetic operation, function, expansion, normalization or derivative with an undefined operand yields the undefined expression, it has no numerical value, is neither positive nor negative, and never turns into a defined value. Division by zero and real-undefined numeric operations yield it, too.",
 IN,"all operations with undefined at every operand position",
 "Tests place an undefined operand in a few positions only.",
 ["src/undefined.cpp","src/sum.cpp","src/product.cpp","src/power.cpp","src/logarithm.cpp","src/trigonometric.cpp","src/baseptrlistfct.cpp"],
 [("check for undefined operands on creation","create functions"),("absorbing methods","src/undefined.cpp")],obs=["all operators and functions on Var"])
p("C18","Containment and symbol collection are complete and exact",
 "An expression is reported to contain another exactly if it equals it or one of its operands, at any depth, contains it; the collected symbols are exactly the distinct symbols occurring anywhere in the expression, each once. The operands and names reported for an expression are those it is made of.",
 IN,"all pairs of expressions",
 "Tests query small expressions; a missed position (exponent, function argument) shows only for particular nestings.",
 ["src/base.cpp","src/functions.cpp","src/trigonometric.cpp","src/function.cpp","src/var.cpp"],
 [("recursive search","src/base.cpp has, src/functions.cpp collectSymbols")],obs=["has","collectSymbols","operands","name"])
p("C19","Results do not depend on history or cache contents",
 "Every operation yields an equal result no matter which operations were executed before, including when its result is served from a cache, after caches were cleared, or after the prime resolution option was changed and changed back. Operations never modify expressions that already exist.",
 ["histories","inputs","configurations"],"all sequences of operations before the observed one",
 "Tests run each operation once in a mostly fresh state (a fixture clears state); hits with different keys, option changes and long histories are not sampled.",
 ["src/cache.h","src/cache.cpp","src/sumsimpl.cpp","src/productsimpl.cpp","src/base.cpp","src/baseptrlistfct.cpp","src/poly.cpp","src/gcd.cpp","src/options.cpp","src/symbol.cpp","src/polyinfo.cpp"],
 [("caches keyed by structural equality (plus option where relevant)","src/cache.h and its users")],
 state=[("registered caches","memoized results","src/cache.h"),("temporary symbol counter","unique names","src/symbol.cpp"),("prime resolution option","limit for numeric power simplification","src/options.cpp")],obs=["all functions on Var"])
p("C20","Parsing gives the meaning of the text, printing can be parsed back",
 "A string following the expression syntax parses to an expression with the value given by the usual precedence and associativity rules, and every other string is rejected without a result. Printing an exact expression in plain ASCII and parsing the text gives an equal-valued expression.",
 IN,"all strings; all exact expressions with plain ASCII symbol names",
 "Tests parse and print a few dozen strings; nesting, unary signs and precedence combine without bound.",
 ["src/parser.cpp","src/printer.cpp","src/plaintextprintengine.cpp","src/name.cpp","src/symbol.cpp"],
 [("grammar with stack of semantic actions","src/parser.cpp"),("printer with parentheses rules","src/printer.cpp")],obs=["parse","print, operator<<"])
with open('properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
