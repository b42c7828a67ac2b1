#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script for readability)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

S = "src/"
prop("C01", "Automatic simplification keeps the value of every expression",
 "An expression assembled with arithmetic operators, powers, roots, logarithms and (inverse) trigonometric functions evaluates, at every assignment of real numbers to its symbols (positive ones for symbols declared positive) where the expression as written has a real value, to exactly that value. Automatic simplification during construction never changes it, never turns it into Undefined and never fails with an exception or a crash.",
 ["inputs", "programs"], "every expression recipe over symbols, integers, fractions, doubles, pi, e and all operations, and every point of definition",
 "The unit tests compare a few hundred hand written expressions with expected forms; the interaction of the contraction rules for numeric powers, trigonometric powers, equal bases and nested powers depends on the combination and order of factors, which they sample only sparsely.",
 [S+f for f in ("productsimpl.cpp","sumsimpl.cpp","powersimpl.cpp","numpowersimpl.cpp","primefac.cpp","trigonometric.cpp","numtrigosimpl.cpp","logarithm.cpp","power.cpp","product.cpp","sum.cpp")],
 [("factor list simplification", S+"productsimpl.cpp"), ("summand list simplification", S+"sumsimpl.cpp"), ("power simplification", S+"powersimpl.cpp"), ("function creation", S+"trigonometric.cpp, "+S+"logarithm.cpp")],
 ["Var operators, pow/sqrt/log/sin/... and evaluation of the resulting tree via type/operands/name"])
prop("C02", "Undefined expressions are recognised and Undefined propagates",
 "Every operation that has no real result (division by zero, a root or logarithm of a negative constant, log of zero, an inverse sine or cosine outside of [-1, 1], the tangent at an odd multiple of pi/2, differentiation with respect to something that isn't a symbol, a malformed symbol name) yields Undefined, and every operation with an Undefined operand yields Undefined again. Undefined is never equal to anything, itself included, and never appears as an operand of another expression. Zero to a symbolic power counts as zero and 0^0 as one.",
 ["inputs", "programs"], "every operation, every operand, with Undefined at any position",
 "Tests check single operations with an Undefined operand or a single invalid argument, not chains of them or invalid constants whose sign is only known numerically.",
 [S+"undefined.cpp", S+"power.cpp", S+"logarithm.cpp", S+"trigonometric.cpp", S+"sum.cpp", S+"product.cpp", S+"base.cpp", S+"var.cpp"],
 [("Undefined checks on creation", S+"sum.cpp, "+S+"product.cpp, "+S+"power.cpp"), ("argument validation", S+"logarithm.cpp, "+S+"trigonometric.cpp")],
 ["Var::type() of results, operands(), operator=="])
prop("C03", "Expansion keeps the value and reaches the fully distributed form",
 "expand(f) has the same value as f wherever f is defined, and expanding again changes nothing (other than denominators that only emerge during the expansion). For polynomial expressions the result is the sum of monomials with exactly the coefficients of the mathematical expansion, so two polynomial expressions with exact coefficients expand to equal objects if and only if they denote the same polynomial.",
 ["inputs"], "every expression, in particular every polynomial recipe with nested sums, products and integer powers",
 "The tests expand about twenty fixed expressions; the number of combinations of sums, products, nested powers and cancelling terms is unbounded.",
 [S+"baseptrlistfct.cpp", S+"power.cpp", S+"product.cpp", S+"sum.cpp"],
 [("distribution over sums", S+"baseptrlistfct.cpp expandAsProduct"), ("integer powers of sums", S+"power.cpp")],
 ["expand()"])
prop("C04", "Simplification and normalisation keep the value and cancel completely",
 "simplify(f) and normal(f), as well as the quotient numerator(f)/denominator(f), have the value of f wherever both are defined. For rational functions common polynomial factors are cancelled completely, a rational expression that is identically zero simplifies to the number zero, and simplify never returns something more complex than the expanded input.",
 ["inputs"], "every expression; for the cancellation part every rational function with rational coefficients",
 "Tests normalise a few dozen fixed fractions; correctness depends on multivariate gcds, temporary symbols for functions and roots, and common denominators of arbitrary combinations.",
 [S+f for f in ("functions.cpp","fraction.cpp","sum.cpp","product.cpp","powernormal.cpp","symbolmap.cpp","gcd.cpp","subresultantgcd.cpp","primitivegcd.cpp","poly.cpp")],
 [("common denominator", S+"sum.cpp toCommonDenom"), ("cancellation", S+"fraction.cpp, "+S+"gcd.cpp"), ("replacement of non-polynomial parts", S+"symbolmap.cpp, "+S+"powernormal.cpp")],
 ["simplify(), normal(), numerator(), denominator(), complexity()"])
prop("C05", "Derivatives are the derivatives of the represented function",
 "diff(f, x) evaluates to the derivative of f with respect to x at every point where f is differentiable, treating all other symbols (also one with the same name and a different positive flag) as constants. Repeated and mixed differentiation are consistent, and an expression that doesn't contain x has the derivative zero.",
 ["inputs"], "every expression, every symbol, every point where f is differentiable",
 "The tests contain a handful of derivatives per function type; chain, product and power rules interact with simplification for arbitrary nesting.",
 [S+"power.cpp", S+"product.cpp", S+"sum.cpp", S+"trigonometric.cpp", S+"logarithm.cpp", S+"symbol.cpp", S+"base.cpp"],
 [("per type differentiation", S+"*.cpp diffWrtSymbol")], ["diff()"])
prop("C06", "Substitution replaces exactly the requested part",
 "subst(f, x, t) for a symbol x has, at every point, the value that f takes when x is assigned the value of t, and x no longer occurs unless t contains it; it is Undefined only if f has no value there (or log(x^2), which is simplified to 2*log(x), is evaluated at a negative x). Substituting a composite part of f by a new symbol yields an expression which takes the value of f once the new symbol is assigned the value of that part. Substituting something that doesn't occur, or a part by itself, changes nothing.",
 ["inputs"], "every expression, every sub-expression or symbol, every replacement",
 "Tests use around fifteen fixed substitutions; re-simplification after the replacement depends on the combination.",
 [S+"base.cpp", S+"sum.cpp", S+"product.cpp", S+"power.cpp", S+"trigonometric.cpp", S+"logarithm.cpp", S+"baseptrlistfct.cpp"],
 [("recursive replacement and re-creation", S+"*.cpp subst")], ["subst(), has()"])
prop("C07", "Equality is canonical, sound and consistent with hashing",
 "Sums and products of the same operands are equal objects, independent of the order and grouping in which they are assembled, f - f is zero, f/f is one and -(-f) is f; equal objects have the same hash, type, text, complexity and operands, and are interchangeable as keys of hash containers. Equality is reflexive (except for Undefined), symmetric, the negation of inequality, and two equal expressions have the same value everywhere. Not claimed for doubles, for different forms of numeric powers (3*3^(-1/2) and 3^(1/2)), for fractional powers of expressions with an undetermined sign, which are only partially contracted, and for a number times a constant sum, which is distributed on creation.",
 ["inputs", "programs"], "all pairs of expressions, all orders and groupings of the operands of sums and products of rational expressions, symbolic powers and functions",
 "Tests construct most expressions in one order only; order independence is a statement about all permutations and bracketings.",
 [S+"order.cpp", S+"base.cpp", S+"baseptr.cpp", S+"baseptrlist.cpp", S+"sumsimpl.cpp", S+"productsimpl.cpp", S+"number.cpp", S+"name.cpp", S+"var.cpp"],
 [("ordering relation", S+"order.cpp"), ("structural equality", S+"base.cpp isEqual"), ("hashing", S+"*.cpp hash")],
 ["operator==, std::hash<Var>, operator<<"])
prop("C08", "Printed expressions read back as the same expression",
 "The ASCII text of every expression without floating point numbers and Undefined is accepted by the parser and denotes the same value as the printed expression, with e standing for Euler's number; for rational functions it reads back as the same function, and as an equal object if sums are not nested inside of products or powers (the sign assumption of a symbol isn't part of the text). Printing through a print engine delivers balanced, properly nested open and close events and the same content as streaming.",
 ["inputs"], "every expression that can be constructed",
 "Parser and printer are tested separately with fixed strings; precedence, signs, fractions and nested powers interact.",
 [S+"printer.cpp", S+"plaintextprintengine.cpp", S+"parser.cpp", S+"namefct.cpp", "include/tsym/printengine.h"],
 [("precedence and parentheses", S+"printer.cpp"), ("grammar", S+"parser.cpp")], ["operator<<, print(), parse()"])
prop("C09", "The parser accepts exactly its grammar and builds what is written",
 "parse succeeds on exactly the strings of the documented infix grammar (numbers, symbols with optional subscripts, pi, euler, functions, + - * / ^ with the usual precedence, right associative powers, left associative sums and products, parentheses, free white space) and returns the object that the same operations assemble through the library interface. Every other string is rejected by an empty result, without an exception or a crash. Numeric exponents, floating point literals and the nesting depth are of moderate size.",
 ["inputs"], "every ASCII or binary string of moderate nesting depth",
 "The tests parse about eighty fixed strings; accept/reject and associativity decisions quantify over all strings.",
 [S+"parser.cpp", S+"functions.cpp", S+"var.cpp"], [("grammar and semantic actions", S+"parser.cpp")], ["parse(), Var(string)"])
prop("C10", "Integer and rational arithmetic is exact for arbitrary sizes",
 "Sums, differences, products, quotients and integer powers of integers and fractions of any size are exact and in lowest terms with a positive denominator, whether the operands are created from native integers, digit strings or results of earlier calculations. Order, sign and equality of such numbers, their text, and the conversion to int (exact, or an exception if it isn't an integer or doesn't fit) and to double (correct up to rounding) are exact as well.",
 ["inputs", "histories"], "all integers and rationals, all sequences of arithmetic operations on them",
 "Tests use a few numbers near the limits of native types; overflow and reduction errors appear only for particular magnitudes.",
 [S+"number.cpp", S+"numberfct.cpp", S+"int.cpp", S+"numeric.cpp", S+"var.cpp", S+"primefac.cpp"],
 [("rational representation", S+"number.cpp"), ("conversions", S+"var.cpp")], ["Var arithmetic, operator<<, static_cast<int/double>"])
prop("C11", "Linear algebra results satisfy their defining equations",
 "solve returns x with A*x = b, invert returns the inverse on both sides, and determinant returns the determinant by Leibniz' formula, for every regular matrix with numeric or symbolic rational coefficients, both pivoting algorithms and every supported container or access interface. A singular matrix raises std::invalid_argument (for determinant alternatively the result zero), coefficient matrix and right hand side of solve and determinant stay as they were, a failed inversion leaves the matrix as it was, and with a skip field exactly the remaining sub-problem is solved while skipped entries stay untouched.",
 ["inputs", "configurations"], "all matrices and right hand sides, all skip fields, both algorithms, all element access types",
 "Tests solve about a dozen fixed systems; pivoting decisions and zero recognition depend on the coefficients.",
 [S+"solve.cpp", S+"directsolve.cpp", S+"stdvecwrapper.h", "include/tsym/solve.h", "include/tsym/traits.h"],
 [("elimination and pivoting", S+"directsolve.cpp"), ("copying in and out", "include/tsym/solve.h")], ["solve(), invert(), determinant()"])
prop("C12", "Polynomial division and greatest common divisors are correct",
 "Polynomial division returns quotient and remainder with u = q*v + r and a remainder that can't be reduced any further; the greatest common divisor divides both polynomials and contains every common factor, for both available algorithms. Degrees, coefficients, leading coefficients, contents and pseudo-division agree with those of the mathematical polynomial.",
 ["inputs"], "all pairs of multivariate polynomials with rational coefficients",
 "Tests use fixed polynomial pairs; coefficient growth, content handling and variable selection depend on the input.",
 [S+"poly.cpp", S+"gcd.cpp", S+"subresultantgcd.cpp", S+"primitivegcd.cpp", S+"polyinfo.cpp"],
 [("division", S+"poly.cpp"), ("subresultant and primitive gcd", S+"subresultantgcd.cpp, "+S+"primitivegcd.cpp")],
 ["poly::divide/pseudoDivide/gcd/content, degree/coeff"])
prop("C13", "Results don't depend on what was computed before",
 "The result of any operation is the same object, with the same text, no matter which other expressions were created, simplified, printed or destroyed earlier in the process, and repeating an operation gives an equal result. No internal auxiliary symbols ever appear in results.",
 ["histories"], "all sequences of library calls preceding an operation",
 "Tests run every case once in a fixed order; caches, symbol pools and temporary symbol counters make the outcome a function of the whole history.",
 [S+"cache.cpp", S+"cache.h", S+"symbol.cpp", S+"symbolmap.cpp", S+"productsimpl.cpp", S+"sumsimpl.cpp", S+"baseptrlistfct.cpp", S+"base.cpp", S+"poly.cpp"],
 [("memoisation of simplification, expansion, normalisation", S+"cache.h and its users"), ("temporary symbols", S+"symbol.cpp, "+S+"symbolmap.cpp")],
 ["texts and structure of results in varied histories"], [("caches", "process wide maps from operands to results", S+"cache.h"), ("temporary symbol counter", "number of living temporary symbols", S+"symbol.cpp")])
prop("C14", "Symbols are identified by name, subscript and sign assumption",
 "A string creates a symbol if it is a letter followed by letters or digits, with an optional subscript (one character, or several in braces), an integer if it consists of digits, and Undefined if it is malformed or denotes a constant or a composite expression (strings that simplify to a symbol or number such as \"(a)\", \"-5\" are accepted, too). Two symbols are equal exactly if name, subscript and positive flag agree, name() returns the normalised spelling, and distinct symbols never merge in expressions. Printing shows name and subscript (greek names as greek letters in unicode mode, spelled out in ASCII mode).",
 ["inputs"], "all strings and pairs of strings",
 "Tests create about twenty names.",
 [S+"symbol.cpp", S+"name.cpp", S+"namefct.cpp", S+"var.cpp", S+"parser.cpp", S+"order.cpp", S+"plaintextprintengine.cpp"],
 [("symbol pool", S+"symbol.cpp"), ("name comparison and spelling", S+"name.cpp, "+S+"namefct.cpp")], ["Var(string), name(), operator==, operator<<"])
prop("C15", "Structural queries describe the expression faithfully",
 "Rebuilding an expression from its type, name and operands through the public interface gives an equal object (numeric powers: one of the same value); has reports exactly the occurring sub-expressions, collectSymbols returns every occurring symbol exactly once, and the type of a number distinguishes integers, fractions and doubles. Sums and products have at least two operands, no operand of the same kind, and at most one number.",
 ["inputs"], "every expression that can be constructed",
 "Tests query a few fixed expressions.",
 [S+"functions.cpp", S+"base.cpp", S+"var.cpp", S+"sum.cpp", S+"product.cpp", S+"power.cpp", S+"function.cpp"],
 [("operand lists", S+"base.cpp"), ("queries", S+"functions.cpp")], ["type(), operands(), name(), has(), collectSymbols()"])
prop("C16", "Sign queries are sound",
 "isPositive is never reported for an expression that takes a negative value, and isNegative never for one that takes a positive value, at any point of definition with positive values for symbols declared positive; both are never reported together (an even power of a symbol counts as positive, although it can be zero). Numbers of any size, pi, e and symbols declared positive, as well as products and integer powers of them sums whose summands have the same sign, and irrational sums without symbols, are classified completely; zero and Undefined have no sign.",
 ["inputs"], "every expression and every point of definition",
 "Tests ask for the sign of a few dozen fixed expressions; an unsound answer shows only for particular values.",
 [S+"sum.cpp", S+"product.cpp", S+"power.cpp", S+"trigonometric.cpp", S+"logarithm.cpp", S+"symbol.cpp", S+"numeric.cpp", S+"constant.cpp"],
 [("per type sign rules", S+"*.cpp isPositive/isNegative")], ["isPositive(), isNegative()"])
prop("C17", "Numerical evaluation agrees with the exact value",
 "Converting an expression without symbols to double gives its value up to floating point accuracy, and any expression containing a symbol, or Undefined, raises std::domain_error instead. Numbers created from a double keep their value up to rounding, and floating point numbers mix with exact ones in all operations without loss beyond rounding.",
 ["inputs"], "every symbol-free expression, every finite double of moderate magnitude",
 "Tests evaluate a few constants.",
 [S+"number.cpp", S+"var.cpp", S+"numeric.cpp", S+"power.cpp", S+"sum.cpp", S+"product.cpp", S+"trigonometric.cpp", S+"logarithm.cpp", S+"constant.cpp"],
 [("numeric evaluation", S+"*.cpp numericEval"), ("conversion operator", S+"var.cpp")], ["static_cast<double>(Var)"])
prop("C18", "Trigonometric functions use exact values and principal branches",
 "sin, cos and tan of every constant, and asin, acos, atan of every argument, have the exact mathematical value (doubles: up to rounding), with asin and atan in [-pi/2, pi/2] and acos in [0, pi], and give Undefined without a real value; flipping the sign acts according to symmetry, and compositions of two functions keep the value in every quadrant. Multiples of pi/8 and pi/12 are resolved to algebraic numbers for every sign and moderate number of periods, inverse functions of these numbers resolve to the exact principal multiple of pi, and sine and cosine (and the tangent of multiples of pi/4 and pi/6) are the same object for arguments that differ by full periods. atan2 of two constants is an angle with the right sine and cosine, resolved exactly in [0, 2*pi) for tabulated angles.",
 ["inputs"], "all rational multiples of pi, all rational or algebraic arguments, all compositions of two functions, all quadrants",
 "Tests enumerate the table for the first period; other periods, signs and compositions are sampled.",
 [S+"trigonometric.cpp", S+"numtrigosimpl.cpp"], [("table and range reduction", S+"numtrigosimpl.cpp"), ("function rules", S+"trigonometric.cpp")],
 ["sin/cos/tan/asin/acos/atan/atan2"])
prop("C19", "Numeric powers and radicals reduce to one exact form",
 "A rational number raised to a rational power has exactly the mathematical value, never becomes a floating point number, and a negative base with a non-integer exponent is Undefined. For positive numerators and denominators up to the default limit of the prime factorisation (1000), the result is a rational number exactly if a rational root exists, the power of the reciprocal with the negated exponent is the same object, multiplying an n-th root n times or raising it to the n gives back the radicand, and products and quotients of square roots (and of higher roots without repeated prime factors) equal the root of the product or quotient, with perfect squares extracted and opposite roots in sums vanishing. Beyond the limit, perfect powers may stay unresolved, but keep their value and their n-th power is the radicand.",
 ["inputs"], "all positive rationals with moderate prime factors and all rational exponents of moderate size",
 "Tests check fixed combinations of small integers.",
 [S+"numpowersimpl.cpp", S+"primefac.cpp", S+"simpleprimepolicy.h", S+"number.cpp", S+"productsimpl.cpp", S+"powersimpl.cpp", S+"options.cpp"],
 [("prime factorisation and extraction", S+"primefac.cpp, "+S+"numpowersimpl.cpp")], ["pow, sqrt, products of them"])
prop("C20", "No call corrupts memory, changes its operands or fails to return",
 "Any sequence of library calls on valid objects, including parsing of arbitrary strings, self assignment and aliased arguments, runs without memory errors, undefined behaviour, assertion failures or unbounded computation, as long as exponents, sizes and nesting are moderate. Objects other than the one assigned to keep their value and text, and copies are independent of the original.",
 ["histories", "inputs"], "all sequences of calls over a pool of live objects",
 "Unit tests run without sanitizers on isolated expressions.",
 [S+"*.cpp", "include/tsym/*.h"], [("shared immutable expression nodes", S+"base.h, "+S+"baseptr.h"), ("compound assignment", S+"var.cpp")],
 ["sanitizer reports, texts of all live objects"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
