COMMON = " Sampled, never exhaustive; trusts the compiler, boost multiprecision and the harness' own evaluation."
NOTES["C01"] = ("property-based testing: generated construction recipes against an independent 60-digit evaluator",
                "Every generated recipe is compared at several random points with an independent evaluation with error bounds; undecidable comparisons are skipped and counted." + COMMON)
NOTES["C03"] = ("property-based testing: generated polynomials against an exact sparse polynomial model, general recipes against an independent 60-digit evaluator",
                "Polynomial recipes are compared coefficient by coefficient with a reference model; other recipes by value and idempotence." + COMMON)
NOTES["C07"] = ("property-based testing: random orders and groupings of generated operands (metamorphic), equality against structure and value",
                "Random permutations and bracketings of generated operands must give identical objects; equality of generated pairs is compared with structure, hash, text and value." + COMMON)
NOTES["C10"] = ("property-based testing: random histories of rational arithmetic against an independent big rational reference",
                "Every intermediate number is compared exactly (value, type, text, sign, conversions) with boost rational arithmetic on the generated operands." + COMMON)
NOTES["C11"] = ("property-based testing: generated linear systems checked against A*x = b, A*A^-1 = 1 and Leibniz' formula in exact rational arithmetic at random points",
                "Results are evaluated exactly at random rational points; singularity is decided by the determinant at several points." + COMMON)
NOTES["C12"] = ("property-based testing: generated polynomials against an exact sparse polynomial model",
                "Division identities, divisibility and greatest common divisors are compared exactly with an independent model." + COMMON)
NOTES["C09"] = ("property-based testing and grammar fuzzing: generated, mutated and random strings against a reference recursive descent parser",
                "Acceptance and the resulting object are compared with an independent parser whose syntax tree is assembled through the public operators." + COMMON)
NOTES["C08"] = ("property-based testing: generated expressions, round trip through an independent parser and the library's parser, recorded print events",
                "The printed text is read by a reference parser and by the library and compared by value (rational functions: exactly); events of a recording print engine are checked for nesting and content." + COMMON)
NOTES["C14"] = ("property-based testing: generated names, subscripts and near misses against a model of names, all pairs compared",
                "Every generated string is classified by a reference parser; all pairs of generated symbols are compared with a model triple of name, subscript and sign." + COMMON)
NOTES["C15"] = ("property-based testing: generated expressions against an own traversal, rebuilding through the public interface",
                "Shape invariants of every node, has and collectSymbols against a traversal by operands(), and shallow and deep reconstruction." + COMMON)
NOTES["C16"] = ("property-based testing: generated expressions with a definite sign evaluated at random points, numbers and positive atoms classified completely",
                "Every definite answer is compared with the independent 60-digit value at several points, including zero, tiny and huge ones." + COMMON)
NOTES["C17"] = ("property-based testing: generated constants converted to double against an independent 60-digit value with propagated error bounds",
                "The tolerance of each comparison follows from the conditioning of the expression; ill-conditioned ones are skipped and counted." + COMMON)
NOTES["C19"] = ("property-based testing: generated rational bases and exponents against exact integer roots and an independent 60-digit value, metamorphic relations between forms",
                "Rationality is decided by integer root extraction, values by the independent evaluator, equal forms by rebuilding radicals in several ways." + COMMON)
NOTES["C18"] = ("property-based testing: generated angles, constants and compositions against an independent 60-digit evaluation, metamorphic relations for periods and symmetry",
                "Values of all functions are compared with an independent evaluator; tabulated angles additionally as exact objects." + COMMON)
NOTES["C02"] = ("property-based testing: Undefined at a random position of generated operation sequences, generated constants and signed expressions without a real value according to an independent evaluator",
                "Every operation with an Undefined operand must be Undefined; invalid constants are recognised by an evaluator with error bounds." + COMMON)
NOTES["C04"] = ("property-based testing: generated recipes against an independent 60-digit evaluator, generated rational functions with known common factors and rewritten forms against an exact polynomial model",
                "Values at random points, exact reduction to lowest terms according to a reference gcd, and differences of rewritten forms that have to vanish." + COMMON)
NOTES["C05"] = ("property-based testing: generated recipes, textbook differentiation of the recipe evaluated with 60 digits against the library's derivative, exact comparison for rational functions",
                "First, second and mixed derivatives are compared at random points with an independently derived recipe; rational functions exactly; independence of other symbols and the sum and product rules as metamorphic relations." + COMMON)
NOTES["C06"] = ("property-based testing: generated expressions and replacements against the independent evaluation of the textually substituted recipe, exact comparison for rational functions and numbers",
                "Symbols by expressions, composite parts by new symbols and back, absent parts and self replacement, successive replacement of all symbols by numbers against exact values." + COMMON)
NOTES["C13"] = ("property-based testing: random histories of operations on related expressions; every result compared with the one from a fresh start",
                "All results (structure and text) after a random history must be those obtained with empty caches; histories contain variants of the same expression (signs, positive flags, order) to provoke mix-ups; internal symbols must not appear." + COMMON)
NOTES["C20"] = ("property-based testing and structure-aware fuzzing under address and undefined behaviour sanitizers: random programs over the whole public interface, random strings, termination within a time limit",
                "Random sequences of public operations on a pool of objects, strings for the parser and for the constructors, and expressions known to be hard for simplify, expand and normal; any crash, sanitizer report, assertion, leaked exception or timeout is a violation." + COMMON)
