prop("P04", "Symbolic differentiation is correct",
 "Differentiating an expression with respect to a variable yields an expression whose value, wherever the original is smooth and well conditioned, is the derivative of the original, whether or not the result is simplified, for every order, and identically through every entry point (text, builder, expression method). Variables other than the one named, fixed names and constants are held constant, and user-defined functions contribute through their given partial derivatives by the chain rule (symbolic partial derivatives where none is given).",
 ["inputs", "programs"], "all expressions over the built-in operators and functions with non-order arguments, all differentiation variables, all regular points",
 "Tests check the printed derivative of fixed formulas; the rules interact (products, polynomials, caching, fast paths, early simplification) in unboundedly many ways.",
 ["src/diff/engine.rs", "src/functions/definitions.rs", "src/api/builder.rs", "src/core/poly.rs"],
 [("recursive derivative rules with fast paths for polynomials and products", "src/diff/engine.rs"), ("per-function derivative table", "src/functions/definitions.rs")],
 "differential runtime monitor: independent forward-mode derivative (with error bound) at random points",
 TR)
prop("P05", "Simplification never changes the value",
 "Simplifying an expression returns, for every input, an expression with the same value wherever the original is smooth and well conditioned in a neighbourhood, introduces no variables, treats user and unknown functions as opaque, and terminates. The default mode may in addition assume, as documented, that factors under roots, logarithms and non-integer powers are positive and that a trigonometric function directly under its inverse has its argument in the principal range; no other assumption is allowed.",
 ["inputs"], "all expressions, all points at which every subexpression of the original is defined and well conditioned",
 "About a hundred rewrite rules fire in combination; tests check each on the pattern it was written for, not on what else it matches.",
 ["src/simplification/engine.rs", "src/simplification/rules", "src/simplification/helpers.rs", "src/core/expr/constructors.rs"],
 [("bottom-up rewrite engine with per-rule caches and cycle detection", "src/simplification/engine.rs"), ("rewrite rules", "src/simplification/rules")],
 "differential runtime monitor: value of original vs simplified at random points (error-bounded reference)",
 TR + "Where the simplified form is defined on a larger domain nothing is claimed.")
prop("P06", "Domain-safe simplification makes no assumption about its operands",
 "With domain-safe mode on, simplifying an expression returns, for every input, an expression that is defined and has the same value at every point where the original is smooth and well conditioned in a neighbourhood, with no assumption on the sign or range of any part. The mode has this effect through every entry point that offers it.",
 ["inputs", "configurations"], "all expressions, all points where they are defined, in particular with negative parts under even powers, roots, logarithms and absolute values",
 "Tests check named rules in domain-safe mode on single patterns; definedness must hold for all compositions and sample points.",
 ["src/simplification/engine.rs", "src/simplification/rules", "src/api/builder.rs"],
 [("rules tagged as altering the domain are skipped", "src/simplification/engine.rs"), ("non-negativity analysis", "src/simplification/helpers.rs")],
 "differential runtime monitor: definedness and value at points with parts of either sign",
 TR + "Where the simplified form is defined on a larger domain (x/x to 1) nothing is claimed.")
prop("P07", "Printed expressions parse back to the same value",
 "Printing any expression and parsing the text gives an expression that evaluates to the same value at every point, with the same free variables, whatever the operators, finite numbers (including negative, tiny, huge and fractional ones), partial-derivative nodes of function calls and nesting. Printing the reparsed expression is again parseable to the same value.",
 ["inputs"], "all expressions built by operators, parsing, differentiation or simplification",
 "Parenthesisation depends on the pair of nested node kinds and on signs; tests cover a few pairs.",
 ["src/core/display.rs", "src/parser/lexer.rs", "src/parser/pratt.rs", "src/parser/implicit_mul.rs"],
 [("precedence-aware printing", "src/core/display.rs"), ("Pratt parser", "src/parser/pratt.rs")],
 "round-trip runtime monitor with error-bounded reference values", TR)
prop("P08", "The parser accepts exactly the grammar, completely and without crashing",
 "Every text either yields an expression that accounts for the entire input, according to the documented precedence, associativity, implicit multiplication and function-call rules, or is rejected with an error; it never crashes, hangs or ignores part of the input. When a rejected text reports a position, the position lies within the text on character boundaries.",
 ["inputs"], "all byte strings: well-formed formulas in many notations, mutations of them, arbitrary Unicode; sets of custom functions, fixed names and contexts",
 "Tests list a few dozen strings; precedence and juxtaposition interact pairwise and the malformed inputs are unbounded.",
 ["src/parser/mod.rs", "src/parser/lexer.rs", "src/parser/pratt.rs", "src/parser/implicit_mul.rs", "src/core/error.rs"],
 [("two-pass lexer with parenthesis balancing", "src/parser/lexer.rs"), ("implicit multiplication insertion", "src/parser/implicit_mul.rs"), ("Pratt parser", "src/parser/pratt.rs")],
 "differential runtime monitor against an independent reference parser; hostile-input monitor for totality", TR + "The reference parser encodes the documented grammar.")
prop("P09", "Partial evaluation and substitution commute with evaluation",
 "Evaluating with some variables bound and then with the rest gives the same value as binding all at once, in any split and order; unbound variables stay free and nothing else changes (the variable of an unevaluated derivative is bound inside it). Substituting an expression for a variable gives an expression whose value is that of the original with the variable set to the value of the replacement, and leaves no occurrence of the variable except those in the replacement (variables that an unevaluated derivative is taken with respect to are not substituted).",
 ["inputs"], "all expressions (including user functions and unevaluated derivatives), all partial bindings and replacement expressions",
 "The number of binding splits grows exponentially with the variables; tests use one or two variables.",
 ["src/core/expr/evaluate.rs", "src/core/expr/analysis.rs", "src/api/helpers.rs"],
 [("partial evaluation with constant folding", "src/core/expr/evaluate.rs"), ("substitution by structural map", "src/core/expr/analysis.rs")],
 "metamorphic runtime monitor with error-bounded reference values", TR)
prop("P10", "Equality, hashing and ordering of expressions are coherent",
 "Equality is an equivalence relation, equal expressions have equal hashes and can be used interchangeably as map keys, and expressions that compare equal evaluate to the same value everywhere. Building the same sum or product with its operands in a different order gives an equal expression whenever no rounding is involved (in a different grouping, one of the same value), and copies are equal to their originals.",
 ["inputs"], "all triples of expressions, permutations and regroupings of operands, copies",
 "A hash or comparison that ignores one field is only visible on pairs that differ in exactly that field.",
 ["src/core/expr/hash.rs", "src/core/expr/ordering.rs", "src/core/expr/mod.rs", "src/core/poly.rs"],
 [("cached structural hash", "src/core/expr/hash.rs"), ("canonical ordering of sum terms and product factors", "src/core/expr/ordering.rs")],
 "algebraic-law runtime monitor over generated near-duplicates", TR)
prop("P11", "Operators and constructors build expressions with the stated value",
 "Combining expressions with the arithmetic operators, powers, sums, products and mathematical methods, in any order and grouping and mixing symbols, numbers and references, yields an expression whose value is that operation applied to the values of the operands. Automatic normalisation while building (merging of like terms, polynomial detection, constant folding, flattening) never changes the value, drops a term or creates one.",
 ["programs", "inputs"], "all programs of arithmetic over expressions, symbols and numbers; all points at which the operands are defined",
 "Constructors have special cases keyed on operand shapes whose combinations are unbounded; tests check shapes one at a time.",
 ["src/core/expr/constructors.rs", "src/core/symbol/operators.rs", "src/core/symbol/math_methods.rs", "src/core/poly.rs", "src/core/traits.rs"],
 [("normalising constructors", "src/core/expr/constructors.rs"), ("polynomial arithmetic", "src/core/poly.rs")],
 "shadow-execution runtime monitor: every operation mirrored on error-bounded numbers", TR)
prop("P12", "The symbol registry behaves like one consistent map under any use",
 "Any concurrent mixture of creating, looking up, removing and clearing named symbols behaves as if the operations took effect one at a time on a single map from names to identities: a name that exists keeps the identity every thread sees, distinct names and distinct anonymous symbols never share one, and creating an existing name is refused. A removed or cleared name is gone for later lookups and may be created anew, while expressions built before keep working. Without concurrency, counts and the list of names agree with that map as well.",
 ["schedules", "histories"], "all interleavings of operations by several threads, all sequences of create/lookup/remove/clear",
 "Races and stale caches need specific interleavings and histories; tests run short sequential scripts.",
 ["src/core/symbol/registry.rs", "src/core/symbol/mod.rs", "src/core/symbol/interned.rs"],
 [("sharded name and id maps", "src/core/symbol/registry.rs"), ("thread-local lookup caches", "src/core/symbol/registry.rs")],
 "offline checking of recorded concurrent histories against a sequential map model", "Histories are recorded at the API boundary with a global clock and judged exactly where the model is unambiguous. Trusted: the checker.")
prop("P13", "Contexts isolate symbols and user functions",
 "Symbols, constants and functions defined in one context are visible through that context, and never change the meaning of expressions, parsing, differentiation, simplification or evaluation in other contexts or outside any context. Inside its context a user function evaluates by its definition and differentiates by its given partials (an argument without one leaves an unevaluated derivative), and a call with a number of arguments it does not take is left alone, never run. Expressions built in a context keep their meaning when global names are removed, and copies of a context agree with it on the symbols and functions it had when copied.",
 ["histories", "configurations"], "all interleavings of operations on several contexts and the global one, all function definitions",
 "Leaks between contexts depend on which names exist elsewhere and in what order they were made.",
 ["src/core/unified_context.rs", "src/api/builder.rs", "src/diff/engine.rs", "src/core/expr/evaluate.rs"],
 [("context-owned symbol and function tables", "src/core/unified_context.rs")],
 "model-based runtime monitor over random histories on several contexts", TR)
prop("P14", "Concurrent use is free of data races and gives sequential results",
 "Sharing expressions, symbols, contexts and compiled evaluators between threads and using the library from many threads at once never causes a data race or undefined behaviour, and every thread obtains the result it would have obtained alone.",
 ["schedules"], "all interleavings of parse, build, differentiate, simplify, compile, evaluate, batch and symbol management on shared objects",
 "A race is not visible in a result of a test that happens to run in a benign order.",
 ["src/core/symbol/registry.rs", "src/core/expr/mod.rs", "src/evaluator/mod.rs", "src/bindings/parallel.rs", "src/core/known_symbols.rs"],
 [("locks, atomics and lazily initialised tables", "src/core/symbol/registry.rs"), ("thread-local caches", "src/evaluator/simd.rs")],
 "ThreadSanitizer build under a hostile multi-threaded workload, plus comparison with sequential results", "Reports every race between accesses the workload executes without happens-before order; std is instrumented too (build-std). Trusted: LLVM TSan.")
prop("P15", "Parallel evaluation of mixed inputs keeps order, form and values",
 "Evaluating several expressions over several value lists in parallel returns, for every expression in order and every point in order, the result of evaluating that expression at that point: a number where everything is bound and a symbolic result where a value is skipped or not given, as text when the input was text; a value given as an expression is substituted for its variable. Inputs whose shapes do not match are refused.",
 ["inputs", "schedules"], "all mixes of text and expression inputs, value lists with skipped entries, list lengths and thread counts",
 "Fast numeric, chunked and symbolic paths are chosen from the shape of the whole request; tests cover few shapes.",
 ["src/bindings/parallel.rs"], [("numeric fast path and symbolic fallback per expression", "src/bindings/parallel.rs")],
 "differential runtime monitor per output position", TR + "Substituted expressions use variables that are not themselves in the list (whether substitution is simultaneous is not claimed).")
prop("P16", "Uncertainty propagation is the standard first-order formula",
 "The propagated uncertainty of a formula evaluates, at every regular point, to the square root of the sum over all pairs of variables of the products of first partial derivatives with the covariance of the pair, where a diagonal covariance contributes squared standard uncertainties; the relative form is that divided by the magnitude of the formula. Covariances are symbolic or numeric, zero entries drop out, and inconsistent dimensions or asymmetric matrices are refused.",
 ["inputs"], "all formulas, variable lists, diagonal and full covariance matrices",
 "Cross terms and sign errors only show on formulas whose partials differ in sign and magnitude.",
 ["src/uncertainty.rs"], [("assembly of variance from derivatives and covariance entries", "src/uncertainty.rs")],
 "differential runtime monitor: formula recomputed from forward-mode partials", TR)
prop("P17", "Gradient, Hessian and Jacobian agree with single derivatives",
 "Each entry of a gradient, Hessian or Jacobian evaluates to the corresponding first or second partial derivative, in the order the variables and expressions were given, and the Hessian is symmetric in value. The text and expression forms give entries of the same value.",
 ["inputs"], "all expressions, variable lists of any length and order, including repeated and absent variables",
 "Index mix-ups and shortcuts are visible only with several asymmetric variables.",
 ["src/api/helpers.rs"], [("assembly of partial derivatives", "src/api/helpers.rs")],
 "differential runtime monitor: forward-mode partials of first and second order", TR)
prop("P18", "Dual-number arithmetic computes values and exact derivatives",
 "Evaluating any composition of the supported operations on dual numbers yields in the first component the value and in the second the derivative of the composition in the direction of the seed, at every point where the composition is smooth. The remainder, documented as not differentiable, is judged by its value only. Operations mixing duals with plain numbers and conversions act on the value as plain numbers do, and duals with different values compare as their values.",
 ["programs", "inputs"], "all compositions of dual-number operations and all smooth points",
 "Each operation hard-codes a derivative; tests try each at one or two points.",
 ["src/math/dual.rs"], [("dual-number operations", "src/math/dual.rs")],
 "shadow-execution runtime monitor: value and derivative mirrored on error-bounded numbers", TR)
prop("P19", "Special and elementary functions are accurate",
 "Every built-in function returns, over its real domain, the mathematical function's value within a small relative error for its arguments' conditioning (full double precision up to a factor for elementary functions; eight digits for Bessel functions and eight to ten for polygamma functions and derivatives of zeta), as long as neither the value nor the gammas it is formed from exceed the range of double precision; it satisfies its functional equations; it is finite nowhere outside its real domain and finite everywhere inside it; and it returns promptly for every argument and every order up to a hundred thousand. Calls agree however they are evaluated: as a tree of numbers, with bound variables, compiled, or in a batch. Spherical harmonics are the documented real form N P(l,|m|)(cos theta) cos(m phi).",
 ["inputs"], "all real arguments and integer orders of every built-in function, including region boundaries of the approximations",
 "Each function is pieced together from approximations over ranges; tests sample a few classical values per function.",
 ["src/math/special.rs", "src/math/bessel.rs", "src/math/elliptic.rs", "src/math/polynomials.rs", "src/functions/definitions.rs"],
 [("piecewise approximations and recurrences", "src/math/special.rs"), ("Bessel functions", "src/math/bessel.rs")],
 "golden-value runtime monitor (17 000-row arbitrary-precision table), independent reference formulas and functional equations on random arguments, CPU-time watchdog on extreme arguments", "Trusted: the mpmath-generated table committed under /verif/harness. Tolerances per function are stated in DESIGN.md.")
prop("P20", "Size limits hold and large expressions are handled",
 "A configured limit on depth or size refuses exactly the expressions that exceed it, before doing the work, through every entry point that accepts limits. Wide expressions of many thousand terms and expressions nested a few hundred levels are processed correctly by every operation, without crashing.",
 ["inputs", "configurations"], "all expression shapes around the limits; wide and deep expressions through every operation",
 "Tests use small expressions; recursion and quadratic steps show only at size.",
 ["src/api/builder.rs", "src/core/expr/analysis.rs", "src/core/expr/mod.rs", "src/evaluator/compiler.rs"],
 [("depth and node counts checked against limits", "src/api/builder.rs")],
 "boundary monitor on counted shapes; crash monitor on large shapes", TR)
prop("P21", "Results are deterministic and independent of history",
 "The same call with the same input gives the same result - the same text, the same numbers bit for bit - every time, in every process and thread, whatever other expressions, symbols or contexts were used before. Simplifying an already simplified expression does not change its value, and results do not depend on the order in which symbols were first created.",
 ["histories", "schedules"], "all call sequences before the observed call, process restarts, thread placements",
 "Hash seeds, caches and symbol numbering differ between runs; a single test run sees one of them.",
 ["src/core/expr/ordering.rs", "src/simplification/engine.rs", "src/core/symbol/registry.rs", "src/core/display.rs"],
 [("canonical ordering by name, hash-map free output order", "src/core/expr/ordering.rs")],
 "replica comparison: the same calls after different histories, in fresh processes and threads", TR)
prop("P22", "LaTeX and Unicode output denote the expression",
 "The LaTeX and Unicode renderings of an expression, read with the usual mathematical conventions, denote the same value as the expression, with grouping preserved: every sub- and superscript, fraction, root and function argument contains exactly what it should. LaTeX braces and delimiters are balanced.",
 ["inputs"], "all expressions over the built-in operators and functions",
 "Grouping errors need particular nestings of node kinds.",
 ["src/core/display.rs"], [("LaTeX and Unicode formatters", "src/core/display.rs")],
 "round-trip runtime monitor: independent reader of the rendered text, value compared", TR + "The reader implements ordinary conventions for the notations the tool emits.")
prop("P23", "The Python interface gives the same results as the library",
 "Every Python operation returns what the corresponding library call returns for the same input, raises a Python exception (and never crashes or aborts) for invalid input of any type, and Python objects obey Python's contracts: equality agrees with hashing, in-place use never changes other objects, and arrays passed in are not modified.",
 ["inputs", "programs"], "all Python call sequences with valid and hostile arguments",
 "Tests call each method once with friendly arguments.",
 ["src/bindings/python"], [("PyO3 wrappers", "src/bindings/python/mod.rs")],
 "differential and hostile-argument runtime monitor in a Python process", TR)
prop("P24", "Structural queries and traversals are accurate",
 "Node and depth counts, the set of variables, the occurrence test, traversal by visitor, mapping, folding and the structural view report exactly what the expression contains, consistently with one another, for every expression; a polynomial in a base is traversed, folded and mapped through its base. Mapping with the identity keeps the value and returns an equal expression where rebuilding normalises nothing, mapping one symbol to another replaces every occurrence, and a visitor that declines a node is not called on its children.",
 ["inputs"], "all expressions, however built",
 "Special node kinds (polynomials, derivatives) are reachable only through particular constructions.",
 ["src/core/expr/analysis.rs", "src/core/visitor.rs", "src/core/expr/mod.rs"],
 [("recursive traversal per node kind", "src/core/visitor.rs")],
 "cross-checking runtime monitor against an independent structural import", TR)
