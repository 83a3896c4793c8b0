#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run it after editing; the output is committed)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors}

N = "src/smart_num/"
props = [
P("C01", "Integer and fraction arithmetic is exact",
  "Adding, subtracting, multiplying, dividing, negating, reducing or comparing integers and fractions gives exactly the mathematical result, as an integer or fraction and never a rounded number, whenever that result fits the number type. This holds for every representable operand, through any chain of operations, and in debug and optimised builds alike.",
  ["inputs", "histories"], "every pair of integers/fractions (all signs, unreduced forms, boundary magnitudes) and every chain of operations",
  "The tests check integer-with-fraction results to 1e-9 on |n|<=100 and about sixteen fixed fraction pairs; a wrong exact value within 1e-9, a wrong sign of an unreduced operand, large operands and chained results are never reached.",
  [N+"rational.rs", N+"val_holder.rs", N+"mod.rs"],
  [("fraction operators and reduction", N+"rational.rs"), ("integer/fraction promotion table", N+"val_holder.rs"), ("zero/one shortcuts", N+"mod.rs")],
  ["number operators", "to_rational", "to_i64", "fraction equality and text"]),
P("C02", "Out-of-range arithmetic never yields a wrong number",
  "When the exact result of adding, subtracting, multiplying, dividing or negating integers and fractions does not fit the exact number type, the number that comes back is the floating-point approximation of that result, within rounding of the operands. It is never a wrapped-around or wrong-signed value and never a crash, in debug and optimised builds alike.",
  ["inputs", "configurations"], "every pair of boundary-magnitude integers and fractions whose exact result leaves the 64-bit range, in both build modes",
  "No test uses a magnitude above 100, and the tests run only in the debug build.",
  [N+"rational.rs", N+"val_holder.rs"],
  [("range check and fallback to a real number", N+"val_holder.rs"), ("wide intermediate products", N+"rational.rs")],
  ["number operators", "to_f64", "to_rational"]),
P("C03", "Zero, one, pi, e and sign are recognised truthfully",
  "For every number produced by any sequence of constructions and operations, it is reported as zero (or one) exactly when it is the integer or fraction with that value, and as pi (or e) only when its value is that constant. The reported sign is -1, 0 or 1 matching the value, and every fraction that + - * / computes is in lowest terms with a sign of -1 or 1 (an operation with a neutral operand may return the other operand as given).",
  ["histories", "inputs"], "every sequence of number operations over an alphabet containing exact, inexact and special constants",
  "Tests look at the flags of freshly built constants only, never at numbers that come out of operations on them.",
  [N+"mod.rs", N+"val_holder.rs", N+"rational.rs", N+"special_const.rs"],
  [("tag assignment when wrapping a value", N+"mod.rs"), ("exact zero/one test", N+"val_holder.rs")],
  ["is_zero", "is_one", "is_pi", "is_e", "sign", "text of a number"], None,
  [("tag", "which special constant a number is", N+"mod.rs"), ("sign/nominator/denominator", "fraction representation", N+"rational.rs")]),
P("C04", "Conversions and closeness tests preserve the value",
  "A number or expression built from any value of any supported primitive type, or from a sign, numerator and denominator, denotes exactly that value, and reading it back gives an integer as that integer or fraction, a fraction as that fraction, and anything as the nearest floating-point value, never a different one. Invalid fractions (zero denominator, sign not -1 or 1) are refused. Two numbers are reported close within a tolerance exactly when their difference is below it, whichever way round they are given.",
  ["inputs"], "every 8/16-bit value, every boundary neighbourhood of the 32/64-bit and floating types, all small fractions",
  "Tests convert values between -100 and 100 of two types and one fraction; unsigned 64-bit, negative extremes and refusals are never tried.",
  [N+"mod.rs", N+"val_holder.rs", N+"rational.rs", "src/ast/tree.rs", "src/ast/op/operand.rs"],
  [("From conversions", N+"val_holder.rs"), ("fraction constructor validation", N+"rational.rs"), ("near / is_close", "src/ast/tree.rs")],
  ["From<T>", "to_i64", "to_f64", "to_rational", "near", "is_close"]),
P("C05", "Inexact arithmetic follows floating point; x/0 is never finite",
  "When an operand is a floating-point number (or pi or e) the result is the double-precision result of the same operation on the operands' values, except that an exact zero annihilates a finite factor and adding exact zero or multiplying by exact one returns the other operand unchanged, keeping pi and e recognisable. Dividing any number, zero included, by an exact zero never gives a finite number, and multiplying such a result by zero does not either.",
  ["inputs", "histories"], "every pair over exact, inexact, special and undefined numbers, and chains of operations through them",
  "Tests skip zero divisors and never combine pi or e with anything; mixed real/fraction operands are not tested at all.",
  [N+"val_holder.rs", N+"mod.rs"],
  [("promotion to floating point", N+"val_holder.rs"), ("absorbing/neutral shortcuts", N+"val_holder.rs and "+N+"mod.rs")],
  ["number operators", "to_f64", "is_pi", "is_e"]),
P("C06", "Building an expression keeps its operator and operands",
  "Combining expressions with any arithmetic operator or function yields an expression with exactly that operator and exactly those operands in that order, without evaluating or altering them, and copying an expression yields an identical one. Its kind (operator, operand, number, variable, constant) is reported accordingly, and extracting the variable or number gives that variable or number or nothing.",
  ["inputs"], "every expression tree up to a node bound over all operators and leaf kinds, deep spines and unusual variable names",
  "Tests build a handful of two- or three-node expressions and compare their text, which does not determine the structure.",
  ["src/math_op/", "src/ast/tree.rs", "src/ast/op/operand.rs", "src/ast/op/operator.rs"],
  [("operator constructors", "src/math_op/*.rs"), ("predicates and extraction", "src/ast/tree.rs")],
  ["operators and functions on expressions", "is_operator/is_operand/is_num/is_zero/is_one/is_pi/is_e", "extraction of variable/number"]),
P("C07", "Simplification never changes the value",
  "Numerically simplifying an expression yields an expression with the same value at every assignment of its variables at which the original is defined, including when the variables stand for zero, one or negative numbers. In particular functions and powers of the special constants are folded only to their true values, and zero to a negative power never becomes a number.",
  ["inputs"], "every expression over all ten operators up to a node bound, at every point of a grid including 0, 1, negative and irrational values",
  "Tests simplify about ten expressions, nearly all purely numeric; no power and no cosine is ever simplified, and symbolic operands are hardly used.",
  ["src/compute/num_aggregate/"],
  [("per-operator folding rules", "src/compute/num_aggregate/rules/*.rs")],
  ["num_aggregate"]),
P("C08", "Simplification reaches a stable, folded form",
  "Simplifying an expression built only from numbers with + - * / and negation gives a single number. In every simplified expression no arithmetic operation has two number operands, no term is zero, no factor is zero or one, no quotient has numerator zero, no power has exponent zero or one, base one, or base zero with a positive number as exponent, no negation applies to a number or another negation, and sin and cos of 0 and pi, exp of 0, 1 and ln(u), and ln of 1, e and exp(u) are replaced by their values; simplifying again changes nothing and the result is never larger than the original nor mentions new variables.",
  ["inputs"], "every expression over all ten operators up to a node bound, deep spines, and boundary numbers",
  "One numeric expression and one symbolic one are tested; repeated simplification and nested identities never are.",
  ["src/compute/num_aggregate/"],
  [("bottom-up folding", "src/compute/num_aggregate/rules/*.rs")],
  ["num_aggregate"]),
P("C09", "The derivative is the true derivative",
  "Differentiating an expression with respect to a variable yields an expression whose value is the true derivative at every point where the original and all its parts are differentiable, for all operators and any nesting of them, with all other variables held constant. Powers with a number as exponent count at every base where they are differentiable (zero included, with x^0 = 1); other powers count at positive bases.",
  ["inputs"], "every expression over all ten operators up to a node bound, at every point of a grid including zero and negative values, for each of its variables",
  "Tests differentiate six expressions and compare their text; quotients, powers, nested functions and most chain-rule shapes are untested.",
  ["src/compute/derivative/"],
  [("per-operator derivative rules", "src/compute/derivative/rules/*.rs"), ("variable matching", "src/compute/derivative/mod.rs")],
  ["derivative"]),
P("C10", "Repeated and mixed differentiation is consistent",
  "Differentiating with respect to a variable that does not occur gives exactly the number zero (wherever the original is defined), and a derivative mentions no variable that the original does not. Second and higher derivatives, also with respect to different variables in either order, are the true higher derivatives (under the conditions of the first derivative).",
  ["inputs", "histories"], "every expression up to a node bound times every sequence of up to three differentiations, and longer sequences for elementary functions",
  "No test differentiates twice or with respect to an absent variable of a compound expression.",
  ["src/compute/derivative/", "src/compute/num_aggregate/"],
  [("rules applied to simplified derivatives", "src/compute/derivative/mod.rs")],
  ["derivative applied repeatedly"]),
P("C11", "Substitution replaces exactly the named variable",
  "Substituting an expression for a variable replaces every occurrence of precisely that variable, at any depth and in any operand position, and changes nothing else: other variables (even with similar names), numbers, operators and operand order stay as they were. The replacement is inserted verbatim and not substituted into again, so the substitute may itself contain the variable.",
  ["inputs"], "every expression up to a node bound times every variable times a set of substitutes including ones that contain the variable",
  "One expression with one numeric substitute is tested, through the simplified text.",
  ["src/compute/substitute/mod.rs"],
  [("recursive replacement", "src/compute/substitute/mod.rs")],
  ["substitute"]),
P("C12", "Taylor expansion returns the true coefficients",
  "Expanding an expression to order n about a point where it is analytic yields exactly n+1 coefficients, the k-th equal to the k-th derivative at that point divided by k!, together with the order, variable and point asked for and the (n+1)-th derivative as residual. This holds for every order, including beyond the range where k! fits an integer, and for symbolic expansion points.",
  ["inputs"], "every expression up to a node bound times expansion points times orders, and orders up to 26 for elementary functions",
  "The single test prints the expansion of sin x and asserts nothing.",
  ["src/compute/taylor_expansion/partial_expansion.rs"],
  [("derivative/substitute/divide loop with running factorial", "src/compute/taylor_expansion/partial_expansion.rs")],
  ["taylor_expansion: coefficient, order, of, at, residual"]),
P("C13", "A printed expansion reads back as that expansion",
  "The text of a Taylor expansion, read with the usual precedence rules, is the sum of precisely its nonzero coefficients each times the matching power of (variable minus point) in ascending order, followed by an O term of the next power. This includes coefficients and points that are sums, negatives, fractions or symbolic; inexact numbers are shown to three decimals.",
  ["inputs"], "every expansion of the bounded expression set, numeric and symbolic points and coefficients, orders 0 and up",
  "No test looks at the text of an expansion.",
  ["src/compute/taylor_expansion/partial_expansion.rs", "src/ast/tree.rs"],
  [("term joining and parenthesising", "src/compute/taylor_expansion/partial_expansion.rs")],
  ["text of an expansion"]),
P("C14", "Printed expressions read back as the same expression",
  "The text of an expression, read with the usual rules (functions bind tightest, then powers from right to left, then products and quotients from left to right, a leading minus, then sums and differences from left to right; n/d written without spaces is one fraction), denotes an expression with the same value. Hence expressions with different values never print alike, as long as no variable name clashes with a function or constant name and inexact numbers differ within the three decimals shown.",
  ["inputs"], "every expression over all ten operators and all leaf kinds up to a node bound, and deep spines",
  "A dozen fixed strings are compared; no nested difference, quotient, power or negation is printed.",
  ["src/ast/tree.rs", "src/math_op/", "src/ast/op/operand.rs", N],
  [("priority-driven parentheses", "src/ast/tree.rs"), ("operator priorities and symbols", "src/math_op/*.rs"), ("number text", N+"rational.rs, val_holder.rs, special_const.rs")],
  ["to_string / Display of expressions and numbers"]),
P("C15", "A reported limit is the true limit",
  "Whenever taking a limit gives an answer for an expression built from variables and integer or fraction constants and defined around the point, approaching an integer or fraction or an expression in other variables, the answer is true: a reported value is the value of the limit, zero means the expression tends to zero and infinity means its magnitude grows without bound; where other variables occur, for all but exceptional values of them. This presumes that every constant the computation must compare with zero is itself an integer or fraction, or mentions other variables and does not vanish for all values of them; when no limit exists no value is reported.",
  ["inputs"], "every expression over + - * / negation sin cos (and the other operators) up to a node bound times limit points times numbers of L'Hopital attempts",
  "Three quotients involving sin x at 0 are tested; no sum, difference, negation, cosine, other point or other variable is.",
  ["src/compute/limit/mod.rs", "src/compute/limit/rules/", "src/compute/limit/limit_expression.rs"],
  [("per-operator limit rules", "src/compute/limit/rules/*.rs"), ("repeated L'Hopital", "src/compute/limit/rules/div.rs")],
  ["limit"], "limit is private to its module: a cfg-guarded forwarding function exposes it to the harness"),
P("C16", "Limit arithmetic is sound and refuses only ambiguity",
  "Combining the limits of two expressions (infinitesimal, infinite, bounded fluctuation, nonzero value) by + - * / or negation gives a result that is true for every pair of functions with those limits (not vanishing identically; bounded fluctuation means merely bounded), and an error whenever no single result would be. It refuses only if two such pairs of functions really disagree or the combination can be undefined.",
  ["inputs"], "every pair of limit classes and operators, against every pair of representative functions of those classes",
  "No test combines limits directly; only the few entries met by three quotients are exercised.",
  ["src/compute/limit/limit_expression.rs"],
  [("operator tables", "src/compute/limit/limit_expression.rs")],
  ["+ - * / and negation of limit values"]),
P("C17", "Limit requests always get an answer, found when it is easy",
  "Asking for a limit always returns an answer or a reported failure, for every expression and operator; it never crashes or runs forever. A limit is always found for: expressions built by sums, differences, products, negation, sine and cosine, and by quotients whose denominator does not tend to zero; the sine or cosine of anything that is defined and continuous at the point; a quotient of expressions without division whose numerator and denominator first differ from zero within the allowed number of L'Hopital steps; and any such combination of parts whose own limits are found, unless these leave it open (infinity minus infinity, zero times infinity, zero over zero, infinity over infinity, sine or cosine of something infinite).",
  ["inputs"], "every expression over all ten operators up to a node bound times limit points times numbers of L'Hopital attempts",
  "Three successful requests are tested; negations, differences, exponentials, logarithms and powers never are.",
  ["src/compute/limit/mod.rs", "src/compute/limit/rules/"],
  [("per-operator limit rules", "src/compute/limit/rules/*.rs"), ("bounded L'Hopital loop", "src/compute/limit/rules/div.rs")],
  ["limit"], "limit is private to its module: a cfg-guarded forwarding function exposes it to the harness"),
P("C18", "Misuse is reported as an error, never a crash",
  "Giving a number or compound expression where a variable is required (differentiation, substitution, expansion, limits), or a non-number where a number is required, is answered with an error that can be shown, and never with a crash or a made-up result. Conversely a request with a proper variable is never refused for that reason.",
  ["inputs"], "every operation that demands a variable or a number times every expression up to a node bound in that position",
  "One failing number conversion is tested; no other error path is.",
  ["src/compute/derivative/mod.rs", "src/compute/substitute/mod.rs", "src/compute/taylor_expansion/partial_expansion.rs", "src/compute/limit/mod.rs", "src/ast/tree.rs", "src/ast/op/operand.rs"],
  [("variable extraction", "src/ast/tree.rs"), ("error results", "the compute modules")],
  ["derivative", "substitute", "taylor_expansion", "limit", "near", "to_smart_num"], "limit (see C15)"),
P("C19", "Results depend only on the request, not on history",
  "Every operation returns the same result for the same arguments whatever was computed before in the process, however often, and on whichever thread. Expressions kept by the caller are not changed by operations on copies of them.",
  ["histories", "schedules"], "every sequence of up to three operations from an alphabet chosen to collide (same text, same shape, same names), long repetitions, and every assignment of operations to two threads",
  "Each unit test runs in its own process and performs a few unrelated calls, so interference between calls is never observed.",
  ["src/compute/", "src/smart_num/", "src/ast/"],
  [("absence of shared mutable state; ownership of operands", "whole crate")],
  ["all operations"], "limit (see C15)"),
P("C20", "All spellings of a request agree",
  "Wherever the same request can be made in several ways (on a value or a reference, with a variable or a variable expression, as a method or a function, through a number or an expression), all of them give the same result.",
  ["inputs"], "every expression up to a node bound and every number of the alphabet, for every group of equivalent entry points",
  "Each test uses one spelling; most of the others are never called.",
  ["src/compute/", "src/math_op/", "src/ast/tree.rs", "src/ast/op/operand.rs", N+"mod.rs"],
  [("parallel trait implementations", "src/compute/*/mod.rs, src/math_op/*.rs, src/smart_num/mod.rs")],
  ["derivative", "substitute", "taylor_expansion", "limit", "sin/cos/exp/ln/pow", "to_rational/to_smart_num", "is_close/near"], "limit (see C15)"),
P("C21", "Variable names carry no meaning",
  "Renaming the two variables of a request, distinct names staying distinct, changes nothing but the names in the answer: simplification, derivatives, substitution, expansions, limits and text come out the same with the variables renamed. This holds for names of any length, characters and script, names equal to the text of a function, constant or number, names used inside the library, and names that differ only in capitals, accents, spaces, one character or their order. Text shows every name exactly as given (names beginning with a minus sign may also be put in parentheses).",
  ["inputs"], "every pair of names from several families of short, long and nearly alike names times a few expressions; every expression up to a node bound times a few pairs of names",
  "Every test calls its variables x and y, so a comparison of names that looks at only part of them, or a special name, is never noticed.",
  ["src/ast/op/operand.rs", "src/ast/tree.rs", "src/compute/", "src/math_op/"],
  [("equality of variables", "src/ast/op/operand.rs"), ("matching the variable asked for", "src/compute/derivative/mod.rs, src/compute/substitute/mod.rs"), ("name text", "src/ast/tree.rs")],
  ["derivative", "substitute", "taylor_expansion", "limit", "num_aggregate", "to_string"], "limit (see C15)"),
P("C22", "Every computation returns, with reasonable work",
  "Simplifying, printing, copying, differentiating (also twice and by two variables), substituting, expanding, taking limits and conversion to a number return, without a crash, for every well-formed expression and argument, also with infinite, undefined, extreme, unreduced or signed-zero numbers in them and where values do not exist (one over zero, logarithm of zero); all but limits, and conversions of what is not a number, succeed. The work of one simplification, printing, copy, substitution of a number or differentiation, and of a limit of an expression without division, grows like a small power of the size of the expression, also for nestings and full trees.",
  ["inputs"], "every expression up to a node bound over variables and numbers of every extreme kind times points and operations; every nesting of two operators and full tree of three operators in growing sizes",
  "The tests use small ordinary numbers and trees of a few nodes, where a crash on an extreme number or work that doubles with every level is not met.",
  ["src/compute/", "src/smart_num/", "src/ast/tree.rs"],
  [("recursion over the tree", "src/compute/*/mod.rs, src/ast/tree.rs"), ("number arithmetic and text", N)],
  ["all operations"], "limit (see C15)"),
P("C23", "Answers keep to the request: exact, well formed, nothing new",
  "Simplification, derivatives, substitution, expansion coefficients and residuals, and limits of well-formed expressions are well-formed expressions that print exactly like the same expression built from scratch. They mention only variables of the expression and of the replacement or point; a substitution, coefficient or limit mentions the variable itself only if the replacement or point does. If all numbers in the request are integers or fractions, so are all numbers in the answer (for limits: in a reported value), with nonzero denominators, as long as the exact numbers fit and the expression (at the point, where one is given) does not divide by zero, raise zero to a power, take the logarithm of zero or exp of one.",
  ["inputs"], "every expression up to a node bound times points and kinds of computation",
  "The tests compare a few results by value or text, so a fraction that silently becomes a rounded number, a variable that should be gone or a malformed part in an answer that is only used later is not noticed.",
  ["src/compute/", "src/smart_num/", "src/ast/tree.rs"],
  [("rules that build answers", "src/compute/*/rules/"), ("coefficients and factorials", "src/compute/taylor_expansion/partial_expansion.rs")],
  ["num_aggregate", "derivative", "substitute", "taylor_expansion", "limit"], "limit (see C15)"),
P("C24", "More L'Hopital attempts never change a found limit",
  "If a limit is found with some allowed number of L'Hopital steps, then every larger number of allowed steps, up to the largest representable one, gives the same limit; it is not lost, changed, or made to crash or run forever by allowing more.",
  ["inputs", "configurations"], "every expression up to a node bound times points: the allowance is raised from zero until the limit is found, then on by single steps and to much larger numbers up to 2^64 - 1",
  "The tests ask with one step, where an allowance that is narrowed, overflows or is used up elsewhere makes no difference.",
  ["src/compute/limit/"],
  [("counting the steps", "src/compute/limit/rules/div.rs"), ("passing the allowance on", "src/compute/limit/rules/")],
  ["limit"], "limit (see C15)"),
P("C25", "A computation gives back what memory it takes",
  "Whatever a computation takes it gives back: once its answer (or its refusal) has been dropped, repeating the same request any number of times leaves the memory in use as it was. Nothing is kept per request, so a program that computes for a long time does not run out of memory.",
  ["inputs", "histories"], "every expression up to a node bound times points and kinds of computation: the history of the same request made 72 times; also every operation on every pair of numbers",
  "The tests run for milliseconds and do not measure memory.",
  ["src/ast/", "src/compute/", "src/smart_num/", "src/math_op/"],
  [("ownership of expressions", "src/ast/tree.rs"), ("no state between requests", "all modules")],
  ["all operations"], "limit (see C15)"),
P("C26", "A limit does not depend on how the request is written",
  "Writing a limit request in another way changes nothing: with the operands of sums and products swapped, differences written as sums with the negation, or the variable shifted or scaled along with the point, the limit is found with the same number of steps or refused all the same, and is the same. The limit of the negated expression, or of the expression times, divided by, plus or minus a nonzero number, is found exactly when that of the expression is, and is the negated limit, or that limit times, divided by, plus or minus the number.",
  ["inputs", "configurations"], "every expression up to a node bound times points times step allowances, each in up to eleven spellings",
  "The tests ask one spelling of a few limits each, so a limit that is lost or different when the same thing is written the other way round is not met.",
  ["src/compute/limit/"],
  [("rules of each operator", "src/compute/limit/rules/"), ("limit classes", "src/compute/limit/limit_expression.rs")],
  ["limit"], "limit (see C15)"),
]
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props), "properties")
