#!/usr/bin/env python3
"""Source of properties.jsonl (run after editing; both files are committed)."""
import json, os
ALL8 = "all eight types (logarithmic and linear, 8/16/32/64 bits)"
ACC = ("The result is the code nearest to the exact real result (at most 0.5 + 2^-16 code units away for 8, 16 and 32 bits, "
       "0.75 for 64 bits, where a logarithmic operand may be read as off by a relative 2^-56), "
       "clamped to the smallest and largest magnitudes so that a nonzero result never becomes 0 nor a finite one NaR.")
TESTS = ("The unit tests run each function on all 8- and 16-bit codes (8-bit pairs) but on only 2^22 pseudo-random codes or pairs of the wider types, one call at a time, "
         "and judge it against the same carrier-float formula the library itself uses; ")
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["return values of the public functions"]
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Every bit string denotes exactly the number the takum format assigns to it",
  "For each of the eight types, exporting any bit pattern to extended precision yields the value fixed by its sign, direction, regime, characteristic and mantissa bits: exactly for linear types, within a relative error of 2^-56 for logarithmic ones. "
  "Only the all-zero pattern is zero and only 10...0 is NaR, two's-complement negation negates the value exactly, and comparing patterns as signed integers compares the values. "
  "The published constants of each type (extremes, one, NaR, pi multiples, logarithms, roots, golden ratio, Euler's gamma) are the codes nearest to what their names say (at most 0.75 code units away for 64 bits).",
  ["inputs"], "every bit pattern of every type; every published constant",
  TESTS + "0.1 % of the 32-bit and almost none of the 64-bit patterns are decoded, by a reference that shares the decoder under test.",
  ["takum.h", "src/codec.c", "src/conversion.c"],
  [("decoder of characteristic and mantissa", "src/codec.c:codec_takum*_to_l"), ("linear value reconstruction", "src/codec.c:codec_s_and_linear_l_to_*"),
   ("export to extended precision", "src/conversion.c:*_to_extended_float"), ("constants", "takum.h")])
p("C02", "Export to float32 and float64 rounds correctly",
  "For each of the eight types, exporting any bit pattern to float32 or float64 returns the float nearest to the exact value (at most 0.51 units in the last place away, 0.6 for float64 from logarithmic types, gradual underflow included), with the sign of the value. "
  "It returns infinity only for magnitudes that round beyond the float's range, zero only for 0 or magnitudes that round to zero, and NaN exactly for NaR.",
  ["inputs"], "every bit pattern of every type, two target formats",
  TESTS + "exports are only checked by converting back to the code, so a float that is millions of units in the last place off passes for the narrow types.",
  ["src/conversion.c", "src/codec.c"],
  [("power of the base / scaling by powers of two, then narrowing", "src/conversion.c:*_to_float32, *_to_float64"), ("linear value reconstruction", "src/codec.c")])
p("C03", "Import from float32, float64 and extended floats picks the nearest code",
  "For each of the eight types, importing any finite nonzero float (subnormals included) gives the code nearest to it, at most 0.5 + 2^-16 code units away (0.75 for 64 bits), with the same sign, clamped to the smallest and largest magnitude of that sign. "
  "Both zeros give 0, and NaNs and infinities give NaR.",
  ["inputs"], "every float32, float64 and extended float value, eight target types",
  TESTS + "imports are only given the floats that codes export to, never values between two codes, ties, subnormals or values beyond the range.",
  ["src/conversion.c", "src/codec.c", "src/util.c"],
  [("logarithm or exponent split of the float", "src/conversion.c:*_from_*float*; src/codec.c:codec_linear_l_from_*"),
   ("encoder with clamping and round to nearest", "src/codec.c:codec_takum*_from_s_and_l"), ("bit rounding", "src/util.c")])
p("C04", "Exporting and re-importing returns the same code",
  "Exporting any code to extended precision and importing it back yields the identical code for every type except the 64-bit logarithmic one, where it moves by at most 8 codes; through float64 this holds for all types of 8, 16 and 32 bits, and through float32 for those of 8 and 16 bits whenever the value is a normal float32. "
  "Conversely every finite float32, and every float64 of magnitude strictly between 2^-255 and 2^255, survives import into the 64-bit linear type and export.",
  ["inputs", "histories"], "every code of every type through each carrier format; every float32 through the 64-bit linear type",
  TESTS + "round trips are run for sampled codes of the wide types only, never starting from floats.",
  ["src/conversion.c", "src/codec.c"], [("paired encode/decode", "src/conversion.c"), ("encoder/decoder", "src/codec.c")])
p("C05", "Changing width rounds the bit string and never loses zero, NaR or the sign",
  "Within one family (logarithmic or linear), widening appends zero bits, and narrowing rounds the bit string to nearest, ties to even. "
  "Narrowing a nonzero, non-NaR code never gives 0 or NaR but the smallest or largest code of the same sign, and 0 and NaR are kept in both directions. "
  "Widening and then narrowing back is the identity.",
  ["inputs", "histories"], "every code of every type and every ordered pair of widths in the family",
  TESTS + "ties, carries across regimes and saturation sit in windows of a few codes out of 2^32 and 2^64.",
  ["src/conversion.c"], [("expansion by shifting", "src/conversion.c:TAKUM_INTERNAL_CONVERT_EXPAND"), ("reduction by rounding", "src/conversion.c:TAKUM_INTERNAL_CONVERT_REDUCE")])
p("C06", "Converting between logarithmic and linear types keeps the nearest value",
  "Converting any code of a logarithmic type of any width to a linear type of any width, or the reverse, gives the target code nearest to its value, at most 0.5 + 2^-16 code units away (0.75 for 64-bit targets, where a logarithmic source may be read as off by a relative 2^-56). "
  "0 and NaR are kept, the sign is kept, and values beyond the target's range clamp to its smallest or largest magnitude.",
  ["inputs"], "every code of each of 8 types to each of the 4 types of the other family",
  TESTS + "32 routes between the families, most only exercised through a sampled round trip.",
  ["src/conversion.c", "src/codec.c"], [("conversion through a carrier float", "src/conversion.c:takum_linear*_from_takum*, takum*_from_takum_linear*"), ("encoder", "src/codec.c")])
p("C07", "NaR, zero and domain discipline of every function",
  "In all eight types NaR as any operand gives NaR, and so does exactly an argument where the real function is undefined: division or inversion by zero and poles at zero, logarithms of non-positive numbers (one-plus forms: at or below -1), even roots of negatives, zeroth roots, zero to a non-positive power, negative base with a non-integral exponent, inverse functions outside their domain, and tangent, secant, cotangent and cosecant of pi times a pole. "
  "Everywhere else the result is not NaR, and it is 0 exactly when the real result is zero, so overflow and underflow clamp to the largest and smallest magnitude instead (an argument within rounding error of a pole or zero may be treated as that pole or zero).",
  ["inputs"], "every argument (or pair, or code/integer pair) of every mathematical function in every type",
  TESTS + "domain edges, exact integers, poles and extremes of the wide types and of pairs are single codes that sampling does not hit.",
  ["src", "man"], [("result fix-ups for overflow and underflow", "src/*.c:RESULT_FIXER_MACRO"), ("explicit domain guards", "src/root.c, src/integer_power.c, src/square_root.c, src/cot.c, src/csc.c, src/sec.c, src/tan.c, src/arccot.c"),
   ("NaN/infinity to NaR in the encoder", "src/codec.c")])
p("C08", "Logarithmic multiply, divide, invert and square root are exactly rounded",
  "For the logarithmic 8, 16 and 32-bit types the product, quotient, reciprocal and square root of any codes are the exact logarithmic sum, difference, negation or half rounded to nearest, ties to even, and clamped to the extreme magnitudes, with the product rule of signs. "
  "For the 64-bit type the result is at most 0.75 code units from the exact one, and reciprocals are exact in every width. "
  "Multiplication by one, multiplication of a code by its reciprocal (giving one) and division by itself are exact.",
  ["inputs"], "every operand pair of each logarithmic type",
  TESTS + "exact rounding is a statement on 2^32, 2^64 and 2^128 pairs, with ties, carries and saturation in thin sets of pairs.",
  ["src/multiplication.c", "src/division.c", "src/inversion.c", "src/square_root.c", "src/codec.c"],
  [("sum or difference of logarithmic values", "src/multiplication.c, src/division.c"), ("bit complement for reciprocals", "src/inversion.c"), ("halving", "src/square_root.c"), ("encoder", "src/codec.c")])
p("C09", "Linear multiply, divide, invert and square root round correctly",
  "For each linear type the product, quotient, reciprocal and square root of any codes are the code nearest to the exact result, at most 0.5 + 2^-16 code units away (0.75 for 64 bits), with the product rule of signs. "
  "Overflow and underflow clamp to the largest and smallest magnitude. "
  "Multiplying or dividing by one returns the operand, and a nonzero number divided by itself is one.",
  ["inputs"], "every operand (pair) of each linear type", TESTS + "of 2^32 to 2^128 pairs, ties, carries across regimes, equal operands and both extremes are not sampled meaningfully.",
  ["src/multiplication.c", "src/division.c", "src/inversion.c", "src/square_root.c", "src/util.h", "src/codec.c"],
  [("carrier float operation and re-encoding", "src/util.h:UTIL_BINARY_FLOAT_TAKUM_LINEAR_WRAPPER"), ("encoder", "src/codec.c")])
p("C10", "Addition and subtraction round correctly",
  "For each of the eight types the sum and difference of any two codes is the code nearest to the exact result, at most 0.5 + 2^-16 code units away (0.75 for 64 bits, where logarithmic operands may be read as off by a relative 2^-56), clamped to the extreme magnitudes. "
  "The result is 0 exactly when the exact result is zero, so a minus a is 0 for every a, and adding 0 returns the other operand (in the 64-bit logarithmic type, within 8 codes).",
  ["inputs"], "every operand pair of each type", TESTS + "operands that cancel (b close to -a), absorb or carry across regimes are never hit by independent random pairs.",
  ["src/addition.c", "src/subtraction.c", "src/util.h", "src/codec.c", "src/conversion.c"],
  [("carrier float operation and re-encoding", "src/util.h:UTIL_BINARY_FLOAT_*"), ("encoder", "src/codec.c")])
p("C11", "Hypotenuse and two-argument arctangent are accurate and in range",
  ACC.replace("The result is", "For all eight types the result of the hypotenuse and of both two-argument arctangents (in radians and as a multiple of pi, in the right quadrant) is") +
  " The hypotenuse is never negative and does not overflow internally.",
  ["inputs"], "every operand pair of each type", TESTS + "axes, diagonals and both-extreme pairs are never hit by independent random pairs.",
  ["src/hypotenuse.c", "src/arctan2.c", "src/util.h"], [("carrier float function and re-encoding", "src/util.h:UTIL_BINARY_FLOAT_*"), ("overflow fix-up", "src/hypotenuse.c")])
for id, t, fns, files in [
  ("C12", "Exponential functions are accurate over the whole range",
   "e, 2 and 10 raised to any argument, and the same minus one", ["src/exp.c", "src/2_raised.c", "src/10_raised.c"]),
  ("C13", "Logarithms are accurate over the whole range",
   "the natural, binary and decimal logarithm of any positive argument, and of one plus any argument above -1", ["src/ln.c", "src/lb.c", "src/lg.c"]),
  ("C14", "Trigonometric functions are accurate for arguments of any size",
   "sine, cosine, tangent, cotangent, secant and cosecant of any argument, and of pi times any argument", ["src/sin.c", "src/cos.c", "src/tan.c", "src/cot.c", "src/sec.c", "src/csc.c"]),
  ("C15", "Inverse trigonometric functions are accurate and on the principal branch",
   "the inverse sine, cosine, tangent, cotangent (between 0 and pi), secant and cosecant, in radians and as a multiple of pi,", ["src/arcsin.c", "src/arccos.c", "src/arctan.c", "src/arccot.c", "src/arcsec.c", "src/arccsc.c"]),
  ("C16", "Hyperbolic functions and their inverses are accurate over the whole range",
   "the six hyperbolic functions and their six inverses", ["src/sinh.c", "src/cosh.c", "src/tanh.c", "src/coth.c", "src/sech.c", "src/csch.c", "src/arsinh.c", "src/arcosh.c", "src/artanh.c", "src/arcoth.c", "src/arsech.c", "src/arcsch.c"])]:
    s = ACC.replace("The result is", "For all eight types the result of %s is" % fns)
    if id == "C14":
        s = s.replace("by a relative 2^-56)", "by a relative 2^-56, and the operand of the pi-multiple functions in any 64-bit type by 2^-62)")
    if id in ("C15", "C16"):
        s = s.replace("by a relative 2^-56)", "by a relative 2^-56, and the reciprocal forms in the linear type by 2^-62)")
    if id == "C14":
        s += " (An argument within that perturbation of a pole or zero may be treated as on either side of it or exactly there; exact integers and half-integers times pi give exact zeros, ones and poles.)"
    p(id, t, s, ["inputs"], "every argument of each type for each of the named functions", TESTS + "exact poles, zeros, domain edges, range ends and cancellation windows of the wide types are not sampled, and a mistake shared by the formula and its copy in the test is invisible.",
      files + ["src/util.h", "src/codec.c", "src/conversion.c"], [("carrier float function and re-encoding", "src/util.h:UTIL_UNARY_FLOAT_*"), ("function bodies and overflow/underflow fix-ups", ", ".join(files))])
p("C17", "Real powers are accurate and clamp instead of overflowing",
  "For all eight types a raised to b is the code nearest to the exact power (at most 0.5 + 2^-16 code units away for 8, 16 and 32 bits, 0.75 for 64 bits, where logarithmic operands may be read as off by a relative 2^-56), clamped to the extreme magnitudes. "
  "A negative a to an integral b takes the sign of the parity of b, 0 to a positive power is 0, and any nonzero number to the power 0 and 1 to any power are 1.",
  ["inputs"], "every operand pair of each type", TESTS + "integral exponents, unit bases and overflow edges of the wide types are not hit by random pairs.",
  ["src/power.c", "src/util.h"], [("carrier float power with under/overflow fix-up", "src/power.c:RESULT_FIXER_MACRO"), ("wrappers", "src/util.h")])
p("C18", "Integer powers are accurate for every 64-bit exponent",
  "For all eight types and every signed 64-bit n, a to the n is the code nearest to the exact power (at most 0.5 + 2^-16 code units away for 8, 16 and 32 bits, 0.75 for 64 bits, where a logarithmic operand may be read as off by a relative 2^-56), clamped to the extreme magnitudes, negative exactly when a is negative and n odd. "
  "a to the 1 is a (within 8 codes in the 64-bit logarithmic type), a to the 0 is one for nonzero a, 0 to a positive n is 0 and to n <= 0 NaR.",
  ["inputs"], "every code of each type with every signed 64-bit integer exponent", TESTS + "the exponent comes from a fixed short list, so parity, sign and exponent size (2^24, 2^53, 2^63) are not explored jointly with the base.",
  ["src/integer_power.c", "src/codec.c"], [("scaled logarithm or carrier power, with clamping", "src/integer_power.c")])
p("C19", "Integer roots are accurate for every 64-bit index, odd roots of negatives too",
  "For all eight types and every nonzero signed 64-bit n, the n-th root of a is the code nearest to the exact real root (at most 0.5 + 2^-16 code units away for 8, 16 and 32 bits, 0.75 for 64 bits, where a logarithmic operand may be read as off by a relative 2^-56), clamped to the extreme magnitudes; odd roots of a negative are negative. "
  "The result is NaR for n = 0, for even n with a negative and for negative n with a zero; the first root of a is a (within 8 codes in the 64-bit logarithmic type) and the n-th root of 0 is 0 for positive n.",
  ["inputs"], "every code of each type with every signed 64-bit integer index", TESTS + "the index comes from a fixed short list, and the reference has the same domain mistakes as the code.",
  ["src/root.c", "src/codec.c"], [("divided logarithm or carrier power", "src/root.c"), ("domain guards", "src/root.c")])
p("C20", "Absolute value, sign and precision are exact on every code",
  "For all eight types and every code: the absolute value of a is a or its two's-complement negation, never negative (NaR stays NaR); the sign is minus one, 0, one or NaR. "
  "The reported precision is the number of mantissa bits left after sign, direction, regime and characteristic bits, at least 0, and the width minus 12 (at least 0) for 0 and NaR.",
  ["inputs"], "every code of every type", TESTS + "regime boundaries and extremes of the 32/64-bit types are single codes among 2^32 and 2^64.",
  ["src/absolute.c", "src/sign.c", "src/precision.c"], [("bit operations", "src/absolute.c, src/sign.c, src/precision.c")])
p("C21", "Algebraic symmetries hold bit for bit",
  "In all eight types addition, multiplication and the hypotenuse are commutative bit for bit, and a - b equals a + (-b). "
  "Signs factor out: negating both operands of a sum or difference, swapping those of a difference, negating one operand of a product or quotient or the argument of an odd function (sine, tangent, cotangent, cosecant, arcsine, arctangent, arccosecant, their hyperbolic counterparts and inverses, inversion, sign) negates the result's code, and even functions (cosine, secant, hyperbolic cosine and secant, absolute value, hypotenuse) ignore the sign. "
  "These sign laws hold bit for bit in every type except the 64-bit logarithmic one, where they hold within one code unit.",
  ["inputs"], "every code, or pair of codes, of every type", TESTS + "no test relates two calls, so asymmetric rounding in the wide types goes unnoticed.",
  ["src/util.h", "src/codec.c", "src/addition.c", "src/subtraction.c", "src/multiplication.c", "src/division.c", "src/sin.c"],
  [("sign-symmetric encoder", "src/codec.c:codec_takum*_from_s_and_l, codec_linear_l_from_*"), ("wrappers", "src/util.h")])
p("C22", "Functions are pure: no history, interleaving or environment changes a result",
  "Every function's result depends on its arguments alone: not on which functions were called before, on the value of errno, raised floating-point exception flags or the locale, nor on calls running at the same time in other threads, under any interleaving. "
  "No call modifies data shared between calls (no writable global state), the floating-point rounding mode, the locale or the signal state.",
  ["schedules", "histories", "configurations"], "every call sequence and every interleaving of concurrent calls, in every initial environment",
  "Tests are single-threaded and call each function in one fixed order in one environment.",
  ["src"], [("no static mutable state; only constant lookup tables", "src/codec.c, src/precision.c"), ("value-only interfaces", "takum.h")],
  state=[("lookup tables", "constant after load", "src/codec.c:c_bias_lut, p_lut; src/precision.c:p_lut")])
p("C23", "The calculator evaluates every postfix line as documented and survives bad ones",
  "For any input lines the example calculator acts as the stack machine it documents: 64-bit integers of every base (below 2^63 - 1) and decimal numbers push the code of the current type, operators pop their operands and push the library's result, a register letter pushes that register, and a line leaving exactly one value prints it under the next letter (wrapping from z to a) and stores it. "
  "An unknown token, too few operands, or a final stack of any other size reports an error (except that a root with a non-integral index stops the line silently) and changes neither registers nor current type, a type-switch word or the help word takes effect and ends the line, and an empty line does nothing; later lines are never affected by an aborted one.",
  ["histories", "inputs"], "every sequence of lines, every sequence of tokens in a line",
  "The repository has no test of the calculator at all.",
  ["example/calculator.c", "example/util.c"],
  [("token dispatch and operand stack", "example/calculator.c"), ("line input", "example/util.c")], observe=["standard output and standard error of the calculator"],
  state=[("registers a-z", "results of earlier lines", "example/calculator.c"), ("current type", "one of eight types", "example/calculator.c")])
p("C24", "Every function is total: it returns without undefined behaviour on any argument",
  "Every public function returns normally for every combination of argument bit patterns and integers, including NaR, the extreme codes, NaNs, infinities, subnormals and the extreme 64-bit integers. "
  "No call overflows a signed integer, shifts out of range, converts an out-of-range float to an integer, reads outside an object or uses an uninitialised value.",
  ["inputs"], "every argument of every public function",
  TESTS + "they are never built with sanitizers, and extreme codes, floats and integers are not passed to most functions.",
  ["src"], [("clamping before conversion to integers", "src/codec.c"), ("masked lookups and bounded shifts", "src/codec.c, src/util.c, src/conversion.c"), ("negation guarded against NaR", "src/absolute.c")])
p("C25", "Conversions and order-preserving functions are monotone",
  "If x <= y then importing them into any type gives codes in that order, and converting codes between any two widths, or between families, or exporting them to any float format, preserves order. "
  "In the same sense square root, logarithms, exponentials (without the minus-one forms), arctangent, arsinh, sinh and tanh are non-decreasing and inversion is non-increasing on each side of zero, for the types up to 32 bits.",
  ["inputs", "histories"], "every ordered pair of neighbouring inputs of each conversion and function",
  TESTS + "no test compares results of neighbouring arguments.",
  ["src/conversion.c", "src/codec.c", "src/util.c", "src/util.h"], [("round to nearest in the encoder", "src/codec.c, src/util.c"), ("carrier floats wide enough", "src/util.h")])
ids=[x["id"] for x in P]; assert len(set(ids))==len(ids)
for x in P:
    assert len(x["title"])<=80, x["id"]
if __name__ == "__main__":
    d=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(d,"properties.jsonl"),"w") as f:
        for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
    print(len(P),"properties")
