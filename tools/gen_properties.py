#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = "src/lib.rs"
P = []
def add(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

WIDE = ("the four storage widths (16/32/64/128 bits) and every precision whose scale factor 10^P fits the width")

add("C01", "Rounding multiplication is exactly rounded or reports overflow",
    "For every two fixed-point numbers of one type and every rounding mode, rounding multiplication returns the mathematical product rounded as the mode says: largest representable value not above it (Floor), smallest not below it (Ceil), closest one with halves away from zero (Nearest). It returns Overflow exactly when that rounded value is outside the type's range, never panics, and does not depend on operand order.",
    ["inputs", "configurations"], "all operand pairs, all three modes, " + WIDE,
    "Tests sample a few dozen pairs for i64/9 and i128/18 only; no i16/i32, no other precision, no systematic tie, sign and boundary combinations.",
    [L, "src/i256/mod.rs", "src/i256/u256.rs"],
    [("promotion to double width, truncating division, loss-based correction", L + " RoundingMul::rmul"),
     ("256-bit multiply/divide for 128-bit storage", "src/i256")])

add("C02", "Rounding division and reciprocal are exactly rounded",
    "For every two fixed-point numbers of one type and every rounding mode, rounding division returns the mathematical quotient rounded as the mode says (halves away from zero under Nearest), DivisionByZero exactly when the divisor is zero, and Overflow exactly when the rounded quotient is outside the type's range. The reciprocal is the same as dividing one by the number, and neither ever panics.",
    ["inputs", "configurations"], "all operand pairs, all three modes, " + WIDE,
    "Tests sample a few dozen quotients for two types; large divisors, MIN, ties with odd divisors and the multi-word division branches are not reached.",
    [L, "src/i256/mod.rs", "src/i256/u256.rs"],
    [("numerator scaled in double width, loss-based correction", L + " RoundingDiv::rdiv"),
     ("multi-word long division", "src/i256/u256.rs div_mod")])

add("C03", "Rounding division involving plain integers is exactly rounded",
    "Dividing a fixed-point number by a plain integer, a plain integer by a fixed-point number, or a plain integer by a plain integer of the same width gives the exactly rounded quotient for every mode (halves away from zero under Nearest). A zero divisor gives DivisionByZero, an unrepresentable rounded quotient gives Overflow, and nothing panics; only an integer dividend that is itself too large for the fixed-point type may be refused with an error although the quotient would fit.",
    ["inputs", "configurations"], "all operand pairs, all three modes, integer widths 8..128, " + WIDE,
    "Tests cover about thirty quotients and never MIN / -1, MIN as a divisor or divisors above half the range.",
    [L, "src/ops/mod.rs"],
    [("integer rounding division", "src/ops/mod.rs impl_for_ints"), ("mixed-operand divisions", L + " RoundingDiv impls")])

add("C04", "Checked addition, subtraction, multiplication and negation are exact",
    "Checked addition, subtraction, multiplication by an integer (either operand order), negation and absolute value, on fixed-point numbers and on plain integers, return exactly the mathematical result when it is representable. Otherwise they return Overflow; they never wrap, clamp, round or panic.",
    ["inputs", "configurations"], "all operand pairs, " + WIDE + ", and plain integers of 8..128 bits",
    "Tests check a handful of overflow points; they cannot enumerate every boundary pair of every width.",
    [L, "src/ops/mod.rs"],
    [("checked integer primitives", "src/ops/mod.rs impl_for_ints"), ("delegation from fixed-point", L + " CheckedAdd/Sub/Mul, cneg, abs")])

add("C05", "Saturating operations clamp to the correct bound",
    "Every saturating operation (add, sub, mul by an integer in either operand order, rounding mul with any mode, on fixed-point numbers, plain integers and user types relying on the provided default methods) returns the checked operation's result when there is one. Otherwise it returns MAX when the mathematical result is above the range and MIN when it is below, and it never panics.",
    ["inputs", "configurations"], "all operand pairs, modes, " + WIDE,
    "Tests sample about fifteen saturating points per operation; sign combinations at the exact boundary are not enumerated.",
    [L, "src/ops/mod.rs"],
    [("default saturating methods choose a bound from operand signs", "src/ops/mod.rs traits"), ("delegation to integer saturating ops", L)])

add("C06", "Square root is exactly rounded",
    "For every non-negative fixed-point number and every rounding mode, the square root is the exact real square root rounded to the type as the mode says (Floor, Ceil, or the closer of both for Nearest). Every negative number gives DomainViolation, and the operation terminates without panicking for every input.",
    ["inputs", "configurations"], "all inputs, all modes, " + WIDE + ", with and without the std feature",
    "Tests check some fifteen roots; perfect squares plus/minus one, the nearest-mode decision point and the recursion through 256-bit roots are not enumerated.",
    [L, "src/ops/sqrt.rs", "src/i256/u256.rs", "src/i256/mod.rs"],
    [("integer Babylonian fixpoint and bitwise recursion", "src/ops/sqrt.rs"), ("mode selection", L + " rsqrt")])

add("C07", "Rounding to whole numbers follows the mode",
    "The integral part of every fixed-point number under every mode is the exactly rounded integer (halves away from zero under Nearest), including for the extreme values of the type. Floor, ceil and round return that same integer as a fixed-point number whenever it is representable.",
    ["inputs", "configurations"], "all inputs, all modes, " + WIDE,
    "Tests sample thirteen values of two types and no extreme value; floor, ceil and round have no direct test.",
    [L], [("truncating division plus signed correction", L + " integral, floor, ceil, round")])

add("C08", "Half-sum is the rounded mean and never overflows",
    "For every pair of numbers of one type and every rounding mode, the half-sum is the exact mean (a + b) / 2 rounded as the mode says (under Nearest a tie may go to either neighbour), regardless of operand order. It never overflows or panics, even when a + b is outside the range.",
    ["inputs", "configurations"], "all operand pairs, all modes, " + WIDE,
    "Tests sample some fifteen pairs of two types and never Nearest.",
    [L], [("sign split to avoid overflow", L + " half_sum")])

add("C09", "Power-of-ten and step rounding helpers are exact",
    "For every non-zero number the next power of ten is the power of ten (times the type's unit grid) of the same sign with the smallest magnitude not below the number's, zero maps to the smallest positive number, and Overflow is returned exactly when that power is not representable. Rounding towards zero by a step returns the multiple of the step closest to the number from the side of zero, and the number unchanged when the step is zero; the sign function returns -1, 0 or 1.",
    ["inputs", "configurations"], "all inputs and steps, " + WIDE,
    "Tests sample some forty values of two types; the 32- and 16-bit lookup tables are never executed and most rows of the other two are not.",
    [L, "src/power_table.rs"],
    [("leading-zeros lookup tables", "src/power_table.rs"), ("table correction", L + " next_power_of_ten"), ("checked div/mul", L + " round_towards_zero_by")])

add("C10", "Text output is exact, canonical and reads back to the same number",
    "For every number, Display and Debug print its exact decimal value in one canonical form: a minus sign only for negative numbers, the integer part without leading zeros, a point, and the fraction without trailing zeros but at least one digit. Parsing that text, exactly or with rounding, returns the identical number, and printing never panics or touches memory out of bounds.",
    ["inputs", "configurations"], "all values, " + WIDE + ", with and without the 128-bit feature",
    "One property test samples i128/18 values, a few examples for i64/9; other widths, precisions 0 and maximal, and the buffer bound without the i128 feature are not exercised.",
    ["src/string.rs", L], [("fixed-size stack buffer with unchecked writes", "src/string.rs StrBuf"), ("leading-one padding trick", "src/string.rs stringify")])

add("C11", "Parsing accepts exactly the decimal grammar and rounds correctly",
    "Text is accepted exactly when, after trimming white space, it is an optional sign and digits, optionally followed by a point and at least one digit, and its value fits. Ordinary parsing returns the value rounded to the nearest representable number with halves away from zero; exact parsing returns the value itself and reports an error instead of rounding. Everything else is an error, never a panic or a wrong number.",
    ["inputs", "configurations"], "all strings, " + WIDE,
    "Tests list about sixty strings for two types; rounding at the range limit, carries and malformed shapes cannot be enumerated by example.",
    ["src/string.rs"], [("split at the point, digit check, truncation and rounding digit", "src/string.rs parse_str")])

add("C12", "Mantissa/exponent conversion is exact and inverse",
    "Building a number from a mantissa and an exponent gives exactly mantissa * 10^exponent for every exponent from -PRECISION to 10 when that is representable, and an error otherwise (any other exponent is an error); it never wraps or panics. Decomposing a number with a maximum exponent (not below -PRECISION) gives a pair of exactly equal value whose exponent lies between -PRECISION and that maximum, whose mantissa does not end in a zero unless the exponent is at the maximum, and for zero gives mantissa 0 with exponent min(0, maximum).",
    ["inputs", "configurations"], "all mantissas, exponents and limits, " + WIDE,
    "Tests use exponents at most 1 except in one round-trip property test of i128/18, so multiplier overflow and other precisions are not reached.",
    [L], [("scaled multiplier and checked multiplication", L + " from_decimal"), ("zero stripping loop", L + " to_decimal")])

add("C13", "Conversion from every integer type is exact or an error",
    "Converting any value of any primitive integer type (8 to 128 bits, signed, unsigned and pointer-sized) to a fixed-point number yields exactly that number when it is representable and an error otherwise. It never wraps, truncates or panics.",
    ["inputs", "configurations"], "all integer values of twelve integer types into " + WIDE,
    "Tests only convert through parsing or deserialization of 42 and -42.",
    [L], [("narrowing conversion then checked scaling", L + " TryFrom<int> impls")])

add("C14", "Conversion from f64 is faithful to the float",
    "Converting a finite f64 gives a number within 5/9 of the type's smallest step plus 1.3e-15 of the float's magnitude, preserves sign symmetry and order, and gives an error only when the float rounds to something outside the range; NaN and infinities are errors. In particular every whole float converts exactly (or is an error when out of range), and so does the float nearest to a number that has at most 15 digits when counted in the type's smallest step; the minimum value converts like any other.",
    ["inputs", "configurations"], "all f64 bit patterns, " + WIDE,
    "The property test only draws large uniform floats into i128/18 and skips what rust_decimal rejects; small exponents, denormals, other widths and precisions are sampled by a few examples.",
    ["src/float.rs", "src/power_table.rs"],
    [("binary to decimal exponent exchange with lossy steps", "src/float.rs try_from"), ("power tables and rounding thresholds", "src/power_table.rs")])

add("C15", "Conversion to f64 is faithful and reversible",
    "Converting any fixed-point number to f64 gives a float within two and a half units in the last place of its exact value (exactly the value for whole numbers below 2^53), never NaN or infinite, keeps the sign and preserves order. Numbers with at most 15 digits when counted in the type's smallest step come back identical when the float is converted to the same type again, and every number comes back within the error bounds of the two conversions.",
    ["inputs", "configurations"], "all values, " + WIDE,
    "Tests compare about twenty values of two types.",
    [L, "src/float.rs"], [("integral plus fractional sum", L + " From<FixedPoint> for f64")])

add("C16", "Human-readable serialization round-trips and parses all number forms",
    "In human-readable formats a number is written as its canonical decimal string and reads back identically; strings, integers of every width and floats are all accepted on input with the same result as the corresponding direct conversion, and anything not convertible is an error. The string, float and raw-representation adapters and their optional variants write exactly the canonical string, the f64 value or the raw integer (or none), and read back what they wrote from borrowed as well as owned input. The generated JSON schema admits what is written, a string.",
    ["inputs", "configurations"], "all values and all input token kinds, " + WIDE,
    "Tests use seven values from borrowed JSON text; 128-bit integers, owned strings, extreme values and error inputs are not covered.",
    ["src/serde.rs", "src/string.rs", "src/schemars.rs"],
    [("format-dependent Serialize/Deserialize", "src/serde.rs"), ("visitor over token kinds", "src/serde.rs FixedPointVisitor"), ("adapter modules", "src/serde.rs repr, str, float and *_option")])

add("C17", "Binary serialization is the raw representation and round-trips",
    "In binary (not human-readable) formats every number is encoded exactly as its raw underlying integer and decodes to the identical number; input that is not a valid raw integer is an error. Raw-representation access (from bits, as bits, into bits) is lossless for every bit pattern.",
    ["inputs", "configurations"], "all values, " + WIDE + ", several binary formats",
    "No test serializes to a binary format.",
    ["src/serde.rs", L], [("repr adapter", "src/serde.rs repr"), ("bits accessors", L)])

add("C18", "SCALE codec encoding is the little-endian raw integer and round-trips",
    "With the SCALE codec every number encodes to the little-endian bytes of its raw integer, and in compact form exactly as the compact encoding of that integer's unsigned reinterpretation; decoding either form returns the identical number, also inside containers. Truncated or malformed input is an error, never a panic.",
    ["inputs", "configurations"], "all values, " + WIDE + ", all truncations of the encoding",
    "The repository has no test of the codec.",
    ["src/parity.rs"], [("reinterpreting reference cast", "src/parity.rs encode_as"), ("fixed and compact codecs", "src/parity.rs")])

add("C19", "Compile-time literals mean what they say or do not compile",
    "Every plain decimal literal that the target type can represent is accepted by the literal macros (given the target's own precision) and denotes exactly the written decimal number, identical to parsing the same text exactly at run time, in constant and ordinary position, through other macros and through wrapper types; a trailing point is allowed as in Rust literals. A literal with more fractional digits than the precision, a value outside the target type's range or text that is not a plain decimal number is rejected at compile time. Both hold with and without the 128-bit feature and whether or not the crate is compiled with overflow checks.",
    ["programs", "configurations"], "all literal texts, " + WIDE + ", with and without the 128-bit feature",
    "One compile-fail test covers only an over-long fraction and nine values of the internal parser are tested.",
    ["src/const_fn.rs", "src/macros.rs"], [("const parser", "src/const_fn.rs parse_fixed"), ("literal macros", "src/macros.rs fixnum, fixnum_const")])

add("C20", "Generated wrapper-type operations equal the underlying operations",
    "An operation defined on wrapper types through the operation macro (checked add, sub, mul, rounding mul, rounding div, over fixed-point and integer wrappers of any narrower width) returns the wrapped result of the same operation on the inner values, including errors, rounding mode and operand order; its saturating forms clamp like the underlying ones. No operand is truncated when it is promoted.",
    ["inputs", "programs"], "all operand pairs, all macro operations, all integer widths that promote to the storage width",
    "Only documentation examples exercise the macro, with one or two values.",
    ["src/macros.rs"], [("operand promotion and generated impls", "src/macros.rs impl_op, Operand")])

add("C21", "Results do not depend on build configuration",
    "Every operation gives the same result for the same operands whether the crate is built with or without std, with only one or all storage widths, with or without the optional integration features, and with or without run-time overflow checks.",
    ["configurations", "inputs"], "feature sets x build profiles x the operation alphabet",
    "Tests run four feature sets in one profile and without comparing results across them; the no_std root seed and the feature-dependent literal integer and buffer size are not compared.",
    [L, "src/ops/sqrt.rs", "src/string.rs", "src/const_fn.rs"],
    [("std-dependent initial guess", "src/ops/sqrt.rs guess"), ("feature-dependent buffer size", "src/string.rs MAX_LEN"), ("feature-dependent literal integer", "src/const_fn.rs Int")])

add("C22", "Operations are pure: no history or concurrency dependence",
    "The result of every operation depends only on its operands and mode: it is the same after any sequence of other operations (including failed ones), on any thread, and while other threads run the same or other operations. Operands are never modified.",
    ["histories", "schedules", "inputs"], "all operation sequences up to a depth over an operation alphabet, from every reachable register value",
    "Each test performs isolated operations; sequences and repeated evaluation in different orders are not explored.",
    [L, "src/ops/mod.rs", "src/string.rs"], [("operations on Copy values without shared state", L)])

add("C23", "Order, equality, hash and constants agree with the numeric value",
    "Comparison, equality, hashing and the default value of fixed-point numbers agree with the exact numeric values they denote. ZERO, ONE, MIN, MAX, EPSILON and PRECISION are the numbers 0, 1, the least and greatest representable numbers, the smallest step 10^-P and the number of fractional digits.",
    ["inputs", "configurations"], "all pairs of values, " + WIDE,
    "Tests use equality as their oracle and never check ordering or the constants themselves.",
    [L], [("derived comparison traits", L + " FixedPoint"), ("associated constants", L), ("power of ten table", "src/const_fn.rs pow10")])

add("C24", "Impossible precisions and mixed types never yield a number",
    "Every type whose scale 10^P fits its storage supports the whole interface. With a precision too high for the storage nothing wrong is ever computed: a use that depends on the scale is rejected by the compiler (or gives the exact result or an error). Numbers of different precision or storage, and numbers and integers in addition, subtraction and comparison, cannot be mixed; there are no plain operators, no checked multiplication of two numbers and no lossy implicit conversions, so rounding and overflow handling are always explicit. A number has size, alignment and value semantics of its raw integer.",
    ["programs", "configurations"], "all storage widths and precisions up to 64 digits, all pairs of types, all operations of the interface",
    "Tests only use types that fit; what must not compile is tested once, for a literal.",
    [L, "src/ops/mod.rs", "src/const_fn.rs"], [("scale as an associated constant", L + " COEF"), ("operation traits implemented for equal types only", L), ("power of ten at compile time", "src/const_fn.rs pow10")])

add("C25", "Every feature combination builds and provides its documented interface",
    "Every combination of the crate's features with at least one storage width builds, and provides the documented interface for exactly the enabled widths: arithmetic, text and conversions, literals and wrapper operations, the error trait with std (a default feature), and each enabled integration (serde with its adapters, schemars, SCALE codec). Without std it also builds where there is no standard library (schemars excepted). A combination without any width is rejected.",
    ["configurations"], "all 512 sets of the nine features",
    "Tests build a handful of feature sets, and always where std exists.",
    ["Cargo.toml", L, "src/schemars.rs", "src/serde.rs", "src/parity.rs", "src/errors.rs"],
    [("conditional modules and impls", L), ("feature table", "Cargo.toml"), ("no_std attribute", L)])

add("C26", "Safe use has no undefined behaviour",
    "The whole interface is safe, and no use of it has undefined behaviour: whatever operation, text, number, byte string or serialisation is requested, for whatever operands, widths, precisions and features, in release and debug builds and from any number of threads at once, there is no access outside of an object, no uninitialised, misaligned or invalid value (texts are valid UTF-8), no aliasing violation and no data race, and the process does not abort.",
    ["inputs", "schedules", "configurations"], "all calls of the interface, all operands, pairs of concurrent calls, both build profiles",
    "Tests see only that results are right with the memory layout and machine code of one build; an out-of-bounds access, invalid value or race without visible effect passes, and the buffer of the printer is never filled.",
    ["src/string.rs", "src/i256/u256.rs", "src/parity.rs"],
    [("unchecked buffer writes, from_utf8_unchecked", "src/string.rs StrBuf"), ("raw pointer writes and transmute", "src/i256/u256.rs"), ("reference cast to the unsigned representation", "src/parity.rs encode_as")])

add("C27", "Results do not depend on the target platform",
    "Every operation gives the same result (number, error, text, encoded bytes) for the same operands on 32-bit and 64-bit, little-endian and big-endian targets; encodings can be exchanged between them.",
    ["inputs", "configurations"], "all calls of the interface x targets",
    "Tests run on the build machine only.",
    [L, "src/parity.rs", "src/i256/u256.rs", "src/float.rs", "src/serde.rs"],
    [("transmute of words", "src/i256/u256.rs"), ("usize in shifts and table look-ups", "src/float.rs, src/power_table.rs"), ("conversion from isize, usize", L), ("byte order of encodings", "src/parity.rs")])

add("C28", "Macros work and mean the same in any context",
    "impl_op!, fixnum! and fixnum_const! compile, and generate the same operations and numbers, wherever a program may use them: whatever types, traits, aliases (say, a Result of its own), modules, functions, constants, generic parameters or macros it defines under whatever names, whatever methods its traits give to all types, in modules, functions, traits, constants and the program's own macros, under an import, a new name or a re-export, with or without the prelude and std, in every edition and with lints denied. In short: a program that is accepted without the macros is accepted with them.",
    ["programs", "configurations"], "all names x kinds of definitions, placements, editions, lint settings",
    "Tests use the macros at the top of a file that imports the crate's own traits and defines nothing that clashes.",
    ["src/macros.rs"], [("paths in the expansion", "src/macros.rs impl_op, fixnum, fixnum_const"), ("what expansions refer to", "src/lib.rs _priv")])

add("C29", "Every operation ends within a bounded number of steps",
    "No input makes an operation hang or run out of proportion. Every operation on numbers (arithmetic, division, roots, rounding, comparison, mantissa and exponent, conversion to and from integers and floats, printing) takes a number of steps bounded by a constant, whatever the operands, the mode and the exponent limits are, including zero and the extremes; parsing and deserialisation take at most a constant plus a number of steps proportional to the length of the text, document or byte string, accepted or rejected.",
    ["inputs"], "all operands, modes and exponents; texts and byte strings of every length",
    "Tests do not notice a slow answer, and use short texts and small exponents; a loop as long as an exponent or a value, or a quadratic scan, passes.",
    [L, "src/string.rs", "src/ops/sqrt.rs", "src/i256/mod.rs"],
    [("loop that strips zeros", L + " to_decimal"), ("Newton iteration", "src/ops/sqrt.rs"), ("scans of the text", "src/string.rs parse_str"), ("power of the exponent", L + " from_decimal")])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
