# ---------------------------------------------------------------- numeric-bits

prop("C15", "Growing bit-slice arithmetic is exact",
     "For any two little-endian slices of unsigned elements of any width, the growing add, subtract, multiply, divide-with-remainder, shift, compare and bit-operation algorithms return the exact mathematical result on the numbers the slices denote, and subtraction reports the correct sign. The element-wise and the bit-wise algorithm families agree. Division by zero panics (or reports absence in the checked form) instead of returning a number or looping.",
     ["inputs"], "All pairs of slices (any element width u8..u128, any length including unequal lengths and leading zero elements), all shift amounts, all divisors.",
     "Unit tests use a few short slices of one element width; carries, borrows and quotient corrections across elements depend on specific element patterns and lengths.",
     ["crates/bits/src/algos/element", "crates/bits/src/algos/bitwise", "crates/bits/src/algos.rs"],
     [("element-wise algorithms with carry/borrow propagation", "crates/bits/src/algos/element/*.rs"),
      ("bit-wise algorithms", "crates/bits/src/algos/bitwise/*.rs")],
     "A case is a pair of generated slices (lengths 0..24, held in a slice, vector, array or a container of our own, widths 8..128, boundary-heavy elements, second slice often related to the first) plus an operation; non-trivial when both operands are non-zero and at least one has more than one element (shifts: shift of a non-zero value by a non-zero amount).",
     H("bits"), "property-based testing against a reference integer model", REF,
     observe=["the public algorithm traits on slices and vectors"])

prop("C16", "In-place bit-slice arithmetic wraps exactly and reports overflow",
     "For any destination slice, in-place wrapping, overflowing and checked add, subtract, multiply, divide, remainder and shifts store the exact result modulo 2^(bits of the destination), and their overflow flag (or absent result) is set exactly when the true result does not fit. Shifts never report lost bits: a checked shift refuses an amount greater than the number of bits, a wrapping one takes it modulo the number of bits.",
     ["inputs"], "All destination/operand slices of every element width, unequal lengths included, and all shift amounts.",
     "Tests check single fixed sums; the overflow flag must be right at every length combination and for results just above and below the limit.",
     ["crates/bits/src/algos/element", "crates/bits/src/algos/bitwise"],
     [("in-place wrapping/overflowing/checked algorithm methods", "crates/bits/src/algos/element/{add,sub,mul,div,shl,shr}.rs")],
     "A case is a destination slice (possibly without elements), a second operand of any length and an operation; non-trivial when the operands are non-zero and the destination has more than one element or the exact result overflows.",
     H("bits"), "property-based testing against a reference integer model", REF)

prop("C17", "Bit slices behave as the bit vector they denote",
     "Reading, writing, extending, pushing, iterating and comparing bits and elements of a bit slice agrees with a plain vector of bits after any sequence of operations. Writes change only the addressed bit or element, and out-of-range accesses are reported or ignored as documented, never touching neighbouring bits.",
     ["histories", "inputs"], "All sequences of accessor calls on all slices of every element width.",
     "Tests call each accessor once on one array; index arithmetic between bit and element positions only fails at particular positions, lengths and call orders.",
     ["crates/bits/src/bit_slice.rs", "crates/bits/src/bit_slice/iter.rs"],
     [("index arithmetic between bits and elements", "crates/bits/src/bit_slice.rs"), ("bit iterator", "crates/bits/src/bit_slice/iter.rs")],
     "A case is a generated slice and a sequence of up to 20 accessor calls compared step by step with a Vec<bool> model; non-trivial when at least two mutations happened on a slice of more than one element.",
     H("bits"), "stateful property-based testing against a bit-vector model", "Generated histories of bounded length; trusts the Vec<bool> model.")

prop("C18", "Splitting integers into elements and back loses nothing",
     "Converting any primitive integer to a list of narrower or wider unsigned elements and back yields the same integer, whatever the element width. A list whose value does not fit the target integer is rejected, a list with redundant high zeros is accepted, and trimming or reversing element arrays preserves their value or content.",
     ["inputs"], "All primitive integers, all element widths, all element lists.",
     "Tests convert a couple of values at one width pair; extreme signed values, widths wider than the integer and lists one element too long are not sampled.",
     ["crates/bits/src/utils.rs"],
     [("int_to_arr / arr_to_int / shrink", "crates/bits/src/utils.rs")],
     "A case is an integer (or element list) with an element width; non-trivial when the value is non-zero and not a single low element.",
     H("bits"), "round-trip and model-based property testing", REF)

# ---------------------------------------------------------------- numeric-traits

prop("C19", "Casts between primitives keep the promised value",
     "For every pair of primitive types, the checked cast succeeds exactly when the value is representable in the target and then preserves it, the truncating cast keeps the low bits of the two's complement value, the saturating cast returns the nearest representable value, and saturating casts to and from floats give the nearest float and the clamped integer part (NaN becomes zero), as the language's own conversion does. Widening casts always preserve the value.",
     ["inputs"], "All pairs of primitive types and all source values, including extremes, NaN and infinities.",
     "There are hundreds of type pairs produced by macros, each with its own boundary values; the tests touch a handful.",
     ["crates/traits/src/cast.rs", "crates/traits/src/__impl.rs"],
     [("cast trait implementations generated by macros", "crates/traits/src/cast.rs, crates/traits/src/__impl.rs")],
     "A case is a source type, a target type and a boundary-heavy value; non-trivial when the value is not in 0..=1.",
     H("traits"), "property-based testing against exact integer arithmetic and the language's casts",
     "Generated values; every type pair is exercised. Trusts i128/u128 arithmetic and the `as` operator of the compiler.")

prop("C20", "Operation traits on primitive integers do what their names promise",
     "For every primitive integer type, the checked, wrapping, overflowing and widening operations, shifts, powers, gcd, absolute value, sign tests, identities, bounds and bit counts agree with exact arithmetic: wrapping results are congruent modulo the width, the overflow flag is set exactly when the result wrapped, checked results are absent exactly on overflow, and integer division by zero is absent in checked form and panics otherwise.",
     ["inputs"], "All primitive integer types and all operand pairs, including extremes and shift amounts or exponents wider than the type.",
     "The trait impls are macro-generated per type; the tests do not cover every (type, operation, boundary) triple.",
     ["crates/traits/src/ops", "crates/traits/src/class.rs", "crates/traits/src/identity.rs"],
     [("macro-generated operation impls", "crates/traits/src/ops"), ("class traits (Integral, Signed, Unsigned, Bounded, ...)", "crates/traits/src/class.rs")],
     "A case is a type, a pair of boundary-heavy operands and an operation; non-trivial when both operands are outside 0..=1.",
     H("traits"), "property-based testing against exact integer arithmetic",
     "Generated operands; every type is exercised. Trusts i128/u128 and the harness's reference integers.")

prop("C21", "Floating-point traits agree with IEEE arithmetic",
     "For f32 and f64, the numeric traits (identities, sign tests, rounding, absolute value, bounds, powers, roots, logarithms and trigonometric functions) return the same value as the standard library's operation of that name, for every input including NaN, infinities, signed zeros and subnormals.",
     ["inputs"], "All f32/f64 bit patterns and pairs of them.",
     "Tests sample ordinary values; the special values and sign cases are where wrappers go wrong.",
     ["crates/traits/src/class.rs", "crates/traits/src/ops", "crates/traits/src/identity.rs"],
     [("float impls of the class and operation traits", "crates/traits/src")],
     "A case is one or two generated bit patterns (specials, integers, halves, subnormals, random); non-trivial when the first is finite and not an identity or is one of the special values.",
     H("traits"), "differential property-based testing against the standard library",
     "Generated bit patterns; trusts the standard library's float operations.")

prop("C34", "Methods the traits provide follow from the ones a type implements",
     "For any type that implements only the required methods, the provided ones do what they are documented to do in terms of those: native-endian byte conversions equal the conversions in the host's byte order, sqrt, cbrt and root(k) are the powers with exponent 1/2, 1/3 and 1/k, and into_checked, saturate and truncate give exactly what the target type's own checked, saturating and truncating conversion gives for the same value.",
     ["inputs"], "All implementing types and all their values.",
     "Every type in the repository overrides or bypasses some of the provided methods, so the tests never run them; they matter to types a user adds.",
     ["crates/traits/src/bytes.rs", "crates/traits/src/class.rs", "crates/traits/src/cast.rs"],
     [("provided methods of ConvertBytes and Real, blanket cast impls", "crates/traits/src")],
     "A case is a value of one of five types defined by the harness (byte arrays of 0..65 bytes, a float with only powers, powers of two with exact rational exponents, decimals whose division rounds, a tagged number); non-trivial when the bytes are not a palindrome, the value exceeds 1.",
     H("traits"), "property-based testing of provided methods on own implementations against their definitions",
     "Generated values of a few own types; trusts the standard library's powers within 1e-12.")

# ---------------------------------------------------------------- numeric-ints: BigInt

prop("C01", "BigInt addition, subtraction, multiplication and powers are exact",
     "For any two BigInts of any size and sign, +, -, *, unary minus, abs and powers with a non-negative exponent return the exact mathematical result, in every operand form (by value, by reference, compound assignment, primitive right-hand operand), leave borrowed operands unchanged, and satisfy the ring laws. A negative exponent never yields a number that is not the power.",
     ["inputs"], "All pairs of integers of any magnitude and sign (inline or stored), all primitive operands of every primitive integer type, all non-negative exponents.",
     "Tests add and multiply a few constants; carries between 64-bit words, sign combinations, the inline/stored boundary and the macro-generated primitive operators are not enumerated.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int", "crates/bits/src/algos/element"],
     [("BigInt operator impls and macros", "crates/ints/src/big_int.rs"), ("element-wise arithmetic", "crates/bits/src/algos/element")],
     "A case is a pair of generated integers (up to 12 words, boundary-heavy, second often derived from the first, each built by a random route) and an operation; non-trivial when both exceed 1 in magnitude and one of them is too large to be stored inline (primitive operands: |a| > 1; power: base and exponent > 1).",
     H("bigint"), "property-based testing against a reference integer model", REF,
     state=[("value", "sign and magnitude, inline or in the shared interner", "crates/ints/src/big_int.rs")],
     observe=["operators on BigInt, read back through its binary formatting"])

prop("C02", "BigInt division truncates and its remainder takes the dividend's sign",
     "For any BigInts a and b with b non-zero, a / b is the exact quotient rounded toward zero, a % b is the matching remainder (so (a / b) * b + a % b == a, |a % b| < |b| and the remainder has the sign of a), in every operand form and for primitive divisors. Dividing by zero panics instead of returning a value.",
     ["inputs"], "All dividend/divisor pairs of any size and sign, exact multiples and near multiples, and all primitive divisors of every primitive integer type.",
     "Long division errors appear only for particular quotient digits and sign combinations; the tests divide a few constants.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int", "crates/bits/src/algos/element", "crates/bits/src/algos/bitwise"],
     [("Div/Rem impls", "crates/ints/src/big_int.rs"), ("long division", "crates/bits/src/algos/bitwise/div.rs")],
     "A case is a dividend of up to 8 words and a divisor (independent, related, exact or near divisor, small); non-trivial when both exceed 1 in magnitude and the dividend is not inline (primitive divisors: both exceed 1).",
     H("bigint"), "property-based testing against a reference integer model", REF)

prop("C03", "BigInt equality and ordering are those of the integers",
     "For any BigInts, and any BigInt against any primitive integer, ==, !=, <, <=, >, >=, cmp, sorting, is_zero, is_one, is_negative and is_positive (which includes zero) give the answer for the mathematical integers, however each value was computed: two routes to the same number yield equal values, clones are equal, and there is one zero.",
     ["inputs", "histories"], "All pairs of integers of any size and sign, every route of computing them, and all values of every primitive integer type.",
     "Tests compare a few constants built one way; equality depends on the storage form and word-by-word comparison order, which only differs for particular pairs.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int"],
     [("PartialEq/Ord impls and primitive comparison macros", "crates/ints/src/big_int"), ("zero and sign normalisation", "crates/ints/src/big_int.rs")],
     "A case is a pair (or list) of related integers built by random routes (parse, from words, arithmetic, shifts), or an integer near a generated primitive; non-trivial when both exceed 1 in magnitude and one is not inline (primitives: both exceed 1; sorting: one value not inline).",
     H("bigint"), "property-based testing against a reference integer model", REF)

prop("C04", "Conversions between BigInt and primitives keep the value or say they cannot",
     "Every primitive integer converts into a BigInt of the same value and back. For any BigInt and any primitive integer type, the fallible and checked conversions succeed exactly when the value is representable, the saturating conversion yields the nearest representable value, and the truncating conversion the low bits of its two's complement. The floating approximation has the right sign, is never NaN, is within a relative error of 4e-15 where f64 can represent the magnitude, and is infinite or at the end of the range beyond it.",
     ["inputs"], "All BigInts and all primitive integer types, in particular values at and just beyond each type's limits.",
     "Each of the twelve primitive types has its own macro-generated conversions and limits; the tests try a few in-range values.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int"],
     [("From/TryFrom/FromChecked/FromSaturating/FromTruncating impls", "crates/ints/src/big_int.rs"), ("approx_float", "crates/ints/src/big_int.rs")],
     "A case is a primitive type and an integer at, near or far from its limits; non-trivial when the integer exceeds 1 in magnitude (float: more than 53 bits).",
     H("bigint"), "property-based testing against a reference integer model", REF)

prop("C05", "BigInt text forms denote the value and parse back",
     "For any BigInt, Display and Debug print its decimal form, the hexadecimal and binary forms print sign, prefix and the magnitude's digits, and parsing the decimal text gives the value back. Parsing any non-empty text of digits in radix 2 to 36, optionally with a leading minus and in either letter case, yields the number it denotes; text with any other character, a lone minus or a radix above 36 is rejected with an error, not a panic.",
     ["inputs"], "All integers and all texts in every radix 2..=36.",
     "Conversion works digit group by digit group; leading zeros inside the number, sign handling and long inputs are not sampled by tests.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int"],
     [("formatting impls", "crates/ints/src/big_int.rs"), ("FromStrRadix", "crates/ints/src/big_int.rs")],
     "A case is an integer of up to 4 words to format, or a text of up to 40 digits in a random radix with possibly one foreign character; non-trivial when the integer has more than 8 bits, or the text more than one digit.",
     H("bigint"), "round-trip and model-based property testing", REF)

prop("C06", "BigInt bit operations and shifts treat values as infinite two's complement",
     "For any BigInts, &, |, ^ and ! give the result of the operation on infinite two's complement bit strings. A left shift by n multiplies by 2^n and a right shift by n divides by 2^n rounding down, for every shift amount of every supported type. A negative shift amount panics.",
     ["inputs"], "All pairs of integers of any size and sign, all shift amounts.",
     "Negative operands of different lengths and shifts crossing word boundaries are not covered by the tests.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int", "crates/bits/src/algos/element"],
     [("bit operator impls", "crates/ints/src/big_int.rs")],
     "A case is a pair of integers, or an integer and a shift amount (multiples of 64, near its length, past its length); non-trivial when both exceed 1 in magnitude and one is not inline (shifts: |a| > 1 and shift > 0).",
     H("bigint"), "property-based testing against a reference integer model", REF)

prop("C07", "Live BigInts keep their value whatever happens to others",
     "In any history of creating, cloning, combining, reassigning, negating and dropping BigInts, every value still alive reads as the number it was created as, and two live values are equal exactly when their numbers are, even though equal magnitudes share reference-counted storage and freed storage is reused. Dropped numbers give their storage back: the memory held stays in proportion to how many numbers are alive at once, however many there have been.",
     ["histories"], "All single-threaded sequences of operations on any number of live values.",
     "A wrong reference count or a reused slot only shows after a particular order of clones and drops.",
     ["crates/ints/src/big_int.rs", "crates/ints/src/big_int", "crates/utils/src/intern.rs"],
     [("shared storage and reference counts", "crates/utils/src/intern.rs"), ("clone/drop of tagged values", "crates/ints/src/big_int.rs")],
     "A case is a history of up to 420 operations over a pool of up to 300 values, or of replacing some of up to 4000 stored values, all re-read as it goes; non-trivial when more than two values were computed and at least one dropped.",
     H("bigint"), "stateful property-based testing against a model", "Generated histories of bounded length; trusts the reference integers.",
     state=[("pool", "live values and their expected numbers", "harness"), ("interner", "reference-counted magnitudes", "crates/utils/src/intern.rs")])

# ---------------------------------------------------------------- numeric-utils

prop("C08", "The interner is safe to use from several threads",
     "Whatever the interleaving of threads adding, cloning, reading, comparing and dropping interned values, each handle reads the value it was created from until it is dropped, handles alive together are equal exactly when their values are, no value is dropped while a handle to it exists, each stored value is dropped exactly once, and no two live values share a slot. A slot whose handles have all been released reads as nothing or as the value stored there since.",
     ["schedules", "histories"], "All interleavings of the interner's atomic operations by several threads running generated programs.",
     "The tests are single-threaded; races in slot allocation, reference counting and slot reuse need specific interleavings.",
     ["crates/utils/src/intern.rs", "crates/utils/src/lib.rs"],
     [("slot allocation and reuse", "crates/utils/src/intern.rs"), ("reference counts", "crates/utils/src/intern.rs")],
     "A case is a generated program for 2-4 threads plus a generated schedule of their atomic operations (or, in the real-thread sub-check, a program run on OS threads); non-trivial when at least two threads performed adds that could meet in the interner.",
     [("sched", "sched", BOTH), ("harness", "utils", BOTH)],
     "schedule-controlled property-based testing (generated interleavings under a deterministic scheduler) plus randomized runs on real threads",
     "Explores interleavings at the granularity of atomic operations on generated programs of a few operations per thread; loads may return older stores where the orderings used allow it, and plain accesses not ordered by happens-before are reported. Modification order follows execution order, so some executions of the memory model are not reached.",
     state=[("slots", "chunked storage with a count per slot", "crates/utils/src/intern.rs")],
     assumptions=["The modification order of each atomic is its execution order in the explored interleaving."])

prop("C09", "The interner stores each live value once and hands out the right one",
     "In any single-threaded history of adding, cloning, comparing, reading and dropping handles, a handle always reads the value it was added with, two live handles compare equal exactly when their values are equal, adding an equal value while one is alive shares it, and every value is dropped exactly once: after its last handle is gone and never before. Adding a value whose conversion panics stores nothing and leaves the interner as usable as before, and a slot never handed out holds nothing. Slots whose last reference is gone are used again: the number of slots and of values held stays in proportion to how many were ever alive at once.",
     ["histories"], "All sequences of interner operations over any number of values, spanning several storage chunks.",
     "Slot reuse, chunk growth and dead-slot handling depend on the order of adds and drops; the tests use two or three values.",
     ["crates/utils/src/intern.rs"],
     [("lookup, slot reuse and chunk growth", "crates/utils/src/intern.rs")],
     "A case is a history of up to a few hundred operations on an interner of drop-counting values, or rounds of releasing and adding with up to 5000 values alive; non-trivial when a slot was freed and values were added afterwards.",
     H("utils"), "stateful property-based testing against a model", "Generated histories of bounded length.")

# ---------------------------------------------------------------- numeric-ints: U<N>, I<N>

prop("C10", "U<N> arithmetic is exact, and overflow is handled as the operation promises",
     "For every byte width N and all operands, +, -, *, /, % and pow on U<N> return the exact result when it fits in 8N bits; otherwise the operators panic with debug assertions and wrap modulo 2^(8N) without them. The checked operations are absent exactly when the result does not fit (or the divisor is zero), the wrapping ones reduce modulo 2^(8N), the saturating ones clamp to the nearest bound. Division by zero panics.",
     ["inputs"], "All widths N and all operand pairs, in particular sums and products at the limit.",
     "Tests use one or two widths and small values; carries between bytes and overflow detection depend on the width and the operands.",
     ["crates/ints/src/u.rs", "crates/bits/src/algos"],
     [("operator, checked, wrapping and saturating impls", "crates/ints/src/u.rs")],
     "A case is a width from 1 to 33 bytes, a pair of operands (boundary-heavy, product or sum steered to the limit) and one of 16 operations; non-trivial when both operands exceed 1.",
     H("ints"), "property-based testing against a reference integer model", REF)

prop("C11", "U<N> comparison, bytes, bounds, text and casts agree with its value",
     "For every width N and every value, comparison is numeric, little- and big-endian byte conversions are inverse and in the right order, bounds and identities are exact, Display and Debug print the decimal form, and conversions to and from the unsigned primitives are exact when the value fits, absent (checked), clamped (saturating) or reduced to the low bits (truncating) when it does not.",
     ["inputs"], "All widths, all values, all unsigned primitive types, narrower and wider than the value.",
     "Whether a conversion widens or narrows depends on N and the primitive; tests cover few of those pairs.",
     ["crates/ints/src/u.rs"],
     [("Ord, byte conversion, cast and formatting impls", "crates/ints/src/u.rs")],
     "A case is a width from 1 to 33 bytes, one or two values and (casts) a primitive type; non-trivial when the value exceeds 1 (text: 4 bits) and, for order, the two differ.",
     H("ints"), "property-based testing against a reference integer model", REF)

prop("C12", "Bit operations and shifts on fixed-width integers are exact",
     "For every width N, &, |, ^ and ! on U<N> and I<N> act on each bit independently. << and >> on U<N> by less than the width move bits exactly, dropping those pushed out and filling with zeros, whether the amount is a usize or a U<N>; amounts beyond the width panic with debug assertions and are reduced modulo the width without them.",
     ["inputs"], "All widths, values and shift amounts.",
     "Shifts combine whole-byte and partial-byte moves; errors show only at particular amounts and widths.",
     ["crates/ints/src/u.rs", "crates/ints/src/i.rs", "crates/bits/src/algos/element"],
     [("shift and bit operators", "crates/ints/src/u.rs"), ("element shifts", "crates/bits/src/algos/element")],
     "A case is a width, two values and a shift amount (any, whole bytes, near the width, beyond); non-trivial when both values exceed 1.",
     H("ints"), "property-based testing against a reference integer model", REF)

prop("C13", "I<N> arithmetic is exact two's complement",
     "For every width N and all operands, +, - and * and unary minus on I<N> return the exact result wrapped to 8N-bit two's complement, / truncates toward zero and % takes the sign of the dividend, for every sign combination. Division by zero panics.",
     ["inputs"], "All widths and all signed operand pairs including the minimum value.",
     "Sign handling is where such code fails: mixed signs, the minimum value, negative remainders; tests cover few combinations.",
     ["crates/ints/src/i.rs"],
     [("operator impls", "crates/ints/src/i.rs")],
     "A case is a width from 1 to 33 bytes and a pair of signed operands, biased to negative pairs and extremes; non-trivial when both exceed 1 in magnitude.",
     H("ints"), "property-based testing against a reference integer model", REF)

prop("C14", "I<N> ordering, sign and bounds are those of signed integers",
     "For every width N, comparison and equality on I<N> are numeric across signs, is_negative and is_positive (which includes zero) match the sign, abs returns the magnitude, zero, one, is_zero and is_one are exact, and min_value, max_value, min_positive and max_negative are exact and bound every value.",
     ["inputs"], "All widths and all pairs of signed values.",
     "Comparing two's complement bytes goes wrong only for particular sign or byte patterns.",
     ["crates/ints/src/i.rs"],
     [("Ord, Signed, Bounded impls", "crates/ints/src/i.rs")],
     "A case is a width and a pair of signed values, biased to negatives, related pairs and extremes; non-trivial when both exceed 1 in magnitude.",
     H("ints"), "property-based testing against a reference integer model", REF)

prop("C33", "Random U<N> and I<N> values use every bit",
     "Sampling or filling a U<N> or I<N> from a uniform random source gives every one of its 8N bits independently a probability of one half, for every width.",
     ["inputs"], "All widths, all streams of a uniform generator, both ways of drawing values.",
     "A single draw cannot show a bit that is never set or bytes that repeat.",
     ["crates/ints/src/u/rand_impl.rs"],
     [("StandardUniform and Fill impls", "crates/ints/src/u/rand_impl.rs")],
     "A case is a generator seed, a width and a way of drawing; 400 samples are drawn, and every bit must be set in 110..290 of them and agree with the bit one byte up as often (nine sigma), with no repeats from 9 bytes on. Every case is non-trivial.",
     H("ints"), "statistical property-based testing", "Statistical: nine-sigma bounds on 400 samples per case, a fixed family of generators.")

# ---------------------------------------------------------------- numeric-reals

prop("C22", "Fixed arithmetic computes on the number it denotes",
     "A Fixed<T, N> with raw value r denotes r / 2^N. For every backing type and precision, +, -, % and unary minus are exact, * and / are within one unit in the last place of the true product or quotient and exact whenever the true result is representable, as long as the raw sum, the raw product of the operands, or the dividend shifted by N fits the backing type. Comparison and equality are numeric, is_negative/is_positive/abs follow the sign (zero is positive), from_val denotes the given whole number, bounds and identities (zero, one, default, minimum, maximum, smallest positive, largest negative) are exact, multiplying or dividing by one changes nothing, and dividing by zero panics.",
     ["inputs"], "All raw operand pairs of every primitive (and BigInt or U<N>) backing type, at every precision that can represent one.",
     "Every (backing type, precision) pair scales differently; tests use one pair and a few positive values, which scaling and sign errors survive.",
     ["crates/reals/src/fixed.rs"],
     [("operator impls and rescaling by 2^N", "crates/reals/src/fixed.rs")],
     "A case is one of 37 (backing type, precision) pairs, two raw values (whole, half, near-half, boundary or random; product steered to fit) and an operation; non-trivial when both raw values have more than one bit and the operation's intermediate fits.",
     H("reals"), "property-based testing against exact rational arithmetic", REF,
     state=[("raw", "the value times 2^N", "crates/reals/src/fixed.rs")],
     observe=["operators on Fixed, compared through from_raw"])

prop("C23", "Fixed rounding and text denote the right number",
     "For every Fixed<T, N> value x, floor is the largest whole value not above x, ceil the smallest not below, trunc drops the fraction toward zero, fract is x minus trunc, and round is a nearest whole value (either one on a tie), for both signs and whenever the neighbours are representable. Debug prints a decimal that denotes exactly x, sign included, and Binary of a non-negative x prints exactly its binary expansion with a point.",
     ["inputs"], "All raw values of every backing type and precision, negatives, ties and whole numbers included.",
     "Rounding goes wrong for negatives, ties or one precision only; tests round a couple of positive values.",
     ["crates/reals/src/fixed.rs"],
     [("Real impl (floor, ceil, round, trunc, fract)", "crates/reals/src/fixed.rs"), ("Debug and Binary impls", "crates/reals/src/fixed.rs")],
     "A case is one of 37 (backing type, precision) pairs and a raw value; non-trivial when the value is not whole (text: more than one bit).",
     H("reals"), "property-based testing against exact rational arithmetic", REF)

prop("C24", "Rat is the field of fractions in lowest terms",
     "For every integer backing type, Rat::new rejects a zero denominator and otherwise stores the fraction in lowest terms with a positive denominator, so equal fractions are equal values; +, -, *, / and unary minus return the exact fraction whenever the cross products fit the backing type, dividing by zero panics, floor and ceil are the nearest whole values below and above (the value itself if whole), round is a nearest whole value, is_negative, is_positive (zero included) and abs follow the sign, and the bounds (the smallest positive and largest negative are one over the backing type's maximum, in either sign) and identities are exact.",
     ["inputs"], "All numerator/denominator pairs of every primitive, I<N> or unbounded backing type except the most negative value, and all pairs of such fractions whose cross products fit.",
     "Reduction, sign normalisation and rounding depend on common factors and sign combinations that a few sample fractions do not meet.",
     ["crates/reals/src/rat.rs", "crates/traits/src/ops/core.rs"],
     [("construction and reduction", "crates/reals/src/rat.rs"), ("operator impls and rounding", "crates/reals/src/rat.rs")],
     "A case is a backing type (primitive, I<N>, or an unbounded integer) and one or two fractions (small, smooth with common factors, or random parts); non-trivial when numerator and denominator have more than one bit (arithmetic: at least two operations fit, both non-zero, one not whole; rounding: not whole).",
     H("reals"), "property-based testing against exact rational arithmetic", REF,
     assumptions=["The most negative value of a signed backing type as numerator or denominator is outside the property (its negation overflows)."])

prop("C30", "Posit zero is one value",
     "For every width N, all posit zeros are one and the same value: P::new(), P::default(), their copies and any chain of negations of them are equal, not negative and not NaR (negation is the two's complement of the 2022 Posit Standard, under which zero is its own negative; there are no redundant representations).",
     ["inputs", "histories"], "All widths and all chains of constructors, copies and negations.",
     "A negation that touches only the sign turns zero into NaR for every width; a carry mistake shows for one width only.",
     ["crates/reals/src/p.rs"],
     [("constructors, is_nar, is_negative and Neg", "crates/reals/src/p.rs")],
     "A case is a width and a history of up to 40 constructors, copies and negations on a pool of posits; non-trivial with at least two negations.",
     H("reals"), "stateful property-based testing", "Histories for 27 widths from 1 to 128 bytes; zero is the only value the public interface can construct (the rest of P<N> is todo!()).")

prop("C32", "F<N> keeps its bytes",
     "For every width N and every byte pattern, converting to F<N> from little-endian, big-endian or native bytes or from U<N> bits and back, in any combination, yields the same bytes in the requested order.",
     ["inputs"], "All widths and byte patterns, all pairs of conversions.",
     "An order mistake is invisible for symmetric patterns and for one-way tests.",
     ["crates/reals/src/f.rs"],
     [("byte and bit conversions", "crates/reals/src/f.rs")],
     "A case is a width and random bytes; non-trivial when first and last byte differ.",
     H("reals"), "round-trip property-based testing", "Generated byte patterns for 27 widths from 1 to 128 bytes.")

# ---------------------------------------------------------------- numeric-compounds

prop("C25", "Vector arithmetic is componentwise",
     "For every dimension and element type, vector +, -, *, / and % with a vector or a scalar on the right, by value, by reference or as compound assignment, and the checked sum and difference act on each component independently and in order; the checked forms are absent exactly when some component's result is. Sum, product, dot product, squared and plain distance, cross product, is_zero, equality, the conversions from and to arrays and to row and column matrices, and every accessor (index, x/y/z/w getters, mutable getters, setters and constructors) agree with the same computation on a plain array. An out-of-range index panics, as does division of an integer component by zero.",
     ["inputs", "histories"], "All dimensions, all component values, all accessor sequences.",
     "Operator impls are generic over dimension and macro-generated accessors per axis; an index or order mistake shows only for asymmetric vectors or one dimension.",
     ["crates/compounds/src/vector.rs", "crates/static-iter/src"],
     [("operator impls over static iterators", "crates/compounds/src/vector.rs"), ("axis accessors", "crates/compounds/src/vector.rs")],
     "A case is a dimension from 0 to 65 (some up to 300) and two vectors (integers, exact rationals or BigInts) or an accessor sequence; non-trivial when the vectors differ and have more than one component.",
     H("compounds"), "property-based testing against plain arrays of exact numbers",
     "Generated vectors; trusts the harness's exact rationals and i64/i8 arithmetic.")

prop("C26", "Matrix arithmetic follows linear algebra",
     "For every shape, matrix sum, difference, product, transpose, zero and identity matrices, equality, is_zero, is_one and building from rows or columns equal the textbook definitions entry by entry. Products distribute over sums, transposing a product reverses its factors, and the factors of each term keep their order even when entries do not commute (matrices of matrices).",
     ["inputs"], "All shapes (square or not, inner dimension at least one) and all entries.",
     "Row/column mix-ups are invisible on square symmetric samples; tests multiply one or two fixed matrices.",
     ["crates/compounds/src/matrix.rs", "crates/compounds/src/matrix/static.rs", "crates/compounds/src/matrix/dynamic.rs", "crates/compounds/src/matrix/macros.rs"],
     [("operator impls", "crates/compounds/src/matrix/static.rs, crates/compounds/src/matrix/macros.rs")],
     "A case is one of nine shape triples with exact rational entries (or 2x2 blocks); non-trivial when the operands are not zero and more than one entry.",
     H("compounds"), "property-based testing against textbook definitions over exact rationals",
     "Generated matrices up to 5x5; trusts the harness's exact rationals.")

prop("C27", "Row reduction and determinants are correct",
     "For every matrix over an exact field, square or not and of any rank, row_reduce returns a matrix in row echelon form with the same row space, for static and dynamic matrices alike. The determinant of a square matrix equals the Leibniz sum, is multiplicative, unchanged by transposition and negated by swapping two different rows; diag lists the diagonal.",
     ["inputs"], "All shapes and all entries, singular and rank-deficient matrices included.",
     "Pivoting only matters for matrices with zeros at particular places; tests reduce a few regular matrices.",
     ["crates/compounds/src/matrix/static.rs", "crates/compounds/src/matrix/dynamic.rs", "crates/compounds/src/matrix/macros.rs"],
     [("Gaussian elimination", "crates/compounds/src/matrix/static.rs, crates/compounds/src/matrix/macros.rs")],
     "A case is one of twelve shapes with small integer entries, a third of them zero, often with repeated, scaled or zero rows and columns; non-trivial when the matrix is not zero and has more than one row.",
     H("compounds"), "property-based testing against a reference elimination and cofactor expansion over exact rationals",
     "Generated matrices up to 5x5 over exact rationals; floating-point pivoting is not covered.")

prop("C28", "Matrix views and dynamic matrices address exactly their elements",
     "For every shape and any sequence of writes through a matrix, a dynamic matrix or a mutable view and of row swaps, every element read through any of them is the one last written at that row and column; any row or column index outside the shape panics for every one of them and never reads or writes memory of another element. DynMatrix::new accepts exactly the lengths equal to rows times columns, even when that product overflows.",
     ["histories", "inputs"], "All shapes, all index pairs including ones far out of range, all write sequences.",
     "Out-of-range reads through raw pointers return plausible data; only specific index pairs past one dimension show it.",
     ["crates/compounds/src/matrix/refs.rs", "crates/compounds/src/matrix/dynamic.rs", "crates/compounds/src/matrix/static.rs"],
     [("raw pointer views", "crates/compounds/src/matrix/refs.rs"), ("DynMatrix indexing and construction", "crates/compounds/src/matrix/dynamic.rs")],
     "A case is a shape and a history of up to 12 reads, writes, out-of-range accesses and swaps on three representations kept in step with a model, or a length and shape for construction; non-trivial when at least two writes happened on more than one element (construction: some elements).",
     H("compounds"), "stateful property-based testing against a model", "Generated histories of bounded length on eight shapes.")

prop("C29", "Complex arithmetic follows the complex field",
     "For all complex numbers, +, -, * and / with complex or real right-hand sides, abs, abs_squared, identities, construction from parts and equality equal the definitions on real and imaginary part, i * i is -1, the field laws hold exactly over an exact field, and dividing by a real is as accurate as dividing both parts, over the whole floating-point range. Over the integers, the parts of a quotient are the whole-number quotients (toward zero) of the exact numerators by the squared modulus of the divisor, so exact quotients are exact, and dividing by zero panics.",
     ["inputs"], "All pairs of complex numbers and all real right-hand sides.",
     "A sign or part mix-up cancels in many sample values; overflow in intermediate squares needs extreme exponents.",
     ["crates/compounds/src/complex.rs"],
     [("operator impls", "crates/compounds/src/complex.rs")],
     "A case is three complex numbers and a real with exact rational parts, two complex numbers over machine integers, or floats with exponents up to +-900; non-trivial when all parts are non-zero.",
     H("compounds"), "property-based testing against the definitions over exact rationals, and against the standard library for floats",
     "Generated values; trusts the harness's exact rationals and the standard library's floats.")

# ---------------------------------------------------------------- numeric-static-iter

prop("C31", "Static iterators visit every element once, in order, and stop when told",
     "For every length N, map, zip, zip_all, enumerate, StaticRangeTo, fold, try_fold, any, all, sum, product and collect (into an array, or through nested Option and Result) give the result of the standard library's iterator over the same data: closures run once per element in index order, try_fold, any, all and a fallible collect stop at the first element that decides the result and visit nothing after it, the first failure is the one returned, and owned elements are handed on exactly once: none is dropped twice, even if a closure panics, and a completed iteration leaves none undropped.",
     ["inputs", "histories"], "All lengths, all element values, all positions of a failure or panic, owned and borrowed sources.",
     "The adapters hand out uninitialised-memory slots by index with unsafe code; double drops, skipped or repeated elements and late exits need particular lengths, failure positions and owned elements.",
     ["crates/static-iter/src/lib.rs", "crates/static-iter/src/array.rs", "crates/static-iter/src/adapter.rs", "crates/static-iter/src/zip_all.rs", "crates/static-iter/src/codegen.rs"],
     [("indexed unsafe access", "crates/static-iter/src/array.rs"), ("adapters", "crates/static-iter/src/adapter.rs"), ("collection through uninitialised arrays", "crates/static-iter/src/lib.rs")],
     "A case is a length from 0 to 65 (some up to 300), element values (also zero-sized, over-aligned or of changing size), a pipeline or consumer over the library's or our own sources and collections, and positions of failure; non-trivial when there is more than one element.",
     H("staticiter"), "differential property-based testing against the standard library's iterators, with call logs and drop counting",
     "Generated inputs for about twenty lengths and a fixed set of pipelines. Elements never handed out by an abandoned iteration are leaked by the library; that is safe and outside the property.",
     observe=["results, recorded closure calls, drop counts"])
