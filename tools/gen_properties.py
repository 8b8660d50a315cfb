import json
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p("C01","Every buffer kernel computes its operation at every index",
 "After any elementwise buffer function (unary, binary, ternary or four-argument; plain, vectorised with run-time length, or vectorised with compile-time length) returns, element i of the output equals the operation applied to the i-th value of each argument, where a buffer argument contributes its i-th element and a scalar argument contributes its value. This holds for every index below n, every admissible n (n >= 1 for the plain form, a positive multiple of the cache-line element count for the vectorised run-time form, a multiple of the vector width for the compile-time form), both element types and every x86 instruction-set configuration. For operations with one correctly rounded or selecting step the result is exactly that of the scalar operation (multi-step arithmetic may differ by rounding), and the operation applied never depends on the index or the lane.",
 ["inputs","configurations"],"for every buffer content, scalar argument, admissible length n, element type in {float,double}, argument-kind combination and instruction-set configuration (generic, SSE, SSE2, SSE4.1, AVX, AVX+FMA)",
 "the tests run one length (64) with a few ramp-shaped inputs per function, compare float results with tolerance 1e-5 or so, and never run the compile-time-length form of several functions",
 ["detail/define_macros.hpp","detail/unroll_helpers.hpp","detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","detail/math.hpp","simd_unary_arithmetic.hpp","simd_binary_arithmetic.hpp","simd_ternary_arithmetic.hpp","simd_mix.hpp","simd_math.hpp","simd_unit_conversion.hpp","softclip.hpp"],
 [("generate_simd_loop / compile_time_unroller","detail/unroll_helpers.hpp"),("apply_on_vector","detail/math.hpp"),("argument wrappers","detail/wrap_arguments.hpp, detail/wrap_argument_vector.hpp"),("operation functors","simd_*_arithmetic.hpp, simd_mix.hpp")])
p("C02","Kernels touch exactly the buffers and lengths they are given",
 "A buffer function writes all of the first n elements of each output buffer and nothing else, and reads nothing outside the first n elements of its input buffers and the scalar cells it is passed. Pointers that a function does not require to be aligned are never accessed with an alignment-requiring instruction, and aligned access never exceeds the vector-width alignment the caller must provide. Loops terminate after exactly the iterations n calls for.",
 ["inputs","configurations"],"for every admissible n, buffer address of the required alignment, element type and instruction-set configuration, for every buffer function including fill, copy, accumulate, pan, peak and horizontal reductions",
 "tests use 64-element arrays embedded in larger stack frames without guard pages and always 64-byte aligned, so over-reads, over-writes past the checked part and misaligned access on other addresses stay invisible",
 ["simd_memory.hpp","simd_pan.hpp","simd_peakmeter.hpp","simd_horizontal_functions.hpp","detail/unroll_helpers.hpp","detail/math.hpp"],
 [("loop drivers and look-ahead loads","detail/unroll_helpers.hpp, simd_memory.hpp"),("aligned / unaligned vec access","vec/*.hpp"),("loop counts","all run-time-length functions")])
p("C03","In-place processing gives the same result as out-of-place",
 "Calling an elementwise buffer function, copy, accumulate or pan with an output pointer equal to one or more of its input pointers produces the same output as calling it with disjoint buffers holding the same data. No element is read after the element at the same index or an earlier one has been overwritten with a result that changes the outcome.",
 ["inputs","configurations"],"for every admissible n, buffer content, element type, configuration and every way of passing an input buffer as the output buffer",
 "only a handful of tests pass the same array as input and output, with one length and one operation",
 ["detail/unroll_helpers.hpp","detail/math.hpp","simd_memory.hpp","simd_pan.hpp"],
 [("software-pipelined loads ahead of stores","detail/unroll_helpers.hpp"),("load-before-store order","simd_pan.hpp, simd_memory.hpp")])
p("C04","Ramps advance by exactly one slope per element at full precision",
 "Wherever a linear ramp (start value and slope) is accepted, the value used at index i is start + i*slope, and an exponential fill stores start*factor^i, as real-number formulas evaluated with roundings of the element type only. This holds for the fill functions, slope arguments of binary, ternary and mixing functions, ramped panning and ramped accumulation, across lane, vector, unrolled-block and loop-iteration boundaries. In particular the double-precision versions never lose precision to a narrower type.",
 ["inputs","configurations"],"for every start value, slope, index i < n, admissible n, element type, argument position and configuration; roundings abstracted to real arithmetic",
 "tests use one slope and 64 elements with loose tolerances; double-precision ramps through slope arguments are compared only to 1e-5",
 ["detail/wrap_arguments.hpp","detail/wrap_argument_vector.hpp","simd_memory.hpp","simd_pan.hpp","simd_mix.hpp","vec/vec_base.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
 [("scalar_ramp_argument / vector_ramp_argument","detail/wrap_arguments.hpp, detail/wrap_argument_vector.hpp"),("set_ramp, pan2, addvec iterations","simd_memory.hpp, simd_pan.hpp"),("set_slope / set_exp","vec/*.hpp")])
p("C05","Fill, clear, copy and accumulate do exactly that to the buffer",
 "Clearing makes the first n elements zero, filling makes them all equal to the given value, copying makes the destination bit-identical to the source, and accumulating adds the source element (or constant) to the destination element at every index. The plain, vectorised, compile-time-length and all aligned/unaligned variants agree. Elements beyond n are unchanged.",
 ["inputs","configurations"],"for every admissible n, buffer content (every bit pattern, NaN included), value, address and configuration",
 "tests use one size and one or two values and exercise only part of the aligned/unaligned variants",
 ["simd_memory.hpp"],
 [("setvec/zerovec/copyvec/addvec families","simd_memory.hpp")])
p("C06","Vector load, store and lane access preserve every lane bit for bit",
 "Loading n = size elements and storing them again reproduces every lane in order, bit for bit, for aligned, unaligned and streaming forms; reading, setting or broadcasting a lane affects exactly that lane or all lanes. Loading only the first element sets lane 0 to it and all other lanes to zero. Setting a slope or geometric series gives lane i start + i*slope or start*factor^i and returns the increment or factor needed to continue it at the next vector (up to rounding), and constant generators give the named constants. The alignment predicate says yes exactly for the element addresses that the aligned forms accept (multiples of the vector size; any element in the scalar implementation).",
 ["inputs","configurations"],"for every bit pattern in every lane, every lane index, both element types and every configuration",
 "tests set and read back a few ordinary numbers and never look at the lanes that must stay untouched or zero",
 ["vec/vec_base.hpp","vec/vec_generic.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp"],
 [("load*/store*/get/set/set_vec/clear","vec/*.hpp"),("set_slope/set_exp/gen_*","vec/*.hpp")])
p("C07","Vector arithmetic, comparison and selection act lane by lane",
 "Every arithmetic operator (including compound assignment and scalar operands), multiply-add, minimum, maximum and negation gives in each lane the IEEE result of the scalar operation on that lane's operands (minimum and maximum for operands that are not NaN; multiply-add with one or two roundings). Every comparison gives 1.0 or 0.0, and every mask comparison all-ones or all-zeros, according to the IEEE comparison for every pair of values including infinities and NaN; selection picks the second operand exactly in lanes whose mask is set. Bitwise operators and the integer companion vector act on the exact bits of each lane, and no operation modifies its operands or other lanes; collecting a function over a vector applies it to every lane.",
 ["inputs","configurations"],"for every pair of bit patterns per lane, both element types, every configuration",
 "tests compare a few ordinary values; NaN, infinities, signed zeros, denormals and the mask/select/bitwise interface are not exercised per lane",
 ["vec/vec_base.hpp","vec/vec_generic.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_int_sse2.hpp","vec/vec_int_avx.hpp","vec.hpp"],
 [("operators, madd, max_/min_, mask_*, select","vec/*.hpp"),("integer vectors","vec/vec_int_sse2.hpp, vec/vec_int_avx.hpp")])
p("C08","Elementary non-approximated functions are exact for every number",
 "For every argument that is not NaN: absolute value, sign (-1, 0 or 1), square, denormal flushing (zero for magnitudes below the smallest normal number, otherwise the argument), sign-preserving square root (the correctly rounded root of the magnitude with the sign of the argument) and soft clipping (the argument itself below magnitude 0.5, otherwise (|x|-0.25)/x) equal the mathematical definition rounded by the stated operations; cube is x*x*x up to rounding. Two-sided and symmetric clipping return the value limited to the given range whenever the bounds are ordered. The scalar, vector and buffer forms agree exactly.",
 ["inputs","configurations"],"for every non-NaN bit pattern (zeros, denormals, infinities included), both element types, every configuration",
 "tests sample a linear ramp of ordinary numbers; denormals, infinities, zeros and threshold neighbours are not reached",
 ["detail/math.hpp","detail/vec_math.hpp","softclip.hpp","simd_binary_arithmetic.hpp","simd_ternary_arithmetic.hpp","vec/*.hpp"],
 [("scalar definitions","detail/math.hpp"),("vec_sign, vec_signed_sqrt, vec_undenormalize","detail/vec_math.hpp"),("softclip, clip, clip2","softclip.hpp, simd_ternary_arithmetic.hpp, simd_binary_arithmetic.hpp")])
p("C09","Rounding functions return the right integer for every finite number",
 "For every finite argument floor returns the largest integer not above it, ceil the smallest not below it, truncation the integer part toward zero, and rounding an integer at distance at most one half (either neighbour on a tie). The fractional part equals the argument minus its floor. Scalar, vector and buffer forms satisfy this in every configuration, for magnitudes of any size including those beyond the integer range.",
 ["inputs","configurations"],"for every finite bit pattern, both element types, every configuration",
 "tests round a short ramp of small numbers; values around 2^23, 2^31, 2^52, 2^63 and negative halves are never reached",
 ["detail/math.hpp","detail/vec_math.hpp","vec/vec_sse.hpp","vec/vec_sse2.hpp","vec/vec_avx_float.hpp","vec/vec_avx_double.hpp","vec/vec_base.hpp"],
 [("vec_round_float, vec_floor_float, vec_ceil_float","detail/vec_math.hpp"),("scalar round/trunc/frac","detail/math.hpp"),("hardware rounding","vec/*.hpp")])
p("C10","Peak, power and horizontal reductions account for every sample",
 "Peak metering leaves the running peak equal to the maximum of its previous value and the magnitudes of all n samples and returns the magnitude of the last sample; peak/power metering also adds the squares of all n samples to the running sum. Horizontal maximum, minimum and sum of a buffer or of a vector equal the maximum, minimum and (up to rounding order) sum of all elements, whatever their signs (infinities included for maximum, minimum and peak; NaN excluded). This holds for every admissible n, with no sample dropped, duplicated or invented.",
 ["inputs","configurations"],"for every finite buffer content, previous accumulator values, admissible n (multiple of the vector width for buffer reductions, of the cache-line element count for metering) and configuration",
 "tests use one length and positive or mixed data; all-negative data, n not a multiple of four vectors, and lane-local faults are not reached",
 ["simd_peakmeter.hpp","simd_horizontal_functions.hpp","simd_utils.hpp","vec/*.hpp"],
 [("peak_vec*, peak_rms_vec*","simd_peakmeter.hpp"),("horizontal_*_vec*","simd_horizontal_functions.hpp"),("horizontal_min/max/sum","vec/*.hpp, simd_utils.hpp")])
p("C11","Vectorised math functions meet the documented accuracy",
 "Single-precision vectorised sine, cosine and tangent (|x| <= 4), arcsine and arccosine ([-1,1]), arctangent and hyperbolic tangent (all finite x), logarithms (positive normal x), exponential (where the result is a normal number) and reciprocal (2^-126 <= |x| < 2^126) have relative error below 5e-7; sine and cosine also have absolute error below 5e-7 for |x| <= 8192, and power has relative error below 5e-7*(1+|y*ln x|) for a positive normal base x and a result between 1e-37 and 1e38. Sine, tangent, arcsine, arctangent, hyperbolic tangent and signed power are odd and cosine is even in the (first) argument, bit for bit up to the sign of zero. The result in a lane depends on that lane only and, for arguments that are not NaN, is the same in all instruction-set configurations with vector float math (reciprocal: up to the rounding of a fused multiply-add), and the double-precision and plain versions give the standard library's result.",
 ["inputs","configurations"],"for every float argument in the stated ranges (every double argument for the last clause) and every configuration",
 "tests compare 64 points of a moderate range with tolerance 5e-6 absolute; range-reduction boundaries, exact breakpoints and domain edges are not hit",
 ["detail/vec_math.hpp","detail/math.hpp","simd_math.hpp","vec/*.hpp"],
 [("vec_*_float approximations","detail/vec_math.hpp"),("ldexp/frexp bit manipulation","detail/vec_math.hpp"),("delegation to libm","vec/vec_base.hpp")])
p("C12","Unit conversions implement the musical formulas and invert each other",
 "MIDI note to frequency is 440*2^((m-69)/12), octave to frequency 440*2^(o-4.75), interval to ratio 2^(i/12), decibel to amplitude 10^(d/20); the reverse conversions use the magnitude of their argument where one is defined (frequency, amplitude) and are the exact mathematical inverses of these formulas. The double-precision and plain forms agree with these formulas to within 1e-9 relative per unit of exponent and the vectorised single-precision form to within the accuracy of its power and logarithm functions. All forms (scalar, vector, buffer) implement the same formula at every element.",
 ["inputs","configurations"],"for every argument for which the result is a normal number, both element types, every configuration",
 "tests only check one or two round trips with loose tolerance, which miss constants that are slightly wrong and forms that share an error in both directions",
 ["simd_unit_conversion.hpp"],
 [("conversion functors","simd_unit_conversion.hpp")])
p("C13","Mixing and panning weight every sample with the right factors",
 "Mixing returns sig0*factor0 + sig1*factor1 and summing returns the sum of all its inputs, up to rounding order, for every combination of buffer, constant and ramp arguments. Panning writes in[i]*factor0(i) to the first output and in[i]*factor1(i) to the second, each product rounded once when the factors are constant, where each factor is constant or a ramp advancing by its own slope per sample. Neither output receives the other's factor, slope or samples.",
 ["inputs","configurations"],"for every buffer content, factors, slopes, index, admissible n, argument-kind combination and configuration",
 "tests use a few fixed factors, one length, and not all combinations of ramp, constant and buffer arguments",
 ["simd_mix.hpp","simd_pan.hpp","detail/define_macros.hpp","detail/wrap_argument_vector.hpp"],
 [("scaled_mix2, sum functors","simd_mix.hpp"),("pan2 iterations","simd_pan.hpp")])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
