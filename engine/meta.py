"""Property texts: the single source of properties.jsonl, MANIFEST.json and the per-property parts of the evidence."""
EFX = 'libs/e_float/src/e_float/efx/e_float_efx.cpp'
EFXH = 'libs/e_float/src/e_float/efx/e_float_efx.h'
BASE = 'libs/e_float/src/e_float/e_float_base.cpp'
BASEH = 'libs/e_float/src/e_float/e_float_base.h'
def M(*a): return [{'name': n, 'where': w} for n, w in a]
CFG = ' (default number type, 100-digit configuration)'
P = {}
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, level='proof', state=None):
    P[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors={'files': files, 'mechanism': M(*mech)}, technique=technique, note=note, level=level)
    if state: P[id]['anchors']['state'] = state
DV = 'contract-based deductive verification: contracts as spec harnesses on the real C++ code, verification conditions generated function by function from the LLVM IR of the current source, discharged by rewriting, interval reasoning, z3 and cvc5'
TR = ' Trusted: clang front end, the VC generator in engine/, z3/cvc5 answers.'
FACTS = [{'name': 'limbs', 'meaning': '16 base-10^8 limbs, leading limb non-zero unless the value is zero', 'where': EFXH}, {'name': 'exponent', 'meaning': 'decimal exponent, multiple of 8, at most that of numeric_limits::max()', 'where': EFXH}]
prop('C01', 'Addition and subtraction are accurate to the last limb, in every case',
 'For the default (efx) number type in its 100-digit configuration, the sum or difference of any two values is within one unit of the last limb of the larger of operand and result, has the right sign, and is exact when both operands have the same exponent and no digits leave the mantissa. Infinities, NaN and zero follow the IEEE rules (x+inf=inf, inf-inf=NaN, NaN propagates, x+0=x), overflow gives an infinity of the right sign only when the exact sum exceeds the largest finite value, and the right operand is never modified. This also holds when an object is added to or subtracted from itself.',
 ['inputs'], 'all pairs of representable values: every limb pattern, sign, exponent difference and class, aliased or not', 'the tests add a few hundred chosen values and compare about 100 digits; they cannot visit every exponent offset, carry chain, cancellation pattern and class combination',
 [EFX], [('operator+= / operator-=: alignment by limbs, carry and borrow loops, renormalisation after cancellation, overflow test', EFX)], DV, 'Every clause proved for all inputs (limbs symbolic, offsets/signs/classes enumerated completely); operator-= is proved against the contract of operator+=.' + TR, state=FACTS)
prop('C02', 'Multiplication gives the truncated product, in every case',
 'For the default (efx) number type in its 100-digit configuration, the product of any two finite non-zero values has the right sign and is the exact product truncated with an error below 16 units of the 112th digit, is independent of the order of the operands, and is exact when one operand is one. Infinities, NaN and zero follow the IEEE rules (inf*0=NaN, NaN propagates), the result is an infinity only when the exact product exceeds the largest finite value and zero only when it is below 10^8 times numeric_limits::min(), and the right operand is never modified. This also holds when an object is multiplied with itself.',
 ['inputs'], 'all pairs of representable values, aliased or not', 'the tests multiply a few hundred values; carries that ripple through all limbs and exact-limit products have vanishing probability in samples',
 [EFX], [('operator*= and the schoolbook loop: column sums, carry propagation, exponent and range test', EFX)], DV, 'Proved for all inputs: the column-sum loop is executed symbolically over 16x16 symbolic limbs and compared with the exact integer product.' + TR, state=FACTS)
prop('C03', 'Arithmetic with built-in integers is that of the converted integer',
 'For the default (efx) number type in its 100-digit configuration, adding, subtracting, multiplying or dividing by any built-in integer - zero, negative, the most negative and those above a limb included - gives the same result as using the e_float made from that integer, with the right sign; multiplication and division by integers below 10^8 are truncated results with less than one unit error in the last limb. NaN and infinity operands, division by integer zero (an infinity with the sign of the dividend; NaN for 0/0 or NaN) and overflow are handled as for e_float operands. The binary operators with an integer on either side, ++ and -- are these operations on the named operands.',
 ['inputs'], 'all values of the class and all values of the integer types', 'the tests use a handful of small integers; the integer limits, the limb boundary and quotients with a leading zero limb are never combined with special values',
 [EFX, BASE, BASEH], [('mul_unsigned_long_long / div_unsigned_long_long and their limb loops', EFX), ('signed operators, operator/ with an integer dividend, ++/--', BASE)], DV, 'All inputs; integers above a limb are reduced to the e_float operators (whose calls are checked against the logged contract).' + TR, state=FACTS)
prop('C04', 'Division: special values, signs and exact quotients',
 'For the default (efx) number type in its 100-digit configuration, division of any two values gives the right sign and never NaN for finite non-zero operands; x/0 is an infinity with the sign of x, 0/0 and inf/inf are NaN, x/inf is zero, and NaN propagates. Operands of equal magnitude (including an object divided by itself) give exactly +1 or -1, division by +1 or -1 is exact, and every other quotient of finite values is the product of the significand of the dividend with the reciprocal of the significand of the divisor, scaled by the difference of their exponents (infinity above the largest, zero below the smallest exponent). The reciprocal and square root of zero, one, infinities, NaN and (root) negative values follow the same rules, and the right operand is never modified.',
 ['inputs'], 'all pairs of representable values with exponents within the documented range', 'the tests divide ordinary positive values; signs, equal magnitudes, special values and aliasing are not combined',
 [EFX], [('operator/=, calculate_inv, calculate_sqrt: case distinctions before the Newton iteration', EFX)], DV, 'Classes, signs and exact quotients proved for all inputs over the contracts of operator*= and calculate_inv; accuracy of the Newton iteration itself is not part of this property.' + TR, state=FACTS)
prop('C05', 'Comparison is the numerical order',
 'For the default (efx) number type in its 100-digit configuration, ==, !=, <, <=, >, >= and the three-way comparison of any two values agree with the numerical order of the values they represent, including zeros, both infinities and operands that are the same object; comparisons with a NaN are false except !=. Comparisons with built-in signed and unsigned integers on either side agree with the comparison with the converted integer. The predicates isfinite, isinf, isnan, iszero and isneg agree with the class and sign of the value.',
 ['inputs'], 'all pairs of representable values and all integers', 'tests compare a few values; equality in all but the last limb, sign and exponent combinations and infinities are not enumerated',
 [EFX, EFXH, BASE], [('cmp / cmp_data and the comparison operators', EFX), ('integer comparison operators', BASE)], DV, 'Proved for all inputs.' + TR, state=FACTS)
prop('C06', 'Conversion to and from integers is exact and saturates',
 'For the default (efx) number type in its 100-digit configuration, an e_float made from any built-in integer represents exactly that integer, and extracting it again as the widest signed or unsigned integer gives it back. Extraction of any value gives the value truncated toward zero when it fits, and saturates at the limits of the integer type when it does not; negative values extracted as unsigned follow the two\'s complement of the extracted signed value.',
 ['inputs'], 'all 64-bit integers; all values of every class, sign and magnitude', 'only a few integers are converted in tests; the limits, limb boundaries and values between integers are not',
 [EFX, BASE], [('from_unsigned_long_long, extract_signed_long_long, extract_unsigned_long_long', EFX), ('to_int32 / to_int64', 'libs/e_float/src/functions/elementary/elementary_math.cpp')], DV, 'Proved for all inputs.' + TR, state=FACTS)
prop('C07', 'Integer part, fractional part and integrality are exact',
 'For the default (efx) number type in its 100-digit configuration, the integer part of a finite value is exactly the value truncated toward zero, the decimal part is exactly the rest (same sign, magnitude below one), and integer part plus decimal part is the value. A value tests as integral exactly when its decimal part is zero, and as one exactly when it is one. Negation changes the sign and nothing else.',
 ['inputs'], 'all representable values, every position of the decimal point relative to the limbs', 'tests take floor/frac of a few values; each exponent and each pattern of trailing digits is a different code path',
 [EFX], [('extract_integer_part, extract_decimal_part, isint, isone, negate', EFX)], DV, 'Proved for all inputs.' + TR, state=FACTS)
CPX = 'libs/e_float/src/e_float/e_float_complex.h'; CFC = 'libs/e_float/src/functions/elementary/elementary_complex.cpp'
prop('C09', 'Complex arithmetic and functions obey their defining formulas',
 'For ef::complex over the default number type, addition, subtraction, multiplication and division of any two finite complex numbers (also with real and built-in integer operands, compound forms and operands that are the same object) give the algebraic result, division including every sign and size relation of the parts; equality holds exactly when both parts are equal; real, imag, norm, abs, arg, conj and polar return their defining values. sqrt returns the principal root: it squares to its argument, has non-negative real part, and its imaginary part has the sign of that of the argument. Integer powers are repeated products, negative ones their reciprocals; exp, log, log10, sin, cos, tan, sinh, cosh, tanh, pow and the inverse trigonometric and hyperbolic functions equal their principal-value formulas in terms of the real functions and the complex log and sqrt. Equalities are meant up to rounding of the number type.',
 ['inputs'], 'all pairs of finite complex values (real and imaginary part arbitrary reals, zero included) away from poles', 'tests compute each function at a few dozen points; a wrong sign or swapped part in one quadrant, with aliased operands or with one zero part is not sampled',
 [CPX, CFC], [('complex operators, norm/abs/arg/conj/polar', CPX), ('complex elementary functions', CFC)], DV, 'Proved for all values over exact-arithmetic contracts of the e_float operators (rounding is not modelled) with the real elementary functions as uninterpreted functions; integer powers for exponents -4..9.' + TR)
POWT = 'libs/e_float/src/functions/elementary/elementary_trans.cpp'
prop('C10', 'Integer powers terminate and have the stated exponent, for every 64-bit exponent',
 'For the default number type and its complex numbers, raising any value to any built-in integer exponent (ef::pown, ef::pow with an integer exponent, complex pow with int or 64-bit exponents, ef::pow2) terminates within a number of multiplications proportional to the number of bits of the exponent, never overflows an integer, and multiplies the base by itself exactly as often as the exponent says: x^0 is one, x^1 is x, negative exponents give the reciprocal of the positive power - the most negative 64-bit exponent included.',
 ['inputs'], 'all 2^64 exponents (all 2^32 for the int overload)', 'tests use a few dozen small exponents; a defect for exponents with particular bit patterns or at the limits of the type is not sampled',
 [POWT, CFC, 'libs/e_float/src/e_float/detail/e_float_detail_pown_template.h'], [('pown_template: the binary powering loop', 'libs/e_float/src/e_float/detail/e_float_detail_pown_template.h'), ('pown, pow2, pow(e_float, int64)', POWT), ('complex pow with integer exponents', CFC)], DV, 'Proved for all exponents with the base a ghost generator (each product is checked to add, each quotient to subtract exponents); rounding is not modelled.' + TR)
TRG = 'libs/e_float/src/functions/elementary/elementary_trig.cpp'; EMA = 'libs/e_float/src/functions/elementary/elementary_math.cpp'
prop('C17', 'Derived elementary functions: defining formulas, domains, special values',
 'For the default number type: tan, csc, sec, cot, sincos; sinh, cosh, tanh, sinhcosh; asinh, acosh, atanh; log10, log with a base, log1p; acos; atan2 with every quadrant and every combination of zero, infinite and NaN arguments; pow(x, a) for real x and a; and rootn, rootn_inverse, cbrt for indices -7..7 equal, for every argument, the value their definition gives in terms of sin, cos, exp, log, asin, atan and square root (for instance tan x = sin x / cos x, asinh odd with asinh x = log(x + sqrt(x^2 + 1)), pow(x, a) = exp(a log x), x^a for negative x and integral a an odd or even power by sign, atan2 in the right quadrant), up to rounding; arguments outside the domain give NaN; infinite and NaN arguments give the documented limits (as the C functions of these names do); sincos and sinhcosh write only through the pointers that are not null; no argument makes them read uninitialised values or loop forever. Truncation error of series is not part of this property.',
 ['inputs'], 'all finite real arguments, both infinities and NaN (both arguments of pow and atan2)', 'tests evaluate each function at some dozens of moderate positive points; a sign, quadrant, branch threshold or special value that is wrong elsewhere is not sampled',
 [POWT, TRG, EMA], [('pow, rootn, hyperbolic functions, logarithms', POWT), ('tan, sincos, acos, atan2', TRG)], DV, 'Proved for all values over exact-arithmetic contracts of the e_float operators (rounding not modelled); sin, cos, exp, log, asin, atan enter through contracts (C18). Roots: Newton steps from an arbitrary positive start value; convergence is not modelled.' + TR)
prop('C18', 'sin, cos, exp, log, asin, atan: reduction, symmetry, special values',
 'For the default number type: sin and cos of every finite argument are the sine and cosine of that argument by a correct reduction (modulo pi with the sign of the parity of the multiple, reflection at pi/2, scaling and multiple-angle steps undone exactly), odd and even respectively; exp of every finite argument not beyond max_exponent10 * ln 10 is the exponential by a correct reduction modulo ln 2 and squaring, the reciprocal for negative arguments, overflows to +infinity and underflows to zero beyond; log, asin and atan use, near their expansion points, a series whose formula is that of the function and elsewhere an iteration whose step is the Newton step of the function (log of x: exp(v) = x, asin: sin(v) = |x|, atan: tan(v) = |x|), from the double precision start value, and are odd (asin, atan); arguments outside the domain give NaN, log(0) is -infinity, infinite and NaN arguments give the documented limits. Truncation error of the hypergeometric series and convergence of the iterations are not part of this property.',
 ['inputs'], 'all finite real arguments, both infinities and NaN', 'tests evaluate each function at some dozens of moderate arguments; a wrong parity, threshold or sign for large, tiny or negative arguments is not sampled',
 [POWT, TRG], [('sin, cos, asin, atan', TRG), ('exp, log', POWT)], DV, 'Proved for all values (log: 1e-1000 <= x < 1e1001, beyond which the argument is split by a power of ten) over exact-arithmetic contracts of the e_float operators and contracts of the hypergeometric series; start values of the iterations are arbitrary.' + TR)
prop('C08', 'Values are independent and their storage is never leaked or misused',
 'e_float objects of the default (efx) number type have value semantics: a copy (constructed, assigned, chained, in arrays and pairs) represents the same value as its source, bit for bit, and shares no state with it; assignment and move assignment of an object to itself change nothing; moving transfers the value and leaves the source assignable; swap (member and std::swap) exchanges two values, an object with itself included. Every live object owns exactly one block of limb storage and all storage is released exactly once, never read or written after release. A default constructed value is zero and copies never affect the constants. The dynamic array underneath has the same semantics for every size, zero included: equal independent copies, moves that transfer the elements, element-wise equality, lexicographical order.',
 ['inputs', 'histories'], 'all values of every class and every sequence in the listed set of copy, move, assignment and swap operations, aliased operands included', 'tests never assign to a moved-from object, alias operands of moves and swaps or look at storage; a shared or leaked block shows only under particular combinations',
 ['libs/e_float/src/utility/util_dynamic_array.h', EFX, EFXH], [('dynamic_array: constructors, assignment, move, swap, comparison', 'libs/e_float/src/utility/util_dynamic_array.h'), ('copy/move construction and assignment of e_float', EFX)], DV, 'Proved for all values with a heap model that tracks every allocation; memory safety is an obligation at each instruction; allocation failure is not modelled.' + TR, state=FACTS)
prop('C20', 'floor, ceil, fmod, frexp, ldexp and sign functions are exact',
 'For the default (efx) number type in its 100-digit configuration: floor and ceil of every value are the largest integer not above and the smallest integer not below it (exact, including values below one, negative values, values that are integral and carries into a new limb), infinities and NaN unchanged; fabs, abs, sgn, isneg, ispos, isnan, isinf, isfinite, iszero agree with class and sign of the value, and real and imag of a real value are the value and zero. fmod(x, y) is the remainder of the truncated quotient with the sign of x for all finite x and non-zero y - also when the rounded quotient is off by one - x for infinite y, and NaN for infinite x, zero y and NaN. ldexp(x, n) is x 2^n for every int n, with infinities and NaN preserved; frexp gives a result in [1/2, 1) in magnitude with x = result 2^n (binary exponents between -5000 and 5000).',
 ['inputs'], 'all values of every class (floor, ceil, sign functions); all pairs of finite values, infinities and NaN (fmod); all values and all int exponents (ldexp)', 'tests take a few positive values; negative operands, exact multiples, carries and quotients next to an integer are not combined',
 ['libs/e_float/src/functions/elementary/elementary_math.cpp'], [('floor, ceil, fabs, sgn, fmod, ldexp, frexp', 'libs/e_float/src/functions/elementary/elementary_math.cpp')], DV, 'floor, ceil and sign functions at limb level with the real addition; fmod, ldexp, frexp over exact-arithmetic contracts, the quotient in fmod being allowed to be off by one.' + TR, state=FACTS)
CT = 'contracts without free variables, decided by evaluating the real code on every element of the stated finite domain against exact GMP/MPFR oracles (no variable is left for a prover); samples outside the tables are bounded and not counted as proved'
prop('C16', 'Constants and numeric_limits have their mathematical values',
 'For the default (efx) number type in its 100-digit configuration, every named constant of the library - the small integers and fractions, the integer and floating-point limits, sqrt2, pi and its multiples, e, ln2, ln10, the Euler, Catalan, Glaisher and Khinchin constants and the golden ratio - equals the mathematical constant to 110 significant digits (integers exactly). numeric_limits is consistent: max() is finite, all nines and twice it is infinite; min() is the positive power of ten at min_exponent10; lowest() is -max(); epsilon() is a power of ten with 1 + epsilon() > 1; infinity() and quiet_NaN() are what they say.',
 ['inputs'], 'all named constants and all members of numeric_limits', 'tests use a few constants and compare them with 100 digits of themselves; a wrong digit late in a rarely used constant, or a wrong limit, changes no test',
 ['libs/e_float/src/functions/constants/constants.cpp', 'libs/e_float/src/e_float/e_float.cpp', 'libs/e_float/src/e_float/e_float.h', BASE], [('digit strings and their conversion', 'libs/e_float/src/functions/constants/constants.cpp'), ('value_max, value_min, value_eps and numeric_limits<e_float>', 'libs/e_float/src/e_float/e_float.h')], CT, 'Ground obligations: the functions take no argument, so evaluation of the real code decides them completely. Trusted: compiler, MPFR.', level='other')
prop('C19', 'Factorials, binomials, Bernoulli numbers and primes are right throughout',
 'For the default (efx) number type in its 100-digit configuration: factorial(n), factorial2(n) (negative odd n included, NaN for negative even n), binomial(n, k) (NaN for k > n) and bernoulli(n) equal the exact value to 110 digits for every tabulated argument, and to 95 digits beyond; bernoulli_table(n) holds at least B(0) to B(n) for every n, zero included; prime(n) gives exactly the first n primes in order; prime_factors(n) for n > 1 gives strictly increasing primes with positive multiplicities whose product is n ((0,1) and (1,1) for 0 and 1).',
 ['inputs'], 'every tabulated argument (n up to 1000; binomial rows of the table); primes up to 200000; factorisations of all n below 300000, of the 2000 largest 32-bit integers, of squares and products of neighbouring primes near 2^16, prime powers, and a seeded sample', 'tests look at single table entries; a wrong digit in one of the thousands of tabulated values or a boundary of the prime table is visible only for that argument',
 ['libs/e_float/src/functions/tables/A000142.cpp', 'libs/e_float/src/functions/gamma/factorial.cpp', 'libs/e_float/src/functions/gamma/factorial2.cpp', 'libs/e_float/src/functions/integer/bernoulli_b.cpp', 'libs/e_float/src/functions/integer/prime.cpp', 'libs/e_float/src/functions/integer/prime_factor.cpp'], [('tables A000142, A000367, A002445, A006882, A007318', 'libs/e_float/src/functions/tables'), ('sieve and trial division', 'libs/e_float/src/functions/integer/prime.cpp'), ('tangent number recurrence', 'libs/e_float/src/functions/integer/bernoulli_b.cpp')], CT, 'Complete for the tables (finite domain, every entry evaluated); the parts beyond the tables and factorisation above 300000 are bounded samples.', level='other')
BT = 'contracts of the reading and writing functions evaluated on the real code over a bounded family of inputs with an exact oracle (bounded stand-in: the string code of the C++ library is outside the deductive verifier; labelled bounded, not proved)'
BB = 'contracts of the member functions of the gmp and mpfr back ends evaluated on the real code over a bounded family of operands with an exact MPFR oracle (bounded stand-in: the bodies are calls of an external C library; labelled bounded, not proved)'
GM, MR = 'libs/e_float/src/e_float/gmp/e_float_gmp.cpp', 'libs/e_float/src/e_float/mpfr/e_float_mpfr.cpp'
prop('C11', 'The GMP and MPFR back ends obey the same arithmetic rules',
 'For the gmp and mpfr number types (E_FLOAT_TYPE_GMP, E_FLOAT_TYPE_MPFR) in the 100-digit configuration: + - * / and their compound forms (operands of the same object included), operations with built-in integers, negation, fabs, floor, ceil and sqrt agree with the exact result to 100 digits (for sums relative to the larger operand), follow the rules of C01 to C05 and C08 for zero, infinities and NaN (inf - inf, 0 * inf and 0 / 0 are NaN, x / 0 is infinite, sqrt of a negative number is NaN), and leave their right operand unchanged. Comparison is exact, NaN is unordered. Copies, moves and swaps carry the value. Conversion to a 64-bit integer truncates toward zero and saturates, integers and doubles convert exactly, integer part plus decimal part is the number.',
 ['inputs'], 'all pairs of special values and special with finite values; pairs of finite numbers by pattern (near integers, long runs of 9 or 0, cancellation, wide exponents) and seed; 64-bit integers of all lengths and their neighbours', 'tests run one back end and compare single results; an operand that is the same object, an infinity in one operand position, or a fraction whose digits are all 9 is met by none of them',
 [GM, MR, BASE], [('operators, cmp, predicates and extract_ functions', GM), ('operators, cmp, predicates and extract_ functions', MR)], BB, 'Bounded: operands are sampled by pattern. Trusted: compiler, GMP and MPFR (the back ends and the oracle call the same installed libraries).', level='other')
prop('C13', 'Decimal text is read exactly',
 'For the default (efx) number type in its 100-digit configuration: a decimal numeral with optional sign, digits, optional point and optional exponent (e or E, optional sign), given to the constructor from const char*, from std::string or to operator>>, is converted exactly when its significant digits number at most 120; longer numerals are truncated towards zero with a relative error below 10^-119. Leading and trailing zeros, the position of the point and the way the exponent is split between point and exponent do not matter. A numeral of order above max_exponent10 gives infinity with the sign of the numeral, one of order below min_exponent10 gives zero, and the result is a well formed value (all limbs below 10^8, first limb not zero, exponent a multiple of 8). Writing a value that has at most 102 significant digits with precision 102 and reading the text back restores it exactly.',
 ['inputs'], 'all numerals with up to 26 (thorough: 34) digits on either side of the point in every combination of lengths, with runs of leading and trailing zeros, plus lengths around every limb and storage boundary up to 200 digits; exponents near zero and around both ends of the range', 'tests read a few well behaved literals; the position of the point relative to the limbs, runs of zeros and the ends of the exponent range interact in thousands of combinations',
 [EFX, BASE], [('rd_string', EFX), ('operator>>', BASE)], BT, 'Bounded: every shape in the stated family is tried, digits are sampled. Trusted: compiler, GMP.', level='other')
prop('C14', 'Decimal text is written correctly rounded in every stream format',
 'For the default (efx) number type in its 100-digit configuration: operator<< writes the value rounded half up to the number of digits that the format asks for - precision significant digits in the default format (at most 102), precision + 1 in scientific (at most 103), precision decimals in fixed (at most 103 digits in all) - carries included, zero-filled where more digits are asked for. In the default format scientific notation is used for orders below -4 and from min(101, max(precision, 6)) on, and trailing zeros are dropped unless showpoint. Precision zero or negative means 6. showpos, showpoint, uppercase, setw, setfill and left are honoured as for double, exponents have a sign and a multiple of three digits, infinities and NaN are written as inf, -inf, nan (INF, NAN with uppercase).',
 ['inputs'], 'all combinations of format, precision -1..135 and flags over values of every limb exponent from -17 to 17 and at the ends of the exponent range, with all-nine, all-zero, half-way and random digits', 'tests write a few values in one or two formats; a carry through all nines, a value below the last place, or showpoint with a short value is one combination in thousands',
 [BASE, EFX], [('wr_string, wr_string_fixed, wr_string_scientific, operator<<', BASE), ('get_output_string', EFX)], BT, 'Bounded: every combination of format and precision is tried, values are sampled by pattern. Trusted: compiler, GMP.', level='other')
BG = 'contracts of the functions evaluated on the real code over a bounded family of arguments against an independent oracle (bounded stand-in: the convergence of the underlying series is outside the deductive verifier; labelled bounded, not proved)'
GAM = ['libs/e_float/src/functions/gamma/gamma.cpp', 'libs/e_float/src/functions/gamma/factorial.cpp', 'libs/e_float/src/functions/gamma/pochhammer.cpp']
prop('C21', 'Gamma, Pochhammer and binomial values are right for every argument',
 'For every real or complex argument away from the poles, gamma(z), gamma_near_n(n, eps) (the gamma function at n + eps), pochhammer(z, n) (the product z (z+1) ... (z+n-1), 1 for n = 0), pochhammer(z, a) (gamma(z+a)/gamma(z)) and binomial agree with the mathematical value to nearly the full precision, with the right sign on every interval of the negative axis. gamma of 0 and of a negative integer is NaN, gamma(+inf) is +inf, NaN gives NaN. pochhammer(x, n) is exactly 0 when one of its factors is 0.',
 ['inputs'], 'every interval between poles from -20 to 30 in steps, both sides of every algorithm threshold, tiny, huge and near-integer arguments, complex arguments in all quadrants; values by pattern and seed', 'tests evaluate a few positive points; a wrong sign on one interval, a wrong branch at a threshold, or a special case such as a factor that is zero is met by none of them',
 GAM, [('ef::gamma, ef::gamma_near_n', GAM[0]), ('ef::pochhammer', GAM[2]), ('ef::binomial', GAM[1])], BG, 'Bounded: arguments are sampled per interval and shape. Trusted: compiler, MPFR.', level='other')
ZET = 'libs/e_float/src/functions/zeta/zeta.cpp'
prop('C22', 'Riemann zeta values are right for every argument',
 'For every integer, real or complex argument other than 1 riemann_zeta agrees with the mathematical value to nearly the full precision (on both sides of the critical strip, with trivial zeros at the negative even integers and the right sign at negative odd ones). zeta(1) is infinite, large positive arguments give 1, NaN gives NaN.',
 ['inputs'], 'integers from -200 to 2000, real arguments on both sides of every threshold, near 1, huge, complex arguments in all quadrants; values by pattern and seed', 'tests evaluate a few points; a wrong branch, threshold or sign elsewhere is met by none of them',
 [ZET], [('ef::riemann_zeta, efz::riemann_zeta', ZET)], BG, 'Bounded: arguments are sampled per interval and shape. Trusted: compiler, MPFR.', level='other')
NA = {}
