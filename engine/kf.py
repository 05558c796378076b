import subprocess
m={
'c1075fe':'C11 -2^63 converted to -(2^63-1), and 4.99...9 (80 nines) to 5 in the mpfr back end',
'375030f':'C11 1 + inf was 1, inf * inf and sqrt(inf) were NaN, x -= x was 2x for x = inf in the gmp back end',
'484480d':'C22 riemann_zeta(1e15) was NaN',
'c54aea0':'C21 pochhammer(0, 50) was NaN',
'c857737':'C13 numerals such as 69.9e2147483617 were read as finite values above max()',
'671a796':'C21 gamma(2 + 3i) ignored the imaginary part and was 1',
'62ed8ab':'C21 gamma(-inf) was -inf',
'b28883b':'C19 prime_factors(8) was 2^3 * 1',
'fe63b62':'C19 bernoulli_table(bn, 0) wrote behind the end of its tables',
'd171059':'C19 factorial2(INT_MIN) negated INT_MIN in signed arithmetic',
'c4fd100':'C16 numeric_limits lowest() was zero',
'ca16bf4':'C21 pochhammer(-60, 50) was NaN',
'4add3d6':'C16 long_double_max() was infinity',
'774ccfe':'C19 prime() with a sieve limit near 2^32 did not terminate',
'5fd7946':'C07 floor(1e104 + 0.5) was not an integer; isint() and extract_decimal_part() disagreed on values with more than 103 integer digits',
'4619abb':'C20 frexp(3, &e) was 1.5 with e = 0 and frexp(100, &e) was 25 with e = 2',
'77563ac':'C14 fixed output of 0.006 with precision 2 threw std::out_of_range; default output of 0.0001 with precision 3 lost digits',
'084219d':'C14 (GMP, MPFR) 0.9999999999999999999 was printed as 9.999999999999999999',
'404ed7e':'C09 complex conj(z) returned i*z',
'2d3f728':'C09 complex sqrt(0) and generic norm(0) were NaN',
'7146e61':'C09 complex acosh(-1) was NaN',
'7f8082e':'C17 atan(x) of large negative x was positive, atan(+-inf) was NaN',
'b7da9f1':'C17 asin(x) of small negative x was positive',
'0019d52':'C17 atan2 of infinities and NaN returned its second argument',
'6dab029':'C17 acosh(1) was 1',
'8754cf2':'C17 rootn_inverse(x, 1) returned x',
'4cad0a4':'C04 max() / 7.48e2147483615 was 0, inf / 7.48e2147483615 was NaN',
'f5d2cc9':'C17 rootn(0, 5) did not terminate',
'e997b51':'C17 exp(3000000000) was infinity',
'd8fe87e':'C04 sqrt(inf) was NaN',
'104b57c':'C17 log(inf) was NaN',
'ba7f64a':'C17 log1p(5) did not converge',
'c2ca33b':'C17 cosh(-inf) was -inf',
'd4ccb18':'C17 tanh(+-inf) and tanh(5e9) were NaN',
'7cdc44e':'C17 asinh(inf), acosh(inf), atanh(+-1) were NaN, atanh(inf) was inf',
'9b8e50c':'C17 pow(0, 2) was 1, pow(2, inf) was not infinity',
'bf080a1':'C17 pow(-1, 1e30) was -1',
'ba73c02':'C10 pow(x, INT64_MIN) recursed without end',
'af70187':'C20 fmod(6, 3) was 3, fmod(7, -3) was -2',
'2b6a645':'C02 max()*1 (and every product between the largest power of ten and max()) was infinity',
'd327aee':'C03 NaN * (signed integer) returned an infinity',
'd02b0a6':'C04 (-x)/(x) and (-x)/(-x) had the wrong sign when the magnitudes are equal',
'1c08815':'C04 0/0 returned 1',
'2348f37':'C08 x = std::move(x) released the storage of x (later use after free)',
'1801c5b':'C08 assigning to a moved-from e_float wrote through a null pointer',
'ff365ae':'C07 extract_decimal_part of an integral value (e.g. 100000000) was a zero with a non-zero exponent, which compared unequal to zero',
'395bc5d':'C06 extract_signed_long_long of -2^63 negated LLONG_MIN in signed arithmetic',
'5208504':'C07 isone() was false for the value one',
'fa7c5d0':'C03 arithmetic with LLONG_MIN negated it in signed arithmetic',
'b96d405':'C03 x / n (n < 10^8) lost the last limb when the leading quotient limb is zero (error up to 10^8 units)',
'a0c53ff':'C03 (-x) / 0 (integer zero) returned +infinity',
'd34053e':'C02 products above max() with the same exponent were returned as finite values',
'356a867':'C01 x -= x returned 2x',
'6156d76':'C10 pow2(INT64_MIN) negated it in signed arithmetic',
'c9468f5':'C10 complex pow(z, INT_MIN) recursed without end',
'de5fa75':'C01 x + inf, inf + x, x - inf, inf + NaN returned wrong classes'}
out=[]
for l in reversed(subprocess.run(['git','-C','/repo','log','--format=%h'],stdout=subprocess.PIPE,text=True).stdout.split()):
    if l in m:
        p,t=m[l].split(' ',1); out.append('fixed: property=%s %s %s'%(p,l,t))
out.append('finding: property=C21 gamma(-18 + 2e9 i) is NaN'); out.append('finding: property=C21 gamma(-2e-60 + 1e-60 i) is not good to 85 digits')
open('/verif/known-findings.txt','w').write('\n'.join(out)+'\n')
