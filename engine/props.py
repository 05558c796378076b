E_EFX = 'e_float/efx/e_float_efx.cpp'
CORE = [E_EFX, 'e_float/e_float.cpp', 'e_float/e_float_base.cpp', 'functions/constants/constants.cpp', 'functions/elementary/elementary_math.cpp']
UNITS = {}
def efx(name, fns, harness=None, **kw):
    d = dict(backend='EFX', sources=CORE + ['spec/efx_consts.cpp'], override=['spec/efx_consts.cpp'], native_skip=['spec/efx_consts.cpp'],
             harness=['spec/%s.cpp' % (harness or name)], fns=fns)
    d.update(kw); UNITS[name] = d
efx('efx_add', ['h_add_special', 'h_add_alias', 'h_add_finite'])
R_ADD = {'_ZN3efx7e_floatpLERKS0_': 'vf_stub_add'}; R_SUB = {'_ZN3efx7e_floatmIERKS0_': 'vf_stub_sub'}; R_MUL = {'_ZN3efx7e_floatmLERKS0_': 'vf_stub_mul'}
R_INV = {'_ZN3efx7e_float13calculate_invEv': 'vf_stub_inv'}
STUBS = ['vf_stub_add', 'vf_stub_sub', 'vf_stub_mul']
efx('efx_sub', ['h_sub_finite'], 'efx_add', redirect=R_ADD, keep=STUBS)
efx('efx_div', ['h_div_special', 'h_div_alias'], redirect={'_ZN3efx7e_floatmLERKS0_': 'vf_divmul', **R_INV}, keep=['vf_divmul', 'vf_stub_inv'])
efx('efx_inv', ['h_inv_special', 'h_sqrt_special', 'h_div_one'], 'efx_div')
L = lambda **kw: {'_ZN3efx7e_float' + k: 'vf_log_' + v for k, v in kw.items()}
LOG = L(pLERKS0_='add', mIERKS0_='sub', mLERKS0_='mul', dVERKS0_='div')
LOGN = L(**{'22mul_unsigned_long_longEy': 'mulu', '22div_unsigned_long_longEy': 'divu'})
LOGS = ['vf_log_' + x for x in ('add', 'sub', 'mul', 'div', 'mulu', 'divu')]
efx('efx_intop', ['h_addsub_ll', 'h_addsub_ull', 'h_addsub_int', 'h_mulu_large', 'h_divu_large'], redirect=LOG, keep=LOGS)
efx('efx_signed', ['h_mul_ll', 'h_div_ll', 'h_muldiv_ull', 'h_ndiv', 'h_binary', 'h_incdec'], redirect={**LOG, **LOGN}, keep=LOGS)
efx('efx_mul', ['h_mul_special', 'h_mul_one', 'h_mul_alias', 'h_mul_comm', 'h_mul_finite'])
efx('efx_small', ['h_mulu_small', 'h_divu_small'])
efx('efx_cmp', ['h_cmp', 'h_cmp_ops', 'h_cmp_self', 'h_pred', 'h_cmp_ull', 'h_cmp_ll'])
efx('efx_int', ['h_from_int', 'h_roundtrip_ull', 'h_roundtrip_ll', 'h_extract_ll', 'h_extract_ull', 'h_to_int64', 'h_to_int32'])
efx('efx_parts', ['h_integer_part', 'h_decimal_part', 'h_isint', 'h_isone', 'h_negate'])
efx('efx_round', ['h_floor', 'h_ceil', 'h_signs'])
efx('efx_value', ['h_copy', 'h_storage', 'h_construct', 'h_dynarray'], defs=['-DVF_HEAP'])
_E = 'N3efx7e_float'
FIELD = {'_Z%s%s' % (_E, k): 'vf_f_' + v for k, v in {'pLERKS0_': 'add', 'mIERKS0_': 'sub', 'mLERKS0_': 'mul', 'dVERKS0_': 'div', '6negateEv': 'negate', '13calculate_invEv': 'inv', '14calculate_sqrtEv': 'sqrt',
  '22add_unsigned_long_longEy': 'addu', '22sub_unsigned_long_longEy': 'subu', '22mul_unsigned_long_longEy': 'mulu', '22div_unsigned_long_longEy': 'divu', '9precisionEi': 'precision'}.items()}
FIELD.update({'_ZNK3efx7e_float' + k: 'vf_f_' + v for k, v in {'3cmpERKS0_': 'cmp', '5isnanEv': 'isnan', '5isinfEv': 'isinf', '8isfiniteEv': 'isfinite', '6iszeroEv': 'iszero', '5isoneEv': 'isone', '5isnegEv': 'isneg', '5isintEv': 'isint',
  '14get_order_fastEv': 'order', '20extract_integer_partEv': 'intpart', '20extract_decimal_partEv': 'decpart'}.items()})
def FUN(*ns): return {'_ZN2ef%d%sERK%s' % (len(n), n, _E[1:] if 0 else 'N3efx7e_floatE'): 'vf_f_' + n for n in ns}
CONSTS = {'_ZN2ef%d%sEv' % (len(n), n): 'vf_f_' + n for n in ('pi', 'pi_half', 'two_pi', 'ln2', 'ln10', 'e', 'sqrt2')}
ATAN2 = {'_ZN2ef5atan2ERKN3efx7e_floatES3_': 'vf_f_atan2'}
TRIG = FUN('sin', 'cos', 'exp', 'log', 'sinh', 'cosh')
def field(name, fns, red, sources=None, **kw):
    red = {**FIELD, **CONSTS, **red}
    efx(name, fns, redirect=red, keep=sorted(set(red.values())), handlers=['field'], **kw)
    UNITS[name]['sources'] = UNITS[name]['sources'] + (sources or ['functions/elementary/elementary_trans.cpp', 'functions/elementary/elementary_trig.cpp', 'functions/elementary/elementary_hyper_g.cpp'])
field('cplx', ['h_c_add', 'h_c_mul', 'h_c_div', 'h_c_alias', 'h_c_real', 'h_c_int', 'h_c_cmp', 'h_c_value', 'h_c_trig', 'h_c_explog', 'h_c_sqrt', 'h_c_pow'], {**TRIG, **ATAN2})
field('cplx_inv', ['h_c_inverse'], {**TRIG, **ATAN2, '_ZN2ef3logIN3efx7e_floatEEENS_7complexIT_EERKS5_': 'vf_clog', '_ZN2ef4sqrtIN3efx7e_floatEEENS_7complexIT_EERKS5_': 'vf_csqrt'}, harness='cplx')
H_ = 'N3efx7e_floatE'
HYP = {'_ZN2ef18hypergeometric_0f0ERK' + H_: 'vf_f_h0f0', '_ZN2ef18hypergeometric_0f1ERK' + H_ + 'S3_': 'vf_f_h0f1', '_ZN2ef18hypergeometric_1f0ERK' + H_ + 'S3_': 'vf_f_h1f0', '_ZN2ef18hypergeometric_2f1ERK' + H_ + 'S3_S3_S3_': 'vf_f_h2f1', '_ZN2ef8log1p1m2ERK' + H_: 'vf_f_log1p1m2'}
POWR = {'_ZN2ef6detail13pown_templateIN3efx7e_floatEEET_RKS4_l': 'vf_f_pown', '_ZN2ef4pow2El': 'vf_f_pow2', '_ZNK3efx7e_float24extract_signed_long_longEv': 'vf_f_toll'}
START = {'_ZN3efx7e_floatC2Edl': 'vf_f_fromd', '_ZN3efx7e_floatC1Edl': 'vf_f_fromd', '_ZN3efx7e_float16from_long_doubleEe': 'vf_f_fromld', '_ZNK3efx7e_float13extract_partsERdRl': 'vf_f_parts', 'pow': 'vf_f_dpow', **{k: 'vf_f_dlog' for k in ('log', 'log10', 'asin', 'atan')}}
field('fieldround', ['h_fmod', 'h_ldexp', 'h_frexp'], {**POWR, '_ZN2ef4pow2El': 'vf_f_pow2r', 'log2': 'vf_f_log2', '_ZNK3efx7e_float13extract_partsERdRl': 'vf_f_parts', '_ZNK3efx7e_float20extract_integer_partEv': 'vf_f_intpart_rounded'}, defs=['-DVF_NOINLINE'])
EL = {**HYP, **POWR, **START}
EDEF = dict(harness='elem', defs=['-DVF_NOINLINE'])
field('elem', ['h_e_trig', 'h_e_hyp', 'h_e_asinh', 'h_e_acosh', 'h_e_atanh', 'h_e_logs', 'h_e_acos', 'h_e_atan2'], {**EL, **FUN('sin', 'cos', 'exp', 'log', 'asin', 'atan')}, **EDEF)
field('elem_pow', ['h_e_pow', 'h_e_root'], {**EL, **FUN('exp', 'log')}, **EDEF)
field('elem_series', ['h_e_sin', 'h_e_cos', 'h_e_exp'], EL, **EDEF)
field('elem_newton', ['h_e_log', 'h_e_asin', 'h_e_atan'], {**EL, **FUN('sin', 'cos', 'exp')}, **EDEF)
GH = {_z: _s for _z, _s in {'_ZN3efx7e_floatmLERKS0_': 'vf_g_mul', '_ZN3efx7e_floatdVERKS0_': 'vf_g_div', '_ZN3efx7e_float13calculate_invEv': 'vf_g_inv',
  '_ZN2ef7complexIN3efx7e_floatEEmLERKS3_': 'vf_g_cmul', '_ZN2ef7complexIN3efx7e_floatEEdVERKS3_': 'vf_g_cdiv', '_ZN2ef7complexIN3efx7e_floatEEmLIS2_EERS3_RKNS0_IT_EE': 'vf_g_cmul', '_ZN2ef7complexIN3efx7e_floatEEdVIS2_EERS3_RKNS0_IT_EE': 'vf_g_cdiv', '_ZN2efdvIN3efx7e_floatEEENS_7complexIT_EERKS4_RKS5_': 'vf_g_rdiv',
  '_ZN2efdvERKN3efx7e_floatERKNS_7complexIS1_EE': 'vf_g_rdiv',
  '_ZN2efmlIN3efx7e_floatEEENS_7complexIT_EERKS5_S7_': 'vf_g_cmul2', '_ZN2efdvIN3efx7e_floatEEENS_7complexIT_EERKS5_S7_': 'vf_g_cdiv2'}.items()}
efx('ipow', ['h_pown', 'h_pown_small', 'h_pow', 'h_pow2', 'h_cpow', 'h_cpow_int'], redirect=GH, keep=sorted(set(GH.values())), defs=['-DVF_NOINLINE'], opts={'nofeas': 1, 'merge': ['pown_template', '3powE', '3powI', '4pow2']})
UNITS['ipow']['sources'] = UNITS['ipow']['sources'] + ['functions/elementary/elementary_trans.cpp']
for k, v in UNITS.items(): v['name'] = k
ACCEPT = ['operands have full working precision (limb count 16); reduced-precision intermediates occur only inside the Newton iterations',
          '64-bit Linux data layout; IEEE double',
          'decimal exponents of operands lie in [-2^40, 2147483616] (add, mul, comparison) or in the documented range (division)']
FIELDACC = ['the e_float operators are represented by exact-arithmetic contracts (rounding errors are not modelled): the proofs establish that the computed formula is the stated one for all real arguments',
            'elementary functions of e_float called by the code are uninterpreted functions of their arguments', 'operands are finite; 64-bit Linux data layout']
import closed
CLOSED = 'obligations without free variables: each function is evaluated, in the code compiled from the current tree, on every element of its stated finite domain and compared with an exact oracle; outside the tables a stated sample only (bounded, not proved)'
BGAMMA = 'bounded stand-in for a contract (convergence of asymptotic series is outside the verifier): the contract of the function is evaluated on the code compiled from the current tree for a stated finite family of arguments (every interval between poles, thresholds of the algorithms, patterned and seeded values) against MPFR and independent Stirling / Euler-Maclaurin evaluations; nothing here is counted as proved'
BBACK = 'bounded stand-in for contracts (the bodies are calls of the external GMP and MPFR libraries): each contract is evaluated on the code compiled from the current tree with -DE_FLOAT_TYPE_GMP and -DE_FLOAT_TYPE_MPFR for all combinations of special values and a stated finite family of operands, against exact MPFR computations at 3000 bits; nothing here is counted as proved'
BOUNDED = 'bounded stand-in for a contract (string code of the C++ library is outside the verifier): the contract of the function is evaluated on the code compiled from the current tree for every shape of text in a stated finite range with digits from patterns and a seeded generator, against an exact rational oracle; nothing here is counted as proved'
PROPS = {
 'C01': {'units': [('efx_add', None), ('efx_sub', None)]},
 'C02': {'units': [('efx_mul', None)]},
 'C03': {'units': [('efx_small', None), ('efx_intop', None), ('efx_signed', None)]},
 'C04': {'units': [('efx_inv', None), ('efx_div', None)]},
 'C05': {'units': [('efx_cmp', None)]},
 'C06': {'units': [('efx_int', None)]},
 'C07': {'units': [('efx_parts', None)]},
 'C17': {'units': [('elem', None), ('elem_pow', None)], 'assumptions': FIELDACC + ['the start value of the Newton iteration for roots is an arbitrary positive value and the iterates stay positive; convergence is not modelled']},
 'C18': {'units': [('elem_series', None), ('elem_newton', None)], 'assumptions': FIELDACC + ['hypergeometric series 0F0, 0F1, 1F0, 2F1 are represented by their closed forms; their truncation is not modelled', 'the double precision start values of Newton iterations are arbitrary, convergence is not modelled', 'log: arguments from 1e-1000 to 1e1001', 'no argument equals max_exponent10 * ln 10 exactly']},
 'C10': {'units': [('ipow', None)], 'assumptions': ['in the proof the values are ghost exponents: multiplication adds and division subtracts exponents of one common base; rounding of the products is not modelled', '64-bit Linux data layout']},
 'C08': {'units': [('efx_value', None)]},
 'C20': {'units': [('efx_round', None), ('fieldround', None)], 'assumptions': ACCEPT + FIELDACC},
 'C16': {'units': [], 'closed': [closed.program('constants')], 'level': 'other', 'assumptions': ['GMP and MPFR (oracles) are correct'], 'explanation': CLOSED},
 'C19': {'units': [], 'closed': [closed.program('tables')], 'level': 'other', 'assumptions': ['GMP (oracle) is correct'], 'explanation': CLOSED},
 'C11': {'units': [], 'closed': [closed.program('backend', 'GMP'), closed.program('backend', 'MPFR')], 'level': 'other', 'assumptions': ['MPFR and GMP (oracle, and called by the back ends) are correct'], 'explanation': BBACK},
 'C13': {'units': [], 'closed': [closed.program('textio', 'EFX', 'r')], 'level': 'other', 'assumptions': ['GMP (oracle) is correct'], 'explanation': BOUNDED},
 'C14': {'units': [], 'closed': [closed.program('textio', 'EFX', 'w')], 'level': 'other', 'assumptions': ['GMP (oracle) is correct'], 'explanation': BOUNDED},
 'C21': {'units': [], 'closed': [closed.program('gammas', 'EFX', 'g')], 'level': 'other', 'assumptions': ['MPFR (oracle) is correct'], 'explanation': BGAMMA},
 'C22': {'units': [], 'closed': [closed.program('gammas', 'EFX', 'z')], 'level': 'other', 'assumptions': ['MPFR (oracle) is correct'], 'explanation': BGAMMA},
 'C09': {'units': [('cplx', None), ('cplx_inv', None)], 'assumptions': FIELDACC},
}
for p in PROPS.values(): p.setdefault('assumptions', ACCEPT)
