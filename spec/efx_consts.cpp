// contracts (values) of the limit constants used inside the efx core; that the real definitions have these
// values is a separate obligation (harness efx_closed.cpp)
#include <e_float/e_float.h>
#include <e_float/e_float_functions.h>
typedef efx::e_float EF;
static_assert(EF::ef_elem_number == 16, "limb count");
const EF& ef::value_max() { static const EF v({9,99999999,99999999,99999999,99999999,99999999,99999999,99999999,99999999,99999999,99999999,99999999,99999999,99999900}, EF::ef_max_exp10); return v; }
const EF& ef::value_min() { static const EF v({1}, EF::ef_min_exp10); return v; }
