#include "L03_body.hpp"

PROP(real_op_complex_state, 60000, 1200000) { Check<double,cplx,cplx>(g, ctx); }
