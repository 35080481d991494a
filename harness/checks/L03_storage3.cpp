#include "L03_body.hpp"

PROP(complex_op_real_source, 60000, 1200000) { Check<cplx,double,cplx>(g, ctx); }
