#include "L03_body.hpp"

PROP(complex, 60000, 1200000) { Check<cplx,cplx,cplx>(g, ctx); }
