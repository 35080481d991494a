// PBT run-configs: tsan rel
#include "C01_body.hpp"
#include "shared_operators.hpp"

PROP(operators_int, 3000, 60000) { operators<IdxInt, double>(g, ctx, interfere); }
PROP(operators_complex, 1500, 30000) { operators<IdxInt, cplx>(g, ctx, interfere); }
PROP(operators_dyn, 1500, 30000) { operators<IdxDyn, double>(g, ctx, interfere); }
PROP(parametric_operators, 2500, 50000) { parametric(g, ctx, interfere); }
