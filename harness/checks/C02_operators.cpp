#include "C02_body.hpp"
#include "shared_operators.hpp"

PROP(operators_int, 12000, 240000) { operators<IdxInt, double>(g, ctx, inject); }
PROP(operators_dyn, 6000, 120000) { operators<IdxDyn, double>(g, ctx, inject); }
PROP(parametric_operators, 9000, 180000) { parametric(g, ctx, inject); }
