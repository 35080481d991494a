// PBT rule: operations on random expressions, monomials, Hilbert spaces, operators, partitions, basis mappers, sparse vectors and views during which a memory allocation (any one, or all from some point on) fails or a user-defined scalar throws at its n-th operation; blocks in use are counted; non-trivial = the failure was delivered and an exception came out
#include "C02_body.hpp"
#include "shared_expressions.hpp"

PROP(expressions_int, 18000, 360000) { expressions<IdxInt, double>(g, ctx, inject); }
PROP(expressions_complex, 9000, 180000) { expressions<IdxInt, cplx>(g, ctx, inject); }
PROP(expressions_dyn, 12000, 240000) { expressions<IdxDyn, double>(g, ctx, inject); }
