#include "V04_body.hpp"

PROP(sector_complex, 24000, 480000) { Case<IdxInt, cplx>(g, ctx, false); }
PROP(multisector_complex, 24000, 480000) { Case<IdxInt, cplx>(g, ctx, true); }
