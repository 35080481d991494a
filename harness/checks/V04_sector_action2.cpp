#include "V04_body.hpp"

PROP(sector_dyn, 16000, 320000) { Case<IdxDyn, double>(g, ctx, false); }
PROP(multisector_dyn, 16000, 320000) { Case<IdxDyn, double>(g, ctx, true); }
