// PBT run-configs: tsan rel
#include "C01_body.hpp"
#include "shared_sectors.hpp"

PROP(sector_views, 4000, 80000) { sectors(g, ctx, interfere); }
