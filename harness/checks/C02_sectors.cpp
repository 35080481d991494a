#include "C02_body.hpp"
#include "shared_sectors.hpp"

PROP(sector_views, 12000, 240000) { sectors(g, ctx, inject); }
