#include "L03_body.hpp"

PROP(single_precision, 60000, 1200000) { Check<double,float,float>(g, ctx); }
