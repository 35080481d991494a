#include "L03_body.hpp"

PROP(interface_real, 80000, 1600000) { interface<double>(g, ctx); }
PROP(interface_complex, 80000, 1600000) { interface<cplx>(g, ctx); }
