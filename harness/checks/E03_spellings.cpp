// PBT rule: stateful sequences of arithmetic statements over five variables of two scalar types, mirrored in a reference map; non-trivial = at least four statements took effect, one of them a product, and some variable ended with two or more terms
// PBT flags: -DPART=0
#include "E03_body.hpp"
