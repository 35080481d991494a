// PBT rule: random operators and states in small, possibly sparse Hilbert spaces, 17 kinds of sources and destinations (standard, sparse, Eigen vectors, segments, columns and blocks of both storage orders, maps, compressed and mapped views of these), garbage and NaN in the destination and guards around it, real and complex operators and states; histories of the interface functions; non-trivial = the image is not zero (histories: an amplitude was updated)
#include "L03_body.hpp"

PROP(real, 60000, 1200000) { Check<double, double, double>(g, ctx); }
