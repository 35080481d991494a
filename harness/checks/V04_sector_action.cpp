// PBT rule: operators made of random words that change the fermion numbers of up to four groups of modes (or the total one) by equal amounts, acting from the sector of a random fermion number into the one reached, with two independently chosen ranking methods and several storage types; compared with the action on the full space; non-trivial = the image is not zero and the source sector has several fermionic configurations
#include "V04_body.hpp"

PROP(sector, 48000, 960000) { Case<IdxInt, double>(g, ctx, false); }
PROP(multisector, 48000, 960000) { Case<IdxInt, double>(g, ctx, true); }
