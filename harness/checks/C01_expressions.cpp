// PBT rule: two or three threads and nested or abandoned calls working on the same constant objects (expressions, monomials, Hilbert spaces, operators, parametric operators, partitions, basis mappers and views of vectors), each thread with one to three random operations; run under ThreadSanitizer and without, compared with the same calls made one after another; non-trivial = at least two threads have run and were compared
// PBT run-configs: tsan rel
#include "C01_body.hpp"
#include "shared_expressions.hpp"

PROP(real_int, 4000, 80000) { expressions<IdxInt, double>(g, ctx, interfere); }
PROP(complex_int, 2000, 40000) { expressions<IdxInt, cplx>(g, ctx, interfere); }
PROP(real_dyn, 3000, 60000) { expressions<IdxDyn, double>(g, ctx, interfere); }
