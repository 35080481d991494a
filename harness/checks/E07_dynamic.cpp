#include "E07_named.hpp"

PROP(named_dynamic, 48000, 800000) {
  namespace dy = lc::dynamic_indices;
  using dyn = IdxDyn::dyn;
  using raw = IdxDyn::raw;
  std::string s = gen_name(g);
  int i = gen_int_idx(g), j = gen_int_idx(g);
  ctx << "'" << s << "' " << i << " " << j;
  ctx.nontrivial();
  auto t0 = one(dyn());
  auto t1 = one(dyn(raw{i}));
  auto ts = one(dyn(raw{s}));
  auto t2 = one(dyn(raw{s, i}));
  auto t3 = one(dyn(raw{i, j, s}));
  switch(g.below(8)) {
  case 0: NAMED(dy, double, t0); NAMED_SPIN(dy, 3, double, t0); NAMED_XY(dy, t0); break;
  case 1: NAMED(dy, double, t1, i); NAMED_SPIN(dy, 4, cd, t1, i); NAMED_XY(dy, t1, i); break;
  case 2: NAMED(dy, cd, ts, s); NAMED_SPIN(dy, 5, double, ts, s); NAMED_XY(dy, ts, s); break;
  case 3: NAMED(dy, mpq_class, t2, s, i); NAMED_SPIN(dy, 6, int, t2, s, i); break;
  case 4: NAMED(dy, cd, t3, i, j, s); NAMED_SPIN(dy, 2, cd, t3, i, j, s); NAMED_XY(dy, t3, i, j, s); break;
  case 5: NAMED(dy, double, t2, std::string(s), int(i)); NAMED_SPIN(dy, 3, double, t2, std::string(s), int(i)); NAMED_XY(dy, t2, std::string(s), int(i)); break;
  case 6: {
    char const* c = s.c_str();
    NAMED(dy, double, t2, c, i);
    NAMED_SPIN(dy, 7, double, t2, c, i);
    NAMED_XY(dy, t2, c, i);
    auto lit = one(dyn(raw{std::string("up"), i}));
    NAMED(dy, double, lit, "up", i);
    NAMED_XY(dy, lit, "up", i);
    break;
  }
  default: {
    auto e = 2.0 * dy::c_dag(s, i) * dy::c(j) + 0.5;
    auto ce = dy::make_complex(e);
    MUST((std::is_same<decltype(ce), dy::expr_complex>::value), "make_complex type");
    MUST(ce.size() == e.size(), "make_complex ", ce);
    auto it = ce.begin();
    for(auto const& x : e) {
      MUST((*it).monomial == x.monomial && (*it).coeff == cd(x.coeff), "make_complex ", ce);
      ++it;
    }
    auto f = dy::make_fermion(true, s, i);
    auto b = dy::make_boson(false, s, i);
    auto h = dy::make_spin(lc::minus, s, i);
    auto k = dy::make_spin(1.5, lc::z, s, i);
    MUST(f->dagger() && f->indices() == t2, "make_fermion");
    MUST(!b->dagger() && b->indices() == t2, "make_boson");
    MUST(h->multiplicity() == 2 && h->component() == lc::minus && h->indices() == t2, "make_spin");
    MUST(k->multiplicity() == 4 && k->spin() == 1.5 && k->component() == lc::z && k->indices() == t2,
         "make_spin");
  }
  }
}
