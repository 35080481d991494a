#include "E07_named.hpp"

PROP(named_static, 48000, 800000) {
  namespace st = lc::static_indices;
  std::string s = gen_name(g);
  int i = gen_int_idx(g), j = gen_int_idx(g);
  ctx << "'" << s << "' " << i << " " << j;
  ctx.nontrivial();
  std::tuple<> t0;
  std::tuple<int> t1(i);
  std::tuple<std::string> ts(s);
  std::tuple<std::string, int> t2(s, i);
  std::tuple<int, int, std::string> t3(i, j, s);
  switch(g.below(8)) {
  case 0: NAMED(st, double, t0); NAMED_SPIN(st, 3, double, t0); NAMED_XY(st, t0); break;
  case 1: NAMED(st, double, t1, i); NAMED_SPIN(st, 4, cd, t1, i); NAMED_XY(st, t1, i); break;
  case 2: NAMED(st, cd, ts, s); NAMED_SPIN(st, 5, double, ts, s); NAMED_XY(st, ts, s); break;
  case 3: NAMED(st, mpq_class, t2, s, i); NAMED_SPIN(st, 6, int, t2, s, i); break;
  case 4: NAMED(st, cd, t3, i, j, s); NAMED_SPIN(st, 2, cd, t3, i, j, s); NAMED_XY(st, t3, i, j, s); break;
  case 5: NAMED(st, double, t2, std::string(s), int(i)); NAMED_SPIN(st, 3, double, t2, std::string(s), int(i)); NAMED_XY(st, t2, std::string(s), int(i)); break;
  case 6: {
    char const* c = s.c_str();
    NAMED(st, double, t2, c, i);
    NAMED_SPIN(st, 7, double, t2, c, i);
    NAMED_XY(st, t2, c, i);
    std::tuple<std::string, int> lit("up", i);
    NAMED(st, double, lit, "up", i);
    NAMED_XY(st, lit, "up", i);
    break;
  }
  default: {
    // make_complex
    auto e = 2.0 * st::c_dag(s, i) * st::c(s, j) + 0.5;
    auto ce = st::make_complex(e);
    MUST((std::is_same<typename decltype(ce)::scalar_type, cd>::value), "make_complex type");
    MUST(ce.size() == e.size(), "make_complex ", ce);
    auto it = ce.begin();
    for(auto const& x : e) {
      MUST((*it).monomial == x.monomial && (*it).coeff == cd(x.coeff), "make_complex ", ce);
      ++it;
    }
    auto f = st::make_fermion(true, s, i);
    auto b = st::make_boson(false, s, i);
    auto h = st::make_spin(lc::minus, s, i);
    auto k = st::make_spin(1.5, lc::z, s, i);
    MUST(f->dagger() && f->indices() == t2, "make_fermion");
    MUST(!b->dagger() && b->indices() == t2, "make_boson");
    MUST(h->multiplicity() == 2 && h->component() == lc::minus && h->indices() == t2, "make_spin");
    MUST(k->multiplicity() == 4 && k->spin() == 1.5 && k->component() == lc::z && k->indices() == t2,
         "make_spin");
  }
  }
}

