#pragma once
#include "hs.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename... Is>
bool matches(lc::generator<Is...> const& x, int alg, int mult, int comp) {
  switch(x.algebra_id()) {
  case lc::fermion:
    return alg == F && dynamic_cast<lc::generator_fermion<Is...> const&>(x).dagger() == (comp == 1);
  case lc::boson:
    return alg == B && dynamic_cast<lc::generator_boson<Is...> const&>(x).dagger() == (comp == 1);
  case lc::spin: {
    auto const& s = dynamic_cast<lc::generator_spin<Is...> const&>(x);
    auto c = comp == P ? lc::plus : comp == M ? lc::minus : lc::z;
    return alg == S && s.multiplicity() == mult && s.component() == c;
  }
  default: return false;
  }
}

// A list of (components, coefficient) an operator is documented to be, all with the same indices
struct Doc {
  CQ coeff;
  std::vector<std::tuple<int, int, int>> gens; // alg, mult, comp
};
template <typename E, typename Tup> void is(E const& e, std::vector<Doc> const& docs, Tup const& t,
                                            char const* name) {
  MUST(e.size() == docs.size(), name, " gives ", e);
  std::vector<bool> used(docs.size());
  for(auto const& term : e) {
    bool found = false;
    for(std::size_t k = 0; k < docs.size() && !found; ++k) {
      auto const& d = docs[k];
      if(used[k] || d.gens.size() != term.monomial.size()) continue;
      bool ok = Sc<typename E::scalar_type>::to(term.coeff) == d.coeff;
      for(std::size_t i = 0; ok && i < d.gens.size(); ++i) {
        auto const& x = term.monomial[i];
        auto const& [alg, mult, comp] = d.gens[i];
        MUST(x.indices() == t, name, ": indices in ", e);
        ok = ok && matches(x, alg, mult, comp);
      }
      if(ok) used[k] = found = true;
    }
    MUST(found, name, " gives ", e);
  }
}
CQ const half = q(1, 2);

#define NAMED(NS, T, TUP, ...)                                                                     \
  do {                                                                                             \
    is(NS::c_dag<T>(__VA_ARGS__), {{CQ(1), {{F, 0, 1}}}}, TUP, "c_dag");                           \
    is(NS::c<T>(__VA_ARGS__), {{CQ(1), {{F, 0, 0}}}}, TUP, "c");                                   \
    is(NS::n<T>(__VA_ARGS__), {{CQ(1), {{F, 0, 1}, {F, 0, 0}}}}, TUP, "n");                        \
    is(NS::a_dag<T>(__VA_ARGS__), {{CQ(1), {{B, 0, 1}}}}, TUP, "a_dag");                           \
    is(NS::a<T>(__VA_ARGS__), {{CQ(1), {{B, 0, 0}}}}, TUP, "a");                                   \
    is(NS::S_p<T>(__VA_ARGS__), {{CQ(1), {{S, 2, P}}}}, TUP, "S_p");                               \
    is(NS::S_m<T>(__VA_ARGS__), {{CQ(1), {{S, 2, M}}}}, TUP, "S_m");                               \
    is(NS::S_z<T>(__VA_ARGS__), {{CQ(1), {{S, 2, Z}}}}, TUP, "S_z");                               \
  } while(0)
#define NAMED_SPIN(NS, MULT, T, TUP, ...)                                                          \
  do {                                                                                             \
    is(NS::S_p<MULT, T>(__VA_ARGS__), {{CQ(1), {{S, MULT, P}}}}, TUP, "S_p");                      \
    is(NS::S_m<MULT, T>(__VA_ARGS__), {{CQ(1), {{S, MULT, M}}}}, TUP, "S_m");                      \
    is(NS::S_z<MULT, T>(__VA_ARGS__), {{CQ(1), {{S, MULT, Z}}}}, TUP, "S_z");                      \
    is(NS::S_x<MULT>(__VA_ARGS__), {{half, {{S, MULT, P}}}, {half, {{S, MULT, M}}}}, TUP, "S_x");  \
    is(NS::S_y<MULT>(__VA_ARGS__),                                                                 \
       {{CQ(0, q(-1, 2)), {{S, MULT, P}}}, {CQ(0, half.re), {{S, MULT, M}}}}, TUP, "S_y");         \
  } while(0)
#define NAMED_XY(NS, TUP, ...)                                                                     \
  do {                                                                                             \
    is(NS::S_x(__VA_ARGS__), {{half, {{S, 2, P}}}, {half, {{S, 2, M}}}}, TUP, "S_x");              \
    is(NS::S_y(__VA_ARGS__),                                                                       \
       {{CQ(0, q(-1, 2)), {{S, 2, P}}}, {CQ(0, half.re), {{S, 2, M}}}}, TUP, "S_y");               \
  } while(0)

using cd = std::complex<double>;

template <typename D> std::tuple<D> one(D d) { return std::tuple<D>(std::move(d)); }

} // namespace

