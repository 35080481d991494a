// Long products over dozens of modes and sums of hundreds of terms
#pragma once
#include "lib.hpp"
#include <set>

namespace bridge {

struct Big {
  model::World w;
  int n_idx = 1;
};
// Distinct modes of all kinds. 'half': spins 1/2, which make rational structure constants
inline Big gen_big(pbt::Gen& g, int max_modes, bool half) {
  Big b;
  int n = int(g.range(4, max_modes));
  b.n_idx = int(g.range(n / 3 + 1, n));
  b.w.n_idx = b.n_idx;
  int wf = int(g.range(0, 3)), wb = int(g.range(0, 2)), ws = int(g.range(0, 2));
  if(wf + wb + ws == 0) wf = 1;
  std::set<model::Mode> seen;
  for(int i = 0; i < n; ++i) {
    GS x;
    x.alg = int(g.weighted({unsigned(wf), unsigned(wb), unsigned(ws)}));
    x.idx = int(g.below(std::uint64_t(b.n_idx)));
    if(x.alg == model::S) x.mult = int(g.range(half ? 2 : 3, 7));
    if(seen.insert(model::mode_of(x)).second) b.w.protos.push_back(x);
  }
  return b;
}
// Every mode at most once, but for a few repetitions
inline model::Word big_word(pbt::Gen& g, model::World const& w, int max_len, int repeats) {
  auto ps = g.shuffled(w.protos);
  int n = int(g.range(1, std::min<int>(max_len, int(ps.size()))));
  ps.resize(std::size_t(n));
  for(int i = 0; i < repeats; ++i)
    ps.insert(ps.begin() + long(g.below(ps.size() + 1)), ps[std::size_t(g.below(ps.size()))]);
  for(auto& x : ps)
    x.comp = int(g.below(x.alg == model::S ? 3 : 2));
  return ps;
}
inline model::Canon word_canon(model::Word const& w, CQ const& c) {
  model::Canon r{{model::Word{}, c}};
  if(c.zero()) return {};
  for(auto const& x : w)
    r = model::mul_right(r, x);
  return r;
}
// Largest power of S+- of any mode stays below its multiplicity, so that canonical forms are unique
inline bool unique_form(model::Word const& w) {
  std::map<model::Mode, int> n;
  for(auto const& x : w)
    if(x.alg == model::S && x.mult > 2 && x.comp != model::Z && ++n[model::mode_of(x)] >= x.mult) return false;
  return true;
}
template <typename T> using WordSum = std::vector<std::pair<CQ, model::Word>>;
template <typename T> WordSum<T> big_sum(pbt::Gen& g, model::World const& w, int n, int max_len) {
  WordSum<T> s;
  for(int i = 0; i < n; ++i) {
    model::Word wd;
    int l = int(g.range(0, max_len));
    for(int k = 0; k < l; ++k)
      wd.push_back(gen_gs(g, w));
    if(!unique_form(wd)) continue;
    s.push_back({gen_scalar<T>(g, true), wd});
  }
  return s;
}
template <typename T> model::Canon sum_canon(WordSum<T> const& s) {
  model::Canon r;
  for(auto const& t : s)
    for(auto const& p : word_canon(t.second, t.first))
      model::add_to(r, p.first, p.second);
  return r;
}
template <typename I, typename T> typename I::template expr<T> word_expr(Pool<I> const& pool, model::Word const& w, CQ const& c) {
  typename I::template expr<T> x(Sc<T>::from(c));
  for(auto const& y : w)
    x *= gen_expr<I, T>(pool, y);
  return x;
}
template <typename I, typename T> typename I::template expr<T> sum_expr(Pool<I> const& pool, WordSum<T> const& s) {
  typename I::template expr<T> e;
  for(auto const& t : s)
    e += word_expr<I, T>(pool, t.second, t.first);
  return e;
}
// The expression holds exactly these terms, in the documented order
template <typename I, typename T>
void must_be(Pool<I> const& pool, typename I::template expr<T> const& e, model::Canon const& want, std::string const& what) {
  auto got = terms<I, T>(pool, e);
  MUST(got.size() == want.size() && e.size() == want.size(), what, " has ", got.size(), " terms instead of ", want.size());
  std::size_t i = 0;
  for(auto const& p : want) {
    MUST(got[i].first == p.first, what, ": monomial ", i, " is ", model::str(got[i].first), " instead of ", model::str(p.first));
    MUST(got[i].second == p.second, what, ": coefficient of ", model::str(p.first), " is ", got[i].second, " instead of ", p.second);
    ++i;
  }
}

} // namespace bridge
