// Operators as sums of words, their exact matrices and reference partitions of small Hilbert spaces
#pragma once
#include "op.hpp"
#include <list>

namespace bridge {

using Sum = std::vector<std::pair<CQ, model::Word>>;

inline std::string str(Sum const& s) {
  std::string r;
  for(auto const& t : s)
    r += (r.empty() ? "" : " + ") + pbt::cat(t.first) + "." + model::str(t.second);
  return r.empty() ? "0" : r;
}
// Adjoint of a word: adjoint generators in the opposite order
inline model::Word dagger(model::Word w) {
  std::reverse(w.begin(), w.end());
  for(auto& x : w) {
    if(x.alg == model::S)
      x.comp = x.comp == model::P ? model::M : x.comp == model::M ? model::P : x.comp;
    else
      x.comp = 1 - x.comp;
  }
  return w;
}
inline Sum dagger(Sum s) {
  for(auto& t : s) {
    t.first.im = -t.first.im;
    t.second = dagger(t.second);
  }
  return s;
}
inline Sum operator+(Sum a, Sum const& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
template <typename I, typename T> typename I::template expr<T> to_expr(Pool<I> const& pool, Sum const& s) {
  typename I::template expr<T> e;
  for(auto const& t : s) {
    typename I::template expr<T> x(Sc<T>::from(t.first));
    for(auto const& y : t.second)
      x *= gen_expr<I, T>(pool, y);
    e += x;
  }
  return e;
}

// A generator that raises (or lowers) the mode of a random prototype
inline GS gen_ladder(pbt::Gen& g, model::World const& w, bool up) {
  GS x = g.pick(w.protos);
  if(x.alg == model::S)
    x.comp = up ? model::P : model::M;
  else
    x.comp = up ? 1 : 0;
  return x;
}
inline model::Word gen_word(pbt::Gen& g, model::World const& w) {
  model::Word r;
  switch(g.weighted({5, 3, 2, 1})) {
  case 0: // Hopping
    r = {gen_ladder(g, w, true), gen_ladder(g, w, false)};
    break;
  case 1: { // Density-density
    for(int k = 0; k < 2; ++k) {
      GS x = gen_ladder(g, w, true);
      if(x.alg == model::S) {
        x.comp = model::Z;
        r.push_back(x);
      } else {
        auto y = x;
        y.comp = 0;
        r.push_back(x);
        r.push_back(y);
      }
    }
    break;
  }
  case 2: // Two particles
    r = {gen_ladder(g, w, true), gen_ladder(g, w, true), gen_ladder(g, w, false), gen_ladder(g, w, false)};
    break;
  default: {
    int n = 1 + int(g.below(3));
    for(int i = 0; i < n; ++i)
      r.push_back(gen_gs(g, w));
  }
  }
  return r;
}
// Sometimes, terms with small coefficients, down to 2^-max
template <typename T> void shrink(pbt::Gen& g, Sum& s, int max = 36) {
  if constexpr(!std::is_integral<T>::value)
    if(g.chance(1, 5))
      for(auto& t : s)
        if(g.flip()) {
          mpz_class d(1);
          d <<= static_cast<unsigned long>(g.range(1, max));
          t.first.re /= d;
          t.first.im /= d;
        }
}
template <typename T> Sum gen_hamiltonian(pbt::Gen& g, model::World const& w, int max_terms = 4) {
  Sum s;
  int n = int(g.below(std::uint64_t(max_terms) + 1));
  for(int i = 0; i < n; ++i)
    s.push_back({gen_scalar<T>(g, true), gen_word(g, w)});
  shrink<T>(g, s);
  return s + dagger(s);
}

// Exact nonzero matrix elements; checks them against the operator's action. Cases where rounding
// errors leave a nonzero amplitude where the exact one vanishes are outside of what can be compared.
using Elements = std::map<std::pair<u64, u64>, cplx>;
template <typename I, typename T, typename Op>
Elements elements(OpSpace<I> const& s, typename I::template expr<T> const& e, Sum const& sum, Op const& op) {
  auto ts = terms<I, T>(s.pool, e);
  Elements r;
  for(u64 st : s.L.all()) {
    RefVec want;
    ref_column(
        want, s.L, st, 1,
        [&](std::vector<model::Mode> const& m, model::State const& in) {
          model::State out;
          for(auto const& t : sum)
            for(auto const& p : model::act(t.second, t.first, m, in))
              model::add_to(out, p.first, p.second);
          return out;
        },
        ts);
    std::vector<T> in(std::size_t(s.hs.vec_size()), T(0));
    in[std::size_t(st)] = T(1);
    auto out = op(in);
    compare(dense_map(out), want, "column");
    for(std::size_t i = 0; i < out.size(); ++i) {
      auto it = want.v.find(i);
      bool exact = it != want.v.end() && it->second != cplx(0);
      if(exact == lc::scalar_traits<T>::is_zero(out[i])) throw pbt::Discard{};
      if(exact) r[{i, st}] = it->second;
    }
  }
  return r;
}
template <typename T>
void compare_elements(lc::matrix_elements_map<T> const& got, Elements const& want, char const* what) {
  MUST(got.size() == want.size(), what, ": ", got.size(), " matrix elements instead of ", want.size());
  for(auto const& p : want) {
    auto it = got.find(p.first);
    MUST(it != got.end(), what, ": matrix element ", p.first.first, ",", p.first.second, " is missing");
    MUST(std::abs(as_cplx(it->second) - p.second) <= 1e-10 * (1 + std::abs(p.second)), what, ": matrix element ",
         p.first.first, ",", p.first.second, " is ", as_cplx(it->second), " instead of ", p.second);
  }
}

// Partition of a set of states
struct Blocks {
  std::map<u64, u64> parent;
  explicit Blocks(std::vector<u64> const& states) {
    for(u64 s : states)
      parent[s] = s;
  }
  u64 find(u64 x) const {
    while(parent.at(x) != x)
      x = parent.at(x);
    return x;
  }
  bool join(u64 a, u64 b) {
    a = find(a);
    b = find(b);
    if(a == b) return false;
    parent[std::max(a, b)] = std::min(a, b);
    return true;
  }
  std::size_t count() const {
    std::size_t n = 0;
    for(auto const& p : parent)
      n += p.first == p.second;
    return n;
  }
};
// Finest coarsening that every operator maps block to block
inline void close(Blocks& b, std::vector<Elements const*> const& ops) {
  for(bool again = true; again;) {
    again = false;
    for(auto const* op : ops) {
      std::map<u64, u64> target;
      for(auto const& p : *op) {
        auto r = target.emplace(b.find(p.first.second), p.first.first);
        if(!r.second && b.join(r.first->second, p.first.first)) again = true;
      }
    }
  }
}

// Everything a partition reports agrees with the reference one
template <typename SP> std::map<u64, u64> check_partition(SP const& sp, std::vector<u64> const& states, Blocks const& want) {
  MUST(sp.n_subspaces() == want.count(), sp.n_subspaces(), " subspaces instead of ", want.count());
  std::map<u64, u64> got, root_of;
  for(u64 s : states) {
    u64 k = sp[s];
    MUST(k < sp.n_subspaces(), "state ", s, " belongs to subspace ", k, " of ", sp.n_subspaces());
    got[s] = k;
    auto r = root_of.emplace(k, want.find(s));
    MUST(r.first->second == want.find(s), "states ", r.first->second, " and ", s, " share a subspace");
  }
  // With equal numbers of classes one inclusion is enough, provided that every number is used
  MUST(root_of.size() == want.count(), "unused subspace numbers");
  std::map<u64, u64> seen;
  foreach(sp, [&](lc::sv_index_type n, lc::sv_index_type k) {
    MUST(seen.emplace(n, k).second, "state ", n, " was visited twice");
  });
  MUST(seen == got, "foreach() disagrees with operator[]");
  auto bases = sp.subspace_bases();
  MUST(bases.size() == sp.n_subspaces(), "number of bases");
  std::map<u64, u64> from_bases;
  for(std::size_t k = 0; k < bases.size(); ++k) {
    for(u64 s : bases[k])
      MUST(from_bases.emplace(s, k).second, "state ", s, " is listed twice");
    MUST(sp.subspace_basis(k) == bases[k], "subspace_basis(", k, ")");
  }
  MUST(from_bases == got, "subspace_bases() disagrees with operator[]");
  MUST_THROW(std::runtime_error, sp.subspace_basis(sp.n_subspaces()));
  return got;
}
inline lc::connections_map connections(std::map<u64, u64> const& number, Elements const& e) {
  lc::connections_map r;
  for(auto const& p : e)
    r.emplace(number.at(p.first.second), number.at(p.first.first));
  return r;
}

} // namespace bridge
