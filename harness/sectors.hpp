// Fermionic sectors: exact combinatorics, ranking types chosen at run time, big virtual vectors
#pragma once
#include "op.hpp"
#include "user_space.hpp"

namespace virt {
// A state vector of any size whose amplitudes are all equal to one; reading from it stops
// the enumeration after 'limit' amplitudes.
struct Stop {};
struct Ones {
  std::uint64_t limit = 0;
};
inline double get_element(Ones const& v, std::uint64_t n) {
  if(n >= v.limit) throw Stop{};
  return 1.0;
}
} // namespace virt
namespace libcommute {
template <> struct element_type<virt::Ones> {
  using type = double;
};
} // namespace libcommute

namespace bridge {

// C(n, k), exact for n <= 64 (C(64,32) < 2^64)
inline u64 choose(unsigned n, unsigned k) {
  static const auto table = [] {
    std::vector<std::vector<u64>> t(65, std::vector<u64>(66, 0));
    for(unsigned i = 0; i <= 64; ++i) {
      t[i][0] = 1;
      for(unsigned j = 1; j <= i; ++j)
        t[i][j] = t[i - 1][j - 1] + t[i - 1][j];
    }
    return t;
  }();
  return k > n ? 0 : table[n][k];
}
// Position of the set bits of st in the colexicographic order of states with as many set bits
inline u64 colex(u64 st) {
  u64 r = 0;
  unsigned k = 0;
  for(unsigned i = 0; i < 64; ++i)
    if(st >> i & 1) r += choose(i, ++k);
  return r;
}
// Order of enumeration: ascending for less than half filling, otherwise ascending in the holes
inline u64 sector_rank(u64 st, unsigned M, unsigned N) {
  return N <= M / 2 ? colex(st) : colex(st ^ ((u64(1) << M) - 1));
}
inline u64 random_sector_state(pbt::Gen& g, unsigned M, unsigned N) {
  u64 st = 0;
  switch(g.below(4)) {
  case 0: { // one run of particles
    unsigned off = unsigned(g.below(M - N + 1));
    for(unsigned i = 0; i < N; ++i)
      st |= u64(1) << (i + off);
    return st;
  }
  case 1: { // a run of holes
    unsigned h = M - N, off = unsigned(g.below(N + 1));
    st = (u64(1) << M) - 1;
    for(unsigned i = 0; i < h; ++i)
      st &= ~(u64(1) << (i + off));
    return st;
  }
  default: {
    unsigned left = N;
    for(unsigned i = 0; i < M; ++i)
      if(g.below(M - i) < left) {
        st |= u64(1) << i;
        --left;
      }
    return st;
  }
  }
}

template <typename T> struct Tag {
  using type = T;
};
// M: number of modes ranked, which limits the affordable table sizes
constexpr int n_rankings = 15;
inline bool ranking_affordable(int kind, unsigned M) {
  if(kind <= 6) return true;
  if(kind <= 8) return M <= 63; // staggered<8>, staggered<11>
  return M <= 18;               // tries allocate 2^(M+1) entries
}
template <typename F> void with_ranking(int kind, F&& f) {
  using namespace lc;
  switch(kind) {
  case 0: return f(Tag<combination_ranking>{});
  case 1: return f(Tag<staggered_ranking<1>>{});
  case 2: return f(Tag<staggered_ranking<2>>{});
  case 3: return f(Tag<staggered_ranking<3>>{});
  case 4: return f(Tag<staggered_ranking<4>>{});
  case 5: return f(Tag<staggered_ranking<5>>{});
  case 6: return f(Tag<staggered_ranking<7>>{});
  case 7: return f(Tag<staggered_ranking<8>>{});
  case 8: return f(Tag<staggered_ranking<11>>{});
  case 9: return f(Tag<trie_ranking<1>>{});
  case 10: return f(Tag<trie_ranking<2>>{});
  case 11: return f(Tag<trie_ranking<3>>{});
  case 12: return f(Tag<trie_ranking<4>>{});
  case 13: return f(Tag<trie_ranking<5>>{});
  default: return f(Tag<trie_ranking<9>>{});
  }
}
inline char const* ranking_name(int kind) {
  static char const* const n[] = {"comb", "stag1", "stag2", "stag3", "stag4", "stag5", "stag7", "stag8",
                                  "stag11", "trie1", "trie2", "trie3", "trie4", "trie5", "trie9"};
  return n[kind];
}
inline int gen_ranking(pbt::Gen& g, unsigned M) {
  int k = int(g.below(n_rankings));
  return ranking_affordable(k, M) ? k : int(g.below(7));
}

// A space with M fermions and other elementary spaces of power-of-two dimensions
template <typename I> struct FSpace {
  Pool<I> pool;
  Layout L;
  typename ST<I>::hs hs;
  unsigned M = 0;
  int rest_bits() const { return L.bits - int(M); }
};
template <typename I>
FSpace<I> gen_fspace(pbt::Gen& g, unsigned M, int max_rest_bits, int n_idx, bool sparse = false) {
  FSpace<I> r;
  r.pool = Pool<I>(g, n_idx);
  std::vector<int> idx;
  for(int i = 0; i < int(r.pool.v.size()); ++i)
    idx.push_back(i);
  idx = g.shuffled(idx);
  std::vector<Site> v;
  for(unsigned i = 0; i < M && i < idx.size(); ++i)
    v.push_back(site({model::F, 0, idx[i]}, 0));
  r.M = unsigned(v.size());
  int bits = 0;
  int n = g.len(0, 4);
  for(int i = 0; i < n; ++i) {
    Site s = gen_any_site(g, int(idx.size()), 2);
    if(s.m.alg == model::F) continue;
    int b = int(g.boundary(0, std::min<u64>(u64(max_rest_bits - bits), s.m.alg == model::S ? 5 : 40)));
    if(s.m.alg == model::S) {
      b = std::max(b, 1);
      s.m.mult = 1 << b;
    }
    s.dim = u64(1) << b;
    bool dup = false;
    for(auto const& x : v)
      dup |= x.m == s.m;
    if(dup || bits + b > max_rest_bits) continue;
    bits += b;
    v.push_back(s);
  }
  if(sparse) {
    for(int alg : {int(model::B), int(model::S)}) {
      Site s = site({alg, alg == model::S ? 3 : 0, int(idx.size()) - 1}, 3);
      bool dup = false;
      for(auto const& x : v)
        dup |= x.m == s.m;
      if(!dup) {
        v.push_back(s);
        break;
      }
    }
  }
  v = g.shuffled(v);
  r.L = Layout(v);
  for(auto const& s : v)
    r.hs.add(*make_any_space<I>(r.pool, s));
  return r;
}

} // namespace bridge
