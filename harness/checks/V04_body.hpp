#pragma once
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "partition.hpp"
#include "sectors.hpp"
using namespace bridge;
using lc::get_element;

namespace {

struct Setup {
  std::vector<std::vector<int>> groups; // bits of the fermionic modes
  std::vector<unsigned> from, to;
  std::vector<u64> src, dst; // basis states
};

u64 mask_of(std::vector<int> const& bits) {
  u64 m = 0;
  for(int b : bits)
    m |= u64(1) << b;
  return m;
}
int group_of(Setup const& u, int bit) {
  for(std::size_t i = 0; i < u.groups.size(); ++i)
    for(int b : u.groups[i])
      if(b == bit) return int(i);
  return -1;
}

// Words that change the numbers of fermions in the groups as the first one does
template <typename I, typename T> Sum gen_op(pbt::Gen& g, FSpace<I> const& s, Setup const& u, std::vector<int>& delta) {
  auto gs_of = [&](std::size_t site, int comp) {
    GS x;
    auto const& m = s.L.sites[site].m;
    x.alg = m.alg;
    if(m.alg == model::S) x.mult = m.mult;
    x.idx = m.idx;
    x.comp = comp;
    return x;
  };
  std::vector<std::size_t> known; // all but user-defined spaces
  for(std::size_t i = 0; i < s.L.sites.size(); ++i)
    if(s.L.sites[i].m.alg <= model::S) known.push_back(i);
  auto any = [&]() -> std::size_t { return g.pick(known); };
  model::Word base;
  int n = int(g.below(4));
  delta.assign(u.groups.size(), 0);
  for(int i = 0; i < n; ++i) {
    auto k = any();
    int c = int(g.below(s.L.sites[k].m.alg == model::S ? 3 : 2));
    base.push_back(gs_of(k, c));
    if(s.L.sites[k].m.alg == model::F) {
      int gr = group_of(u, int(k));
      if(gr >= 0) delta[std::size_t(gr)] += c ? 1 : -1;
    }
  }
  Sum r;
  int terms = 1 + int(g.below(5));
  for(int t = 0; t < terms; ++t) {
    model::Word w;
    int f = int(g.below(3));
    for(int i = 0; i < f; ++i) {
      auto k = any();
      auto const& x = s.L.sites[k];
      if(x.m.alg == model::F) {
        // Hopping inside of the group
        int gr = group_of(u, int(k));
        std::vector<std::size_t> peers;
        for(unsigned b = 0; b < s.M; ++b)
          if(group_of(u, int(b)) == gr) peers.push_back(b);
        w.push_back(gs_of(k, 1));
        w.push_back(gs_of(g.pick(peers), 0));
      } else
        w.push_back(gs_of(k, int(g.below(x.m.alg == model::S ? 3 : 2))));
    }
    if(g.flip())
      w.insert(w.end(), base.begin(), base.end());
    else
      w.insert(w.begin(), base.begin(), base.end());
    r.push_back({gen_scalar<T>(g, true), w});
  }
  return r;
}

// Fewer types than in the checks of rankings themselves
constexpr int n_kinds = 5;
template <typename F> void with_kind(int kind, F&& f) {
  using namespace lc;
  switch(kind) {
  case 0: return f(Tag<combination_ranking>{});
  case 1: return f(Tag<staggered_ranking<2>>{});
  case 2: return f(Tag<staggered_ranking<5>>{});
  case 3: return f(Tag<trie_ranking<2>>{});
  default: return f(Tag<trie_ranking<3>>{});
  }
}
char const* const kind_name[] = {"comb", "stag2", "stag5", "trie2", "trie3"};

template <typename I, typename T> struct Case {
  FSpace<I> s;
  Setup u;
  bool multi;
  Sum sum;
  std::vector<T> full, image;
  std::vector<double> scale;

  Case(pbt::Gen& g, pbt::Ctx& ctx, bool multi) : multi(multi) {
    bool big = g.chance(1, 1000);
    unsigned M = big ? unsigned(g.range(8, 11)) : unsigned(g.len(1, 8));
    s = gen_fspace<I>(g, M, std::max(0, (big ? 12 : 9) - int(M)), int(M) + 2);
    u.groups.resize(multi ? std::size_t(1 + g.below(big ? 8 : 4)) : 1);
    for(unsigned b = 0; b < s.M; ++b) {
      std::size_t k = multi ? std::size_t(g.below(u.groups.size() + (g.chance(1, 3) ? 1 : 0))) : 0;
      if(k < u.groups.size()) u.groups[k].push_back(int(b));
    }
    std::vector<int> delta;
    sum = gen_op<I, T>(g, s, u, delta);
    for(std::size_t i = 0; i < u.groups.size(); ++i) {
      int m = int(u.groups[i].size()), d = delta[i];
      int lo = std::max(0, -d), hi = std::min(m, m - d);
      if(lo > hi) throw pbt::Discard{};
      u.from.push_back(unsigned(g.range(lo, hi)));
      u.to.push_back(unsigned(int(u.from.back()) + d));
    }
    ctx << str(s.L.sites);
    for(std::size_t i = 0; i < u.groups.size(); ++i) {
      ctx << " {";
      for(int b : u.groups[i])
        ctx << b << ",";
      ctx << " " << u.from[i] << "->" << u.to[i] << "}";
    }
    ctx << " " << str(sum);
    auto e = to_expr<I, T>(s.pool, sum);
    auto ts = terms<I, T>(s.pool, e);
    auto op = lc::make_loperator(e, s.hs);
    u64 size = u64(1) << s.L.bits;
    full.assign(std::size_t(size), T(0));
    scale.assign(std::size_t(size), 0);
    auto modes = s.L.modes();
    for(u64 n = 0; n < size; ++n) {
      bool in = true, out = true;
      for(std::size_t i = 0; i < u.groups.size(); ++i) {
        unsigned c = unsigned(__builtin_popcountll(n & mask_of(u.groups[i])));
        in &= c == u.from[i];
        out &= c == u.to[i];
      }
      if(in) {
        u.src.push_back(n);
        T a = Sc<T>::from(gen_scalar<T>(g));
        full[std::size_t(n)] = a;
        for(auto const& t : ts)
          for(auto const& p : model::act(t.first, t.second, modes, model::State{{to_occ(s.L, n), CQ(1)}}))
            if(fits(s.L, p.first))
              scale[std::size_t(to_index(s.L, p.first))] +=
                  std::abs(a) * (std::abs(p.second.re.get_d()) + std::abs(p.second.im.get_d())) *
                  root(weight_ratio(modes, p.first, to_occ(s.L, n)));
      }
      if(out) u.dst.push_back(n);
    }
    image = op(full);
    bool nz = false;
    for(auto const& x : image)
      nz |= std::abs(x) > 1e-9;
    ctx.nontrivial(nz && u.src.size() >> s.rest_bits() > 1);
    ctx.label_if(u.from != u.to, "changes the sector");
    run(g, ctx, op);
  }

  auto desc(std::vector<unsigned> const& N) const {
    std::vector<lc::sector_descriptor<typename ST<I>::hs>> d;
    for(std::size_t i = 0; i < u.groups.size(); ++i) {
      lc::sector_descriptor<typename ST<I>::hs> x;
      for(int b : u.groups[i])
        x.indices.insert(tup(s.pool[s.L.sites[std::size_t(b)].m.idx]));
      x.N = N[i];
      d.push_back(x);
    }
    return d;
  }
  template <typename R, typename SV, typename F> void with_view(SV&& sv, std::vector<unsigned> const& N, F&& f) const {
    using B = std::remove_reference_t<SV>;
    constexpr bool Ref = std::is_lvalue_reference_v<SV>;
    if(multi) {
      lc::n_fermion_multisector_view<B, Ref, R> v(std::forward<SV>(sv), s.hs, desc(N));
      f(v);
    } else {
      lc::n_fermion_sector_view<B, Ref, R> v(std::forward<SV>(sv), s.hs, N[0]);
      f(v);
    }
  }
  template <typename Op> void run(pbt::Gen& g, pbt::Ctx& ctx, Op const& op) const {
    int k1 = int(g.below(n_kinds)), k2 = int(g.below(n_kinds));
    int store = int(g.below(4));
    ctx << " " << kind_name[k1] << " -> " << kind_name[k2] << " storage " << store;
    auto size = [&](std::vector<unsigned> const& N) {
      return multi ? lc::n_fermion_multisector_size(s.hs, desc(N)) : lc::n_fermion_sector_size(s.hs, N[0]);
    };
    std::size_t ns = std::size_t(size(u.from)), nd = std::size_t(size(u.to));
    MUST(ns == u.src.size() && nd == u.dst.size(), "sizes of the sectors: ", ns, " and ", nd, " instead of ", u.src.size(), " and ", u.dst.size());
    T const garbage(55);
    // The source, filled through a view of another ranking method
    std::vector<T> src(ns, T(0)), dst(nd, garbage);
    lc::sparse_state_vector<T> ssrc(ns), sdst(nd);
    if(nd) sdst[g.below(nd)] = garbage;
    Eigen::Matrix<T, Eigen::Dynamic, 1> edst(static_cast<Eigen::Index>(nd));
    edst.fill(garbage);
    with_view<lc::combination_ranking>(src, u.from, [&](auto& v) {
      for(u64 n : u.src)
        update_add_element(v, n, full[std::size_t(n)]);
    });
    for(std::size_t i = 0; i < ns; ++i)
      if(src[i] != T(0)) ssrc[i] = src[i];
    auto const& csrc = src;

    auto check = [&](auto const& v, char const* what) {
      for(u64 n : u.dst) {
        T x = get_element(v, n), y = image[std::size_t(n)];
        MUST(std::abs(x - y) <= 1e-11 * (scale[std::size_t(n)] + 1e-3), what, ": amplitude of state ", n, " is ", x,
             " instead of ", y);
      }
      std::map<u64, T> seen;
      foreach(v, [&](lc::sv_index_type n, T const& a) { MUST(seen.emplace(n, a).second, "visited twice"); });
      for(u64 n : u.dst)
        MUST((seen.count(n) ? seen[n] : T(0)) == (lc::scalar_traits<T>::is_zero(get_element(v, n)) ? T(0) : get_element(v, n)),
             what, ": visited amplitude of state ", n);
    };
    with_kind(k2, [&](auto dtag) {
      using R2 = typename decltype(dtag)::type;
      switch(store) {
      case 0:
        with_kind(k1, [&](auto stag) {
          using R1 = typename decltype(stag)::type;
          with_view<R1>(csrc, u.from, [&](auto& sv) {
            with_view<R2>(dst, u.to, [&](auto& dv) {
              op(sv, dv);
              check(dv, "std::vector");
              op(sv, dv);
              check(dv, "std::vector again");
            });
          });
        });
        break;
      case 1:
        with_view<lc::combination_ranking>(ssrc, u.from, [&](auto& sv) {
          with_view<R2>(sdst, u.to, [&](auto& dv) {
            op(sv, dv);
            check(dv, "sparse");
          });
        });
        break;
      case 2:
        with_view<lc::staggered_ranking<3>>(std::vector<T>(src), u.from, [&](auto& sv) {
          with_view<R2>(edst, u.to, [&](auto& dv) {
            op(sv, dv);
            check(dv, "Eigen");
          });
        });
        break;
      default: {
        // Between a sector and the whole space
        std::vector<T> whole(full.size(), garbage);
        with_view<R2>(csrc, u.from, [&](auto& sv) { op(sv, whole); });
        for(std::size_t i = 0; i < whole.size(); ++i)
          MUST(std::abs(whole[i] - image[i]) <= 1e-11 * (scale[i] + 1e-3), "whole space: amplitude of state ", i, " is ",
               whole[i], " instead of ", image[i]);
        with_view<R2>(dst, u.to, [&](auto& dv) {
          op(full, dv);
          check(dv, "from the whole space");
        });
      }
      }
    });
    // Ranks of the destination in memory, by an independent formula
    if(store == 0 && !multi)
      for(u64 n : u.dst) {
        u64 r = (sector_rank(n & ((u64(1) << s.M) - 1), s.M, u.to[0]) << s.rest_bits()) + (n >> s.M);
        MUST(std::abs(dst[std::size_t(r)] - image[std::size_t(n)]) <= 1e-11 * (scale[std::size_t(n)] + 1e-3), "element ", r);
      }
  }
};

} // namespace
