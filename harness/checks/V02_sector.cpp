// PBT rule: spaces of up to 63 fermions among other elementary spaces of power-of-two dimensions, every fermion number, 15 ranking types; sectors of up to 3000 states are enumerated completely, bigger ones are sampled against the exact rank and enumerated up to a limit; non-trivial = 0 < N < M and more than two modes
#include "sectors.hpp"
using namespace bridge;

namespace {

template <typename I> void exhaustive(pbt::Gen& g, pbt::Ctx& ctx) {
  unsigned M = unsigned(g.len(0, 12));
  auto s = gen_fspace<I>(g, M, g.flip() ? 0 : 3, int(M) + 2);
  M = s.M;
  if(s.L.bits == 0) throw pbt::Discard{};
  unsigned N = unsigned(g.below(M + 1));
  if(choose(M, N) << s.rest_bits() > 3000) throw pbt::Discard{};
  int kind = gen_ranking(g, M);
  ctx << str(s.L.sites) << " N=" << N << " " << ranking_name(kind);
  ctx.nontrivial(N > 0 && N < M && M > 2);
  u64 size = choose(M, N) << s.rest_bits();
  MUST(lc::n_fermion_sector_size(s.hs, N) == size, "size");

  std::set<u64> want;
  u64 fmask = (u64(1) << M) - 1;
  for(u64 n = 0; n < u64(1) << s.L.bits; ++n)
    if(unsigned(__builtin_popcountll(n & fmask)) == N) want.insert(n);
  MUST(want.size() == size);

  auto list = lc::n_fermion_sector_basis_states(s.hs, N);
  MUST(std::set<u64>(list.begin(), list.end()) == want && list.size() == size, "basis states");

  with_ranking(kind, [&](auto tag) {
    using R = typename decltype(tag)::type;
    using sv = std::vector<long>;
    sv st(size);
    for(u64 i = 0; i < size; ++i)
      st[i] = long(i) + 1;
    auto check = [&](auto const& v) {
      for(u64 i = 0; i < size; ++i)
        MUST(v.map_index(list[i]) == i, "position of state ", list[i]);
      u64 k = 0;
      foreach(v, [&](lc::sv_index_type n, long a) {
        MUST(k < size && n == list[k] && u64(a) == k + 1, "visited state ", n, " with amplitude ", a, " at step ", k);
        ++k;
      });
      MUST(k == size, "visited ", k, " states of ", size);
    };
    lc::n_fermion_sector_view<sv, true, R> v(st, s.hs, N);
    check(v);
    switch(g.below(6)) {
    case 0: {
      lc::n_fermion_sector_view<sv const, true, R> c(st, s.hs, N);
      check(c);
      break;
    }
    case 1: {
      lc::n_fermion_sector_view<sv, false, R> c(sv(st), s.hs, N);
      check(c);
      auto d = std::move(c);
      check(d);
      break;
    }
    case 2: {
      auto w = std::make_unique<lc::n_fermion_sector_view<sv, true, R>>(v);
      auto x = *w;
      w.reset();
      check(x);
      break;
    }
    case 3: check(lc::make_nfs_view(st, s.hs, N)); break;
    case 4: {
      // A view with default template arguments refers to the original vector
      lc::n_fermion_sector_view<sv> c(st, s.hs, N);
      check(c);
      update_add_element(c, list[size - 1], 1L);
      MUST(st[size - 1] == long(size) + 1, "the view refers to the original vector");
      st[size - 1] = long(size);
      break;
    }
    default: check(lc::make_const_nfs_view(sv(st), s.hs, N));
    }
    // Nested and interrupted enumerations
    u64 stop = g.below(size), outer = 0;
    try {
      foreach(v, [&](lc::sv_index_type, long) {
        if(outer++ == stop) throw virt::Stop{};
      });
    } catch(virt::Stop const&) {
    }
    check(v);
    outer = 0;
    foreach(v, [&](lc::sv_index_type n, long) {
      MUST(outer < size && n == list[outer], "enumeration with another one nested in it, step ", outer);
      if(outer == stop) check(v);
      ++outer;
    });
    MUST(outer == size, "enumeration with another one nested in it");
    // Elements
    u64 k = g.below(size);
    MUST(get_element(v, list[k]) == long(k) + 1);
    update_add_element(v, list[k], 10L);
    for(u64 i = 0; i < size; ++i)
      MUST(st[i] == long(i) + 1 + (i == k ? 10 : 0), "amplitude ", i, " after an update of ", k);
    set_zeros(v);
    update_add_element(v, list[k], 3L);
    u64 cnt = 0;
    foreach(v, [&](lc::sv_index_type n, long a) {
      MUST(n == list[k] && a == 3);
      ++cnt;
    });
    MUST(cnt == 1, "zero amplitudes must be skipped");
  });
}

template <typename I> void big(pbt::Gen& g, pbt::Ctx& ctx) {
  unsigned M = unsigned(g.boundary(1, 63));
  int kind = gen_ranking(g, M);
  auto s = gen_fspace<I>(g, M, int(63 - M), 66);
  M = s.M;
  unsigned N = g.flip() ? unsigned(g.below(M + 1)) : unsigned(g.range(M / 2, M - M / 2));
  ctx << str(s.L.sites) << " N=" << N << " " << ranking_name(kind);
  ctx.nontrivial(N > 0 && N < M && M > 2);
  ctx.label_if(M > 32, "more than 32 modes");
  ctx.label(ranking_name(kind));
  int rest = s.rest_bits();
  MUST(lc::n_fermion_sector_size(s.hs, N) == choose(M, N) << rest, "size");
  with_ranking(kind, [&](auto tag) {
    using R = typename decltype(tag)::type;
    virt::Ones ones;
    ones.limit = 200;
    lc::n_fermion_sector_view<virt::Ones, true, R> v(ones, s.hs, N);
    auto check = [&](u64 st, u64 nf) {
      u64 n = st | (nf << M);
      MUST(v.map_index(n) == (sector_rank(st, M, N) << rest) + nf, "position of state ", n);
    };
    auto rest_state = [&]() { return rest ? g.boundary(0, (u64(1) << rest) - 1) : 0; };
    for(int i = 0; i < 8; ++i)
      check(random_sector_state(g, M, N), rest_state());
    u64 k = 0;
    try {
      foreach(v, [&](lc::sv_index_type n, double) {
        MUST(v.map_index(n) == k, "position of state ", n, " visited at step ", k);
        MUST(unsigned(__builtin_popcountll(n & ((u64(1) << M) - 1))) == N, "visited state ", n, " has a wrong number of fermions");
        MUST(s.L.bits > 62 || n >> s.L.bits == 0, "state ", n);
        ++k;
      });
    } catch(virt::Stop const&) {
    }
    MUST(k == std::min<u64>(ones.limit, choose(M, N) << rest), "visited ", k, " states");
  });
}

} // namespace

PROP(exhaustive_int, 30000, 600000) { exhaustive<IdxInt>(g, ctx); }
PROP(exhaustive_dyn, 10000, 200000) { exhaustive<IdxDyn>(g, ctx); }
PROP(sampled, 8000, 160000) { big<IdxInt>(g, ctx); }

// Every M and N for which tables are small, every ranking type
PROP(all_small, 4000, 30000) {
  unsigned M = unsigned(g.below(13));
  unsigned N = unsigned(g.below(M + 1));
  int kind = int(g.below(n_rankings));
  ctx << "M=" << M << " N=" << N << " " << ranking_name(kind);
  ctx.nontrivial(N > 0 && N < M && M > 2);
  lc::hilbert_space<int> hs;
  for(unsigned i = 0; i < M; ++i)
    hs.add(lc::elementary_space_fermion<int>(int(i)));
  with_ranking(kind, [&](auto tag) {
    lc::detail::n_fermion_sector_params_t p(hs, N);
    typename decltype(tag)::type r(p);
    for(u64 st = 0; st < u64(1) << M; ++st)
      if(unsigned(__builtin_popcountll(st)) == N) MUST(r(st) == sector_rank(st, M, N), "state ", st);
  });
}

// Spaces without any elementary spaces
PROP(empty_space, 200, 400) {
  unsigned N = unsigned(g.below(3));
  ctx << "N=" << N;
  lc::hilbert_space<int> hs;
  ctx.nontrivial(true);
  auto size = lc::n_fermion_sector_size(hs, N);
  if(N > 0) {
    MUST(size == 0);
    return;
  }
  MUST(lc::n_fermion_sector_basis_states(hs, N).size() == size, "number of states is not ", size);
}

PROP(rejected, 4000, 80000) {
  unsigned M = unsigned(g.len(0, 12));
  bool sparse = g.flip();
  auto s = gen_fspace<IdxInt>(g, M, 3, int(M) + 2, sparse);
  sparse = s.hs.is_sparse();
  M = s.M;
  unsigned N = unsigned(g.below(M + 3));
  if(g.chance(1, 10)) N = unsigned(g.boundary(0, 0xffffffffu));
  ctx << str(s.L.sites) << " N=" << N;
  if(s.L.bits == 0) throw pbt::Discard{};
  ctx.nontrivial(sparse || N > M);
  std::vector<double> v(sparse || N > M ? 0 : choose(M, N) << s.rest_bits());
  with_ranking(gen_ranking(g, M), [&](auto tag) {
    using V = lc::n_fermion_sector_view<std::vector<double>, true, typename decltype(tag)::type>;
    if(sparse || N > M)
      MUST_THROW(std::runtime_error, V(v, s.hs, N));
    else
      V(v, s.hs, N);
  });
  if(sparse)
    MUST_THROW(std::runtime_error, lc::n_fermion_sector_size(s.hs, N));
  else
    MUST(lc::n_fermion_sector_size(s.hs, N) == (N > M ? 0 : choose(M, N) << s.rest_bits()));
  if(sparse || N > M)
    MUST_THROW(std::runtime_error, lc::n_fermion_sector_basis_states(s.hs, N));
}
