// PBT rule: up to 63 fermions among other elementary spaces of power-of-two dimensions, split at random into up to four interleaved groups (possibly empty) and modes outside every group, every set of fermion numbers, 15 ranking types, copies and moves of views that outlive their originals; small multisectors are enumerated completely, bigger ones are sampled against the exact rank; non-trivial = two or more non-empty groups, at least one of them partially filled
#include "sectors.hpp"
using namespace bridge;

namespace {

struct Group {
  std::vector<int> modes; // positions (bits) of fermions
  unsigned N = 0;
  unsigned M() const { return unsigned(modes.size()); }
  u64 mask() const {
    u64 m = 0;
    for(int b : modes)
      m |= u64(1) << b;
    return m;
  }
};
u64 extract(u64 x, u64 mask) {
  u64 r = 0;
  int k = 0;
  for(int b = 0; b < 64; ++b)
    if(mask >> b & 1) r |= (x >> b & 1) << k++;
  return r;
}
u64 deposit(u64 x, u64 mask) {
  u64 r = 0;
  for(int b = 0; b < 64; ++b)
    if(mask >> b & 1) {
      r |= (x & 1) << b;
      x >>= 1;
    }
  return r;
}

template <typename I> struct Multi {
  FSpace<I> s;
  std::vector<Group> groups;
  std::vector<lc::sector_descriptor<typename ST<I>::hs>> desc;
  u64 rest_mask = 0;
  int rest = 0;
  u64 n_ranks = 1; // number of fermionic configurations
  u64 size() const { return n_ranks << rest; }
  bool contains(u64 n) const {
    for(auto const& x : groups)
      if(unsigned(__builtin_popcountll(n & x.mask())) != x.N) return false;
    return true;
  }
  u64 rank(u64 n) const {
    u64 r = 0;
    for(auto const& x : groups)
      r = r * choose(x.M(), x.N) + sector_rank(extract(n, x.mask()), x.M(), x.N);
    return (r << rest) + extract(n, rest_mask);
  }
  std::string str() const {
    std::string r = bridge::str(s.L.sites);
    for(auto const& x : groups) {
      r += " {";
      for(int b : x.modes)
        r += std::to_string(b) + ",";
      r += " N=" + std::to_string(x.N) + "}";
    }
    return r;
  }
};
template <typename I> typename ST<I>::hs::index_types index_of_mode(FSpace<I> const& s, int bit) {
  return tup(s.pool[s.L.sites[std::size_t(bit)].m.idx]);
}
template <typename I> Multi<I> gen_multi(pbt::Gen& g, unsigned M, int max_rest, int n_idx, unsigned max_group) {
  Multi<I> r;
  r.s = gen_fspace<I>(g, M, max_rest, n_idx);
  int k = g.chance(1, 8) ? int(g.range(5, 20)) : int(g.below(5));
  r.groups.resize(std::size_t(k));
  // Runs of modes in one group, or interleaved ones
  bool runs = g.flip();
  int cur = int(g.below(u64(k) + 1));
  for(unsigned b = 0; b < r.s.M; ++b) {
    if(!runs || g.chance(1, 6)) cur = int(g.below(u64(k) + (g.flip() ? 1 : 0) + (k == 0)));
    if(cur < k && r.groups[std::size_t(cur)].M() < max_group) r.groups[std::size_t(cur)].modes.push_back(int(b));
  }
  r.rest_mask = (u64(1) << r.s.L.bits) - 1;
  r.rest = r.s.L.bits;
  for(auto& x : r.groups) {
    x.N = g.flip() ? unsigned(g.below(x.M() + 1)) : x.M() / 2;
    r.n_ranks *= choose(x.M(), x.N);
    r.rest_mask &= ~x.mask();
    r.rest -= int(x.M());
    lc::sector_descriptor<typename ST<I>::hs> d;
    for(int b : x.modes)
      d.indices.insert(index_of_mode<I>(r.s, b));
    d.N = x.N;
    r.desc.push_back(d);
  }
  return r;
}
template <typename I> void classify(pbt::Ctx& ctx, Multi<I> const& m) {
  int nonempty = 0;
  bool partial = false;
  for(auto const& x : m.groups) {
    nonempty += x.M() > 0;
    partial |= x.N > 0 && x.N < x.M();
  }
  ctx.nontrivial(nonempty > 1 && partial);
  ctx.label_if(nonempty > 2, "three or more groups");
  ctx.label_if(nonempty < int(m.groups.size()), "empty group");
}
template <typename I> int pick_ranking(pbt::Gen& g, Multi<I> const& m) {
  unsigned big = 0;
  for(auto const& x : m.groups)
    big = std::max(big, x.M());
  return gen_ranking(g, big);
}

template <typename I> void exhaustive(pbt::Gen& g, pbt::Ctx& ctx) {
  unsigned M = unsigned(g.len(0, 11));
  auto m = gen_multi<I>(g, M, g.flip() ? 0 : 2, int(M) + 2, 64);
  if(m.s.L.bits == 0) throw pbt::Discard{};
  int kind = pick_ranking<I>(g, m);
  ctx << m.str() << " " << ranking_name(kind);
  classify(ctx, m);
  u64 size = m.size();
  MUST(lc::n_fermion_multisector_size(m.s.hs, m.desc) == size, "size");
  std::set<u64> want;
  for(u64 n = 0; n < u64(1) << m.s.L.bits; ++n)
    if(m.contains(n)) want.insert(n);
  MUST(want.size() == size);
  auto list = lc::n_fermion_multisector_basis_states(m.s.hs, m.desc);
  MUST(std::set<u64>(list.begin(), list.end()) == want && list.size() == size, "basis states");

  with_ranking(kind, [&](auto tag) {
    using R = typename decltype(tag)::type;
    using sv = std::vector<long>;
    using V = lc::n_fermion_multisector_view<sv, true, R>;
    sv st(size);
    for(u64 i = 0; i < size; ++i)
      st[i] = long(i) + 1;
    auto check = [&](auto const& v) {
      for(u64 i = 0; i < size; ++i)
        MUST(v.map_index(list[i]) == i, "position of state ", list[i]);
      u64 k = 0;
      foreach(v, [&](lc::sv_index_type n, long a) {
        MUST(k < size && n == list[k] && u64(a) == k + 1, "visited state ", n, " with amplitude ", a, " at step ", k);
        ++k;
      });
      MUST(k == size, "visited ", k, " states of ", size);
    };
    V v(st, m.s.hs, m.desc);
    check(v);
    switch(g.below(7)) {
    case 0: check(lc::n_fermion_multisector_view<sv const, true, R>(st, m.s.hs, m.desc)); break;
    case 1: {
      lc::n_fermion_multisector_view<sv, false, R> c(sv(st), m.s.hs, m.desc);
      auto d = std::move(c);
      check(d);
      break;
    }
    case 2: {
      // A copy outlives its original
      auto w = std::make_unique<V>(v);
      auto x = std::make_unique<V>(*w);
      w.reset();
      check(*x);
      break;
    }
    case 3: {
      // Views moved around by a growing container
      std::vector<V> vs;
      for(int i = 0; i < 4; ++i)
        vs.push_back(V(st, m.s.hs, m.desc));
      while(vs.size() > 1)
        vs.pop_back();
      check(vs[0]);
      break;
    }
    case 4: check(lc::make_nfms_view(st, m.s.hs, m.desc)); break;
    case 5: {
      // A view with default template arguments refers to the original vector
      lc::n_fermion_multisector_view<sv> c(st, m.s.hs, m.desc);
      check(c);
      update_add_element(c, list[size - 1], 1L);
      MUST(st[size - 1] == long(size) + 1, "the view refers to the original vector");
      st[size - 1] = long(size);
      break;
    }
    default: check(lc::make_const_nfms_view(sv(st), m.s.hs, m.desc));
    }
    u64 stop = g.below(size), outer = 0;
    try {
      foreach(v, [&](lc::sv_index_type, long) {
        if(outer++ == stop) throw virt::Stop{};
      });
    } catch(virt::Stop const&) {
    }
    check(v);
    outer = 0;
    foreach(v, [&](lc::sv_index_type n, long) {
      MUST(outer < size && n == list[outer], "enumeration with another one nested in it, step ", outer);
      if(outer == stop) check(v);
      ++outer;
    });
    MUST(outer == size, "enumeration with another one nested in it");
    u64 k = g.below(size);
    MUST(get_element(v, list[k]) == long(k) + 1);
    update_add_element(v, list[k], 10L);
    for(u64 i = 0; i < size; ++i)
      MUST(st[i] == long(i) + 1 + (i == k ? 10 : 0), "amplitude ", i, " after an update of ", k);
    set_zeros(v);
    update_add_element(v, list[k], 3L);
    u64 cnt = 0;
    foreach(v, [&](lc::sv_index_type n, long a) {
      MUST(n == list[k] && a == 3);
      ++cnt;
    });
    MUST(cnt == 1, "zero amplitudes must be skipped");
  });
}

template <typename I> void big(pbt::Gen& g, pbt::Ctx& ctx) {
  unsigned M = unsigned(g.boundary(2, 63));
  auto m = gen_multi<I>(g, M, int(63 - M), 66, g.flip() ? 64 : 16);
  int kind = pick_ranking<I>(g, m);
  ctx << m.str() << " " << ranking_name(kind);
  classify(ctx, m);
  ctx.label_if(m.s.M > 32, "more than 32 modes");
  ctx.label_if(m.n_ranks >> 31, "more than 2^31 configurations");
  MUST(lc::n_fermion_multisector_size(m.s.hs, m.desc) == m.size(), "size");
  with_ranking(kind, [&](auto tag) {
    using R = typename decltype(tag)::type;
    virt::Ones ones;
    ones.limit = 200;
    lc::detail::multisector_unranking_generator gen(lc::detail::make_sector_params(m.s.hs, m.desc));
    MUST(gen.size() == m.n_ranks, "number of states to be generated is ", gen.size());
    lc::n_fermion_multisector_view<virt::Ones, true, R> v(ones, m.s.hs, m.desc);
    for(int i = 0; i < 8; ++i) {
      u64 n = deposit(g.bits64(), m.rest_mask);
      for(auto const& x : m.groups)
        n |= deposit(random_sector_state(g, x.M(), x.N), x.mask());
      MUST(v.map_index(n) == m.rank(n), "position of state ", n);
    }
    u64 k = 0;
    try {
      foreach(v, [&](lc::sv_index_type n, double) {
        MUST(m.contains(n) && n >> m.s.L.bits == 0, "visited state ", n);
        MUST(v.map_index(n) == k, "position of state ", n, " visited at step ", k);
        ++k;
      });
    } catch(virt::Stop const&) {
    }
    MUST(k == std::min<u64>(ones.limit, m.size()), "visited ", k, " states");
  });
}

} // namespace

PROP(exhaustive_int, 90000, 1800000) { exhaustive<IdxInt>(g, ctx); }
PROP(exhaustive_dyn, 30000, 600000) { exhaustive<IdxDyn>(g, ctx); }
PROP(sampled, 36000, 600000) { big<IdxInt>(g, ctx); }

// Spaces without any elementary spaces
PROP(empty_space, 200, 400) {
  lc::hilbert_space<int> hs;
  std::vector<lc::sector_descriptor<lc::hilbert_space<int>>> ds;
  ctx << "no spaces";
  ctx.nontrivial(true);
  (void)g;
  MUST(lc::n_fermion_multisector_basis_states(hs, ds).size() == lc::n_fermion_multisector_size(hs, ds), "number of states");
}

PROP(rejected, 18000, 360000) {
  unsigned M = unsigned(g.len(1, 9));
  auto s = gen_fspace<IdxInt>(g, M, 3, int(M) + 3, g.chance(1, 4));
  using hs_t = ST<IdxInt>::hs;
  std::vector<lc::sector_descriptor<hs_t>> ds(std::size_t(g.below(4)));
  bool sparse = s.hs.is_sparse(), unknown = false, overlap = false, over = false;
  std::set<int> seen;
  for(auto& d : ds) {
    std::set<int> mine;
    int n = g.len(0, 4);
    for(int i = 0; i < n; ++i) {
      int idx = int(g.below(s.pool.v.size()));
      bool known = false;
      for(auto const& x : s.L.sites)
        known |= x.m.alg == model::F && x.m.idx == idx;
      if(!known && !g.chance(1, 4)) continue;
      if(seen.count(idx) && !mine.count(idx)) {
        if(!g.chance(1, 4)) continue;
        overlap = true;
      }
      unknown |= !known;
      mine.insert(idx);
      d.indices.insert(tup(s.pool[idx]));
    }
    seen.insert(mine.begin(), mine.end());
    d.N = unsigned(g.below(d.indices.size() + (g.chance(1, 5) ? 3 : 1)));
    over |= d.N > d.indices.size();
    ctx << "{";
    for(int i : mine)
      ctx << i << ",";
    ctx << " N=" << d.N << "} ";
  }
  ctx << str(s.L.sites);
  if(s.L.bits == 0) throw pbt::Discard{};
  bool bad = sparse || unknown || overlap;
  ctx.nontrivial(bad || over);
  ctx.label_if(unknown, "unknown mode");
  ctx.label_if(overlap, "overlap");
  ctx.label_if(over, "too many fermions");
  std::vector<double> v(4096);
  using V = lc::n_fermion_multisector_view<std::vector<double>, true>;
  if(bad || over) {
    MUST_THROW(std::runtime_error, V(v, s.hs, ds));
    MUST_THROW(std::runtime_error, lc::n_fermion_multisector_basis_states(s.hs, ds));
  } else {
    V view(v, s.hs, ds);
    lc::n_fermion_multisector_basis_states(s.hs, ds);
  }
  if(bad)
    MUST_THROW(std::runtime_error, lc::n_fermion_multisector_size(s.hs, ds));
  else if(over)
    MUST(lc::n_fermion_multisector_size(s.hs, ds) == 0, "size of a sector that does not exist");
}
