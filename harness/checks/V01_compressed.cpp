// PBT rule: Hilbert spaces of any mixture of fermions, bosons, spins and user-defined spaces (dimensions 1 to 2^40, powers of two and not), of up to 63 bits; whole enumeration of spaces of up to 3000 states, sampled states with an exact mixed-radix rank for the rest; operators acting through views; non-trivial = the space is sparse (some dimension is not a power of two) and has two or more elementary spaces
#include "user_space.hpp"
#include "op.hpp"
using namespace bridge;

namespace {

template <typename I> struct Sp {
  Pool<I> pool;
  Layout L;
  typename ST<I>::hs hs;
  bool sparse() const {
    for(auto const& s : L.sites)
      if(s.dim & (s.dim - 1)) return true;
    return false;
  }
};
template <typename I> Sp<I> gen_space(pbt::Gen& g, u64 max_dim, u64 max_site, int max_sites) {
  Sp<I> r;
  r.pool = Pool<I>(g, 6);
  std::vector<Site> v;
  int n = g.len(1, max_sites), bits = 0;
  u64 dim = 1;
  for(int i = 0; i < n; ++i) {
    Site s = gen_any_site(g, int(r.pool.v.size()), max_site);
    bool dup = false;
    for(auto const& x : v)
      dup |= x.m == s.m;
    if(dup || bits + s.bits() > 63) continue;
    if(max_dim && (dim * s.dim > max_dim || bits + s.bits() > 20)) continue;
    bits += s.bits();
    dim *= s.dim;
    v.push_back(s);
  }
  if(v.empty()) v.push_back(site({model::B, 0, 0}, 1));
  r.L = Layout(v);
  for(auto const& s : v)
    r.hs.add(*make_any_space<I>(r.pool, s));
  return r;
}

template <typename I> void enumerate(pbt::Gen& g, pbt::Ctx& ctx) {
  auto s = gen_space<I>(g, 3000, g.flip() ? 8 : 70, 7);
  ctx << str(s.L.sites);
  ctx.nontrivial(s.sparse() && s.L.sites.size() > 1);
  u64 dim = s.L.dim();
  MUST(s.hs.dim() == dim);
  std::vector<long> st(dim);
  for(u64 i = 0; i < dim; ++i)
    st[i] = long(i) + 1;
  std::vector<u64> order;
  auto check = [&](auto const& view) {
    order.clear();
    foreach(view, [&](lc::sv_index_type n, long a) {
      MUST(u64(a) == order.size() + 1, "amplitude of the ", order.size(), "-th visited state");
      order.push_back(n);
    });
    MUST(order == s.L.all(), "enumerated states");
    for(u64 k = 0; k < dim; ++k) {
      MUST(view.map_index(order[k]) == k, "state ", order[k]);
      MUST(get_element(view, order[k]) == long(k) + 1, "state ", order[k]);
    }
  };
  auto v1 = lc::make_comp_state_view(st, s.hs);
  check(v1);
  switch(g.below(5)) {
  case 0: check(lc::make_const_comp_state_view(st, s.hs)); break;
  case 3: {
    // A view with default template arguments refers to the original vector
    lc::compressed_state_view<std::vector<long>> c(st, s.hs);
    check(c);
    update_add_element(c, s.L.nth(dim - 1), 1L);
    MUST(st[dim - 1] == long(dim) + 1, "the view refers to the original vector");
    st[dim - 1] = long(dim);
  } break;
  case 1: check(lc::make_comp_state_view(std::vector<long>(st), s.hs)); break;
  case 2: {
    auto v2 = v1;
    check(v2);
    auto v3 = std::move(v2);
    check(v3);
  } break;
  default: {
    // The view does not depend on the Hilbert space object staying alive or in place
    auto copy = std::make_unique<typename ST<I>::hs>(s.hs);
    auto v2 = lc::make_comp_state_view(st, *copy);
    copy.reset();
    check(v2);
  }
  }
  // Small amplitudes are visited
  double const small = std::ldexp(1.0, -int(g.below(41)));
  std::vector<double> tiny(dim);
  for(u64 i = 0; i < dim; ++i)
    tiny[i] = small * double(i + 1);
  u64 seen = 0;
  foreach(lc::make_const_comp_state_view(tiny, s.hs), [&](lc::sv_index_type n, double a) {
    MUST(seen < dim && n == order[seen] && a == tiny[seen], "small amplitude of the ", seen, "-th state, ", a);
    ++seen;
  });
  MUST(seen == dim, "only ", seen, " of ", dim, " states with small amplitudes are visited");
  // Zero amplitudes are skipped, positions stay
  if(dim > 1) {
    std::vector<long> z(dim, 0);
    u64 k = g.below(dim);
    auto vz = lc::make_comp_state_view(z, s.hs);
    update_add_element(vz, s.L.nth(k), 5L);
    update_add_element(vz, s.L.nth(k), -2L);
    for(u64 i = 0; i < dim; ++i)
      MUST(z[i] == (i == k ? 3 : 0), "amplitude ", i, " after updates of ", k);
    long cnt = 0;
    foreach(vz, [&](lc::sv_index_type n, long a) {
      MUST(n == s.L.nth(k) && a == 3);
      ++cnt;
    });
    MUST(cnt == 1);
    set_zeros(vz);
    MUST(z == std::vector<long>(dim, 0));
    // Enumerations of one view may be nested
    auto va = lc::make_comp_state_view(st, s.hs);
    u64 outer = 0;
    foreach(va, [&](lc::sv_index_type n, long) {
      MUST(n == s.L.nth(outer), "outer enumeration");
      if(outer == k || outer == 0) {
        u64 inner = 0;
        foreach(va, [&](lc::sv_index_type m, long) { MUST(m == s.L.nth(inner), "inner enumeration"); ++inner; });
        MUST(inner == dim);
      }
      ++outer;
    });
    MUST(outer == dim);
  }
}

template <typename I> void big(pbt::Gen& g, pbt::Ctx& ctx) {
  auto s = gen_space<I>(g, 0, g.flip() ? 200 : u64(1) << 40, 24);
  ctx << str(s.L.sites);
  ctx.nontrivial(s.sparse() && s.L.sites.size() > 1);
  ctx.label_if(s.L.bits > 32, "more than 32 bits");
  std::vector<double> empty;
  auto view = lc::make_comp_state_view(empty, s.hs);
  u64 dim = s.L.dim();
  for(int i = 0; i < 8; ++i) {
    u64 k = g.boundary(0, dim - 1);
    u64 st = s.L.nth(k);
    MUST(s.L.rank(st) == k); // the model itself
    MUST(view.map_index(st) == k, "state ", st);
  }
}

// Acting through views. 'in' is a vector over ranks.
template <typename I, typename T> void act(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 5;
  o.sites.max_bits = 11;
  o.sites.max_dim = 600;
  o.sites.max_boson = 11;
  o.max_used = 4;
  OpSpace<I> s(g, o);
  auto t = gen_tree<T>(g, s.w, 4, 6, 4);
  ctx << str(s.L.sites) << " " << str(*t);
  auto e = eval_lib<I, T>(s.pool, *t);
  auto op = lc::make_loperator(e, s.hs);
  u64 dim = s.L.dim();
  std::vector<T> in(dim, T(0));
  double const small = g.flip() ? 1 : std::ldexp(1.0, -int(g.below(37)));
  for(int i = 0; i < 6; ++i)
    in[g.below(dim)] = Sc<T>::from(gen_scalar<T>(g, true)) * T(small);
  std::vector<T> full(s.hs.vec_size(), T(0));
  for(u64 k = 0; k < dim; ++k)
    full[s.L.nth(k)] = in[k];
  auto want = op(full);
  bool nz = false;
  for(u64 n = 0; n < want.size(); ++n) {
    if(!s.L.valid(n)) MUST(want[n] == T(0), "amplitude outside the space, state ", n);
    nz |= want[n] != T(0);
  }
  bool sparse = s.L.dim() != s.hs.vec_size();
  ctx.nontrivial(nz && sparse);
  ctx.label_if(sparse, "sparse");
  auto same = [&](auto const& get, char const* what) {
    for(u64 k = 0; k < dim; ++k) {
      T x = get(k), y = want[s.L.nth(k)];
      MUST(std::abs(x - y) <= 1e-12 * (std::abs(y) + small) + 4e-14, what, ": amplitude of state ", s.L.nth(k), " is ", x, " instead of ", y);
    }
  };
  std::vector<T> out(dim, T(7));
  auto const in0 = in;
  {
    auto src = lc::make_const_comp_state_view(in, s.hs);
    auto dst = lc::make_comp_state_view(out, s.hs);
    op(src, dst);
    same([&](u64 k) { return out[k]; }, "view to view");
    // once more: the result replaces what was there
    op(src, dst);
    same([&](u64 k) { return out[k]; }, "view to view again");
  }
  {
    auto dst = lc::make_comp_state_view(out, s.hs);
    op(full, dst);
    same([&](u64 k) { return out[k]; }, "vector to view");
  }
  {
    std::vector<T> o2(s.hs.vec_size(), T(3));
    op(lc::make_comp_state_view(in, s.hs), o2);
    same([&](u64 k) { return o2[s.L.nth(k)]; }, "view to vector");
    for(u64 n = 0; n < o2.size(); ++n)
      if(!s.L.valid(n)) MUST(o2[n] == T(0), "amplitude outside the space");
  }
  {
    // Views which own their (sparse) vectors
    lc::sparse_state_vector<T> sv(dim), so(dim);
    for(u64 k = 0; k < dim; ++k)
      if(in[k] != T(0)) sv[k] = in[k];
    so[0] = T(4);
    auto src = lc::make_comp_state_view(std::move(sv), s.hs);
    auto dst = lc::make_comp_state_view(std::move(so), s.hs);
    op(src, dst);
    same([&](u64 k) { return T(get_element(dst.state_vector, k)); }, "owning views of sparse vectors");
  }
  MUST(in == in0, "the source was modified");
}

} // namespace

PROP(enumerate_int, 20000, 400000) { enumerate<IdxInt>(g, ctx); }
PROP(enumerate_dyn, 10000, 200000) { enumerate<IdxDyn>(g, ctx); }
PROP(rank_big, 60000, 1200000) { big<IdxInt>(g, ctx); }
PROP(act_double, 15000, 300000) { act<IdxInt, double>(g, ctx); }
PROP(act_complex, 8000, 160000) { act<IdxDyn, cplx>(g, ctx); }
