// PBT rule: basis maps of random lists of states, of the states reached by random operators from the state with index 0 and by all products of powers of up to three operators, in small Hilbert spaces with all kinds of elementary spaces; views of vectors and sparse vectors under such maps; non-trivial = two or more mapped states, in an order or set that is not the identity
#include "partition.hpp"
using namespace bridge;
using lc::get_element;

namespace {

template <typename I> OpSpace<I> space(pbt::Gen& g, bool big = false) {
  OpOpts o;
  o.n_idx = big ? 12 : 6;
  o.sites.max_sites = big ? 16 : 6;
  o.max_used = big ? 12 : 5;
  o.sites.max_bits = big ? 11 : g.chance(1, 4) ? 8 : 6;
  o.sites.max_dim = big ? 1500 : g.chance(1, 4) ? 128 : 48;
  o.sites.max_mult = big ? 12 : 6;
  return OpSpace<I>(g, o);
}
using set = std::set<u64>;

// Exactly 'want' is mapped, onto 0, 1, ...
void check_map(lc::basis_mapper const& m, set const& want) {
  MUST(m.size() == want.size(), "size is ", m.size(), " instead of ", want.size());
  MUST(m.map().size() == want.size(), "size of the map");
  set numbers;
  for(auto const& p : m.map()) {
    MUST(want.count(p.first) == 1, "state ", p.first, " is mapped");
    MUST(p.second < want.size(), "state ", p.first, " has number ", p.second);
    MUST(numbers.insert(p.second).second, "number ", p.second, " is used twice");
  }
  auto inv = m.inverse_map();
  MUST(inv.size() == want.size(), "size of the inverse map");
  for(auto const& p : m.map())
    MUST(inv.at(p.second) == p.first, "inverse of ", p.second);
}

template <typename V> std::map<u64, double> nonzero(V const& v) {
  std::map<u64, double> r;
  foreach(v, [&](lc::sv_index_type n, double a) {
    MUST(a != 0, "zero amplitude of state ", n);
    MUST(r.emplace(n, a).second, "state ", n, " was visited twice");
  });
  return r;
}

// A view of a vector with 'm' against a map of amplitudes
template <typename SV> void view_history(pbt::Gen& g, lc::basis_mapper const& m, std::vector<u64> const& list, SV sv) {
  std::map<u64, double> amp; // by state
  auto const n = list.size();
  auto number = m.map();
  auto v = m.make_view(sv);
  auto same = [&](auto const& view) {
    std::map<u64, double> want;
    for(auto const& p : amp)
      if(p.second != 0) want.insert(p);
    MUST(nonzero(view) == want, "amplitudes visited");
    for(u64 s : list)
      MUST(get_element(view, s) == (amp.count(s) ? amp[s] : 0.0), "amplitude of state ", s);
    for(int i = 0; i < 2; ++i) {
      u64 s = g.below(512);
      if(!number.count(s)) MUST_THROW(std::out_of_range, get_element(view, s));
    }
  };
  int steps = g.len(0, 12);
  for(int i = 0; i < steps && n; ++i) {
    switch(g.weighted({8, 1, 2, 1})) {
    case 0: {
      u64 s = g.pick(list);
      double x = double(g.range(-2, 2));
      update_add_element(v, s, x);
      amp[s] += x;
      break;
    }
    case 1:
      set_zeros(v);
      amp.clear();
      break;
    case 2: {
      u64 s = g.below(512);
      if(!number.count(s)) MUST_THROW(std::out_of_range, update_add_element(v, s, 1.0));
      break;
    }
    default: same(v);
    }
  }
  same(v);
  // The adapted vector holds the amplitudes at the mapped positions
  for(u64 s : list)
    MUST(get_element(sv, number[s]) == (amp.count(s) ? amp[s] : 0.0), "element ", number[s]);
  // Views that own their vectors are independent of the original
  auto own = m.make_view(SV(sv));
  same(own);
  auto cown = m.make_const_view(SV(sv));
  same(cown);
  same(m.make_const_view(sv));
  if(g.chance(1, 4)) {
    // Views constructed directly, with default template arguments, refer to the original vector
    auto const mp = m.map();
    lc::mapped_basis_view<SV> d(sv, mp);
    same(d);
    if(n) {
      update_add_element(d, list[0], 2.0);
      amp[list[0]] += 2;
      same(v);
      same(d);
      update_add_element(d, list[0], -2.0);
      amp[list[0]] -= 2;
    }
  }
  if(n) {
    update_add_element(own, list[0], 5.0);
    same(v);
    same(cown);
    auto copy = own;
    amp[list[0]] += 5;
    same(copy);
  }
}

} // namespace

static void list_case(pbt::Gen& g, pbt::Ctx& ctx, bool big) {
  std::vector<u64> all;
  u64 lim = big ? g.urange(300, 6000) : g.chance(1, 4) ? 300 : 24;
  for(u64 i = 0; i < lim; ++i)
    all.push_back(i);
  all = g.shuffled(all);
  all.resize(big ? std::size_t(g.below(lim + 1)) : std::size_t(g.len(0, int(std::min<u64>(lim, 60)))));
  if(g.chance(1, 8)) {
    for(auto& x : all)
      x += g.flip() ? (u64(1) << 63) : (u64(1) << 32);
    set s(all.begin(), all.end());
    if(s.size() != all.size()) throw pbt::Discard{};
  }
  for(u64 s : all)
    ctx << s << " ";
  lc::basis_mapper m(all);
  check_map(m, set(all.begin(), all.end()));
  for(std::size_t i = 0; i < all.size(); ++i)
    MUST(m.map().at(all[i]) == i, "position of state ", all[i]);
  ctx.nontrivial(all.size() > 1 && !std::is_sorted(all.begin(), all.end()));
  if(g.flip())
    view_history(g, m, all, std::vector<double>(all.size()));
  else
    view_history(g, m, all, lc::sparse_state_vector<double>(all.size()));
  auto copy = m;
  check_map(copy, set(all.begin(), all.end()));
}
PROP(list, 120000, 2400000) { list_case(g, ctx, false); }
PROP(list_big, 400, 8000) { list_case(g, ctx, true); }

namespace {

// Exact image of a state, checked against the operator so that rounding errors cannot decide
template <typename I> struct Chain {
  OpSpace<I> const& s;
  std::vector<model::Mode> modes;
  explicit Chain(OpSpace<I> const& s) : s(s), modes(s.L.modes()) {}
  struct St {
    model::State exact;
    std::vector<double> num;
    std::map<u64, double> err; // bounds of rounding errors
  };
  St vacuum() const {
    St r;
    r.exact[to_occ(s.L, 0)] = CQ(1);
    r.num.assign(std::size_t(s.hs.vec_size()), 0);
    r.num[0] = 1;
    return r;
  }
  // 'ts': terms of the expression as it is stored
  template <typename Op, typename Terms> St act(Sum const& sum, Terms const& ts, Op const& op, St const& in) const {
    St r;
    auto const vac = to_occ(s.L, 0);
    for(auto const& q : in.exact) {
      auto const from = to_index(s.L, q.first);
      double size = std::abs(in.num[std::size_t(from)]), e = in.err.count(from) ? in.err.at(from) : 0;
      for(auto const& t : ts)
        for(auto const& p : model::act(t.first, t.second, modes, model::State{{q.first, CQ(1)}}))
          if(fits(s.L, p.first)) {
            double m = (std::abs(p.second.re.get_d()) + std::abs(p.second.im.get_d())) *
                       root(weight_ratio(modes, p.first, q.first));
            r.err[to_index(s.L, p.first)] += m * (e + 8 * 2.3e-16 * size);
          }
    }
    model::State all;
    for(auto const& t : sum)
      for(auto const& p : model::act(t.second, t.first, modes, in.exact))
        model::add_to(all, p.first, p.second);
    std::map<u64, double> nz;
    for(auto const& p : all)
      if(fits(s.L, p.first) && !p.second.zero()) {
        r.exact.insert(p);
        nz[to_index(s.L, p.first)] = (std::abs(p.second.re.get_d()) + std::abs(p.second.im.get_d())) *
                                     root(weight_ratio(modes, p.first, vac));
      }
    r.num = op(in.num);
    for(std::size_t i = 0; i < r.num.size(); ++i) {
      double const e = r.err.count(i) ? r.err.at(i) : 0;
      bool const gone = lc::scalar_traits<double>::is_zero(r.num[i]);
      if(nz.count(i)) {
        // The library drops amplitudes only below its own threshold, and adds up in any order
        if(nz[i] - 2 * e < 1e-13) throw pbt::Discard{};
        MUST(!gone, "amplitude of state ", i, " is ", r.num[i], " instead of ", nz[i]);
      } else {
        if(!lc::scalar_traits<double>::is_zero(2 * e)) throw pbt::Discard{};
        MUST(gone, "amplitude of state ", i, " must vanish");
      }
    }
    return r;
  }
  set support(St const& x) const {
    set r;
    for(auto const& p : x.exact)
      r.insert(to_index(s.L, p.first));
    return r;
  }
};

Sum gen_sum(pbt::Gen& g, model::World const& w, int max_terms = 4, int max_small = 36) {
  Sum s;
  int n = 1 + int(g.below(u64(max_terms)));
  for(int i = 0; i < n; ++i) {
    model::Word wd;
    switch(g.weighted({4, 2, 2})) {
    case 0: {
      int k = 1 + int(g.below(2));
      for(int j = 0; j < k; ++j)
        wd.push_back(gen_ladder(g, w, true));
      break;
    }
    case 1: wd = gen_word(g, w); break;
    default: wd = {gen_ladder(g, w, true), gen_ladder(g, w, false)};
    }
    s.push_back({gen_scalar<double>(g, true), wd});
  }
  shrink<double>(g, s, max_small);
  return s;
}

template <typename I> void reached(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
  auto s = space<I>(g, big);
  ctx << str(s.L.sites) << " ";
  Sum sum = gen_sum(g, s.w, big ? 60 : 4);
  ctx << str(sum);
  auto e = to_expr<I, double>(s.pool, sum);
  auto op = lc::make_loperator(e, s.hs);
  Chain<I> c(s);
  auto want = c.support(c.act(sum, terms<I, double>(s.pool, e), op, c.vacuum()));
  check_map(lc::basis_mapper(op, s.hs), want);
  ctx.nontrivial(want.size() > 1);
}

template <typename I> void compositions(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
  auto s = space<I>(g, big);
  ctx << str(s.L.sites) << " ";
  Chain<I> c(s);
  int m = 1 + int(g.below(big ? 6 : 3));
  unsigned N = unsigned(g.below(5));
  if(big && m < 3 && g.flip()) N = unsigned(g.range(5, 16));
  std::vector<Sum> sums;
  using L = lc::loperator<double, lc::fermion, lc::boson, lc::spin>;
  std::vector<L> ops;
  std::vector<decltype(terms<I, double>(s.pool, to_expr<I, double>(s.pool, Sum{})))> ts;
  for(int i = 0; i < m; ++i) {
    sums.push_back(gen_sum(g, s.w, big ? 3 : 4, 36 / int(std::max(N, 1u))));
    ctx << " O" << i + 1 << " = " << str(sums.back()) << ";";
    auto e = to_expr<I, double>(s.pool, sums.back());
    ops.push_back(lc::make_loperator(e, s.hs));
    ts.push_back(terms<I, double>(s.pool, e));
  }
  ctx << " N = " << N;
  set want;
  // O_1^{n_1} ... O_M^{n_M} |0>: the last operator acts first
  std::function<void(int, unsigned, typename Chain<I>::St const&)> rec = [&](int k, unsigned left,
                                                                           typename Chain<I>::St const& st) {
    if(k < 0) {
      if(left == 0)
        for(u64 n : c.support(st))
          want.insert(n);
      return;
    }
    rec(k - 1, left, st);
    auto x = st;
    for(unsigned n = 1; n <= left; ++n) {
      x = c.act(sums[std::size_t(k)], ts[std::size_t(k)], ops[std::size_t(k)], x);
      if(x.exact.empty()) return;
      rec(k - 1, left - n, x);
    }
  };
  rec(m - 1, N, c.vacuum());
  check_map(lc::basis_mapper(ops, s.hs, N), want);
  ctx.nontrivial(want.size() > 1 && N > 1 && m > 1);
}

// Acting between mapped subspaces equals acting in the full space
template <typename I, typename T> void restriction(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
  auto s = space<I>(g, big);
  ctx << str(s.L.sites) << " ";
  Sum sum;
  int n = 1 + int(g.below(big ? 20 : 4));
  for(int i = 0; i < n; ++i)
    sum.push_back({gen_scalar<T>(g, true), gen_word(g, s.w)});
  ctx << str(sum);
  auto e = to_expr<I, T>(s.pool, sum);
  auto op = lc::make_loperator(e, s.hs);
  auto states = g.shuffled(s.L.all());
  std::vector<u64> src(states.begin(), states.begin() + std::ptrdiff_t(1 + g.below(states.size())));
  std::vector<T> full(std::size_t(s.hs.vec_size()), T(0)), sv(src.size());
  lc::basis_mapper sm(src);
  set reach; // by any of the stored terms
  std::map<u64, double> scale;
  auto ts = terms<I, T>(s.pool, e);
  auto modes = s.L.modes();
  for(u64 st : src) {
    T a = Sc<T>::from(gen_scalar<T>(g));
    full[std::size_t(st)] = a;
    sv[std::size_t(sm.map().at(st))] = a;
    if(a == T(0)) continue;
    for(auto const& t : ts)
      for(auto const& p : model::act(t.first, t.second, modes, model::State{{to_occ(s.L, st), CQ(1)}}))
        if(fits(s.L, p.first)) {
          u64 k = to_index(s.L, p.first);
          reach.insert(k);
          scale[k] += std::abs(a) * (std::abs(p.second.re.get_d()) + std::abs(p.second.im.get_d())) *
                      root(weight_ratio(modes, p.first, to_occ(s.L, st)));
        }
  }
  auto want = op(full);
  // Destination: everything reachable and a few states more
  std::vector<u64> dst(reach.begin(), reach.end());
  for(int i = 0; i < 3; ++i) {
    u64 st = g.pick(states);
    if(reach.insert(st).second) dst.push_back(st);
  }
  dst = g.shuffled(dst);
  lc::basis_mapper dm(dst);
  auto check = [&](auto const& got) {
    for(u64 st : dst)
      MUST(std::abs(get_element(got, dm.map().at(st)) - want[std::size_t(st)]) <= 1e-11 * (scale[st] + 1e-3),
           "amplitude of state ", st, " is ", get_element(got, dm.map().at(st)), " instead of ", want[std::size_t(st)]);
  };
  T const garbage(77);
  std::vector<T> dv(dst.size(), garbage);
  lc::sparse_state_vector<T> ds(dst.size()), ss(src.size());
  for(std::size_t i = 0; i < sv.size(); ++i)
    if(sv[i] != T(0)) ss[i] = sv[i];
  ds[g.below(dst.size())] = garbage;
  auto dview = dm.make_view(dv);
  auto dsview = dm.make_view(ds);
  switch(g.below(4)) {
  case 0: op(sm.make_view(sv), dview); break;
  case 1: op(sm.make_const_view(sv), dview); break;
  case 2: op(sm.make_const_view(ss), dview); break;
  default: op(sm.make_const_view(std::vector<T>(sv)), dview);
  }
  check(dv);
  op(sm.make_const_view(sv), dsview);
  check(ds);
  bool nz = false;
  for(auto const& x : want)
    nz |= std::abs(x) > 1e-6;
  ctx.nontrivial(nz && src.size() > 1);
  // From the full space into the subspace
  std::fill(dv.begin(), dv.end(), garbage);
  op(full, dview);
  check(dv);
  // A destination without one of the states that get an amplitude
  for(u64 st : dst)
    if(std::abs(want[std::size_t(st)]) > 1e-6) {
      auto less = dst;
      less.erase(std::find(less.begin(), less.end(), st));
      lc::basis_mapper lm(less);
      std::vector<T> lv(less.size());
      auto lview = lm.make_view(lv);
      MUST_THROW(std::out_of_range, op(sm.make_const_view(sv), lview));
      break;
    }
}

} // namespace

PROP(reached_int, 60000, 1200000) { reached<IdxInt>(g, ctx); }
PROP(reached_dyn, 20000, 400000) { reached<IdxDyn>(g, ctx); }
PROP(compositions_int, 60000, 1200000) { compositions<IdxInt>(g, ctx); }
PROP(compositions_dyn, 20000, 400000) { compositions<IdxDyn>(g, ctx); }
PROP(restriction_real, 60000, 1200000) { restriction<IdxInt, double>(g, ctx); }
PROP(restriction_complex, 32000, 640000) { restriction<IdxInt, cplx>(g, ctx); }
// Around a thousand states
PROP(reached_big, 400, 12000) { reached<IdxInt>(g, ctx, true); }
PROP(compositions_big, 400, 8000) { compositions<IdxInt>(g, ctx, true); }
PROP(restriction_big, 160, 5000) { restriction<IdxInt, double>(g, ctx, true); }
