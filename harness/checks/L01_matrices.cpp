// PBT rule: operators of random expressions and of long words with powers, in Hilbert spaces of up to 63 bits with up to 40 elementary spaces (bosons up to 2^20 levels, spins up to 89/2), on superpositions of basis states and on all basis states of small spaces; non-trivial = the image has a nonzero amplitude and the operator changes two or more modes or has a power of two or more
#include "partition.hpp"
using namespace bridge;

namespace {

std::vector<std::pair<model::Word, CQ>> plain(Sum const& s) {
  std::vector<std::pair<model::Word, CQ>> r;
  for(auto const& t : s)
    r.emplace_back(t.second, t.first);
  return r;
}

// Operator given as one product of generators
template <typename I, typename T> struct Made {
  typename I::template expr<T> e;
  std::function<model::State(std::vector<model::Mode> const&, model::State const&)> apply;
  bool many = false;
};
template <typename I, typename T> Made<I, T> make_op(pbt::Gen& g, pbt::Ctx& ctx, OpSpace<I> const& s, bool word) {
  Made<I, T> r;
  if(word) {
    // (coefficient) x product of powers of generators
    model::Word wd;
    int n = 1 + g.len(0, 6);
    for(int i = 0; i < n; ++i) {
      GS x = gen_gs(g, s.w);
      int p = x.alg == model::F ? 1 : int(g.weighted({6, 3, 2, 1, 1, 1})) + 1;
      if(p > 1) r.many = true;
      for(int k = 0; k < p && wd.size() < 9; ++k)
        wd.push_back(x);
    }
    CQ c = gen_scalar<T>(g, true);
    typename I::template expr<T> e(Sc<T>::from(c));
    for(auto const& x : wd)
      e *= gen_expr<I, T>(s.pool, x);
    r.e = e;
    r.apply = [=](std::vector<model::Mode> const& m, model::State const& st) { return model::act(wd, c, m, st); };
    ctx << c << "." << model::str(wd);
    std::set<model::Mode> ms;
    for(auto const& x : wd)
      ms.insert(model::mode_of(x));
    r.many |= ms.size() > 1;
  } else {
    auto t = gen_tree<T>(g, s.w, 5, 8, 4);
    r.e = eval_lib<I, T>(s.pool, *t);
    r.apply = [t](std::vector<model::Mode> const& m, model::State const& st) { return eval_state(*t, m, st); };
    ctx << str(*t);
    r.many = t->deg > 1;
  }
  return r;
}

// Sum of up to some hundreds of words
template <typename I, typename T> Made<I, T> sum_op(pbt::Gen& g, pbt::Ctx& ctx, OpSpace<I> const& s) {
  Made<I, T> r;
  Sum sum;
  int n = int(g.boundary(5, 300));
  for(int i = 0; i < n; ++i) {
    auto w = gen_word(g, s.w);
    if(g.chance(1, 4)) {
      auto x = gen_word(g, s.w);
      w.insert(w.end(), x.begin(), x.end());
    }
    sum.push_back({gen_scalar<T>(g, true), w});
  }
  r.e = to_expr<I, T>(s.pool, sum);
  r.many = r.e.size() > 20;
  ctx << str(sum);
  r.apply = [=](std::vector<model::Mode> const& m, model::State const& st) { return model::act(plain(sum), m, st); };
  return r;
}

template <typename I, typename T> void sparse_case(pbt::Gen& g, pbt::Ctx& ctx, bool word, bool many = false) {
  OpOpts o;
  o.sites.max_sites = many || g.chance(1, 3) ? 40 : 6;
  if(many) o.max_used = 30;
  o.n_idx = o.sites.max_sites > 6 ? 30 : 6;
  o.sites.max_mult = g.chance(1, 6) ? 16 : (g.chance(1, 10) ? 90 : 6);
  if(o.sites.max_sites > 6) {
    o.sites.b = g.flip();
    o.sites.s = g.flip();
  }
  o.sites.max_boson = g.chance(1, 3) ? u64(1) << 20 : 9;
  OpSpace<I> s(g, o);
  ctx << str(s.L.sites) << " ";
  auto m = many ? sum_op<I, T>(g, ctx, s) : make_op<I, T>(g, ctx, s, word);
  auto op = lc::make_loperator(m.e, s.hs);
  auto ts = terms<I, T>(s.pool, m.e);

  lc::sparse_state_vector<T> in(s.hs.vec_size());
  RefVec want;
  int n = 1 + int(g.below(many ? 20 : 3));
  std::set<u64> used;
  for(int i = 0; i < n; ++i) {
    u64 st = s.state(g);
    if(!used.insert(st).second) continue;
    T a = i ? Sc<T>::from(gen_scalar<T>(g, true)) : T(1);
    ctx << " " << a << "|" << st << ">";
    in[st] = a;
    ref_column(want, s.L, st, as_cplx(a), m.apply, ts);
  }
  auto out = op(in);
  compare(sparse_map(out), want, "op(in)");
  bool nz = false;
  for(auto const& p : want.v)
    nz |= p.second != cplx(0);
  ctx.nontrivial(nz && m.many);
  ctx.label_if(s.L.bits > 32, "more than 32 bits");
  ctx.label_if(s.L.sites.size() > 8, "many sites");
}

template <typename I, typename T> void dense_case(pbt::Gen& g, pbt::Ctx& ctx, bool word) {
  OpOpts o;
  o.n_idx = 5;
  o.sites.max_bits = 7;
  o.sites.max_dim = 64;
  o.sites.max_mult = 9;
  OpSpace<I> s(g, o);
  ctx << str(s.L.sites) << " ";
  auto m = make_op<I, T>(g, ctx, s, word);
  auto op = lc::make_loperator(m.e, s.hs);
  auto ts = terms<I, T>(s.pool, m.e);
  bool nz = false;
  for(u64 st : s.L.all()) {
    RefVec want;
    ref_column(want, s.L, st, 1, m.apply, ts);
    std::vector<T> in(std::size_t(s.hs.vec_size()), T(0));
    in[std::size_t(st)] = T(1);
    compare(dense_map(op(in)), want, "column");
    for(auto const& p : want.v)
      nz |= p.second != cplx(0);
  }
  ctx.nontrivial(nz && m.many);
}

} // namespace

PROP(sparse_tree, 60000, 1200000) { sparse_case<IdxInt, double>(g, ctx, false); }
PROP(sparse_tree_complex, 40000, 800000) { sparse_case<IdxInt, cplx>(g, ctx, false); }
PROP(sparse_many_terms, 2400, 48000) { sparse_case<IdxInt, double>(g, ctx, false, true); }
PROP(sparse_many_terms_complex, 1200, 24000) { sparse_case<IdxInt, cplx>(g, ctx, false, true); }
PROP(sparse_word, 100000, 2000000) { sparse_case<IdxInt, double>(g, ctx, true); }
PROP(dense_tree, 20000, 400000) { dense_case<IdxInt, double>(g, ctx, false); }
PROP(dense_word, 30000, 600000) { dense_case<IdxInt, double>(g, ctx, true); }

// Fermions only, integer amplitudes, exactly
PROP(fermions_exact, 100000, 2000000) {
  OpOpts o;
  o.sites.b = o.sites.s = false;
  o.sites.max_sites = g.chance(1, 2) ? 63 : 8;
  o.n_idx = o.sites.max_sites > 8 ? 80 : 8;
  o.max_used = 8;
  Pool<IdxInt> dummy;
  OpSpace<IdxInt> s(g, o);
  model::Word wd;
  int n = g.len(1, 8);
  for(int i = 0; i < n; ++i)
    wd.push_back(gen_gs(g, s.w));
  long c = long(g.range(1, 3));
  ctx << str(s.L.sites) << " " << c << "." << model::str(wd);
  lc::expression<long, int> e(c);
  for(auto const& x : wd)
    e *= gen_expr<IdxInt, long>(s.pool, x);
  lc::loperator<long, lc::fermion> op(e, s.hs);
  auto modes = s.L.modes();
  bool nz = false;
  for(int k = 0; k < 6; ++k) {
    u64 st = s.state(g);
    lc::sparse_state_vector<long> in(s.hs.vec_size());
    in[st] = 1;
    auto got = sparse_map(op(in));
    std::map<u64, cplx> want;
    for(auto const& p : model::act(wd, CQ(c), modes, model::State{{to_occ(s.L, st), CQ(1)}}))
      want[to_index(s.L, p.first)] = p.second.re.get_d();
    MUST(got == want, "image of state ", st);
    nz |= !want.empty();
  }
  ctx.nontrivial(nz && n >= 2);
}
