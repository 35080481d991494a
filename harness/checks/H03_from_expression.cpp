// PBT rule: random expressions over all algebras (and commuting user-defined ones) given to elementary space constructors with different chains of algebra IDs, boson truncations, lambdas; non-trivial = at least three degrees of freedom of two or more kinds, or a rejected generator
#include "user_space.hpp"
using namespace bridge;

namespace {
// A user-defined algebra of commuting generators, ID 0 or 1
template <typename... Is> class UserGen : public lc::generator<Is...> {
  using base = lc::generator<Is...>;
  int id_;

public:
  template <typename... A> UserGen(int id, A&&... i) : base(std::forward<A>(i)...), id_(id) {}
  int algebra_id() const override { return id_; }
  lc::var_number swap_with(base const&, typename base::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
  std::string to_string() const override { return "u" + std::to_string(id_); }
};
} // namespace

namespace bridge {
struct Levels {
  std::uint64_t n;
};
std::uint64_t const DefaultLevels = 4;
} // namespace bridge

namespace libcommute {
template <> class es_constructor<0> {
  std::uint64_t dim_;

public:
  explicit es_constructor(std::uint64_t dim) : dim_(dim) {}
  template <typename... Is> std::unique_ptr<elementary_space<Is...>> operator()(generator<Is...> const& g) const {
    int bits = 0;
    while((dim_ - 1) >> bits)
      ++bits;
    return std::make_unique<bridge::UserSpace<Is...>>(0, dim_, bits, g.indices());
  }
};
// Has a default state as well as one given by the user
template <> class es_constructor<1> {
  std::uint64_t dim_ = bridge::DefaultLevels;

public:
  es_constructor() = default;
  explicit es_constructor(bridge::Levels l) : dim_(l.n) {}
  template <typename... Is> std::unique_ptr<elementary_space<Is...>> operator()(generator<Is...> const& g) const {
    return std::make_unique<bridge::UserSpace<Is...>>(1, dim_, dim_ > 2 ? 2 : 1, g.indices());
  }
};
} // namespace libcommute

namespace {

template <typename I> struct UG;
template <> struct UG<IdxInt> { using type = UserGen<int>; };
template <> struct UG<IdxStrInt> { using type = UserGen<std::string, int>; };
template <> struct UG<IdxDyn> { using type = UserGen<IdxDyn::dyn>; };

template <typename I, typename T> struct Env {
  using E = typename I::template expr<T>;
  using hs_t = typename ST<I>::hs;
  using es_t = typename ST<I>::es;
  using gen_t = typename I::gen_t;
  Pool<I> pool;
  E e;
  std::set<model::Mode> modes;

  model::Mode mode(gen_t const& x) const {
    if(x.algebra_id() >= 0) return {3 + x.algebra_id(), 0, pool.rank(I::index_of(x))};
    return model::mode_of(to_gs<I>(pool, x));
  }

  std::uint64_t levels = 3; // dimension of the spaces of algebra 1

  void same(hs_t const& hs, std::uint64_t bdim, std::uint64_t udim) const {
    std::vector<Site> v;
    for(auto const& m : modes) {
      Site s = m.alg == 3 ? Site{m, udim} : m.alg == 4 ? Site{m, levels} : site(m, bdim);
      v.push_back(s);
    }
    Layout L(v);
    MUST(hs.size() == L.sites.size(), hs.size(), " elementary spaces instead of ", str(L.sites));
    std::size_t k = 0;
    hs.foreach_elementary_space([&](es_t const& es) {
      auto want = make_any_space<I>(pool, L.sites[k]);
      MUST(es == *want && es.dim() == L.sites[k].dim, "elementary space ", k, " is not ", L.sites[k].str());
      auto r = hs.bit_range(es);
      MUST(r.first == L.shift[k] && r.second == L.shift[k] + L.sites[k].bits() - 1, "bit range of ",
           L.sites[k].str());
      ++k;
    });
    MUST(hs.total_n_bits() == L.bits && hs.dim() == L.dim(), "layout");
    for(int a = 0; a < 5; ++a) {
      bool any = false;
      for(auto const& m : modes)
        any |= m.alg == a;
      MUST(hs.has_algebra(a - 3) == any, "has_algebra ", a - 3);
    }
    MUST(hs.is_sparse() == (L.dim() != std::uint64_t(1) << L.bits), "is_sparse");
    if(L.bits < 63) {
      expect(hs, L, std::min<std::uint64_t>(L.dim(), 60) + 1, "enumeration");
      // Nothing distinguishes it from a space put together by hand
      hs_t by_hand;
      for(auto const& s : L.sites)
        by_hand.add(*make_any_space<I>(pool, s));
      MUST(hs == by_hand && by_hand == hs && !(hs != by_hand), "differs from a space put together by hand");
      hs_t copy(hs);
      MUST(copy == hs, "differs from its copy");
      expect(copy, L, 20, "enumeration of a copy");
      copy = hs_t(by_hand);
      expect(copy, L, 20, "enumeration of an assigned copy");
    }
  }
  int bits(std::uint64_t bdim, std::uint64_t udim) const {
    int b = 0;
    for(auto const& m : modes)
      b += (m.alg == 3 ? Site{m, udim} : m.alg == 4 ? Site{m, levels} : site(m, bdim)).bits();
    return b;
  }
  // Constructor objects are values: whatever has been copied or moved knows
  // the same algebras and makes the same spaces. Copying objects that are not
  // constant is only tried where all states can be left out: elsewhere, the
  // library could refuse to compile but not give another result.
  template <typename C>
  bool with(pbt::Ctx& ctx, C const& c, std::set<int> const& ids, std::uint64_t bdim, std::uint64_t udim,
            int mode) const {
    bool mk = mode & 1;
    switch(mode >> 1) {
    case 0:
    case 1: return with_(ctx, c, ids, bdim, udim, mk);
    case 2: {
      C const copy(c);
      return with_(ctx, copy, ids, bdim, udim, mk);
    }
    case 3: {
      C tmp(c);
      C const moved(std::move(tmp));
      return with_(ctx, moved, ids, bdim, udim, mk);
    }
    case 4: {
      std::vector<C> const many(3, c);
      return with_(ctx, many[many.size() - 1], ids, bdim, udim, mk);
    }
    default: return with_(ctx, [c](gen_t const& x) { return c(x); }, ids, bdim, udim, mk);
    }
  }
  template <typename C>
  bool with_mutable(pbt::Ctx& ctx, C c, std::set<int> const& ids, std::uint64_t bdim, std::uint64_t udim,
                    int mode, int how) const {
    switch(how) {
    case 0: {
      C copy(c);
      return with(ctx, copy, ids, bdim, udim, mode);
    }
    case 1: {
      C copy = c;
      C copy2{copy};
      return with(ctx, copy2, ids, bdim, udim, mode);
    }
    case 2: {
      C other;
      other = c;
      return with(ctx, other, ids, bdim, udim, mode);
    }
    case 3: {
      auto f = [c](gen_t const& x) mutable { return c(x); };
      auto f2 = f;
      return with_(ctx, [=](gen_t const& x) { auto f3 = f2; return f3(x); }, ids, bdim, udim, mode & 1);
    }
    default: return with(ctx, c, ids, bdim, udim, mode);
    }
  }
  // ids: algebras the constructor knows
  template <typename C>
  bool with_(pbt::Ctx& ctx, C const& c, std::set<int> const& ids, std::uint64_t bdim, std::uint64_t udim,
             bool via_make) const {
    bool ok = true;
    for(auto const& m : modes)
      ok &= ids.count(m.alg - 3) > 0;
    try {
      auto hs = via_make ? lc::make_hilbert_space(e, c) : hs_t(e, c);
      MUST(ok, "no exception for an unsupported algebra");
      MUST(bits(bdim, udim) <= 63, "too big a space accepted");
      same(hs, bdim, udim);
      bool predefined = true;
      for(auto const& m : modes)
        predefined &= m.alg < 3;
      if(predefined && !modes.empty()) {
        auto op = lc::make_loperator(e, hs);
        auto op2 = lc::loperator<T, lc::fermion, lc::boson, lc::spin>(e, hs);
        (void)op;
        (void)op2;
      }
    } catch(typename hs_t::hilbert_space_too_big const&) {
      MUST(ok && bits(bdim, udim) > 63, "space of ", bits(bdim, udim), " bits rejected");
      ctx.label("too big");
    } catch(pbt::Failure const&) {
      throw;
    } catch(std::exception const& x) {
      MUST(!ok, "unexpected exception ", x.what());
      auto const* f = dynamic_cast<typename FailureOf<gen_t>::type const*>(&x);
      MUST(f, "another exception: ", x.what());
      auto m = mode(*f->generator_ptr);
      MUST(modes.count(m) && !ids.count(m.alg - 3), "exception names a generator that is supported");
      ctx.label("rejected");
    }
    return ok;
  }
  template <typename G> struct FailureOf;
  template <typename... Is> struct FailureOf<lc::generator<Is...>> {
    using type = lc::es_construction_failure<Is...>;
  };

  void run(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
    model::WorldOpts o;
    o.max_modes = big ? 70 : g.chance(1, 8) ? 14 : 6;
    o.max_mult = 40;
    o.max_idx = big ? 70 : 5;
    o.f = g.chance(3, 4);
    o.b = g.chance(1, 2);
    o.s = g.chance(1, 2) || (!o.f && !o.b);
    auto w = model::gen_world(g, o);
    pool = Pool<I>(g, w.n_idx);
    for(auto& p : w.protos)
      p.idx = p.idx % int(pool.v.size());
    int n = g.len(0, 4);
    bool user = g.chance(1, 3);
    for(int i = 0; i < n; ++i) {
      auto t = gen_tree<T>(g, w, 3, 6, 3);
      E x = eval_lib<I, T>(pool, *t);
      if(user && g.chance(1, 2)) {
        int id = int(g.below(2));
        auto u = std::make_shared<typename UG<I>::type>(id, tup(pool[int(g.below(pool.v.size()))]));
        E y(T(1), typename E::monomial_t({u}));
        x = g.flip() ? x * y : y * x;
      }
      e += x;
    }
    if(big) { // Every mode somewhere
      auto ps = g.shuffled(w.protos);
      E x(T(1));
      for(auto p : ps) {
        p.comp = int(g.below(2));
        x = g.chance(1, 3) ? E(x * gen_expr<I, T>(pool, p)) : E(x + gen_expr<I, T>(pool, p));
        if(x.size() > 6) {
          e += x;
          x = E(T(1));
        }
      }
      e += x;
    }
    if(g.chance(1, 10)) // product of many generators
      for(auto const& p : w.protos) {
        auto gs = p;
        gs.comp = 0;
        auto x = gen_expr<I, T>(pool, gs);
        e = e.size() ? E(e + x) : x;
      }
    ctx << e;
    for(auto const& t : e)
      for(auto const& x : t.monomial)
        modes.insert(mode(x));

    std::uint64_t bdim = g.chance(1, 6) ? g.boundary(1, std::uint64_t(1) << 40) : g.urange(1, 9);
    std::uint64_t udim = g.urange(1, 9);
    int mk = int(g.below(12));
    levels = g.urange(2, 4);
    ctx << " boson dim " << bdim << " levels " << levels << " copies " << mk;
    bool ok = true;
    using namespace lc;
    switch(g.below(11)) {
    case 0: {
      bool good = true;
      for(auto const& m : modes)
        good &= m.alg == model::F || m.alg == model::S;
      if(good && bits(1, 1) <= 63) {
        same(hs_t(e), 1, 1);
        same(make_hilbert_space(e), 1, 1);
      } else if(!good)
        MUST_THROW(std::runtime_error, hs_t(e));
      ok = good;
      break;
    }
    case 1: ok = with(ctx, default_es_constructor(), {-3, -1}, 1, 1, mk); break;
    case 2:
    case 3: ok = with(ctx, boson_es_constructor(bdim), {-3, -2, -1}, bdim, 1, mk); break;
    case 4: ok = with(ctx, es_constructor<fermion, boson>(bdim), {-3, -2}, bdim, 1, mk); break;
    case 5: ok = with(ctx, es_constructor<boson, spin>(bdim), {-2, -1}, bdim, 1, mk); break;
    case 6:
      ok = with(ctx, es_constructor<fermion, boson, spin, 0>(bdim, udim), {-3, -2, -1, 0}, bdim, udim, mk);
      break;
    case 7:
      ok = with(ctx, es_constructor<fermion, boson, spin, 0, 1>(bdim, udim, bridge::Levels{levels}), {-3, -2, -1, 0, 1}, bdim, udim, mk);
      break;
    case 8: {
      es_constructor<fermion, spin, 1> c(bridge::Levels{levels});
      ok = with_mutable(ctx, c, {-3, -1, 1}, 1, 1, mk, int(g.below(5)));
      break;
    }
    case 9: levels = bridge::DefaultLevels; ok = with(ctx, es_constructor<fermion, spin, 1>(), {-3, -1, 1}, 1, 1, mk); break;
    default: {
      boson_es_constructor inner(bdim);
      auto f = [&](gen_t const& x) { return inner(x); };
      ok = with(ctx, f, {-3, -2, -1}, bdim, 1, mk);
    }
    }
    std::set<int> algs;
    for(auto const& m : modes)
      algs.insert(m.alg);
    ctx.nontrivial(!ok || (modes.size() >= 3 && algs.size() >= 2));
  }
};

} // namespace

PROP(int_index, 144000, 2880000) { Env<IdxInt, double>().run(g, ctx); }
PROP(string_int_index, 96000, 1920000) { Env<IdxStrInt, std::complex<double>>().run(g, ctx); }
PROP(many_modes, 3000, 60000) { Env<IdxInt, double>().run(g, ctx, true); }
PROP(dyn_index, 96000, 1920000) { Env<IdxDyn, double>().run(g, ctx); }
