// PBT rule: histories of monomial operations over several variables (construction from values, pointers and copies, appending of generators, monomials, ranges and of the monomial itself, concatenation of two to four parts of any kind, swaps, copies, moves), mirrored by plain sequences, with all forms of access compared after each step; non-trivial = a sequence of three or more generators resulted from two or more parts
#include "lib.hpp"
using namespace bridge;

namespace {

template <typename I> struct Machine {
  using E = typename I::template expr<double>;
  using mono = typename E::monomial_t;
  using gen_t = typename I::gen_t;
  using range = typename mono::range_type;
  Pool<I> pool;
  model::World w;
  std::size_t cap;
  std::vector<std::shared_ptr<const gen_t>> gens;
  std::vector<GS> gss;
  static constexpr int N = 4;
  mono m[N];
  model::Word ref[N];

  explicit Machine(pbt::Gen& g, std::size_t c) : pool(g, 3), cap(c) {
    if(pool.v.size() < 3) throw pbt::Discard(); // the same index was drawn every time
    w = model::gen_world(g, {true, true, true, 4, 4, 3});
    for(int i = 0; i < 5; ++i) {
      gss.push_back(gen_gs(g, w));
      gens.push_back(make_gen<I>(pool, gss.back()));
    }
  }
  model::Word read(mono const& x) const {
    model::Word r;
    for(auto const& y : x)
      r.push_back(to_gs<I>(pool, y));
    return r;
  }
  GS gs(gen_t const& x) const { return to_gs<I>(pool, x); }

  void look(pbt::Gen& g, int i) const {
    mono const& x = m[i];
    auto const& r = ref[i];
    MUST(x.size() == r.size() && x.empty() == r.empty(), "size of variable ", i);
    MUST(read(x) == r, "variable ", i, " is ", model::str(read(x)), " instead of ", model::str(r));
    for(std::size_t k = 0; k < r.size(); ++k)
      MUST(gs(x[k]) == r[k], "operator[]");
    model::Word b;
    for(auto it = x.rbegin(); it != x.rend(); ++it)
      b.push_back(gs(*it));
    for(auto it = x.crbegin(); it != x.crend(); it++)
      b.push_back(gs(*it));
    model::Word rr(r.rbegin(), r.rend());
    rr.insert(rr.end(), r.rbegin(), r.rend());
    MUST(b == rr, "reverse iteration");
    MUST(x.is_ordered() == std::is_sorted(r.begin(), r.end()), "is_ordered of ", model::str(r));
    // Iterator arithmetic
    auto n = r.size();
    auto p = g.below(n + 1), q = g.below(n + 1);
    auto a = x.begin() + p;
    auto c = x.cend() - (n - q);
    MUST(a - c == std::ptrdiff_t(p) - std::ptrdiff_t(q) && c - a == std::ptrdiff_t(q) - std::ptrdiff_t(p), "difference");
    MUST((a == c) == (p == q) && (a != c) == (p != q) && (a < c) == (p < q) && (a > c) == (p > q) &&
             (a <= c) == (p <= q) && (a >= c) == (p >= q),
         "comparison of iterators");
    auto t = a;
    if(p <= q) {
      MUST((t += q - p) == c && t == c && q - p + a == c && (c - (q - p)) == a, "advance");
      t -= q - p;
      MUST(t == a, "step back");
      MUST(std::distance(a, c) == std::ptrdiff_t(q - p), "distance");
      if(q < n) MUST(gs(a[q - p]) == r[q] && c->algebra_id() == x[q].algebra_id(), "element by iterator");
    }
    swap(t, c);
    MUST(c == a && t - x.begin() == std::ptrdiff_t(q), "swap of iterators");
    if(p < n) {
      auto u = a, v = a;
      MUST(u++ == a && ++v == u && u - 1 == a, "increment");
      MUST(u-- == v && --v == a && u == a, "decrement");
      MUST(gs(*a) == r[p] && gs(*(a + 0)) == r[p], "dereference");
    }
    for(int j = 0; j < N; ++j) {
      bool eq = r == ref[j], lt = model::WordLess()(r, ref[j]), gt = model::WordLess()(ref[j], r);
      MUST((x == m[j]) == eq && (x != m[j]) == !eq, "equality of ", model::str(r), " and ", model::str(ref[j]));
      MUST((x < m[j]) == lt && (x > m[j]) == gt, "order of ", model::str(r), " and ", model::str(ref[j]));
    }
  }

  // The part 'p' of a concatenation and its contents
  struct Part {
    int kind;
    std::size_t a, b, i;
    model::Word ref;
  };
  Part part(pbt::Gen& g) {
    Part p{int(g.below(4)), 0, 0, 0, {}};
    if(p.kind == 0) {
      p.i = g.below(gens.size());
      p.ref = {gss[p.i]};
      return p;
    }
    p.i = g.below(N);
    p.ref = ref[p.i];
    if(p.kind == 3) {
      p.b = g.below(p.ref.size() + 1);
      p.a = g.below(p.b + 1);
      p.ref = model::Word(ref[p.i].begin() + long(p.a), ref[p.i].begin() + long(p.b));
    }
    return p;
  }
  template <typename F> auto with(Part const& p, F const& f) {
    switch(p.kind) {
    case 0: return f(*gens[p.i]);
    case 1: return f(m[p.i]);
    case 2: return f(mono(m[p.i]));
    default: return f(range(m[p.i].begin() + p.a, m[p.i].begin() + p.b));
    }
  }
};

// Only monomials and ranges make 'concatenate' visible
template <typename mono, typename gen_t, typename... P> mono cat(P&&... p) {
  if constexpr((std::is_base_of_v<gen_t, std::decay_t<P>> && ...))
    return concatenate(std::forward<P>(p)..., mono());
  else
    return concatenate(std::forward<P>(p)...);
}

template <typename I> void history(pbt::Gen& g, pbt::Ctx& ctx, std::size_t cap = 24) {
  Machine<I> s(g, cap);
  bool longer = cap > 24;
  using mono = typename Machine<I>::mono;
  using gen_t = typename I::gen_t;
  int steps = g.len(3, longer ? 25 : 40);
  for(int k = 0; k < steps; ++k) {
    int i = int(g.below(s.N)), j = int(g.below(s.N));
    auto op = g.weighted({3, 3, 3, 5, 3, 2, 2, 2, 1, 2, 1});
    bool many = false;
    switch(op) {
    case 0: { // from pointers
      std::vector<std::shared_ptr<const gen_t>> v;
      s.ref[i].clear();
      int n = longer ? int(g.below(cap)) : g.len(0, 6);
      std::vector<std::size_t> ys;
      for(int x = 0; x < n; ++x)
        ys.push_back(g.below(s.gens.size()));
      if(longer && g.chance(2, 3)) // In order, or nearly so
        std::sort(ys.begin(), ys.end(), [&](auto a, auto b) { return s.gss[a] < s.gss[b]; });
      if(longer && n > 1 && g.flip()) {
        auto a = g.below(std::uint64_t(n - 1));
        std::swap(ys[a], ys[a + 1]);
      }
      for(auto y : ys) {
        v.push_back(s.gens[y]);
        s.ref[i].push_back(s.gss[y]);
      }
      s.m[i] = mono(v);
      many = n > 1;
      ctx << " m" << i << "=" << model::str(s.ref[i]) << ";";
      break;
    }
    case 1: { // from generators by value
      auto y = g.below(s.gens.size()), z = g.below(s.gens.size());
      auto const& a = *s.gens[y];
      auto const& b = *s.gens[z];
      s.ref[i] = {s.gss[y], s.gss[z]};
      ctx << " m" << i << "={" << model::str(s.ref[i]) << "};";
      using F = typename I::gen_f;
      using B = typename I::gen_b;
      using S = typename I::gen_s;
      auto one = [&](auto const& x) {
        if(b.algebra_id() == lc::fermion) return mono(x, F(dynamic_cast<F const&>(b)));
        if(b.algebra_id() == lc::boson) return mono(x, dynamic_cast<B const&>(b));
        S c = dynamic_cast<S const&>(b);
        return mono(x, c);
      };
      if(a.algebra_id() == lc::fermion)
        s.m[i] = one(dynamic_cast<F const&>(a));
      else if(a.algebra_id() == lc::boson)
        s.m[i] = one(dynamic_cast<B const&>(a));
      else
        s.m[i] = one(dynamic_cast<S const&>(a));
      many = true;
      break;
    }
    case 2: { // from an initializer list
      auto y = g.below(s.gens.size()), z = g.below(s.gens.size()), u = g.below(s.gens.size());
      s.ref[i] = {s.gss[y], s.gss[z], s.gss[u]};
      s.m[i] = mono({s.gens[y], s.gens[z], s.gens[u]});
      ctx << " m" << i << "=" << model::str(s.ref[i]) << ";";
      break;
    }
    case 3: { // concatenate
      int n = int(g.range(1, 4));
      auto a = s.part(g), b = s.part(g), c = s.part(g), d = s.part(g);
      if(a.ref.size() + b.ref.size() + c.ref.size() + d.ref.size() > cap) break;
      model::Word r = a.ref;
      auto app = [&](auto const& p) { r.insert(r.end(), p.ref.begin(), p.ref.end()); };
      if(n > 1) app(b);
      if(n > 2) app(c);
      if(n > 3) app(d);
      auto fun = [&](auto&& pa) {
        if(n == 1) return cat<mono, gen_t>(pa);
        return s.with(b, [&](auto&& pb) {
          if(n == 2) return cat<mono, gen_t>(pa, std::forward<decltype(pb)>(pb));
          return s.with(c, [&](auto&& pc) {
            if(n == 3) return cat<mono, gen_t>(pa, pb, std::forward<decltype(pc)>(pc));
            // four parts, the last of a fixed kind
            if(d.kind == 0) return cat<mono, gen_t>(pa, pb, pc, *s.gens[d.i]);
            return cat<mono, gen_t>(pa, pb, pc, mono(std::vector<std::shared_ptr<const gen_t>>()),
                               std::make_pair(s.m[d.i].begin() + (d.kind == 3 ? d.a : 0),
                                              s.m[d.i].begin() + (d.kind == 3 ? d.b : s.m[d.i].size())));
          });
        });
      };
      mono res = s.with(a, fun);
      ctx << " m" << i << "=concat" << n << ";";
      s.m[i] = res;
      s.ref[i] = r;
      many = n > 1;
      break;
    }
    case 4: { // append
      if(s.ref[i].size() + s.ref[j].size() > cap) break;
      auto p = s.part(g);
      if(p.kind == 0) {
        ctx << " m" << i << "+=" << p.ref[0].str() << ";";
        s.m[i].append(*s.gens[p.i]);
        s.ref[i].push_back(p.ref[0]);
      } else if(p.kind == 3) {
        // A range of another monomial
        if(int(p.i) == i || s.ref[i].size() + p.ref.size() > cap) break;
        ctx << " m" << i << "+=range of m" << p.i << ";";
        s.m[i].append(typename mono::range_type(s.m[p.i].begin() + p.a, s.m[p.i].begin() + p.b));
        s.ref[i].insert(s.ref[i].end(), p.ref.begin(), p.ref.end());
      } else {
        ctx << " m" << i << "+=m" << j << ";";
        s.m[i].append(s.m[j]);
        auto t = s.ref[j];
        s.ref[i].insert(s.ref[i].end(), t.begin(), t.end());
      }
      many = true;
      break;
    }
    case 5: { // swap_generators
      if(s.ref[i].empty()) break;
      auto a = g.below(s.ref[i].size()), b = g.below(s.ref[i].size());
      ctx << " swap m" << i << " " << a << " " << b << ";";
      s.m[i].swap_generators(a, b);
      std::swap(s.ref[i][a], s.ref[i][b]);
      break;
    }
    case 6:
      ctx << " m" << i << "=m" << j << ";";
      s.m[i] = s.m[j];
      s.ref[i] = s.ref[j];
      break;
    case 7: {
      ctx << " m" << i << "=move(m" << j << ");";
      if(i == j) break;
      s.m[i] = std::move(s.m[j]);
      s.ref[i] = s.ref[j];
      s.m[j] = mono();
      s.ref[j].clear();
      break;
    }
    case 8: {
      mono c(s.m[i]);
      mono d(std::move(c));
      MUST(s.read(d) == s.ref[i] && d == s.m[i], "copy and move construction");
      s.m[j] = d;
      s.ref[j] = s.ref[i];
      break;
    }
    case 9: { // generators of the monomial itself
      if(s.ref[i].empty() || s.ref[i].size() > cap - 4) break;
      auto a = g.below(s.ref[i].size());
      ctx << " m" << i << "+=m" << i << "[" << a << "];";
      s.m[i].append(s.m[i][a]);
      s.ref[i].push_back(GS(s.ref[i][a]));
      many = true;
      break;
    }
    default: {
      std::swap(s.m[i], s.m[j]);
      std::swap(s.ref[i], s.ref[j]);
    }
    }
    for(int x = 0; x < s.N; ++x)
      s.look(g, x);
    ctx.nontrivial(many && s.ref[i].size() >= 3);
  }
}

} // namespace

PROP(history_int, 600000, 12000000) { history<IdxInt>(g, ctx); }
PROP(history_str_int, 300000, 6000000) { history<IdxStrInt>(g, ctx); }
PROP(history_dyn, 300000, 6000000) { history<IdxDyn>(g, ctx); }
// Monomials of hundreds of generators
PROP(history_long_int, 3000, 60000) { history<IdxInt>(g, ctx, 300); }
PROP(history_long_dyn, 1500, 30000) { history<IdxDyn>(g, ctx, 150); }
