#include "C02_body.hpp"
using namespace bridge;

namespace {

// A number whose operations throw on demand; objects are counted
struct Oops {};
struct Th {
  static long live, count, fail_at;
  double v = 0;
  static void step() {
    if(fail_at >= 0 && count++ == fail_at) throw Oops{};
  }
  Th() { ++live; }
  explicit Th(double v) : v(v) {
    step();
    ++live;
  }
  Th(Th const& o) : v(o.v) {
    step();
    ++live;
  }
  Th(Th&& o) noexcept : v(o.v) { ++live; }
  ~Th() { --live; }
  Th& operator=(Th const& o) {
    step();
    v = o.v;
    return *this;
  }
  Th& operator=(Th&& o) noexcept {
    v = o.v;
    return *this;
  }
  friend Th operator+(Th const& a, Th const& b) { return Th(a.v + b.v); }
  friend Th operator-(Th const& a, Th const& b) { return Th(a.v - b.v); }
  friend Th operator*(Th const& a, Th const& b) { return Th(a.v * b.v); }
  Th operator-() const { return Th(-v); }
  friend bool operator==(Th const& a, Th const& b) { return a.v == b.v; }
  double operator()(double x) const {
    step();
    return v * x;
  }
};
long Th::live = 0, Th::count = 0, Th::fail_at = -1;
struct Inject {
  explicit Inject(long at) {
    Th::count = 0;
    Th::fail_at = at;
  }
  ~Inject() { Th::fail_at = -1; }
};

} // namespace
namespace libcommute {
template <> struct scalar_traits<Th> {
  static bool is_zero(Th const& x) { return x.v == 0; }
  static Th make_const(double x) { return Th(x); }
  static Th make_const(var_number const& x) { return Th(double(x)); }
  static Th conj(Th const& x) { return x; }
};
} // namespace libcommute
namespace bridge {
template <> struct Sc<Th> {
  static constexpr bool complex = false, rational = true, exact = true, fp = true;
  static Th from(CQ const& c) { return Th(c.re.get_d()); }
};
} // namespace bridge
namespace {

template <typename I> void scalars(pbt::Gen& g, pbt::Ctx& ctx) {
  OpOpts o;
  o.n_idx = 4;
  o.sites.max_mult = 4;
  o.sites.max_bits = 6;
  OpSpace<I> const s(g, o);
  using E = typename I::template expr<Th>;
  auto ta = gen_tree<double>(g, s.w, 3, 5, 3), tb = gen_tree<double>(g, s.w, 3, 5, 3);
  ctx << str(s.L.sites) << " a=" << str(*ta) << " b=" << str(*tb);
  auto make = [&](Node const& t) {
    return transform(eval_lib<I, double>(s.pool, t), [](auto const&, double c) { return Th(c); });
  };
  E const a = make(*ta), b = make(*tb);
  Th const x(Sc<double>::from(gen_scalar<double>(g)));
  auto same = [](E const& p, E const& q) { return p == q; };
  auto valid = [](E const& e) {
    std::size_t n = 0;
    for(auto const& m : e) {
      MUST(m.coeff.v != 0, "a zero coefficient");
      ++n;
    }
    MUST(n == e.size(), "size");
  };
  auto const op = lc::make_param_loperator(a, s.hs);
  std::vector<double> v(std::size_t(s.hs.vec_size()));
  for(u64 n : s.L.all())
    v[std::size_t(n)] = 1;
  std::vector<std::pair<char const*, std::function<void(E&)>>> ops{
      {"+= b", [&](E& e) { e += b; }},
      {"-= b", [&](E& e) { e -= b; }},
      {"*= b", [&](E& e) { e *= b; }},
      {"*= x", [&](E& e) { e *= x; }},
      {"+= x", [&](E& e) { e += x; }},
      {"-= x", [&](E& e) { e -= x; }},
      {"= b", [&](E& e) { e = b; }},
      {"= x * e - b", [&](E& e) { e = x * e - b; }},
      {"= x - e", [&](E& e) { e = x - e; }},
      {"= -e", [&](E& e) { e = -e; }},
      {"= conj", [&](E& e) { e = conj(e); }},
      {"= transform", [&](E& e) { e = transform(e, [](auto const&, Th const& c) { return c * c; }); }},
      {"op", [&](E& e) {
         auto r = op(v, 2.0);
         e *= Th(r[0] + 1);
       }},
      {"make op", [&](E& e) {
         auto p = lc::make_param_loperator(e, s.hs);
         auto q = p;
         auto r = q(v, 2.0);
         e *= Th(r[0] + 1);
       }},
  };
  auto const& f = g.pick(ops);
  ctx << " | " << f.first;
  long blocks = faults::live, objects = Th::live, n = 0;
  {
    E t(a);
    Inject in(1000000000);
    f.second(t);
    n = Th::count;
  }
  MUST(faults::live == blocks && Th::live == objects, f.first, " leaks");
  E want(a);
  f.second(want);
  E const bc(b);
  for(long at : gen_faults(g, n, 12)) {
    blocks = faults::live;
    objects = Th::live;
    {
      E t(a);
      bool thrown = false;
      try {
        Inject in(at);
        f.second(t);
      } catch(Oops const&) {
        thrown = true;
      }
      if(thrown) {
        ctx.nontrivial(true);
        valid(t);
        E const c(t);
        MUST(same(c, t), f.first, ": copy after a failure");
        t = a;
        MUST(same(t, a), f.first, ": assignment after a failure");
        f.second(t);
      }
      MUST(same(t, want), f.first, ": result after operation ", at, " of ", n, " failed");
    }
    MUST(faults::live == blocks && Th::live == objects, f.first, " with operation ", at, " of ", n, " failing leaks");
  }
  MUST(same(b, bc), "the other operand has changed");
}

} // namespace

PROP(scalars_int, 48000, 960000) { scalars<IdxInt>(g, ctx); }
PROP(scalars_dyn, 24000, 480000) { scalars<IdxDyn>(g, ctx); }
