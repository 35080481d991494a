// PBT rule: random expressions over six scalar types and three index families (strings without separators), printed, parsed back by an independent parser and rebuilt from products of single generators; generators and index tuples on their own; non-trivial = two or more terms with a product or a power in them
#include "big.hpp"
#include <cstdlib>
using namespace bridge;

namespace {

struct Parser {
  std::string const& s;
  std::size_t p = 0;
  bool end() const { return p == s.size(); }
  bool eat(std::string const& t) {
    if(s.compare(p, t.size(), t) != 0) return false;
    p += t.size();
    return true;
  }
  [[noreturn]] void fail(char const* what) const {
    throw pbt::Failure(pbt::cat("cannot read ", what, " at position ", p, " of '", s, "'"));
  }
  std::string number() {
    std::size_t b = p;
    if(p < s.size() && s[p] == '-') ++p;
    std::size_t d = p;
    auto digits = [&]() {
      while(p < s.size() && s[p] >= '0' && s[p] <= '9')
        ++p;
    };
    digits();
    if(p < s.size() && s[p] == '.') {
      ++p;
      digits();
    }
    if(d == p) fail("a number");
    if(p < s.size() && s[p] == 'e') {
      ++p;
      if(p < s.size() && (s[p] == '-' || s[p] == '+')) ++p;
      digits();
    }
    return s.substr(b, p - b);
  }
  int integer() {
    std::size_t b = p;
    while(p < s.size() && s[p] >= '0' && s[p] <= '9')
      ++p;
    if(p == b) fail("an integer");
    return std::stoi(s.substr(b, p - b));
  }
  template <typename T> void coeff(T& v) {
    if constexpr(std::is_integral_v<T>)
      v = T(std::stol(number()));
    else if constexpr(std::is_floating_point_v<T>)
      v = T(std::strtold(number().c_str(), nullptr));
    else if constexpr(std::is_same_v<T, std::complex<double>>) {
      double re, im;
      if(!eat("(")) fail("(");
      coeff(re);
      if(!eat(",")) fail(",");
      coeff(im);
      if(!eat(")")) fail(")");
      v = {re, im};
    } else if constexpr(std::is_same_v<T, mpz_class>)
      v = mpz_class(number());
    else if constexpr(std::is_same_v<T, br>) {
      long n = std::stol(number());
      if(!eat("/")) fail("/");
      v = br(n, std::stol(number()));
    } else {
      std::string n = number();
      if(eat("/")) n += "/" + number();
      v = mpq_class(n);
      v.canonicalize();
    }
  }
  // One generator
  template <typename I> GS generator(Pool<I> const& pool) {
    GS x;
    if(eat("C") || eat("A")) {
      x.alg = s[p - 1] == 'C' ? model::F : model::B;
      x.comp = eat("+");
    } else if(eat("S")) {
      x.alg = model::S;
      if(p < s.size() && s[p] >= '0' && s[p] <= '9') {
        int n = integer();
        bool half = eat("/2");
        x.mult = (half ? n : 2 * n) + 1;
        if(x.mult == 2 || (half && n % 2 == 0)) fail("a spin");
      } else
        x.mult = 2;
      x.comp = eat("+") ? model::P : eat("-") ? model::M : eat("z") ? model::Z : -1;
      if(x.comp < 0) fail("a spin component");
    } else
      fail("a generator");
    if(!eat("(")) fail("(");
    auto e = s.find(')', p);
    if(e == std::string::npos) fail("indices");
    x.idx = -1;
    for(std::size_t i = 0; i < pool.v.size(); ++i)
      if(I::raw_str(pool.v[i]) == s.substr(p, e - p)) x.idx = int(i);
    if(x.idx < 0) fail("known indices");
    p = e + 1;
    return x;
  }
  template <typename I> model::Word monomial(Pool<I> const& pool) {
    model::Word w;
    while(!end() && s[p] != ' ') {
      if(eat("[")) {
        GS x = generator(pool);
        if(!eat("]^")) fail("]^");
        int n = integer();
        if(n < 2) fail("a power");
        w.insert(w.end(), std::size_t(n), x);
      } else
        w.push_back(generator(pool));
    }
    return w;
  }
};

template <typename I> bool unambiguous(Pool<I> const& pool) {
  std::set<std::string> s;
  for(auto const& r : pool.v)
    if(!s.insert(I::raw_str(r)).second) return false;
  return true;
}

template <typename I, typename T> void round_trip(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
  using E = typename I::template expr<T>;
  auto w = big ? gen_big(g, 30, Sc<T>::rational).w : model::gen_world(g, {true, true, Sc<T>::rational, 5, 300, 4});
  Pool<I> pool(g, w.n_idx);
  if(int(pool.v.size()) < w.n_idx || !unambiguous(pool)) throw pbt::Discard();
  auto t = gen_tree<T>(g, w, 7, 10, 5);
  ctx << pool.str() << " " << str(*t);
  E const e = big ? E(sum_expr<I, T>(pool, big_sum<T>(g, w, int(g.range(10, 200)), int(g.range(1, 6)))) +
                      word_expr<I, T>(pool, big_word(g, w, 30, 1), CQ(1)))
                  : eval_lib<I, T>(pool, *t);
  std::ostringstream os;
  os.precision(17);
  if(g.chance(1, 4)) os << std::showpos << std::noshowpos;
  os << e;
  std::string txt = os.str();
  ctx << " -> " << txt;
  auto want = terms<I, T>(pool, e);

  Parser p{txt};
  std::vector<std::pair<model::Word, CQ>> got;
  E rebuilt;
  if(want.empty()) {
    T c;
    p.coeff(c);
    MUST(c == T(0) && p.end(), "text of the zero expression");
  } else
    for(;;) {
      T c;
      p.coeff(c);
      model::Word m;
      if(p.eat("*")) {
        m = p.monomial<I>(pool);
        MUST(!m.empty(), "no monomial after '*'");
      }
      E x(c);
      for(auto const& y : m)
        x *= gen_expr<I, T>(pool, y);
      rebuilt += x;
      got.emplace_back(m, Sc<T>::to(c));
      if(p.end()) break;
      MUST(p.eat(" + "), "no separator at position ", p.p, " of '", txt, "'");
    }
  MUST(got == want, "terms read from '", txt, "'");
  MUST(rebuilt == e, "expression rebuilt from '", txt, "'");

  // Monomials and generators alone
  bool deep = false;
  for(auto const& x : e) {
    std::ostringstream ms;
    ms << x.monomial;
    Parser q{txt = ms.str()};
    auto m = q.monomial<I>(pool);
    model::Word r;
    for(auto const& y : x.monomial) {
      r.push_back(to_gs<I>(pool, y));
      std::ostringstream gs;
      gs << y;
      std::string a = gs.str(), b = y.to_string();
      MUST(a == b, "generator printed as '", a, "' and '", b, "'");
      Parser u{a};
      MUST(u.generator<I>(pool) == r.back() && u.end(), "generator read from '", a, "'");
    }
    MUST(m == r && q.end(), "monomial read from '", txt, "'");
    deep |= r.size() > 1;
  }
  ctx.nontrivial(want.size() > 1 && deep);
}

// Monomials that are not in the canonical order: powers are those of adjacent equal generators
template <typename I> void words(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
  auto w = model::gen_world(g, {true, true, true, 3, 300, 3});
  Pool<I> pool(g, w.n_idx);
  if(int(pool.v.size()) < w.n_idx || !unambiguous(pool)) throw pbt::Discard();
  model::Word r;
  int n = big ? int(g.range(10, 300)) : g.len(0, 12);
  bool power = false;
  while(int(r.size()) < n) {
    GS x = gen_gs(g, w);
    int k = g.chance(1, 3) ? int(big ? g.boundary(2, 300) : std::uint64_t(g.range(2, 4))) : 1;
    power |= k > 1;
    r.insert(r.end(), std::size_t(k), x);
  }
  std::vector<std::shared_ptr<const typename I::gen_t>> v;
  for(auto const& x : r)
    v.push_back(make_gen<I>(pool, x));
  typename I::template expr<double>::monomial_t m(v);
  std::ostringstream os;
  os << m;
  std::string s = os.str();
  ctx << s;
  Parser p{s};
  MUST(p.monomial<I>(pool) == r && p.end(), "monomial ", model::str(r), " printed as '", s, "'");
  ctx.nontrivial(power && r.size() > 3);
}

std::string name(pbt::Gen& g) { return gen_name(g); }
template <typename... T> std::string join(T const&... x) {
  std::string r;
  bool first = true;
  auto one = [&](auto const& y) {
    std::ostringstream os;
    os << y;
    r += (first ? "" : ",") + os.str();
    first = false;
  };
  (one(x), ...);
  return r;
}

} // namespace

PROP(integers, 120000, 4800000) { round_trip<IdxInt, long>(g, ctx); }
PROP(reals, 120000, 4800000) { round_trip<IdxStrInt, double>(g, ctx); }
PROP(complex_numbers, 120000, 4800000) { round_trip<IdxDyn, std::complex<double>>(g, ctx); }
PROP(rationals, 120000, 4800000) { round_trip<IdxInt, mpq_class>(g, ctx); }
PROP(boost_rationals, 120000, 4800000) { round_trip<IdxStrInt, br>(g, ctx); }
PROP(big_integers, 80000, 3200000) { round_trip<IdxDyn, mpz_class>(g, ctx); }
PROP(reals_big, 1200, 36000) { round_trip<IdxStrInt, double>(g, ctx, true); }
PROP(rationals_big, 1200, 36000) { round_trip<IdxInt, mpq_class>(g, ctx, true); }
PROP(complex_big, 1200, 36000) { round_trip<IdxDyn, std::complex<double>>(g, ctx, true); }
PROP(monomials_big, 6000, 180000) { words<IdxInt>(g, ctx, true); }
PROP(monomials_int, 240000, 9600000) { words<IdxInt>(g, ctx); }
PROP(monomials_dyn, 240000, 9600000) { words<IdxDyn>(g, ctx); }

// Index tuples of other lengths and types; user-defined algebras use the default notation
namespace {
template <typename... I> class gen_user : public lc::generator<I...> {
  int id_;

public:
  template <typename... A> gen_user(int id, A&&... a) : lc::generator<I...>(std::forward<A>(a)...), id_(id) {}
  int algebra_id() const override { return id_; }
  lc::var_number swap_with(lc::generator<I...> const&, typename lc::generator<I...>::linear_function_t& f) const override {
    f.set(0);
    return 1;
  }
};
template <typename... I> void tuple_case(pbt::Gen& g, pbt::Ctx& ctx, I const&... i) {
  std::string want = join(i...);
  ctx << want;
  MUST(lc::tuple_to_string(std::make_tuple(i...)) == want, "tuple_to_string gives '",
       lc::tuple_to_string(std::make_tuple(i...)), "'");
  bool d = g.flip();
  MUST(lc::static_indices::make_fermion(d, i...)->to_string() == (d ? "C+(" : "C(") + want + ")", "fermion");
  MUST(lc::static_indices::make_boson(d, i...)->to_string() == (d ? "A+(" : "A(") + want + ")", "boson");
  MUST(lc::static_indices::make_spin(lc::plus, i...)->to_string() == "S+(" + want + ")", "spin");
  int id = int(g.range(lc::min_user_defined_algebra_id, 200));
  gen_user<I...> u(id, i...);
  std::ostringstream os;
  os << u;
  MUST(os.str() == "g^" + std::to_string(id) + "(" + want + ")", "user-defined generator printed as '", os.str(), "'");
  ctx.nontrivial();
}
} // namespace
PROP(tuples, 240000, 9600000) {
  auto n = [&]() { return int(g.range(-300, 300)); };
  auto l = [&]() { return long(g.bits64()); };
  switch(g.below(7)) {
  case 0: tuple_case<>(g, ctx); break;
  case 1: tuple_case(g, ctx, n()); break;
  case 2: tuple_case(g, ctx, name(g), n(), name(g)); break;
  case 3: tuple_case(g, ctx, n(), n(), n(), n()); break;
  case 4: tuple_case(g, ctx, l(), name(g)); break;
  case 5: tuple_case(g, ctx, name(g), name(g)); break;
  default: tuple_case(g, ctx, unsigned(g.below(1u << 31)), n(), l(), name(g), n()); break;
  }
}
PROP(dynamic_sequences, 240000, 9600000) {
  auto r = IdxDyn::gen_raw(g);
  std::string want = IdxDyn::raw_str(r);
  ctx << want;
  IdxDyn::dyn d(r);
  std::ostringstream os;
  os << d;
  MUST(to_string(d) == want && os.str() == want, "sequence printed as '", to_string(d), "' and '", os.str(), "'");
  ctx.nontrivial(r.size() > 1);
}
// Structure constants
PROP(variant_numbers, 240000, 9600000) {
  long n = g.range(-30, 30), d = g.range(1, 30);
  if(g.flip()) d = -d;
  if(g.flip()) n *= 1000;
  ctx << n << "/" << d;
  std::ostringstream os;
  switch(g.below(3)) {
  case 0:
    os << lc::var_number(int(n));
    MUST(os.str() == std::to_string(n), "integer printed as ", os.str());
    break;
  case 1: {
    os << lc::var_number(int(n), int(d));
    std::string s = os.str();
    auto k = s.find('/');
    Q got = k == std::string::npos ? Q(s) : Q(s.substr(0, k)) / Q(s.substr(k + 1));
    MUST(got == Q(n) / Q(d), "rational printed as ", s);
    break;
  }
  default: {
    os.precision(17);
    double x = double(n) / double(d);
    os << lc::var_number(x);
    MUST(std::stod(os.str()) == x, "real number printed as ", os.str());
  }
  }
  ctx.nontrivial(n != 0 && d != 1);
}
