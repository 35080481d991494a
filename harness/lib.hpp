// Bridge between the reference model and libcommute's public interface
#pragma once
#include "model.hpp"

#include <libcommute/libcommute.hpp>

#include <boost/rational.hpp>
#include <libcommute/scalars/boost_rational.hpp>
#include <libcommute/scalars/gmpxx.hpp>

namespace lc = libcommute;

namespace bridge {

using model::CQ;
using model::GS;
using model::Q;

using br = boost::rational<long>;

// ------------------------------------------------------------------- scalars

template <typename T, typename = void> struct Sc;
template <typename T> struct Sc<T, std::enable_if_t<std::is_integral_v<T>>> {
  static constexpr bool complex = false, rational = false, exact = true, fp = false;
  static CQ to(T x) { return CQ(long(x)); }
  static T from(CQ const& c) { return T(c.re.get_num().get_si()); }
};
template <typename T> struct Sc<T, std::enable_if_t<std::is_floating_point_v<T>>> {
  static constexpr bool complex = false, rational = true, exact = false, fp = true;
  static CQ to(T x) { return CQ(Q(double(x))); }
  static T from(CQ const& c) { return T(c.re.get_d()); }
};
template <typename R> struct Sc<std::complex<R>> {
  static constexpr bool complex = true, rational = true, exact = false, fp = true;
  static CQ to(std::complex<R> x) { return CQ(Q(double(x.real())), Q(double(x.imag()))); }
  static std::complex<R> from(CQ const& c) {
    return {R(c.re.get_d()), R(c.im.get_d())};
  }
};
template <> struct Sc<mpq_class> {
  static constexpr bool complex = false, rational = true, exact = true, fp = false;
  static CQ to(mpq_class const& x) { return CQ(x); }
  static mpq_class from(CQ const& c) { return c.re; }
};
template <> struct Sc<mpz_class> {
  static constexpr bool complex = false, rational = false, exact = true, fp = false;
  static CQ to(mpz_class const& x) { return CQ(Q(x)); }
  static mpz_class from(CQ const& c) { return c.re.get_num(); }
};
template <> struct Sc<mpf_class> {
  static constexpr bool complex = false, rational = true, exact = false, fp = true;
  static CQ to(mpf_class const& x) { return CQ(Q(x)); }
  static mpf_class from(CQ const& c) { return mpf_class(c.re); }
};
template <> struct Sc<br> {
  static constexpr bool complex = false, rational = true, exact = true, fp = false;
  static CQ to(br const& x) { return CQ(model::q(x.numerator(), x.denominator())); }
  static br from(CQ const& c) {
    return br(c.re.get_num().get_si(), c.re.get_den().get_si());
  }
};

// Small scalar, exactly representable in T (dyadic denominators)
template <typename T> CQ gen_scalar(pbt::Gen& g, bool nonzero = false) {
  auto part = [&]() {
    long n = g.range(0, 6);
    n = (n % 2) ? -(n + 1) / 2 : n / 2; // 0,-1,1,-2,2,-3,3
    long d = Sc<T>::rational ? (1L << g.weighted({4, 2, 1})) : 1;
    return model::q(n, d);
  };
  CQ c(part());
  if(Sc<T>::complex && g.flip()) {
    c.im = g.chance(1, 3) ? (g.flip() ? c.re : Q(-c.re)) : part();
  }
  if(nonzero && c.zero()) c.re = 1;
  return c;
}

// ------------------------------------------------------------- index families

// Each family has: a tuple/value type of distinct index sequences, sorted by the
// documented order, and makes generators from the rank in that pool.

inline std::string gen_name(pbt::Gen& g) {
  static const std::vector<std::string> names = {"a", "b", "up", "dn", "", "A", "ab", "z z",
                                                 "up2", "\xc3\xa9"};
  return g.pick(names);
}
inline int gen_int_idx(pbt::Gen& g, bool wide = false) {
  if(wide) return int(g.range(0, 300));
  switch(g.weighted({6, 2, 1})) {
  case 0: return int(g.range(0, 5));
  case 1: return int(g.range(-6, 12));
  default: {
    static const std::vector<int> ext = {std::numeric_limits<int>::max(),
                                         std::numeric_limits<int>::min(), 1000000, -1000000};
    return g.pick(ext);
  }
  }
}

struct IdxInt {
  template <typename Sc_> using expr = lc::expression<Sc_, int>;
  using gen_t = lc::generator<int>;
  using gen_f = lc::generator_fermion<int>;
  using gen_b = lc::generator_boson<int>;
  using gen_s = lc::generator_spin<int>;
  using raw = int;
  static raw gen_raw(pbt::Gen& g, bool wide = false) { return gen_int_idx(g, wide); }
  static bool raw_less(raw a, raw b) { return a < b; }
  static auto fermion(bool d, raw i) { return lc::static_indices::make_fermion(d, i); }
  static auto boson(bool d, raw i) { return lc::static_indices::make_boson(d, i); }
  static auto spin(double s, lc::spin_component c, raw i) {
    return lc::static_indices::make_spin(s, c, i);
  }
  static raw index_of(gen_t const& x) { return std::get<0>(x.indices()); }
  static std::string raw_str(raw r) { return std::to_string(r); }
};
struct IdxStrInt {
  template <typename Sc_> using expr = lc::expression<Sc_, std::string, int>;
  using gen_t = lc::generator<std::string, int>;
  using gen_f = lc::generator_fermion<std::string, int>;
  using gen_b = lc::generator_boson<std::string, int>;
  using gen_s = lc::generator_spin<std::string, int>;
  using raw = std::pair<std::string, int>;
  static raw gen_raw(pbt::Gen& g, bool wide = false) {
    auto n = gen_name(g);
    return {n, gen_int_idx(g, wide)};
  }
  static bool raw_less(raw const& a, raw const& b) {
    if(a.first != b.first) return a.first < b.first;
    return a.second < b.second;
  }
  static auto fermion(bool d, raw i) {
    return lc::static_indices::make_fermion(d, i.first, i.second);
  }
  static auto boson(bool d, raw i) {
    return lc::static_indices::make_boson(d, i.first, i.second);
  }
  static auto spin(double s, lc::spin_component c, raw i) {
    return lc::static_indices::make_spin(s, c, i.first, i.second);
  }
  static raw index_of(gen_t const& x) {
    return {std::get<0>(x.indices()), std::get<1>(x.indices())};
  }
  static std::string raw_str(raw const& r) { return r.first + "," + std::to_string(r.second); }
};
struct IdxDyn {
  using dyn = lc::dynamic_indices::dyn_indices;
  template <typename Sc_> using expr = lc::expression<Sc_, dyn>;
  using gen_t = lc::generator<dyn>;
  using gen_f = lc::generator_fermion<dyn>;
  using gen_b = lc::generator_boson<dyn>;
  using gen_s = lc::generator_spin<dyn>;
  using raw = std::vector<std::variant<int, std::string>>;
  static raw gen_raw(pbt::Gen& g, bool wide = false) {
    raw r;
    int n = int(g.weighted({2, 4, 3, 1}));
    for(int i = 0; i < n; ++i) {
      if(g.flip())
        r.emplace_back(gen_name(g));
      else
        r.emplace_back(gen_int_idx(g, wide));
    }
    return r;
  }
  // Documented: shorter sequences first; then lexicographic, integers before strings
  static bool raw_less(raw const& a, raw const& b) {
    if(a.size() != b.size()) return a.size() < b.size();
    for(std::size_t i = 0; i < a.size(); ++i) {
      bool ia = std::holds_alternative<int>(a[i]), ib = std::holds_alternative<int>(b[i]);
      if(ia != ib) return ia;
      if(ia) {
        if(std::get<int>(a[i]) != std::get<int>(b[i]))
          return std::get<int>(a[i]) < std::get<int>(b[i]);
      } else {
        if(std::get<std::string>(a[i]) != std::get<std::string>(b[i]))
          return std::get<std::string>(a[i]) < std::get<std::string>(b[i]);
      }
    }
    return false;
  }
  static auto fermion(bool d, raw const& i) {
    return std::make_shared<gen_f>(d, dyn(i));
  }
  static auto boson(bool d, raw const& i) { return std::make_shared<gen_b>(d, dyn(i)); }
  static auto spin(double s, lc::spin_component c, raw const& i) {
    return std::make_shared<gen_s>(s, c, dyn(i));
  }
  static raw index_of(gen_t const& x) {
    return static_cast<raw const&>(std::get<0>(x.indices()));
  }
  static std::string raw_str(raw const& r) {
    std::string s;
    for(std::size_t i = 0; i < r.size(); ++i)
      s += (i ? "," : "") + (std::holds_alternative<int>(r[i])
                                 ? std::to_string(std::get<int>(r[i]))
                                 : std::get<std::string>(r[i]));
    return s;
  }
};

// Indices of a user's own type, whose order is neither that of its text nor that of its members
struct Orb {
  int n;
  bool hole;
  friend bool operator==(Orb const& a, Orb const& b) { return a.n == b.n && a.hole == b.hole; }
  friend bool operator!=(Orb const& a, Orb const& b) { return !(a == b); }
  friend bool operator<(Orb const& a, Orb const& b) {
    return a.hole != b.hole ? b.hole : (a.hole ? a.n < b.n : b.n < a.n);
  }
  friend bool operator>(Orb const& a, Orb const& b) { return b < a; }
  friend bool operator<=(Orb const& a, Orb const& b) { return !(b < a); }
  friend bool operator>=(Orb const& a, Orb const& b) { return !(a < b); }
  friend std::string to_string(Orb const& a) { return std::to_string(a.n) + (a.hole ? "h" : "p"); }
};
struct IdxUser {
  template <typename Sc_> using expr = lc::expression<Sc_, Orb, long, Orb>;
  using gen_t = lc::generator<Orb, long, Orb>;
  using gen_f = lc::generator_fermion<Orb, long, Orb>;
  using gen_b = lc::generator_boson<Orb, long, Orb>;
  using gen_s = lc::generator_spin<Orb, long, Orb>;
  using raw = std::tuple<Orb, long, Orb>;
  static raw gen_raw(pbt::Gen& g, bool wide = false) {
    auto orb = [&]() { return Orb{int(g.range(-1, wide ? 9 : 1)), g.flip()}; };
    Orb a = orb();
    long l = g.chance(1, 8) ? long(g.bits64()) : long(g.range(0, 1));
    return raw(a, l, orb());
  }
  static bool raw_less(raw const& a, raw const& b) {
    if(!(std::get<0>(a) == std::get<0>(b))) return std::get<0>(a) < std::get<0>(b);
    if(std::get<1>(a) != std::get<1>(b)) return std::get<1>(a) < std::get<1>(b);
    return std::get<2>(a) < std::get<2>(b);
  }
  static auto fermion(bool d, raw const& i) {
    return lc::static_indices::make_fermion(d, std::get<0>(i), std::get<1>(i), std::get<2>(i));
  }
  static auto boson(bool d, raw const& i) {
    return lc::static_indices::make_boson(d, std::get<0>(i), std::get<1>(i), std::get<2>(i));
  }
  static auto spin(double s, lc::spin_component c, raw const& i) {
    return lc::static_indices::make_spin(s, c, std::get<0>(i), std::get<1>(i), std::get<2>(i));
  }
  static raw index_of(gen_t const& x) { return x.indices(); }
  static std::string raw_str(raw const& r) {
    return to_string(std::get<0>(r)) + "," + std::to_string(std::get<1>(r)) + "," + to_string(std::get<2>(r));
  }
};
template <typename I> struct Pool {
  std::vector<typename I::raw> v; // sorted, distinct
  Pool() = default;
  Pool(pbt::Gen& g, int n) {
    for(int tries = 0; int(v.size()) < n && tries < 4 * n; ++tries) {
      auto r = I::gen_raw(g, n > 12);
      bool dup = false;
      for(auto const& x : v)
        dup |= (x == r);
      if(!dup) v.push_back(r);
    }
    std::sort(v.begin(), v.end(), I::raw_less);
  }
  int rank(typename I::raw const& r) const {
    for(std::size_t i = 0; i < v.size(); ++i)
      if(v[i] == r) return int(i);
    throw pbt::Failure("library returned an index that was never used");
  }
  typename I::raw const& operator[](int i) const { return v[std::size_t(i) % v.size()]; }
  std::string str() const {
    std::string s = "{";
    for(auto const& r : v)
      s += "(" + I::raw_str(r) + ")";
    return s + "}";
  }
};

template <typename I>
std::shared_ptr<const typename I::gen_t> make_gen(Pool<I> const& pool, GS const& x) {
  switch(x.alg) {
  case model::F: return I::fermion(x.comp == 1, pool[x.idx]);
  case model::B: return I::boson(x.comp == 1, pool[x.idx]);
  default:
    return I::spin((x.mult - 1) / 2.0,
                   x.comp == model::P ? lc::plus : (x.comp == model::M ? lc::minus : lc::z),
                   pool[x.idx]);
  }
}
template <typename I> GS to_gs(Pool<I> const& pool, typename I::gen_t const& x) {
  GS r;
  r.idx = pool.rank(I::index_of(x));
  int id = x.algebra_id();
  if(id == lc::fermion) {
    r.alg = model::F;
    r.comp = dynamic_cast<typename I::gen_f const&>(x).dagger() ? 1 : 0;
  } else if(id == lc::boson) {
    r.alg = model::B;
    r.comp = dynamic_cast<typename I::gen_b const&>(x).dagger() ? 1 : 0;
  } else if(id == lc::spin) {
    auto const& s = dynamic_cast<typename I::gen_s const&>(x);
    r.alg = model::S;
    r.mult = s.multiplicity();
    r.comp = s.component() == lc::plus ? model::P
                                       : (s.component() == lc::minus ? model::M : model::Z);
  } else
    throw pbt::Failure("unknown algebra id of a generator");
  return r;
}
template <typename I, typename T>
typename I::template expr<T> gen_expr(Pool<I> const& pool, GS const& x) {
  using E = typename I::template expr<T>;
  return E(T(1), typename E::monomial_t({make_gen<I>(pool, x)}));
}

// The terms of an expression exactly as stored, in storage order
template <typename I, typename T>
std::vector<std::pair<model::Word, CQ>> terms(Pool<I> const& pool,
                                              typename I::template expr<T> const& e) {
  std::vector<std::pair<model::Word, CQ>> r;
  for(auto const& t : e) {
    model::Word w;
    for(auto const& x : t.monomial)
      w.push_back(to_gs<I>(pool, x));
    r.emplace_back(std::move(w), Sc<T>::to(t.coeff));
  }
  return r;
}
template <typename I, typename T>
model::Canon canon_of(Pool<I> const& pool, typename I::template expr<T> const& e) {
  model::Canon c;
  for(auto& t : terms<I, T>(pool, e))
    model::add_to(c, t.first, t.second);
  return c;
}
inline model::Canon canon_of(std::vector<std::pair<model::Word, CQ>> const& ts) {
  model::Canon c;
  for(auto& t : ts)
    model::add_to(c, t.first, t.second);
  return c;
}

// ---------------------------------------------------------- expression trees

struct Node;
using NodeP = std::shared_ptr<Node>;
struct Node {
  enum Kind { Gen, Const, Add, Sub, Mul, Neg, ScaleL, ScaleR, AddC, SubC, CAdd, CSub } kind;
  GS gs;
  CQ val;
  int form = 0; // which of several equivalent spellings to use
  NodeP l, r;
  int deg = 0, terms = 0, consts = 0;
};
inline std::string str(Node const& n) {
  auto v = [&]() { return pbt::cat(n.val); };
  switch(n.kind) {
  case Node::Gen: return n.gs.str();
  case Node::Const: return "E(" + v() + ")";
  case Node::Add: return "(" + str(*n.l) + (n.form ? "+=" : " + ") + str(*n.r) + ")";
  case Node::Sub: return "(" + str(*n.l) + (n.form ? "-=" : " - ") + str(*n.r) + ")";
  case Node::Mul: return "(" + str(*n.l) + (n.form ? "*=" : " * ") + str(*n.r) + ")";
  case Node::Neg: return "-(" + str(*n.l) + ")";
  case Node::ScaleL: return "(" + v() + "." + str(*n.l) + ")";
  case Node::ScaleR: return "(" + str(*n.l) + (n.form ? ".=" : ".") + v() + ")";
  case Node::AddC: return "(" + str(*n.l) + (n.form ? "+=" : "+") + v() + ")";
  case Node::SubC: return "(" + str(*n.l) + (n.form ? "-=" : "-") + v() + ")";
  case Node::CAdd: return "(" + v() + "+" + str(*n.l) + ")";
  case Node::CSub: return "(" + v() + "-" + str(*n.l) + ")";
  }
  return "?";
}
// Random tree with degree <= maxdeg
template <typename T>
NodeP gen_tree(pbt::Gen& g, model::World const& w, int maxdeg, int maxterms, int depth) {
  auto n = std::make_shared<Node>();
  auto leaf = [&]() {
    if(maxdeg >= 1 && !g.chance(1, 8)) {
      n->kind = Node::Gen;
      n->gs = gen_gs(g, w);
      n->deg = 1;
    } else {
      n->kind = Node::Const;
      n->val = gen_scalar<T>(g);
    }
    n->terms = 1;
    return n;
  };
  if(depth <= 0 || maxdeg < 1) return leaf();
  switch(g.weighted({2, 7, 3, 3, 1, 1, 1, 1, 1, 1, 1})) {
  case 0: return leaf();
  case 1: {
    n->kind = Node::Mul;
    int dl = maxdeg >= 2 ? int(g.range(1, maxdeg - 1)) : 1;
    n->l = gen_tree<T>(g, w, dl, maxterms, depth - 1);
    if(maxdeg - n->l->deg < 1 || n->l->terms * 2 > maxterms) return n->l;
    n->r = gen_tree<T>(g, w, maxdeg - n->l->deg, maxterms / n->l->terms, depth - 1);
    n->deg = n->l->deg + n->r->deg;
    n->terms = n->l->terms * n->r->terms;
    n->form = int(g.below(2));
    return n;
  }
  case 2: n->kind = Node::Add; break;
  case 3: n->kind = Node::Sub; break;
  case 4: n->kind = Node::Neg; break;
  case 5: n->kind = Node::ScaleL; break;
  case 6: n->kind = Node::ScaleR; break;
  case 7: n->kind = Node::AddC; break;
  case 8: n->kind = Node::SubC; break;
  case 9: n->kind = Node::CAdd; break;
  default: n->kind = Node::CSub; break;
  }
  n->form = int(g.below(2));
  n->l = gen_tree<T>(g, w, maxdeg, maxterms, depth - 1);
  n->deg = n->l->deg;
  n->terms = n->l->terms;
  if(n->kind == Node::Add || n->kind == Node::Sub) {
    if(n->terms + 1 > maxterms) return n->l;
    n->r = gen_tree<T>(g, w, maxdeg, maxterms - n->terms, depth - 1);
    n->deg = std::max(n->deg, n->r->deg);
    n->terms += n->r->terms;
  } else if(n->kind != Node::Neg) {
    n->val = gen_scalar<T>(g);
    n->terms += 1;
  }
  return n;
}
template <typename I, typename T>
typename I::template expr<T> eval_lib(Pool<I> const& pool, Node const& n) {
  using E = typename I::template expr<T>;
  auto l = [&]() { return eval_lib<I, T>(pool, *n.l); };
  auto r = [&]() { return eval_lib<I, T>(pool, *n.r); };
  T v = Sc<T>::from(n.val);
  switch(n.kind) {
  case Node::Gen: return gen_expr<I, T>(pool, n.gs);
  case Node::Const: return E(v);
  case Node::Add:
    if(!n.form) return l() + r();
    {
      E e = l();
      e += r();
      return e;
    }
  case Node::Sub:
    if(!n.form) return l() - r();
    {
      E e = l();
      e -= r();
      return e;
    }
  case Node::Mul:
    if(!n.form) return l() * r();
    {
      E e = l();
      e *= r();
      return e;
    }
  case Node::Neg: return -l();
  case Node::ScaleL: return v * l();
  case Node::ScaleR:
    if(!n.form) return l() * v;
    {
      E e = l();
      e *= v;
      return e;
    }
  case Node::AddC:
    if(!n.form) return l() + v;
    {
      E e = l();
      e += v;
      return e;
    }
  case Node::SubC:
    if(!n.form) return l() - v;
    {
      E e = l();
      e -= v;
      return e;
    }
  case Node::CAdd: return v + l();
  case Node::CSub: return v - l();
  }
  throw std::logic_error("bad node");
}
inline model::Canon eval_canon(Node const& n) {
  using namespace model;
  switch(n.kind) {
  case Node::Gen: return {{Word{n.gs}, CQ(1)}};
  case Node::Const: return scale(Canon{{Word{}, CQ(1)}}, n.val);
  case Node::Add: return add(eval_canon(*n.l), eval_canon(*n.r));
  case Node::Sub: return add(eval_canon(*n.l), eval_canon(*n.r), CQ(-1));
  case Node::Mul: return mul(eval_canon(*n.l), eval_canon(*n.r));
  case Node::Neg: return scale(eval_canon(*n.l), CQ(-1));
  case Node::ScaleL:
  case Node::ScaleR: return scale(eval_canon(*n.l), n.val);
  case Node::AddC:
  case Node::CAdd: return add(eval_canon(*n.l), {{Word{}, CQ(1)}}, n.val);
  case Node::SubC: return add(eval_canon(*n.l), {{Word{}, CQ(1)}}, -n.val);
  case Node::CSub: return add(scale(eval_canon(*n.l), CQ(-1)), {{Word{}, CQ(1)}}, n.val);
  }
  throw std::logic_error("bad node");
}
// Action of the tree on a state, generator by generator, with no reordering at all
inline model::State eval_state(Node const& n, std::vector<model::Mode> const& modes,
                               model::State const& s) {
  using namespace model;
  auto lin = [](State a, State const& b, CQ const& f) {
    for(auto const& p : b)
      add_to(a, p.first, p.second * f);
    return a;
  };
  switch(n.kind) {
  case Node::Gen: return act(Word{n.gs}, CQ(1), modes, s);
  case Node::Const: return lin({}, s, n.val);
  case Node::Add:
    return lin(eval_state(*n.l, modes, s), eval_state(*n.r, modes, s), CQ(1));
  case Node::Sub:
    return lin(eval_state(*n.l, modes, s), eval_state(*n.r, modes, s), CQ(-1));
  case Node::Mul: return eval_state(*n.l, modes, eval_state(*n.r, modes, s));
  case Node::Neg: return lin({}, eval_state(*n.l, modes, s), CQ(-1));
  case Node::ScaleL:
  case Node::ScaleR: return lin({}, eval_state(*n.l, modes, s), n.val);
  case Node::AddC:
  case Node::CAdd: return lin(eval_state(*n.l, modes, s), s, n.val);
  case Node::SubC: return lin(eval_state(*n.l, modes, s), s, -n.val);
  case Node::CSub: return lin(lin({}, eval_state(*n.l, modes, s), CQ(-1)), s, n.val);
  }
  throw std::logic_error("bad node");
}
// Largest number of S+/S- of one higher-spin mode in any product of the tree; canonical
// forms are unique as long as it stays below the multiplicity of the mode.
inline void spin_powers(Node const& n, std::map<model::Mode, int>& out) {
  switch(n.kind) {
  case Node::Gen:
    if(n.gs.alg == model::S && n.gs.mult > 2 && n.gs.comp != model::Z)
      out[model::mode_of(n.gs)] = 1;
    return;
  case Node::Const: return;
  case Node::Mul: {
    std::map<model::Mode, int> a, b;
    spin_powers(*n.l, a);
    spin_powers(*n.r, b);
    for(auto& p : b)
      a[p.first] += p.second;
    for(auto& p : a)
      out[p.first] = std::max(out[p.first], p.second);
    return;
  }
  default:
    spin_powers(*n.l, out);
    if(n.r) {
      std::map<model::Mode, int> b;
      spin_powers(*n.r, b);
      for(auto& p : b)
        out[p.first] = std::max(out[p.first], p.second);
    }
  }
}
inline bool below_truncation(Node const& n) {
  std::map<model::Mode, int> p;
  spin_powers(n, p);
  for(auto& x : p)
    if(x.second >= x.first.mult) return false;
  return true;
}

} // namespace bridge
