// One program over the whole library, restricted to C++11, that renders all of its results
// into a string. Compiled by several compilers in several language modes; X01_NS names the variant and 'libcommute' is
// a macro, so that the variants do not share any inline functions of the library.
#include <libcommute/libcommute.hpp>

#include <algorithm>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <utility>
#include <vector>

namespace X01_NS {

namespace lc = libcommute;
namespace st = libcommute::static_indices;
typedef std::uint64_t u64;
typedef std::complex<double> cplx;

// Random choices, made in advance
struct Tape {
  std::vector<u64> const& t;
  std::size_t pos;
  explicit Tape(std::vector<u64> const& v) : t(v), pos(0) {}
  u64 below(u64 n) { return pos < t.size() ? t[pos++] % n : 0; }
  int range(int a, int b) { return a + int(below(u64(b - a + 1))); }
};

// ------------------------------------------------------------ output

inline double tidy(double x) {
  if(std::fabs(x) < 1e-9) return 0;
  return x;
}
inline void show(std::ostream& os, double x) {
  char b[64];
  std::snprintf(b, sizeof b, "%.9g", tidy(x));
  os << b;
}
inline void show(std::ostream& os, cplx x) {
  os << '(';
  show(os, x.real());
  os << ',';
  show(os, x.imag());
  os << ')';
}
inline void show(std::ostream& os, int x) { os << x; }

template <typename V> void show_vector(std::ostream& os, V const& v) {
  os << '[';
  for(std::size_t i = 0; i < v.size(); ++i) {
    if(i) os << ' ';
    show(os, v[i]);
  }
  os << ']';
}
template <typename E> void show_expr(std::ostream& os, E const& e) { os << e << '\n'; }

// ------------------------------------------------------------ index families

template <typename... Is> struct Names;
template <> struct Names<int> {
  static int get(int i) { return i - 1; }
};
template <> struct Names<std::string> {
  static const char* get(int i) {
    static const char* const n[] = {"up", "dn", "x", "abc", "", "z1"};
    return n[i % 6];
  }
};

template <typename T, typename I> struct Make {
  typedef lc::expression<T, I> E;
  static E atom(Tape& t, int kinds, int n_idx) {
    int kind = int(t.below(u64(kinds)));
    int i = int(t.below(u64(n_idx)));
    auto x = Names<I>::get(i);
    switch(kind) {
    case 0: return st::c_dag<T>(x);
    case 1: return st::c<T>(x);
    case 2: return st::n<T>(x);
    case 3: return st::a_dag<T>(x);
    case 4: return st::a<T>(x);
    case 5: return st::S_p<2, T>(x);
    case 6: return st::S_m<2, T>(x);
    case 7: return st::S_z<2, T>(x);
    case 8: return st::S_p<3, T>(x);
    case 9: return st::S_m<3, T>(x);
    default: return st::S_z<3, T>(x);
    }
  }
};

template <typename T> struct Num {
  static T make(Tape& t) { return T(t.range(-2, 3)); }
};
template <> struct Num<cplx> {
  static cplx make(Tape& t) {
    double re = t.range(-2, 3);
    return cplx(re, t.range(-1, 1));
  }
};

// Expressions: a stack machine
template <typename T, typename I> lc::expression<T, I> build(Tape& t, std::ostream& os, int kinds, int n_idx, int len) {
  typedef lc::expression<T, I> E;
  std::vector<E> s(1, Make<T, I>::atom(t, kinds, n_idx));
  for(int k = 0; k < len; ++k) {
    E x = s.back();
    if(x.size() > 40) s.back() = E(T(1)), x = s.back();
    switch(t.below(16)) {
    case 0:
    case 1:
    case 2: s.push_back(Make<T, I>::atom(t, kinds, n_idx)); break;
    case 3:
    case 4: {
      if(s.size() < 2) break;
      s.pop_back();
      s.back() = s.back() * x;
      break;
    }
    case 5: {
      if(s.size() < 2) break;
      s.pop_back();
      s.back() *= x;
      break;
    }
    case 6: {
      if(s.size() < 2) break;
      s.pop_back();
      s.back() += x;
      break;
    }
    case 7: {
      if(s.size() < 2) break;
      s.pop_back();
      s.back() = s.back() - x;
      break;
    }
    case 8: {
      if(s.size() < 2) break;
      s.pop_back();
      s.back() -= x;
      break;
    }
    case 9: s.back() = Num<T>::make(t) * x; break;
    case 10: s.back() *= Num<T>::make(t); break;
    case 11: s.back() = Num<T>::make(t) - x; break;
    case 12: s.back() += Num<T>::make(t); break;
    case 13: s.back() = conj(x); break;
    case 14: s.back() = -x; break;
    default: s.back() = x + E(Num<T>::make(t), typename E::monomial_t());
    }
  }
  E r = s[0];
  for(std::size_t i = 1; i < s.size(); ++i)
    r += s[i];
  show_expr(os, r);
  return r;
}

template <typename M> struct Doubled {
  double operator()(M const& m, double const& c) const { return c * (2.0 + double(m.size())); }
};
template <typename M> struct Turned {
  cplx operator()(M const& m, double const& c) const { return cplx(c, double(m.size())); }
};

template <typename T, typename I> void algebra(Tape& t, std::ostream& os) {
  typedef lc::expression<T, I> E;
  int kinds = t.below(3) ? 11 : 5;
  E a = build<T, I>(t, os, kinds, 4, 8), b = build<T, I>(t, os, kinds, 4, 6);
  show_expr(os, a * b - b * a);
  show_expr(os, conj(a) * b + E(2));
  os << (a == b) << (a == a) << (a * b == b * a) << ' ' << a.size() << '\n';
  E c;
  c = std::move(a);
  a.clear();
  show_expr(os, c - b);
  for(auto it = c.begin(); it != c.end(); ++it) {
    auto z = *it;
    os << z.coeff << ' ' << z.monomial << '\n';
  }
  for(auto const& z : b)
    for(auto const& w : c)
      os << (z.monomial < w.monomial) << (z.monomial == w.monomial);
  os << '\n';
}

// ------------------------------------------------------------ user-defined algebras

class Gamma final : public lc::generator<int> {
  typedef lc::generator<int> base;

public:
  explicit Gamma(int i) : base(i) {}
  int algebra_id() const override { return 3; }
  lc::var_number swap_with(base const& g2, base::linear_function_t& f) const override {
    bool diag = base::equal(g2);
    f.set(diag * (std::get<0>(indices()) == 0 ? 2 : -2));
    return -1;
  }
  bool simplify_prod(base const& g2, base::linear_function_t& f) const override {
    if(!base::equal(g2)) return false;
    f.set(std::get<0>(indices()) == 0 ? 1 : -1);
    return true;
  }
  void conj(base::linear_function_t& f) const override {
    f.set(0, shared_from_this(), std::get<0>(indices()) == 0 ? 1 : -1);
  }
  std::string to_string() const override { return "G(" + std::to_string(std::get<0>(indices())) + ")"; }
};

inline void gammas(Tape& t, std::ostream& os) {
  typedef lc::expression<cplx, int> E;
  std::vector<E> g;
  for(int i = 0; i < 4; ++i)
    g.emplace_back(1.0, E::monomial_t(Gamma(i)));
  E r(1);
  for(int k = 0; k < 5; ++k) {
    int i = int(t.below(4));
    if(t.below(3) == 0)
      r = r + Num<cplx>::make(t) * g[std::size_t(i)];
    else
      r = r * g[std::size_t(i)];
    if(t.below(4) == 0) r *= st::c_dag<cplx>(i);
  }
  show_expr(os, r);
  show_expr(os, conj(r));
  show_expr(os, r * r);
}

// ------------------------------------------------------------ operators and states

typedef lc::hilbert_space<int> HS;

template <typename T> HS space(Tape& t, std::ostream& os, lc::expression<T, int> const& e, int bdim) {
  HS hs = t.below(2) ? HS(e, lc::boson_es_constructor(u64(bdim))) : lc::make_hilbert_space(e, lc::boson_es_constructor(u64(bdim)));
  os << hs.size() << ' ' << hs.total_n_bits() << ' ' << hs.dim() << ' ' << hs.vec_size() << ' ' << hs.is_sparse() << ':';
  int cnt = 0;
  foreach(hs, [&](lc::sv_index_type i) {
    if(cnt++ < 40) os << ' ' << i;
  });
  os << '\n';
  HS hs2(hs);
  hs = hs2;
  os << (hs == hs2) << '\n';
  return hs;
}

template <typename T> struct Amp {
  static T make(Tape& t) { return T(t.range(-3, 3)); }
};
template <> struct Amp<cplx> {
  static cplx make(Tape& t) {
    double re = t.range(-3, 3);
    return cplx(re, t.range(-2, 2));
  }
};

template <typename T> void action(Tape& t, std::ostream& os) {
  typedef lc::expression<T, int> E;
  E e = build<T, int>(t, os, 11, 3, 7);
  int bdim = t.range(1, 4);
  HS hs = space(t, os, e, bdim);
  if(hs.vec_size() > 700 || hs.dim() == 0) return;
  auto op = lc::make_loperator(e, hs);
  typedef std::vector<T> V;
  V v(hs.vec_size()), w(hs.vec_size());
  foreach(hs, [&](lc::sv_index_type i) { v[i] = Amp<T>::make(t); });
  op(v, w);
  show_vector(os, w);
  show_vector(os, op(v));
  show_vector(os, op * v);
  // Sparse states
  lc::sparse_state_vector<T> s(hs.vec_size());
  foreach(hs, [&](lc::sv_index_type i) {
    if(i % 2) s[i] = v[i];
  });
  auto s2 = op(s);
  os << s2.size() << ' ' << s2.n_nonzeros();
  std::map<u64, T> sorted;
  foreach(s2, [&](lc::sv_index_type i, T const& a) { sorted[i] = a; });
  for(auto const& p : sorted) {
    os << ' ' << p.first << '=';
    show(os, p.second);
  }
  os << '\n';
  // A compressed view
  lc::compressed_state_view<V> cv(w, hs);
  os << cv.map_index(0) << '\n';
  V dense(hs.dim(), T(0)), res(hs.dim(), T(0));
  auto in = lc::make_comp_state_view(dense, hs);
  foreach(hs, [&](lc::sv_index_type i) { update_add_element(in, i, v[i]); });
  auto out = lc::make_comp_state_view(res, hs);
  op(lc::make_const_comp_state_view(dense, hs), out);
  show_vector(os, res);
  // States reached from the vacuum
  lc::basis_mapper m(op, hs);
  std::set<u64> reached;
  for(auto const& p : m.map())
    reached.insert(p.first);
  std::vector<lc::sv_index_type> list(reached.begin(), reached.end());
  os << m.size() << '/' << m.inverse_map().size();
  for(auto x : list)
    os << ' ' << x;
  os << '\n';
  std::vector<lc::loperator<T, lc::fermion, lc::boson, lc::spin>> ops(2, op);
  lc::basis_mapper m2(ops, hs, 2);
  os << m2.size() << '\n';
  lc::basis_mapper m3(list);
  V small(list.size(), T(0));
  auto mv = m3.make_view(small);
  for(auto x : list)
    update_add_element(mv, x, T(int(x % 5)));
  show_vector(os, small);
}

inline void partition(Tape& t, std::ostream& os) {
  typedef lc::expression<double, int> E;
  E e = build<double, int>(t, os, 8, 3, 5);
  e += conj(E(e));
  for(int i = 0; i < 3; ++i)
    e += double(t.below(3)) * st::n(i - 1);
  HS hs = space(t, os, e, 3);
  if(hs.vec_size() > 300) return;
  auto h = lc::make_loperator(e, hs);
  lc::matrix_elements_map<double> me;
  lc::space_partition<HS> sp(h, hs, me);
  os << me.size() << ' ' << sp.n_subspaces() << ':';
  for(auto const& p : me) {
    os << ' ' << p.first.first << ',' << p.first.second << '=';
    show(os, p.second);
  }
  foreach(sp, [&](lc::sv_index_type i, lc::sv_index_type k) { os << ' ' << i << '>' << k; });
  bool has = false;
  hs.foreach_elementary_space([&](lc::elementary_space<int> const& es) {
    has = has || (es.algebra_id() == lc::fermion && std::get<0>(es.indices()) == 0);
  });
  if(has) {
    auto cd = lc::make_loperator(st::c_dag(0), hs), cc = lc::make_loperator(st::c(0), hs);
    auto r = sp.merge_subspaces(cd, cc);
    os << '\n' << sp.n_subspaces() << ' ' << r.first.size() << ' ' << r.second.size();
    for(auto const& b : sp.subspace_bases()) {
      os << " {";
      for(auto x : b)
        os << ' ' << x;
      os << '}';
    }
    for(auto const& p : sp.find_connections(cd))
      os << ' ' << p.first << "->" << p.second;
  }
  os << '\n';
}

// ------------------------------------------------------------ sectors

template <typename R> void sector_view(HS const& hs, unsigned N, std::ostream& os) {
  typedef std::vector<double> V;
  V v(lc::n_fermion_sector_size(hs, N));
  for(std::size_t i = 0; i < v.size(); ++i)
    v[i] = double(i) + 1;
  lc::n_fermion_sector_view<V, true, R> view(v, hs, N);
  foreach(view, [&](lc::sv_index_type n, double a) { os << ' ' << n << '=' << a << '@' << view.map_index(n); });
  os << '\n';
}
inline void sectors(Tape& t, std::ostream& os) {
  int nf = t.range(1, 7), ns = t.range(0, 2);
  HS hs;
  for(int i = 0; i < nf; ++i)
    hs.add(lc::elementary_space_fermion<int>(i));
  for(int i = 0; i < ns; ++i)
    hs.add(lc::elementary_space_spin<int>(i == 0 ? 0.5 : 1.5, i));
  unsigned N = unsigned(t.below(u64(nf) + 2));
  os << "nf=" << nf << " ns=" << ns << " N=" << N << ':';
  for(auto n : lc::n_fermion_sector_basis_states(hs, N))
    os << ' ' << n;
  os << '\n';
  if(lc::n_fermion_sector_size(hs, N) == 0) return;
  switch(t.below(4)) {
  case 0: sector_view<lc::combination_ranking>(hs, N, os); break;
  case 1: sector_view<lc::staggered_ranking<3>>(hs, N, os); break;
  case 2: sector_view<lc::trie_ranking<4>>(hs, N, os); break;
  default: sector_view<lc::staggered_ranking<5>>(hs, N, os);
  }
  // Two groups
  typedef lc::sector_descriptor<HS> D;
  std::set<std::tuple<int>> a, b;
  for(int i = 0; i < nf; ++i) {
    u64 k = t.below(3);
    if(k == 0) a.insert(std::make_tuple(i));
    if(k == 1) b.insert(std::make_tuple(i));
  }
  D da{a, unsigned(t.below(3))}, db{b, unsigned(t.below(3))};
  std::vector<D> ds;
  ds.push_back(da);
  ds.push_back(db);
  u64 size = lc::n_fermion_multisector_size(hs, ds);
  os << size << ':';
  if(size) {
    std::vector<double> v(size, 1.0);
    auto view = lc::make_nfms_view(v, hs, ds);
    foreach(view, [&](lc::sv_index_type n, double) { os << ' ' << n << '@' << view.map_index(n); });
    // Hopping inside the group
    lc::expression<double, int> e;
    for(auto const& x : a)
      for(auto const& y : a)
        e += st::c_dag(std::get<0>(x)) * st::c(std::get<0>(y));
    auto op = lc::make_loperator(e, hs);
    std::vector<double> w(size, 0.0);
    auto dst = lc::make_nfms_view(w, hs, ds);
    op(view, dst);
    show_vector(os, w);
  }
  os << '\n';
}

// ------------------------------------------------------------ the rest

struct Linear {
  double a, b;
  explicit Linear(double c = 0) : a(c), b(0) {}
  Linear(double x, double y) : a(x), b(y) {}
  double operator()(double t) const { return a + b * t; }
  Linear& operator+=(Linear const& o) {
    a += o.a;
    b += o.b;
    return *this;
  }
};
inline Linear operator+(Linear x, Linear const& y) { return x += y; }
inline Linear operator-(Linear const& x, Linear const& y) { return Linear(x.a - y.a, x.b - y.b); }
inline Linear operator-(Linear const& x) { return Linear(-x.a, -x.b); }
inline Linear operator*(Linear const& x, Linear const& y) { return Linear(x.a * y.a, x.a * y.b + x.b * y.a); }
inline Linear operator*(Linear const& x, double y) { return Linear(x.a * y, x.b * y); }
inline Linear operator*(double y, Linear const& x) { return x * y; }
} // namespace X01_NS

namespace libcommute {
template <> struct scalar_traits<X01_NS::Linear> {
  static bool is_zero(X01_NS::Linear const& x) { return x.a == 0 && x.b == 0; }
  static X01_NS::Linear make_const(var_number const& n) { return X01_NS::Linear(double(n)); }
};
} // namespace libcommute

namespace X01_NS {

inline void parametric(Tape& t, std::ostream& os) {
  typedef lc::expression<Linear, int> E;
  E e;
  for(int k = 0; k < 4; ++k) {
    double x = t.range(-2, 2);
    Linear z(x, double(t.range(-2, 2)));
    int i = t.range(0, 2), j = t.range(0, 2);
    e += E(z, E::monomial_t{st::make_fermion(true, i), st::make_fermion(false, j)});
  }
  HS hs;
  for(int i = 0; i < 3; ++i)
    hs.add(lc::elementary_space_fermion<int>(i));
  auto op = lc::make_param_loperator(e, hs);
  std::vector<double> v(8), w(8);
  for(auto& x : v)
    x = t.range(-3, 3);
  for(double p = 0; p < 2.5; p += 1) {
    op(v, w, p);
    show_vector(os, w);
    auto at = op.at(p);
    show_vector(os, at(v));
    std::vector<double> coeffs;
    op.act_and_store_coeffs(v, w, coeffs, p);
    show_vector(os, w);
  }
  os << '\n';
}

inline void rest(Tape& t, std::ostream& os) {
  typedef lc::expression<double, int> E;
  E e = build<double, int>(t, os, 11, 4, 6);
  show_expr(os, transform(e, Doubled<E::monomial_t>()));
  show_expr(os, transform(e, Turned<E::monomial_t>()));
  std::function<double(E::monomial_t const&, double const&)> f = [](E::monomial_t const& m, double const& c) {
    return m.size() > 1 ? 0.0 : c;
  };
  show_expr(os, transform(e, f));
  show_expr(os, st::make_complex(e));
  show_expr(os, e + lc::hc);
  show_expr(os, e - lc::hc);
  int sx = int(t.below(3)), sy = int(t.below(3));
  show_expr(os, st::S_x<3>(sx) * st::S_y<3>(sy));
  show_expr(os, lc::expression<int, std::string, int>(st::c_dag<int>("a", 1) * st::c<int>("a", 1)));
  try {
    HS hs(e);
    os << hs.total_n_bits() << '\n';
  } catch(lc::es_construction_failure<int> const& x) {
    os << "failure: " << x.what() << '\n';
  }
  try {
    HS hs;
    int b0 = t.range(1, 62), b1 = t.range(1, 62), i1 = int(t.below(2));
    hs.add(lc::elementary_space_boson<int>(u64(1) << b0, 0));
    hs.add(lc::elementary_space_fermion<int>(0));
    hs.add(lc::elementary_space_boson<int>(u64(1) << b1, i1));
    os << hs.total_n_bits() << ' ' << hs.dim() << '\n';
  } catch(std::exception const& x) {
    os << "failure: " << x.what() << '\n';
  }
  {
    lc::disjoint_sets d(10);
    for(int k = 0; k < 6; ++k) {
      u64 a = t.below(10);
      d.set_union(a, t.below(10));
    }
    d.compress_sets();
    d.normalize_sets();
    os << d.n_sets();
    for(int i = 0; i < 10; ++i)
      os << ' ' << d.find_root(u64(i));
    os << '\n';
  }
  gammas(t, os);
}

// Containers do not cross this interface: their types depend on _GLIBCXX_DEBUG
std::string run(int what, u64 const* tape_data, std::size_t tape_size) {
  std::vector<u64> const tape(tape_data, tape_data + tape_size);
  Tape t(tape);
  std::ostringstream os;
  try {
    switch(what) {
    case 0: algebra<double, int>(t, os); break;
    case 1: algebra<cplx, std::string>(t, os); break;
    case 2: algebra<int, int>(t, os); break;
    case 3: action<double>(t, os); break;
    case 4: action<cplx>(t, os); break;
    case 5: partition(t, os); break;
    case 6: sectors(t, os); break;
    case 7: parametric(t, os); break;
    default: rest(t, os);
    }
  } catch(std::exception const& x) {
    (void)x; // operands may be evaluated in any order, and more than one of them can throw
    os << "exception\n";
  }
  return os.str();
}

} // namespace X01_NS
