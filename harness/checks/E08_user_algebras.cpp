// PBT rule: words over randomly parameterised user algebras (Clifford, generalised quaternions with powers, q-bosons, anticommuting powers, gl(2) with central terms, an algebra with absorbed factors) mixed with predefined ones, relations spelled as integers, fractions or reals; non-trivial = a word of three or more generators with a user generator, whose product is not zero
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

struct Key {
  int site, comp;
  bool operator==(Key const& o) const { return site == o.site && comp == o.comp; }
};
struct Lin {
  Q c = 0;
  std::vector<std::pair<Key, Q>> t;
};
using UState = std::map<std::vector<int>, Q>;
inline void put(UState& s, std::vector<int> const& v, Q const& x) {
  if(sgn(x) == 0) return;
  auto r = s.emplace(v, x);
  if(!r.second) {
    r.first->second += x;
    if(sgn(r.first->second) == 0) s.erase(r.first);
  }
}

// A user-defined algebra: relations, and an exact representation that knows nothing of them
struct UAlg {
  int id = 0;
  int style = 0;       // spelling of structure constants
  int factor = 1;      // non-reduced fractions
  bool by_comp = false; // order of generators
  std::vector<int> perm;
  bool zero_terms = false; // write vanishing terms into linear functions
  std::string name;
  virtual ~UAlg() = default;
  bool less(Key a, Key b) const {
    int ca = perm.empty() ? a.comp : perm[std::size_t(a.comp)];
    int cb = perm.empty() ? b.comp : perm[std::size_t(b.comp)];
    if(by_comp) return std::tie(ca, a.site) < std::tie(cb, b.site);
    return std::tie(a.site, ca) < std::tie(b.site, cb);
  }
  virtual Q swap(Key a, Key b, Lin& f) const = 0;
  virtual bool simplify(Key, Key, Lin&) const { return false; }
  virtual bool reduce(Key, int, Lin&) const { return false; }
  virtual Lin conj(Key k) const { return {0, {{k, 1}}}; }
  virtual std::vector<int> vacuum(pbt::Gen& g) const = 0;
  virtual void act(Key k, std::vector<int> v, Q const& x, UState& out) const = 0;
  virtual Key gen(pbt::Gen& g) const = 0;

  lc::var_number spell(Q const& q) const {
    int n = int(q.get_num().get_si()), d = int(q.get_den().get_si());
    if(style == 2) return lc::var_number(double(n) / d);
    if(style == 1 || d != 1) return lc::var_number(n * factor, d * factor);
    return lc::var_number(n);
  }
};

class UGen : public lc::generator<int> {
public:
  std::shared_ptr<const UAlg> alg;
  Key k;
  UGen(std::shared_ptr<const UAlg> a, Key key)
    : lc::generator<int>(key.site), alg(std::move(a)), k(key) {}
  int algebra_id() const override { return alg->id; }
  static Key key(lc::generator<int> const& g) { return dynamic_cast<UGen const&>(g).k; }
  void fill(Lin const& l, linear_function_t& f) const {
    std::vector<std::pair<std::shared_ptr<const lc::generator<int>>, lc::var_number>> t;
    for(auto const& x : l.t)
      if(alg->zero_terms || sgn(x.second) != 0)
        t.emplace_back(std::make_shared<UGen>(alg, x.first), alg->spell(x.second));
    f.set(alg->spell(l.c), std::move(t));
  }
  lc::var_number swap_with(lc::generator<int> const& g2, linear_function_t& f) const override {
    Lin l;
    Q c = alg->swap(k, key(g2), l);
    fill(l, f);
    return alg->spell(c);
  }
  bool simplify_prod(lc::generator<int> const& g2, linear_function_t& f) const override {
    Lin l;
    if(!alg->simplify(k, key(g2), l)) return false;
    fill(l, f);
    return true;
  }
  bool reduce_power(int power, linear_function_t& f) const override {
    Lin l;
    if(!alg->reduce(k, power, l)) return false;
    fill(l, f);
    return true;
  }
  void conj(linear_function_t& f) const override { fill(alg->conj(k), f); }
  std::string to_string() const override {
    return alg->name + std::to_string(k.comp) + "(" + std::to_string(k.site) + ")";
  }

protected:
  bool equal(lc::generator<int> const& g) const override { return k == key(g); }
  bool less(lc::generator<int> const& g) const override { return alg->less(k, key(g)); }
  bool greater(lc::generator<int> const& g) const override { return alg->less(key(g), k); }
};

// Clifford and Grassmann algebras
struct Clifford : UAlg {
  std::vector<Q> metric;
  bool flip_conj = false;
  Q swap(Key, Key, Lin& f) const override {
    f = {};
    return -1;
  }
  bool simplify(Key a, Key b, Lin& f) const override {
    if(!(a == b)) return false;
    f = {metric[std::size_t(a.site)], {}};
    return true;
  }
  Lin conj(Key k) const override { return {0, {{k, flip_conj ? -1 : 1}}}; }
  std::vector<int> vacuum(pbt::Gen& g) const override {
    std::vector<int> v;
    for(std::size_t i = 0; i < metric.size(); ++i)
      v.push_back(int(g.below(2)));
    return v;
  }
  void act(Key k, std::vector<int> v, Q const& x, UState& out) const override {
    int p = 0;
    for(int j = 0; j < k.site; ++j)
      p += v[std::size_t(j)];
    Q y = p % 2 ? Q(-x) : x;
    int& n = v[std::size_t(k.site)];
    if(n) y *= metric[std::size_t(k.site)];
    n = 1 - n;
    put(out, v, y);
  }
  Key gen(pbt::Gen& g) const override { return {int(g.below(metric.size())), 0}; }
};

// Generalised quaternions i^2 = s1, j^2 = s2, ij = -ji = k, and a commuting u with
// u^p = alpha + beta*u, at each of several mutually commuting sites
struct Quat : UAlg {
  Q s1, s2, alpha, beta;
  int p = 3, sites = 1;
  bool via_sign = false; // ba = -ab instead of ba = 0*ab + f
  // product of units: sign/coefficient and unit (3 = unity)
  std::pair<Q, int> prod(int a, int b) const {
    if(a == 3) return {1, b};
    if(b == 3) return {1, a};
    if(a == b) return {a == 0 ? s1 : a == 1 ? s2 : Q(-s1 * s2), 3};
    if(a == 0 && b == 1) return {1, 2};
    if(a == 1 && b == 0) return {-1, 2};
    if(a == 1 && b == 2) return {Q(-s2), 0};
    if(a == 2 && b == 1) return {s2, 0};
    if(a == 0 && b == 2) return {s1, 1};
    return {Q(-s1), 1}; // k*i
  }
  Lin lin(Key a, Key b) const {
    auto r = prod(a.comp, b.comp);
    if(r.second == 3) return {r.first, {}};
    return {0, {{{a.site, r.second}, r.first}}};
  }
  Q swap(Key a, Key b, Lin& f) const override {
    f = {};
    if(a.site != b.site || a.comp == 3 || b.comp == 3) return 1;
    if(via_sign) return -1;
    f = lin(a, b);
    return 0;
  }
  bool simplify(Key a, Key b, Lin& f) const override {
    if(a.site != b.site || a.comp == 3 || b.comp == 3) return false;
    f = lin(a, b);
    return true;
  }
  bool reduce(Key a, int power, Lin& f) const override {
    if(a.comp != 3 || power != p) return false;
    f = {alpha, {{a, beta}}};
    return true;
  }
  Lin conj(Key k) const override { return {0, {{k, k.comp == 3 ? 1 : -1}}}; }
  std::vector<int> vacuum(pbt::Gen& g) const override {
    std::vector<int> v;
    for(int i = 0; i < sites; ++i) {
      v.push_back(int(g.below(4)));
      v.push_back(int(g.below(std::uint64_t(p))));
    }
    return v;
  }
  void act(Key k, std::vector<int> v, Q const& x, UState& out) const override {
    if(k.comp < 3) {
      int& u = v[std::size_t(2 * k.site)];
      auto r = prod(k.comp, u);
      u = r.second;
      put(out, v, x * r.first);
      return;
    }
    int& n = v[std::size_t(2 * k.site + 1)];
    if(n < p - 1) {
      ++n;
      put(out, v, x);
    } else {
      n = 0;
      put(out, v, x * alpha);
      n = 1;
      put(out, v, x * beta);
    }
  }
  Key gen(pbt::Gen& g) const override { return {int(g.below(std::uint64_t(sites))), int(g.below(4))}; }
};

// a a+ = q a+ a + 1, several commuting sites
struct QBoson : UAlg {
  std::vector<Q> q;
  Q swap(Key a, Key b, Lin& f) const override {
    f = {};
    if(a.site != b.site) return 1;
    f.c = 1;
    return q[std::size_t(a.site)];
  }
  Lin conj(Key k) const override { return {0, {{{k.site, 1 - k.comp}, 1}}}; }
  std::vector<int> vacuum(pbt::Gen& g) const override {
    std::vector<int> v;
    for(std::size_t i = 0; i < q.size(); ++i)
      v.push_back(int(g.below(5)));
    return v;
  }
  void act(Key k, std::vector<int> v, Q const& x, UState& out) const override {
    int& n = v[std::size_t(k.site)];
    Q y = x;
    if(k.comp == 0)
      ++n;
    else {
      if(n == 0) return;
      Q s = 0, w = 1;
      for(int i = 0; i < n; ++i, w *= q[std::size_t(k.site)])
        s += w;
      y *= s;
      --n;
    }
    put(out, v, y);
  }
  Key gen(pbt::Gen& g) const override { return {int(g.below(q.size())), int(g.below(2))}; }
};

// Anticommuting u_i with u_i^3 = beta*u_i, or u_i^4 = alpha
struct Powers : UAlg {
  int sites = 2, p = 3;
  Q val;
  Q swap(Key, Key, Lin& f) const override {
    f = {};
    return -1;
  }
  bool reduce(Key k, int power, Lin& f) const override {
    if(power != p) return false;
    if(p == 3)
      f = {0, {{k, val}}};
    else
      f = {val, {}};
    return true;
  }
  std::vector<int> vacuum(pbt::Gen& g) const override {
    std::vector<int> v;
    for(int i = 0; i < sites; ++i)
      v.push_back(int(g.below(std::uint64_t(p))));
    return v;
  }
  void act(Key k, std::vector<int> v, Q const& x, UState& out) const override {
    int s = 0;
    for(int j = 0; j < k.site; ++j)
      s += v[std::size_t(j)];
    Q y = s % 2 ? Q(-x) : x;
    int& n = v[std::size_t(k.site)];
    if(n < p - 1)
      ++n;
    else {
      n = p == 3 ? 1 : 0;
      y *= val;
    }
    put(out, v, y);
  }
  Key gen(pbt::Gen& g) const override { return {int(g.below(std::uint64_t(sites))), 0}; }
};

// gl(2) with shifted generators: E'_ij = E_ij + kappa_ij, [E', E'] has central terms
struct GL2 : UAlg {
  Q kappa[2][2];
  Q swap(Key a, Key b, Lin& f) const override {
    int i = a.site / 2, j = a.site % 2, k = b.site / 2, l = b.site % 2;
    f = {};
    if(j == k) {
      f.t.push_back({{2 * i + l, 0}, 1});
      f.c -= kappa[i][l];
    } else if(zero_terms)
      f.t.push_back({{2 * i + l, 0}, 0});
    if(l == i) {
      f.t.push_back({{2 * k + j, 0}, -1});
      f.c += kappa[k][j];
    }
    return 1;
  }
  Lin conj(Key k) const override {
    int i = k.site / 2, j = k.site % 2;
    return {Q(kappa[i][j] - kappa[j][i]), {{{2 * j + i, 0}, 1}}};
  }
  std::vector<int> vacuum(pbt::Gen& g) const override {
    std::vector<int> v;
    for(int i = 0; i < 4; ++i)
      v.push_back(int(g.below(4)));
    return v;
  }
  void act(Key k, std::vector<int> v, Q const& x, UState& out) const override {
    int i = k.site / 2, j = k.site % 2;
    put(out, v, x * kappa[i][j]);
    for(int copy = 0; copy < 2; ++copy) { // x_i d/dx_j
      auto w = v;
      int &to = w[std::size_t(2 * copy + i)], &from = w[std::size_t(2 * copy + j)];
      if(from == 0) continue;
      Q y = x * Q(from);
      --from;
      ++to;
      put(out, w, y);
    }
  }
  Key gen(pbt::Gen& g) const override { return {int(g.below(4)), 0}; }
};

// Generators x < g < y and z with gx = lambda*x, yg = lambda*y, xy = xi*z, g^p = alpha + beta*g, which is
// satisfied by lambda; all products of x, y, z but xy vanish. Only adjacent factors can be simplified,
// and a power of g that turns into a number brings x and y together.
struct Scale : UAlg {
  Q lambda, xi, alpha, beta;
  int p = 3, sites = 1;
  enum { x, g, y, z };
  static Q power(Q const& b, int n) {
    Q r = 1;
    while(n-- > 0)
      r *= b;
    return r;
  }
  bool prod(Key a, Key b, Lin& f) const {
    f = {};
    if(a.comp == g && b.comp == g) return false;
    if((a.comp == x && b.comp == g) || (a.comp == g && b.comp == y)) return false;
    if(a.comp == g) f = {0, {{b, lambda}}};
    if(b.comp == g) f = {0, {{a, lambda}}};
    if(a.comp == x && b.comp == y) f = {0, {{{a.site, z}, xi}}};
    return true;
  }
  Q swap(Key a, Key b, Lin& f) const override {
    f = {};
    if(a.site != b.site) return 1;
    prod(a, b, f);
    return 0;
  }
  bool simplify(Key a, Key b, Lin& f) const override { return a.site == b.site && prod(a, b, f); }
  bool reduce(Key a, int n, Lin& f) const override {
    if(a.comp != g || n != p) return false;
    f = {alpha, {{a, beta}}};
    return true;
  }
  Lin conj(Key k) const override { return {0, {{{k.site, k.comp == x ? y : k.comp == y ? x : k.comp}, 1}}}; }
  // Basis: g^n, x g^n, g^n y, x g^n y (n > 0), z
  std::vector<int> vacuum(pbt::Gen& gen) const override {
    std::vector<int> v;
    for(int i = 0; i < sites; ++i) {
      int t = int(gen.below(5));
      v.push_back(t);
      v.push_back(t == 3 ? 0 : t == 4 ? int(gen.range(1, p - 1)) : int(gen.below(std::uint64_t(p))));
    }
    return v;
  }
  void act(Key k, std::vector<int> v, Q const& c, UState& out) const override {
    int &t = v[std::size_t(2 * k.site)], &n = v[std::size_t(2 * k.site + 1)];
    auto to = [&](int t1, int n1, Q const& a) {
      t = t1;
      n = n1;
      put(out, v, c * a);
    };
    int t0 = t, n0 = n;
    switch(k.comp) {
    case x:
      if(t0 == 0) to(1, n0, 1);
      if(t0 == 2 && n0 == 0) to(3, 0, xi);
      if(t0 == 2 && n0 > 0) to(4, n0, 1);
      break;
    case g:
      if(t0 != 0 && t0 != 2)
        to(t0, n0, lambda);
      else if(n0 + 1 < p)
        to(t0, n0 + 1, 1);
      else {
        to(t0, 0, alpha);
        to(t0, 1, beta);
      }
      break;
    case y:
      if(t0 == 0) to(2, 0, power(lambda, n0));
      break;
    default:
      if(t0 == 0) to(3, 0, power(lambda, n0));
    }
  }
  Key gen(pbt::Gen& r) const override {
    return {int(r.below(std::uint64_t(sites))), r.chance(2, 5) ? int(g) : int(r.below(4))};
  }
};

std::shared_ptr<UAlg> gen_alg(pbt::Gen& g, int id, bool real_ok) {
  std::shared_ptr<UAlg> r;
  static const std::vector<Q> vals = {Q(1), Q(-1), Q(0), Q(2), q(1, 2), q(-3, 2)};
  switch(g.below(6)) {
  case 0: {
    auto p = std::make_shared<Clifford>();
    int n = int(g.range(1, 4));
    for(int i = 0; i < n; ++i)
      p->metric.push_back(g.pick(vals));
    p->flip_conj = g.flip();
    p->name = "gamma";
    r = p;
    break;
  }
  case 1: {
    auto p = std::make_shared<Quat>();
    static const std::vector<Q> sq = {Q(-1), Q(1), Q(2)};
    p->s1 = g.pick(sq);
    p->s2 = g.pick(sq);
    p->alpha = g.pick(vals);
    p->beta = g.pick(vals);
    p->p = int(g.range(3, 4));
    p->sites = int(g.range(1, 2));
    p->via_sign = g.flip();
    // Generators whose products simplify must be neighbours in the order of the algebra:
    // otherwise its relations alone do not define a unique form
    p->perm = g.shuffled(std::vector<int>{0, 1, 2});
    p->perm.push_back(g.flip() ? 3 : -1);
    p->name = "q";
    r = p;
    break;
  }
  case 2: {
    auto p = std::make_shared<QBoson>();
    static const std::vector<Q> qs = {Q(0), Q(1), Q(-1), q(1, 2), q(-1, 2), Q(2)};
    int n = int(g.range(1, 3));
    for(int i = 0; i < n; ++i)
      p->q.push_back(g.pick(qs));
    p->name = "b";
    r = p;
    break;
  }
  case 3: {
    auto p = std::make_shared<Powers>();
    p->sites = int(g.range(1, 3));
    p->p = int(g.range(3, 4));
    p->val = g.pick(vals);
    p->name = "u";
    r = p;
    break;
  }
  case 4: {
    auto p = std::make_shared<Scale>();
    static const std::vector<Q> ls = {Q(1), Q(-1), Q(2), q(1, 2), Q(0)};
    p->lambda = g.pick(ls);
    p->xi = g.pick(vals);
    p->p = int(g.range(3, 5));
    p->beta = g.flip() ? Q(0) : g.pick(vals);
    p->alpha = Scale::power(p->lambda, p->p) - p->beta * p->lambda;
    p->sites = int(g.range(1, 2));
    int zpos = int(g.below(4));
    p->perm = {0, 1, 2, zpos};
    for(int i = 0; i < 3; ++i)
      if(i >= zpos) ++p->perm[std::size_t(i)];
    p->name = "s";
    r = p;
    break;
  }
  default: {
    auto p = std::make_shared<GL2>();
    p->kappa[0][0] = g.pick(vals);
    p->kappa[1][1] = g.pick(vals);
    p->kappa[0][1] = g.pick(vals);
    p->kappa[1][0] = g.pick(vals);
    p->name = "E";
    r = p;
  }
  }
  r->id = id;
  r->style = int(g.below(real_ok ? 3 : 2));
  r->factor = int(g.range(1, 3)) * (g.chance(1, 4) ? -1 : 1);
  auto const* quat = dynamic_cast<Quat const*>(r.get());
  auto const* scale = dynamic_cast<Scale const*>(r.get());
  r->by_comp = g.flip() && !(quat && quat->sites > 1) && !(scale && scale->sites > 1);
  r->zero_terms = g.chance(1, 3);
  r->name += std::to_string(id) + "_";
  return r;
}

struct Sym {
  bool user = false;
  GS gs;
  int alg = 0;
  Key k{0, 0};
};
using SWord = std::vector<Sym>;
using Full = std::map<std::pair<Occ, std::vector<std::vector<int>>>, CQ>;

struct Sys {
  std::vector<std::shared_ptr<UAlg>> algs;
  World w;
  Pool<IdxInt> pool;
  std::vector<Mode> modes;
  std::string str(SWord const& s) const {
    std::string r;
    for(auto const& x : s)
      r += (r.empty() ? "" : " ") +
           (x.user ? algs[std::size_t(x.alg)]->name + std::to_string(x.k.comp) + "(" +
                         std::to_string(x.k.site) + ")"
                   : x.gs.str());
    return r;
  }
  std::shared_ptr<const lc::generator<int>> make(Sym const& s) const {
    if(!s.user) return make_gen<IdxInt>(pool, s.gs);
    return std::make_shared<UGen>(algs[std::size_t(s.alg)], s.k);
  }
  Sym sym(lc::generator<int> const& g) const {
    Sym s;
    if(auto const* u = dynamic_cast<UGen const*>(&g)) {
      s.user = true;
      s.k = u->k;
      s.alg = -1;
      for(std::size_t i = 0; i < algs.size(); ++i)
        if(algs[i]->id == u->alg->id) s.alg = int(i);
    } else
      s.gs = to_gs<IdxInt>(pool, g);
    return s;
  }
  void put(Full& f, Full::key_type const& k, CQ const& v) const {
    if(v.zero()) return;
    auto r = f.emplace(k, v);
    if(!r.second) {
      r.first->second += v;
      if(r.first->second.zero()) f.erase(r.first);
    }
  }
  Full act(Sym const& s, Full const& in) const {
    Full out;
    for(auto const& p : in) {
      if(!s.user) {
        Occ o = p.first.first;
        CQ a = p.second;
        if(act_gen(s.gs, modes, o, a)) put(out, {o, p.first.second}, a);
      } else {
        UState u;
        algs[std::size_t(s.alg)]->act(s.k, p.first.second[std::size_t(s.alg)], Q(1), u);
        for(auto const& x : u) {
          auto v = p.first.second;
          v[std::size_t(s.alg)] = x.first;
          put(out, {p.first.first, v}, p.second * CQ(x.second));
        }
      }
    }
    return out;
  }
  Full act(SWord const& w_, CQ const& c, Full in) const {
    Full out;
    for(auto it = w_.rbegin(); it != w_.rend(); ++it)
      in = act(*it, in);
    for(auto const& p : in)
      put(out, p.first, p.second * c);
    return out;
  }
  template <typename T> Full act(lc::expression<T, int> const& e, Full const& in) const {
    Full out;
    for(auto const& t : e) {
      SWord s;
      for(auto const& x : t.monomial)
        s.push_back(sym(x));
      for(auto const& p : act(s, Sc<T>::to(t.coeff), in))
        put(out, p.first, p.second);
    }
    return out;
  }
};

// No rule applies to any stored monomial
template <typename T> void irreducible(Sys const& s, lc::expression<T, int> const& e) {
  lc::monomial<int> const* prev = nullptr;
  for(auto const& t : e) {
    MUST(!Sc<T>::to(t.coeff).zero(), "vanishing coefficient in ", e);
    if(prev) MUST(*prev < t.monomial, "monomials out of order in ", e);
    prev = &t.monomial;
    auto const& m = t.monomial;
    int run = 1;
    for(std::size_t i = 0; i + 1 < m.size(); ++i) {
      MUST(!(m[i] > m[i + 1]), "generators out of order in ", e);
      if(m[i].algebra_id() != m[i + 1].algebra_id()) {
        run = 1;
        continue;
      }
      lc::generator<int>::linear_function_t f;
      MUST(!m[i].simplify_prod(m[i + 1], f), "product can be simplified further in ", e);
      run = m[i] == m[i + 1] ? run + 1 : 1;
      if(run > 2) MUST(!m[i].reduce_power(run, f), "power can be reduced further in ", e);
    }
  }
}

template <typename T> void user_case(pbt::Gen& g, pbt::Ctx& ctx, bool mixed, int max_len) {
  Sys s;
  int n_alg = mixed ? 1 + int(g.below(2)) : 1;
  for(int i = 0; i < n_alg; ++i)
    s.algs.push_back(gen_alg(g, 3 * i + int(g.below(3)), Sc<T>::fp));
  if(mixed) {
    WorldOpts o;
    o.max_modes = 2;
    s.w = gen_world(g, o);
    s.pool = Pool<IdxInt>(g, s.w.n_idx);
    for(auto& p : s.w.protos)
      p.idx = p.idx % int(s.pool.v.size());
    s.modes = world_modes(s.w);
  }
  for(auto const& a : s.algs)
    ctx << a->name << " style " << a->style << (a->by_comp ? " by comp; " : "; ");
  int len = 2 + int(g.below(std::uint64_t(1 + g.size() * (max_len - 2) / 100)));
  SWord word;
  int users = 0;
  for(int i = 0; i < len; ++i) {
    Sym x;
    if(mixed && g.chance(2, 5)) {
      x.gs = gen_gs(g, s.w);
    } else {
      x.user = true;
      x.alg = int(g.below(s.algs.size()));
      if(i && word.back().user && word.back().alg == x.alg && g.chance(1, 4))
        x.k = word.back().k; // powers
      else
        x.k = s.algs[std::size_t(x.alg)]->gen(g);
      ++users;
    }
    word.push_back(x);
  }
  ctx << s.str(word);
  using E = lc::expression<T, int>;
  std::vector<std::shared_ptr<const lc::generator<int>>> v;
  for(auto const& x : word)
    v.push_back(s.make(x));
  E e(T(1), typename E::monomial_t(v));
  ctx << " -> " << e;
  irreducible(s, e);

  auto state = [&]() {
    Full f;
    std::vector<std::vector<int>> u;
    for(auto const& a : s.algs)
      u.push_back(a->vacuum(g));
    f[{gen_occ(g, s.modes, 3), u}] = CQ(1);
    return f;
  };
  bool nonzero = false;
  SWord rev;
  for(int k = 0; k < 3; ++k) {
    Full st = state();
    Full want = s.act(word, CQ(1), st), got = s.act(e, st);
    nonzero |= !want.empty();
    MUST(want == got, "wrong action of ", e);
  }
  // Conjugation: reversed product of conjugated generators
  E c = conj(e), cw(T(1));
  irreducible(s, c);
  {
    Full st = state(), want = st;
    for(auto const& x : word) { // the first factor acts first in the adjoint
      Full next;
      if(x.user) {
        Lin l = s.algs[std::size_t(x.alg)]->conj(x.k);
        if(sgn(l.c) != 0)
          for(auto const& p : want)
            s.put(next, p.first, p.second * CQ(l.c));
        for(auto const& t : l.t) {
          Sym y = x;
          y.k = t.first;
          for(auto const& p : s.act(y, want))
            s.put(next, p.first, p.second * CQ(t.second));
        }
      } else {
        Sym y = x;
        if(y.gs.alg != S)
          y.gs.comp = 1 - y.gs.comp;
        else if(y.gs.comp != Z)
          y.gs.comp = 1 - y.gs.comp;
        next = s.act(y, want);
      }
      want = next;
    }
    MUST(s.act(c, st) == want, "wrong action of the conjugate ", c);
  }
  // Built in other ways; forms are unique
  bool unique = true;
  std::map<Mode, int> ladder;
  for(auto const& x : word)
    if(!x.user && x.gs.alg == S && x.gs.mult > 2 && x.gs.comp != Z)
      unique &= ++ladder[mode_of(x.gs)] < x.gs.mult;
  E lr(T(1)), rl(T(1)), a(T(1)), b(T(1));
  std::size_t cut = std::size_t(g.below(word.size() + 1));
  for(std::size_t i = 0; i < word.size(); ++i) {
    E x(T(1), typename E::monomial_t({s.make(word[i])}));
    E y(T(1), typename E::monomial_t({s.make(word[word.size() - 1 - i])}));
    lr *= x;
    rl = y * rl;
    (i < cut ? a : b) *= x;
  }
  if(unique) {
    MUST(lr == e, "left to right: ", lr);
    MUST(rl == e, "right to left: ", rl);
    MUST(a * b == e, "split: ", a * b);
    MUST(conj(c) == e, "conjugated twice: ", conj(c));
  }
  ctx.nontrivial(users > 0 && word.size() >= 3 && nonzero);
  ctx.label_if(e.size() > 1, "several monomials");
  ctx.label_if(!nonzero, "zero");
}

} // namespace

PROP(single_mpq, 100000, 2000000) { user_case<mpq_class>(g, ctx, false, 7); }
PROP(single_double, 100000, 2000000) { user_case<double>(g, ctx, false, 7); }
PROP(mixed_double, 100000, 2000000) { user_case<double>(g, ctx, true, 6); }
PROP(mixed_br, 50000, 1000000) { user_case<br>(g, ctx, true, 6); }
