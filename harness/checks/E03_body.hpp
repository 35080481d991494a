#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename T> std::string canon_str(Canon const& c) { return str(c); }

// Are all coefficients small enough for every scalar type to be exact?
inline bool tame(Canon const& c, bool integral) {
  if(c.size() > 40) return false;
  for(auto const& p : c) {
    if(p.first.size() > 5) return false;
    for(auto const& x : {p.second.re, p.second.im}) {
      if(abs(x) > 200000) return false;
      if(x.get_den() > 1024) return false;
      if(integral && x.get_den() != 1) return false;
    }
  }
  return true;
}

template <typename I, typename A, typename B> struct Machine {
  using EA = typename I::template expr<A>;
  using EB = typename I::template expr<B>;
  Pool<I> pool;
  World wa, wb;
  EA a[3];
  EB b[2];
  Canon ma[3], mb[2];
  int effective = 0, products = 0;
  std::string log;

  Machine(pbt::Gen& g) {
    WorldOpts o;
    o.max_modes = 4;
    o.max_idx = 2;
    o.s = false;
    wb = gen_world(g, o);
    pool = Pool<I>(g, wb.n_idx);
    wa = wb;
    for(auto* w : {&wa, &wb})
      for(auto& p : w->protos)
        p.idx = p.idx % int(pool.v.size());
    if(Sc<A>::rational && g.flip()) {
      GS s;
      s.alg = S;
      s.mult = 2;
      s.idx = 0;
      wa.protos.push_back(s);
      if(Sc<B>::rational) wb.protos.push_back(s);
    }
    for(int k = 0; k < 3; ++k) {
      auto t = gen_tree<A>(g, wa, 2, 4, 3);
      Canon c = eval_canon(*t);
      if(!tame(c, !Sc<A>::rational)) continue;
      ma[k] = c;
      a[k] = eval_lib<I, A>(pool, *t);
      log += "a" + std::to_string(k) + "=" + str(*t) + "; ";
    }
    for(int k = 0; k < 2; ++k) {
      auto t = gen_tree<B>(g, wb, 2, 4, 3);
      Canon c = eval_canon(*t);
      if(!tame(c, !Sc<B>::rational)) continue;
      mb[k] = c;
      b[k] = eval_lib<I, B>(pool, *t);
      log += "b" + std::to_string(k) + "=" + str(*t) + "; ";
    }
  }
  void check_all() {
    for(int k = 0; k < 3; ++k) {
      Canon c = canon_of<I, A>(pool, a[k]);
      MUST(c == ma[k] && a[k].size() == ma[k].size(), log, " a", k, " is ", a[k], " expected ",
           str(ma[k]));
    }
    for(int k = 0; k < 2; ++k) {
      Canon c = canon_of<I, B>(pool, b[k]);
      MUST(c == mb[k] && b[k].size() == mb[k].size(), log, " b", k, " is ", b[k], " expected ",
           str(mb[k]));
    }
  }
  static Canon op(int o, Canon const& x, Canon const& y) {
    return o == 0 ? add(x, y) : (o == 1 ? add(x, y, CQ(-1)) : mul(x, y));
  }
  static Canon num(CQ const& v) { return scale(Canon{{Word{}, CQ(1)}}, v); }
  static const char* opn(int o) { return o == 0 ? "+" : (o == 1 ? "-" : "*"); }

  template <typename X, typename Y> static auto lop(int o, X const& x, Y const& y) {
    using R = std::decay_t<decltype(x + y)>;
    return o == 0 ? R(x + y) : (o == 1 ? R(x - y) : R(x * y));
  }
  template <typename X, typename Y> static void cop(int o, X& x, Y const& y) {
    // The compound assignment returns a reference to the assigned object
    X* r = nullptr;
    if(o == 0)
      r = &(x += y);
    else if(o == 1)
      r = &(x -= y);
    else
      r = &(x *= y);
    MUST(r == &x, "compound assignment returned something else than its left operand");
  }

  // A scalar that is often 0, or cancels the constant term of some expression
  template <typename T> CQ scalar(pbt::Gen& g, Canon const& target) {
    if(g.chance(1, 4)) {
      auto it = target.find(Word{});
      if(it != target.end()) {
        CQ c = it->second;
        if(g.flip()) c = -c;
        if(!Sc<T>::complex) c.im = 0;
        if(!Sc<T>::rational && c.re.get_den() != 1) c.re = 0;
        return c;
      }
    }
    return gen_scalar<T>(g);
  }

  void step(pbt::Gen& g) {
    int o = int(g.below(3));
    int i = int(g.below(3)), j = int(g.below(3)), k = int(g.below(3));
    int bi = int(g.below(2)), bj = int(g.below(2));
    std::size_t what = g.weighted({3, 3, 3, 2, 4, 3, 2, 2, 2, 2, 2, 2, 2, 2, 3, 3, 2, 2, 2, 2, 2, 1});
    std::string A_ = "a" + std::to_string(i), J = "a" + std::to_string(j),
                K = "a" + std::to_string(k), BI = "b" + std::to_string(bi),
                BJ = "b" + std::to_string(bj);
    auto va = [&](Canon const& c, std::string const& s) {
      if(!tame(c, !Sc<A>::rational)) return false;
      log += s + "; ";
      ++effective;
      return true;
    };
    auto vb = [&](Canon const& c, std::string const& s) {
      if(!tame(c, !Sc<B>::rational)) return false;
      log += s + "; ";
      ++effective;
      return true;
    };
    bool prod = o == 2;
    switch(what) {
    case 0: { // a = a ? a
      Canon c = op(o, ma[j], ma[k]);
      if(!va(c, A_ + "=" + J + opn(o) + K)) return;
      a[i] = lop(o, a[j], a[k]);
      ma[i] = c;
      break;
    }
    case 1: { // a = a ? b
      Canon c = op(o, ma[j], mb[bi]);
      if(!va(c, A_ + "=" + J + opn(o) + BI)) return;
      a[i] = lop(o, a[j], b[bi]);
      ma[i] = c;
      break;
    }
    case 2: { // a = b ? a
      Canon c = op(o, mb[bi], ma[j]);
      if(!va(c, A_ + "=" + BI + opn(o) + J)) return;
      a[i] = lop(o, b[bi], a[j]);
      ma[i] = c;
      break;
    }
    case 3: { // b = b ? b
      Canon c = op(o, mb[bi], mb[bj]);
      if(!vb(c, BI + "=" + BI + opn(o) + BJ)) return;
      b[bi] = lop(o, b[bi], b[bj]);
      mb[bi] = c;
      break;
    }
    case 4: { // a ?= a (including i == j)
      Canon c = op(o, ma[i], ma[j]);
      if(!va(c, A_ + opn(o) + "=" + J)) return;
      cop(o, a[i], a[j]);
      ma[i] = c;
      break;
    }
    case 5: { // a ?= b
      Canon c = op(o, ma[i], mb[bi]);
      if(!va(c, A_ + opn(o) + "=" + BI)) return;
      cop(o, a[i], b[bi]);
      ma[i] = c;
      break;
    }
    case 6: { // b ?= b (including bi == bj)
      Canon c = op(o, mb[bi], mb[bj]);
      if(!vb(c, BI + opn(o) + "=" + BJ)) return;
      cop(o, b[bi], b[bj]);
      mb[bi] = c;
      break;
    }
    case 7: { // a = a ? sa
      CQ s = scalar<A>(g, ma[j]);
      Canon c = op(o, ma[j], num(s));
      if(!va(c, pbt::cat(A_, "=", J, opn(o), s))) return;
      a[i] = lop(o, a[j], Sc<A>::from(s));
      ma[i] = c;
      break;
    }
    case 8: { // a = sa ? a
      CQ s = scalar<A>(g, ma[j]);
      Canon c = op(o, num(s), ma[j]);
      if(!va(c, pbt::cat(A_, "=", s, opn(o), J))) return;
      a[i] = lop(o, Sc<A>::from(s), a[j]);
      ma[i] = c;
      break;
    }
    case 9: { // a = a ? sb
      CQ s = scalar<B>(g, ma[j]);
      Canon c = op(o, ma[j], num(s));
      if(!va(c, pbt::cat(A_, "=", J, opn(o), "B", s))) return;
      a[i] = lop(o, a[j], Sc<B>::from(s));
      ma[i] = c;
      break;
    }
    case 10: { // a = sb ? a
      CQ s = scalar<B>(g, ma[j]);
      Canon c = op(o, num(s), ma[j]);
      if(!va(c, pbt::cat(A_, "=B", s, opn(o), J))) return;
      a[i] = lop(o, Sc<B>::from(s), a[j]);
      ma[i] = c;
      break;
    }
    case 11: { // a = b ? sa
      CQ s = scalar<A>(g, mb[bi]);
      Canon c = op(o, mb[bi], num(s));
      if(!va(c, pbt::cat(A_, "=", BI, opn(o), s))) return;
      a[i] = lop(o, b[bi], Sc<A>::from(s));
      ma[i] = c;
      break;
    }
    case 12: { // a = sa ? b
      CQ s = scalar<A>(g, mb[bi]);
      Canon c = op(o, num(s), mb[bi]);
      if(!va(c, pbt::cat(A_, "=", s, opn(o), BI))) return;
      a[i] = lop(o, Sc<A>::from(s), b[bi]);
      ma[i] = c;
      break;
    }
    case 13: { // b = sb ? b, b = b ? sb
      CQ s = scalar<B>(g, mb[bj]);
      bool left = g.flip();
      Canon c = left ? op(o, num(s), mb[bj]) : op(o, mb[bj], num(s));
      if(!vb(c, left ? pbt::cat(BI, "=", s, opn(o), BJ) : pbt::cat(BI, "=", BJ, opn(o), s))) return;
      if(left)
        b[bi] = lop(o, Sc<B>::from(s), b[bj]);
      else
        b[bi] = lop(o, b[bj], Sc<B>::from(s));
      mb[bi] = c;
      break;
    }
    case 14: { // a ?= sa
      CQ s = scalar<A>(g, ma[i]);
      Canon c = op(o, ma[i], num(s));
      if(!va(c, pbt::cat(A_, opn(o), "=", s))) return;
      cop(o, a[i], Sc<A>::from(s));
      ma[i] = c;
      break;
    }
    case 15: { // a ?= sb
      CQ s = scalar<B>(g, ma[i]);
      Canon c = op(o, ma[i], num(s));
      if(!va(c, pbt::cat(A_, opn(o), "=B", s))) return;
      cop(o, a[i], Sc<B>::from(s));
      ma[i] = c;
      break;
    }
    case 16: { // b ?= sb
      CQ s = scalar<B>(g, mb[bi]);
      Canon c = op(o, mb[bi], num(s));
      if(!vb(c, pbt::cat(BI, opn(o), "=", s))) return;
      cop(o, b[bi], Sc<B>::from(s));
      mb[bi] = c;
      break;
    }
    case 17: { // unary minus
      prod = false;
      Canon c = scale(ma[j], CQ(-1));
      if(!va(c, A_ + "=-" + J)) return;
      a[i] = -a[j];
      ma[i] = c;
      break;
    }
    case 18: { // conversion from the other type / copy
      prod = false;
      if(g.flip()) {
        if(!va(mb[bi], A_ + "=" + BI)) return;
        a[i] = b[bi];
        ma[i] = mb[bi];
      } else {
        if(!va(ma[j], A_ + "=" + J)) return;
        a[i] = a[j];
        ma[i] = ma[j];
      }
      break;
    }
    case 19: { // a ?= one of its own coefficients
      if(ma[i].empty()) return;
      std::size_t n = std::size_t(g.below(ma[i].size()));
      auto mit = ma[i].begin();
      std::advance(mit, long(n));
      Canon c = op(o, ma[i], num(mit->second));
      if(!va(c, pbt::cat(A_, opn(o), "= own coefficient #", n))) return;
      auto lit = a[i].get_monomials().begin();
      std::advance(lit, long(n));
      A const& coeff = lit->second;
      cop(o, a[i], coeff);
      ma[i] = c;
      break;
    }
    case 20: { // difference and sum of equals, and a commutator
      prod = true;
      Canon c = add(mul(ma[j], ma[k]), mul(ma[k], ma[j]), CQ(-1));
      if(!va(c, A_ + "=[" + J + "," + K + "]")) return;
      a[i] = a[j] * a[k] - a[k] * a[j];
      ma[i] = c;
      break;
    }
    default: { // chain on one line
      prod = false;
      Canon c = add(add(ma[i], ma[j]), mb[bi], CQ(-1));
      if(!va(c, "(" + A_ + "+=" + J + ")-=" + BI)) return;
      (a[i] += a[j]) -= b[bi];
      ma[i] = c;
    }
    }
    if(prod) ++products;
    check_all();
  }
};

template <typename I, typename A, typename B> void sequence(pbt::Gen& g, pbt::Ctx& ctx) {
  Machine<I, A, B> m(g);
  m.check_all();
  int n = 1 + int(g.below(std::uint64_t(2 + g.size() * 14 / 100)));
  for(int i = 0; i < n; ++i)
    m.step(g);
  ctx << m.log;
  std::size_t most = 0;
  for(auto const& c : m.ma)
    most = std::max(most, c.size());
  ctx.nontrivial(m.effective >= 4 && m.products >= 1 && most >= 2);
  ctx.label(pbt::cat("effective statements ", std::min(m.effective, 10)));
}

// Binary laws on random expressions
template <typename I, typename T> void laws(pbt::Gen& g, pbt::Ctx& ctx) {
  WorldOpts o;
  o.max_mult = 2;
  World w = gen_world(g, o);
  if(!Sc<T>::rational)
    for(auto& p : w.protos)
      if(p.alg == S) p.alg = F;
  Pool<I> pool(g, w.n_idx);
  for(auto& p : w.protos)
    p.idx = p.idx % int(pool.v.size());
  auto ta = gen_tree<T>(g, w, 2, 4, 3), tb = gen_tree<T>(g, w, 2, 4, 3),
       tc = gen_tree<T>(g, w, 2, 4, 3);
  ctx << str(*ta) << " | " << str(*tb) << " | " << str(*tc);
  auto a = eval_lib<I, T>(pool, *ta), b = eval_lib<I, T>(pool, *tb), c = eval_lib<I, T>(pool, *tc);
  auto a0 = a, b0 = b, c0 = c;
  using E = decltype(a);
  T s = Sc<T>::from(gen_scalar<T>(g)), t = Sc<T>::from(gen_scalar<T>(g));
  MUST(a + b == b + a, "+ not commutative");
  MUST((a + b) + c == a + (b + c), "+ not associative");
  MUST((a * b) * c == a * (b * c), "* not associative");
  MUST(a * (b + c) == a * b + a * c, "left distributivity");
  MUST((a + b) * c == a * c + b * c, "right distributivity");
  MUST(a - b == a + (-b), "subtraction");
  MUST(a - a == E(), "a - a");
  MUST((a - a).size() == 0, "a - a");
  MUST(a * E(T(1)) == a && E(T(1)) * a == a, "unit");
  MUST(a * E() == E() && E() * a == E() && a + E() == a, "zero");
  MUST(s * a == a * s, "scalar commutes");
  MUST(s * (a + b) == s * a + s * b, "scalar distributes");
  MUST(s * a + t * a == T(s + t) * a, "scalar sum");
  MUST((s * a) * b == a * (s * b) && (s * a) * b == s * (a * b), "scalar moves");
  MUST(a + s == a + E(s) && s + a == a + E(s), "adding a constant");
  MUST(a - s == a - E(s) && s - a == E(s) - a, "subtracting a constant");
  MUST(a * s == a * E(s), "multiplying by a constant");
  MUST(-(-a) == a, "unary minus");
  MUST(a == a0 && b == b0 && c == c0, "operands changed");
  ctx.nontrivial(a.size() >= 1 && b.size() >= 1 && c.size() >= 1 && ta->deg + tb->deg + tc->deg >= 3);
}

} // namespace

#if PART == 0
PROP(seq_double_int, 24000, 500000) { sequence<IdxInt, double, int>(g, ctx); }
PROP(seq_mpq_mpq, 12000, 240000) { sequence<IdxStrInt, mpq_class, mpq_class>(g, ctx); }
#elif PART == 1
PROP(seq_complex_double, 24000, 500000) {
  sequence<IdxDyn, std::complex<double>, double>(g, ctx);
}
PROP(laws_mpq, 12000, 240000) { laws<IdxDyn, mpq_class>(g, ctx); }
#else
PROP(seq_br_long, 24000, 500000) { sequence<IdxInt, br, long>(g, ctx); }
PROP(laws_complex, 12000, 240000) { laws<IdxInt, std::complex<double>>(g, ctx); }
PROP(laws_int, 12000, 240000) { laws<IdxStrInt, int>(g, ctx); }
#endif
