// PBT rule: one random program evaluated with up to eleven scalar types (and a non-commutative user-defined ring), plus conversions of structure constants; non-trivial = the result has two or more terms or a conversion must be rejected
#include "lib.hpp"
using namespace bridge;
using namespace model;

namespace {

template <typename I> struct Prog {
  World w;
  Pool<I> pool;
  NodeP t;
};

bool has_half(World const& w) {
  for(auto const& p : w.protos)
    if(p.alg == S && p.mult == 2) return true;
  return false;
}

template <typename I, typename T> Prog<I> gen_prog(pbt::Gen& g, int maxdeg) {
  WorldOpts o;
  o.max_modes = 4;
  o.max_idx = 3;
  Prog<I> p;
  p.w = gen_world(g, o);
  p.pool = Pool<I>(g, p.w.n_idx);
  for(auto& x : p.w.protos)
    x.idx = x.idx % int(p.pool.v.size());
  p.t = gen_tree<T>(g, p.w, 1 + g.size() * (maxdeg - 1) / 100, 8, 4);
  return p;
}

enum Out { Ok, Threw };
template <typename I, typename T>
Out run(Prog<I> const& p, Canon& e, Canon& c, bool& canonical) {
  try {
    auto x = eval_lib<I, T>(p.pool, *p.t);
    auto ts = terms<I, T>(p.pool, x);
    e = canon_of(ts);
    canonical = ts.size() == e.size();
    c = canon_of<I, T>(p.pool, conj(x));
    return Ok;
  } catch(std::runtime_error const&) { return Threw; }
}
// The adjoint is compared only below the truncation, where forms are unique
template <typename I, typename T>
void same(Prog<I> const& p, Canon const& e, Canon const& c, char const* name, bool may_throw) {
  Canon e1, c1;
  bool canonical = true;
  Out o = run<I, T>(p, e1, c1, canonical);
  if(o == Threw) {
    MUST(may_throw, name, " refused a program it can represent");
    return;
  }
  MUST(canonical, name, ": vanishing coefficient stored");
  MUST(e1 == e, name, " gives ", str(e1), " instead of ", str(e));
  MUST(c1 == c, name, " conjugates to ", str(c1), " instead of ", str(c));
}

// Integer scalars: all types
template <typename I> void integer_case(pbt::Gen& g, pbt::Ctx& ctx) {
  auto p = gen_prog<I, int>(g, 4);
  ctx << "indices " << p.pool.str() << " tree " << str(*p.t);
  Canon e, c;
  bool canonical;
  MUST((run<I, mpq_class>(p, e, c, canonical)) == Ok && canonical, "mpq_class failed");
  if(below_truncation(*p.t))
    MUST(e == eval_canon(*p.t), "mpq_class gives ", str(e), " instead of ",
         str(eval_canon(*p.t)));
  bool half = has_half(p.w), integral = true;
  for(auto const& cc : {e, c})
    for(auto const& x : cc)
      integral &= x.second.re.get_den() == 1;
  if(integral) {
    same<I, int>(p, e, c, "int", half);
    same<I, mpz_class>(p, e, c, "mpz_class", half);
    same<I, long>(p, e, c, "long", half);
  } else {
    Canon e1, c1;
    MUST((run<I, int>(p, e1, c1, canonical)) == Threw, "int accepted a half-integer: ", str(e1));
    MUST((run<I, mpz_class>(p, e1, c1, canonical)) == Threw,
         "mpz_class accepted a half-integer: ", str(e1));
  }
  same<I, double>(p, e, c, "double", false);
  same<I, float>(p, e, c, "float", false);
  ctx.nontrivial(e.size() >= 2);
  ctx.label_if(half, "spin 1/2");
  ctx.label_if(!integral, "half-integer result");
}

// Dyadic scalars: all types that hold fractions
template <typename I> void dyadic_case(pbt::Gen& g, pbt::Ctx& ctx) {
  auto p = gen_prog<I, double>(g, 4);
  ctx << "indices " << p.pool.str() << " tree " << str(*p.t);
  Canon e, c;
  bool canonical;
  MUST((run<I, br>(p, e, c, canonical)) == Ok && canonical, "boost::rational failed");
  if(below_truncation(*p.t)) MUST(e == eval_canon(*p.t), "boost::rational gives ", str(e));
  same<I, mpq_class>(p, e, c, "mpq_class", false);
  same<I, double>(p, e, c, "double", false);
  same<I, long double>(p, e, c, "long double", false);
  same<I, std::complex<double>>(p, e, c, "complex<double>", false);
  same<I, mpf_class>(p, e, c, "mpf_class", false);
  ctx.nontrivial(e.size() >= 2);
}

} // namespace

PROP(integer_dyn, 48000, 1200000) { integer_case<IdxDyn>(g, ctx); }
PROP(dyadic_dyn, 48000, 1200000) { dyadic_case<IdxDyn>(g, ctx); }

