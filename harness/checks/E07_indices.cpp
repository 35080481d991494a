// PBT rule: the same random program written with integer, tuple and dynamic indices (order-preserving relabelling), and every named constructor on random index sequences; non-trivial = the program has two or more modes of different indices, or the constructor takes at least one index
#include "hs.hpp"
using namespace bridge;
using namespace model;

namespace {

struct Fixed {
  World w;
  int n;
};

template <typename I, typename T>
std::vector<std::pair<Word, CQ>> run(Pool<I> const& pool, Node const& t, bool conjugate,
                                     bool split) {
  if(split && t.kind == Node::Mul) {
    auto l = eval_lib<I, T>(pool, *t.l), r = eval_lib<I, T>(pool, *t.r);
    auto p = l * r;
    return terms<I, T>(pool, conjugate ? conj(p) : p);
  }
  auto e = eval_lib<I, T>(pool, t);
  return terms<I, T>(pool, conjugate ? conj(e) : e);
}
std::string show(std::vector<std::pair<Word, CQ>> const& v) {
  std::ostringstream os;
  for(auto const& x : v)
    os << x.second << "*" << str(x.first) << "; ";
  return os.str();
}

template <typename I, typename T>
std::map<std::uint64_t, double> action(Pool<I> const& pool, Node const& t,
                                       std::vector<Site> const& sites, std::uint64_t in) {
  auto e = eval_lib<I, T>(pool, t);
  auto hs = make_hs<I>(pool, sites);
  auto op = lc::make_loperator(e, hs);
  std::vector<double> v(hs.vec_size());
  v[in] = 1;
  auto r = op(v);
  std::map<std::uint64_t, double> out;
  for(std::size_t k = 0; k < r.size(); ++k)
    if(r[k] != 0) out[k] = r[k];
  return out;
}

} // namespace

PROP(same_program, 192000, 4000000) {
  WorldOpts o;
  o.max_modes = 5;
  o.max_idx = 5;
  World w = gen_world(g, o);
  Pool<IdxInt> p1(g, w.n_idx);
  Pool<IdxStrInt> p2(g, w.n_idx);
  Pool<IdxDyn> p3(g, w.n_idx);
  int n = int(std::min({p1.v.size(), p2.v.size(), p3.v.size()}));
  p1.v.resize(std::size_t(n));
  p2.v.resize(std::size_t(n));
  p3.v.resize(std::size_t(n));
  for(auto& p : w.protos)
    p.idx = p.idx % n;
  auto t = gen_tree<double>(g, w, 1 + g.size() * 4 / 100, 12, 4);
  ctx << p1.str() << " ~ " << p2.str() << " ~ " << p3.str() << " " << str(*t);
  bool cj = g.flip(), split = g.flip();
  auto a = run<IdxInt, double>(p1, *t, cj, split);
  auto b = run<IdxStrInt, double>(p2, *t, cj, split);
  auto c = run<IdxDyn, double>(p3, *t, cj, split);
  MUST(a == b, "int gives ", show(a), " tuples give ", show(b));
  MUST(a == c, "int gives ", show(a), " dynamic indices give ", show(c));
  std::set<int> idx;
  for(auto const& p : w.protos)
    idx.insert(p.idx);
  ctx.nontrivial(idx.size() > 1 && a.size() > 1);

  // The linear operators coincide as well
  std::vector<Site> sites;
  std::uint64_t boson = g.urange(1, 4), dim = 1;
  for(auto const& p : w.protos) {
    Site s = site(mode_of(p), boson);
    bool dup = false;
    for(auto const& x : sites)
      dup |= x.m == s.m;
    if(!dup) sites.push_back(s);
  }
  for(auto const& s : sites)
    dim *= 1ULL << s.bits();
  if(dim > 512) return;
  ctx.label("operators compared");
  Layout l(sites);
  std::uint64_t in = l.nth(g.below(l.dim()));
  auto shuffled = g.shuffled(sites);
  auto x = action<IdxInt, double>(p1, *t, sites, in);
  auto y = action<IdxStrInt, double>(p2, *t, shuffled, in);
  auto z = action<IdxDyn, double>(p3, *t, shuffled, in);
  MUST(x == y && x == z, "actions on state ", in, " differ");
}

