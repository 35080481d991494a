// Independent reference model of operator algebras: exact complex rationals,
// generators, canonical (normal-ordered) forms and an exact Fock-like representation.
#pragma once
#include "engine.hpp"

#include <algorithm>
#include <complex>
#include <map>
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include <gmpxx.h>

namespace model {

using Q = mpq_class;

inline Q q(long num, long den = 1) {
  Q r(num, den);
  r.canonicalize();
  return r;
}

// Complex rational number
struct CQ {
  Q re, im;
  CQ() : re(0), im(0) {}
  CQ(Q r) : re(std::move(r)), im(0) {}
  CQ(long r) : re(r), im(0) {}
  CQ(int r) : re(r), im(0) {}
  CQ(Q r, Q i) : re(std::move(r)), im(std::move(i)) {}
  bool zero() const { return sgn(re) == 0 && sgn(im) == 0; }
  CQ operator+(CQ const& o) const { return {Q(re + o.re), Q(im + o.im)}; }
  CQ operator-(CQ const& o) const { return {Q(re - o.re), Q(im - o.im)}; }
  CQ operator-() const { return {Q(-re), Q(-im)}; }
  CQ operator*(CQ const& o) const {
    return {Q(re * o.re - im * o.im), Q(re * o.im + im * o.re)};
  }
  CQ& operator+=(CQ const& o) {
    re += o.re;
    im += o.im;
    return *this;
  }
  CQ conj() const { return {re, Q(-im)}; }
  bool operator==(CQ const& o) const { return re == o.re && im == o.im; }
  bool operator!=(CQ const& o) const { return !(*this == o); }
  friend std::ostream& operator<<(std::ostream& os, CQ const& c) {
    if(sgn(c.im) == 0) return os << c.re;
    return os << "(" << c.re << "," << c.im << ")";
  }
};

// ------------------------------------------------------------------ generators

enum Alg { F = 0, B = 1, S = 2 };
enum Comp { P = 0, M = 1, Z = 2 }; // for spins
// For fermions and bosons comp == 1 means 'dagger'.
struct GS {
  int alg = F;
  int mult = 0; // spins: 2S+1
  int comp = 0;
  int idx = 0; // rank of the index sequence in the pool of this case
  bool same_mode(GS const& o) const {
    return alg == o.alg && mult == o.mult && idx == o.idx;
  }
  bool operator==(GS const& o) const { return same_mode(o) && comp == o.comp; }
  bool operator!=(GS const& o) const { return !(*this == o); }
  // Documented canonical order
  bool operator<(GS const& o) const {
    if(alg != o.alg) return alg < o.alg;
    if(alg == S) {
      if(mult != o.mult) return mult < o.mult;
      if(idx != o.idx) return idx < o.idx;
      return comp < o.comp; // + < - < z
    }
    if(comp != o.comp) return comp > o.comp; // daggers come first
    return comp == 1 ? idx < o.idx : idx > o.idx;
  }
  std::string str() const {
    std::string s = alg == F ? "c" : (alg == B ? "a" : "S");
    if(alg == S)
      s += std::to_string(mult) + (comp == P ? "+" : comp == M ? "-" : "z");
    else if(comp)
      s += "+";
    return s + "_" + std::to_string(idx);
  }
};
using Word = std::vector<GS>;
inline std::string str(Word const& w) {
  std::string s;
  for(auto const& g : w)
    s += (s.empty() ? "" : " ") + g.str();
  return s.empty() ? "1" : s;
}

// ------------------------------------------------------------ canonical forms

// Documented order of monomials: by length, then lexicographic
struct WordLess {
  bool operator()(Word const& a, Word const& b) const {
    if(a.size() != b.size()) return a.size() < b.size();
    return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end());
  }
};
using Canon = std::map<Word, CQ, WordLess>;

inline void add_to(Canon& c, Word const& w, CQ const& v) {
  if(v.zero()) return;
  auto it = c.find(w);
  if(it == c.end())
    c.emplace(w, v);
  else {
    it->second += v;
    if(it->second.zero()) c.erase(it);
  }
}
inline Canon add(Canon a, Canon const& b, CQ const& f = CQ(1)) {
  for(auto const& p : b)
    add_to(a, p.first, p.second * f);
  return a;
}
inline Canon scale(Canon const& a, CQ const& f) {
  Canon r;
  for(auto const& p : a)
    add_to(r, p.first, p.second * f);
  return r;
}
inline std::string str(Canon const& c) {
  std::ostringstream os;
  for(auto const& p : c)
    os << (os.tellp() > 0 ? " + " : "") << p.second << "*" << str(p.first);
  return os.tellp() > 0 ? os.str() : "0";
}

// Product of two spin-1/2 components on one site: coefficient of unity and of P, M, Z
struct HalfProd {
  CQ one, c[3];
};
inline HalfProd half_prod(int a, int b) {
  HalfProd r;
  CQ h = q(1, 2), mh = q(-1, 2);
  if(a == Z && b == Z) r.one = q(1, 4);
  if(a == P && b == M) r.one = h, r.c[Z] = CQ(1);
  if(a == M && b == P) r.one = h, r.c[Z] = CQ(-1);
  if(a == P && b == Z) r.c[P] = mh;
  if(a == Z && b == P) r.c[P] = h;
  if(a == M && b == Z) r.c[M] = h;
  if(a == Z && b == M) r.c[M] = mh;
  return r;
}

inline Canon mul_right(Word const& m, CQ const& v, GS const& g);
inline Canon mul_right(Canon const& c, GS const& g) {
  Canon r;
  for(auto const& p : c)
    r = add(std::move(r), mul_right(p.first, p.second, g));
  return r;
}
// (canonical monomial) * (generator), brought to the canonical form
inline Canon mul_right(Word const& m, CQ const& v, GS const& g) {
  if(v.zero()) return {};
  if(m.empty()) return {{Word{g}, v}};
  GS const& l = m.back();
  Word head(m.begin(), m.end() - 1);
  if(l.alg == S && l.mult == 2 && l.same_mode(g)) {
    auto hp = half_prod(l.comp, g.comp);
    Canon r;
    add_to(r, head, v * hp.one);
    for(int k = 0; k < 3; ++k) {
      GS x = g;
      x.comp = k;
      r = add(std::move(r), mul_right(head, v * hp.c[k], x));
    }
    return r;
  }
  if(!(g < l)) { // already in order
    if(g == l && g.alg == F) return {};
    Word w = m;
    w.push_back(g);
    if(g.alg == S && g.comp != Z) {
      int n = 0;
      for(auto it = w.rbegin(); it != w.rend() && *it == g; ++it)
        ++n;
      if(n >= g.mult && n > 2) return {};
    }
    return {{w, v}};
  }
  // l * g = c * g * l + f
  CQ c = (l.alg == F && g.alg == F) ? CQ(-1) : CQ(1);
  Canon r = mul_right(mul_right(head, v * c, g), l);
  if(l.same_mode(g)) {
    if(l.alg == F || l.alg == B) // annihilation * creation
      r = add(std::move(r), Canon{{head, v}});
    else {
      GS x = g;
      CQ f;
      if(l.comp == M && g.comp == P) {
        x.comp = Z;
        f = CQ(-2);
      } else if(l.comp == Z && g.comp == P) {
        f = CQ(1);
      } else { // Z, M
        f = CQ(-1);
      }
      r = add(std::move(r), mul_right(head, v * f, x));
    }
  }
  return r;
}
inline Canon mul(Canon const& a, Canon const& b) {
  Canon r;
  for(auto const& pb : b) {
    Canon t = scale(a, pb.second);
    for(auto const& g : pb.first)
      t = mul_right(t, g);
    r = add(std::move(r), t);
  }
  return r;
}
inline Canon adjoint(Canon const& a) {
  Canon r;
  for(auto const& p : a) {
    Canon t{{Word{}, p.second.conj()}};
    for(auto it = p.first.rbegin(); it != p.first.rend(); ++it) {
      GS x = *it;
      if(x.alg == S) {
        if(x.comp != Z) x.comp = 1 - x.comp;
      } else
        x.comp = 1 - x.comp;
      t = mul_right(t, x);
    }
    r = add(std::move(r), t);
  }
  return r;
}

// -------------------------------------------------------- exact representation

// Modes of a problem, in the canonical order of modes
struct Mode {
  int alg, mult, idx;
  bool operator<(Mode const& o) const {
    return std::tie(alg, mult, idx) < std::tie(o.alg, o.mult, o.idx);
  }
  bool operator==(Mode const& o) const {
    return alg == o.alg && mult == o.mult && idx == o.idx;
  }
};
inline Mode mode_of(GS const& g) {
  return {g.alg, g.alg == S ? g.mult : 0, g.idx};
}

using Occ = std::vector<int>;    // occupation number / m + s of each mode
using State = std::map<Occ, CQ>; // unnormalised basis, see below

// boson:  a+|n> = |n+1>, a|n> = n|n-1>
// spin:   Sz|k> = (k - s)|k>, S+|k> = (2s - k)|k+1>, S-|k> = k|k-1>
inline bool act_gen(GS const& g, std::vector<Mode> const& modes, Occ& o, CQ& amp) {
  Mode m = mode_of(g);
  auto it = std::lower_bound(modes.begin(), modes.end(), m);
  if(it == modes.end() || !(*it == m)) throw std::logic_error("model: unknown mode");
  std::size_t k = std::size_t(it - modes.begin());
  int& n = o[k];
  switch(g.alg) {
  case F: {
    int parity = 0;
    for(std::size_t j = 0; j < k; ++j)
      if(modes[j].alg == F) parity += o[j];
    if(g.comp == 1) {
      if(n) return false;
      n = 1;
    } else {
      if(!n) return false;
      n = 0;
    }
    if(parity % 2) amp = -amp;
    return true;
  }
  case B:
    if(g.comp == 1) {
      ++n;
    } else {
      if(n == 0) return false;
      amp = amp * CQ(n);
      --n;
    }
    return true;
  default: {
    int twos = g.mult - 1;
    if(g.comp == Z) {
      if(2 * n == twos) return false;
      amp = amp * CQ(q(2 * n - twos, 2));
    } else if(g.comp == P) {
      if(n == twos) return false;
      amp = amp * CQ(twos - n);
      ++n;
    } else {
      if(n == 0) return false;
      amp = amp * CQ(n);
      --n;
    }
    return true;
  }
  }
}
inline void add_to(State& s, Occ const& o, CQ const& v) {
  if(v.zero()) return;
  auto r = s.emplace(o, v);
  if(!r.second) {
    r.first->second += v;
    if(r.first->second.zero()) s.erase(r.first);
  }
}
inline State act(Word const& w, CQ const& c, std::vector<Mode> const& modes, State const& st) {
  State r;
  for(auto const& p : st) {
    Occ o = p.first;
    CQ a = p.second * c;
    bool ok = !a.zero();
    for(auto it = w.rbegin(); ok && it != w.rend(); ++it)
      ok = act_gen(*it, modes, o, a);
    if(ok) add_to(r, o, a);
  }
  return r;
}
template <typename C>
inline State act(C const& c, std::vector<Mode> const& modes, State const& st) {
  State r;
  for(auto const& p : c)
    for(auto const& x : act(p.first, p.second, modes, st))
      add_to(r, x.first, x.second);
  return r;
}
inline std::string str(State const& s) {
  std::ostringstream os;
  for(auto const& p : s) {
    os << " " << p.second << "|";
    for(int n : p.first)
      os << n << ",";
    os << ">";
  }
  return os.tellp() > 0 ? os.str() : "0";
}
// Squared norm (up to a common factor) of an unnormalised basis state
inline Q weight(std::vector<Mode> const& modes, Occ const& o) {
  Q w = 1;
  for(std::size_t i = 0; i < modes.size(); ++i) {
    if(modes[i].alg == B)
      for(int n = 2; n <= o[i]; ++n)
        w *= n;
    else if(modes[i].alg == S)
      for(int k = 0; k < o[i]; ++k)
        w *= q(k + 1, modes[i].mult - 1 - k);
  }
  return w;
}

// --------------------------------------------------------------- random cases

struct World { // modes available in a case
  std::vector<GS> protos; // comp unused
  int n_idx = 1;
};
struct WorldOpts {
  bool f = true, b = true, s = true;
  int max_modes = 5;
  int max_mult = 60;
  int max_idx = 4;
};
inline World gen_world(pbt::Gen& g, WorldOpts const& o = {}) {
  World w;
  w.n_idx = int(g.range(1, o.max_idx));
  int n = int(g.range(1, o.max_modes));
  std::vector<int> algs;
  if(o.f) algs.push_back(F);
  if(o.b) algs.push_back(B);
  if(o.s) algs.push_back(S);
  // Either one algebra, or a mix
  bool single = g.chance(1, 3);
  int a0 = g.pick(algs);
  for(int i = 0; i < n; ++i) {
    GS x;
    x.alg = single ? a0 : g.pick(algs);
    x.idx = int(g.below(std::uint64_t(w.n_idx)));
    if(x.alg == S) {
      x.mult = 2 + int(g.weighted({4, 3, 2, 1, 1}));
      if(x.mult > o.max_mult) x.mult = o.max_mult;
      if(o.max_mult > 6 && g.chance(1, 20)) x.mult = int(g.range(7, o.max_mult));
    }
    bool dup = false;
    for(auto const& p : w.protos)
      dup |= p.same_mode(x);
    if(!dup) w.protos.push_back(x);
  }
  return w;
}
inline GS gen_gs(pbt::Gen& g, World const& w) {
  GS x = g.pick(w.protos);
  x.comp = int(g.below(x.alg == S ? 3 : 2));
  return x;
}
inline std::vector<Mode> world_modes(World const& w) {
  std::vector<Mode> m;
  for(auto const& p : w.protos)
    m.push_back(mode_of(p));
  std::sort(m.begin(), m.end());
  return m;
}
inline Occ gen_occ(pbt::Gen& g, std::vector<Mode> const& modes, int max_boson) {
  Occ o;
  for(auto const& m : modes)
    o.push_back(int(g.below(std::uint64_t(m.alg == F ? 2 : (m.alg == B ? max_boson + 1 : m.mult)))));
  return o;
}

} // namespace model
