// PBT rule: histories of reads, additive updates (several value types), direct writes, cancellation, clearing, pruning and copying of sparse vectors of several scalar types; non-trivial = at least one update cancelled an amplitude exactly and several amplitudes are left or were enumerated
#include "lib.hpp"
#include "libcommute/loperator/sparse_state_vector.hpp"
using namespace bridge;

namespace {

template <typename T> T val(pbt::Gen& g) {
  // multiples of 1/4 (or integers), so that all sums are exact
  int n = int(g.range(-6, 6));
  if constexpr(std::is_same<T, int>::value || std::is_same<T, mpz_class>::value)
    return T(n);
  else if constexpr(std::is_same<T, std::complex<double>>::value)
    return T(n / 4.0, g.flip() ? 0.0 : double(g.range(-3, 3)) / 4.0);
  else if constexpr(std::is_same<T, mpq_class>::value || std::is_same<T, br>::value) {
    T r(n);
    r /= T(4);
    return r;
  } else
    return T(n / 4.0);
}

template <typename T> struct Both {
  lc::sparse_state_vector<T> v;
  std::map<std::uint64_t, T> m; // stored amplitudes, zeros only after direct writes
};

template <typename T> bool zero(T const& x) { return x == T(0); }

template <typename T> void check(Both<T> const& b, std::uint64_t size) {
  MUST(b.v.size() == size, "size ", b.v.size());
  std::map<std::uint64_t, T> seen;
  foreach(b.v, [&](std::uint64_t n, T const& a) {
    MUST(n < size, "index ", n);
    MUST(seen.emplace(n, a).second, "element ", n, " visited twice");
  });
  std::size_t nonzero = 0, stored = 0;
  for(auto const& p : b.m) {
    ++stored;
    nonzero += !zero(p.second);
    auto it = seen.find(p.first);
    MUST(zero(p.second) || (it != seen.end() && it->second == p.second), "element ", p.first,
         " missing or wrong in enumeration");
  }
  for(auto const& p : seen) {
    auto it = b.m.find(p.first);
    MUST(it != b.m.end() && it->second == p.second, "enumeration visits element ", p.first, " = ", p.second);
  }
  MUST(b.v.n_nonzeros() >= nonzero && b.v.n_nonzeros() <= stored, b.v.n_nonzeros(),
       " stored amplitudes, nonzero are ", nonzero, ", ", stored - nonzero, " zeros were written directly");
}

template <typename T> void history(pbt::Gen& g, pbt::Ctx& ctx) {
  std::uint64_t size = g.flip() ? g.urange(1, 12) : g.boundary(1, ~std::uint64_t(0));
  std::vector<std::uint64_t> hot;
  for(int i = 0; i < 6; ++i)
    hot.push_back(g.flip() ? g.boundary(0, size - 1) : (size > 64 ? 64 * g.below(size / 64) : g.below(size)));
  using V = lc::sparse_state_vector<T>;
  std::vector<Both<T>> vs;
  vs.push_back({V(size), {}});
  ctx << "size " << size;
  int steps = g.len(1, 60);
  bool cancelled = false, several = false;
  for(int s = 0; s < steps; ++s) {
    std::size_t w = std::size_t(g.below(vs.size()));
    Both<T>& b = vs[w];
    std::uint64_t n = g.pick(hot);
    auto upd = [&](T const& x) {
      auto it = b.m.find(n);
      if(it == b.m.end()) {
        if(!zero(x)) b.m[n] = x;
      } else {
        it->second += x;
        if(zero(it->second)) {
          b.m.erase(it);
          cancelled = true;
        }
      }
    };
    switch(g.weighted({30, 12, 6, 6, 6, 10, 4, 2, 3, 4, 3})) {
    case 0: {
      T x = val<T>(g);
      ctx << " [" << n << "]+=" << x;
      if(g.flip())
        update_add_element(b.v, n, x);
      else
        update_add_element(b.v, n, T(x));
      upd(x);
      break;
    }
    case 1: { // exact cancellation
      if(g.chance(1, 3)) { // an element of the vector itself is added to another one or to itself
        std::uint64_t k = g.pick(hot);
        ctx << " [" << n << "]+=[" << k << "]";
        T const& y = b.v[k];
        T x = b.m.emplace(k, T(0)).first->second;
        update_add_element(b.v, n, y);
        upd(x);
        break;
      }
      T x = -get_element(b.v, n);
      ctx << " [" << n << "]-=itself";
      update_add_element(b.v, n, x);
      upd(x);
      break;
    }
    case 2: { // value of another type
      int x = int(g.range(-2, 2));
      ctx << " [" << n << "]+=int " << x;
      if constexpr(std::is_same<T, std::complex<double>>::value || std::is_same<T, mpq_class>::value ||
                   std::is_same<T, mpz_class>::value)
        update_add_element(b.v, n, T(x));
      else
        update_add_element(b.v, n, x);
      upd(T(x));
      break;
    }
    case 3: { // direct write
      T x = val<T>(g);
      ctx << " [" << n << "]=" << x;
      b.v[n] = x;
      b.m[n] = x;
      break;
    }
    case 4: { // direct access
      ctx << " [" << n << "]";
      T const& x = b.v[n];
      auto it = b.m.emplace(n, T(0)).first;
      MUST(x == it->second, "element ", n, " is ", x);
      break;
    }
    case 5: {
      T x = get_element(b.v, n);
      auto it = b.m.find(n);
      MUST(x == (it == b.m.end() ? T(0) : it->second), "element ", n, " reads ", x);
      break;
    }
    case 6: {
      ctx << " prune";
      b.v.prune();
      for(auto it = b.m.begin(); it != b.m.end();)
        it = zero(it->second) ? b.m.erase(it) : std::next(it);
      break;
    }
    case 7:
      ctx << " zeros";
      set_zeros(b.v);
      b.m.clear();
      break;
    case 8: {
      T x = val<T>(g);
      ctx << " prune ==" << x;
      b.v.prune([&](T const& a) { return a == x; });
      for(auto it = b.m.begin(); it != b.m.end();)
        it = it->second == x ? b.m.erase(it) : std::next(it);
      break;
    }
    case 9: {
      if(vs.size() >= 3) break;
      bool like = g.flip();
      ctx << (like ? " zeros_like" : " copy");
      Both<T> c = like ? Both<T>{zeros_like(b.v), {}} : b;
      vs.push_back(std::move(c));
      break;
    }
    default: {
      ctx << " assign";
      std::size_t from = std::size_t(g.below(vs.size()));
      Both<T> const& src = vs[from];
      b.v = src.v;
      b.m = src.m;
    }
    }
    several |= vs[0].m.size() > 2;
    if(g.chance(1, 4))
      for(auto const& x : vs)
        check(x, size);
  }
  for(auto& x : vs) {
    check(x, size);
    for(auto n : hot) {
      auto it = x.m.find(n);
      MUST(get_element(x.v, n) == (it == x.m.end() ? T(0) : it->second), "final element ", n);
    }
    std::size_t nz = 0;
    for(auto const& p : x.m)
      nz += !zero(p.second);
    x.v.prune();
    MUST(x.v.n_nonzeros() == nz, "after pruning ", x.v.n_nonzeros(), " amplitudes, not ", nz);
  }
  ctx.nontrivial(cancelled && several);
}

// The same, for the standard vector
template <typename T> void dense(pbt::Gen& g, pbt::Ctx& ctx) {
  std::size_t size = std::size_t(g.len(0, 12));
  std::vector<T> v(size, T(0)), m(size, T(0));
  int steps = size ? g.len(1, 30) : 0;
  for(int s = 0; s < steps; ++s) {
    std::size_t n = std::size_t(g.below(size));
    T x = g.chance(1, 3) ? T(-m[n]) : val<T>(g);
    ctx << " [" << n << "]+=" << x;
    lc::update_add_element(v, n, x);
    m[n] = m[n] + x;
    if(g.chance(1, 20)) {
      lc::set_zeros(v);
      m.assign(size, T(0));
    }
    MUST(lc::get_element(v, n) == m[n], "element ", n);
  }
  auto z = lc::zeros_like(v);
  MUST(z == std::vector<T>(size, T(0)), "zeros_like");
  std::vector<std::uint64_t> seen, want;
  lc::foreach(v, [&](std::uint64_t n, T const& a) {
    MUST(a == m[std::size_t(n)], "enumerated ", a);
    seen.push_back(n);
  });
  for(std::size_t i = 0; i < size; ++i)
    if(!zero(m[i])) want.push_back(i);
  MUST(seen == want, "enumerated elements");
  ctx.nontrivial(want.size() > 2 && want.size() < size);
}

} // namespace

PROP(sparse_double, 160000, 3200000) { history<double>(g, ctx); }
PROP(sparse_complex, 160000, 3200000) { history<std::complex<double>>(g, ctx); }
PROP(sparse_int, 160000, 3200000) { history<int>(g, ctx); }
PROP(sparse_mpq, 80000, 1600000) { history<mpq_class>(g, ctx); }
PROP(sparse_br, 80000, 1600000) { history<br>(g, ctx); }
PROP(dense_double, 80000, 1600000) { dense<double>(g, ctx); }
PROP(dense_complex, 80000, 1600000) { dense<std::complex<double>>(g, ctx); }

// Sums that are not exact: an amplitude counts as zero once its magnitude falls below the tolerance
namespace {
template <typename T> void residues(pbt::Gen& g, pbt::Ctx& ctx) {
  using R = decltype(std::real(T()));
  R const eps = std::numeric_limits<R>::epsilon();
  auto small = [&](T const& x) {
    return std::abs(std::real(x)) < 100 * eps && std::abs(std::imag(x)) < 100 * eps;
  };
  auto real = [&] {
    switch(g.weighted({4, 2, 1, 1})) {
    case 0: return R(g.range(-5, 5)) / R(10);
    case 1: return R(g.range(-9, 9)) * 20 * eps; // Around the tolerance, alone and in sums
    case 2: return R(g.range(-3, 3)) / R(3) + R(g.range(-3, 3)) * 30 * eps;
    default: return R(0);
    }
  };
  auto value = [&]() -> T {
    if constexpr(lc::is_complex<T>::value)
      return T(real(), real());
    else
      return real();
  };
  std::uint64_t size = 8;
  lc::sparse_state_vector<T> v(size);
  std::map<std::uint64_t, T> m;
  int n = g.len(1, 30);
  bool residue = false;
  auto update = [&](std::uint64_t i, T x) {
    update_add_element(v, i, x);
    auto it = m.find(i);
    if(it == m.end()) {
      if(!small(x)) m[i] = x;
    } else {
      it->second += x;
      if(small(it->second)) {
        residue |= it->second != T(0);
        m.erase(it);
      }
    }
    ctx << " v[" << i << "]+=" << x;
  };
  auto look = [&] {
    MUST(v.n_nonzeros() == m.size(), v.n_nonzeros(), " amplitudes stored instead of ", m.size());
    std::map<std::uint64_t, T> seen;
    foreach(v, [&](std::uint64_t i, T const& a) {
      MUST(seen.emplace(i, a).second, "element ", i, " visited twice");
    });
    MUST(seen == m, "enumeration visits ", seen.size(), " elements, or other values");
    for(std::uint64_t i = 0; i < size; ++i)
      MUST(get_element(v, i) == (m.count(i) ? m[i] : T(0)), "element ", i);
  };
  for(int k = 0; k < n; ++k) {
    std::uint64_t i = g.below(4);
    switch(g.weighted({8, 4, 1, 1, 1})) {
    case 0: update(i, value()); break;
    case 4: { // Written directly, however small it is
      T a = value() * R(std::ldexp(1.0, -int(g.below(70))));
      v[i] = a;
      m[i] = a;
      ctx << " v[" << i << "]=" << a;
      break;
    }
    case 1: { // Split a sum into parts that cancel only approximately
      T a = value(), b = value();
      update(i, a);
      update(i, b);
      update(i, -(a + b));
      break;
    }
    case 2: {
      R lim = R(g.range(0, 5)) / 10;
      v.prune([&](T const& x) { return std::abs(x) < lim; });
      for(auto it = m.begin(); it != m.end();)
        it = std::abs(it->second) < lim ? m.erase(it) : std::next(it);
      break;
    }
    default: {
      v.prune();
      for(auto it = m.begin(); it != m.end();)
        it = small(it->second) ? m.erase(it) : std::next(it);
    }
    }
    look();
  }
  ctx.nontrivial(residue && !m.empty());
}
} // namespace
PROP(residues_double, 80000, 1600000) { residues<double>(g, ctx); }
PROP(residues_complex, 80000, 1600000) { residues<std::complex<double>>(g, ctx); }
PROP(residues_float, 80000, 1600000) { residues<float>(g, ctx); }
