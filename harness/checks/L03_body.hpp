#pragma once
#include <libcommute/loperator/state_vector_eigen3.hpp>
#include "partition.hpp"
using namespace bridge;
using lc::foreach;
using lc::get_element;
using lc::set_zeros;
using lc::update_add_element;
using lc::zeros_like;

namespace {

constexpr int MaxRows = 256;
template <typename T> using Vec = Eigen::Matrix<T, Eigen::Dynamic, 1>;
template <typename T> using BVec = Eigen::Matrix<T, Eigen::Dynamic, 1, 0, MaxRows, 1>;
template <typename T> using Mat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic>;
template <typename T> using RMat = Eigen::Matrix<T, Eigen::Dynamic, Eigen::Dynamic, Eigen::RowMajor>;
using Idx = Eigen::Index;

constexpr int n_plain = 11, n_kinds = 17;
char const* const kind_name[] = {"vector",     "sparse",      "Eigen vector",  "bounded Eigen vector", "segment",  "head",
                                 "column",     "row-major column", "block",    "row-major block",      "map",      "compressed vector",
                                 "compressed segment", "compressed column", "mapped vector", "mapped map", "compressed sparse"};

// Calls f(sv) with a state vector of the given kind that holds amplitudes a[n] of states n; then
// g(read) with a function that reads the amplitudes back and complains about overwritten guards
template <typename T, typename I, typename F, typename G>
void with_kind(int kind, pbt::Gen& gen, OpSpace<I> const& s, std::vector<T> const& a, F&& f, G&& done) {
  auto const n = Idx(a.size());
  T const guard = T(-1234.5f);
  Idx const lo = Idx(gen.below(3)), hi = Idx(gen.below(3));
  Idx const c = Idx(gen.below(3)), cols = 3;
  auto const states = s.L.all();
  auto fill = [&](auto&& x) {
    for(Idx i = 0; i < n; ++i)
      x(i) = a[std::size_t(i)];
  };
  auto guards = [&](auto const& m, Idx r0, Idx c0, Idx rows) {
    for(Idx i = 0; i < m.rows(); ++i)
      for(Idx j = 0; j < m.cols(); ++j)
        if(j != c0 || i < r0 || i >= r0 + rows) MUST(m(i, j) == guard, "element ", i, ",", j, " outside of the state vector was overwritten");
  };
  auto col_case = [&](auto& m, auto&& x) {
    fill(x);
    f(x);
    guards(m, lo, c, n);
    done([&](u64 k) { return m(lo + Idx(k), c); });
  };
  // Positions in compressed storage
  std::map<u64, u64> dense;
  for(u64 i = 0; i < states.size(); ++i)
    dense[states[i]] = i;
  auto const d = Idx(states.size());

  switch(kind) {
  case 0: {
    auto x = a;
    f(x);
    done([&](u64 k) { return x.at(k); });
    break;
  }
  case 1: {
    lc::sparse_state_vector<T> x{u64(n)};
    for(Idx i = 0; i < n; ++i)
      if(a[std::size_t(i)] != T(0)) x[u64(i)] = a[std::size_t(i)];
    f(x);
    done([&](u64 k) { return get_element(x, k); });
    break;
  }
  case 2: {
    Vec<T> x(n);
    fill(x);
    f(x);
    MUST(x.size() == n, "size");
    done([&](u64 k) { return x(Idx(k)); });
    break;
  }
  case 3: {
    BVec<T> x(n);
    fill(x);
    f(x);
    MUST(x.size() == n, "size");
    done([&](u64 k) { return x(Idx(k)); });
    break;
  }
  case 4: {
    Vec<T> m = Vec<T>::Constant(lo + n + hi, guard);
    auto x = m.segment(lo, n);
    fill(x);
    f(x);
    guards(m, lo, 0, n);
    done([&](u64 k) { return m(lo + Idx(k)); });
    break;
  }
  case 5: {
    Vec<T> m = Vec<T>::Constant(n + hi, guard);
    auto x = m.head(n);
    fill(x);
    f(x);
    guards(m, 0, 0, n);
    done([&](u64 k) { return m(Idx(k)); });
    break;
  }
  case 6: {
    Mat<T> m = Mat<T>::Constant(n, cols, guard);
    auto x = m.col(c);
    fill(x);
    f(x);
    guards(m, 0, c, n);
    done([&](u64 k) { return m(Idx(k), c); });
    break;
  }
  case 7: {
    RMat<T> m = RMat<T>::Constant(n, cols, guard);
    auto x = m.col(c);
    fill(x);
    f(x);
    guards(m, 0, c, n);
    done([&](u64 k) { return m(Idx(k), c); });
    break;
  }
  case 8: {
    Mat<T> m = Mat<T>::Constant(lo + n + hi, cols, guard);
    for(Idx i = 0; i < n; ++i)
      m(lo + i, c) = a[std::size_t(i)];
    auto x = m.block(lo, c, n, 1);
    f(x);
    guards(m, lo, c, n);
    done([&](u64 k) { return m(lo + Idx(k), c); });
    break;
  }
  case 9: {
    RMat<T> m = RMat<T>::Constant(lo + n + hi, cols, guard);
    for(Idx i = 0; i < n; ++i)
      m(lo + i, c) = a[std::size_t(i)];
    auto x = m.block(lo, c, n, 1);
    f(x);
    guards(m, lo, c, n);
    done([&](u64 k) { return m(lo + Idx(k), c); });
    break;
  }
  case 10: {
    std::vector<T> m(std::size_t(lo + n + hi), guard);
    std::copy(a.begin(), a.end(), m.begin() + lo);
    Eigen::Map<Vec<T>> x(m.data() + lo, n);
    f(x);
    for(Idx i = 0; i < lo + n + hi; ++i)
      if(i < lo || i >= lo + n) MUST(m[std::size_t(i)] == guard, "element ", i, " outside of the map was overwritten");
    done([&](u64 k) { return m[std::size_t(lo) + k]; });
    break;
  }
  case 11: {
    std::vector<T> m(std::size_t(d), T(0));
    for(auto const& p : dense)
      m[p.second] = a[p.first];
    auto x = lc::make_comp_state_view(m, s.hs);
    f(x);
    MUST(m.size() == std::size_t(d));
    done([&](u64 k) { return m.at(dense.at(k)); });
    break;
  }
  case 12: {
    // Views that own another view write through it
    Vec<T> m = Vec<T>::Constant(lo + d + hi, guard);
    for(auto const& p : dense)
      m(lo + Idx(p.second)) = a[p.first];
    auto x = lc::make_comp_state_view(m.segment(lo, d), s.hs);
    f(x);
    guards(m, lo, 0, d);
    done([&](u64 k) { return m(lo + Idx(dense.at(k))); });
    break;
  }
  case 13: {
    Mat<T> m = Mat<T>::Constant(d, cols, guard);
    for(auto const& p : dense)
      m(Idx(p.second), c) = a[p.first];
    auto x = lc::make_comp_state_view(m.col(c), s.hs);
    f(x);
    guards(m, 0, c, d);
    done([&](u64 k) { return m(Idx(dense.at(k)), c); });
    break;
  }
  case 14:
  case 15: {
    auto order = gen.shuffled(states);
    lc::basis_mapper mapper(order);
    std::vector<T> m(std::size_t(lo + d + hi), guard);
    for(u64 i = 0; i < order.size(); ++i)
      m[std::size_t(lo) + i] = a[order[i]];
    auto read = [&](u64 k) { return m[std::size_t(lo) + mapper.map().at(k)]; };
    if(kind == 14) {
      std::vector<T> mm(m.begin() + lo, m.begin() + lo + d);
      auto x = mapper.make_view(mm);
      f(x);
      std::copy(mm.begin(), mm.end(), m.begin() + lo);
      done(read);
    } else {
      auto x = mapper.make_view(Eigen::Map<Vec<T>>(m.data() + lo, d));
      f(x);
      for(Idx i = 0; i < lo + d + hi; ++i)
        if(i < lo || i >= lo + d) MUST(m[std::size_t(i)] == guard, "element ", i, " outside of the map was overwritten");
      done(read);
    }
    break;
  }
  default: {
    lc::sparse_state_vector<T> m{u64(d)};
    for(auto const& p : dense)
      if(a[p.first] != T(0)) m[p.second] = a[p.first];
    auto x = lc::make_comp_state_view(m, s.hs);
    f(x);
    done([&](u64 k) { return get_element(m, dense.at(k)); });
  }
  }
}

template <typename T> T garbage(pbt::Gen& g) {
  return g.flip() ? T(std::numeric_limits<float>::quiet_NaN()) : T(77.25f);
}

template <typename OpT, typename SrcT, typename DstT> struct Check {
  using I = IdxInt;
  bool big; // Over a thousand basis states
  OpSpace<I> s;
  std::vector<u64> states;
  std::vector<SrcT> src;
  RefVec want;
  double eps;
  static OpOpts opts(pbt::Gen& g, bool big) {
    OpOpts o;
    o.n_idx = big ? 12 : 6;
    o.sites.max_sites = big ? 16 : 6;
    o.sites.max_bits = big ? 11 : g.chance(1, 4) ? 8 : 6;
    o.sites.max_dim = big ? 2048 : 48;
    o.sites.max_mult = big ? 12 : 6;
    return o;
  }
  Check(pbt::Gen& g, pbt::Ctx& ctx) : big(g.chance(1, 2000)), s(g, opts(g, big)), states(s.L.all()) {
    eps = std::is_same_v<SrcT, float> || std::is_same_v<DstT, float> ? 1e-5 : 1e-11;
    ctx << str(s.L.sites) << " ";
    Sum sum;
    int n = int(g.below(big ? 20 : 5));
    for(int i = 0; i < n; ++i)
      sum.push_back({gen_scalar<OpT>(g, true), gen_word(g, s.w)});
    ctx << str(sum);
    auto e = to_expr<I, OpT>(s.pool, sum);
    auto op = lc::make_loperator(e, s.hs);
    src.assign(std::size_t(s.hs.vec_size()), SrcT(0));
    auto ts = terms<I, OpT>(s.pool, e);
    for(u64 st : states) {
      SrcT a = g.chance(1, 3) ? SrcT(0) : Sc<SrcT>::from(gen_scalar<SrcT>(g, true));
      src[std::size_t(st)] = a;
      if(a != SrcT(0))
        ref_column(
            want, s.L, st, as_cplx(a),
            [&](std::vector<model::Mode> const& m, model::State const& in) {
              model::State out;
              for(auto const& t : sum)
                for(auto const& p : model::act(t.second, t.first, m, in))
                  model::add_to(out, p.first, p.second);
              return out;
            },
            ts);
    }
    bool nz = false;
    for(auto const& p : want.v)
      nz |= std::abs(p.second) > 1e-9;
    int ks, kd;
    switch(g.below(3)) {
    case 0: ks = int(g.below(n_kinds)), kd = int(g.below(3)); break;
    case 1: ks = int(g.below(3)), kd = int(g.below(n_kinds)); break;
    default: ks = kd = int(g.below(n_kinds));
    }
    if(big && ks == 3) ks = 2; // of limited size
    if(big && kd == 3) kd = 2;
    ctx.label_if(states.size() > 500, "hundreds of states");
    ctx << " " << kind_name[ks] << " -> " << kind_name[kd];
    ctx.nontrivial(nz);
    ctx.label_if(ks == kd, "equal types");
    int const mode = ks == kd ? 2 : kd < 3 ? 0 : 1;
    act(g, op, ks, kd, mode);
    if(ks < 4) result(g, op, ks);
  }
  template <typename Read> void compare_dst(Read const& read) const {
    for(u64 n : states) {
      auto v = want.v.find(n);
      auto sc = want.scale.find(n);
      cplx y = v == want.v.end() ? cplx(0) : v->second;
      cplx x = as_cplx(read(n));
      double tol = eps * (std::abs(y) + (sc == want.scale.end() ? 0 : sc->second)) + 1e-13;
      MUST(std::abs(x - y) <= tol, "amplitude of state ", n, " is ", x, " instead of ", y);
    }
  }
  template <typename S> void unchanged(S const& read) const {
    for(u64 n : states)
      MUST(read(n) == src[std::size_t(n)], "source amplitude of state ", n, " is ", read(n), " instead of ", src[std::size_t(n)]);
  }
  template <typename Op> void act(pbt::Gen& g, Op const& op, int ks, int kd, int mode) const {
    std::vector<DstT> dst(src.size());
    for(auto& x : dst)
      x = garbage<DstT>(g);
    auto go = [&](auto& sv) {
      auto to = [&](int k) {
        with_kind<DstT>(
            k, g, s, dst,
            [&](auto& dv) {
              op(std::as_const(sv), dv);
              if(g.chance(1, 4)) op(sv, dv);
            },
            [&](auto const& read) { compare_dst(read); });
      };
      using SV = std::remove_reference_t<decltype(sv)>;
      // Destinations of all types only for the basic sources
      if constexpr(std::is_same_v<SV, std::vector<SrcT>> || std::is_same_v<SV, lc::sparse_state_vector<SrcT>> ||
                   std::is_same_v<SV, Vec<SrcT>>)
        to(kd);
      else {
        auto same = [&](auto& dv) {
          op(std::as_const(sv), dv);
          if(g.chance(1, 4)) op(sv, dv);
        };
        basic(mode == 2 ? int(g.below(3)) : kd, dst, same);
      }
    };
    with_kind<SrcT>(ks, g, s, src, go, [&](auto const& read) { unchanged(read); });
    // The same type on both sides
    if constexpr(std::is_same_v<SrcT, DstT>)
      if(mode == 2) {
        with_kind<SrcT>(
            ks, g, s, src,
            [&](auto& sv) {
              with_kind<DstT>(
                  ks, g, s, dst,
                  [&](auto& dv) {
                    if constexpr(std::is_same_v<decltype(dv), decltype(sv)>) op(sv, dv);
                  },
                  [&](auto const& read) { compare_dst(read); });
            },
            [&](auto const& read) { unchanged(read); });
      }
  }
  template <typename F> void basic(int k, std::vector<DstT> const& dst, F const& f) const {
    auto n = Idx(dst.size());
    switch(k) {
    case 0: {
      auto x = dst;
      f(x);
      compare_dst([&](u64 i) { return x[i]; });
      break;
    }
    case 1: {
      lc::sparse_state_vector<DstT> x{u64(n)};
      for(Idx i = 0; i < n; ++i)
        x[u64(i)] = dst[std::size_t(i)];
      f(x);
      compare_dst([&](u64 i) { return get_element(x, i); });
      break;
    }
    default: {
      Vec<DstT> x(n);
      for(Idx i = 0; i < n; ++i)
        x(i) = dst[std::size_t(i)];
      f(x);
      compare_dst([&](u64 i) { return x(Idx(i)); });
    }
    }
  }
  // op(sv) and op*sv
  template <typename Op> void result(pbt::Gen& g, Op const& op, int ks) const {
    if constexpr(std::is_same_v<SrcT, DstT>) {
      with_kind<SrcT>(
          ks, g, s, src,
          [&](auto& sv) {
            using SV = std::remove_reference_t<decltype(sv)>;
            if constexpr(std::is_same_v<SV, std::vector<SrcT>> || std::is_same_v<SV, lc::sparse_state_vector<SrcT>> ||
                         std::is_same_v<SV, Vec<SrcT>> || std::is_same_v<SV, BVec<SrcT>>) {
              SV r = op(sv);
              compare_dst([&](u64 n) { return get_element(r, n); });
              SV r2 = op * sv;
              compare_dst([&](u64 n) { return get_element(r2, n); });
            }
          },
          [&](auto const& read) { unchanged(read); });
    }
  }
};

// The interface functions themselves, on any kind of vector
template <typename T> void interface(pbt::Gen& g, pbt::Ctx& ctx) {
  bool const big = g.chance(1, 1000);
  OpSpace<IdxInt> s(g, Check<double, double, double>::opts(g, big));
  auto states = s.L.all();
  int kind = int(g.below(n_kinds));
  if(big && kind == 3) kind = 2; // of limited size
  ctx << str(s.L.sites) << " " << kind_name[kind];
  bool const sparse = kind == 1 || kind == 16;
  std::vector<T> a(std::size_t(s.hs.vec_size()), T(0));
  // Below the tolerance amplitudes count as zero, whatever they are stored in
  auto amp = [&]() -> T {
    if(g.chance(1, 5)) return T(std::ldexp(g.flip() ? 1.0 : -1.0, -int(g.range(10, 60))));
    return Sc<T>::from(gen_scalar<T>(g));
  };
  auto zero = [](T const& x) {
    return std::abs(std::real(x)) < 100 * std::numeric_limits<double>::epsilon() &&
           std::abs(std::imag(x)) < 100 * std::numeric_limits<double>::epsilon();
  };
  for(u64 n : states)
    if(g.flip()) {
      T x = amp();
      if(!sparse || !zero(x)) a[std::size_t(n)] = x;
    }
  auto before = a;
  int steps = g.len(1, 10);
  with_kind<T>(
      kind, g, s, before,
      [&](auto& sv) {
        auto const& csv = sv;
        using SV = std::remove_reference_t<decltype(sv)>;
        static_assert(std::is_same_v<lc::element_type_t<SV>, T>);
        bool changed = false;
        auto check = [&] {
          for(u64 n : states)
            MUST(get_element(csv, n) == a[std::size_t(n)], "amplitude of state ", n, " is ", get_element(csv, n), " instead of ",
                 a[std::size_t(n)]);
          std::map<u64, int> seen;
          foreach(csv, [&](lc::sv_index_type n, T const& x) {
            MUST(s.L.valid(n) && x == a[std::size_t(n)] && !zero(x), "visited ", x, " of state ", n);
            MUST(seen[n]++ == 0, "state ", n, " was visited twice");
          });
          for(u64 n : states)
            MUST(!zero(a[std::size_t(n)]) == (seen.count(n) == 1), "state ", n, " was not visited");
        };
        check();
        for(int i = 0; i < steps; ++i) {
          switch(g.weighted({8, 1, 2})) {
          case 0: {
            u64 n = g.pick(states);
            if(Sc<T>::complex && g.flip()) {
              double x = double(g.range(-2, 2));
              update_add_element(sv, n, x);
              a[std::size_t(n)] += T(x);
            } else {
              T x = amp();
              if(g.chance(1, 4)) x -= a[std::size_t(n)]; // leaves little or nothing behind
              update_add_element(sv, n, x);
              a[std::size_t(n)] += x;
            }
            // Sparse vectors do not store what is left of a cancellation
            if(sparse && zero(a[std::size_t(n)])) a[std::size_t(n)] = T(0);
            changed = true;
            break;
          }
          case 1:
            set_zeros(sv);
            std::fill(a.begin(), a.end(), T(0));
            break;
          default: check();
          }
        }
        check();
        ctx.nontrivial(changed);
        if constexpr(std::is_same_v<SV, std::vector<T>> || std::is_same_v<SV, lc::sparse_state_vector<T>> ||
                     std::is_base_of_v<Eigen::DenseBase<SV>, SV>) {
          auto z = zeros_like(csv);
          MUST(u64(z.size()) == s.hs.vec_size(), "size of zeros_like()");
          for(u64 n : states)
            MUST(get_element(z, n) == T(0), "element ", n, " of zeros_like() is ", get_element(z, n));
          update_add_element(z, states[0], T(3));
          MUST(get_element(z, states[0]) == T(3));
          check();
        }
      },
      [&](auto const& read) {
        for(u64 n : states)
          MUST(read(n) == a[std::size_t(n)], "stored amplitude of state ", n);
      });
}

} // namespace
