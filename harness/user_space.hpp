// Elementary spaces of user-defined algebras; model::Mode::alg = 3 + algebra id
#pragma once
#include "hs.hpp"

namespace bridge {

template <typename... Is> class UserSpace : public lc::elementary_space<Is...> {
  using base = lc::elementary_space<Is...>;
  int id_;
  std::uint64_t dim_;
  int bits_;

public:
  template <typename... A>
  UserSpace(int id, std::uint64_t dim, int bits, A&&... i)
    : base(std::forward<A>(i)...), id_(id), dim_(dim), bits_(bits) {}
  UserSpace(UserSpace const&) = default;
  std::unique_ptr<base> clone() const override { return std::make_unique<UserSpace>(*this); }
  int algebra_id() const override { return id_; }
  std::uint64_t dim() const override { return dim_; }
  int n_bits() const override { return bits_; }
};
template <typename T> struct UserSpaceOf;
template <typename... Is> struct UserSpaceOf<lc::elementary_space<Is...>> {
  using type = UserSpace<Is...>;
};

inline int algebra_of(model::Mode const& m) { return m.alg - 3; }

template <typename I>
std::unique_ptr<typename ST<I>::es> make_any_space(Pool<I> const& pool, Site const& s) {
  if(s.m.alg <= model::S) return make_space<I>(pool, s);
  return std::apply(
      [&](auto const&... i) -> std::unique_ptr<typename ST<I>::es> {
        return std::make_unique<typename UserSpaceOf<typename ST<I>::es>::type>(
            algebra_of(s.m), s.dim, s.bits(), i...);
      },
      tup(pool[s.m.idx]));
}

// A site of any algebra
inline Site gen_any_site(pbt::Gen& g, int n_idx, std::uint64_t max_dim, int n_user = 2) {
  Site s;
  s.m.alg = int(g.below(std::uint64_t(3 + n_user)));
  s.m.idx = int(g.below(std::uint64_t(n_idx)));
  s.m.mult = s.m.alg == model::S ? int(g.boundary(2, std::min<std::uint64_t>(max_dim, 300))) : 0;
  s.dim = s.m.alg == model::F ? 2 : s.m.alg == model::S ? std::uint64_t(s.m.mult) : g.boundary(1, max_dim);
  return s;
}

} // namespace bridge
