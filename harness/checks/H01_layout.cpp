// PBT rule: histories of construction (one by one, from a list, from a vector), add, duplicate and oversized add, copy, assign, self-assign and move over up to three Hilbert spaces with fermions, bosons, spins and user-defined algebras; non-trivial = three or more elementary spaces with two or more algebras and a non-power-of-two dimension
#include "user_space.hpp"
using namespace bridge;

namespace {

template <typename I> struct Env {
  using hs_t = typename ST<I>::hs;
  using es_t = typename ST<I>::es;
  Pool<I> pool;
  struct Slot {
    hs_t hs;
    std::vector<Site> sites; // in order of addition
  };

  static bool has(std::vector<Site> const& v, Site const& s) {
    for(auto const& x : v)
      if(x.m == s.m) return true;
    return false;
  }
  static int bits(std::vector<Site> const& v) {
    int b = 0;
    for(auto const& x : v)
      b += x.bits();
    return b;
  }

  void check(pbt::Gen& g, Slot& s) const {
    Layout L(s.sites);
    auto const& hs = s.hs;
    MUST(hs.size() == L.sites.size(), "size ", hs.size());
    MUST(hs.total_n_bits() == L.bits, "total number of bits ", hs.total_n_bits(), " instead of ", L.bits);
    MUST(hs.vec_size() == std::uint64_t(1) << L.bits && get_vec_size(hs) == hs.vec_size(), "vec_size ", hs.vec_size());
    MUST(hs.dim() == L.dim() && get_dim(hs) == L.dim(), "dim ", hs.dim(), " instead of ", L.dim());
    MUST(hs.is_sparse() == (L.dim() != std::uint64_t(1) << L.bits), "is_sparse");
    for(std::size_t i = 0; i < L.sites.size(); ++i) {
      auto const& x = L.sites[i];
      auto es = make_any_space<I>(pool, x);
      MUST(hs.has(*es), "has ", x.str());
      MUST(hs.index(*es) == int(i), "index of ", x.str(), " is ", hs.index(*es));
      MUST(hs.dim(*es) == x.dim, "dim of ", x.str(), " is ", hs.dim(*es));
      auto r = hs.bit_range(*es);
      MUST(r.first == L.shift[i] && r.second == L.shift[i] + x.bits() - 1, "bit range of ", x.str(), " is ",
           r.first, ",", r.second);
      std::uint64_t n = g.below(x.dim);
      if(x.bits()) {
        auto st = s.hs.basis_state_index(*es, n);
        MUST(st == n << L.shift[i], "state ", n, " of ", x.str(), " is ", st);
      }
    }
    std::size_t k = 0;
    hs.foreach_elementary_space([&](es_t const& es) {
      MUST(k < L.sites.size(), "too many elementary spaces");
      auto want = make_any_space<I>(pool, L.sites[k]);
      MUST(es == *want && es.dim() == L.sites[k].dim && es.n_bits() == L.sites[k].bits() &&
               es.algebra_id() == algebra_of(L.sites[k].m),
           "elementary space ", k, " is not ", L.sites[k].str());
      ++k;
    });
    MUST(k == L.sites.size(), "visited ", k, " elementary spaces");
    for(int alg = 0; alg < 6; ++alg) {
      int lo = -1, hi = -2;
      bool any = false;
      for(std::size_t i = 0; i < L.sites.size(); ++i)
        if(L.sites[i].m.alg == alg) {
          if(!any) lo = L.shift[i];
          any = true;
          hi = L.shift[i] + L.sites[i].bits() - 1;
        }
      MUST(hs.has_algebra(alg - 3) == any, "has_algebra ", alg - 3);
      if(any) {
        auto r = hs.algebra_bit_range(alg - 3);
        MUST(r.first == lo && r.second == hi, "bit range of algebra ", alg - 3, " is ", r.first, ",", r.second);
      } else
        MUST_THROW(std::runtime_error, hs.algebra_bit_range(alg - 3));
    }
    // Something that is not there
    Site x = gen_any_site(g, int(pool.v.size()), 9);
    if(!has(s.sites, x)) {
      auto es = make_any_space<I>(pool, x);
      MUST(!hs.has(*es), "has ", x.str());
      MUST_THROW(typename hs_t::elementary_space_not_found, hs.index(*es));
      MUST_THROW(typename hs_t::elementary_space_not_found, hs.dim(*es));
      try {
        hs.bit_range(*es);
        MUST(false, "bit range of missing ", x.str());
      } catch(typename hs_t::elementary_space_not_found const& e) {
        MUST(*e.elementary_space_ptr == *es, "exception names another space");
      }
    }
    // First basis states (enumeration itself belongs to H02)
    if(!L.sites.empty()) {
      struct Stop {};
      std::uint64_t i = 0;
      try {
        foreach(hs, [&](std::uint64_t st) {
          MUST(i < L.dim() && st == L.nth(i), "basis state ", i, " is ", st);
          if(++i == 40) throw Stop();
        });
        MUST(i == L.dim(), i, " basis states");
      } catch(Stop const&) {}
    }
  }

  // Expected outcome of adding all of 'more' one by one
  enum Outcome { OK, DUP, BIG };
  static Outcome outcome(std::vector<Site> v, std::vector<Site> const& more) {
    for(auto const& x : more) {
      if(has(v, x)) return DUP;
      v.push_back(x);
      if(bits(v) > 63) return BIG;
    }
    return OK;
  }

  void run(pbt::Gen& g, pbt::Ctx& ctx, bool big = false) {
    pool = Pool<I>(g, big ? 60 : 5);
    ctx << pool.str();
    int n_idx = int(pool.v.size());
    bool huge = !big && g.chance(1, 4);
    std::uint64_t max_dim = big ? g.urange(2, 9) : 9;
    auto a_site = [&]() { return gen_any_site(g, n_idx, huge && g.chance(1, 2) ? ~std::uint64_t(0) : max_dim); };
    std::vector<Slot> v(1);
    v.reserve(4);
    int steps = big ? int(g.range(20, 120)) : g.len(2, 24);
    bool interesting = false;
    for(int step = 0; step < steps; ++step) {
      std::size_t w = std::size_t(g.below(v.size()));
      Slot& s = v[w];
      switch(g.weighted({24, 3, 4, 4, 2, 3, 3})) {
      case 0: {
        Site x = a_site();
        if(!s.sites.empty() && g.chance(1, 10)) {
          x = g.pick(s.sites); // duplicate, possibly of another dimension
          if(x.m.alg == model::B || x.m.alg > model::S) x.dim = g.urange(1, 9);
        }
        ctx << " add" << w << " " << x.str();
        auto es = make_any_space<I>(pool, x);
        switch(outcome(s.sites, {x})) {
        case OK:
          s.hs.add(*es);
          s.sites.push_back(x);
          break;
        case DUP:
          try {
            s.hs.add(*es);
            MUST(false, "duplicate accepted");
          } catch(typename hs_t::elementary_space_exists const& e) {
            MUST(*e.elementary_space_ptr == *es, "exception names another space");
          }
          ctx.label("duplicate rejected");
          break;
        case BIG:
          try {
            s.hs.add(*es);
            MUST(false, "oversized space accepted");
          } catch(typename hs_t::hilbert_space_too_big const& e) {
            MUST(e.n_bits == bits(s.sites) + x.bits(), "exception tells ", e.n_bits, " bits");
          }
          ctx.label("oversized rejected");
        }
        break;
      }
      case 1: { // from a vector of pointers
        std::vector<Site> list;
        int n = int(g.below(7));
        for(int i = 0; i < n; ++i)
          list.push_back(a_site());
        ctx << " vector" << w << str(list);
        std::vector<std::unique_ptr<es_t>> own;
        std::vector<es_t*> ptr;
        for(auto const& x : list) {
          own.push_back(make_any_space<I>(pool, x));
          ptr.push_back(own.back().get());
        }
        bool dup = false;
        std::vector<Site> u;
        for(auto const& x : list) {
          dup |= has(u, x);
          u.push_back(x);
        }
        bool big = bits(u) > 63;
        if(!dup && !big) {
          s.hs = hs_t(ptr);
          s.sites = list;
        } else if(!big) {
          MUST_THROW(typename hs_t::elementary_space_exists, hs_t(ptr));
        } else if(!dup) {
          MUST_THROW(typename hs_t::hilbert_space_too_big, hs_t(ptr));
        } else
          MUST_THROW(std::runtime_error, hs_t(ptr));
        break;
      }
      case 2: { // from individual spaces
        int i0 = int(g.below(std::uint64_t(n_idx))), i1 = int(g.below(std::uint64_t(n_idx)));
        Site f = site({model::F, 0, i0}, 0), b = site({model::B, 0, i1}, g.urange(1, 9)),
             sp = site({model::S, int(g.urange(2, 9)), i0}, 0);
        ctx << " list" << w << str({sp, f, b});
        std::apply(
            [&](auto const&... i) {
              std::apply(
                  [&](auto const&... j) {
                    typename ST<I>::f ef(i...);
                    typename ST<I>::b eb(b.dim, j...);
                    typename ST<I>::s es((double(sp.dim) - 1) / 2, i...);
                    if(g.flip()) {
                      s.hs = hs_t(es, ef, eb);
                      s.sites = {sp, f, b};
                    } else {
                      s.hs = hs_t(eb, ef);
                      s.sites = {b, f};
                    }
                    MUST_THROW(typename hs_t::elementary_space_exists, hs_t(ef, eb, ef));
                  },
                  tup(pool[i1]));
            },
            tup(pool[i0]));
        break;
      }
      case 3: { // copy
        std::size_t from = std::size_t(g.below(v.size()));
        Slot const& src = v[from];
        if(g.flip() || v.size() >= 3) {
          ctx << " assign" << w << "=" << from;
          s.hs = src.hs;
          s.sites = src.sites;
        } else {
          ctx << " copy" << from;
          Slot c{hs_t(src.hs), src.sites};
          v.push_back(std::move(c));
        }
        break;
      }
      case 4: { // move
        std::size_t from = std::size_t(g.below(v.size()));
        if(from == w) break;
        ctx << " move" << w << "=" << from;
        if(g.flip())
          s.hs = std::move(v[from].hs);
        else {
          hs_t tmp(std::move(v[from].hs));
          s.hs = std::move(tmp);
        }
        s.sites = v[from].sites;
        v[from].hs = hs_t();
        v[from].sites.clear();
        break;
      }
      case 5: { // self-assignment
        ctx << " self" << w;
        auto& self = s.hs;
        s.hs = self;
        break;
      }
      default:
        if(!big || g.chance(1, 4)) check(g, s);
      }
      std::set<int> algs;
      bool odd = false;
      for(auto const& x : s.sites) {
        algs.insert(x.m.alg);
        odd |= (x.dim & (x.dim - 1)) != 0;
      }
      interesting |= s.sites.size() >= 3 && algs.size() >= 2 && odd;
    }
    for(auto& s : v)
      check(g, s);
    for(auto& a : v)
      for(auto& b : v) {
        bool eq = Layout(a.sites).sites == Layout(b.sites).sites;
        MUST((a.hs == b.hs) == eq && (a.hs != b.hs) == !eq, "equality of ", str(a.sites), " and ", str(b.sites));
      }
    // The order of addition does not matter
    hs_t again;
    auto sh = g.shuffled(v[0].sites);
    for(auto const& x : sh)
      again.add(*make_any_space<I>(pool, x));
    MUST(again == v[0].hs, "another order of addition");
    Slot s2{std::move(again), sh};
    check(g, s2);
    ctx.nontrivial(interesting);
  }
};

} // namespace

PROP(int_index, 144000, 2880000) { Env<IdxInt>().run(g, ctx); }
PROP(string_int_index, 96000, 1920000) { Env<IdxStrInt>().run(g, ctx); }
PROP(user_index, 48000, 960000) { Env<IdxUser>().run(g, ctx); }
PROP(dyn_index, 96000, 1920000) { Env<IdxDyn>().run(g, ctx); }

// Dozens of elementary spaces
PROP(many_spaces, 3000, 60000) { Env<IdxInt>().run(g, ctx, true); }

// The bit width of every single space
PROP(single_space, 240000, 4800000) {
  Pool<IdxInt> pool;
  pool.v = {int(g.range(-3, 3))};
  Site x = gen_any_site(g, 1, ~std::uint64_t(0), 0);
  if(x.m.alg == model::S && g.flip()) x = site({model::S, int(g.boundary(2, 1 << 20)), 0}, 0);
  ctx << x.str();
  auto es = make_space<IdxInt>(pool, x);
  MUST(es->dim() == x.dim, "dimension ", es->dim());
  MUST(es->n_bits() == x.bits(), es->n_bits(), " bits instead of ", x.bits());
  MUST(es->algebra_id() == algebra_of(x.m) && std::get<0>(es->indices()) == pool.v[0], "algebra or index");
  auto c = es->clone();
  MUST(*c == *es && c->dim() == x.dim && c->n_bits() == x.bits(), "clone");
  ctx.nontrivial(x.m.alg != model::F && (x.dim & (x.dim - 1)));
}
