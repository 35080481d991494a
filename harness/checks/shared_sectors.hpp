#pragma once
#include "shared.hpp"
using namespace bridge;

namespace {

template <typename Drive> void sectors(pbt::Gen& g, pbt::Ctx& ctx, Drive const& drive) {
  using I = IdxInt;
  unsigned M = unsigned(g.len(1, 8));
  auto const s = gen_fspace<I>(g, M, 2, int(M) + 2);
  M = s.M;
  if(s.L.bits == 0) throw pbt::Discard{};
  unsigned const N = unsigned(g.below(M + 1));
  int kind = gen_ranking(g, M);
  ctx << str(s.L.sites) << " N=" << N << " " << ranking_name(kind);
  // Two groups of fermions
  std::vector<lc::sector_descriptor<ST<I>::hs>> desc(2);
  unsigned m[2] = {0, 0};
  for(unsigned i = 0; i < M; ++i) {
    auto k = g.below(3);
    if(k == 2) continue;
    desc[k].indices.insert(tup(s.pool[s.L.sites[i].m.idx]));
    ++m[k];
  }
  for(int k = 0; k < 2; ++k) {
    desc[std::size_t(k)].N = unsigned(g.below(m[k] + 1));
    ctx << " {" << m[k] << "," << desc[std::size_t(k)].N << "}";
  }
  auto const& hs = s.hs;
  auto const list = lc::n_fermion_sector_basis_states(hs, N);
  auto const mlist = lc::n_fermion_multisector_basis_states(hs, desc);
  if(list.empty() || mlist.empty()) throw pbt::Discard{};
  lc::expression<double, int> e;
  using lc::static_indices::c;
  using lc::static_indices::c_dag;
  for(unsigned i = 0; i < M; ++i)
    for(unsigned j = 0; j < M; ++j)
      if(g.flip()) e += double(g.range(1, 3)) * c_dag(s.pool[s.L.sites[i].m.idx]) * c(s.pool[s.L.sites[j].m.idx]);
  auto const op = lc::make_loperator(e, hs);
  with_ranking(kind, [&](auto tag) {
    using R = typename decltype(tag)::type;
    using sv = std::vector<double>;
    sv const st(list.size(), 2), mst(mlist.size(), 3);
    using V = lc::n_fermion_sector_view<sv const, true, R>;
    using MV = lc::n_fermion_multisector_view<sv const, true, R>;
    V const v(st, hs, N);
    MV const mv(mst, hs, desc);
    auto const w = v;   // copies share nothing with their originals
    auto const mw = mv;
    sv full0(std::size_t(hs.vec_size()));
    for(u64 n : list)
      full0[std::size_t(n)] = double(g.range(-2, 2));
    auto const full = full0;
    u64 const a = g.pick(list), b = g.pick(mlist);
    std::vector<Task> t;
    auto put = [&](char const* name, auto f) { t.push_back({name, f}); };
    auto each = [](auto const& view, Digest& d, Hook& h) {
      foreach(view, [&](u64 n, double x) {
        d.add(n);
        d.add(x);
        h();
      });
    };
    put("view", [&, each](Digest& d, Hook& h) { each(v, d, h); });
    put("multi view", [&, each](Digest& d, Hook& h) { each(mv, d, h); });
    put("its copy", [&, each](Digest& d, Hook& h) { each(w, d, h); });
    put("multi copy", [&, each](Digest& d, Hook& h) { each(mw, d, h); });
    put("new copy", [&, each](Digest& d, Hook& h) {
      auto x = v;
      each(x, d, h);
    });
    put("multi new copy", [&, each](Digest& d, Hook& h) {
      auto x = mv;
      each(x, d, h);
    });
    put("rank", [&](Digest& d, Hook&) {
      for(u64 n : list)
        d.add(v.map_index(n));
      d.add(get_element(v, a));
    });
    put("multi rank", [&](Digest& d, Hook&) {
      for(u64 n : mlist)
        d.add(mv.map_index(n));
      d.add(get_element(mv, b));
    });
    put("lists", [&](Digest& d, Hook&) {
      d.add(lc::n_fermion_sector_basis_states(hs, N));
      d.add(lc::n_fermion_sector_size(hs, N));
      d.add(lc::n_fermion_multisector_basis_states(hs, desc));
      d.add(lc::n_fermion_multisector_size(hs, desc));
    });
    put("make views", [&, each](Digest& d, Hook& h) {
      each(lc::make_const_nfs_view(st, hs, N), d, h);
      each(lc::make_const_nfms_view(mst, hs, desc), d, h);
    });
    put("act", [&](Digest& d, Hook&) {
      sv r(list.size());
      lc::n_fermion_sector_view<sv, true, R> dst(r, hs, N);
      op(v, dst);
      d.add(r);
    });
    put("act from full", [&](Digest& d, Hook&) {
      sv r(list.size());
      auto dst = lc::make_nfs_view(r, hs, N);
      op(full, dst);
      d.add(r);
    });
    put("act to full", [&](Digest& d, Hook&) {
      sv r(full.size());
      op(v, r);
      d.add(r);
      op(mv, r);
      d.add(r);
    });
    drive(g, ctx, t);
  });
}

} // namespace
