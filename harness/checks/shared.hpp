// Constant objects and tasks: const operations on them that return digests
#pragma once
#include "partition.hpp"
#include "sectors.hpp"
#include <sstream>

namespace bridge {

// Called at each step of a callback; acts at step number 'at'
struct Hook {
  u64 at = ~u64(0);
  std::function<void()> f;
  u64 n = 0;
  void operator()() {
    if(n++ == at) f();
  }
};
struct Digest {
  std::string s;
  std::vector<double> x;
  void add(double v) { x.push_back(v); }
  void add(cplx v) {
    x.push_back(v.real());
    x.push_back(v.imag());
  }
  template <typename T> std::enable_if_t<std::is_integral<T>::value> add(T v) {
    s += std::to_string(v);
    s += ' ';
  }
  void add(std::string const& v) { s += v + ";"; }
  template <typename T> void add(std::vector<T> const& v) {
    for(auto const& e : v)
      add(e);
  }
  template <typename T> void add(lc::sparse_state_vector<T> const& v) {
    std::map<u64, T> m;
    foreach(v, [&](u64 n, T const& a) { m[n] = a; });
    for(auto const& p : m) {
      add(p.first);
      add(p.second);
    }
  }
  template <typename E> void print(E const& e) {
    std::ostringstream o;
    o << e;
    s += o.str() + ";";
  }
  bool same(Digest const& o) const {
    if(s != o.s || x.size() != o.x.size()) return false;
    for(std::size_t i = 0; i < x.size(); ++i)
      if(!(std::abs(x[i] - o.x[i]) <= 1e-10 * (1 + std::abs(x[i])))) return false;
    return true;
  }
  std::string str() const {
    std::string r = "'" + s.substr(0, 300) + "' [";
    for(std::size_t i = 0; i < x.size() && i < 40; ++i)
      r += pbt::cat(x[i]) + " ";
    return r + "]";
  }
};
struct Task {
  std::string name;
  std::function<void(Digest&, Hook&)> f;
  Digest run(Hook& h) const {
    Digest d;
    try {
      f(d, h);
    } catch(std::runtime_error const&) {
      d.s += "exception"; // what() may be anything
    } catch(std::logic_error const&) {
      d.s += "exception";
    }
    return d;
  }
  Digest run() const {
    Hook h;
    return run(h);
  }
};

} // namespace bridge
