// A small property-based testing engine: every test case is a sequence of recorded
// choices, so that any failing case can be replayed and shrunk universally.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <initializer_list>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

// ------------------------------------------------------------------ failures
struct Failure : std::exception {
  std::string msg;
  explicit Failure(std::string m) : msg(std::move(m)) {}
  const char* what() const noexcept override { return msg.c_str(); }
};

// Thrown by a property whose generated case falls outside the domain it speaks of.
struct Discard {};

// ------------------------------------------------------------------ generator
class Gen {
public:
  // Recording mode
  Gen(std::uint64_t seed, int size);
  // Replay mode
  Gen(std::vector<std::uint64_t> choices, int size);

  int size() const { return size_; }

  // Uniform in [0, n); n == 0 stands for the full 64-bit range
  std::uint64_t below(std::uint64_t n);
  // Uniform in [lo, hi]. 'lo' is what shrinking tends to.
  std::int64_t range(std::int64_t lo, std::int64_t hi) {
    return lo + std::int64_t(below(std::uint64_t(hi - lo) + 1));
  }
  std::uint64_t urange(std::uint64_t lo, std::uint64_t hi) {
    return lo + below(hi - lo + 1);
  }
  // true with probability num/den; shrinks to false
  bool chance(unsigned num, unsigned den) {
    // 0 must be 'false'
    return below(den) >= den - num;
  }
  bool flip() { return chance(1, 2); }
  // Index of a weighted alternative; shrinks to 0
  std::size_t weighted(std::initializer_list<unsigned> w);
  template <typename C> auto const& pick(C const& c) {
    return c[std::size_t(below(c.size()))];
  }
  // Integer in [lo,hi] biased to lo, hi, powers of two and small values
  std::uint64_t boundary(std::uint64_t lo, std::uint64_t hi);
  // Arbitrary 64-bit pattern: sparse, dense, runs, random
  std::uint64_t bits64();
  // Length-like value in [lo, hi] whose upper end grows with size
  int len(int lo, int hi) {
    int h = lo + int((std::int64_t(hi - lo) * size_ + 99) / 100);
    if(h > hi) h = hi;
    return int(range(lo, h));
  }
  template <typename T> std::vector<T> shuffled(std::vector<T> v) {
    for(std::size_t i = v.size(); i > 1; --i) {
      // choice 0 = leave in place
      std::size_t j = i - 1 - std::size_t(below(i));
      std::swap(v[i - 1], v[j]);
    }
    return v;
  }

  std::vector<std::uint64_t> const& choices() const { return rec_; }
  bool overrun() const { return overrun_; }

private:
  std::uint64_t next();
  std::uint64_t state_ = 0;
  int size_;
  bool replay_;
  bool overrun_ = false;
  std::size_t pos_ = 0;
  std::vector<std::uint64_t> in_;
  std::vector<std::uint64_t> rec_;
};

// ------------------------------------------------------------------ context
class Ctx {
public:
  void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
  void label(std::string const& l) { labels_[l] += 1; }
  void label_if(bool b, std::string const& l) { if(b) label(l); }
  // Description of the case, for samples and for failure reports
  template <typename T> Ctx& operator<<(T const& x) {
    desc_ << x;
    return *this;
  }
  std::string desc() const { return desc_.str(); }
  bool is_nontrivial() const { return nontrivial_; }
  std::map<std::string, long> const& labels() const { return labels_; }

private:
  bool nontrivial_ = false;
  std::map<std::string, long> labels_;
  std::ostringstream desc_;
};

// ------------------------------------------------------------------ registry
struct Prop {
  std::string name;
  long quick;    // number of cases, quick tier
  long thorough; // number of cases, thorough tier
  std::function<void(Gen&, Ctx&)> fn;
};
std::vector<Prop>& registry();
struct Registrar {
  Registrar(const char* name, long quick, long thorough,
            std::function<void(Gen&, Ctx&)> fn) {
    registry().push_back({name, quick, thorough, std::move(fn)});
  }
};

template <typename... T> std::string cat(T const&... xs) {
  std::ostringstream os;
  os.precision(17);
  (os << ... << xs);
  return os.str();
}

} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
// A property: PROP(name, quick cases, thorough cases) { ... uses g and ctx ... }
#define PROP(NAME, QUICK, THOROUGH)                                            \
  static void NAME(pbt::Gen& g, pbt::Ctx& ctx);                                \
  static pbt::Registrar PBT_CAT(reg_, NAME)(#NAME, QUICK, THOROUGH, NAME);     \
  static void NAME([[maybe_unused]] pbt::Gen& g, [[maybe_unused]] pbt::Ctx& ctx)

// MUST(cond, message pieces...)
#define MUST(COND, ...)                                                        \
  do {                                                                         \
    if(!(COND))                                                                \
      throw pbt::Failure(pbt::cat("[", #COND, "] at line ", __LINE__,          \
                                  ": " __VA_OPT__(, ) __VA_ARGS__));           \
  } while(0)
// MUST_THROW(exception type, expression)
#define MUST_THROW(EXC, EXPR, ...)                                             \
  do {                                                                         \
    bool thrown_ = false;                                                      \
    try {                                                                      \
      (void)(EXPR);                                                            \
    } catch(EXC const&) { thrown_ = true; }                                    \
    if(!thrown_)                                                               \
      throw pbt::Failure(pbt::cat("no " #EXC " from " #EXPR " at line ",       \
                                  __LINE__,                                    \
                                  ": " __VA_OPT__(, ) __VA_ARGS__));           \
  } while(0)
