#include "engine.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <set>
#include <unordered_set>

#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>

namespace pbt {

std::vector<Prop>& registry() {
  static std::vector<Prop> r;
  return r;
}

namespace {

constexpr std::size_t MaxShared = 1 << 16;
// Choices of the case being run, written through to shared memory so that they
// survive a crash of the process.
struct Shared {
  volatile long idx;
  volatile long prop;
  volatile int size;
  volatile std::size_t n;
  std::uint64_t choices[MaxShared];
  volatile std::size_t msg_n;
  char msg[1 << 15];
};
Shared* shared = nullptr;

std::uint64_t splitmix(std::uint64_t& s) {
  std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

} // namespace

Gen::Gen(std::uint64_t seed, int size)
  : state_(seed), size_(size), replay_(false) {
  if(shared) shared->n = 0;
}
Gen::Gen(std::vector<std::uint64_t> choices, int size)
  : size_(size), replay_(true), in_(std::move(choices)) {
  if(shared) shared->n = 0;
}

std::uint64_t Gen::next() { return splitmix(state_); }

std::uint64_t Gen::below(std::uint64_t n) {
  std::uint64_t v = 0;
  if(replay_) {
    if(pos_ < in_.size())
      v = in_[pos_++];
    else
      overrun_ = true;
    if(n != 0 && v >= n) v = v % n;
  } else {
    if(n == 0)
      v = next();
    else
      v = std::uint64_t((static_cast<unsigned __int128>(next()) * n) >> 64);
  }
  rec_.push_back(v);
  if(shared && rec_.size() <= MaxShared) {
    shared->choices[rec_.size() - 1] = v;
    shared->n = rec_.size();
  }
  return v;
}

std::size_t Gen::weighted(std::initializer_list<unsigned> w) {
  unsigned total = 0;
  for(unsigned x : w)
    total += x;
  std::uint64_t r = below(total);
  std::size_t i = 0;
  for(unsigned x : w) {
    if(r < x) return i;
    r -= x;
    ++i;
  }
  return w.size() - 1;
}

std::uint64_t Gen::boundary(std::uint64_t lo, std::uint64_t hi) {
  if(lo == hi) return lo;
  std::uint64_t span = hi - lo;
  switch(weighted({4, 2, 2, 3, 3})) {
  case 0: return lo + below(std::min<std::uint64_t>(span, 8) + 1);
  case 1: return hi - below(std::min<std::uint64_t>(span, 4) + 1);
  case 2: { // near a power of two
    unsigned k = unsigned(below(64));
    std::uint64_t p = (std::uint64_t(1) << k) + below(3) - 1;
    return (p < lo) ? lo : (p > hi ? hi : p);
  }
  case 3: { // log-uniform
    unsigned bits = 0;
    while(bits < 64 && (span >> bits) != 0)
      ++bits;
    unsigned k = unsigned(below(bits + 1));
    std::uint64_t m = k >= 64 ? ~std::uint64_t(0) : ((std::uint64_t(1) << k) - 1);
    return lo + (m == ~std::uint64_t(0) ? below(0) : below(m + 1)) % (span + 1 ? span + 1 : ~std::uint64_t(0));
  }
  default: return lo + (span + 1 == 0 ? below(0) : below(span + 1));
  }
}

std::uint64_t Gen::bits64() {
  switch(weighted({3, 2, 2, 2, 3})) {
  case 0: { // few bits
    std::uint64_t r = 0;
    int k = int(below(6));
    for(int i = 0; i < k; ++i)
      r |= std::uint64_t(1) << below(64);
    return r;
  }
  case 1: { // many bits
    std::uint64_t r = ~std::uint64_t(0);
    int k = int(below(6));
    for(int i = 0; i < k; ++i)
      r &= ~(std::uint64_t(1) << below(64));
    return r;
  }
  case 2: { // a run of bits
    unsigned a = unsigned(below(64)), b = unsigned(below(65));
    if(b >= 64) return ~std::uint64_t(0) << a;
    return (std::uint64_t(1) << b) - (a < b ? (std::uint64_t(1) << a) : 0);
  }
  case 3: return below(256);
  default: return below(0);
  }
}

// --------------------------------------------------------------------- runner

namespace {

struct Options {
  std::string tier = "quick";
  std::uint64_t seed = 1;
  int workers = 8;
  double scale = 1.0;
  std::string out, only, replay, replay_dir = ".";
};

std::uint64_t fnv(std::string const& s, std::uint64_t h = 1469598103934665603ull) {
  for(unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

std::uint64_t case_seed(Options const& o, Prop const& p, long idx) {
  std::uint64_t s = o.seed * 0x9e3779b97f4a7c15ull ^ fnv(p.name);
  splitmix(s);
  s ^= std::uint64_t(idx) * 0xd1342543de82ef95ull;
  return splitmix(s);
}

int case_size(long idx, long n) {
  // Sizes sweep 1..100 repeatedly, small ones first
  long period = std::max<long>(20, std::min<long>(n / 4, 200));
  return 1 + int((idx % period) * 99 / std::max<long>(1, period - 1));
}

std::string jstr(std::string const& s) {
  std::string r = "\"";
  for(unsigned char c : s) {
    if(c == '"' || c == '\\') {
      r += '\\';
      r += char(c);
    } else if(c == '\n')
      r += "\\n";
    else if(c < 0x20 || c >= 0x7f) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += char(c);
  }
  return r + "\"";
}

// Outcome of one execution
enum class Out { pass, discard, fail };

// Runs in the current process
Out run_case(Prop const& p, Gen& g, Ctx& ctx, std::string& msg) {
  try {
    p.fn(g, ctx);
    return Out::pass;
  } catch(Discard const&) {
    return Out::discard;
  } catch(Failure const& f) {
    msg = f.msg;
    return Out::fail;
  } catch(std::exception const& e) {
    msg = std::string("unexpected exception ") + typeid(e).name() + ": " + e.what();
    return Out::fail;
  } catch(...) {
    msg = "unexpected exception of unknown type";
    return Out::fail;
  }
}

int cpu_limit_s = 40; // CPU seconds one case may take

void on_vtalrm(int) {
  static const char m[] = "pbt: CPU time limit of one case exceeded\n";
  [[maybe_unused]] auto r = write(2, m, sizeof m - 1);
  _exit(77);
}
void arm() {
  itimerval t{};
  t.it_value.tv_sec = cpu_limit_s;
  setitimer(ITIMER_VIRTUAL, &t, nullptr);
}
// CPU milliseconds since arm()
long used_ms() {
  itimerval t{};
  getitimer(ITIMER_VIRTUAL, &t);
  return cpu_limit_s * 1000L - t.it_value.tv_sec * 1000L - t.it_value.tv_usec / 1000L;
}
void child_setup() {
  std::signal(SIGVTALRM, on_vtalrm);
  rlimit core{0, 0};
  setrlimit(RLIMIT_CORE, &core);
#ifndef PBT_SANITIZED
  rlimit as{rlim_t(3) << 30, rlim_t(3) << 30};
  setrlimit(RLIMIT_AS, &as);
#endif
}

void share_msg(std::string const& m) {
  std::size_t n = std::min(m.size(), sizeof(shared->msg) - 1);
  std::memcpy(shared->msg, m.data(), n);
  shared->msg[n] = 0;
  shared->msg_n = n;
}

// Runs a choice sequence in a forked child. Returns true if it fails.
bool fails_forked(Prop const& p, std::vector<std::uint64_t> const& choices,
                  int size, std::string& msg, std::vector<std::uint64_t>& used,
                  std::string* desc = nullptr, bool quiet = true) {
  shared->msg_n = 0;
  shared->n = 0;
  int fds[2];
  if(pipe(fds) != 0) std::abort();
  pid_t pid = fork();
  if(pid == 0) {
    close(fds[0]);
    if(quiet) {
      int dn = open("/dev/null", O_WRONLY);
      dup2(dn, 1);
      dup2(dn, 2);
    }
    child_setup();
    arm();
    Gen g(choices, size);
    Ctx ctx;
    std::string m;
    Out o = run_case(p, g, ctx, m);
    std::string d = ctx.desc();
    share_msg(m);
    std::size_t off = 0;
    while(off < d.size()) {
      auto w = write(fds[1], d.data() + off, d.size() - off);
      if(w <= 0) break;
      off += std::size_t(w);
    }
    _exit(o == Out::fail ? 10 : 0);
  }
  close(fds[1]);
  std::string d;
  char buf[4096];
  ssize_t r;
  while((r = read(fds[0], buf, sizeof buf)) > 0)
    d.append(buf, std::size_t(r));
  close(fds[0]);
  int st = 0;
  while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  used.assign(shared->choices,
              shared->choices + std::min(std::size_t(shared->n), MaxShared));
  if(desc) *desc = d;
  if(WIFEXITED(st) && WEXITSTATUS(st) == 0) return false;
  if(WIFEXITED(st) && WEXITSTATUS(st) == 10)
    msg = std::string(shared->msg, shared->msg_n);
  else if(WIFEXITED(st) && WEXITSTATUS(st) == 77)
    msg = "hang: CPU time limit of one case exceeded";
  else if(WIFEXITED(st))
    msg = "process ended with code " + std::to_string(WEXITSTATUS(st)) +
          " (sanitizer report or exit)";
  else
    msg = "process killed by signal " + std::to_string(WTERMSIG(st));
  return true;
}

using Choices = std::vector<std::uint64_t>;

bool simpler(Choices const& a, Choices const& b) {
  if(a.size() != b.size()) return a.size() < b.size();
  return a < b;
}

void shrink(Prop const& p, Choices& best, int size, std::string& msg) {
  int budget = 1500;
  timeval t0{};
  gettimeofday(&t0, nullptr);
  auto expired = [&]() {
    timeval t{};
    gettimeofday(&t, nullptr);
    return t.tv_sec - t0.tv_sec > 60;
  };
  bool hang = msg.compare(0, 4, "hang") == 0;
  if(hang) return;
  auto attempt = [&](Choices const& c) {
    if(budget <= 0 || expired()) return false;
    --budget;
    std::string m;
    Choices used;
    if(!fails_forked(p, c, size, m, used)) return false;
    if(m.compare(0, 4, "hang") == 0) return false;
    if(!simpler(used, best)) return false;
    best = used;
    msg = m;
    return true;
  };
  bool progress = true;
  while(progress && budget > 0 && !expired()) {
    progress = false;
    for(std::size_t chunk : {64u, 32u, 16u, 8u, 4u, 3u, 2u, 1u}) {
      for(std::size_t i = 0; i + chunk <= best.size() && budget > 0;) {
        Choices c = best;
        c.erase(c.begin() + long(i), c.begin() + long(i + chunk));
        if(attempt(c))
          progress = true;
        else
          i += std::max<std::size_t>(1, chunk / 2);
      }
    }
    for(std::size_t chunk : {8u, 2u}) {
      for(std::size_t i = 0; i + chunk <= best.size() && budget > 0; i += chunk) {
        Choices c = best;
        bool any = false;
        for(std::size_t j = i; j < i + chunk; ++j) {
          any |= (c[j] != 0);
          c[j] = 0;
        }
        if(any && attempt(c)) progress = true;
      }
    }
    for(std::size_t i = 0; i < best.size() && budget > 0; ++i) {
      if(best[i] == 0) continue;
      Choices c = best;
      c[i] = 0;
      if(attempt(c)) {
        progress = true;
        continue;
      }
      std::uint64_t lo = 0; // known to pass (or not simpler)
      while(i < best.size() && best[i] - lo > 1 && budget > 0) {
        c = best;
        std::uint64_t mid = lo + (best[i] - lo) / 2;
        c[i] = mid;
        if(attempt(c))
          progress = true;
        else
          lo = mid;
      }
    }
  }
}

void write_replay(std::string const& path, Prop const& p, Choices const& c, int size,
                  Options const& o, long from, long stride, long idx, bool history) {
  std::ofstream f(path);
  f << "prop " << p.name << "\nsize " << size << "\nseed " << o.seed << "\ntier "
    << o.tier << "\nhistory " << (history ? 1 : 0) << " " << from << " " << stride
    << " " << idx << "\nchoices " << c.size();
  for(auto v : c)
    f << " " << v;
  f << "\n";
}

long n_cases(Options const& o, Prop const& p) {
  long n = o.tier == "thorough" ? p.thorough : p.quick;
  return std::max<long>(1, long(double(n) * o.scale));
}

// Runs case idx of property p; used for history replays and by the workers
Out run_indexed(Options const& o, Prop const& p, long idx, Ctx& ctx, std::string& msg,
                Choices& used, int& size) {
  size = case_size(idx, n_cases(o, p));
  Gen g(case_seed(o, p, idx), size);
  Out r = run_case(p, g, ctx, msg);
  used = g.choices();
  return r;
}

int replay_main(Options& o) {
  std::ifstream f(o.replay);
  std::string key, name;
  int size = 1, hist = 0;
  long from = 0, stride = 1, idx = 0;
  std::size_t n = 0;
  Choices c;
  while(f >> key) {
    if(key == "prop")
      f >> name;
    else if(key == "size")
      f >> size;
    else if(key == "seed")
      f >> o.seed;
    else if(key == "tier")
      f >> o.tier;
    else if(key == "history")
      f >> hist >> from >> stride >> idx;
    else if(key == "choices") {
      f >> n;
      c.resize(n);
      for(auto& v : c)
        f >> v;
    }
  }
  for(auto const& p : registry()) {
    if(p.name != name) continue;
    std::string msg, desc;
    Choices used;
    bool bad = false;
    if(!hist) {
      bad = fails_forked(p, c, size, msg, used, &desc, false);
    } else {
      pid_t pid = fork();
      if(pid == 0) {
        child_setup();
        for(long i = from; i <= idx; i += stride) {
          Ctx ctx;
          int sz = 0;
          arm();
          if(run_indexed(o, p, i, ctx, msg, used, sz) == Out::fail) {
            std::cout << "case " << i << ": " << ctx.desc() << "\n" << msg << "\n";
            std::cout.flush();
            _exit(10);
          }
        }
        _exit(0);
      }
      int st = 0;
      waitpid(pid, &st, 0);
      bad = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
      msg = "see above";
    }
    std::cout << (bad ? "REPRODUCED " : "NOT-REPRODUCED ") << name << "\n";
    if(!desc.empty()) std::cout << "case: " << desc << "\n";
    if(bad) std::cout << "failure: " << msg << "\n";
    return bad ? 1 : 0;
  }
  std::cout << "no such property: " << name << "\n";
  return 2;
}

struct Stats {
  long run = 0, nontrivial = 0, discarded = 0, max_ms = 0;
  std::map<std::string, long> labels;
  std::vector<std::string> samples;
};

} // namespace

int pbt_main(int argc, char** argv) {
  Options o;
  for(int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if(a == "--tier") o.tier = v;
    else if(a == "--seed") o.seed = std::strtoull(v.c_str(), nullptr, 10);
    else if(a == "--workers") o.workers = std::atoi(v.c_str());
    else if(a == "--scale") o.scale = std::atof(v.c_str());
    else if(a == "--out") o.out = v;
    else if(a == "--only") o.only = v;
    else if(a == "--replay") o.replay = v;
    else if(a == "--replay-dir") o.replay_dir = v;
  }
  shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                     MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  if(!o.replay.empty()) return replay_main(o);

  std::sort(registry().begin(), registry().end(),
            [](Prop const& a, Prop const& b) { return a.name < b.name; });
  std::vector<Prop const*> props;
  for(auto const& p : registry())
    if(o.only.empty() || p.name == o.only) props.push_back(&p);
  if(o.tier == "thorough") cpu_limit_s = 100;

  // One private shared area per worker
  struct W {
    pid_t pid;
    Shared* sh;
    std::string file;
    std::size_t prop0; // resume position
    long idx0;
  };
  std::string tmpl = (o.out.empty() ? std::string("/tmp/pbt") : o.out) + ".w";
  std::vector<W> ws;
  for(int w = 0; w < o.workers; ++w) {
    auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                                         MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    ws.push_back({0, sh, tmpl + std::to_string(w), 0, w});
  }
  Shared* own = shared;
  for(int w = 0; w < o.workers; ++w) {
    std::cout.flush();
    pid_t pid = fork();
    if(pid != 0) {
      ws[std::size_t(w)].pid = pid;
      continue;
    }
    // -------- worker
    shared = ws[std::size_t(w)].sh;
    child_setup();
    std::ofstream out(ws[std::size_t(w)].file);
    for(std::size_t pi = 0; pi < props.size(); ++pi) {
      Prop const& p = *props[pi];
      long n = n_cases(o, p);
      Stats st;
      std::unordered_set<std::uint64_t> seen;
      for(long idx = w; idx < n; idx += o.workers) {
        shared->idx = idx;
        shared->prop = long(pi);
        shared->size = case_size(idx, n);
        arm();
        Ctx ctx;
        std::string msg;
        Choices used;
        int size = 0;
        Out r = run_indexed(o, p, idx, ctx, msg, used, size);
        if(r == Out::fail) {
          share_msg(msg);
          _exit(10);
        }
        st.max_ms = std::max(st.max_ms, used_ms());
        if(r == Out::discard) {
          ++st.discarded;
          continue;
        }
        ++st.run;
        for(auto const& l : ctx.labels())
          st.labels[l.first] += l.second;
        if(ctx.is_nontrivial()) {
          ++st.nontrivial;
          std::uint64_t h = 1469598103934665603ull;
          for(auto v : used)
            h = (h ^ v) * 1099511628211ull;
          std::string d = ctx.desc();
          h = fnv(d, h);
          if(seen.insert(h).second) out << "H " << pi << " " << h << "\n";
          if(w < 2 && size > 30 && st.samples.size() < 1 && d.size() < 1500)
            st.samples.push_back(d);
        }
      }
      out << "S " << pi << " " << st.run << " " << st.nontrivial << " " << st.discarded
          << " " << st.max_ms << "\n";
      for(auto const& l : st.labels)
        out << "L " << pi << " " << l.second << " " << l.first << "\n";
      for(auto& s : st.samples) {
        std::replace(s.begin(), s.end(), '\n', ' ');
        out << "X " << pi << " " << s << "\n";
      }
    }
    out.flush();
    _exit(0);
  }

  // -------- parent
  int failures = 0;
  std::string fail_json;
  bool stop = false;
  for(int k = 0; k < o.workers; ++k) {
    int st = 0;
    pid_t pid;
    while((pid = waitpid(-1, &st, 0)) < 0 && errno == EINTR) {}
    if(pid < 0) break;
    if(WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
    if(stop) continue;
    int wi = -1;
    for(int w = 0; w < o.workers; ++w)
      if(ws[std::size_t(w)].pid == pid) wi = w;
    if(wi < 0) continue;
    // First failure: stop the other workers
    stop = true;
    for(auto const& w : ws)
      if(w.pid != pid) kill(w.pid, SIGKILL);
    Shared* sh = ws[std::size_t(wi)].sh;
    Prop const& p = *props[std::size_t(sh->prop)];
    Choices c(sh->choices, sh->choices + std::min(std::size_t(sh->n), MaxShared));
    int size = sh->size;
    long idx = sh->idx;
    std::string msg = (WIFEXITED(st) && WEXITSTATUS(st) == 10)
                          ? std::string(sh->msg, sh->msg_n)
                          : (WIFEXITED(st) && WEXITSTATUS(st) == 77
                                 ? "hang: CPU time limit of one case exceeded"
                                 : "crash or sanitizer report, wait status " +
                                       std::to_string(st));
    shared = own;
    std::string m2, desc;
    Choices used;
    std::string path =
        o.replay_dir + "/" + p.name + "-s" + std::to_string(o.seed) + "-" + std::to_string(idx) + ".replay";
    bool isolated = fails_forked(p, c, size, m2, used);
    if(isolated) {
      msg = m2;
      c = used;
      shrink(p, c, size, msg);
      if(msg.compare(0, 4, "hang") != 0) fails_forked(p, c, size, m2, used, &desc);
      write_replay(path, p, c, size, o, wi, o.workers, idx, false);
    } else {
      write_replay(path, p, c, size, o, wi, o.workers, idx, true);
    }
    ++failures;
    fail_json = "{\"prop\":" + jstr(p.name) + ",\"case\":" + std::to_string(idx) +
                ",\"replay\":" + jstr(path) + ",\"message\":" + jstr(msg) +
                ",\"desc\":" + jstr(desc) +
                ",\"isolated\":" + (isolated ? "true" : "false") + "}";
  }

  // -------- merge
  std::map<std::size_t, Stats> all;
  std::map<std::size_t, std::set<std::uint64_t>> hashes;
  for(auto const& w : ws) {
    std::ifstream in(w.file);
    std::string line;
    while(std::getline(in, line)) {
      std::istringstream is(line);
      char k = 0;
      std::size_t pi = 0;
      is >> k >> pi;
      if(k == 'H') {
        std::uint64_t h = 0;
        is >> h;
        hashes[pi].insert(h);
      } else if(k == 'S') {
        long a = 0, b = 0, c = 0, t = 0;
        is >> a >> b >> c >> t;
        all[pi].max_ms = std::max(all[pi].max_ms, t);
        all[pi].run += a;
        all[pi].nontrivial += b;
        all[pi].discarded += c;
      } else if(k == 'L') {
        long n = 0;
        std::string l;
        is >> n;
        is.get();
        std::getline(is, l);
        all[pi].labels[l] += n;
      } else if(k == 'X') {
        std::string l;
        is.get();
        std::getline(is, l);
        all[pi].samples.push_back(l);
      }
    }
    in.close();
    unlink(w.file.c_str());
  }
  std::ostringstream js;
  js << "{\"failures\":[" << fail_json << "],\"props\":[";
  bool first = true;
  for(std::size_t pi = 0; pi < props.size(); ++pi) {
    auto const& s = all[pi];
    js << (first ? "" : ",") << "{\"name\":" << jstr(props[pi]->name)
       << ",\"run\":" << s.run << ",\"nontrivial\":" << s.nontrivial
       << ",\"distinct\":" << hashes[pi].size() << ",\"discarded\":" << s.discarded
       << ",\"max_case_ms\":" << s.max_ms << ",\"labels\":{";
    bool f2 = true;
    for(auto const& l : s.labels) {
      js << (f2 ? "" : ",") << jstr(l.first) << ":" << l.second;
      f2 = false;
    }
    js << "},\"samples\":[";
    f2 = true;
    for(auto const& l : s.samples) {
      js << (f2 ? "" : ",") << jstr(l);
      f2 = false;
    }
    js << "]}";
    first = false;
  }
  js << "]}\n";
  if(o.out.empty())
    std::cout << js.str();
  else {
    std::ofstream f(o.out);
    f << js.str();
  }
  return failures ? 1 : 0;
}

} // namespace pbt

#ifndef PBT_FUZZER
int main(int argc, char** argv) { return pbt::pbt_main(argc, argv); }
#endif
