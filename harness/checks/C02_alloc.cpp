#include "faults.hpp"
#include <cstdlib>

namespace faults {
long live = 0, count = 0, fail_at = -1;
bool sticky = false, fired = false;
static void* get(std::size_t n) {
  if(fail_at >= 0) {
    long i = count++;
    if(i == fail_at || (sticky && i > fail_at)) {
      fired = true;
      return nullptr;
    }
  } else
    ++count;
  void* p = std::malloc(n ? n : 1);
  if(p) ++live;
  return p;
}
static void put(void* p) {
  if(p) --live;
  std::free(p);
}
} // namespace faults

void* operator new(std::size_t n) {
  void* p = faults::get(n);
  if(!p) throw std::bad_alloc();
  return p;
}
void* operator new[](std::size_t n) { return operator new(n); }
void* operator new(std::size_t n, std::nothrow_t const&) noexcept { return faults::get(n); }
void* operator new[](std::size_t n, std::nothrow_t const&) noexcept { return faults::get(n); }
void operator delete(void* p) noexcept { faults::put(p); }
void operator delete[](void* p) noexcept { faults::put(p); }
void operator delete(void* p, std::size_t) noexcept { faults::put(p); }
void operator delete[](void* p, std::size_t) noexcept { faults::put(p); }
void operator delete(void* p, std::nothrow_t const&) noexcept { faults::put(p); }
void operator delete[](void* p, std::nothrow_t const&) noexcept { faults::put(p); }
