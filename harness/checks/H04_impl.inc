// Included once per implementation, after the header under test
extern "C++" {
namespace PBT_IMPL {
std::uint64_t pow2(unsigned int n) { return libcommute::detail::pow2(n); }
std::uint64_t next_pow2(std::uint64_t i) { return libcommute::detail::next_pow2(i); }
unsigned int popcount(std::uint64_t i) { return libcommute::detail::popcount(i); }
bool parity(std::uint64_t i) { return libcommute::detail::parity_popcount(i); }
unsigned int ctz(std::uint64_t i) { return libcommute::detail::count_trailing_zeros(i); }
std::uint64_t deposit(std::uint64_t s, std::uint64_t m) { return libcommute::detail::deposit_bits(s, m); }
std::uint64_t extract(std::uint64_t v, std::uint64_t m) { return libcommute::detail::extract_bits(v, m); }
} // namespace PBT_IMPL
}
