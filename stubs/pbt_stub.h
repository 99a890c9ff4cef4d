// Which of the valid orderings, decompositions and partitions the stand-ins for htd
// and kahypar supply: harnesses set draw, programs are seeded by PBT_STUB_SEED.
#ifndef VERIF_PBT_STUB_H
#define VERIF_PBT_STUB_H
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <vector>
namespace pbt_stub {
// What the libraries were asked about, and what they answered, since the last clear().
struct Seen {
  std::size_t graphs = 0, vertices = 0;             // htd
  std::vector<std::vector<std::size_t>> edges;      // of the last graph
  std::vector<std::size_t> sequence;                // of the last ordering
  std::size_t largest_bag = 0;                      // of the last decomposition
  std::size_t partitions = 0, hyper_vertices = 0;   // kahypar
  std::vector<std::vector<std::size_t>> hyper;      // hyperedges of the first question
  void clear() { *this = Seen(); }
};
inline Seen &seen() {
  static Seen s;
  return s;
}
inline std::function<uint64_t(uint64_t)> &source() {
  static std::function<uint64_t(uint64_t)> f;
  return f;
}
inline uint64_t draw(uint64_t n) {  // in [0, n)
  if (n <= 1) return 0;
  if (source()) return source()(n);
  static uint64_t s = [] {
    const char *e = getenv("PBT_STUB_SEED");
    return (e ? strtoull(e, nullptr, 10) : 1) * 0x9E3779B97F4A7C15ull + 88172645463325252ull;
  }();
  s ^= s << 13;
  s ^= s >> 7;
  s ^= s << 17;
  return (s >> 11) % n;
}
}  // namespace pbt_stub
#endif
