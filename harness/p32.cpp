// P32: what a sequence of calls yields depends on nothing but its arguments.
#include <sys/mman.h>

#include "play.h"

// Objects get addresses in an order of the check's choosing, so that whatever depends on
// addresses differs from one play to the next.
namespace {
struct Arena {
  static const size_t kSlot = 16, kClasses = 40, kSize = (size_t)1 << 31;
  bool on = false;
  char *lo = nullptr, *hi = nullptr, *next = nullptr;
  char **slots[kClasses] = {};  // unused ones
  size_t n[kClasses] = {}, cap[kClasses] = {};
  uint64_t order = 0;  // 0: in sequence; otherwise the state of a generator
  void push(size_t k, char *p) {
    if (n[k] == cap[k]) {
      cap[k] = 2 * cap[k] + 1024;
      slots[k] = (char **)realloc(slots[k], cap[k] * sizeof(char *));
      if (!slots[k]) abort();
    }
    slots[k][n[k]++] = p;
  }
  void *get(size_t bytes) {
    size_t k = (bytes + 2 * kSlot - 1) / kSlot;  // one slot more for the size
    if (k >= kClasses) return nullptr;
    if (!lo) {
      void *p = mmap(nullptr, kSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (p == MAP_FAILED) abort();
      lo = next = (char *)p;
      hi = lo + kSize;
    }
    if (n[k] < 64) {
      const size_t m = 256;
      if (next + m * k * kSlot > hi) return nullptr;
      for (size_t i = m; i-- > 0;) push(k, next + i * k * kSlot);
      next += m * k * kSlot;
    }
    if (order) {
      size_t i = (size_t)(pbt::splitmix(order) % n[k]);
      std::swap(slots[k][i], slots[k][n[k] - 1]);
    }
    char *p = slots[k][--n[k]];
    memcpy(p, &k, sizeof k);
    return p + kSlot;
  }
  bool has(void *p) const { return p >= (void *)lo && p < (void *)hi; }
  void put(void *p) {
    char *q = (char *)p - kSlot;
    size_t k;
    memcpy(&k, q, sizeof k);
    push(k, q);
  }
} arena;
void *allocate(size_t n) {
  if (arena.on)
    if (void *p = arena.get(n)) return p;
  void *p = malloc(n ? n : 1);
  if (!p) abort();
  return p;
}
void release(void *p) {
  if (arena.lo && arena.has(p)) return arena.put(p);
  free(p);
}
}  // namespace
void *operator new(size_t n) { return allocate(n); }
void *operator new[](size_t n) { return allocate(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return allocate(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { release(p); }
void operator delete(void *p) noexcept { release(p); }
void operator delete[](void *p) noexcept { release(p); }
void operator delete(void *p, size_t) noexcept { release(p); }
void operator delete[](void *p, size_t) noexcept { release(p); }

PBT_PROPERTY("P32", "histories of 6 to 22 operations on a manager (every construction, product, learning, sampling, drawing, file, deletion and query), or (1 in 5) compilations of a network, played three times: as it is; with objects at scattered addresses; and at scattered addresses with unrelated work in other managers in between; node numbers, parameters, orders, answers and files must be equal to the last bit; non-trivial when some PSDD has at least five nodes") {
  std::vector<uint64_t> choices;
  std::vector<std::string> first;
  c.record = &choices;
  arena.on = true;
  arena.order = 0;
  {
    Noise none;
    play(c, none, first, pbt::scratch_file("p32"));
  }
  c.record = nullptr;
  uint64_t seed = 1 + c.draw(1u << 30);
  bool large = false;
  for (auto &s : first) {
    c.note("%.300s\n", s.c_str());
    large = large || std::count(s.begin(), s.end(), '\n') >= 5;
  }
  c.nontrivial = large;
  c.count("results compared", first.size());
  for (int k = 0; k < 2; ++k) {
    arena.order = seed + (uint64_t)k;
    Case again;
    again.mode = Case::kReplay;
    again.replay = choices;
    again.thorough = c.thorough;
    Noise noise;
    noise.s = k ? seed : 0;
    std::vector<std::string> out;
    play(again, noise, out, pbt::scratch_file("p32"));
    const char *how = k ? "with unrelated work in between" : "at other addresses";
    PBT_REQUIRE(again.pos == choices.size() && out.size() == first.size(), "%s the same calls end after %zu choices instead of %zu", how, again.pos, choices.size());
    for (size_t i = 0; i < out.size(); ++i) PBT_REQUIRE(out[i] == first[i], "result %zu is, %s:\n%.600s\nbut was first:\n%.600s", i, how, out[i].c_str(), first[i].c_str());
  }
  arena.on = false;
}
