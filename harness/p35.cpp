// P35: work with separate managers does not interfere, however it interleaves.
//
// The library is compiled with a call at every basic block, where the thread at work may
// hand over to the other one. One thread works at a time, so a schedule is a sequence of
// choices like any other, and a case can be replayed.
#include <linux/futex.h>
#include <sys/syscall.h>

#include <atomic>
#include <thread>

#include "play.h"

namespace {
struct Scheduler {
  std::atomic<bool> on{false};
  std::atomic<int> turn{0};
  std::atomic<bool> done[2];
  std::atomic<int> tid[2];
  uint64_t s = 0;        // state of the generator of the schedule
  uint64_t span = 1;     // at most so many blocks to the next hand-over
  uint64_t left[2] = {};  // of every thread to its next one
  uint64_t switches = 0, most = 0;
  bool blocked = false;  // one thread waits for a lock of the other
  uint64_t next() { return 1 + pbt::splitmix(s) % span; }
};
Scheduler sch;
thread_local int me = -1;
bool locks = false;  // some were seen; waiting for them takes time
bool counting = false;
uint64_t counted = 0;

int *word() { return (int *)&sch.turn; }
void wake() { syscall(SYS_futex, word(), FUTEX_WAKE_PRIVATE, 2, nullptr, nullptr, 0); }
// "S" and its number of waits, when thread t of this process sleeps.
std::string asleep(int t) {
  std::string s = pbt::read_all(pbt::fmt("/proc/self/task/%d/status", t));
  size_t a = s.find("State:\tS"), b = s.find("voluntary_ctxt_switches");
  return a == std::string::npos || b == std::string::npos ? "" : s.substr(b);
}
void await(int who) {
  std::string before;
  for (;;) {
    int t = sch.turn;
    if (t == who) return;
    struct timespec ts = {0, 2000000};
    if (syscall(SYS_futex, word(), FUTEX_WAIT_PRIVATE, t, &ts, nullptr, 0) == 0 || errno != ETIMEDOUT) {
      before.clear();
      continue;
    }
    // The other one may wait for a lock which this one holds.
    std::string now = sch.tid[1 - who] ? asleep(sch.tid[1 - who]) : "";
    if (!now.empty() && now == before && sch.turn == t) {
      sch.blocked = locks = true;
      sch.most = 20;
      sch.turn = who;
      return;
    }
    before = now;
  }
}
void hand_over() {
  ++sch.switches;
  if (sch.switches > sch.most) sch.span = 50000;
  sch.left[me] = sch.next();
  int other = 1 - me;
  if (sch.done[other]) return;
  sch.turn = other;
  wake();
  await(me);
}
}  // namespace

extern "C" void __sanitizer_cov_trace_pc() {
  if (counting) ++counted;
  if (me < 0 || !sch.on.load(std::memory_order_relaxed)) return;
  if (sch.turn.load(std::memory_order_relaxed) != me) {  // went on in spite of the other one
    await(me);
    return;
  }
  if (--sch.left[me] == 0) hand_over();
}

namespace {
// In a directory of this process, where both histories keep their files.
std::string path(int k) {
  std::string d = pbt::scratch_file("p35");
  mkdir(d.c_str(), 0700);
  return d + (k ? "/b" : "/a");
}
struct Part {
  std::vector<uint64_t> choices;
  uint64_t seed = 0;  // the choices are those of a generator
  std::vector<std::string> first, out;
  uint64_t length = 0;
  std::string error;
  size_t pos = 0;
};
void work(int k, Part &p, bool thorough) {
  sch.tid[k] = (int)syscall(SYS_gettid);
  await(k);
  me = k;
  try {
    Case again;
    if (p.seed) {
      again.rng = p.seed;
    } else {
      again.mode = Case::kReplay;
      again.replay = p.choices;
    }
    again.thorough = thorough;
    Noise none;
    play(again, none, p.out, path(k));
    p.pos = again.drawn;
  } catch (pbt::Failure &f) {
    p.error = f.msg;
  } catch (std::exception &e) {
    p.error = e.what();
  }
  me = -1;
  sch.done[k] = true;
  sch.turn = 1 - k;
  wake();
}
}  // namespace

namespace {
void alone(Case &c, int k, Part &p, bool &large) {
  p.choices.clear();
  p.first.clear();
  c.record = &p.choices;
  counting = true;
  counted = 0;
  Noise none;
  play(c, none, p.first, path(k));
  counting = false;
  c.record = nullptr;
  p.length = counted;
  for (auto &s : p.first) large = large || std::count(s.begin(), s.end(), '\n') >= 5;
}
void together(Case &c, Part p[2], uint64_t length) {
  static const uint64_t spans[] = {20000, 5000, 1000, 200, 40, 8};
  uint64_t kind = c.draw(7);
  sch.s = c.draw(1u << 30);
  sch.span = kind == 6 ? length : spans[kind];
  sch.most = locks ? 20 : 1500;
  sch.switches = 0;
  sch.blocked = false;
  for (int k = 0; k < 2; ++k) {
    sch.done[k] = false;
    sch.tid[k] = 0;
    sch.left[k] = sch.next();
    p[k].out.clear();
    p[k].error.clear();
  }
  sch.turn = (int)(pbt::splitmix(sch.s) % 2);
  sch.on = true;
  std::thread a(work, 0, std::ref(p[0]), c.thorough), b(work, 1, std::ref(p[1]), c.thorough);
  a.join();
  b.join();
  sch.on = false;
  c.note("%ju turns, span %ju\n", (uintmax_t)sch.switches, (uintmax_t)sch.span);
  c.count("turns", sch.switches);
  if (sch.blocked) c.count("rounds with a lock between the threads");
  c.label(fmt("span %s", kind == 6 ? "of the history" : std::to_string(spans[kind]).c_str()));
}
void compare(Part p[2]) {
  for (int k = 0; k < 2; ++k) {
    const char *what = k ? "second" : "first";
    PBT_REQUIRE(p[k].error.empty(), "together with other work, the %s history ends with: %s", what, p[k].error.c_str());
    PBT_REQUIRE(p[k].pos == p[k].choices.size() && p[k].out.size() == p[k].first.size(), "together with other work, the %s history ends after %zu choices instead of %zu", what, p[k].pos, p[k].choices.size());
    for (size_t i = 0; i < p[k].out.size(); ++i)
      PBT_REQUIRE(p[k].out[i] == p[k].first[i], "result %zu of the %s history is, together with other work:\n%.600s\nbut alone:\n%.600s", i, what, p[k].out[i].c_str(), p[k].first[i].c_str());
  }
}
void note(Case &c, Part p[2]) {
  for (int k = 0; k < 2; ++k) {
    c.note("history %d, %ju blocks\n", k, (uintmax_t)p[k].length);
    for (auto &s : p[k].first) c.note("%.300s\n", s.c_str());
  }
}
}  // namespace

PBT_PROPERTY("P35", "two histories of operations on a manager each (every construction, product, learning, sampling, drawing, file, deletion and query), or (1 in 5 each) compilations of a network, one after the other and at the same time in two threads which take turns at drawn basic blocks of the library (1 in 16: at the same time first, where the process may be a fresh one); node numbers, parameters, orders, answers and files must be equal to the last bit; non-trivial when at least ten turns were taken and either history has a PSDD of at least five nodes") {
  Part p[2];
  bool large = false;
  if (c.chance(1, 16)) {
    for (auto &x : p) x.seed = 1 + c.draw(1u << 30);
    together(c, p, 50000);
    uint64_t turns = sch.switches;
    for (int k = 0; k < 2; ++k) {
      Case again;
      again.rng = p[k].seed;
      again.thorough = c.thorough;
      alone(again, k, p[k], large);
    }
    note(c, p);
    c.label("at the same time first");
    c.nontrivial = turns >= 10 && large;
    return compare(p);
  }
  for (int k = 0; k < 2; ++k) alone(c, k, p[k], large);
  note(c, p);
  int rounds = 1 + (int)c.draw(3);
  for (int r = 0; r < rounds; ++r) {
    together(c, p, std::max<uint64_t>(1, std::max(p[0].length, p[1].length)));
    if (sch.switches >= 10 && large) c.nontrivial = true;
    compare(p);
  }
}
