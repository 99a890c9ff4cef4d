// A small property-based testing engine.
//
// A test case is a pure function of a sequence of choices (integers below a
// bound).  Choices come from a PRNG seeded with (VERIF_SEED, case index), from a
// replay file, or from a byte string (libFuzzer).  A choice of 0 is always the
// simplest one, so a failing case is shrunk by deleting and lowering choices.
//
// Cases run in batches inside forked workers: a crash, an abort, a sanitizer
// report, a runaway case (CPU or memory) or a failed expectation in a worker all
// identify the failing case without harming the coordinator.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#include <algorithm>
#include <cerrno>
#include <cinttypes>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};

inline std::string fmt(const char *f, ...) {
  char buf[4096];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof buf, f, ap);
  va_end(ap);
  return buf;
}

// Status of a worker that finished; an exit(0) from the code under test is not it.
constexpr int kOk = 55;
constexpr size_t kMaxChoices = 1u << 18;

// Shared with the coordinator so that it survives a crash of the worker.
struct Shared {
  volatile uint64_t current_case;
  volatile uint64_t started;
  volatile uint64_t n_choices;
  uint64_t choices[kMaxChoices];
  char note[1 << 14];
};

inline uint64_t splitmix(uint64_t &s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

class Case {
 public:
  enum Mode { kRandom, kReplay, kBytes };
  Mode mode = kRandom;
  uint64_t rng = 0;
  std::vector<uint64_t> replay;
  size_t pos = 0;
  const uint8_t *bytes = nullptr;
  size_t nbytes = 0;
  Shared *shared = nullptr;
  std::vector<uint64_t> *record = nullptr;  // receives every choice

  uint64_t hash = 1469598103934665603ull;
  uint64_t drawn = 0;
  bool nontrivial = false;
  bool want_note = false;
  bool thorough = false;
  std::string note_text;
  std::set<std::string> labels;
  std::map<std::string, uint64_t> counters;

  // Uniform in [0, bound); 0 is the simplest.
  uint64_t draw(uint64_t bound) {
    uint64_t v = 0;
    if (bound <= 1) {
      v = 0;
    } else if (mode == kRandom) {
      uint64_t x = splitmix(rng);
      v = bound == UINT64_MAX ? x : (uint64_t)(((unsigned __int128)x * bound) >> 64);
    } else if (mode == kReplay) {
      v = pos < replay.size() ? replay[pos] : 0;
      if (v >= bound) v = v % bound;
    } else {
      int w = bound <= 256 ? 1 : bound <= 65536 ? 2 : bound <= (1ull << 32) ? 4 : 8;
      for (int i = 0; i < w; ++i) {
        v = (v << 8) | (pos < nbytes ? bytes[pos] : 0);
        ++pos;
      }
      v %= bound;
    }
    if (mode == kReplay) ++pos;
    if (shared && mode != kBytes) {
      uint64_t n = shared->n_choices;
      if (n < kMaxChoices) {
        shared->choices[n] = v;
        shared->n_choices = n + 1;
      }
    }
    if (record) record->push_back(v);
    hash = (hash ^ v) * 1099511628211ull;
    hash ^= hash >> 29;
    ++drawn;
    if (drawn > kMaxChoices) throw Failure{"harness: too many choices"};
    return v;
  }
  uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
  bool chance(uint64_t num, uint64_t den) {  // simplest = false
    return draw(den) >= den - num;
  }
  bool flip() { return draw(2) == 1; }
  template <class T>
  const T &pick(const std::vector<T> &v) {
    return v[draw(v.size())];
  }
  template <class T>
  void shuffle(std::vector<T> &v) {  // simplest = unchanged
    for (size_t i = 0; i + 1 < v.size(); ++i) std::swap(v[i], v[i + draw(v.size() - i)]);
  }
  double unit() { return (double)draw(1u << 20) / (double)(1u << 20); }

  void note(const char *f, ...) {
    if (!want_note) return;
    char buf[2048];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    if (note_text.size() < 12000) note_text += buf;
    if (shared) {
      strncpy(shared->note, note_text.c_str(), sizeof shared->note - 1);
    }
  }
  void label(const std::string &l) { labels.insert(l); }
  void count(const std::string &l, uint64_t n = 1) { counters[l] += n; }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }
#define PBT_REQUIRE(cond, ...)                                        \
  do {                                                                \
    if (!(cond)) ::pbt::fail(::pbt::fmt(__VA_ARGS__));                \
  } while (0)

struct Spec {
  const char *id;
  const char *rule;  // what makes a case non-trivial
  void (*fn)(Case &);
};
extern Spec g_spec;

// A scratch directory of this process tree, removed by the coordinator.
inline std::string &scratch_root() {
  static std::string s;
  return s;
}
inline std::string scratch_file(const std::string &name) {
  return scratch_root() + "/" + std::to_string((long)getpid()) + "_" + name;
}
inline void rm_tree(const std::string &d) {
  if (d.size() < 10 || d.find("pbt_") == std::string::npos) return;
  pid_t p = fork();
  if (p == 0) {
    execl("/bin/rm", "rm", "-rf", "--", d.c_str(), (char *)nullptr);
    _exit(127);
  }
  int st;
  waitpid(p, &st, 0);
}
inline void make_scratch() {
  char t[] = "/tmp/pbt_XXXXXX";
  if (!mkdtemp(t)) {
    perror("mkdtemp");
    _exit(3);
  }
  scratch_root() = t;
}

inline volatile int g_ticks = 0;
inline int g_cpu_limit_s = 60;
inline long g_rss_limit_mb = 3000;
inline void on_tick(int) {
  g_ticks = g_ticks + 1;
  char b[128];
  int fd = open("/proc/self/statm", O_RDONLY);
  if (fd >= 0) {
    ssize_t n = read(fd, b, sizeof b - 1);
    close(fd);
    if (n > 0) {
      b[n] = 0;
      char *p = b;
      while (*p && *p != ' ') ++p;
      long pages = strtol(p, nullptr, 10);
      if (pages / 256 > g_rss_limit_mb) _exit(96);
    }
  }
  if (g_ticks > g_cpu_limit_s) _exit(97);
}
inline void start_guard() {
  g_ticks = 0;
  signal(SIGPROF, on_tick);
  struct itimerval it = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &it, nullptr);
}

inline void silence(bool out, bool err) {
  int fd = open("/dev/null", O_WRONLY);
  if (out) dup2(fd, 1);
  if (err) dup2(fd, 2);
  close(fd);
}

struct Outcome {
  bool failed = false;
  std::string msg;
  std::string note;
  std::vector<uint64_t> choices;
};

inline std::string read_all(const std::string &f) {
  std::string s;
  FILE *fp = fopen(f.c_str(), "rb");
  if (!fp) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
  fclose(fp);
  return s;
}
inline void write_all(const std::string &f, const std::string &s) {
  FILE *fp = fopen(f.c_str(), "wb");
  if (!fp) {
    perror(f.c_str());
    _exit(3);
  }
  fwrite(s.data(), 1, s.size(), fp);
  fclose(fp);
}

inline int open_files() {
  int n = 0;
  for (int fd = 0; fd < 256; ++fd)
    if (fcntl(fd, F_GETFD) >= 0) ++n;
  return n;
}

inline std::string status_text(int st, const std::string &err) {
  std::string r;
  if (WIFSIGNALED(st)) {
    r = fmt("killed by signal %d", WTERMSIG(st));
  } else {
    int c = WEXITSTATUS(st);
    if (c == 96) r = "case exceeded the memory limit";
    else if (c == 97) r = "case did not finish within the CPU limit";
    else r = fmt("process ended with status %d", c);
  }
  // keep the most telling lines of stderr
  std::istringstream is(err);
  std::string l;
  int k = 0;
  while (std::getline(is, l) && k < 6) {
    if (l.find("ERROR:") != std::string::npos || l.find("Assertion") != std::string::npos ||
        l.find("SUMMARY") != std::string::npos || l.find("terminate called") != std::string::npos ||
        l.find("what():") != std::string::npos) {
      r += "; " + l;
      ++k;
    }
  }
  if (k == 0 && !err.empty()) r += "; stderr: " + err.substr(0, 400);
  return r;
}

inline Shared *new_shared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  return (Shared *)p;
}

inline uint64_t case_seed(uint64_t seed, uint64_t idx) {
  uint64_t s = seed * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull;
  splitmix(s);
  s ^= idx * 0x9E3779B97F4A7C15ull;
  splitmix(s);
  return s;
}

// Runs one case in this process. Throws Failure.
inline void run_case(Case &c) {
  try {
    g_spec.fn(c);
  } catch (Failure &) {
    throw;
  } catch (std::exception &e) {
    throw Failure{std::string("exception: ") + e.what()};
  }
}

// Runs one case in a forked child.
inline Outcome run_isolated(const Case &proto, Shared *sh) {
  Outcome o;
  sh->n_choices = 0;
  sh->note[0] = 0;
  std::string errf = scratch_root() + "/iso_err", msgf = scratch_root() + "/iso_msg";
  unlink(msgf.c_str());
  fflush(stdout);
  fflush(stderr);
  pid_t p = fork();
  if (p == 0) {
    silence(true, false);
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    start_guard();
    Case c = proto;
    c.shared = sh;
    c.want_note = true;
    try {
      run_case(c);
    } catch (Failure &f) {
      write_all(msgf, f.msg);
      _exit(77);
    }
    _exit(kOk);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  o.choices.assign(sh->choices, sh->choices + sh->n_choices);
  o.note = sh->note;
  if (WIFEXITED(st) && WEXITSTATUS(st) == kOk) return o;
  o.failed = true;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77)
    o.msg = read_all(msgf);
  else
    o.msg = status_text(st, read_all(errf));
  return o;
}

inline double now() {
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec;
}

inline Outcome shrink(Outcome best, Shared *sh, bool thorough, double seconds, int &steps) {
  double deadline = now() + seconds;
  auto attempt = [&](const std::vector<uint64_t> &cand) {
    if (now() > deadline) return false;
    ++steps;
    Case c;
    c.mode = Case::kReplay;
    c.replay = cand;
    c.thorough = thorough;
    Outcome o = run_isolated(c, sh);
    if (!o.failed) return false;
    // use what was consumed, never more than the candidate
    if (o.choices.size() > cand.size()) {
      // trailing implicit zeros
      while (o.choices.size() > cand.size() && !o.choices.empty() && o.choices.back() == 0) o.choices.pop_back();
      if (o.choices.size() > cand.size()) o.choices = cand;
    }
    best = o;
    return true;
  };
  bool progress = true;
  while (progress && now() < deadline) {
    progress = false;
    for (size_t chunk = std::max<size_t>(1, best.choices.size() / 2); chunk >= 1; chunk /= 2) {
      for (size_t i = 0; i < best.choices.size() && now() < deadline;) {
        std::vector<uint64_t> cand = best.choices;
        cand.erase(cand.begin() + (long)i, cand.begin() + (long)std::min(cand.size(), i + chunk));
        if (attempt(cand)) {
          progress = true;
          continue;
        }
        i += chunk;
      }
      if (chunk == 1) break;
    }
    for (size_t chunk = 16; chunk >= 1; chunk /= 4) {
      for (size_t i = 0; i < best.choices.size() && now() < deadline; i += chunk) {
        std::vector<uint64_t> cand = best.choices;
        bool any = false;
        for (size_t k = i; k < std::min(cand.size(), i + chunk); ++k) {
          if (cand[k]) any = true;
          cand[k] = 0;
        }
        if (any && attempt(cand)) progress = true;
      }
      if (chunk == 1) break;
    }
    for (size_t i = 0; i < best.choices.size() && now() < deadline; ++i) {
      uint64_t lo = 0, hi = best.choices[i];
      int guard = 0;
      while (hi > lo + 1 && guard++ < 12 && i < best.choices.size()) {
        uint64_t mid = lo + (hi - lo) / 2;
        std::vector<uint64_t> cand = best.choices;
        cand[i] = mid;
        if (attempt(cand)) {
          progress = true;
          if (i >= best.choices.size()) break;
          hi = best.choices[i];
        } else {
          lo = mid;
        }
      }
      if (i < best.choices.size() && best.choices[i] > 0 && best.choices[i] <= 4) {
        std::vector<uint64_t> cand = best.choices;
        cand[i] -= 1;
        if (attempt(cand)) progress = true;
      }
    }
  }
  return best;
}

inline std::string json_str(const std::string &s) {
  std::string r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') {
      r += '\\';
      r += (char)ch;
    } else if (ch == '\n') {
      r += "\\n";
    } else if (ch < 32 || ch >= 127) {
      r += fmt("\\u%04x", ch);
    } else {
      r += (char)ch;
    }
  }
  return r + "\"";
}

struct Options {
  uint64_t seed = 1, cases = 1000, batch = 100;
  int workers = 8;
  bool thorough = false;
  std::string out, replay_dir;
};

struct BatchInfo {
  uint64_t first = 0, n = 0;
  Shared *sh = nullptr;
  double start = 0;
};

inline std::string encode_choices(const std::vector<uint64_t> &v) {
  std::string s;
  for (auto x : v) s += fmt("%" PRIu64 " ", x);
  return s;
}

// Replay file:  lines "key: value"; mode choices|batch.
inline std::string replay_text(const Options &o, const Outcome &f, const std::string &mode, uint64_t first, uint64_t last) {
  std::string s = "property: " + std::string(g_spec.id) + "\n";
  s += "mode: " + mode + "\n";
  s += fmt("tier: %s\n", o.thorough ? "thorough" : "quick");
  if (mode == "batch") s += fmt("seed: %" PRIu64 "\nfirst: %" PRIu64 "\nlast: %" PRIu64 "\n", o.seed, first, last);
  s += "choices: " + encode_choices(f.choices) + "\n";
  std::string m = f.msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  s += "message: " + m + "\n";
  s += "--- case\n" + f.note + "\n";
  return s;
}

inline int run_batch_isolated(const Options &opt, uint64_t first, uint64_t last, Shared *sh, std::string *msg) {
  std::string errf = scratch_root() + "/iso_err", msgf = scratch_root() + "/iso_msg";
  unlink(msgf.c_str());
  pid_t p = fork();
  if (p == 0) {
    silence(true, false);
    int fd = open(errf.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(fd, 2);
    for (uint64_t k = first; k <= last; ++k) {
      start_guard();
      sh->n_choices = 0;
      Case c;
      c.rng = case_seed(opt.seed, k);
      c.thorough = opt.thorough;
      c.shared = sh;
      c.want_note = true;
      try {
        run_case(c);
      } catch (Failure &f) {
        write_all(msgf, f.msg);
        _exit(77);
      }
    }
    _exit(kOk);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == kOk) return 0;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 77) *msg = read_all(msgf);
  else *msg = status_text(st, read_all(errf));
  return 1;
}

inline int cmd_run(const Options &opt) {
  double t0 = now();
  make_scratch();
  std::map<pid_t, BatchInfo> live;
  std::vector<Shared *> free_sh;
  for (int i = 0; i < opt.workers; ++i) free_sh.push_back(new_shared());
  uint64_t next = 0, done = 0, nontrivial = 0, unreproduced = 0;
  std::unordered_set<uint64_t> hashes;
  std::map<std::string, uint64_t> labels, counters;
  std::vector<std::string> samples;
  bool have_failure = false;
  uint64_t fail_case = 0, fail_first = 0;
  std::string fail_msg;
  uint64_t draws = 0;

  auto spawn = [&]() {
    BatchInfo b;
    b.first = next;
    b.n = std::min(opt.batch, opt.cases - next);
    next += b.n;
    b.sh = free_sh.back();
    free_sh.pop_back();
    b.sh->current_case = b.first;
    b.start = now();
    fflush(stdout);
    fflush(stderr);
    pid_t p = fork();
    if (p == 0) {
      silence(true, false);
      std::string base = scratch_root() + fmt("/b%" PRIu64, b.first);
      int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
      dup2(fd, 2);
      std::string out;
      std::map<std::string, uint64_t> lab, cnt;
      uint64_t nt = 0, dr = 0;
      std::string hs;
      int nsample = 0;
      for (uint64_t k = b.first; k < b.first + b.n; ++k) {
        b.sh->current_case = k;
        b.sh->n_choices = 0;
        start_guard();
        Case c;
        c.rng = case_seed(opt.seed, k);
        c.thorough = opt.thorough;
        c.shared = b.sh;
        c.want_note = b.first == 0 ? nsample < 6 : false;
        try {
          run_case(c);
        } catch (Failure &f) {
          write_all(base + ".fail", fmt("%" PRIu64 "\n", k) + f.msg);
          _exit(77);
        }
        for (auto &l : c.labels) lab[l]++;
        for (auto &l : c.counters) cnt[l.first] += l.second;
        dr += c.drawn;
        if (c.nontrivial) {
          ++nt;
          hs += fmt("H %" PRIx64 "\n", c.hash);
          if (c.want_note && !c.note_text.empty()) {
            std::string t = c.note_text.substr(0, 1500);
            std::replace(t.begin(), t.end(), '\n', '\x01');
            out += "S " + t + "\n";
            ++nsample;
          }
        }
      }
      out += fmt("N %" PRIu64 " %" PRIu64 "\n", nt, dr) + hs;
      for (auto &l : lab) out += fmt("L %" PRIu64 " ", l.second) + l.first + "\n";
      for (auto &l : cnt) out += fmt("C %" PRIu64 " ", l.second) + l.first + "\n";
      write_all(base + ".ok", out);
      _exit(kOk);
    }
    live[p] = b;
  };

  while ((next < opt.cases && !have_failure) || !live.empty()) {
    while (next < opt.cases && !have_failure && (int)live.size() < opt.workers) spawn();
    int st = 0;
    pid_t p = waitpid(-1, &st, 0);
    if (p < 0) {
      if (errno == EINTR) continue;
      break;
    }
    auto it = live.find(p);
    if (it == live.end()) continue;
    BatchInfo b = it->second;
    live.erase(it);
    free_sh.push_back(b.sh);
    std::string base = scratch_root() + fmt("/b%" PRIu64, b.first);
    if (WIFEXITED(st) && WEXITSTATUS(st) == kOk) {
      std::istringstream is(read_all(base + ".ok"));
      std::string line;
      while (std::getline(is, line)) {
        if (line[0] == 'N') {
          uint64_t a, d;
          sscanf(line.c_str() + 2, "%" SCNu64 " %" SCNu64, &a, &d);
          nontrivial += a;
          draws += d;
        } else if (line[0] == 'H') {
          hashes.insert(strtoull(line.c_str() + 2, nullptr, 16));
        } else if (line[0] == 'S') {
          std::string t = line.substr(2);
          std::replace(t.begin(), t.end(), '\x01', '\n');
          samples.push_back(t);
        } else if (line[0] == 'L' || line[0] == 'C') {
          char *e;
          uint64_t n = strtoull(line.c_str() + 2, &e, 10);
          (line[0] == 'L' ? labels : counters)[std::string(e + 1)] += n;
        }
      }
      done += b.n;
    } else {
      uint64_t k = b.sh->current_case;
      std::string m;
      if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        std::string f = read_all(base + ".fail");
        size_t nl = f.find('\n');
        m = nl == std::string::npos ? f : f.substr(nl + 1);
      } else {
        m = status_text(st, read_all(base + ".err"));
      }
      // several workers may fail; the lowest case index is the one reported, so
      // the report does not depend on scheduling among those already running
      if (!have_failure || k < fail_case) {
        have_failure = true;
        fail_case = k;
        fail_first = b.first;
        fail_msg = m;
      }
    }
    unlink((base + ".ok").c_str());
    unlink((base + ".err").c_str());
    unlink((base + ".fail").c_str());
  }

  int rc = 0;
  std::string vio_json = "null";
  if (have_failure) {
    Shared *sh = new_shared();
    Case c;
    c.rng = case_seed(opt.seed, fail_case);
    c.thorough = opt.thorough;
    Outcome o;
    int reps = 0;
    double t1 = now();  // once is enough when it takes long
    for (int i = 0; i < 3 && !(reps > 0 && now() - t1 > 15); ++i) {
      Outcome t = run_isolated(c, sh);
      if (t.failed) {
        ++reps;
        o = t;
      }
    }
    std::string mode = "choices";
    int steps = 0;
    if (reps > 0) {
      Outcome s = shrink(o, sh, opt.thorough, 60, steps);
      Case rc3;
      rc3.mode = Case::kReplay;
      rc3.replay = s.choices;
      rc3.thorough = opt.thorough;
      int ok = 0;
      Outcome last = s;
      t1 = now();
      for (int i = 0; i < 3 && !(ok > 0 && now() - t1 > 15); ++i) {
        Outcome t = run_isolated(rc3, sh);
        if (t.failed) {
          ++ok;
          last = t;
          last.choices = s.choices;
        }
      }
      if (ok >= 1) o = last;
      rc = 1;
    } else {
      std::string m;
      int k = 0;
      for (int i = 0; i < 3; ++i) k += run_batch_isolated(opt, fail_first, fail_case, sh, &m);
      if (k > 0) {
        mode = "batch";
        o.failed = true;
        o.msg = m;
        o.choices.assign(sh->choices, sh->choices + sh->n_choices);
        o.note = sh->note;
        rc = 1;
      } else {
        ++unreproduced;
        fprintf(stderr, "NOTE: case %" PRIu64 " failed once and did not reproduce: %s\n", fail_case, fail_msg.c_str());
      }
    }
    if (rc) {
      mkdir(opt.replay_dir.c_str(), 0777);
      std::string path = opt.replay_dir + "/" + g_spec.id + fmt("_s%" PRIu64 "_c%" PRIu64 "%s.replay", opt.seed, fail_case, opt.thorough ? "_t" : "");
      write_all(path, replay_text(opt, o, mode, fail_first, fail_case));
      vio_json = "{\"replay\":" + json_str(path) + ",\"case\":" + fmt("%" PRIu64, fail_case) + ",\"message\":" + json_str(o.msg) +
                 ",\"first_message\":" + json_str(fail_msg) + ",\"shrink_steps\":" + fmt("%d", steps) + ",\"choices\":" + fmt("%zu", o.choices.size()) +
                 ",\"case_text\":" + json_str(o.note) + "}";
    }
  }
  std::string js = "{";
  js += fmt("\"cases\":%" PRIu64 ",\"nontrivial\":%" PRIu64 ",\"distinct_nontrivial\":%zu,\"draws\":%" PRIu64 ",\"unreproduced\":%" PRIu64 ",\"wall_s\":%.3f,", done,
            nontrivial, hashes.size(), draws, unreproduced, now() - t0);
  js += "\"rule\":" + json_str(g_spec.rule) + ",\"labels\":{";
  bool first = true;
  for (auto &l : labels) {
    js += (first ? "" : ",") + json_str(l.first) + fmt(":%" PRIu64, l.second);
    first = false;
  }
  js += "},\"counters\":{";
  first = true;
  for (auto &l : counters) {
    js += (first ? "" : ",") + json_str(l.first) + fmt(":%" PRIu64, l.second);
    first = false;
  }
  js += "},\"samples\":[";
  first = true;
  for (auto &s : samples) {
    js += (first ? "" : ",") + json_str(s);
    first = false;
    if (&s - &samples[0] >= 5) break;
  }
  js += "],\"violation\":" + vio_json + "}\n";
  write_all(opt.out, js);
  rm_tree(scratch_root());
  return rc;
}

inline int cmd_replay(const std::string &path) {
  make_scratch();
  std::string t = read_all(path);
  Case c;
  c.mode = Case::kReplay;
  Options o;
  std::string mode = "choices";
  uint64_t first = 0, last = 0;
  std::istringstream is(t);
  std::string line;
  bool is_text = t.compare(0, 10, "property: ") == 0;
  int fails = 0;
  std::string msg, note;
  Shared *sh = new_shared();
  if (!is_text) {
    c.mode = Case::kBytes;
    c.bytes = (const uint8_t *)t.data();
    c.nbytes = t.size();
    c.thorough = true;
    mode = "bytes";
  } else {
    while (std::getline(is, line) && line.compare(0, 4, "--- ")) {
      auto val = [&](const char *k) { return line.compare(0, strlen(k), k) == 0 ? line.c_str() + strlen(k) : nullptr; };
      if (auto v = val("mode: ")) mode = v;
      if (auto v = val("tier: ")) c.thorough = o.thorough = !strcmp(v, "thorough");
      if (auto v = val("seed: ")) o.seed = strtoull(v, nullptr, 10);
      if (auto v = val("first: ")) first = strtoull(v, nullptr, 10);
      if (auto v = val("last: ")) last = strtoull(v, nullptr, 10);
      if (auto v = val("choices: ")) {
        std::istringstream cs(v);
        uint64_t x;
        while (cs >> x) c.replay.push_back(x);
      }
    }
  }
  for (int i = 0; i < 3; ++i) {
    if (mode == "batch") {
      fails += run_batch_isolated(o, first, last, sh, &msg);
    } else {
      Outcome r = run_isolated(c, sh);
      if (r.failed) {
        ++fails;
        msg = r.msg;
      }
      note = r.note;
    }
  }
  printf("%s\n%s: failed %d of 3 replays%s%s\n", note.c_str(), g_spec.id, fails, fails ? ": " : "", msg.c_str());
  rm_tree(scratch_root());
  return fails ? 1 : 0;
}

#ifdef PBT_LIBFUZZER
}  // namespace pbt
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  static bool init = [] {
    pbt::scratch_root() = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "/tmp";
    int fd = open("/dev/null", O_WRONLY);
    dup2(fd, 1);
    return true;
  }();
  (void)init;
  pbt::Case c;
  c.mode = pbt::Case::kBytes;
  c.bytes = data;
  c.nbytes = size;
  c.thorough = true;
  try {
    pbt::run_case(c);
  } catch (pbt::Failure &f) {
    fprintf(stderr, "PBT-FAILURE: %s\n", f.msg.c_str());
    abort();
  }
  return 0;
}
namespace pbt {
#endif

inline int pbt_main(int argc, char **argv) {
  if (!getenv("PBT_NOASLR")) {
    setenv("PBT_NOASLR", "1", 1);
    if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  signal(SIGPIPE, SIG_IGN);
  std::string cmd = argc > 1 ? argv[1] : "";
  Options o;
  std::string file;
  for (int i = 2; i < argc; ++i) {
    std::string a = argv[i];
    auto v = [&]() { return std::string(argv[++i]); };
    if (a == "--seed") o.seed = strtoull(v().c_str(), nullptr, 10);
    else if (a == "--cases") o.cases = strtoull(v().c_str(), nullptr, 10);
    else if (a == "--batch") o.batch = strtoull(v().c_str(), nullptr, 10);
    else if (a == "--workers") o.workers = atoi(v().c_str());
    else if (a == "--thorough") o.thorough = true;
    else if (a == "--cpu") g_cpu_limit_s = atoi(v().c_str());
    else if (a == "--out") o.out = v();
    else if (a == "--replays") o.replay_dir = v();
    else file = a;
  }
  if (cmd == "run") return cmd_run(o);
  if (cmd == "replay") return cmd_replay(file);
  fprintf(stderr, "usage: %s run|replay\n", argv[0]);
  return 2;
}
}  // namespace pbt

#ifdef PBT_LIBFUZZER
#define PBT_PROPERTY(ID, RULE) \
  static void pbt_body(pbt::Case &c); \
  pbt::Spec pbt::g_spec = {ID, RULE, pbt_body}; \
  static void pbt_body(pbt::Case &c)
#else
#define PBT_PROPERTY(ID, RULE)                                        \
  static void pbt_body(pbt::Case &c);                                 \
  pbt::Spec pbt::g_spec = {ID, RULE, pbt_body};                       \
  int main(int argc, char **argv) { return pbt::pbt_main(argc, argv); } \
  static void pbt_body(pbt::Case &c)
#endif
#endif
