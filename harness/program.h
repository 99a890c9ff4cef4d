// Running a program of the repository and reading what it prints.
#ifndef VERIF_PROGRAM_H
#define VERIF_PROGRAM_H
#include "gen.h"
namespace gen {
struct Run {
  int status = -1;  // exit status, or 1000 + signal
  std::string out, err;
  std::string text() const { return pbt::fmt("status %d, output: %.700s%s%.700s", status, out.c_str(), err.empty() ? "" : ", errors: ", err.c_str()); }
};
// Runs in the scratch directory with nothing on its standard input.
inline Run run_program(const char *var, const std::vector<std::string> &args, const std::vector<std::pair<std::string, std::string>> &env = {}, const std::string &cwd = "") {
  const char *exe = getenv(var);
  if (!exe) pbt::fail(std::string("harness: ") + var + " is not set");
  std::string of = pbt::scratch_file("out"), ef = pbt::scratch_file("err");
  pid_t p = fork();
  if (p == 0) {
    struct itimerval off = {{0, 0}, {0, 0}};
    setitimer(ITIMER_PROF, &off, nullptr);
    struct rlimit cpu = {40, 60};
    setrlimit(RLIMIT_CPU, &cpu);
    signal(SIGPROF, SIG_DFL);
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    if (chdir(cwd.empty() ? pbt::scratch_root().c_str() : cwd.c_str())) _exit(126);
    int i = open("/dev/null", O_RDONLY), o = open(of.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600), e = open(ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(i, 0);
    dup2(o, 1);
    dup2(e, 2);
    for (auto &kv : env) setenv(kv.first.c_str(), kv.second.c_str(), 1);
    std::vector<char *> av{const_cast<char *>(exe)};
    for (auto &a : args) av.push_back(const_cast<char *>(a.c_str()));
    av.push_back(nullptr);
    execv(exe, av.data());
    _exit(126);
  }
  PBT_REQUIRE(p > 0, "fork");
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  Run r;
  r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  r.out = pbt::read_all(of);
  r.err = pbt::read_all(ef);
  unlink(of.c_str());
  unlink(ef.c_str());
  return r;
}
// The non-empty lines of a text.
inline std::vector<std::string> lines_of(const std::string &s) {
  std::vector<std::string> v;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l))
    if (!l.empty()) v.push_back(l);
  return v;
}
inline bool number(const std::string &s, double &d) {
  char *e = nullptr;
  d = strtod(s.c_str(), &e);
  return !s.empty() && *e == 0;
}
// What the inference program printed (the library prints lines of its own, too).
struct Inference {
  bool unsat = false, has_mpe = false, has_pr = false, has_mar = false;
  std::vector<std::pair<long, bool>> mpe;
  double pr = 0;
  struct M {
    long var;
    double neg, pos;
  };
  std::vector<M> mar;
};
inline Inference parse_inference(const std::string &out) {
  Inference r;
  auto items = [](const std::string &s) {
    std::vector<std::string> v;
    std::istringstream is(s);
    std::string x;
    while (std::getline(is, x, ','))
      if (!x.empty()) v.push_back(x);
    return v;
  };
  for (auto &l : lines_of(out)) {
    if (l == "UNSATISFIED") {
      r.unsat = true;
    } else if (l.rfind("MPE result=", 0) == 0) {
      PBT_REQUIRE(!r.has_mpe, "two MPE lines");
      r.has_mpe = true;
      for (auto &x : items(l.substr(11))) {
        size_t k = x.find(':');
        PBT_REQUIRE(k != std::string::npos && (x.substr(k + 1) == "0" || x.substr(k + 1) == "1"), "MPE item '%s'", x.c_str());
        double v;
        PBT_REQUIRE(number(x.substr(0, k), v), "MPE item '%s'", x.c_str());
        r.mpe.push_back({(long)v, x[k + 1] == '1'});
      }
    } else if (l.rfind("MPE pr=", 0) == 0) {
      PBT_REQUIRE(!r.has_pr, "two MPE pr lines");
      r.has_pr = true;
      PBT_REQUIRE(number(l.substr(7), r.pr), "line '%s'", l.c_str());
    } else if (l.rfind("MAR result=", 0) == 0) {
      PBT_REQUIRE(!r.has_mar, "two MAR lines");
      r.has_mar = true;
      for (auto &x : items(l.substr(11))) {
        size_t k = x.find(':'), b = x.find('|');
        PBT_REQUIRE(k != std::string::npos && b != std::string::npos && k < b, "MAR item '%s'", x.c_str());
        double v;
        Inference::M m;
        PBT_REQUIRE(number(x.substr(0, k), v) && number(x.substr(k + 1, b - k - 1), m.neg) && number(x.substr(b + 1), m.pos), "MAR item '%s'", x.c_str());
        m.var = (long)v;
        r.mar.push_back(m);
      }
    }
  }
  return r;
}
}  // namespace gen
#endif
