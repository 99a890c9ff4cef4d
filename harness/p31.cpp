// P31: files that are missing, cut off or cannot be written.
#include <psdd/uai_network.h>

#include "cnftext.h"
#include "program.h"
#include "uai.h"
using namespace gen;

namespace {
// What became of some work done in a process of its own.
enum End { DONE, REFUSED, WRONG };
End in_child(const std::function<bool()> &work, std::string *msg) {
  std::string out = pbt::scratch_file("p31.msg");
  unlink(out.c_str());
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    pbt::g_cpu_limit_s = 20;
    pbt::start_guard();
    pbt::silence(true, true);
    bool done = false;
    try {
      done = work();
    } catch (pbt::Failure &e) {
      pbt::write_all(out, "x" + e.msg);
      _exit(0);
    } catch (...) {
      _exit(1);
    }
    _exit(done ? 0 : 1);
  }
  PBT_REQUIRE(p > 0, "fork");
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  struct stat sb;
  if (stat(out.c_str(), &sb) == 0) {
    *msg = pbt::read_all(out).substr(1);
    unlink(out.c_str());
    return WRONG;
  }
  if (WIFEXITED(st)) {
    if (WEXITSTATUS(st) == 96 || WEXITSTATUS(st) == 97) {
      *msg = WEXITSTATUS(st) == 97 ? "does not end" : "takes memory without end";
      return WRONG;
    }
    if (WEXITSTATUS(st) == 0) return DONE;
    return REFUSED;
  }
  // an assertion is a way of refusing, a crash is none
  if (WTERMSIG(st) == SIGABRT) return REFUSED;
  *msg = fmt("is killed by signal %d", WTERMSIG(st));
  return WRONG;
}
enum Want { MUST_REFUSE, MUST_WORK, EITHER };
void expect(Want w, const char *what, const std::function<bool()> &work) {
  std::string msg;
  End e = in_child(work, &msg);
  PBT_REQUIRE(e != WRONG, "%s: %s", what, msg.c_str());
  if (w == MUST_REFUSE) PBT_REQUIRE(e == REFUSED, "%s: taken without complaint", what);
  if (w == MUST_WORK) PBT_REQUIRE(e == DONE, "%s: refused", what);
}
struct Dir {
  std::string path = pbt::scratch_file("p31");
  Dir() {
    pbt::rm_tree(path);
    mkdir(path.c_str(), 0700);
  }
  ~Dir() { pbt::rm_tree(path); }
};
// A name under which no file can be read.
std::string missing(Case &c, const Dir &d) {
  switch (c.draw(6)) {
    case 0: return d.path + "/none";
    case 1: return d.path + "/no/such/directory";
    case 2: return "";
    case 3: {
      std::string l = d.path + "/link";
      if (symlink((d.path + "/nowhere").c_str(), l.c_str())) pbt::fail("harness: symlink");
      return l;
    }
    case 4: return d.path + "/" + std::string(300, 'x');
    default: {
      pbt::write_all(d.path + "/plain", "1 0\n");
      return d.path + "/plain/file";
    }
  }
}
// A name under which no file can be written.
std::string unwritable(Case &c, const Dir &d) {
  switch (c.draw(5)) {
    case 0: return d.path + "/no/such/directory";
    case 1: return d.path;
    case 2: return "/dev/full";
    case 3: return d.path + "/" + std::string(300, 'x');
    default: return "";
  }
}
// Where the text may be cut: somewhere before its last token (1), behind it (2), inside it (0).
struct Cut {
  size_t at;
  Want want;
};
Cut gen_cut(Case &c, const std::string &s) {
  size_t e = s.find_last_not_of(" \t\r\n") + 1;
  size_t b = s.find_last_of(" \t\r\n", e - 1) + 1;
  size_t at;
  switch (c.draw(8)) {
    case 0: at = b - c.draw(std::min<size_t>(b, 12)); break;         // just before the last token
    case 1: at = e + c.draw(s.size() - e + 1); break;                // the whole content
    case 2: {                                                        // at the end of a line
      std::vector<size_t> ends;
      for (size_t i = 0; i < s.size(); ++i)
        if (s[i] == '\n') ends.push_back(i);
      at = c.pick(ends) + c.draw(2);
      break;
    }
    default: at = c.draw(s.size() + 1);
  }
  return {at, at <= b ? MUST_REFUSE : at >= e ? MUST_WORK : EITHER};
}
std::string tail_note(const std::string &s) { return s.size() > 1200 ? "..." + s.substr(s.size() - 1200) : s; }

struct World {
  Env e;
  PsddNode *x;
  World(Case &c, int n, bool zeros = true) : e(c, n), x(gen_psdd(c, e.vt, e.m, 0, zeros).node) {}
};

void psdd_cut(Case &c) {
  World w(c, gen_n(c, 5, 7));
  Dir d;
  std::string f = d.path + "/x.psdd";
  psdd_node_util::WritePsddToFile(w.x, f.c_str());
  std::string s = pbt::read_all(f);
  if (c.draw(3) == 2) {  // without comments
    std::string t;
    for (auto &l : lines_of(s))
      if (l[0] != 'c') t += l + "\n";
    s = t;
  }
  Cut k = gen_cut(c, s);
  c.note("cut behind %zu of %zu bytes:\n%s<end>\n", k.at, s.size(), tail_note(s.substr(0, k.at)).c_str());
  c.label("PSDD file");
  if (k.want == MUST_REFUSE) c.nontrivial = true;
  pbt::write_all(f, s.substr(0, k.at));
  bool same = c.flip();  // read into the manager that has the nodes already
  expect(k.want, "a PSDD file that is cut off", [&] {
    PsddManager *m = same ? w.e.m : make_manager(w.e.vt);
    PsddNode *y = m->ReadPsddFile(f.c_str(), 0);
    if (!y) return false;
    if (k.want == MUST_WORK) same_table(read_table(y), read_table(w.x), w.e.vt.nvars(), "the complete file", 1e-4);
    return true;
  });
}
void uai_cut(Case &c) {
  int n = gen_n(c, 5, 7);
  NetOptions o;
  Net g = gen_net(c, n, 6, o);
  Dir d;
  std::string f = d.path + "/x.uai", s = net_text(g, &c);
  Cut k = gen_cut(c, s);
  c.note("cut behind %zu of %zu bytes:\n%s<end>\n", k.at, s.size(), tail_note(s.substr(0, k.at)).c_str());
  c.label("UAI file");
  if (k.want == MUST_REFUSE) c.nontrivial = true;
  pbt::write_all(f, s.substr(0, k.at));
  bool again = c.draw(3) == 2;
  expect(k.want, "a UAI file that is cut off", [&] {
    UaiNetwork u;
    if (again) {  // into a network read before
      pbt::write_all(f + "2", s);
      u.read_file((f + "2").c_str());
    }
    u.read_file(f.c_str());
    if (k.want == MUST_WORK) {
      PBT_REQUIRE(u.var_size() == (size_t)g.n && u.factor_size() == g.fs.size(), "wrong sizes of the complete file");
      for (size_t i = 0; i < g.fs.size(); ++i) {
        auto &sc = u.factor_scopes()[i];
        auto &ps = u.params()[i];
        PBT_REQUIRE(std::vector<int>(sc.begin(), sc.end()) == g.fs[i].scope, "wrong scope of factor %zu", i);
        PBT_REQUIRE(ps.size() == g.fs[i].value.size(), "wrong table size of factor %zu", i);
        for (size_t j = 0; j < ps.size(); ++j) PBT_REQUIRE(close(ps[j].parameter(), g.fs[i].value[j] == 0 ? NINF : std::log(g.fs[i].value[j]), 1e-6), "wrong entry of factor %zu", i);
      }
    }
    return true;
  });
}
void json_cut(Case &c) {
  int n = 1 + (int)c.draw(20), k = (int)c.draw(8);
  std::string data = "[", sep = c.flip() ? ", " : ",\n ";
  uint64_t total = 0;
  for (int i = 0; i < k; ++i) {
    data += (i ? sep : "") + "[";
    bool first = true;
    for (int v = 1; v <= n; ++v)
      if (c.draw(4) == 3) {
        data += (first ? "" : sep) + std::to_string(v);
        first = false;
      }
    data += "]";
    ++total;
  }
  data += "]";
  std::string s = c.flip() ? fmt("{\"variable_size\": %d, \"data\": %s}", n, data.c_str()) : fmt("{\"data\": %s, \"variable_size\": %d}", data.c_str(), n);
  s += c.flip() ? "\n" : "";
  size_t e = s.find_last_of('}') + 1, at = c.draw(4) == 3 ? e + c.draw(s.size() - e + 1) : c.draw(e);
  Want want = at >= e ? MUST_WORK : MUST_REFUSE;
  c.note("cut behind %zu of %zu bytes:\n%s<end>\n", at, s.size(), s.substr(0, at).c_str());
  c.label("JSON file");
  if (want == MUST_REFUSE) c.nontrivial = true;
  Dir d;
  std::string f = d.path + "/x.json";
  pbt::write_all(f, s.substr(0, at));
  expect(want, "a JSON file that is cut off", [&] {
    BinaryData *b = BinaryData::ReadSparseDataJsonFile(f.c_str());
    if (!b) return false;
    if (want == MUST_WORK) PBT_REQUIRE(b->data_size() == total && b->variable_size() == (uint32_t)n, "wrong sizes of the complete file");
    return true;
  });
}
void missing_file(Case &c) {
  Dir d;
  std::string f = missing(c, d);
  uint64_t who = c.draw(5);
  static const char *names[] = {"PSDD", "CNF", "UAI", "CSV", "JSON"};
  c.note("%s file '%s'\n", names[who], f.size() > d.path.size() ? f.substr(d.path.size()).c_str() : f.c_str());
  c.label("missing file");
  c.nontrivial = true;
  VT vt = gen_vtree_with_vars(c, {1, 2, 3});
  bool used = c.flip();
  expect(MUST_REFUSE, "a file that does not exist", [&]() -> bool {
    switch (who) {
      case 0: {
        PsddManager *m = make_manager(vt);
        if (used) m->GetTrueNode(m->vtree(), 0);
        return m->ReadPsddFile(f.c_str(), 0) != nullptr;
      }
      case 1: {
        CNF k(f.c_str());
        return true;
      }
      case 2: {
        UaiNetwork u;
        u.read_file(f.c_str());
        return true;
      }
      case 3: {
        BinaryData b;
        if (used) b.AddRecord(std::bitset<MAX_VAR>(6));
        b.ReadFile(f.c_str());
        return true;
      }
      default: return BinaryData::ReadSparseDataJsonFile(f.c_str()) != nullptr;
    }
  });
}
void unwritable_file(Case &c) {
  Dir d;
  std::string f = unwritable(c, d);
  bool data = c.flip();
  c.note("%s to '%s'\n", data ? "dataset" : "PSDD", f.size() > d.path.size() ? f.substr(d.path.size()).c_str() : f.c_str());
  c.label("unwritable file");
  c.nontrivial = true;
  if (data) {
    BinaryData b;
    int n = 1 + (int)c.draw(12);
    b.set_variable_size((uint32_t)n);
    int k = 1 + (int)c.draw(c.flip() ? 5 : 2000);
    for (int i = 0; i < k; ++i) b.AddRecord(std::bitset<MAX_VAR>(c.draw(1ull << n) << 1));
    expect(MUST_REFUSE, "a dataset that cannot be written", [&] {
      b.WriteFile(f.c_str());
      return true;
    });
    std::string g = d.path + "/good";
    expect(MUST_WORK, "a dataset that can be written", [&] {
      b.WriteFile(g.c_str());
      return true;
    });
    PBT_REQUIRE(lines_of(pbt::read_all(g)).size() == (size_t)k, "a dataset that can be written: lines are missing");
    return;
  }
  World w(c, gen_n(c, 5, 7));
  expect(MUST_REFUSE, "a PSDD that cannot be written", [&] {
    psdd_node_util::WritePsddToFile(w.x, f.c_str());
    return true;
  });
  std::string g = d.path + "/good";
  expect(MUST_WORK, "a PSDD that can be written", [&] {
    psdd_node_util::WritePsddToFile(w.x, g.c_str());
    return true;
  });
}
std::string write_vtree(const VT &vt, const std::string &f) {
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(f.c_str(), v);
  sdd_vtree_free(v);
  return f;
}
void inference_program(Case &c) {
  World w(c, gen_n(c, 5, 7), false);
  Dir d;
  int n = w.e.vt.nvars();
  uint32_t top = *std::max_element(w.e.vt.order.begin(), w.e.vt.order.end());
  std::string pf = d.path + "/x.psdd", vf = write_vtree(w.e.vt, d.path + "/x.vtree"), cf = d.path + "/x.cnf";
  psdd_node_util::WritePsddToFile(w.x, pf.c_str());
  bool evid = c.flip();
  // evidence that asks nothing
  pbt::write_all(cf, fmt("p cnf %u 1\n%u -%u 0\n", top, w.e.vt.order[0], w.e.vt.order[0]));
  bool bad_psdd = false, bad_vtree = false, bad_cnf = false;
  Want want = MUST_REFUSE;
  switch (c.draw(5)) {
    case 0: bad_psdd = true; break;
    case 1: bad_vtree = true; break;
    case 2: evid = bad_cnf = true; break;
    case 3: {
      std::string s = pbt::read_all(pf);
      Cut k = gen_cut(c, s);
      want = k.want;
      pbt::write_all(pf, s.substr(0, k.at));
      c.note("PSDD file cut behind %zu of %zu bytes\n", k.at, s.size());
      break;
    }
    default: want = MUST_WORK;
  }
  if (bad_psdd) pf = missing(c, d);
  if (bad_vtree) vf = missing(c, d);
  if (bad_cnf) cf = missing(c, d);
  c.note("inference program, %d variables:%s%s%s%s\n", n, evid ? " with evidence" : "", bad_psdd ? " missing PSDD" : "", bad_vtree ? " missing vtree" : "", bad_cnf ? " missing evidence" : "");
  c.label("inference program");
  if (want == MUST_REFUSE) c.nontrivial = true;
  std::vector<std::string> args;
  bool mpe = c.flip(), mar = !mpe || c.flip();
  if (mpe) args.push_back("--mpe_query");
  if (mar) args.push_back("--mar_query");
  if (evid) {
    args.push_back("--cnf_evid");
    args.push_back(cf);
  }
  args.push_back(pf);
  args.push_back(vf);
  Run r = run_program("PBT_PROG_PSDD_INFERENCE_MAIN", args);
  bool answer = r.out.find("MPE") != std::string::npos || r.out.find("MAR") != std::string::npos || r.out.find("UNSATISFIED") != std::string::npos;
  PBT_REQUIRE(r.status < 1000 || r.status == 1000 + SIGABRT, "the program is killed: %s", r.text().c_str());
  if (want == MUST_REFUSE) {
    PBT_REQUIRE(r.status != 0, "the program reports success without its input: %s", r.text().c_str());
    PBT_REQUIRE(!answer, "the program answers without its input: %s", r.text().c_str());
  }
  if (want == MUST_WORK) PBT_REQUIRE(r.status == 0 && answer, "the program fails with all of its input: %s", r.text().c_str());
}
void compiler_program(Case &c) {
  int n = gen_n(c, 4, 6);
  std::vector<uint32_t> vars;
  for (int i = 1; i <= n; ++i) vars.push_back((uint32_t)i);
  c.shuffle(vars);
  VT vt = gen_decision_vtree(c, vars);
  NetOptions o;
  o.vt = &vt;
  o.zeros = false;
  Net g = gen_net(c, n, 5, o);
  Dir d;
  std::string f = d.path + "/x.uai", s = net_text(g, &c), vf = write_vtree(vt, d.path + "/given.vtree");
  pbt::write_all(f, s);
  std::string pf = f + ".psdd", of = f + ".vtree";
  static const char *methods[] = {"file", "1", "2", "4"};
  uint64_t method = c.draw(4);
  Want want = MUST_REFUSE;
  const char *what = "all of its input";
  bool no_psdd = false, no_vtree = false;
  switch (c.draw(6)) {
    case 0:
      f = missing(c, d);
      what = "no network";
      break;
    case 1:
      method = 0;
      vf = missing(c, d);
      what = "no vtree";
      break;
    case 2: {
      Cut k = gen_cut(c, s);
      want = k.want;
      pbt::write_all(f, s.substr(0, k.at));
      c.note("network file cut behind %zu of %zu bytes:\n%s<end>\n", k.at, s.size(), s.substr(0, k.at).c_str());
      what = "a part of the network";
      break;
    }
    case 3:
      mkdir(pf.c_str(), 0700);
      no_psdd = true;
      what = "no place for the PSDD";
      break;
    case 4:
      mkdir(of.c_str(), 0700);
      no_vtree = true;
      what = "no place for the vtree";
      break;
    default: want = MUST_WORK;
  }
  c.note("compiler program, method %s, with %s\n", methods[method], what);
  c.label("compiler program");
  if (want == MUST_REFUSE) c.nontrivial = true;
  Run r = run_program("PBT_PROG_UAI_COMPILER", {f, method ? std::string(methods[method]) : vf, d.path}, {{"PBT_STUB_SEED", std::to_string(c.draw(1u << 30))}}, d.path);
  PBT_REQUIRE(r.status < 1000 || r.status == 1000 + SIGABRT, "the program is killed: %s", r.text().c_str());
  if (want == MUST_WORK) PBT_REQUIRE(r.status == 0, "the program fails: %s", r.text().c_str());
  if (want != MUST_REFUSE) return;
  PBT_REQUIRE(r.status != 0, "with %s the program reports success: %s", what, r.text().c_str());
  if (no_psdd || no_vtree) return;
  struct stat sb;
  PBT_REQUIRE(stat(pf.c_str(), &sb) != 0, "with %s the program wrote a PSDD", what);
}
}  // namespace

PBT_PROPERTY("P31", "PSDD, UAI and JSON files cut behind any byte, names under which nothing can be read or written, given to the readers and writers in a process of their own and to both programs; non-trivial when the file must be refused") {
  uint64_t k = c.draw(32);
  if (k < 10) return psdd_cut(c);
  if (k < 20) return uai_cut(c);
  if (k < 24) return json_cut(c);
  if (k < 26) return missing_file(c);
  if (k < 28) return unwritable_file(c);
  if (k < 30) return inference_program(c);
  return compiler_program(c);
}
