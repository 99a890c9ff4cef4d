// P19: PgmCompiler.
#include <psdd/pgm_compiler.h>

#include "uai.h"
using namespace gen;

namespace {
using Result = std::pair<PsddNode *, PsddParameter>;
Result compile(PgmCompiler &pc, int how, size_t gc) {
  switch (how) {
    case 0: return pc.compile_network(gc);
    case 1: return pc.compile_network_with_vtree(gc);
    default: return pc.compile_network_dc(gc);
  }
}
const char *NAMES[] = {"compile_network", "compile_network_with_vtree", "compile_network_dc"};
size_t gen_gc(Case &c) {
  static const size_t g[] = {100, 1, 2, 3, 5};
  return g[c.draw(5)];
}

// A factor whose variables do not split off one at a time.  The listed finding: the
// compiler ends abnormally there.  A returned result must still be right.
void unsupported_case(Case &c) {
  int n = 3 + (int)c.draw(3);
  std::vector<uint32_t> vars;
  for (int i = 1; i <= n; ++i) vars.push_back((uint32_t)i);
  c.shuffle(vars);
  VT vt = gen_vtree_with_vars(c, vars);
  Net g = gen_net(c, n, 2, NetOptions());
  bool bad = false;
  for (auto &f : g.fs) bad = bad || !scope_ok(vt, f.scope);
  if (!bad) return;
  c.label("scope that does not split off one variable at a time");
  c.note("%svtree %s\n", net_note(g).c_str(), vt.str().c_str());
  std::string f = pbt::scratch_file("p19.uai"), vf = pbt::scratch_file("p19.vtree"), out = pbt::scratch_file("p19.out");
  pbt::write_all(f, net_text(g));
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(vf.c_str(), v);
  sdd_vtree_free(v);
  pbt::write_all(out, "");
  pid_t p = fork();
  if (p == 0) {
    signal(SIGABRT, SIG_DFL);
    signal(SIGSEGV, SIG_DFL);
    pbt::start_guard();
    pbt::silence(true, true);
    for (size_t k = 0; k < g.fs.size(); ++k) {
      PgmCompiler pc(pbt::scratch_root());
      pc.read_uai_file(f.c_str());
      pc.init_psdd_manager_from_vtree(vf.c_str());
      Result r = pc.compile_factor(k);
      Table ft = g.factor_table(k, vt.order), got(ft.size(), NINF);
      try {
        if (r.first) got = read_table(r.first);
        for (auto &x : got) x += r.second.parameter();
        same_table(got, ft, n, "compile_factor", TOL);
      } catch (pbt::Failure &e) {
        pbt::write_all(out, e.msg);
        _exit(3);
      }
    }
    _exit(0);
  }
  PBT_REQUIRE(p > 0, "fork");
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
  }
  std::string msg = pbt::read_all(out);
  unlink(f.c_str());
  unlink(vf.c_str());
  unlink(out.c_str());
  PBT_REQUIRE(msg.empty(), "%s", msg.c_str());
  if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) c.label("known finding: ended abnormally");
}

void large_case(Case &c) {
  bool huge = c.draw(12) == 11;  // more factors than the usual clean-up frequency
  int n = huge ? 100 + (int)c.draw(40) : 8 + (int)c.draw(c.thorough ? 72 : 32);
  ChainNet ch = gen_chain_net(c, n, false);
  auto &h = ch.net;
  auto &name = ch.name;
  auto &vt = ch.vt;
  auto value = [&](const std::function<bool(int, bool)> &ok) { return ch.value(ok); };
  c.label(huge ? "huge" : "large");
  c.nontrivial = true;
  c.note("chain of %d variables, %zu factors\n", n, h.fs.size());
  std::string f = pbt::scratch_file("p19.uai"), vf = pbt::scratch_file("p19.vtree");
  pbt::write_all(f, net_text(h));
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(vf.c_str(), v);
  sdd_vtree_free(v);
  PgmCompiler pc(pbt::scratch_root());
  pc.read_uai_file(f.c_str());
  pc.init_psdd_manager_from_vtree(vf.c_str());
  unlink(f.c_str());
  unlink(vf.c_str());
  int how = (int)c.draw(3);
  size_t gc = gen_gc(c);
  c.note("%s, clean-up every %zu\n", NAMES[how], gc);
  Result r = compile(pc, how, gc);
  double z = value([](int, bool) { return true; });
  double tol = TOL + 4e-7 * (double)(n + (int)h.fs.size());
  if (z == NINF) {
    c.label("zero model");
    PBT_REQUIRE(r.first == nullptr, "large: %s gives a PSDD for a model without weight", NAMES[how]);
    PBT_REQUIRE(r.second.parameter() == NINF, "large: %s gives log constant %.9g for a model without weight", NAMES[how], r.second.parameter());
    return;
  }
  PBT_REQUIRE(r.first != nullptr, "large: %s gives null", NAMES[how]);
  PBT_REQUIRE(close(r.second.parameter(), z, tol), "large: %s: log constant %.9g, expected %.9g", NAMES[how], r.second.parameter(), z);
  auto ser = psdd_node_util::SerializePsddNodes(r.first);
  std::vector<int> place((size_t)n + 1);
  for (int i = 0; i < n; ++i) place[name[(size_t)i]] = i;
  for (int q = 0; q < 5; ++q) {
    std::bitset<MAX_VAR> known, inst;
    for (int i = 0; i < n; ++i) {
      if (q == 0 || c.draw(4) == 0) known.set(name[(size_t)i]);
      if (c.flip()) inst.set(name[(size_t)i]);
    }
    if (q <= 1) {
      RandomDoubleFromUniformGenerator gd(0, 1, (uint)c.draw(1000));
      inst.reset();
      r.first->DirectSample(&inst, &gd);
    }
    double want = value([&](int i, bool b) { return !known[name[(size_t)i]] || inst[name[(size_t)i]] == b; });
    double got = psdd_node_util::Evaluate(known, inst, ser).parameter();
    PBT_REQUIRE(close(got, want - z, tol), "large: %s: log probability %.9g, expected %.9g", NAMES[how], got, want - z);
  }
}
}  // namespace

PBT_PROPERTY("P19", "generated networks (up to 6 variables and 9 factors, 8 and 12 when thorough; zero entries, all-zero factors, repeated and reordered scopes, magnitudes from 1e-12 to 1e13) over any vtree, through all three strategies and compile_factor, any clean-up frequency; or (1 in 12) chain networks of up to 40 (80) variables; non-trivial when there are at least two factors") {
  uint64_t kind = c.draw(48);
  if (kind >= 44) return large_case(c);
#ifdef PBT_LIBFUZZER
  if (kind == 43) kind = 0;
#endif
  if (kind == 43) return unsupported_case(c);
  int n = gen_n(c, 6, 8);
  std::vector<uint32_t> vars;
  for (int i = 1; i <= n; ++i) vars.push_back((uint32_t)i);
  c.shuffle(vars);
  VT vt = c.flip() ? gen_vtree_with_vars(c, vars) : gen_decision_vtree(c, vars);
  NetOptions no;
  no.vt = &vt;
  Net g = gen_net(c, n, c.thorough ? 11 : 8, no);
  if (g.fs.size() > 1) c.nontrivial = true;
  c.note("%svtree %s\n", net_note(g).c_str(), vt.str().c_str());
  std::string f = pbt::scratch_file("p19.uai"), vf = pbt::scratch_file("p19.vtree");
  pbt::write_all(f, net_text(g));
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(vf.c_str(), v);
  sdd_vtree_free(v);
  auto fresh = [&]() {
    std::unique_ptr<PgmCompiler> pc(new PgmCompiler(pbt::scratch_root()));
    pc->read_uai_file(f.c_str());
    pc->init_psdd_manager_from_vtree(vf.c_str());
    return pc;
  };
  Table t = g.table(vt.order);
  double z = table_total(t);
  double tol = TOL + 4e-7 * (double)(n * (int)g.fs.size());
  if (z == NINF) c.label("zero model");
  WfOptions o;
  o.normalised = true;
  o.positive = true;
  auto check = [&](PgmCompiler &pc, const Result &r, const char *what) {
    if (z == NINF) {
      PBT_REQUIRE(r.first == nullptr, "%s: a PSDD for a model without weight", what);
      PBT_REQUIRE(r.second.parameter() == NINF, "%s: log constant %.9g for a model without weight", what, r.second.parameter());
      return;
    }
    PBT_REQUIRE(r.first != nullptr, "%s: null for a model with weight", what);
    check_wellformed(r.first, pc.psdd_manager()->vtree(), o, what);
    PBT_REQUIRE(close(r.second.parameter(), z, tol), "%s: log constant %.9g, expected %.9g", what, r.second.parameter(), z);
    Table got = read_table(r.first);
    for (auto &x : got) x += r.second.parameter();
    same_table(got, t, n, what, tol);
  };
  int first = (int)c.draw(3);
  size_t gc = gen_gc(c);
  {
    auto pc = fresh();
    // factors one by one
    if (c.flip()) {
      for (size_t k = 0; k < g.fs.size(); ++k) {
        Result r = pc->compile_factor(k);
        Table ft = g.factor_table(k, vt.order);
        if (table_total(ft) == NINF) {
          c.label("zero factor");
          PBT_REQUIRE(r.first == nullptr && r.second.parameter() == NINF, "compile_factor(%zu): not null and 0 for a factor without weight", k);
          continue;
        }
        PBT_REQUIRE(r.first != nullptr, "compile_factor(%zu): null", k);
        WfOptions wf;
        wf.positive = true;
        check_wellformed(r.first, pc->psdd_manager()->vtree(), wf, "compile_factor");
        Table got = read_table(r.first);
        for (auto &x : got) x += r.second.parameter();
        same_table(got, ft, n, "compile_factor", tol);
      }
    }
    Result r = compile(*pc, first, gc);
    c.note("%s, clean-up every %zu\n", NAMES[first], gc);
    check(*pc, r, NAMES[first]);
    if (c.draw(3) == 2) {  // again in the same manager
      int second = (int)c.draw(3);
      c.label("compiled twice");
      c.note("then %s\n", NAMES[second]);
      Result r2 = compile(*pc, second, gen_gc(c));
      check(*pc, r2, "second compilation");
      if (r.first) {
        Table got = read_table(r.first);
        for (auto &x : got) x += r.second.parameter();
        same_table(got, t, n, "first result after a second compilation", tol);
      }
    }
  }
  for (int k = 1; k < 3; ++k) {
    int how = (first + k) % 3;
    auto pc = fresh();
    size_t gcf = gen_gc(c);
    c.note("%s, clean-up every %zu\n", NAMES[how], gcf);
    check(*pc, compile(*pc, how, gcf), NAMES[how]);
  }
  unlink(f.c_str());
  unlink(vf.c_str());
}
