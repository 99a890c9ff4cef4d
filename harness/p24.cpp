// P24: the network compiler program.
#include "cnftext.h"
#include "program.h"
#include "psddfile.h"
#include "uai.h"
using namespace gen;

namespace {
bool near_log(double got, double want, double tol) {
  if (got == NINF || want == NINF) return got == want;
  return std::fabs(got - want) <= tol + 1e-5 * std::fabs(want);
}
struct Dir {
  std::string base = pbt::scratch_file("p24"), path;
  explicit Dir(size_t extra) {
    mkdir(base.c_str(), 0700);
    path = base;
    while (extra > 0) {
      size_t k = std::min<size_t>(extra, 200);
      path += "/" + std::string(k, 'd');
      mkdir(path.c_str(), 0700);
      extra -= k;
    }
  }
  ~Dir() { pbt::rm_tree(base); }
};
// more variables and factors: chains, whose width stays small under any ordering
void large_case(Case &c) {
  bool huge = c.draw(6) == 5;  // more factors than the program's clean-up frequency
  int n = huge ? 90 + (int)c.draw(50) : 8 + (int)c.draw(40);
  static const char *const methods[] = {"file", "2", "4"};
  uint64_t method = c.draw(3);
  ChainNet ch = gen_chain_net(c, n, false, method == 0);
  double z = ch.value([](int, bool) { return true; });
  if (z == NINF) return;
  c.label(huge ? "huge" : "large");
  c.nontrivial = true;
  c.note("large: chain of %d variables, %zu factors, method %s\n", n, ch.net.fs.size(), methods[method]);
  Dir dir(0);
  std::string f = dir.path + "/net.uai", vf = dir.path + "/given.vtree", pf = f + ".psdd", of = f + ".vtree";
  pbt::write_all(f, net_text(ch.net, &c));
  std::vector<std::string> args{f, methods[method], dir.path};
  if (method == 0) {
    Vtree *v = to_sdd_vtree(ch.vt);
    sdd_vtree_save(vf.c_str(), v);
    sdd_vtree_free(v);
    args[1] = vf;
  }
  Run r = run_program("PBT_PROG_UAI_COMPILER", args, {{"PBT_STUB_SEED", std::to_string(c.draw(1u << 30))}}, dir.path);
  PBT_REQUIRE(r.status == 0, "large: the program failed: %s", r.text().c_str());
  double logz = 0;
  bool has_z = false;
  for (auto &l : lines_of(r.out))
    if (l.rfind("Log Partition ", 0) == 0) has_z = number(l.substr(14), logz);
  double tol = TOL + 4e-7 * (double)(n + (int)ch.net.fs.size()) + 3e-6 * n;
  PBT_REQUIRE(has_z && near_log(logz, z, tol), "large: the log partition function is %.9g, printed %.9g", z, logz);
  Vtree *v = sdd_vtree_read(of.c_str());
  struct Free {
    Vtree *v;
    ~Free() { sdd_vtree_free(v); }
  } fr{v};
  auto order = check_vtree(v);
  std::set<uint32_t> distinct(order.begin(), order.end());
  PBT_REQUIRE(order.size() == (size_t)n && distinct.size() == (size_t)n && *distinct.begin() == 1 && *distinct.rbegin() == (uint32_t)n, "large: the written vtree is not over the variables 1 to %d", n);
  std::unique_ptr<PsddManager> m(PsddManager::GetPsddManagerFromVtree(v));
  PsddNode *x = m->ReadPsddFile(pf.c_str(), 0);
  PBT_REQUIRE(x != nullptr && x->vtree_node() == m->vtree(), "large: the written PSDD is not at the root of the vtree");
  auto weight = [&](const std::bitset<MAX_VAR> &a) { return ch.value([&](int i, bool b) { return a[ch.name[(size_t)i]] == b; }) - z; };
  for (int q = 0; q < 6; ++q) {
    std::bitset<MAX_VAR> a;
    if (q < 4) {
      RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
      x->DirectSample(&a, &g);
      if (q == 3) a.flip(1 + c.draw((uint64_t)n));
    } else {
      for (int i = 1; i <= n; ++i)
        if (c.flip()) a.set((size_t)i);
    }
    double got = Weigher(a)(x), want = weight(a);
    PBT_REQUIRE(near_log(got, want, tol), "large: an assignment has log probability %.9g in the written PSDD, expected %.9g", got, want);
  }
  if (c.flip()) return;
  Run q = run_program("PBT_PROG_PSDD_INFERENCE_MAIN", {"--mpe_query", "--mar_query", pf, of});
  PBT_REQUIRE(q.status == 0, "large: the inference program failed: %s", q.text().c_str());
  Inference inf = parse_inference(q.out);
  PBT_REQUIRE(inf.mpe.size() == (size_t)n && inf.mar.size() == (size_t)n && inf.has_pr, "large: answers are missing");
  double best = ch.value([](int, bool) { return true; }, true) - z;
  tol *= 2;
  PBT_REQUIRE(near_log(inf.pr, best, tol), "large: the most probable assignment has log probability %.9g, printed %.9g", best, inf.pr);
  std::bitset<MAX_VAR> a;
  for (auto &k : inf.mpe)
    if (k.second) a.set((size_t)k.first);
  PBT_REQUIRE(near_log(weight(a), best, tol), "large: the printed assignment has log probability %.9g, the best %.9g", weight(a), best);
  for (int k = 0; k < 4; ++k) {
    int at = (int)c.draw((uint64_t)n);
    auto &mr = inf.mar[(size_t)ch.name[(size_t)at] - 1];
    PBT_REQUIRE(mr.var == (long)ch.name[(size_t)at], "large: marginals out of order");
    for (int s = 0; s < 2; ++s) {
      double want = ch.value([&](int i, bool b) { return i != at || b == (bool)s; }) - z;
      PBT_REQUIRE(near_log(s ? mr.pos : mr.neg, want, tol), "large: the marginal of %ld=%d is %.9g in logs, printed %.9g", mr.var, s, want, s ? mr.pos : mr.neg);
    }
  }
}
}  // namespace

PBT_PROPERTY("P24", "generated networks with weight (up to 6 variables and 9 factors, 8 and 12 when thorough; zero entries, repeated and reordered scopes) in random file layouts, compiled by the program over a given vtree or with each vtree method (supplied with arbitrary valid orderings, decompositions and partitions), files in directories of any depth; one in 60 a chain of 8 to 140 variables with up to over 100 factors; the written files read back by the harness and by the inference program; non-trivial when there are at least two factors") {
  if (c.draw(60) == 59) return large_case(c);
  int n = gen_n(c, 6, 8);
  std::vector<uint32_t> vars;
  for (int i = 1; i <= n; ++i) vars.push_back((uint32_t)i);
  c.shuffle(vars);
  VT vt = c.flip() ? gen_vtree_with_vars(c, vars) : gen_decision_vtree(c, vars);
  static const char *const methods[] = {"file", "1", "2", "4"};
  uint64_t method = c.draw(4);
  NetOptions no;
  no.all_zero_factors = false;
  if (method == 0) no.vt = &vt;
  Net g = gen_net(c, n, c.thorough ? 11 : 8, no);
  if (table_total(g.table(vars)) == NINF)
    for (auto &f : g.fs)
      for (auto &v : f.value)
        if (v == 0) v = 0.5;
  if (g.fs.size() > 1) c.nontrivial = true;
  static const size_t extra[] = {0, 0, 0, 0, 100, 380, 500, 1100};
  Dir dir(extra[c.draw(8)]), work(extra[c.draw(8)]);
  if (dir.path.size() + work.path.size() > 1000) c.label("long paths");
  struct stat sb;
  PBT_REQUIRE(stat(dir.path.c_str(), &sb) == 0 && stat(work.path.c_str(), &sb) == 0, "harness: no scratch directory");
  static const char *const names[] = {"net.uai", "1", "4x.uai", "2.uai", "a b.uai", "-net", "net"};
  static const char *const vnames[] = {"given.vtree", "4.vtree", "12", "1a", "40", "04", "2 ", "net.uai.vtree", "+1", "1.0", "3"};
  // half the time with file names relative to the working directory
  bool rel = c.flip();
  std::string fn = names[c.draw(7)], vn = vnames[c.draw(11)], at = rel ? "" : dir.path + "/";
  std::string f = dir.path + "/" + fn, vf = dir.path + "/" + vn, pf = f + ".psdd", of = f + ".vtree";
  if (method == 0) c.note("network file '%s', vtree file '%s'%s\n", fn.c_str(), vn.c_str(), rel ? ", in the working directory" : "");
  std::string text = net_text(g, &c);
  c.note("%smethod %s\n", net_note(g).c_str(), methods[method]);
  if (method == 0) c.note("vtree %s\n", vt.str().c_str());
  pbt::write_all(f, text);
  if (c.flip()) {  // results of an earlier run
    pbt::write_all(pf, std::string(5000, 'x'));
    pbt::write_all(of, std::string(5000, 'x'));
  }
  std::vector<std::string> args{at + fn};
  if (method == 0) {
    Vtree *v = to_sdd_vtree(vt);
    sdd_vtree_save(vf.c_str(), v);
    sdd_vtree_free(v);
    args.push_back(at + vn);
  } else {
    args.push_back(methods[method]);
  }
  if (c.flip()) args.push_back(work.path);
  Run r = run_program("PBT_PROG_UAI_COMPILER", args, {{"PBT_STUB_SEED", std::to_string(c.draw(1u << 30))}}, rel ? dir.path : work.path);
  c.note("output: %.600s\n", r.out.c_str());
  PBT_REQUIRE(r.status == 0, "the program failed: %s", r.text().c_str());
  double size = -1, logz = 0;
  bool has_size = false, has_z = false;
  for (auto &l : lines_of(r.out)) {
    if (l.rfind("Final size ", 0) == 0) has_size = number(l.substr(11), size);
    if (l.rfind("Log Partition ", 0) == 0) has_z = number(l.substr(14), logz);
  }
  PBT_REQUIRE(has_size && has_z, "no size or no partition function in: %s", r.text().c_str());
  // the files
  PBT_REQUIRE(stat(pf.c_str(), &sb) == 0 && stat(of.c_str(), &sb) == 0, "a file is missing");
  Vtree *v = sdd_vtree_read(of.c_str());
  struct Free {
    Vtree *v;
    ~Free() { sdd_vtree_free(v); }
  } fr{v};
  auto order = check_vtree(v);
  PBT_REQUIRE(order.size() == (size_t)n, "the written vtree has %zu variables, the network %d", order.size(), n);
  std::set<uint32_t> distinct(order.begin(), order.end());
  PBT_REQUIRE(distinct.size() == (size_t)n && *distinct.begin() == 1 && *distinct.rbegin() == (uint32_t)n, "the written vtree is not over the variables 1 to %d", n);
  if (method == 0) zip(vt, v);
  std::string ptext = pbt::read_all(pf);
  FPsdd p = parse_psdd(ptext);
  PBT_REQUIRE(!p.nodes.empty() && p.declared == (long)p.nodes.size(), "the PSDD file declares %ld nodes and lists %zu", p.declared, p.nodes.size());
  PBT_REQUIRE(size == (double)p.nodes.size(), "the printed size is %g, the file has %zu nodes", size, p.nodes.size());
  std::map<long, Vtree *> pos;
  positions(v, pos);
  for (auto &x : p.nodes) PBT_REQUIRE(pos.count(x.vtree), "a node is at vtree id %ld, which is not in the vtree file", x.vtree);
  PBT_REQUIRE(pos.at(p.nodes.back().vtree) == v, "the last node is not at the root of the vtree");
  Table t = g.table(order);
  double z = table_total(t), tol = TOL + 4e-7 * (double)(n * (int)g.fs.size()) + 3e-6 * n;
  for (auto &x : t) x -= z;
  PBT_REQUIRE(near_log(logz, z, tol), "the log partition function is %.9g, printed %.9g", z, logz);
  std::map<uint64_t, Table> memo;
  same_table(p.table(pos, p.nodes.back().id, memo), t, n, "written PSDD", tol);
  {
    PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
    PsddNode *x = m->ReadPsddFile(pf.c_str(), 0);
    PBT_REQUIRE(x != nullptr, "the written PSDD reads as null");
    WfOptions o;
    check_wellformed(x, m->vtree(), o, "written PSDD, read");
    same_table(read_table(x), t, n, "written PSDD, read", tol);
    delete m;
  }
  if (c.flip()) return;
  // the inference program on them
  c.label("inference program");
  Support ok(t.size(), 1);
  std::vector<std::string> ia{"--mpe_query", "--mar_query"};
  if (c.flip()) {
    Clauses cl;
    int m = 1 + (int)c.draw(3);
    std::map<SddLiteral, int> at;
    for (int i = 0; i < n; ++i) at[(SddLiteral)order[(size_t)i]] = i;
    for (int i = 0; i < m; ++i) {
      std::vector<SddLiteral> k;
      int len = 1 + (int)c.draw(3);
      for (int j = 0; j < len; ++j) {
        SddLiteral x = (SddLiteral)(1 + c.draw((uint64_t)n));
        k.push_back(c.flip() ? -x : x);
      }
      for (size_t a = 0; a < ok.size(); ++a) {
        bool sat = false;
        for (auto l : k) sat = sat || ((a >> at[std::labs(l)]) & 1) == (size_t)(l > 0);
        if (!sat) ok[a] = 0;
      }
      cl.push_back(k);
    }
    std::string cf = dir.path + "/evid.cnf";
    pbt::write_all(cf, dimacs(c, cl, n, true));
    ia.push_back("--cnf_evid");
    ia.push_back(cf);
    c.note("evidence:\n%s<end>\n", pbt::read_all(cf).c_str());
  }
  ia.push_back(pf);
  ia.push_back(of);
  Run q = run_program("PBT_PROG_PSDD_INFERENCE_MAIN", ia);
  PBT_REQUIRE(q.status == 0, "the inference program failed: %s", q.text().c_str());
  Inference inf = parse_inference(q.out);
  double ze = NINF, mx = NINF;
  for (size_t a = 0; a < t.size(); ++a)
    if (ok[a] && t[a] != NINF) {
      ze = lse(ze, t[a]);
      mx = std::max(mx, t[a]);
    }
  PBT_REQUIRE(inf.unsat == (ze == NINF), "inference: %s", inf.unsat ? "UNSATISFIED although the evidence is possible" : "an answer although the evidence is impossible");
  if (inf.unsat) return;
  PBT_REQUIRE(inf.mpe.size() == (size_t)n && inf.mar.size() == (size_t)n && inf.has_pr, "inference: answers are missing: %s", q.text().c_str());
  tol *= 2;
  PBT_REQUIRE(near_log(inf.pr, mx - ze, tol), "inference: the most probable assignment has log probability %.9g, printed %.9g", mx - ze, inf.pr);
  size_t a = 0;
  for (int i = 0; i < n; ++i) {
    PBT_REQUIRE(inf.mpe[(size_t)i].first == i + 1 && inf.mar[(size_t)i].var == i + 1, "inference: variables out of order");
    size_t at = (size_t)(std::find(order.begin(), order.end(), (uint32_t)(i + 1)) - order.begin());
    if (inf.mpe[(size_t)i].second) a |= (size_t)1 << at;
    for (int s = 0; s < 2; ++s) {
      double w = NINF;
      for (size_t b = 0; b < t.size(); ++b)
        if (t[b] != NINF && ok[b] && ((b >> at) & 1) == (size_t)s) w = lse(w, t[b]);
      double want = w == NINF ? NINF : w - ze, got = s ? inf.mar[(size_t)i].pos : inf.mar[(size_t)i].neg;
      PBT_REQUIRE(near_log(got, want, tol), "inference: the marginal of %d=%d is %.9g in logs, printed %.9g", i + 1, s, want, got);
    }
  }
  PBT_REQUIRE(ok[a] && close(t[a], mx, tol), "inference: the printed assignment has log probability %.9g, the best %.9g", t[a], mx);
}
