// P23: the inference program.
#include "cnftext.h"
#include "program.h"
#include "psddfile.h"
using namespace gen;

namespace {
// printed with six significant digits
bool near_log(double got, double want, double tol) {
  if (got == NINF || want == NINF) return got == want;
  return std::fabs(got - want) <= tol + 1e-5 * std::fabs(want);
}
// marginals: exact zeros stay zeros, the rest may be below what is compared
bool near_mar(double got, double want, double tol) {
  if (want == NINF) return got == NINF;
  return near_log(got, want, tol);
}
struct Files {
  std::string psdd = pbt::scratch_file("p23.psdd"), vtree = pbt::scratch_file("p23.vtree"), cnf = pbt::scratch_file("p23.cnf");
  ~Files() {
    unlink(psdd.c_str());
    unlink(vtree.c_str());
    unlink(cnf.c_str());
  }
};
void write_vtree(const VT &vt, const std::string &f) {
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(f.c_str(), v);
  sdd_vtree_free(v);
}
// --mpe_query, --mar_query and the evidence, in any order
std::vector<std::string> args(Case &c, const Files &f, bool mpe, bool mar, bool evid) {
  std::vector<std::vector<std::string>> o;
  if (mpe) o.push_back({"--mpe_query"});
  if (mar) o.push_back({"--mar_query"});
  if (evid) {
    if (c.flip()) o.push_back({"--cnf_evid", f.cnf});
    else o.push_back({"--cnf_evid=" + f.cnf});
  }
  c.shuffle(o);
  std::vector<std::string> a;
  for (auto &x : o) a.insert(a.end(), x.begin(), x.end());
  if (c.draw(8) == 7) a.push_back("--");
  a.push_back(f.psdd);
  a.push_back(f.vtree);
  return a;
}
Inference ask(Case &c, const Files &f, bool mpe, bool mar, bool evid) {
  Run r = run_program("PBT_PROG_PSDD_INFERENCE_MAIN", args(c, f, mpe, mar, evid));
  PBT_REQUIRE(r.status == 0, "the program failed: %s", r.text().c_str());
  c.note("output:\n%s", r.out.c_str());
  Inference i = parse_inference(r.out);
  if (!i.unsat) {
    PBT_REQUIRE(i.has_mpe == mpe && i.has_pr == mpe, "most probable assignment %s: %s", mpe ? "missing" : "unasked", r.text().c_str());
    PBT_REQUIRE(i.has_mar == mar, "marginals %s: %s", mar ? "missing" : "unasked", r.text().c_str());
  }
  return i;
}
void same_vars(const std::vector<long> &got, const std::vector<uint32_t> &order, const char *what) {
  std::vector<uint32_t> s(order);
  std::sort(s.begin(), s.end());
  PBT_REQUIRE(got.size() == s.size(), "%s: %zu variables listed, there are %zu", what, got.size(), s.size());
  for (size_t i = 0; i < s.size(); ++i) PBT_REQUIRE(got[i] == (long)s[i], "%s: variable %ld listed where %u belongs", what, got[i], s[i]);
}
void check_vars(const Inference &i, const std::vector<uint32_t> &order) {
  std::vector<long> v;
  if (i.has_mpe) {
    for (auto &x : i.mpe) v.push_back(x.first);
    same_vars(v, order, "most probable assignment");
  }
  v.clear();
  if (i.has_mar) {
    for (auto &x : i.mar) v.push_back(x.var);
    same_vars(v, order, "marginals");
  }
}

void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 80 : 40, false);
  c.label("large");
  c.nontrivial = true;
  Files f;
  pbt::write_all(f.psdd, own_file(c, ch.root()));
  write_vtree(ch.vt, f.vtree);
  // evidence: clauses inside single blocks
  Clauses cl;
  std::vector<std::vector<std::pair<int, std::vector<int>>>> per((size_t)ch.blocks);
  bool evid = c.draw(4) != 0;
  if (evid) {
    int k = (int)c.draw(8);
    for (int q = 0; q < k; ++q) {
      int b = (int)c.draw((uint64_t)ch.blocks), len = 1 + (int)c.draw(3);
      std::vector<SddLiteral> lits;
      std::vector<int> code;
      for (int j = 0; j < len; ++j) {
        int i = (int)c.draw((uint64_t)ch.bn[(size_t)b]);
        bool pos = c.flip();
        SddLiteral v = (SddLiteral)ch.vt.order[(size_t)(ch.lo[(size_t)b] + i)];
        lits.push_back(pos ? v : -v);
        code.push_back(pos ? i + 1 : -(i + 1));
      }
      cl.push_back(lits);
      per[(size_t)b].push_back({b, code});
    }
    pbt::write_all(f.cnf, dimacs(c, cl, (int)MAX_VAR, c.flip()));
  }
  auto ok = [&](int b, size_t a) {
    for (auto &x : per[(size_t)b]) {
      bool sat = false;
      for (int l : x.second) sat = sat || ((a >> (std::abs(l) - 1)) & 1) == (size_t)(l > 0);
      if (!sat) return false;
    }
    return true;
  };
  double z = chain_value(ch, ok, false), mx = chain_value(ch, ok, true);
  Inference r = ask(c, f, true, true, evid);
  PBT_REQUIRE(r.unsat == (z == NINF), "large: %s", r.unsat ? "UNSATISFIED although the evidence is possible" : "an answer although the evidence is impossible");
  if (r.unsat) return;
  check_vars(r, ch.vt.order);
  double tol = ch.tol() + 3e-6 * ch.vt.nvars();
  PBT_REQUIRE(near_log(r.pr, mx - z, tol), "large: most probable assignment has log probability %.9g, printed %.9g", mx - z, r.pr);
  std::map<long, bool> val;
  for (auto &x : r.mpe) val[x.first] = x.second;
  double at = chain_value(ch, [&](int b, size_t a) {
    if (!ok(b, a)) return false;
    for (int i = 0; i < ch.bn[(size_t)b]; ++i)
      if (val[(long)ch.vt.order[(size_t)(ch.lo[(size_t)b] + i)]] != (bool)((a >> i) & 1)) return false;
    return true;
  }, false);
  PBT_REQUIRE(close(at, mx, tol), "large: the printed assignment has log weight %.9g, the best %.9g", at, mx);
  for (auto &m : r.mar) {
    size_t p = 0;
    while ((long)ch.vt.order[p] != m.var) ++p;
    if (c.draw(4)) continue;
    int b = 0;
    while (b + 1 < ch.blocks && ch.lo[(size_t)b + 1] <= (int)p) ++b;
    int i = (int)p - ch.lo[(size_t)b];
    for (int s = 0; s < 2; ++s) {
      double w = chain_value(ch, [&](int bb, size_t a) { return ok(bb, a) && (bb != b || ((a >> i) & 1) == (size_t)s); }, false);
      double want = w == NINF ? NINF : w - z;
      double got = s ? m.pos : m.neg;
      PBT_REQUIRE(near_mar(got, want, tol), "large: marginal of %ld=%d is %.9g in logs, printed %.9g", m.var, s, want, got);
    }
  }
}
}  // namespace

PBT_PROPERTY("P23", "PSDD files in two layouts over generated vtrees, with no evidence or a random CNF in a random layout, every combination of queries, run through the program and compared with enumeration; or (1 in 10) chains of up to 120 variables; non-trivial when both queries or evidence that excludes some but not all accepted assignments are involved") {
  if (c.draw(10) == 9) return large_case(c);
  int n = gen_n(c, 6, 8);
  Env e(c, n);
  Support sup = gen_support(c, n);
  bool evid = c.draw(3) != 0;
  bool zeros = !evid && c.draw(4) == 3;
  PsddNode *x = gen_psdd(c, e.vt, e.m, 0, zeros, &sup).node;
  Files f;
  if (c.flip()) {
    pbt::write_all(f.psdd, own_file(c, x));
  } else {
    psdd_node_util::WritePsddToFile(x, f.psdd.c_str());
  }
  write_vtree(e.vt, f.vtree);
  Table t = read_table(x);
  Support ok(t.size(), 1);
  if (evid) {
    Clauses cl;
    int m = (int)c.draw(6);
    for (int i = 0; i < m; ++i) {
      std::vector<SddLiteral> k;
      int len = 1 + (int)c.draw(3);
      if (c.draw(30) == 29) len = 0;
      for (int j = 0; j < len; ++j) {
        SddLiteral v = (SddLiteral)e.vt.order[c.draw((uint64_t)n)];
        k.push_back(c.flip() ? -v : v);
      }
      cl.push_back(k);
    }
    std::map<SddLiteral, int> pos;
    for (int i = 0; i < n; ++i) pos[(SddLiteral)e.vt.order[(size_t)i]] = i;
    for (auto &k : cl)
      for (size_t a = 0; a < ok.size(); ++a) {
        bool sat = false;
        for (auto l : k) sat = sat || ((a >> pos[std::labs(l)]) & 1) == (size_t)(l > 0);
        if (!sat) ok[a] = 0;
      }
    std::string text = dimacs(c, cl, n, c.flip());
    pbt::write_all(f.cnf, text);
    c.note("evidence:\n%s<end>\n", text.c_str());
  }
  c.note("vtree %s: %s\n", e.vt.str().c_str(), show_table(t, n).c_str());
  double z = NINF, mx = NINF;
  size_t in = 0, all = 0;
  for (size_t a = 0; a < t.size(); ++a) {
    if (t[a] == NINF) continue;
    ++all;
    if (!ok[a]) continue;
    ++in;
    z = lse(z, t[a]);
    mx = std::max(mx, t[a]);
  }
  // an assignment the PSDD accepts with probability 0 satisfies the evidence
  bool structural = false;
  for (size_t a = 0; a < t.size(); ++a) structural = structural || (sup[a] && ok[a]);
  uint64_t q = c.draw(4);
  bool mpe = q != 1 && q != 3, mar = q != 2 && q != 3;
  if ((mpe && mar) || (in > 0 && in < all)) c.nontrivial = true;
  if (zeros) c.label("zero parameters allowed");
  Inference r = ask(c, f, mpe, mar, evid);
  if (z == NINF) {
    c.label("impossible evidence");
    if (!structural || r.unsat) PBT_REQUIRE(r.unsat, "an answer although no accepted assignment satisfies the evidence");
    return;
  }
  PBT_REQUIRE(!r.unsat, "UNSATISFIED although the evidence is possible");
  check_vars(r, e.vt.order);
  double tol = TOL + 3e-6 * n;
  if (mpe) {
    PBT_REQUIRE(near_log(r.pr, mx - z, tol), "the most probable assignment has log probability %.9g, printed %.9g", mx - z, r.pr);
    size_t a = 0;
    for (auto &v : r.mpe)
      for (int i = 0; i < n; ++i)
        if ((long)e.vt.order[(size_t)i] == v.first && v.second) a |= (size_t)1 << i;
    PBT_REQUIRE(ok[a], "the printed assignment %s violates the evidence", bits(a, n).c_str());
    PBT_REQUIRE(close(t[a], mx, tol), "the printed assignment %s has log probability %.9g, the best %.9g", bits(a, n).c_str(), t[a], mx);
  }
  if (mar)
    for (auto &m : r.mar) {
      int i = 0;
      while ((long)e.vt.order[(size_t)i] != m.var) ++i;
      for (int s = 0; s < 2; ++s) {
        double w = NINF;
        for (size_t a = 0; a < t.size(); ++a)
          if (t[a] != NINF && ok[a] && ((a >> i) & 1) == (size_t)s) w = lse(w, t[a]);
        double want = w == NINF ? NINF : w - z, got = s ? m.pos : m.neg;
        PBT_REQUIRE(near_mar(got, want, tol), "the marginal of %ld=%d is %.9g in logs, printed %.9g", m.var, s, want, got);
      }
    }
}
