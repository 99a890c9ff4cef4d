// P02: CNF compilation and DIMACS reading against brute force.
#include "cnftext.h"
using namespace gen;

namespace {
// many variables: groups of clauses over disjoint sets of variables, or one long clause
void large_case(Case &c) {
  int n = 9 + (int)c.draw(c.thorough || c.chance(1, 6) ? 400 : 110);
  Env e(c, n);
  Blocks b;
  b.n = n;
  Clauses cl;
  if (c.draw(4) == 3) {  // one long clause, given to the oracle as its complement
    std::vector<SddLiteral> k;
    std::vector<uint8_t> sign((size_t)n);
    std::vector<int> at;
    for (int i = 0; i < n; ++i)
      if (c.draw(5)) at.push_back(i);
    if (at.empty()) at.push_back(0);
    for (int i : at) k.push_back((sign[(size_t)i] = c.flip()) ? (SddLiteral)e.vt.order[(size_t)i] : -(SddLiteral)e.vt.order[(size_t)i]);
    c.shuffle(k);
    cl.push_back(k);
    c.note("large: one clause of %zu literals over %d variables\n", k.size(), n);
    c.label("large: a long clause");
    c.nontrivial = true;
    uintmax_t flag = gen_flag(c);
    std::string f = pbt::scratch_file("cnf");
    pbt::write_all(f, dimacs(c, cl, n, c.flip()));
    CNF file(f.c_str()), list(cl);
    unlink(f.c_str());
    PBT_REQUIRE(file.clauses() == cl, "large: the file's clause differs");
    PsddNode *x = file.Compile(e.m, flag);
    PBT_REQUIRE(x != nullptr && list.Compile(e.m, flag) == x, "large: file and clause list compile to different nodes");
    mpz_class want = 1, out = 1;
    mpz_mul_2exp(want.get_mpz_t(), want.get_mpz_t(), (unsigned long)n);
    mpz_mul_2exp(out.get_mpz_t(), out.get_mpz_t(), (unsigned long)(n - (int)at.size()));
    want -= out;
    PBT_REQUIRE(count_models(x) == want, "large: a long clause has %s models, expected %s", count_models(x).get_str().c_str(), want.get_str().c_str());
    for (int q = 0; q < 8; ++q) {
      std::bitset<MAX_VAR> a;
      for (auto v : e.vt.order)
        if (c.flip()) a.set(v);
      int hit = q < 2 ? -1 : at[c.draw(at.size())];
      for (int i : at) a[e.vt.order[(size_t)i]] = (i == hit) == (bool)sign[(size_t)i];
      PBT_REQUIRE(Acceptor(a)(x) == (hit >= 0), "large: an assignment with %s literal true is %s", hit >= 0 ? "one" : "no", hit >= 0 ? "rejected" : "accepted");
    }
    return;
  }
  std::vector<int> leaves;
  for (int i = 0; i < n; ++i) leaves.push_back(i);
  bool mixed = c.flip();  // few scattered groups, or many contiguous ones
  if (mixed) c.shuffle(leaves);
  int groups = 1 + (int)c.draw(mixed ? 4 : 40);
  bool any_unsat = c.draw(6) == 5;
  size_t off = 0;
  for (int g = 0; g < groups && off < leaves.size(); ++g) {
    size_t len = 1 + c.draw(std::min<uint64_t>(5, leaves.size() - off));
    Blocks::B x;
    x.at.assign(leaves.begin() + (long)off, leaves.begin() + (long)(off + len));
    off += len;
    x.t.assign((size_t)1 << len, 1);
    int m = 1 + (int)c.draw(6);
    for (int i = 0; i < m; ++i) {
      std::vector<SddLiteral> k;
      Support t = x.t;
      std::vector<uint8_t> sat(t.size(), 0);
      size_t w = 1 + c.draw(len + 1);
      for (size_t j = 0; j < w; ++j) {
        size_t p = c.draw(len);
        bool s = c.flip();
        SddLiteral v = (SddLiteral)e.vt.order[(size_t)x.at[p]];
        k.push_back(s ? v : -v);
        for (size_t a = 0; a < t.size(); ++a) sat[a] |= ((a >> p) & 1) == (size_t)s;
      }
      for (size_t a = 0; a < t.size(); ++a) t[a] &= sat[a];
      if (count_support(t) == 0 && !any_unsat) continue;
      x.t = t;
      cl.push_back(k);
    }
    b.bs.push_back(x);
  }
  c.shuffle(cl);
  c.note("large: %zu clauses over %d variables, %zu groups\n", cl.size(), n, b.bs.size());
  c.label("large");
  c.nontrivial = true;
  uintmax_t flag = gen_flag(c);
  std::string f = pbt::scratch_file("cnf");
  pbt::write_all(f, dimacs(c, cl, n, c.flip()));
  CNF file(f.c_str()), list(cl);
  unlink(f.c_str());
  PBT_REQUIRE(file.clauses() == cl, "large: the file's clauses differ (%zu instead of %zu)", file.clauses().size(), cl.size());
  PsddNode *x = list.Compile(e.m, flag);
  PBT_REQUIRE(file.Compile(e.m, flag) == x, "large: file and clause list compile to different nodes");
  if (b.count() == 0) {
    PBT_REQUIRE(x == nullptr, "large: an unsatisfiable CNF gives a node");
    return;
  }
  PBT_REQUIRE(x != nullptr, "large: a satisfiable CNF gives the null PSDD");
  WfOptions o;
  o.flag = flag;
  check_wellformed(x, e.m->vtree(), o, "large CNF");
  check_blocks(c, x, b, e.vt.order, "large CNF");
}
}  // namespace

namespace {
void property(Case &c) {
  if (c.draw(30) == 29) return large_case(c);
  int n = gen_n(c, 8, 10);
  Env e(c, n);
  Clauses cl;
  int m = (int)c.draw(15);
  uint64_t style = c.draw(4);
  for (int i = 0; i < m; ++i) {
    std::vector<SddLiteral> k;
    int len = style == 0 ? 1 + (int)c.draw(3) : style == 1 ? 3 : style == 2 ? 2 + (int)c.draw((uint64_t)n) : (int)c.draw(5);
    if (len == 0 && c.draw(8)) len = 2;
    for (int j = 0; j < len; ++j) {
      SddLiteral v = (SddLiteral)e.vt.order[c.draw((uint64_t)n)];
      k.push_back(c.flip() ? -v : v);
    }
    cl.push_back(k);
  }
  Support want((size_t)1 << n, 1);
  std::unordered_map<SddLiteral, int> pos;
  for (int i = 0; i < n; ++i) pos[(SddLiteral)e.vt.order[(size_t)i]] = i;
  for (auto &k : cl)
    for (size_t a = 0; a < want.size(); ++a) {
      bool sat = false;
      for (auto l : k) sat |= ((a >> pos[std::labs(l)]) & 1) == (size_t)(l > 0);
      if (!sat) want[a] = 0;
    }
  size_t k = count_support(want);
  if (k > 0 && k < want.size() && cl.size() >= 2) c.nontrivial = true;
  if (k == 0) c.label("unsatisfiable");
  if (cl.empty()) c.label("no clause");
  uintmax_t flag = gen_flag(c);
  std::string txt;
  for (auto &q : cl) {
    for (auto l : q) txt += fmt("%ld ", (long)l);
    txt += "0; ";
  }
  c.note("vtree %s\nclauses %s\n%zu models\n", e.vt.str().c_str(), txt.c_str(), k);
  auto check = [&](const CNF &f, uintmax_t flag, const char *what) {
    PBT_REQUIRE(f.clauses() == cl, "%s: the clauses differ from those given (%zu instead of %zu)", what, f.clauses().size(), cl.size());
    PsddNode *x = f.Compile(e.m, flag);
    if (k == 0) {
      PBT_REQUIRE(x == nullptr, "%s: an unsatisfiable CNF gives a node", what);
    } else {
      PBT_REQUIRE(x != nullptr, "%s: a satisfiable CNF gives the null PSDD", what);
      WfOptions o;
      o.flag = flag;
      check_wellformed(x, e.m->vtree(), o, what);
      same_support(read_support(x), want, n, what);
    }
    return x;
  };
  CNF direct(cl);
  PsddNode *x = check(direct, flag, "clause list");
  PBT_REQUIRE(check(direct, flag, "clause list, again") == x, "compiling again gives another node");
  uintmax_t flag2 = another_flag(c, flag);
  PsddNode *x2 = check(direct, flag2, "clause list, another flag");
  PBT_REQUIRE(x == nullptr || x2 != x, "compiling under another flag gives the same node");
  if (c.chance(1, 3)) {  // the same clauses in another manager
    Env e2(e.vt);
    PsddNode *y = direct.Compile(e2.m, flag);
    PBT_REQUIRE((y == nullptr) == (k == 0), "another manager: null or not differs");
    if (y) {
      WfOptions o;
      o.flag = flag;
      check_wellformed(y, e2.m->vtree(), o, "another manager");
      same_support(read_support(y), want, n, "another manager");
    }
    PBT_REQUIRE(direct.Compile(e.m, flag) == x, "compiling in another manager in between gives another node");
    c.label("another manager");
  }
  std::string f = pbt::scratch_file("cnf");
  std::string text = dimacs(c, cl, n, c.chance(1, 4));
  c.note("file:\n%s<end>\n", text.c_str());
  pbt::write_all(f, text);
  CNF file(f.c_str());
  PsddNode *y = check(file, flag, "file");
  PBT_REQUIRE(x == y, "file and clause list compile to different nodes");
  unlink(f.c_str());
}
}  // namespace

PBT_PROPERTY("P02", "a random CNF (0 to 14 clauses, with repeated, complementary and no literals) over the variables of a random vtree, compiled from a clause list and from a DIMACS file in a random layout, twice; or (1 in 30) up to 200 clauses over groups of up to 118 (sometimes 408) variables or a clause of that length; non-trivial when the CNF is satisfiable but not valid and has at least 2 clauses") {
  int files = pbt::open_files();
  property(c);
  int now = pbt::open_files();
  PBT_REQUIRE(now == files, "%d files are open after the case, %d were before", now, files);
}
