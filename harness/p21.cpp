// P21: MinFillVtree, JointreeVtree, HypergraphDecompositionVtree and PgmCompiler::init_psdd_manager.
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>
#include <psdd/pgm_compiler.h>

#include "pbt_stub.h"
#include "uai.h"
using namespace gen;

namespace {
const char *NAMES[] = {"min-fill", "join tree", "hypergraph"};
void vars_below(Vtree *v, std::set<int> &out) {
  if (sdd_vtree_is_leaf(v)) {
    out.insert((int)sdd_vtree_var(v));
  } else {
    vars_below(sdd_vtree_left(v), out);
    vars_below(sdd_vtree_right(v), out);
  }
}
void check_separation(Vtree *v, const std::vector<std::vector<int>> &scopes, int method) {
  if (sdd_vtree_is_leaf(v)) return;
  Vtree *l = sdd_vtree_left(v);
  if (!sdd_vtree_is_leaf(l)) {
    std::set<int> a, b;
    vars_below(l, a);
    vars_below(sdd_vtree_right(v), b);
    for (auto &s : scopes) {
      int na = 0, nb = 0;
      for (int x : s) {
        na += (int)a.count(x);
        nb += (int)b.count(x);
      }
      PBT_REQUIRE(!(na && nb), "%s vtree: a factor links the two sides of a node whose left side has %zu variables", NAMES[method], a.size());
    }
  }
  check_separation(l, scopes, method);
  check_separation(sdd_vtree_right(v), scopes, method);
}
typedef std::set<std::pair<size_t, size_t>> Pairs;
template <class T>
Pairs linked(const std::vector<std::vector<T>> &edges) {
  Pairs r;
  for (auto &e : edges)
    for (auto a : e)
      for (auto b : e)
        if (a != b) r.insert({(size_t)a, (size_t)b});
  return r;
}
// how many hyperedges have each size, how many vertices each degree; hyperedges of one vertex cut nothing
typedef std::pair<std::multiset<size_t>, std::multiset<size_t>> Degrees;
Degrees degrees(size_t vertices, const std::vector<std::set<size_t>> &hyper) {
  Degrees r;
  std::vector<size_t> d(vertices, 0);
  for (auto &h : hyper) {
    if (h.size() < 2) continue;
    r.first.insert(h.size());
    for (size_t x : h) ++d.at(x);
  }
  r.second = std::multiset<size_t>(d.begin(), d.end());
  return r;
}
// the most variables outside an internal node of the vtree that share a factor with one below it
size_t widest(Vtree *v, const Pairs &p) {
  if (sdd_vtree_is_leaf(v)) return 0;
  std::set<int> in;
  vars_below(v, in);
  std::set<size_t> out;
  for (auto &x : p)
    if (in.count((int)x.first) && !in.count((int)x.second)) out.insert(x.second);
  return std::max({out.size(), widest(sdd_vtree_left(v), p), widest(sdd_vtree_right(v), p)});
}
size_t ordering_width(const std::vector<size_t> &seq, const Pairs &p) {
  std::map<size_t, std::set<size_t>> nb;
  for (auto &x : p) nb[x.first].insert(x.second);
  size_t w = 0;
  for (size_t v : seq) {
    auto s = nb[v];
    w = std::max(w, s.size());
    for (size_t a : s) {
      nb[a].erase(v);
      for (size_t b : s)
        if (a != b) nb[a].insert(b);
    }
  }
  return w;
}
// The library was asked about the network, and the vtree is as narrow as its answer.
void check_library(Vtree *v, int n, const std::vector<std::vector<int>> &scopes, int method) {
  auto &seen = pbt_stub::seen();
  Pairs p = linked(scopes);
  if (method < 2 && seen.graphs) {
    PBT_REQUIRE(seen.vertices == (size_t)n, "%s: the graph has %zu vertices, the network %d variables", NAMES[method], seen.vertices, n);
    PBT_REQUIRE(linked(seen.edges) == p, "%s: the graph links other variables than the network", NAMES[method]);
    size_t bound = method == 0 ? ordering_width(seen.sequence, p) + 1 : seen.largest_bag, w = widest(v, p);
    PBT_REQUIRE(w <= bound, "%s: %zu variables are linked with those below a node of the vtree; %zu is possible with the library's answer", NAMES[method], w, bound);
  }
  if (method == 2 && seen.partitions) {
    std::vector<std::set<size_t>> want((size_t)n + 1), got;
    for (size_t k = 0; k < scopes.size(); ++k)
      for (int x : scopes[k]) want[(size_t)x].insert(k);
    for (auto &h : seen.hyper) got.emplace_back(h.begin(), h.end());
    PBT_REQUIRE(seen.hyper_vertices == scopes.size(), "%zu vertices for %zu factors", seen.hyper_vertices, scopes.size());
    PBT_REQUIRE(degrees(scopes.size(), got) == degrees(scopes.size(), want), "the hypergraph does not link the factors as the variables do");
  }
}
void check(Case &c, Vtree *v, int n, const std::vector<std::vector<int>> &scopes, int method) {
  PBT_REQUIRE(v != nullptr, "%s: null", NAMES[method]);
  auto order = check_vtree(v);
  std::set<uint32_t> s(order.begin(), order.end());
  PBT_REQUIRE(s.size() == order.size(), "%s: a variable has two leaves", NAMES[method]);
  PBT_REQUIRE((int)s.size() == n && *s.begin() == 1 && (int)*s.rbegin() == n, "%s: %zu variables between %u and %u, expected 1 to %d", NAMES[method], s.size(), *s.begin(), *s.rbegin(), n);
  check_separation(v, scopes, method);
  check_library(v, n, scopes, method);
}

void structure_case(Case &c) {
  int n = 1 + (int)c.draw(c.thorough ? 60 : 30);
  int method = (int)c.draw(3);
  int m = 1 + (int)c.draw((uint64_t)n + 4);
  std::vector<std::vector<int>> scopes;
  std::vector<bool> cov((size_t)n + 1, false);
  int local = (int)c.draw(3);  // scopes around a place, for sparse graphs
  for (int k = 0; k < m; ++k) {
    int len = 1 + (int)c.draw((uint64_t)std::min(n, 4));
    std::set<int> s;
    int base = (int)c.draw((uint64_t)n);
    std::vector<int> sc;
    for (int j = 0; j < len; ++j) {
      int x = local ? (base + (int)c.draw(4)) % n + 1 : 1 + (int)c.draw((uint64_t)n);
      if (s.insert(x).second) sc.push_back(x);
    }
    for (int x : sc) cov[(size_t)x] = true;
    scopes.push_back(sc);
  }
  bool all = method == 2 || c.flip();
  for (int v = 1; v <= n; ++v)
    if (!cov[(size_t)v] && all) scopes.push_back({v});
  bool un = false;
  for (int v = 1; v <= n; ++v) un = un || (!all && !cov[(size_t)v]);
  if (un) c.label("isolated variables");
  c.shuffle(scopes);
  c.label(std::string("structure: ") + NAMES[method]);
  if (n > 3 && scopes.size() > 3) c.nontrivial = true;
  c.note("%s, %d variables, scopes", NAMES[method], n);
  std::vector<std::vector<size_t>> cl;
  std::vector<std::vector<PsddParameter>> pa;
  for (auto &s : scopes) {
    c.note(" (");
    for (int x : s) c.note("%d ", x);
    c.note(")");
    cl.emplace_back(s.begin(), s.end());
    pa.emplace_back((size_t)1 << s.size(), PsddParameter::CreateFromDecimal(1));
  }
  c.note("\n");
  UaiNetwork net((size_t)n, cl.size(), MARKOV_NETWORK_TYPE, cl, pa);
  Vtree *v = nullptr;
  std::string dir = pbt::scratch_root();
  if (method == 0) v = MinFillVtree(&net).ConstructVtree();
  if (method == 1) v = JointreeVtree(&net).ConstructVtree();
  if (method == 2) v = HypergraphDecompositionVtree(&net, dir.c_str()).ConstructVtree();
  check(c, v, n, scopes, method);
  sdd_vtree_free(v);
}
}  // namespace

PBT_PROPERTY("P21", "generated networks (up to 30 variables for the vtree alone, 60 when thorough, sparse and dense, isolated variables for min-fill and join tree; up to 7 variables and 12 factors when also compiled), through each of the three constructions, supplied with arbitrary valid orderings, decompositions and partitions; non-trivial when there are more than three variables and factors, or when compiled") {
  pbt_stub::seen().clear();
  pbt_stub::source() = [&c](uint64_t n) { return c.draw(n); };
  struct Off {
    ~Off() { pbt_stub::source() = nullptr; }
  } off;
  if (c.draw(3) != 0) return structure_case(c);
  int n = gen_n(c, 6, 8);
  Net g = gen_net(c, n, c.thorough ? 12 : 9, NetOptions());
  static const char modes[] = {VTREE_METHOD_MINFILL, VTREE_METHOD_JOINTREE, VTREE_METHOD_HYPER_FIXED_BF};
  int method = (int)c.draw(3);
  int how = (int)c.draw(3);
  size_t gc = 1 + c.draw(4);
  c.nontrivial = true;
  c.label(std::string("compiled: ") + NAMES[method]);
  c.note("%s%s, strategy %d, clean-up every %zu\n", net_note(g).c_str(), NAMES[method], how, gc);
  std::string f = pbt::scratch_file("p21.uai");
  pbt::write_all(f, net_text(g));
  PgmCompiler pc(pbt::scratch_root());
  pc.read_uai_file(f.c_str());
  pc.init_psdd_manager(modes[method]);
  unlink(f.c_str());
  std::vector<std::vector<int>> scopes;
  for (auto &x : g.fs) scopes.push_back(x.scope);
  check(c, pc.psdd_manager()->vtree(), n, scopes, method);
  auto order = check_vtree(pc.psdd_manager()->vtree());
  c.note("vtree leaves %s\n", show_vars(order).c_str());
  auto r = how == 0 ? pc.compile_network(gc) : how == 1 ? pc.compile_network_with_vtree(gc) : pc.compile_network_dc(gc);
  Table t = g.table(order);
  double z = table_total(t), tol = TOL + 4e-7 * (double)(n * (int)g.fs.size());
  if (z == NINF) {
    PBT_REQUIRE(r.first == nullptr && r.second.parameter() == NINF, "not null and 0 for a network without weight");
    return;
  }
  PBT_REQUIRE(r.first != nullptr, "null for a network with weight");
  PBT_REQUIRE(close(r.second.parameter(), z, tol), "log constant %.9g, expected %.9g", r.second.parameter(), z);
  Table got = read_table(r.first);
  for (auto &x : got) x += z;
  same_table(got, t, n, "compiled network", tol);
}
