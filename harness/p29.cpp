// P29: SerializePsddNodes, GetCoveredPsddNodes, GetPsddSize.
#include "gen.h"
using namespace gen;

namespace {
void check_listing(const std::vector<PsddNode *> &roots, const std::vector<PsddNode *> &ser, const char *what) {
  auto all = all_nodes(roots);
  std::unordered_map<PsddNode *, size_t> at;
  for (size_t i = 0; i < ser.size(); ++i) PBT_REQUIRE(at.emplace(ser[i], i).second, "%s: a node is listed twice", what);
  std::unordered_set<PsddNode *> want(all.begin(), all.end());
  for (auto x : ser) PBT_REQUIRE(want.count(x), "%s: lists a node that is not reachable", what);
  PBT_REQUIRE(ser.size() == all.size(), "%s: lists %zu nodes, %zu are reachable", what, ser.size(), all.size());
  for (auto x : ser)
    if (auto d = x->psdd_decision_node())
      for (size_t i = 0; i < d->primes().size(); ++i) {
        PBT_REQUIRE(at.at(d->primes()[i]) > at.at(x), "%s: a left part is listed before the node it belongs to", what);
        PBT_REQUIRE(at.at(d->subs()[i]) > at.at(x), "%s: a right part is listed before the node it belongs to", what);
      }
}
void check_covered(const std::vector<PsddNode *> &roots) {
  auto all = all_nodes(roots);
  auto cov = psdd_node_util::GetCoveredPsddNodes(roots);
  PBT_REQUIRE(cov.size() == all.size(), "covered nodes: %zu, expected %zu", cov.size(), all.size());
  for (auto x : all) {
    auto it = cov.find(x->node_index());
    PBT_REQUIRE(it != cov.end() && it->second == x, "covered nodes: a reachable node is missing");
  }
}
}  // namespace

PBT_PROPERTY("P29", "one to five roots drawn from generated PSDDs of one manager: whole ones, inner nodes, the same root twice, products, nodes at different vtree nodes; or (1 in 12) chains of up to 240 variables; non-trivial when more than one root is listed or the PSDD shares a node") {
  std::vector<PsddNode *> pool, roots;
  std::unique_ptr<Env> e;
  Chain ch;
  if (c.draw(12) == 11) {
    gen_chain(c, ch, c.thorough ? 200 : 80, true);
    ch.node[0][0] = renumbered(c, ch.node[0][0]);
    c.label("large");
    pool = all_nodes({ch.root()});
    pool.insert(pool.begin(), ch.root());
  } else {
    int n = gen_n(c, 7, 9);
    e.reset(new Env(c, n));
    c.note("vtree %s\n", e->vt.str().c_str());
    int k = 1 + (int)c.draw(3);
    std::vector<PsddNode *> tops;
    for (int i = 0; i < k; ++i) tops.push_back(gen_structure(c, *e, gen_flag(c)));
    renumber(c, tops);
    pool = tops;
    for (auto x : all_nodes(tops)) pool.push_back(x);
  }
  int k = 1 + (int)c.draw(5);
  for (int i = 0; i < k; ++i) {
    if (!roots.empty() && c.draw(6) == 5) {
      roots.push_back(roots[c.draw(roots.size())]);
      c.label("same root twice");
    } else if (!roots.empty() && c.draw(3) == 2) {  // a node inside an earlier root, or around it
      auto in = all_nodes({roots[c.draw(roots.size())]});
      roots.insert(roots.begin() + (long)c.draw(roots.size() + 1), in[c.draw(in.size())]);
      c.label("root inside another root");
    } else {
      roots.push_back(pool[c.draw(pool.size())]);
    }
  }
  if (roots.size() > 1) c.nontrivial = true;
  c.note("%zu roots, %zu nodes\n", roots.size(), all_nodes(roots).size());
  std::vector<std::string> before;
  for (auto x : roots) before.push_back(fingerprint(x));
  check_listing(roots, psdd_node_util::SerializePsddNodes(roots), "listing of several roots");
  check_covered(roots);
  PsddNode *r = roots[c.draw(roots.size())];
  auto ser = psdd_node_util::SerializePsddNodes(r);
  check_listing({r}, ser, "listing of one root");
  PBT_REQUIRE(ser[0] == r, "a listing of one root does not start with it");
  auto ser1 = psdd_node_util::SerializePsddNodes(std::vector<PsddNode *>{r});
  check_listing({r}, ser1, "listing of a list of one root");
  PBT_REQUIRE(ser1[0] == r, "a listing of a list of one root does not start with it");
  uintmax_t want = 0;
  size_t edges = 0;
  auto all = all_nodes({r});
  for (auto x : all) {
    if (auto d = x->psdd_decision_node()) {
      want += d->primes().size() - 1;
      edges += 2 * d->primes().size();
    }
    if (x->node_type() == TOP_NODE_TYPE) want += 1;
  }
  if (edges > all.size() - 1) c.nontrivial = true;
  uintmax_t got = psdd_node_util::GetPsddSize(r);
  PBT_REQUIRE(got == want, "size %ju, expected %ju", got, want);
  for (size_t i = 0; i < roots.size(); ++i) PBT_REQUIRE(fingerprint(roots[i]) == before[i], "listing changed a PSDD");
  for (auto x : all_nodes(roots)) PBT_REQUIRE(x->user_data() == 0, "a node keeps scratch data");
}
