// P10: SampleParameters and SampleParametersForMultiplePsdds.
#include "gen.h"
using namespace gen;

namespace {
struct Scripted : RandomDoubleGenerator {
  uint64_t s;
  int kind;
  Scripted(uint64_t seed, int k) : s(seed), kind(k) {}
  double generate() override {
    uint64_t x = pbt::splitmix(s);
    switch (kind) {
      case 0: return 0.25;                                            // constant
      case 1: return std::pow(10.0, -(double)(x % 200));              // wildly different
      case 2: return 1.0 + (double)(x % 1000) / 7.0;
      default: return std::ldexp(1.0 + (double)(x % 97), (int)(x % 600) - 300);
    }
  }
};
void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 200 : 60, true);
  c.label("large");
  c.nontrivial = true;
  std::vector<PsddNode *> roots{ch.root()};
  for (int i = (int)c.draw(4); i > 0; --i) roots.push_back(c.pick(c.pick(ch.node)));
  c.shuffle(roots);
  uint seed = (uint)c.draw(100000);
  WfOptions o;
  o.flag = gen_flag(c);
  o.normalised = o.positive = true;
  auto run = [&]() {
    RandomDoubleFromGammaGenerator g(1, 1, seed);
    return ch.m->SampleParametersForMultiplePsdds(&g, roots, o.flag);
  };
  auto res = run();
  PBT_REQUIRE(res.size() == roots.size(), "large: %zu results for %zu roots", res.size(), roots.size());
  Matcher m("large sampled PSDD");
  std::set<std::vector<double>> params;
  for (size_t i = 0; i < roots.size(); ++i) {
    m.match(roots[i], res[i]);
    check_wellformed(res[i], roots[i]->vtree_node(), o, "large sampled PSDD");
    PBT_REQUIRE(count_models(res[i]) == count_models(roots[i]), "large: a sampled PSDD has another number of models");
  }
  for (auto x : all_nodes(roots)) PBT_REQUIRE(x->user_data() == 0, "large: a node keeps scratch data");
  // independent draws: with enough unconstrained variables no two have all parameters equal
  size_t tops = 0;
  for (auto x : all_nodes(res))
    if (auto t = x->psdd_top_node()) {
      ++tops;
      params.insert({t->true_parameter().parameter()});
    }
  if (tops > 3) PBT_REQUIRE(params.size() > 1, "large: %zu unconstrained variables get the same parameters", tops);
  PBT_REQUIRE(run() == res, "large: an equal seed gives other results");
}
}  // namespace

PBT_PROPERTY("P10", "1 to 5 roots (generated PSDDs sharing nodes, inner nodes of each other, repeated, in any order) re-parameterised with gamma, uniform or scripted generators; or (1 in 30) chains of up to thousands of variables; non-trivial when there are several roots that share nodes or a root with at least two alternatives somewhere") {
  if (c.draw(30) == 29) return large_case(c);
  int n = gen_n(c, 6, 8);
  Env e(c, n);
  uintmax_t f0 = gen_flag(c);
  std::vector<PsddNode *> pool;
  int k = 1 + (int)c.draw(3);
  for (int i = 0; i < k; ++i) pool.push_back(gen_structure(c, e, c.flip() ? f0 : gen_flag(c)));
  std::vector<PsddNode *> roots;
  int r = 1 + (int)c.draw(5);
  for (int i = 0; i < r; ++i) {
    if (i == 0 || c.flip()) {
      roots.push_back(c.pick(pool));
    } else {  // an inner node of a root
      auto all = all_nodes({c.pick(pool)});
      roots.push_back(all[c.draw(all.size())]);
      c.label("inner node as root");
    }
  }
  c.shuffle(roots);
  std::set<PsddNode *> uniq(roots.begin(), roots.end());
  if (uniq.size() < roots.size()) c.label("repeated root");
  bool contained = false;
  for (size_t i = 0; i < roots.size(); ++i)
    for (size_t j = i + 1; j < roots.size(); ++j) {
      auto all = all_nodes({roots[j]});
      if (roots[i] != roots[j] && std::find(all.begin(), all.end(), roots[i]) != all.end()) contained = true;
    }
  if (contained) c.label("a root listed before one containing it");
  std::string desc;
  for (auto x : roots) desc += fmt("%ju@%ld ", x->node_index(), (long)sdd_vtree_position(x->vtree_node()));
  c.note("vtree %s, roots (index@vtree) %s\n", e.vt.str().c_str(), desc.c_str());
  for (auto x : all_nodes(roots)) {
    if (x->node_type() == TOP_NODE_TYPE || (x->psdd_decision_node() && x->psdd_decision_node()->primes().size() > 1)) c.nontrivial = true;
  }
  std::vector<std::string> before;
  for (auto x : roots) before.push_back(fingerprint(x));
  uintmax_t flag = gen_flag(c);
  int gk = (int)c.draw(6);
  uint seed = (uint)c.draw(100000);
  double ga = 0.5 + (double)c.draw(8), gb = 0.25 * (1 + (double)c.draw(8));
  auto run = [&]() {
    std::unique_ptr<RandomDoubleGenerator> g;
    if (gk == 0) g.reset(new RandomDoubleFromGammaGenerator(ga, gb, seed));
    else if (gk == 1) g.reset(new RandomDoubleFromUniformGenerator(0.1, 0.1 + ga, seed));
    else g.reset(new Scripted(seed, gk - 2));
    if (roots.size() == 1 && seed % 2 == 0) return std::vector<PsddNode *>{e.m->SampleParameters(g.get(), roots[0], flag)};
    return e.m->SampleParametersForMultiplePsdds(g.get(), roots, flag);
  };
  auto res = run();
  PBT_REQUIRE(res.size() == roots.size(), "%zu results for %zu roots", res.size(), roots.size());
  Matcher m("sampled PSDD");
  WfOptions o;
  o.flag = flag;
  o.normalised = o.positive = true;
  for (size_t i = 0; i < roots.size(); ++i) {
    PBT_REQUIRE(res[i] != nullptr, "root %zu has no result", i);
    m.match(roots[i], res[i]);
    check_wellformed(res[i], roots[i]->vtree_node(), o, "sampled PSDD");
    same_support(read_support(res[i]), read_support(roots[i]), (int)sdd_vtree_var_count(roots[i]->vtree_node()), "sampled PSDD");
    PBT_REQUIRE(fingerprint(roots[i]) == before[i], "root %zu changed", i);
    c.count("roots");
  }
  for (auto x : all_nodes(roots)) PBT_REQUIRE(x->user_data() == 0, "a node keeps scratch data");
  if (gk == 2) {  // a constant generator gives equal parameters
    for (auto x : all_nodes(res))
      if (auto d = x->psdd_decision_node())
        for (auto &p : d->parameters()) PBT_REQUIRE(close(p.parameter(), -std::log((double)d->primes().size()), 1e-6), "a constant generator gives unequal parameters");
    c.label("constant generator");
  }
  auto again = run();
  PBT_REQUIRE(again == res, "an equal seed gives other results");
  uintmax_t first_flag = flag;
  flag = another_flag(c, flag);
  auto other = run();
  PBT_REQUIRE(other.size() == res.size(), "%zu results for %zu roots", other.size(), roots.size());
  o.flag = flag;
  for (size_t i = 0; i < roots.size(); ++i) {
    int k = (int)sdd_vtree_var_count(roots[i]->vtree_node());
    check_wellformed(other[i], roots[i]->vtree_node(), o, "sampled under another flag");
    same_table(read_table(other[i]), read_table(res[i]), k, "sampled under another flag with an equal seed");
  }
  flag = first_flag;
  PBT_REQUIRE(run() == res, "sampling under another flag in between changes the results");
}
