// P04: GetMarginals against summation of the joint table / forward-backward.
#include "gen.h"
using namespace gen;
using Marg = std::unordered_map<uint32_t, std::pair<Probability, Probability>>;

static void check_marg(PsddNode *x, const std::vector<uint32_t> &order, const std::vector<std::pair<double, double>> &want, const std::vector<uint8_t> &have, double tol) {
  auto ser = psdd_node_util::SerializePsddNodes(x);
  Marg a = psdd_node_util::GetMarginals(ser), b = psdd_node_util::GetMarginals(ser);
  PBT_REQUIRE(a.size() == order.size(), "marginals for %zu variables, the PSDD has %zu", a.size(), order.size());
  PBT_REQUIRE(b.size() == a.size(), "asking again gives %zu variables", b.size());
  for (size_t i = 0; i < order.size(); ++i) {
    auto it = a.find(order[i]);
    PBT_REQUIRE(it != a.end(), "no marginal for variable %u", order[i]);
    double f = it->second.first.parameter(), t = it->second.second.parameter();
    PBT_REQUIRE(close(lse(f, t), 0, 1e-6), "variable %u: the marginals sum to exp(%.9g)", order[i], lse(f, t));
    auto jt = b.find(order[i]);
    PBT_REQUIRE(jt != b.end() && jt->second.first.parameter() == f && jt->second.second.parameter() == t, "variable %u: asking again gives another answer", order[i]);
    if (!have[i]) continue;
    PBT_REQUIRE(close(f, want[i].first, tol), "variable %u: log P(false) is %.12g, expected %.12g", order[i], f, want[i].first);
    PBT_REQUIRE(close(t, want[i].second, tol), "variable %u: log P(true) is %.12g, expected %.12g", order[i], t, want[i].second);
  }
  for (PsddNode *y : ser) PBT_REQUIRE(y->user_data() == 0, "a node keeps scratch data after the query");
}

PBT_PROPERTY("P04", "marginals of every variable of a generated normalised PSDD, of an inner node, or (1 in 8) of a chain PSDD of up to hundreds of variables; non-trivial when the distribution has more than one assignment and more than one variable") {
  if (c.draw(8) == 7) {
    Chain ch;
    gen_chain(c, ch, c.thorough ? 300 : 120, true);
    ch.node[0][0] = renumbered(c, ch.node[0][0]);
    int n = ch.vt.nvars();
    c.nontrivial = true;
    c.label("large");
    std::vector<std::pair<double, double>> want((size_t)n);
    std::vector<uint8_t> have((size_t)n, 0);
    std::vector<std::pair<int, int>> pos;
    for (int b = 0; b < ch.blocks; ++b)
      for (int i = 0; i < ch.bn[(size_t)b]; ++i) pos.push_back({b, i});
    for (int q = 0; q < 12; ++q) {
      size_t i = q < 2 ? (q == 0 ? 0 : (size_t)n - 1) : (size_t)c.draw((uint64_t)n);
      auto pr = pos[i];
      auto at = [&](size_t v) {
        return chain_value(ch, [&](int b, size_t a) { return b != pr.first || ((a >> pr.second) & 1) == v; }, false);
      };
      want[i] = {at(0), at(1)};
      have[i] = 1;
      if (want[i].first == NINF || want[i].second == NINF) c.label("impossible value");
    }
    check_marg(ch.root(), ch.vt.order, want, have, ch.tol());
    return;
  }
  int n = gen_n(c, 8, 11);
  Env e(c, n);
  Built b = gen_psdd(c, e.vt, e.m, gen_flag(c), true);
  b.node = renumbered(c, b.node);
  c.note("vtree %s\n%s\n", e.vt.str().c_str(), show_table(b.t, n).c_str());
  std::vector<std::pair<PsddNode *, Table>> roots{{b.node, b.t}};
  if (c.chance(1, 3)) {
    auto all = all_nodes({b.node});
    PsddNode *x = all[c.draw(all.size())];
    roots.push_back({x, read_table(x)});
    if (c.flip()) std::swap(roots[0], roots[1]);
    c.label("inner node");
  }
  if (n > 1 && count_support(support_of(b.t)) > 1) c.nontrivial = true;
  for (auto &r : roots) {
    auto order = e.order_of(e.model_of(r.first->vtree_node()));
    std::vector<std::pair<double, double>> want(order.size(), {NINF, NINF});
    for (size_t a = 0; a < r.second.size(); ++a)
      for (size_t i = 0; i < order.size(); ++i) {
        double &w = ((a >> i) & 1) ? want[i].second : want[i].first;
        w = lse(w, r.second[a]);
      }
    for (auto &w : want)
      if (w.first == NINF || w.second == NINF) c.label("impossible value");
    check_marg(r.first, order, want, std::vector<uint8_t>(order.size(), 1), TOL);
    c.count("marginal pairs", order.size());
  }
}
