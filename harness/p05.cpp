// P05: GetMPESolution against the maximum of the joint table / a max-product DP.
#include "gen.h"
using namespace gen;

static std::bitset<MAX_VAR> check_mpe(PsddNode *x, const std::vector<uint32_t> &order, double best, double tol, double *val) {
  auto ser = psdd_node_util::SerializePsddNodes(x);
  auto r = psdd_node_util::GetMPESolution(x);
  PBT_REQUIRE((r.first & ~mask_of(order)).none(), "the assignment sets a variable outside the PSDD");
  double v = r.second.parameter();
  PBT_REQUIRE(close(v, best, tol), "MPE value has log %.12g, the best assignment %.12g", v, best);
  for (int k = 0; k < 2; ++k) {
    auto q = k ? psdd_node_util::GetMPESolution(x) : psdd_node_util::GetMPESolution(ser);
    PBT_REQUIRE(q.first == r.first && q.second.parameter() == v, k ? "asking again gives another answer" : "root and node list give different answers");
  }
  for (PsddNode *y : ser) PBT_REQUIRE(y->user_data() == 0, "a node keeps scratch data after the query");
  *val = v;
  return r.first;
}

PBT_PROPERTY("P05", "MPE of a generated PSDD (normalised, or converted from an SDD with all weights 1), of an inner node, or (1 in 8) of a chain PSDD of up to hundreds of variables; non-trivial when at least two assignments have different positive weights") {
  if (c.draw(8) == 7) {
    Chain ch;
    gen_chain(c, ch, c.thorough ? 300 : 120, true);
    ch.node[0][0] = renumbered(c, ch.node[0][0]);
    c.nontrivial = true;
    c.label("large");
    double best = chain_value(ch, [](int, size_t) { return true; }, true), v;
    auto a = check_mpe(ch.root(), ch.vt.order, best, ch.tol(), &v);
    double pa = chain_value(ch, [&](int b, size_t s) {
      for (int i = 0; i < ch.bn[(size_t)b]; ++i)
        if (a[ch.vt.order[(size_t)(ch.lo[(size_t)b] + i)]] != (bool)((s >> i) & 1)) return false;
      return true;
    }, false);
    PBT_REQUIRE(close(pa, v, ch.tol()), "the returned assignment has log probability %.12g, reported %.12g", pa, v);
    return;
  }
  int n = gen_n(c, 8, 11);
  PsddNode *x;
  Table t;
  Env e(c, n);
  if (c.chance(1, 6)) {
    SddManager *sm;
    std::unordered_map<uint32_t, uint32_t> map;
    // an unweighted PSDD from an SDD over the same shape
    VT sv = e.vt;
    std::vector<uint32_t> ids;
    for (int i = 1; i <= n; ++i) ids.push_back((uint32_t)i);
    vt_number(sv, ids);
    Vtree *v = to_sdd_vtree(sv);
    sm = sdd_manager_new(v);
    sdd_vtree_free(v);
    Fn f = gen_sdd(c, sm, n);
    x = e.m->ConvertSddToPsdd(f.node, sdd_manager_vtree(sm), gen_flag(c));
    if (!x) {
      sdd_manager_free(sm);
      return;
    }
    t = read_table(x);
    sdd_manager_free(sm);
    c.label("unweighted");
  } else {
    Built b = gen_psdd(c, e.vt, e.m, gen_flag(c), true);
    b.node = renumbered(c, b.node);
    x = b.node;
    t = b.t;
  }
  c.note("vtree %s\n%s\n", e.vt.str().c_str(), show_table(t, n).c_str());
  std::vector<std::pair<PsddNode *, Table>> roots{{x, t}};
  if (c.chance(1, 3)) {
    auto all = all_nodes({x});
    PsddNode *y = all[c.draw(all.size())];
    roots.push_back({y, read_table(y)});
    c.label("inner node");
  }
  for (auto &r : roots) {
    auto order = e.order_of(e.model_of(r.first->vtree_node()));
    double best = NINF, least = 0;
    bool diff = false;
    for (double w : r.second) {
      if (w != NINF && best != NINF && std::fabs(w - best) > 1e-3) diff = true;
      best = std::max(best, w);
      if (w != NINF) least = std::min(least, w);
    }
    if (diff) c.nontrivial = true;
    double v;
    auto a = check_mpe(r.first, order, best, TOL, &v);
    size_t idx = 0;
    for (size_t i = 0; i < order.size(); ++i)
      if (a[order[i]]) idx |= (size_t)1 << i;
    c.note("best %.9g, returned %s\n", best, bits(idx, (int)order.size()).c_str());
    PBT_REQUIRE(r.second[idx] != NINF, "the returned assignment %s has probability 0", bits(idx, (int)order.size()).c_str());
    PBT_REQUIRE(close(r.second[idx], v, TOL), "the returned assignment %s has log probability %.12g, reported %.12g", bits(idx, (int)order.size()).c_str(), r.second[idx], v);
    c.count("queries");
  }
}
