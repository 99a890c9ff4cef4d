// P03: Evaluate against summation of the joint table (small PSDDs) and against a
// dynamic program (large ones).
#include "gen.h"
using namespace gen;

static void check_eval(Case &c, PsddNode *x, const std::bitset<MAX_VAR> &mask, const std::bitset<MAX_VAR> &inst, double want, double tol, const char *what) {
  std::bitset<MAX_VAR> m2 = mask, i2 = inst;
  double a = psdd_node_util::Evaluate(m2, i2, x).parameter();
  PBT_REQUIRE(close(a, want, tol), "%s: Evaluate gives log %.12g, the sum over completions is %.12g", what, a, want);
  PBT_REQUIRE(m2 == mask && i2 == inst, "Evaluate changed its arguments");
  double b = psdd_node_util::Evaluate(mask, inst, psdd_node_util::SerializePsddNodes(x)).parameter();
  PBT_REQUIRE(a == b || close(a, b, 1e-9), "%s: Evaluate on the root gives log %.12g, on the node list %.12g", what, a, b);
  c.count("evaluations");
}

static void small_case(Case &c) {
  int n = gen_n(c, 7, 10);
  Env e(c, n);
  Built b = gen_psdd(c, e.vt, e.m, gen_flag(c), true);
  b.node = renumbered(c, b.node);
  c.note("vtree %s\n%s\n", e.vt.str().c_str(), show_table(b.t, n).c_str());
  PsddNode *x = b.node;
  Table t = b.t;
  std::vector<uint32_t> order = e.vt.order;
  if (c.chance(1, 4)) {  // a node somewhere inside
    auto all = all_nodes({x});
    x = all[c.draw(all.size())];
    t = read_table(x);
    order = e.order_of(e.model_of(x->vtree_node()));
    n = (int)order.size();
    c.label("inner node");
  }
  size_t full = ((size_t)1 << n) - 1;
  int queries = 4 + (int)c.draw(8);
  if (count_support(support_of(t)) > 1) c.nontrivial = true;
  for (int q = 0; q < queries; ++q) {
    uint64_t mask = q == 0 ? full : q == 1 ? 0 : c.draw(full + 1), val = c.draw(full + 1);
    std::bitset<MAX_VAR> mb = to_bitset(mask, order), ib = to_bitset(val & mask, order);
    if (c.flip()) {  // values of unassigned variables and foreign variables
      ib |= to_bitset(val, order);
      auto own = mask_of(order);
      int k = 1 + (int)c.draw(4);
      for (int i = 0; i < k; ++i) {
        size_t z = (size_t)c.draw(MAX_VAR);
        if (own[z]) continue;
        if (c.flip()) mb.set(z);
        if (c.flip()) ib.set(z);
      }
      c.label("noise in masked-out bits");
    }
    double want = NINF;
    for (size_t i = 0; i <= full; ++i)
      if (((i ^ val) & mask) == 0) want = lse(want, t[i]);
    if (want == NINF) c.label("zero probability query");
    else if (mask && mask != full) c.label("partial query with positive probability");
    c.note("mask %s value %s -> %.9g\n", bits(mask, n).c_str(), bits(val, n).c_str(), want);
    check_eval(c, x, mb, ib, want, TOL, "small");
  }
}

static void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 300 : 120, true);
  ch.node[0][0] = renumbered(c, ch.node[0][0]);
  int n = ch.vt.nvars();
  c.nontrivial = true;
  c.label(n > 100 ? "large, over 100 variables" : "large, up to 100 variables");
  for (int q = 0; q < 3; ++q) {
    std::vector<uint8_t> mask((size_t)n), val((size_t)n);
    uint64_t dens = c.draw(4);
    // a path through the automaton, so that the probability is positive
    int st = 0;
    for (int b = 0; b < ch.blocks; ++b) {
      auto &els = ch.levels[(size_t)b][(size_t)st];
      auto &el = els[c.draw(els.size())];
      std::vector<size_t> okay;
      for (size_t a = 0; a < el.t.size(); ++a)
        if (el.t[a] != NINF) okay.push_back(a);
      size_t a = okay[c.draw(okay.size())];
      for (int i = 0; i < ch.bn[(size_t)b]; ++i) {
        val[(size_t)(ch.lo[(size_t)b] + i)] = (a >> i) & 1;
        mask[(size_t)(ch.lo[(size_t)b] + i)] = dens == 0 ? 1 : dens == 1 ? 0 : c.draw(dens + 1) != 0;
      }
      st = el.next;
    }
    if (c.chance(1, 4)) val[c.draw((uint64_t)n)] ^= 1;
    auto ok = [&](int b, size_t a) {
      for (int i = 0; i < ch.bn[(size_t)b]; ++i) {
        size_t p = (size_t)(ch.lo[(size_t)b] + i);
        if (mask[p] && val[p] != ((a >> i) & 1)) return false;
      }
      return true;
    };
    double want = chain_value(ch, ok, false);
    std::bitset<MAX_VAR> mb, ib;
    for (int i = 0; i < n; ++i) {
      if (mask[(size_t)i]) mb.set(ch.vt.order[(size_t)i]);
      if (val[(size_t)i] && (mask[(size_t)i] || c.flip())) ib.set(ch.vt.order[(size_t)i]);
    }
    if (want != NINF && want < -745) c.label("probability below the smallest double");
    c.note("query -> log %.9g\n", want);
    check_eval(c, ch.root(), mb, ib, want, ch.tol(), "large");
  }
}

PBT_PROPERTY("P03", "a generated normalised PSDD (random vtree, numbering, support, partitions and parameters incl. 0) or an inner node of it, with 4 to 11 masks and values, or a chain PSDD of up to hundreds of variables with 3 queries; non-trivial when the distribution has more than one assignment") {
  if (c.draw(6) == 5) large_case(c);
  else small_case(c);
}
