// P08: Multiply against the pointwise product of the joint tables.
#include "gen.h"
using namespace gen;

static void check_product(PsddNode *x, PsddParameter z, const Table &want, int n, Vtree *v, uintmax_t flag, const char *what) {
  double tot = table_total(want);
  if (tot == NINF) {
    PBT_REQUIRE(x == nullptr, "%s: no assignment is accepted by all operands, but the result is a node", what);
    PBT_REQUIRE(z.parameter() == NINF, "%s: null result with constant exp(%.9g)", what, z.parameter());
    return;
  }
  PBT_REQUIRE(x != nullptr, "%s: null result, but the product has total exp(%.9g)", what, tot);
  PBT_REQUIRE(close(z.parameter(), tot), "%s: constant exp(%.12g), the products sum to exp(%.12g)", what, z.parameter(), tot);
  WfOptions o;
  o.flag = flag;
  o.normalised = o.positive = true;
  check_wellformed(x, v, o, what);
  Table w = want;
  for (auto &q : w) q -= tot;
  same_table(read_table(x), w, n, what);
}

static void large_case(Case &c) {
  Chain a, b;
  gen_chain(c, a, c.thorough ? 150 : 60, false);
  gen_chain_like(c, a, b, false);
  c.label("large");
  auto r = a.m->Multiply(a.root(), b.root(), gen_flag(c));
  // total of the product by a dynamic program over pairs of states
  std::vector<std::vector<double>> val;
  for (int k = a.blocks - 1; k >= 0; --k) {
    std::vector<std::vector<double>> cur;
    bool last = k + 1 == a.blocks;
    for (auto &sa : a.levels[(size_t)k]) {
      cur.emplace_back();
      for (auto &sb : b.levels[(size_t)k]) {
        double s = NINF;
        for (auto &ea : sa)
          for (auto &eb : sb) {
            double t = NINF;
            for (size_t i = 0; i < ea.t.size(); ++i)
              if (ea.t[i] != NINF && eb.t[i] != NINF) t = lse(t, ea.t[i] + eb.t[i]);
            if (t == NINF) continue;
            double nx = last ? 0 : val[(size_t)ea.next][(size_t)eb.next];
            s = lse(s, t + ea.w + eb.w + nx);
          }
        cur.back().push_back(s);
      }
    }
    val = cur;
  }
  double tot = val[0][0];
  if (tot == NINF) {
    c.label("large, contradictory");
    PBT_REQUIRE(r.first == nullptr && r.second.parameter() == NINF, "large: contradictory operands give a node or a positive constant");
    return;
  }
  c.nontrivial = true;
  PBT_REQUIRE(r.first != nullptr, "large: null result, total exp(%.9g)", tot);
  double tol = 3 * a.tol();
  PBT_REQUIRE(close(r.second.parameter(), tot, tol), "large: constant exp(%.12g), expected exp(%.12g)", r.second.parameter(), tot);
  // complete assignments: follow the result itself and perturb
  auto ser = psdd_node_util::SerializePsddNodes(r.first);
  for (int q = 0; q < 4; ++q) {
    std::bitset<MAX_VAR> inst;
    PsddNode *x = r.first;
    Reader rd;
    for (int k = 0; k < a.blocks; ++k) {
      PsddNode *blk = x;
      PsddNode *nx = nullptr;
      if (k + 1 < a.blocks) {
        auto d = x->psdd_decision_node();
        size_t i = c.draw(d->primes().size());
        blk = d->primes()[i];
        nx = d->subs()[i];
      }
      const Support &s = rd.support(blk);
      std::vector<size_t> okay;
      for (size_t i = 0; i < s.size(); ++i)
        if (s[i]) okay.push_back(i);
      size_t pick = okay[c.draw(okay.size())];
      for (int i = 0; i < a.bn[(size_t)k]; ++i)
        if ((pick >> i) & 1) inst.set(a.vt.order[(size_t)(a.lo[(size_t)k] + i)]);
      x = nx;
    }
    if (q == 3) inst.flip(a.vt.order[c.draw((uint64_t)a.vt.nvars())]);
    auto ok = [&](const Chain &ch) {
      return chain_value(ch, [&](int k, size_t s) {
        for (int i = 0; i < ch.bn[(size_t)k]; ++i)
          if (inst[ch.vt.order[(size_t)(ch.lo[(size_t)k] + i)]] != (bool)((s >> i) & 1)) return false;
        return true;
      }, false);
    };
    double want = ok(a) + ok(b) - tot;
    double got = psdd_node_util::Evaluate(mask_of(a.vt.order), inst, ser).parameter();
    PBT_REQUIRE(close(got, want, tol), "large: an assignment has log probability %.12g, expected %.12g", got, want);
  }
}

PBT_PROPERTY("P08", "two or three generated strictly positive PSDDs over one vtree (also inner nodes at one vtree node, operands of another manager with an equal vtree, null operands), multiplied in both orders and both groupings; or (1 in 12) two chain PSDDs; non-trivial when the product accepts at least two assignments and is a proper subset of an operand or has unequal weights") {
  if (c.draw(12) == 11) return large_case(c);
  int n = gen_n(c, 6, 8);
  Env e(c, n);
  uintmax_t fa = gen_flag(c), fr = gen_flag(c);
  uint64_t rel = c.draw(4);
  Support s1 = gen_support(c, n), s2 = rel == 0 ? s1 : gen_support(c, n);
  std::unique_ptr<Env> e2;
  if (c.chance(1, 6)) {
    e2.reset(new Env(e.vt));
    c.label("operand of another manager");
  }
  Built a = gen_psdd(c, e.vt, e.m, fa, false, &s1);
  Built b = rel == 3 && c.flip() && !e2 ? a : gen_psdd(c, e.vt, e2 ? e2->m : e.m, gen_flag(c), false, &s2);
  if (b.node == a.node) c.label("squared");
  PsddNode *x = a.node, *y = b.node;
  Table ta = a.t, tb = b.t;
  Vtree *v = e.m->vtree();
  if (c.chance(1, 5)) {
    auto all = all_nodes({x}), bll = all_nodes({y});
    PsddNode *p = all[c.draw(all.size())];
    std::vector<PsddNode *> same;
    for (auto q : bll)
      if (sdd_vtree_position(q->vtree_node()) == sdd_vtree_position(p->vtree_node())) same.push_back(q);
    x = p;
    y = same[c.draw(same.size())];
    ta = read_table(x);
    tb = read_table(y);
    v = p->vtree_node();
    n = (int)sdd_vtree_var_count(v);
    c.label("inner nodes");
  }
  std::vector<PsddNode *> ops{x, y};
  renumber(c, ops);
  x = ops[0];
  y = ops[1];
  c.note("vtree %s, at a node over %d variables\nA: %s\nB: %s\n", e.vt.str().c_str(), n, show_table(ta, n).c_str(), show_table(tb, n).c_str());
  std::string f1 = fingerprint(x), f2 = fingerprint(y);
  Table want(ta.size());
  for (size_t i = 0; i < want.size(); ++i) want[i] = ta[i] == NINF || tb[i] == NINF ? NINF : ta[i] + tb[i];
  size_t k = count_support(support_of(want));
  if (k == 0) c.label("contradictory");
  if (k >= 2) c.nontrivial = true;
  auto r = e.m->Multiply(x, y, fr);
  check_product(r.first, r.second, want, n, v, fr, "A*B");
  auto r2 = e.m->Multiply(y, x, fr);
  check_product(r2.first, r2.second, want, n, v, fr, "B*A");
  auto r3 = e.m->Multiply(x, y, fr);
  PBT_REQUIRE(r3.first == r.first && r3.second.parameter() == r.second.parameter(), "multiplying again gives another result");
  if (c.flip()) {
    uintmax_t f4 = another_flag(c, fr);
    auto r4 = e.m->Multiply(x, y, f4);
    check_product(r4.first, r4.second, want, n, v, f4, "A*B under another flag");
    PBT_REQUIRE(e.m->Multiply(x, y, fr).first == r.first, "multiplying under another flag in between gives another result");
  }
  PBT_REQUIRE(fingerprint(x) == f1 && fingerprint(y) == f2, "an operand changed");
  for (int side = 0; side < 3; ++side) {  // null operands
    auto z = side == 0 ? e.m->Multiply(nullptr, y, fr) : side == 1 ? e.m->Multiply(x, nullptr, fr) : e.m->Multiply(nullptr, nullptr, fr);
    PBT_REQUIRE(z.first == nullptr && z.second.parameter() == NINF, "a null operand does not give the null product with constant 0");
  }
  if (c.flip() && v == e.m->vtree()) {
    Built d = gen_psdd(c, e.vt, e.m, gen_flag(c), false);
    Table w3(want.size());
    for (size_t i = 0; i < want.size(); ++i) w3[i] = want[i] == NINF || d.t[i] == NINF ? NINF : want[i] + d.t[i];
    auto l = e.m->Multiply(r.first, d.node, fr);
    check_product(l.first, l.second * r.second, w3, n, v, fr, "(A*B)*C");
    auto q = e.m->Multiply(y, d.node, fr);
    auto rr = e.m->Multiply(x, q.first, fr);
    check_product(rr.first, rr.second * q.second, w3, n, v, fr, "A*(B*C)");
    c.label("three operands");
  }
  c.count("products", 6);
}
