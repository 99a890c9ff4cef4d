// P13: LoadPsddNode and NormalizePsddNode.
#include "gen.h"
using namespace gen;

namespace {
void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 200 : 80, true);
  ch.node[0][0] = renumbered(c, ch.node[0][0]);
  c.label("large");
  c.nontrivial = true;
  Refiner rf(c, ch.vt, (int)c.draw(20));
  Refined r = rf.run(ch.vt.root);
  PsddManager *m2 = make_manager(r.vt);
  std::string before = fingerprint(ch.root());
  uintmax_t flag = gen_flag(c);
  PsddNode *y = m2->LoadPsddNode(m2->vtree(), ch.root(), flag);
  PBT_REQUIRE(y && y->vtree_node() == m2->vtree(), "large: the loaded PSDD is not at the root of the vtree");
  PBT_REQUIRE(fingerprint(ch.root()) == before, "large: loading changed the given PSDD");
  for (auto x : all_nodes({y})) PBT_REQUIRE(x->flag_index() == flag, "large: a loaded node carries another flag");
  mpz_class m1 = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(ch.root())), mm = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(y));
  mpz_class f = 1;
  for (size_t i = (size_t)ch.vt.nvars(); i < r.vt.order.size(); ++i) f *= 2;
  PBT_REQUIRE(mm == m1 * f, "large: %s models after loading, expected %s", mm.get_str().c_str(), mpz_class(m1 * f).get_str().c_str());
  auto ser = psdd_node_util::SerializePsddNodes(y);
  auto old = mask_of(ch.vt.order), all = mask_of(r.vt.order);
  for (int q = 0; q < 4; ++q) {
    std::bitset<MAX_VAR> inst, known = all & ~old;
    for (auto v : r.vt.order)
      if (c.flip()) inst.set(v);
    if (q == 0) {
      known = all;
      std::bitset<MAX_VAR> d;
      RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
      ch.root()->DirectSample(&d, &g);
      inst = (inst & ~old) | d;
    } else {
      for (auto v : ch.vt.order)
        if (c.draw(4) == 0) known.set(v);
    }
    double want = chain_value(ch, [&](int k, size_t s) {
      for (int i = 0; i < ch.bn[(size_t)k]; ++i) {
        uint32_t var = ch.vt.order[(size_t)(ch.lo[(size_t)k] + i)];
        if (known[var] && inst[var] != (bool)((s >> i) & 1)) return false;
      }
      return true;
    }, false);
    double got = psdd_node_util::Evaluate(known, inst, ser).parameter();
    PBT_REQUIRE(close(got, want, 2 * ch.tol()), "large: log weight %.9g after loading, %.9g before", got, want);
  }
  delete m2;
}
}  // namespace

PBT_PROPERTY("P13", "generated PSDDs (also unnormalised ones from SDDs, zero parameters, inner nodes), loaded into the same manager, a manager over an equal vtree, or one over a vtree refined by up to 5 additional variables, at the image of their vtree node or any ancestor of it, and lifted within their manager to any ancestor; or (1 in 12) chains of up to 240 variables; non-trivial when the target has variables the PSDD does not or the manager differs, and the PSDD is not a literal") {
  if (c.draw(12) == 11) return large_case(c);
  int n = gen_n(c, 5, 6);
  Env e(c, n);
  uintmax_t f0 = gen_flag(c), flag = gen_flag(c);
  PsddNode *x = gen_structure(c, e, f0);
  if (c.chance(1, 3)) {
    auto all = all_nodes({x});
    x = all[c.draw(all.size())];
    c.label("inner node");
  }
  int xv = e.model_of(x->vtree_node());
  auto inner = e.order_of(xv);
  Table t = read_table(x);
  Support sup = read_support(x);
  std::string before = fingerprint(x);
  c.note("vtree %s, node over %s, flag %ju: %s\n", e.vt.str().c_str(), show_vars(inner).c_str(), f0, show_table(t, (int)inner.size()).c_str());
  auto check = [&](PsddNode *y, Vtree *target, const std::vector<uint32_t> &order, const char *what, bool flags) {
    PBT_REQUIRE(y != nullptr, "%s: null", what);
    WfOptions o;
    o.flag = flag;
    o.flags = flags;
    check_wellformed(y, target, o, what);
    same_table(read_table(y), extend_table(t, inner, order), (int)order.size(), what);
    Table st(sup.size());
    for (size_t i = 0; i < sup.size(); ++i) st[i] = sup[i] ? 0 : NINF;
    same_support(read_support(y), support_of(extend_table(st, inner, order)), (int)order.size(), what);
    PBT_REQUIRE(fingerprint(x) == before, "%s: the given PSDD changed", what);
    for (auto z : all_nodes({x})) PBT_REQUIRE(z->user_data() == 0, "%s: a node of the given PSDD keeps scratch data", what);
  };
  {  // within the manager
    auto up = ancestors(e.vt, xv);
    int tv = up[c.draw(up.size())];
    Vtree *target = e.vn[(size_t)tv];
    c.note("target over %s, flag %ju\n", show_vars(e.order_of(tv)).c_str(), flag);
    if (tv != xv && x->node_type() != LITERAL_NODE_TYPE) c.nontrivial = true;
    PsddNode *y = e.m->NormalizePsddNode(target, x, flag);
    check(y, target, e.order_of(tv), "lifted", false);
    std::unordered_set<PsddNode *> old;
    for (auto z : all_nodes({x})) old.insert(z);
    for (auto z : all_nodes({y}))
      if (!old.count(z)) PBT_REQUIRE(z->flag_index() == flag, "lifted: a new node carries flag %ju, expected %ju", z->flag_index(), flag);
    PBT_REQUIRE(e.m->NormalizePsddNode(target, x, flag) == y, "lifting again gives another node");
    y = e.m->LoadPsddNode(target, x, flag);
    check(y, target, e.order_of(tv), "loaded into its own manager", true);
    PBT_REQUIRE(e.m->LoadPsddNode(target, x, flag) == y, "loading again gives another node");
    if (c.flip()) {
      uintmax_t keep = flag;
      flag = another_flag(c, keep);
      PsddNode *z = e.m->LoadPsddNode(target, x, flag);
      check(z, target, e.order_of(tv), "loaded under another flag", true);
      flag = keep;
      PBT_REQUIRE(e.m->LoadPsddNode(target, x, flag) == y, "loading under another flag in between gives another node");
    }
    if (flag == f0 && tv == xv) {
      PBT_REQUIRE(y == x, "loading a PSDD into its own manager under its own flag gives another node");
      c.label("loaded onto itself");
    }
  }
  {  // into another manager
    x = renumbered(c, x);
    before = fingerprint(x);
    Refiner rf(c, e.vt, (int)c.draw(4));
    bool whole = c.flip();
    Refined r = rf.run(whole ? e.vt.root : xv);
    if (r.vt.nvars() <= 9) {
      Env b(r.vt);
      // the receiving manager is already in use
      PsddNode *other = nullptr;
      std::string ofp;
      if (c.flip()) {
        other = gen_psdd(c, b.vt, b.m, c.flip() ? flag : gen_flag(c), true).node;
        ofp = fingerprint(other);
      }
      auto up = ancestors(r.vt, r.image[(size_t)xv]);
      int tv = up[c.draw(up.size())];
      Vtree *target = b.vn[(size_t)tv];
      c.note("other vtree %s, target over %s\n", r.vt.str().c_str(), show_vars(b.order_of(tv)).c_str());
      if (b.n() > n) c.label("additional variables");
      if (x->node_type() != LITERAL_NODE_TYPE) c.nontrivial = true;
      PsddNode *y = b.m->LoadPsddNode(target, x, flag);
      check(y, target, b.order_of(tv), "loaded into another manager", true);
      PBT_REQUIRE(b.m->LoadPsddNode(target, x, flag) == y, "loading again into another manager gives another node");
      if (c.flip()) {
        uintmax_t keep = flag;
        flag = another_flag(c, keep);
        check(b.m->LoadPsddNode(target, x, flag), target, b.order_of(tv), "loaded into another manager under another flag", true);
        flag = keep;
      }
      if (other) PBT_REQUIRE(fingerprint(other) == ofp, "loading changed a PSDD of the receiving manager");
      // a loaded PSDD does not depend on the one it was loaded from
      std::string fy = fingerprint(y);
      e.m->DeleteUnusedPsddNodes({});
      PBT_REQUIRE(fingerprint(y) == fy, "a loaded PSDD depends on the manager it came from");
    }
  }
}
