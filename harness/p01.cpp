// P01: ConvertSddToPsdd and FromSdd against the truth table of the SDD.
#include "gen.h"
using namespace gen;

namespace {
// many variables, of which few are constrained
void large_case(Case &c) {
  int n = 8 + (int)c.draw(c.thorough ? 300 : 140);
  if (c.flip()) n = 8 + (int)c.draw(10);
  VT t;
  t.root = vt_shape(c, t, n, c.flip() ? 2 : (int)c.draw(5));
  vt_number(t, gen_vars(c, n, true));
  int v = t.root;
  bool sub = c.flip();
  if (sub)
    for (int q = 0; q < 3; ++q) {
      int l = t.nodes[(size_t)v].l, r = t.nodes[(size_t)v].r, w = c.flip() ? l : r;
      if (w >= 0 && t.nodes[(size_t)w].n >= 8 && c.draw(3)) v = w;
    }
  int k = t.nodes[(size_t)v].n;
  SddEnv s;
  s.init(c, t, v);
  Blocks b = gen_blocks(c, k, true);
  std::vector<uint32_t> order(t.order.begin() + t.nodes[(size_t)v].lo, t.order.begin() + t.nodes[(size_t)v].lo + k);
  SddNode *f = blocks_sdd(b, s.m, s.ids);
  std::unique_ptr<PsddManager> m;
  uintmax_t flag = gen_flag(c);
  PsddNode *x;
  Vtree *at;
  c.note("large: %d of %d variables, %s\n", k, n, show_blocks(b).c_str());
  c.label("large");
  c.nontrivial = true;
  auto conv = [&](uintmax_t fl) {
    if (!sub) return m->ConvertSddToPsdd(f, s.vtree(), fl);
    return m->FromSdd(f, s.vtree(), fl, at);
  };
  if (!sub) {
    std::unordered_map<uint32_t, uint32_t> map;
    for (int i = 0; i < n; ++i) map[s.ids[(size_t)i]] = t.order[(size_t)i];
    m.reset(PsddManager::GetPsddManagerFromSddVtree(s.vtree(), map));
    at = m->vtree();
  } else {
    m.reset(make_manager(t));
    at = zip(t, m->vtree())[(size_t)v];
  }
  PBT_REQUIRE(check_vtree(m->vtree()) == t.order, "large: the manager's vtree has other variables");
  SddSize size = sdd_size(f);
  x = conv(flag);
  PBT_REQUIRE(x != nullptr, "large: a satisfiable SDD gives the null PSDD");
  WfOptions o;
  o.flag = flag;
  check_wellformed(x, at, o, "large converted PSDD");
  check_blocks(c, x, b, order, "large converted PSDD");
  vtree_data_clear(s.vtree(), "SDD vtree after a large conversion");
  PBT_REQUIRE(sdd_size(f) == size, "large: the SDD changed");
  PBT_REQUIRE(conv(flag) == x, "large: converting again gives another node");
  if (sub) {
    std::unordered_set<SddLiteral> vars;
    for (auto u : order) vars.insert((SddLiteral)u);
    PBT_REQUIRE(m->FromSdd(f, s.vtree(), flag, vars) == x, "large: the target given by variables gives another node");
  }
}
}  // namespace

PBT_PROPERTY("P01", "a Boolean function built in an SDD manager, converted over the whole vtree, over a same-shaped vtree with renamed variables, or into a sub-vtree of a larger vtree given as node or as variable set; or (1 in 40) a formula over few of up to 148 variables or with up to 128 or 512 alternatives in a decision; non-trivial when the function depends on its inputs and the vtree has at least 2 variables") {
  if (c.draw(40) == 39) return large_case(c);
  int big = 1 + (int)c.draw(c.thorough ? 12 : 8);
  int how = (int)c.draw(4);  // 0 whole vtree, 1 renamed, 2 sub-vtree, 3 variable set
  VT t = gen_vtree(c, big);
  int v = t.root;
  if (how >= 2) {
    v = (int)c.draw(t.nodes.size());
    while (t.nodes[(size_t)v].n > (c.thorough ? 10 : 8)) v = t.nodes[(size_t)v].l;
  } else if (big > 10) {
    how = 2;
    while (t.nodes[(size_t)v].n > 10) v = t.nodes[(size_t)v].r;
  }
  SddEnv s;
  s.init(c, t, v);
  int n = s.n;
  PsddManager *m;
  std::vector<Vtree *> vn;
  int root = v;
  const char *names[] = {"whole vtree", "renamed variables", "sub-vtree node", "sub-vtree by variable set"};
  c.label(names[how]);
  if (how == 0 && c.flip()) {
    // a manager over the SDD's own variables
    m = PsddManager::GetPsddManagerFromVtree(s.vtree());
    vt_number(t, s.ids);
    c.label("manager over the SDD's vtree");
  } else if (how <= 1) {
    std::unordered_map<uint32_t, uint32_t> map;
    for (int i = 0; i < n; ++i) map[s.ids[(size_t)i]] = t.order[(size_t)i];
    if (c.flip()) {  // entries for variables that do not exist
      map[(uint32_t)n + 1 + (uint32_t)c.draw(5)] = 1 + (uint32_t)c.draw(20);
    }
    m = PsddManager::GetPsddManagerFromSddVtree(s.vtree(), map);
    vtree_data_clear(s.vtree(), "SDD vtree after making a manager");
  } else {
    m = make_manager(t);
  }
  std::unique_ptr<PsddManager> own(m);
  {
    auto order = check_vtree(m->vtree());
    PBT_REQUIRE(order == t.order, "the manager's vtree has variables %s, expected %s", show_vars(order).c_str(), show_vars(t.order).c_str());
  }
  vn = zip(t, m->vtree());
  std::unordered_set<SddLiteral> vars;
  for (int i = 0; i < n; ++i) vars.insert((SddLiteral)t.order[(size_t)(t.nodes[(size_t)v].lo + i)]);
  c.note("PSDD vtree %s, target node over %d variables, sdd ids %s\n", t.str().c_str(), n, show_vars(s.ids).c_str());
  int rounds = 1 + (int)c.draw(3);
  std::vector<std::pair<Fn, PsddNode *>> earlier;
  for (int r = 0; r < rounds; ++r) {
    Fn f = gen_sdd(c, s.m, n);
    uintmax_t flag = gen_flag(c);
    auto conv = [&](const Fn &g, uintmax_t fl) {
      if (how <= 1) return m->ConvertSddToPsdd(g.node, s.vtree(), fl);
      if (how == 2) return m->FromSdd(g.node, s.vtree(), fl, vn[(size_t)root]);
      return m->FromSdd(g.node, s.vtree(), fl, vars);
    };
    Support want = s.to_leaves(f.t);
    size_t k = count_support(want);
    c.note("round %d: %zu of %zu models, flag %ju\n", r, k, want.size(), flag);
    SddSize size = sdd_size(f.node);
    PsddNode *x = conv(f, flag);
    if (k == 0) {
      PBT_REQUIRE(x == nullptr, "a false SDD gives a node");
      c.label("false");
    } else {
      PBT_REQUIRE(x != nullptr, "a satisfiable SDD gives the null PSDD");
      WfOptions o;
      o.flag = flag;
      check_wellformed(x, vn[(size_t)root], o, "converted PSDD");
      same_support(read_support(x), want, n, "converted PSDD");
      if (k == want.size()) c.label("true");
      else if (n > 1) c.nontrivial = true;
    }
    vtree_data_clear(s.vtree(), "SDD vtree after a conversion");
    PBT_REQUIRE(sdd_size(f.node) == size && sdd_table(f.node, n) == f.t, "the SDD changed");
    PBT_REQUIRE(conv(f, flag) == x, "converting again gives another node");
    if (x && c.chance(1, 3)) {  // the same SDD under another flag
      WfOptions o;
      o.flag = another_flag(c, flag);
      PsddNode *x2 = conv(f, o.flag);
      PBT_REQUIRE(x2 != nullptr && x2 != x, "converting under another flag gives null or the same node");
      check_wellformed(x2, vn[(size_t)root], o, "PSDD converted under another flag");
      same_support(read_support(x2), want, n, "PSDD converted under another flag");
    }
    earlier.push_back({f, x});
    for (auto &p : earlier)
      if (p.second) same_support(read_support(p.second), s.to_leaves(p.first.t), n, "a PSDD converted earlier");
    c.count("conversions", 2);
  }
  PBT_REQUIRE(check_vtree(m->vtree()) == t.order, "the PSDD vtree changed");
}
