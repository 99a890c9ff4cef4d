// P22: vtree_util.
#include "gen.h"
using namespace gen;

namespace {
void match_shape(Vtree *a, Vtree *b, const std::function<long(long)> &ren, const char *what) {
  PBT_REQUIRE(a != b, "%s: the result shares a node with the original", what);
  if (sdd_vtree_is_leaf(a)) {
    PBT_REQUIRE(sdd_vtree_is_leaf(b), "%s: a leaf became an internal node", what);
    PBT_REQUIRE((long)sdd_vtree_var(b) == ren((long)sdd_vtree_var(a)), "%s: variable %ld became %ld", what, (long)sdd_vtree_var(a), (long)sdd_vtree_var(b));
  } else {
    PBT_REQUIRE(!sdd_vtree_is_leaf(b), "%s: an internal node became a leaf", what);
    match_shape(sdd_vtree_left(a), sdd_vtree_left(b), ren, what);
    match_shape(sdd_vtree_right(a), sdd_vtree_right(b), ren, what);
  }
}
// the projection of a model vtree, as text
std::string project(const VT &t, int v, const std::set<uint32_t> &s) {
  if (t.leaf(v)) return s.count(t.nodes[(size_t)v].var) ? std::to_string(t.nodes[(size_t)v].var) : "";
  std::string l = project(t, t.nodes[(size_t)v].l, s), r = project(t, t.nodes[(size_t)v].r, s);
  if (l.empty()) return r;
  if (r.empty()) return l;
  return "(" + l + " " + r + ")";
}
std::string show(Vtree *v) {
  if (sdd_vtree_is_leaf(v)) return std::to_string((long)sdd_vtree_var(v));
  return "(" + show(sdd_vtree_left(v)) + " " + show(sdd_vtree_right(v)) + ")";
}
void no_sharing(Vtree *v, const std::set<Vtree *> &orig, const char *what) {
  PBT_REQUIRE(!orig.count(v), "%s: the result shares a node with the original", what);
  if (!sdd_vtree_is_leaf(v)) {
    no_sharing(sdd_vtree_left(v), orig, what);
    no_sharing(sdd_vtree_right(v), orig, what);
  }
}
}  // namespace

PBT_PROPERTY("P22", "generated vtrees of up to 24 (80 when thorough), one in 50 up to 360 variables, any shape and numbering, as trees of their own or the tree of a manager; copies, renamings, projections, listings and look-ups at any node; non-trivial when there are at least three variables") {
  int n = gen_n(c, 24, 80);
  if (c.draw(50) == 49) n = 60 + (int)c.draw(c.thorough ? 1000 : 300);
  VT vt = gen_vtree(c, n);
  if (n >= 3) c.nontrivial = true;
  c.note("vtree %s\n", vt.str().c_str());
  Vtree *root = to_sdd_vtree(vt);
  PsddManager *m = nullptr;
  Vtree *own = root;
  if (c.draw(4) == 3) {
    m = PsddManager::GetPsddManagerFromVtree(root);
    root = m->vtree();
    c.label("tree of a manager");
  }
  auto vn = zip(vt, root);
  std::set<Vtree *> orig(vn.begin(), vn.end());
  auto intact = [&](const char *what) {
    auto again = zip(vt, root);
    PBT_REQUIRE(again == vn, "%s: the original changed", what);
    check_vtree(root);
    vtree_data_clear(root, what);
  };
  int ops = 1 + (int)c.draw(6);
  for (int k = 0; k < ops; ++k) {
    int v = c.flip() ? vt.root : (int)c.draw(vt.nodes.size());
    auto &nd = vt.nodes[(size_t)v];
    Vtree *x = vn[(size_t)v];
    std::vector<uint32_t> ord(vt.order.begin() + nd.lo, vt.order.begin() + nd.lo + nd.n);
    uint64_t op = c.draw(6);
    switch (op) {
      case 0: {
        c.note("copy of node with %d leaves\n", nd.n);
        Vtree *y = vtree_util::CopyVtree(x);
        PBT_REQUIRE(y != nullptr, "copy: null");
        match_shape(x, y, [](long a) { return a; }, "copy");
        check_vtree(y);
        vtree_data_clear(y, "copy");
        intact("copy");
        sdd_vtree_free(y);
        break;
      }
      case 1: {
        std::unordered_map<SddLiteral, SddLiteral> map;
        std::vector<uint32_t> to = c.flip() ? ord : gen_vars(c, nd.n, true);
        c.shuffle(to);
        for (size_t i = 0; i < ord.size(); ++i) map[(SddLiteral)ord[i]] = (SddLiteral)to[i];
        if (c.flip()) {  // entries of other variables
          for (auto u : vt.order)
            if (!map.count((SddLiteral)u)) map[(SddLiteral)u] = (SddLiteral)(1 + c.draw(100));
        }
        auto kept = map;
        c.note("renamed copy of node with %d leaves: %s-> %s\n", nd.n, show_vars(ord).c_str(), show_vars(to).c_str());
        Vtree *y = vtree_util::CopyVtree(x, map);
        PBT_REQUIRE(y != nullptr, "renamed copy: null");
        PBT_REQUIRE(map == kept, "renamed copy: the map changed");
        match_shape(x, y, [&](long a) { return (long)kept.at((SddLiteral)a); }, "renamed copy");
        check_vtree(y);
        vtree_data_clear(y, "renamed copy");
        intact("renamed copy");
        sdd_vtree_free(y);
        break;
      }
      case 2: {
        std::vector<SddLiteral> vars;
        std::set<uint32_t> s;
        uint64_t p = 1 + c.draw(4);
        for (auto u : ord)
          if (c.draw(5) < p) s.insert(u);
        if (s.empty()) s.insert(ord[c.draw(ord.size())]);
        for (auto u : s) vars.push_back((SddLiteral)u);
        c.shuffle(vars);
        if (c.draw(4) == 3) vars.push_back(vars[c.draw(vars.size())]);  // listed twice
        if (c.draw(4) == 3) {  // variables elsewhere
          SddLiteral u = (SddLiteral)(1 + c.draw(MAX_VAR - 1));
          if (std::find(ord.begin(), ord.end(), (uint32_t)u) == ord.end()) vars.push_back(u);
        }
        std::string want = project(vt, v, s);
        c.note("projection of node with %d leaves to %s\n", nd.n, want.c_str());
        Vtree *y = vtree_util::ProjectVtree(x, vars);
        PBT_REQUIRE(y != nullptr, "projection: null");
        PBT_REQUIRE(show(y) == want, "projection is %s, expected %s", show(y).c_str(), want.c_str());
        check_vtree(y);
        no_sharing(y, orig, "projection");
        vtree_data_clear(y, "projection");
        intact("projection");
        sdd_vtree_free(y);
        break;
      }
      case 3: {
        auto ser = vtree_util::SerializeVtree(x);
        PBT_REQUIRE((int)ser.size() == 2 * nd.n - 1, "listing: %zu nodes, expected %d", ser.size(), 2 * nd.n - 1);
        PBT_REQUIRE(ser[0] == x, "listing: does not start at the node");
        std::set<Vtree *> seen;
        for (auto y : ser) {
          PBT_REQUIRE(orig.count(y), "listing: a foreign node");
          PBT_REQUIRE(seen.insert(y).second, "listing: a node is listed twice");
          PBT_REQUIRE(y == x || seen.count(sdd_vtree_parent(y)), "listing: a node before its parent");
        }
        intact("listing");
        break;
      }
      case 4: {
        auto un = vtree_util::VariablesUnderVtree(x);
        std::multiset<uint32_t> a(un.begin(), un.end()), b(ord.begin(), ord.end());
        PBT_REQUIRE(a == b, "variables under a node: %zu of them, expected %zu or others", a.size(), b.size());
        auto lr = vtree_util::LeftToRightLeafTraverse(x);
        PBT_REQUIRE(lr.size() == ord.size(), "leaf traversal: %zu leaves, expected %zu", lr.size(), ord.size());
        for (size_t i = 0; i < ord.size(); ++i) PBT_REQUIRE((uint32_t)lr[i] == ord[i], "leaf traversal: place %zu holds %ld, expected %u", i, (long)lr[i], ord[i]);
        intact("variables");
        break;
      }
      default: {
        std::unordered_set<SddLiteral> s;
        const char *kind = "node";
        uint64_t how = c.draw(5);
        int w = v;
        if (how == 0) {  // a node below
          std::vector<int> below;
          for (size_t i = 0; i < vt.nodes.size(); ++i)
            if (vt.nodes[i].lo >= nd.lo && vt.nodes[i].lo + vt.nodes[i].n <= nd.lo + nd.n) below.push_back((int)i);
          w = below[c.draw(below.size())];
          for (int i = 0; i < vt.nodes[(size_t)w].n; ++i) s.insert((SddLiteral)vt.order[(size_t)(vt.nodes[(size_t)w].lo + i)]);
        } else if (how == 1) {  // an interval of leaves
          size_t a = c.draw(ord.size()), b = a + c.draw(ord.size() - a);
          for (size_t i = a; i <= b; ++i) s.insert((SddLiteral)ord[i]);
          kind = "interval";
        } else if (how == 2) {
          for (auto u : ord)
            if (c.flip()) s.insert((SddLiteral)u);
          if (s.empty()) s.insert((SddLiteral)ord[0]);
          kind = "random set";
        } else {  // a node's set with one variable more or less, or a foreign one
          for (auto u : ord) s.insert((SddLiteral)u);
          if (how == 3 && s.size() > 1) s.erase((SddLiteral)ord[c.draw(ord.size())]);
          if (how == 4) {
            SddLiteral u = (SddLiteral)(1 + c.draw(MAX_VAR - 1));
            s.insert(u);
          }
          kind = "near a node";
        }
        Vtree *want = nullptr;
        for (size_t i = 0; i < vt.nodes.size(); ++i) {
          auto &q = vt.nodes[i];
          if (q.lo < nd.lo || q.lo + q.n > nd.lo + nd.n || (size_t)q.n != s.size()) continue;
          bool all = true;
          for (int j = 0; j < q.n; ++j) all = all && s.count((SddLiteral)vt.order[(size_t)(q.lo + j)]);
          if (all) want = vn[i];
        }
        c.note("look-up of %zu variables (%s) below a node with %d leaves: %s\n", s.size(), kind, nd.n, want ? "exists" : "none");
        c.label(want ? "look-up: exists" : "look-up: none");
        Vtree *got = vtree_util::SubVtreeByVariables(x, s);
        PBT_REQUIRE(got == want, "look-up (%s): %s", kind, !got ? "null although a node has these variables" : want ? "another node" : "a node although none has these variables");
        intact("look-up");
      }
    }
  }
  if (m) {
    delete m;
    sdd_vtree_free(own);
  } else {
    sdd_vtree_free(root);
  }
}
