// Models and generators shared by the properties: vtrees, PSDDs with a known
// distribution, independent evaluation through the node accessors, structural
// checks, Boolean functions.
#ifndef VERIF_GEN_H
#define VERIF_GEN_H
#include <psdd/cnf.h>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>

#include <bitset>
#include <limits>
#include <memory>
#include <unordered_map>
#include <unordered_set>

#include "pbt.h"

namespace gen {
using pbt::Case;
using pbt::fmt;

const double NINF = -std::numeric_limits<double>::infinity();
// The library merges parameters whose logs share a 1e-7 cell, so a probability
// computed through merged nodes may be off by about 1e-7 per node on a path.
const double TOL = 2e-5;

inline double lse(double a, double b) {
  if (a == NINF) return b;
  if (b == NINF) return a;
  double m = std::max(a, b);
  return m + std::log(std::exp(a - m) + std::exp(b - m));
}
inline bool close(double a, double b, double tol = TOL) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return false;
  return std::fabs(a - b) <= tol;
}

// ---------------------------------------------------------------- vtrees
struct VT {
  struct N {
    int l = -1, r = -1;  // children; -1 for leaves
    uint32_t var = 0;    // variable of a leaf
    int lo = 0, n = 0;   // span of leaves in left-to-right order
  };
  std::vector<N> nodes;
  int root = -1;
  std::vector<uint32_t> order;  // variables left to right
  int nvars() const { return (int)order.size(); }
  bool leaf(int v) const { return nodes[v].l < 0; }
  std::string str(int v) const {
    if (leaf(v)) return std::to_string(nodes[v].var);
    return "(" + str(nodes[v].l) + " " + str(nodes[v].r) + ")";
  }
  std::string str() const { return str(root); }
};

inline int vt_shape(Case &c, VT &t, int n, int kind) {
  VT::N nd;
  nd.lo = (int)t.order.size();
  nd.n = n;
  if (n == 1) {
    nd.var = 0;
    t.order.push_back(0);
    t.nodes.push_back(nd);
    return (int)t.nodes.size() - 1;
  }
  int left;
  switch (kind) {
    case 0: left = 1; break;            // right-linear
    case 1: left = n - 1; break;        // left-linear
    case 2: left = (n + 1) / 2; break;  // balanced
    case 5: left = n > 7 ? 7 : (n + 1) / 2; break;  // seven variables left of the root
    case 6: left = n > 9 ? 9 : (n + 1) / 2; break;  // nine
    case 7: left = n > 10 ? 1 : n > 9 ? 9 : (n + 1) / 2; break;  // nine left of the root's right child
    default: left = 1 + (int)c.draw((uint64_t)n - 1);
  }
  nd.l = vt_shape(c, t, left, kind);
  nd.r = vt_shape(c, t, n - left, kind);
  t.nodes.push_back(nd);
  return (int)t.nodes.size() - 1;
}
inline void vt_number(VT &t, const std::vector<uint32_t> &vars) {
  t.order = vars;
  for (auto &nd : t.nodes)
    if (nd.l < 0) nd.var = vars[(size_t)nd.lo];
}
// kinds of numbering: 1..n, a permutation of it, sparse distinct numbers.
inline std::vector<uint32_t> gen_vars(Case &c, int n, bool allow_sparse) {
  std::vector<uint32_t> v;
  uint64_t k = c.draw(allow_sparse ? 4 : 2);
  if (k <= 1) {
    for (int i = 1; i <= n; ++i) v.push_back((uint32_t)i);
    if (k == 1) c.shuffle(v);
  } else if (k == 2) {
    std::set<uint32_t> used;
    uint32_t cur = 0;
    for (int i = 0; i < n; ++i) {
      cur += 1 + (uint32_t)c.draw(std::min<uint64_t>(7, (uint64_t)((MAX_VAR - 1) / n)));
      v.push_back(cur);
    }
    c.shuffle(v);
    c.label("vars:gaps");
  } else {
    std::set<uint32_t> used;
    while ((int)v.size() < n) {
      uint32_t x = 1 + (uint32_t)c.draw(MAX_VAR - 1);
      if (c.draw(8) == 7) x = MAX_VAR - 1 - (uint32_t)c.draw(3);
      while (used.count(x)) x = x % (MAX_VAR - 1) + 1;
      used.insert(x);
      v.push_back(x);
    }
    c.label("vars:sparse");
  }
  return v;
}
const int WIDE = 8;     // variables from which a vtree may have 7 of them left of its root
const int WIDEST = 10;  // and 9 of them
inline VT gen_vtree(Case &c, int n, bool allow_sparse = true) {
  VT t;
  int kind = (int)c.draw(5);
  if (n >= WIDE && n <= WIDE + 3 && c.draw(4)) kind = n > WIDEST ? 7 : n == WIDEST ? 6 : 5;
  t.root = vt_shape(c, t, n, kind);
  vt_number(t, gen_vars(c, n, allow_sparse));
  return t;
}
inline VT gen_vtree_with_vars(Case &c, const std::vector<uint32_t> &vars) {
  VT t;
  int kind = (int)c.draw(5);
  t.root = vt_shape(c, t, (int)vars.size(), kind);
  vt_number(t, vars);
  return t;
}
inline Vtree *to_sdd_rec(const VT &t, int v) {
  if (t.leaf(v)) return new_leaf_vtree((SddLiteral)t.nodes[(size_t)v].var);
  Vtree *l = to_sdd_rec(t, t.nodes[(size_t)v].l);
  Vtree *r = to_sdd_rec(t, t.nodes[(size_t)v].r);
  return new_internal_vtree(l, r);
}
inline Vtree *to_sdd_vtree(const VT &t) {
  Vtree *v = to_sdd_rec(t, t.root);
  set_vtree_properties(v);
  return v;
}
inline PsddManager *make_manager(const VT &t) {
  Vtree *v = to_sdd_vtree(t);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
  return m;
}
// Maps model nodes to the nodes of an actual vtree of the same shape.
inline void zip(const VT &t, int v, Vtree *a, std::vector<Vtree *> &out) {
  out[(size_t)v] = a;
  if (t.leaf(v)) {
    PBT_REQUIRE(sdd_vtree_is_leaf(a), "vtree: leaf expected");
    PBT_REQUIRE((uint32_t)sdd_vtree_var(a) == t.nodes[(size_t)v].var, "vtree: variable %ld where %u expected", (long)sdd_vtree_var(a), t.nodes[(size_t)v].var);
  } else {
    PBT_REQUIRE(!sdd_vtree_is_leaf(a), "vtree: internal node expected");
    zip(t, t.nodes[(size_t)v].l, sdd_vtree_left(a), out);
    zip(t, t.nodes[(size_t)v].r, sdd_vtree_right(a), out);
  }
}
inline std::vector<Vtree *> zip(const VT &t, Vtree *a) {
  std::vector<Vtree *> out(t.nodes.size(), nullptr);
  zip(t, t.root, a, out);
  return out;
}
// Structural soundness of an actual vtree: in-order positions, parents, counts.
inline int check_vtree_rec(Vtree *v, Vtree *parent, SddLiteral &pos, std::vector<uint32_t> *order) {
  PBT_REQUIRE(sdd_vtree_parent(v) == parent, "vtree: wrong parent link");
  int n;
  if (sdd_vtree_is_leaf(v)) {
    PBT_REQUIRE(sdd_vtree_position(v) == pos, "vtree: leaf position %ld, expected %ld", (long)sdd_vtree_position(v), (long)pos);
    ++pos;
    order->push_back((uint32_t)sdd_vtree_var(v));
    n = 1;
  } else {
    n = check_vtree_rec(sdd_vtree_left(v), v, pos, order);
    PBT_REQUIRE(sdd_vtree_position(v) == pos, "vtree: node position %ld, expected %ld", (long)sdd_vtree_position(v), (long)pos);
    ++pos;
    n += check_vtree_rec(sdd_vtree_right(v), v, pos, order);
  }
  PBT_REQUIRE(sdd_vtree_var_count(v) == n, "vtree: var count %ld, expected %d", (long)sdd_vtree_var_count(v), n);
  return n;
}
inline std::vector<uint32_t> check_vtree(Vtree *root) {
  std::vector<uint32_t> order;
  SddLiteral pos = 0;
  check_vtree_rec(root, nullptr, pos, &order);
  return order;
}

// ---------------------------------------------------------------- tables
// A table over the variables of a vtree node: index bit i is the i-th leaf
// (left to right).  Values are logs of weights; NINF is zero.
using Table = std::vector<double>;
using Support = std::vector<uint8_t>;

inline Support support_of(const Table &t) {
  Support s(t.size());
  for (size_t i = 0; i < t.size(); ++i) s[i] = t[i] != NINF;
  return s;
}
inline double table_total(const Table &t) {
  double m = NINF;
  for (double x : t) m = std::max(m, x);
  if (m == NINF) return NINF;
  double s = 0;
  for (double x : t) s += std::exp(x - m);
  return m + std::log(s);
}
inline std::string bits(uint64_t x, int n) {
  std::string s;
  for (int i = 0; i < n; ++i) s += ((x >> i) & 1) ? '1' : '0';
  return s;
}
inline std::bitset<MAX_VAR> to_bitset(uint64_t x, const std::vector<uint32_t> &order) {
  std::bitset<MAX_VAR> b;
  for (size_t i = 0; i < order.size(); ++i)
    if ((x >> i) & 1) b.set(order[i]);
  return b;
}
inline std::bitset<MAX_VAR> mask_of(const std::vector<uint32_t> &order) {
  std::bitset<MAX_VAR> b;
  for (auto v : order) b.set(v);
  return b;
}

// ---------------------------------------------------------------- random supports
inline Support gen_support(Case &c, int n) {
  size_t N = (size_t)1 << n;
  Support s(N, 0);
  switch (c.draw(9)) {
    case 0:
      std::fill(s.begin(), s.end(), 1);
      break;
    case 1: {  // conjunction of random clauses
      std::fill(s.begin(), s.end(), 1);
      int m = 1 + (int)c.draw((uint64_t)n + 2);
      for (int k = 0; k < m; ++k) {
        int len = 1 + (int)c.draw(3);
        uint64_t pos = 0, neg = 0;
        for (int j = 0; j < len; ++j) {
          uint64_t b = 1ull << c.draw((uint64_t)n);
          if (c.flip()) neg |= b; else pos |= b;
        }
        for (size_t i = 0; i < N; ++i)
          if (!((i & pos) || (~i & neg))) s[i] = 0;
      }
      break;
    }
    case 2: {  // random subset
      for (size_t i = 0; i < N; i += 16) {
        uint64_t w = c.draw(65536);
        for (size_t j = 0; j < 16 && i + j < N; ++j) s[i + j] = (w >> j) & 1;
      }
      break;
    }
    case 3: {  // sparse
      int m = 1 + (int)c.draw(4);
      for (int k = 0; k < m; ++k) s[c.draw(N)] = 1;
      break;
    }
    case 4: {  // dense
      std::fill(s.begin(), s.end(), 1);
      int m = 1 + (int)c.draw(4);
      for (int k = 0; k < m; ++k) s[c.draw(N)] = 0;
      break;
    }
    case 5: {  // cardinality
      int k = (int)c.draw((uint64_t)n + 1), how = (int)c.draw(3);
      for (size_t i = 0; i < N; ++i) {
        int p = __builtin_popcountll(i);
        s[i] = how == 0 ? p == k : how == 1 ? p <= k : p >= k;
      }
      break;
    }
    case 6: {  // parity of a random subset
      uint64_t m = c.draw(N), par = c.draw(2);
      for (size_t i = 0; i < N; ++i) s[i] = (uint64_t)(__builtin_popcountll(i & m) & 1) == par;
      break;
    }
    case 7: {  // a cube
      uint64_t m = c.draw(N), v = c.draw(N);
      for (size_t i = 0; i < N; ++i) s[i] = ((i ^ v) & m) == 0;
      break;
    }
    default: {  // one model
      s[c.draw(N)] = 1;
    }
  }
  bool any = false;
  for (auto b : s) any |= b;
  if (!any) s[c.draw(N)] = 1;
  return s;
}

// ---------------------------------------------------------------- random parameters
struct ParamStyle {
  int kind = 0;        // 0 integers, 1 equal, 2 extreme, 3 near-equal, 4 mixed, 5 down to 1e-300
  bool zeros = false;  // allow zero parameters
};
inline ParamStyle gen_style(Case &c, bool allow_zeros) {
  ParamStyle s;
  s.kind = (int)c.draw(11) / 2;
  s.zeros = allow_zeros && c.chance(1, 4);
  return s;
}
// k positive (or zero) weights, at least one positive; returns normalised logs.
inline std::vector<double> gen_params(Case &c, size_t k, const ParamStyle &st) {
  std::vector<double> w(k);
  for (size_t i = 0; i < k; ++i) {
    int kind = st.kind == 4 ? (int)c.draw(4) : st.kind == 5 ? (int)(c.draw(3) == 2 ? 5 : 0) : st.kind;
    switch (kind) {
      case 0: w[i] = 1.0 + (double)c.draw(32); break;
      case 1: w[i] = 1.0; break;
      case 2: w[i] = std::pow(10.0, -(double)c.draw(13)) * (1.0 + (double)c.draw(8)); break;
      case 5: w[i] = std::pow(10.0, -20.0 * (double)c.draw(16)) * (1.0 + (double)c.draw(8)); break;
      default: {
        static const double eps[] = {0, 1e-9, 1e-8, 3e-7, 1e-5, 1e-3};
        w[i] = 1.0 + eps[c.draw(6)];
      }
    }
  }
  if (st.zeros && k > 1) {
    for (size_t i = 0; i < k; ++i)
      if (c.chance(1, 4)) w[i] = 0;
    bool any = false;
    for (double x : w) any |= x > 0;
    if (!any) w[c.draw(k)] = 1;
  }
  double s = 0;
  for (double x : w) s += x;
  for (auto &x : w) x = std::log(x / s);
  return w;
}
inline PsddParameter P(double log) { return PsddParameter::CreateFromLog(log); }
inline uintmax_t gen_flag(Case &c) {
  static const uintmax_t f[] = {0, 1, 2, 7, 1ull << 32, 1ull << 63, UINTMAX_MAX};
  return f[c.draw(7)];
}

// Another flag than f.
inline uintmax_t another_flag(Case &c, uintmax_t f) {
  uintmax_t g = gen_flag(c);
  return g == f ? f + 1 : g;
}

// ---------------------------------------------------------------- ground-truth PSDDs
struct Built {
  PsddNode *node = nullptr;
  Table t;  // over the leaves of its vtree node
};
struct Builder {
  Case &c;
  const VT &vt;
  PsddManager *m;
  uintmax_t flag;
  ParamStyle style;
  bool split = false;   // sometimes use uncompressed partitions
  bool single = false;  // one alternative per assignment of the left variables
  double rare = 0;      // probability of all but one alternative of a decision, if not 0
  int reuse = 1;        // reuse of equal-support parts out of 4
  size_t nodes_made = 0;
  std::map<std::pair<int, Support>, std::vector<Built>> cache;
  Builder(Case &cc, const VT &v, PsddManager *mm, uintmax_t f) : c(cc), vt(v), m(mm), flag(f) {}

  Built build(int v, const Support &s) {
    auto key = std::make_pair(v, s);
    auto it = cache.find(key);
    if (it != cache.end() && c.draw(4) < (uint64_t)reuse) return it->second[c.draw(it->second.size())];
    Built b = fresh(v, s);
    ++nodes_made;
    cache[key].push_back(b);
    return b;
  }
  Built fresh(int v, const Support &s) {
    const auto &nd = vt.nodes[(size_t)v];
    Built b;
    if (vt.leaf(v)) {
      if (s[0] && s[1]) {
        auto w = gen_params(c, 2, style);
        b.node = m->GetPsddTopNode(nd.var, flag, P(w[1]), P(w[0]));
        b.t = {w[0], w[1]};
      } else {
        b.node = m->GetPsddLiteralNode(s[1] ? (int32_t)nd.var : -(int32_t)nd.var, flag);
        b.t = {s[0] ? 0.0 : NINF, s[1] ? 0.0 : NINF};
      }
      return b;
    }
    int nl = vt.nodes[(size_t)nd.l].n, nr = vt.nodes[(size_t)nd.r].n;
    size_t NL = (size_t)1 << nl, NR = (size_t)1 << nr;
    std::map<Support, std::vector<size_t>> groups;
    for (size_t a = 0; a < NL; ++a) {
      Support r(NR);
      bool any = false;
      for (size_t d = 0; d < NR; ++d) {
        r[d] = s[a | (d << nl)];
        any |= r[d];
      }
      if (any) groups[r].push_back(a);
    }
    std::vector<std::pair<Support, Support>> els;
    for (auto &g : groups) {
      if (single && NL <= 512) {
        for (size_t a : g.second) {
          Support p(NL, 0);
          p[a] = 1;
          els.push_back({p, g.first});
        }
      } else if (split && g.second.size() > 1 && c.flip()) {
        // split the group into up to three parts
        std::vector<Support> parts(3, Support(NL, 0));
        for (size_t a : g.second) parts[c.draw(3)][a] = 1;
        for (auto &p : parts) {
          bool any = false;
          for (auto x : p) any |= x;
          if (any) els.push_back({p, g.first});
        }
      } else {
        Support p(NL, 0);
        for (size_t a : g.second) p[a] = 1;
        els.push_back({p, g.first});
      }
    }
    c.shuffle(els);
    auto w = gen_params(c, els.size(), style);
    if (rare > 0) {
      size_t k = c.draw(els.size());
      for (size_t i = 0; i < w.size(); ++i) w[i] = i == k ? std::log1p(-rare * (double)(w.size() - 1)) : std::log(rare);
    }
    std::vector<PsddNode *> pr, su;
    std::vector<PsddParameter> pa;
    b.t.assign((size_t)1 << nd.n, NINF);
    for (size_t i = 0; i < els.size(); ++i) {
      Built x = build(nd.l, els[i].first), y = build(nd.r, els[i].second);
      pr.push_back(x.node);
      su.push_back(y.node);
      pa.push_back(P(w[i]));
      for (size_t a = 0; a < NL; ++a) {
        if (x.t[a] == NINF) continue;
        for (size_t d = 0; d < NR; ++d) b.t[a | (d << nl)] = lse(b.t[a | (d << nl)], w[i] + x.t[a] + y.t[d]);
      }
    }
    b.node = m->GetConformedPsddDecisionNode(pr, su, pa, flag);
    return b;
  }
};
inline Built gen_psdd(Case &c, const VT &vt, PsddManager *m, uintmax_t flag, bool allow_zeros, const Support *sup = nullptr) {
  Builder b(c, vt, m, flag);
  b.style = gen_style(c, allow_zeros);
  b.split = c.chance(1, 4);
  b.single = vt.nvars() >= WIDEST ? c.flip() : vt.nvars() >= WIDE ? c.chance(1, 3) : c.chance(1, 20);
  if (b.single) c.label("one alternative per left assignment");
  if (b.single && vt.nvars() >= WIDEST) c.label("hundreds of alternatives");
  b.reuse = (int)c.draw(4);
  Support s = sup ? *sup : gen_support(c, vt.nvars());
  if (!sup && b.single && vt.nvars() >= WIDEST && c.flip())
    for (auto &x : s) x |= c.draw(8) != 0;
  Built r = b.build(vt.root, s);
  return r;
}

// ---------------------------------------------------------------- independent reading
// Distribution denoted by a node, computed only through the node accessors.
struct Reader {
  std::unordered_map<const PsddNode *, Table> memo;
  std::unordered_map<const PsddNode *, Support> smemo;
  static void span(Vtree *v, int &n) { n = (int)sdd_vtree_var_count(v); }
  const Table &table(PsddNode *x) {
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    Table t;
    if (x->node_type() == LITERAL_NODE_TYPE) {
      bool s = x->psdd_literal_node()->sign();
      t = {s ? NINF : 0.0, s ? 0.0 : NINF};
    } else if (x->node_type() == TOP_NODE_TYPE) {
      auto q = x->psdd_top_node();
      t = {q->false_parameter().parameter(), q->true_parameter().parameter()};
    } else {
      auto d = x->psdd_decision_node();
      int nl = (int)sdd_vtree_var_count(sdd_vtree_left(x->vtree_node()));
      int n = (int)sdd_vtree_var_count(x->vtree_node());
      t.assign((size_t)1 << n, NINF);
      for (size_t i = 0; i < d->primes().size(); ++i) {
        const Table a = table(d->primes()[i]);
        const Table &b = table(d->subs()[i]);
        double w = d->parameters()[i].parameter();
        if (w == NINF) continue;
        PBT_REQUIRE(a.size() == (size_t)1 << nl && a.size() * b.size() == t.size(), "decision node: a child does not range over its side of the vtree");
        for (size_t p = 0; p < a.size(); ++p) {
          if (a[p] == NINF) continue;
          for (size_t q = 0; q < b.size(); ++q) t[p | (q << nl)] = lse(t[p | (q << nl)], w + a[p] + b[q]);
        }
      }
    }
    return memo[x] = t;
  }
  // Assignments accepted by the structure, whatever the parameters.
  const Support &support(PsddNode *x) {
    auto it = smemo.find(x);
    if (it != smemo.end()) return it->second;
    Support t;
    if (x->node_type() == LITERAL_NODE_TYPE) {
      bool s = x->psdd_literal_node()->sign();
      t = {(uint8_t)!s, (uint8_t)s};
    } else if (x->node_type() == TOP_NODE_TYPE) {
      t = {1, 1};
    } else {
      auto d = x->psdd_decision_node();
      int nl = (int)sdd_vtree_var_count(sdd_vtree_left(x->vtree_node()));
      int n = (int)sdd_vtree_var_count(x->vtree_node());
      t.assign((size_t)1 << n, 0);
      for (size_t i = 0; i < d->primes().size(); ++i) {
        const Support a = support(d->primes()[i]);
        const Support &b = support(d->subs()[i]);
        PBT_REQUIRE(a.size() == (size_t)1 << nl && a.size() * b.size() == t.size(), "decision node: a child does not range over its side of the vtree");
        for (size_t p = 0; p < a.size(); ++p)
          if (a[p])
            for (size_t q = 0; q < b.size(); ++q)
              if (b[q]) t[p | (q << nl)] = 1;
      }
    }
    return smemo[x] = t;
  }
};
inline Table read_table(PsddNode *x) { return Reader().table(x); }
inline Support read_support(PsddNode *x) { return Reader().support(x); }

inline void same_table(const Table &got, const Table &want, int n, const char *what, double tol = TOL) {
  PBT_REQUIRE(got.size() == want.size(), "%s: ranges over %zu assignments, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    PBT_REQUIRE(close(got[i], want[i], tol), "%s: assignment %s has log weight %.9g, expected %.9g", what, bits(i, n).c_str(), got[i], want[i]);
}
inline void same_support(const Support &got, const Support &want, int n, const char *what) {
  PBT_REQUIRE(got.size() == want.size(), "%s: ranges over %zu assignments, expected %zu", what, got.size(), want.size());
  for (size_t i = 0; i < got.size(); ++i)
    PBT_REQUIRE(!!got[i] == !!want[i], "%s: assignment %s is %s, expected %s", what, bits(i, n).c_str(), got[i] ? "accepted" : "rejected", want[i] ? "accepted" : "rejected");
}

// All nodes reachable from a root (independent traversal, by pointer).
inline std::vector<PsddNode *> all_nodes(const std::vector<PsddNode *> &roots) {
  std::vector<PsddNode *> out, st;
  std::unordered_set<PsddNode *> seen;
  for (auto r : roots)
    if (seen.insert(r).second) st.push_back(r);
  while (!st.empty()) {
    PsddNode *x = st.back();
    st.pop_back();
    out.push_back(x);
    if (auto d = x->psdd_decision_node()) {
      for (auto y : d->primes())
        if (seen.insert(y).second) st.push_back(y);
      for (auto y : d->subs())
        if (seen.insert(y).second) st.push_back(y);
    }
  }
  return out;
}

// Now and then, a copy of the nodes below the roots in which node indices are far apart
// or large (a manager numbers its nodes for as long as it lives); everything else, also
// the order of the indices, stays.
inline void renumber(Case &c, std::vector<PsddNode *> &roots, int in = 12) {
  if (!c.chance(1, (uint64_t)in)) return;
  const std::vector<uintmax_t> bases{0, 65530, ((uintmax_t)1 << 31) - 3, ((uintmax_t)1 << 32) - 3, (uintmax_t)1 << 63};
  const std::vector<uintmax_t> strides{1, (uintmax_t)1 << 8, (uintmax_t)1 << 16, (uintmax_t)1 << 32, ((uintmax_t)1 << 31) + 1, 1000003};
  uintmax_t next = c.pick(bases), step = c.pick(strides);
  c.label("node indices far apart");
  c.note("node indices %ju, %ju, ...\n", next, next + step);
  auto all = all_nodes(roots);
  std::sort(all.begin(), all.end(), [](PsddNode *a, PsddNode *b) { return a->node_index() < b->node_index(); });
  std::unordered_map<PsddNode *, PsddNode *> copy;
  for (auto x : all) {
    PsddNode *y;
    if (auto d = x->psdd_decision_node()) {
      std::vector<PsddNode *> pr, su;
      for (auto p : d->primes()) pr.push_back(copy.at(p));
      for (auto q : d->subs()) su.push_back(copy.at(q));
      y = new PsddDecisionNode(next, x->vtree_node(), x->flag_index(), pr, su, d->parameters());
    } else if (auto t = x->psdd_top_node()) {
      y = new PsddTopNode(next, x->vtree_node(), x->flag_index(), t->variable_index(), t->true_parameter(), t->false_parameter());
    } else {
      y = new PsddLiteralNode(next, x->vtree_node(), x->flag_index(), x->psdd_literal_node()->literal());
    }
    copy[x] = y;
    next += step;
  }
  for (auto &r : roots) r = copy.at(r);
}
inline PsddNode *renumbered(Case &c, PsddNode *x, int in = 12) {
  std::vector<PsddNode *> r{x};
  renumber(c, r, in);
  return r[0];
}

struct WfOptions {
  bool flags = true;
  uintmax_t flag = 0;
  bool normalised = false;
  bool positive = false;
};
// Structural well-formedness of everything below root, which must sit at vtree v.
inline void check_wellformed(PsddNode *root, Vtree *v, const WfOptions &o, const char *what) {
  PBT_REQUIRE(root->vtree_node() == v, "%s: root is not at the expected vtree node", what);
  Reader r;
  for (PsddNode *x : all_nodes({root})) {
    Vtree *xv = x->vtree_node();
    if (o.flags) PBT_REQUIRE(x->flag_index() == o.flag, "%s: a node carries flag %ju, expected %ju", what, x->flag_index(), o.flag);
    if (x->node_type() == LITERAL_NODE_TYPE) {
      auto l = x->psdd_literal_node();
      PBT_REQUIRE(l && sdd_vtree_is_leaf(xv) && (uint32_t)sdd_vtree_var(xv) == l->variable_index(), "%s: literal not at the leaf of its variable", what);
      PBT_REQUIRE((uint32_t)std::abs(l->literal()) == l->variable_index() && (l->literal() > 0) == l->sign(), "%s: literal accessors disagree", what);
    } else if (x->node_type() == TOP_NODE_TYPE) {
      auto t = x->psdd_top_node();
      PBT_REQUIRE(t && sdd_vtree_is_leaf(xv) && (uint32_t)sdd_vtree_var(xv) == t->variable_index(), "%s: top node not at the leaf of its variable", what);
      double a = t->true_parameter().parameter(), b = t->false_parameter().parameter();
      if (o.normalised) PBT_REQUIRE(close(lse(a, b), 0.0, 1e-6), "%s: a top node's parameters sum to exp(%.9g)", what, lse(a, b));
      if (o.positive) PBT_REQUIRE(a != NINF && b != NINF, "%s: a top node has a zero parameter", what);
    } else {
      auto d = x->psdd_decision_node();
      PBT_REQUIRE(d && x->node_type() == DECISION_NODE_TYPE, "%s: unknown node type %d", what, x->node_type());
      PBT_REQUIRE(!sdd_vtree_is_leaf(xv), "%s: decision node at a leaf", what);
      size_t k = d->primes().size();
      PBT_REQUIRE(k > 0 && d->subs().size() == k && d->parameters().size() == k, "%s: decision node with %zu/%zu/%zu primes/subs/parameters", what, k, d->subs().size(), d->parameters().size());
      double sum = NINF;
      std::vector<uint8_t> seen;
      for (size_t i = 0; i < k; ++i) {
        PBT_REQUIRE(d->primes()[i]->vtree_node() == sdd_vtree_left(xv), "%s: a left part is not at the left child of its vtree node", what);
        PBT_REQUIRE(d->subs()[i]->vtree_node() == sdd_vtree_right(xv), "%s: a right part is not at the right child of its vtree node", what);
        double w = d->parameters()[i].parameter();
        PBT_REQUIRE(!std::isnan(w), "%s: a parameter is not a number", what);
        if (o.positive) PBT_REQUIRE(w != NINF, "%s: a parameter is zero", what);
        sum = lse(sum, w);
        if (sdd_vtree_var_count(sdd_vtree_left(xv)) <= 12) {
          const Support &s = r.support(d->primes()[i]);
          if (seen.empty()) seen.assign(s.size(), 0);
          bool any = false;
          for (size_t a = 0; a < s.size(); ++a)
            if (s[a]) {
              PBT_REQUIRE(!seen[a], "%s: two left parts of a decision node overlap", what);
              seen[a] = 1;
              any = true;
            }
          PBT_REQUIRE(any, "%s: a left part is unsatisfiable", what);
        }
      }
      if (o.normalised) PBT_REQUIRE(close(sum, 0.0, 1e-6), "%s: a decision node's parameters sum to exp(%.9g)", what, sum);
    }
  }
}

// A deep snapshot of a PSDD: nodes, identities and parameters.
inline std::string fingerprint(PsddNode *root) {
  std::string s;
  std::unordered_map<PsddNode *, size_t> id;
  std::vector<PsddNode *> q{root};
  id[root] = 0;
  for (size_t i = 0; i < q.size(); ++i) {
    PsddNode *x = q[i];
    s += fmt("[%p %ju %ju %d %p ", (void *)x, x->node_index(), x->flag_index(), x->node_type(), (void *)x->vtree_node());
    if (auto l = x->psdd_literal_node()) s += fmt("%d", l->literal());
    if (auto t = x->psdd_top_node()) s += fmt("%u %a %a", t->variable_index(), t->true_parameter().parameter(), t->false_parameter().parameter());
    if (auto d = x->psdd_decision_node()) {
      for (size_t k = 0; k < d->primes().size(); ++k) {
        PsddNode *a = d->primes()[k], *b = d->subs()[k];
        for (PsddNode *y : {a, b})
          if (id.emplace(y, q.size()).second) q.push_back(y);
        s += fmt("(%zu %zu %a)", id[a], id[b], d->parameters()[k].parameter());
      }
    }
    s += "]\n";
  }
  return s;
}

// ---------------------------------------------------------------- Boolean functions as SDDs
struct Fn {
  SddNode *node;
  Support t;  // over SDD variables 1..n, bit i = variable i+1
};
// A random formula over variables 1..n built through the SDD package together
// with its truth table.
inline Fn gen_sdd(Case &c, SddManager *m, int n) {
  size_t N = (size_t)1 << n;
  auto lit = [&](int v, bool s) {
    Fn f{sdd_manager_literal(s ? v : -v, m), Support(N)};
    for (size_t i = 0; i < N; ++i) f.t[i] = (((i >> (v - 1)) & 1) == (size_t)s);
    return f;
  };
  auto comb = [&](const Fn &a, const Fn &b, int op) {
    Fn f{op ? sdd_disjoin(a.node, b.node, m) : sdd_conjoin(a.node, b.node, m), Support(N)};
    for (size_t i = 0; i < N; ++i) f.t[i] = op ? (a.t[i] | b.t[i]) : (a.t[i] & b.t[i]);
    return f;
  };
  switch (c.draw(8)) {
    case 0: {  // literals and constants
      uint64_t k = c.draw((uint64_t)(2 * n) + 2);
      if (k < (uint64_t)(2 * n)) return lit((int)(k / 2) + 1, k % 2 == 0);
      if (k == (uint64_t)(2 * n)) return Fn{sdd_manager_true(m), Support(N, 1)};
      return Fn{sdd_manager_false(m), Support(N, 0)};
    }
    case 1:
    case 2: {  // exactly a random support
      Support s = gen_support(c, n);
      // build by Shannon expansion over blocks of minterms (n is small)
      std::vector<SddNode *> layer(N);
      for (size_t i = 0; i < N; ++i) layer[i] = s[i] ? sdd_manager_true(m) : sdd_manager_false(m);
      for (int v = n; v >= 1; --v) {  // bit v-1 is the highest remaining
        size_t half = layer.size() / 2;
        std::vector<SddNode *> nx(half);
        for (size_t i = 0; i < half; ++i) {
          SddNode *lo = sdd_conjoin(sdd_manager_literal(-v, m), layer[i], m);
          SddNode *hi = sdd_conjoin(sdd_manager_literal(v, m), layer[i + half], m);
          nx[i] = sdd_disjoin(lo, hi, m);
        }
        layer = nx;
      }
      return Fn{layer[0], s};
    }
    default: {  // random circuit
      std::vector<Fn> pool;
      for (int v = 1; v <= n; ++v) pool.push_back(lit(v, true));
      int steps = 1 + (int)c.draw(12);
      for (int k = 0; k < steps; ++k) {
        Fn a = pool[pool.size() - 1 - c.draw(pool.size())];
        Fn b = pool[c.draw(pool.size())];
        if (c.flip()) {
          b.node = sdd_negate(b.node, m);
          for (auto &x : b.t) x = !x;
        }
        pool.push_back(comb(a, b, (int)c.draw(2)));
      }
      return pool.back();
    }
  }
}

// ---------------------------------------------------------------- environments
inline int gen_n(Case &c, int quick_max, int thorough_max) {
  int m = c.thorough ? thorough_max : quick_max;
  // now and then enough variables for a decision node of more than a hundred alternatives
  if (m >= 4 && m < WIDE && c.chance(1, 250)) return WIDE;
  if (m >= 4 && m < WIDEST && c.chance(1, 600)) return WIDEST;
  return 1 + (int)c.draw((uint64_t)m);
}
struct Env {  // a manager over a generated vtree
  VT vt;
  PsddManager *m = nullptr;
  std::vector<Vtree *> vn;  // model vtree node -> actual vtree node
  Env(Case &c, int n, bool sparse = true) : vt(gen_vtree(c, n, sparse)) { init(); }
  explicit Env(const VT &t) : vt(t) { init(); }
  Env(const Env &) = delete;
  ~Env() { delete m; }
  int n() const { return vt.nvars(); }
  void init() {
    m = make_manager(vt);
    vn = zip(vt, m->vtree());
  }
  // the model vtree node of an actual one
  int model_of(Vtree *v) const {
    for (size_t i = 0; i < vn.size(); ++i)
      if (vn[i] == v) return (int)i;
    pbt::fail("node at a foreign vtree node");
  }
  std::vector<uint32_t> order_of(int v) const {
    const auto &nd = vt.nodes[(size_t)v];
    return std::vector<uint32_t>(vt.order.begin() + nd.lo, vt.order.begin() + nd.lo + nd.n);
  }
};
inline std::string show_table(const Table &t, int n) {
  std::string s;
  if (n > 4) return fmt("(2^%d entries, total %.6g)", n, std::exp(table_total(t)));
  for (size_t i = 0; i < t.size(); ++i)
    if (t[i] != NINF) s += fmt("%s:%.6g ", bits(i, n).c_str(), std::exp(t[i]));
  return s;
}
inline std::string show_vars(const std::vector<uint32_t> &o) {
  std::string s;
  for (auto v : o) s += std::to_string(v) + " ";
  return s;
}
inline size_t count_support(const Support &s) {
  size_t k = 0;
  for (auto b : s) k += b ? 1 : 0;
  return k;
}

// Pairs every node of a structure with its counterpart in a re-parameterised copy:
// elements correspond when their left parts accept the same assignments.  The
// correspondence must be a function of the node.
struct Matcher {
  Reader r;
  std::unordered_map<PsddNode *, PsddNode *> map;
  const char *what;
  explicit Matcher(const char *w) : what(w) {}
  // index in y of the element matching element i of x
  std::vector<size_t> align(PsddDecisionNode *x, PsddDecisionNode *y) {
    PBT_REQUIRE(x->primes().size() == y->primes().size(), "%s: a decision with %zu alternatives became one with %zu", what, x->primes().size(), y->primes().size());
    std::map<Support, size_t> at;
    for (size_t i = 0; i < y->primes().size(); ++i) at[r.support(y->primes()[i])] = i;
    std::vector<size_t> out;
    for (size_t i = 0; i < x->primes().size(); ++i) {
      auto it = at.find(r.support(x->primes()[i]));
      PBT_REQUIRE(it != at.end(), "%s: an alternative of a decision is missing", what);
      out.push_back(it->second);
    }
    return out;
  }
  void match(PsddNode *x, PsddNode *y) {
    auto it = map.find(x);
    if (it != map.end()) {
      PBT_REQUIRE(it->second == y, "%s: one node of the structure has two different counterparts", what);
      return;
    }
    map[x] = y;
    PBT_REQUIRE(x->node_type() == y->node_type(), "%s: a node of type %d became one of type %d", what, x->node_type(), y->node_type());
    PBT_REQUIRE(sdd_vtree_position(x->vtree_node()) == sdd_vtree_position(y->vtree_node()), "%s: a node moved in the vtree", what);
    if (x->node_type() == LITERAL_NODE_TYPE) {
      PBT_REQUIRE(x->psdd_literal_node()->literal() == y->psdd_literal_node()->literal(), "%s: a literal changed", what);
    } else if (x->node_type() == TOP_NODE_TYPE) {
      PBT_REQUIRE(x->psdd_top_node()->variable_index() == y->psdd_top_node()->variable_index(), "%s: a variable changed", what);
    } else {
      auto dx = x->psdd_decision_node(), dy = y->psdd_decision_node();
      auto al = align(dx, dy);
      for (size_t i = 0; i < al.size(); ++i) {
        match(dx->primes()[i], dy->primes()[al[i]]);
        match(dx->subs()[i], dy->subs()[al[i]]);
      }
    }
  }
};
// A PSDD for structural tests: generated with parameters, or converted from a
// Boolean function (all weights 1).
inline PsddNode *gen_structure(Case &c, Env &e, uintmax_t flag) {
  int n = e.n();
  Support s = gen_support(c, n);
  if (c.draw(3) != 2) return gen_psdd(c, e.vt, e.m, flag, true, &s).node;
  VT sv = e.vt;
  std::vector<uint32_t> ids;
  for (int i = 1; i <= n; ++i) ids.push_back((uint32_t)i);
  vt_number(sv, ids);
  Vtree *v = to_sdd_vtree(sv);
  SddManager *sm = sdd_manager_new(v);
  sdd_vtree_free(v);
  sdd_manager_auto_gc_and_minimize_off(sm);
  Fn f = gen_sdd(c, sm, n);
  PsddNode *x = e.m->ConvertSddToPsdd(f.node, sdd_manager_vtree(sm), flag);
  sdd_manager_free(sm);
  c.label("structure from an SDD");
  if (!x) return gen_psdd(c, e.vt, e.m, flag, true, &s).node;
  return x;
}

// ---------------------------------------------------------------- refined vtrees
// A vtree with up to extra additional variables whose projection onto the variables
// of a is a (below node v of a).  image[x] is the new node standing for node x of a.
struct Refined {
  VT vt;
  std::vector<int> image;
};
struct Refiner {
  struct N {
    int l = -1, r = -1, src = -1;
    uint32_t var = 0;
  };
  Case &c;
  const VT &a;
  std::vector<N> t;
  std::vector<uint32_t> fresh;  // unused numbers
  size_t used = 0;
  int insertions;
  Refiner(Case &cc, const VT &aa, int ins) : c(cc), a(aa), insertions(ins) {
    std::set<uint32_t> have(a.order.begin(), a.order.end());
    uint32_t x = 1;
    while ((int)fresh.size() < ins * 2) {
      if (!have.count(x)) fresh.push_back(x);
      x = x % (MAX_VAR - 1) + 1;
    }
    c.shuffle(fresh);
  }
  int add(int l, int r, int src, uint32_t var) {
    N n;
    n.l = l;
    n.r = r;
    n.src = src;
    n.var = var;
    t.push_back(n);
    return (int)t.size() - 1;
  }
  int extra() {
    int x = add(-1, -1, -1, fresh[used++]);
    if (used < fresh.size() && c.draw(3) == 2) {
      int y = add(-1, -1, -1, fresh[used++]);
      return add(x, y, -1, 0);
    }
    return x;
  }
  int copy(int v, const std::multiset<int> &at) {
    int me = a.leaf(v) ? add(-1, -1, v, a.nodes[(size_t)v].var) : -1;
    if (me < 0) {
      int l = copy(a.nodes[(size_t)v].l, at), r = copy(a.nodes[(size_t)v].r, at);
      me = add(l, r, v, 0);
    }
    for (size_t k = at.count(v); k > 0 && used < fresh.size(); --k) {
      int e = extra();
      me = c.flip() ? add(e, me, -1, 0) : add(me, e, -1, 0);
    }
    return me;
  }
  int emit(int x, Refined &o) {
    VT::N nd;
    nd.lo = (int)o.vt.order.size();
    if (t[(size_t)x].l < 0) {
      nd.var = t[(size_t)x].var;
      nd.n = 1;
      o.vt.order.push_back(nd.var);
    } else {
      nd.l = emit(t[(size_t)x].l, o);
      nd.r = emit(t[(size_t)x].r, o);
      nd.n = (int)o.vt.order.size() - nd.lo;
    }
    o.vt.nodes.push_back(nd);
    int i = (int)o.vt.nodes.size() - 1;
    if (t[(size_t)x].src >= 0) o.image[(size_t)t[(size_t)x].src] = i;
    return i;
  }
  void below(int v, std::vector<int> &out) {
    out.push_back(v);
    if (!a.leaf(v)) {
      below(a.nodes[(size_t)v].l, out);
      below(a.nodes[(size_t)v].r, out);
    }
  }
  Refined run(int v) {
    Refined o;
    o.image.assign(a.nodes.size(), -1);
    std::vector<int> nodes;
    below(v, nodes);
    std::multiset<int> at;
    for (int i = 0; i < insertions; ++i) at.insert(nodes[c.draw(nodes.size())]);
    o.vt.root = emit(copy(v, at), o);
    return o;
  }
};
// every ancestor-or-self of node v of a vtree, from v up
inline std::vector<int> ancestors(const VT &t, int v) {
  std::vector<int> out{v};
  while (out.back() != t.root) {
    for (size_t i = 0; i < t.nodes.size(); ++i)
      if (t.nodes[i].l == out.back() || t.nodes[i].r == out.back()) {
        out.push_back((int)i);
        break;
      }
  }
  return out;
}
// the table over `order`, a superset of `inner`, ignoring the other variables
inline Table extend_table(const Table &t, const std::vector<uint32_t> &inner, const std::vector<uint32_t> &order) {
  std::map<uint32_t, size_t> at;
  for (size_t i = 0; i < order.size(); ++i) at[order[i]] = i;
  Table r((size_t)1 << order.size());
  for (size_t a = 0; a < r.size(); ++a) {
    size_t x = 0;
    for (size_t i = 0; i < inner.size(); ++i)
      if ((a >> at.at(inner[i])) & 1) x |= (size_t)1 << i;
    r[a] = t[x];
  }
  return r;
}

// ---------------------------------------------------------------- SDD helpers
// An SDD manager over a vtree of the shape below node v of a model vtree, with
// SDD variables 1..n assigned to the leaves by ids.
struct SddEnv {
  SddManager *m = nullptr;
  std::vector<uint32_t> ids;  // SDD variable of every leaf, left to right
  int n = 0;
  SddEnv() = default;
  SddEnv(const SddEnv &) = delete;
  ~SddEnv() {
    if (m) sdd_manager_free(m);
  }
  static Vtree *copy(const VT &t, int v, int lo, const std::vector<uint32_t> &ids) {
    if (t.leaf(v)) return new_leaf_vtree((SddLiteral)ids[(size_t)(t.nodes[(size_t)v].lo - lo)]);
    Vtree *l = copy(t, t.nodes[(size_t)v].l, lo, ids);
    Vtree *r = copy(t, t.nodes[(size_t)v].r, lo, ids);
    return new_internal_vtree(l, r);
  }
  void init(Case &c, const VT &t, int v) {
    n = t.nodes[(size_t)v].n;
    for (int i = 1; i <= n; ++i) ids.push_back((uint32_t)i);
    if (c.flip()) c.shuffle(ids);
    Vtree *x = copy(t, v, t.nodes[(size_t)v].lo, ids);
    set_vtree_properties(x);
    m = sdd_manager_new(x);
    sdd_vtree_free(x);
    sdd_manager_auto_gc_and_minimize_off(m);
  }
  Vtree *vtree() const { return sdd_manager_vtree(m); }
  // from bit = SDD variable - 1 to bit = leaf position
  Support to_leaves(const Support &s) const {
    Support r(s.size());
    for (size_t a = 0; a < s.size(); ++a) {
      size_t x = 0;
      for (int j = 0; j < n; ++j)
        if ((a >> j) & 1) x |= (size_t)1 << (ids[(size_t)j] - 1);
      r[a] = s[x];
    }
    return r;
  }
};
// Truth table of an SDD over variables 1..n, read from its elements.
inline const Support &sdd_table(SddNode *x, int n, std::map<SddNode *, Support> &memo) {
  auto it = memo.find(x);
  if (it != memo.end()) return it->second;
  size_t N = (size_t)1 << n;
  Support t(N, 0);
  if (sdd_node_is_true(x)) {
    t.assign(N, 1);
  } else if (sdd_node_is_literal(x)) {
    SddLiteral l = sdd_node_literal(x);
    for (size_t a = 0; a < N; ++a) t[a] = ((a >> (std::labs(l) - 1)) & 1) == (size_t)(l > 0);
  } else if (sdd_node_is_decision(x)) {
    SddNode **el = sdd_node_elements(x);
    for (SddSize i = 0; i < sdd_node_size(x); ++i) {
      Support p = sdd_table(el[2 * i], n, memo);
      const Support &s = sdd_table(el[2 * i + 1], n, memo);
      for (size_t a = 0; a < N; ++a) t[a] |= p[a] & s[a];
    }
  }
  return memo[x] = t;
}
inline Support sdd_table(SddNode *x, int n) {
  std::map<SddNode *, Support> memo;
  return sdd_table(x, n, memo);
}
inline void vtree_data_clear(Vtree *v, const char *what) {
  PBT_REQUIRE(sdd_vtree_data(v) == nullptr, "%s: a vtree node keeps scratch data", what);
  if (!sdd_vtree_is_leaf(v)) {
    vtree_data_clear(sdd_vtree_left(v), what);
    vtree_data_clear(sdd_vtree_right(v), what);
  }
}

// ---------------------------------------------------------------- large PSDDs
// A chain of small blocks: a hidden automaton that, in each block, picks one of
// several disjoint sets of block assignments and moves to a next state.  All
// queries have dynamic-programming oracles that are independent of the library.
struct Chain {
  struct El {
    Table t;
    double w;
    int next;
  };
  using State = std::vector<El>;
  VT vt;
  int blocks = 0;
  std::vector<int> bn, lo;                   // sizes and offsets of blocks
  std::vector<std::vector<State>> levels;    // levels[b][k]
  std::vector<std::vector<PsddNode *>> node;  // of every state
  PsddManager *m = nullptr;
  PsddNode *root() const { return node[0][0]; }
  double tol() const { return TOL + 4e-7 * vt.nvars(); }
  bool owns = true;
  ~Chain() {
    if (owns) delete m;
  }
  Chain() = default;
  Chain(const Chain &) = delete;
};
inline int chain_shape(Case &c, Chain &ch, int b, int kind) {
  if (b + 1 == ch.blocks) return vt_shape(c, ch.vt, ch.bn[(size_t)b], kind);
  VT::N nd;
  nd.lo = (int)ch.vt.order.size();
  nd.l = vt_shape(c, ch.vt, ch.bn[(size_t)b], kind);
  nd.r = chain_shape(c, ch, b + 1, kind);
  nd.n = (int)ch.vt.order.size() - nd.lo;
  ch.vt.nodes.push_back(nd);
  return (int)ch.vt.nodes.size() - 1;
}
inline void gen_chain_body(Case &c, Chain &ch, bool allow_zeros, uintmax_t flag);
inline void gen_chain(Case &c, Chain &ch, int max_blocks, bool allow_zeros) {
  // deep chains: thousands of variables, every assignment far below the smallest double
  bool deep = c.chance(1, 40);
  ch.blocks = deep ? 700 + (int)c.draw(600) : 2 + (int)c.draw((uint64_t)max_blocks - 1);
  if (deep) c.label("thousands of variables");
  int maxb = deep ? 3 : 1 + (int)c.draw(3);
  int off = 0;
  for (int b = 0; b < ch.blocks; ++b) {
    ch.bn.push_back(1 + (int)c.draw((uint64_t)maxb));
    ch.lo.push_back(off);
    off += ch.bn.back();
  }
  ch.vt.root = chain_shape(c, ch, 0, (int)c.draw(4));
  vt_number(ch.vt, gen_vars(c, off, true));
  ch.m = make_manager(ch.vt);
  uintmax_t flag = gen_flag(c);
  gen_chain_body(c, ch, allow_zeros, flag);
  c.note("chain of %d blocks, %d variables, flag %ju\n", ch.blocks, off, flag);
}
// A second chain over the same vtree and manager.
inline void gen_chain_like(Case &c, const Chain &a, Chain &b, bool allow_zeros) {
  b.blocks = a.blocks;
  b.bn = a.bn;
  b.lo = a.lo;
  b.vt = a.vt;
  b.m = a.m;
  b.owns = false;
  gen_chain_body(c, b, allow_zeros, gen_flag(c));
}
inline void gen_chain_body(Case &c, Chain &ch, bool allow_zeros, uintmax_t flag) {
  int width = 1 + (int)c.draw(3);
  Builder bl(c, ch.vt, ch.m, flag);
  bl.style = gen_style(c, allow_zeros);
  bl.reuse = 2;
  ch.levels.resize((size_t)ch.blocks);
  ch.node.resize((size_t)ch.blocks);
  // vtree node of every level and block
  std::vector<int> lv, bv;
  int v = ch.vt.root;
  for (int b = 0; b < ch.blocks; ++b) {
    lv.push_back(v);
    if (b + 1 == ch.blocks) {
      bv.push_back(v);
    } else {
      bv.push_back(ch.vt.nodes[(size_t)v].l);
      v = ch.vt.nodes[(size_t)v].r;
    }
  }
  for (int b = ch.blocks - 1; b >= 0; --b) {
    int states = b == 0 ? 1 : 1 + (int)c.draw((uint64_t)width);
    size_t N = (size_t)1 << ch.bn[(size_t)b];
    bool last = b + 1 == ch.blocks;
    for (int k = 0; k < states; ++k) {
      Chain::State st;
      if (last) {
        Built x = bl.build(bv[(size_t)b], gen_support(c, ch.bn[(size_t)b]));
        st.push_back({x.t, 0.0, 0});
        ch.node[(size_t)b].push_back(x.node);
      } else {
        // distribute block assignments over up to three elements, some dropped
        std::vector<Support> parts(3, Support(N, 0));
        uint64_t how = c.draw(4);
        for (size_t a = 0; a < N; ++a) {
          uint64_t g = how == 0 ? 0 : how == 1 ? c.draw(2) : how == 2 ? c.draw(3) : c.draw(4);
          if (g < 3) parts[g][a] = 1;
        }
        std::vector<Support> used;
        for (auto &p : parts)
          if (count_support(p)) used.push_back(p);
        if (used.empty()) used.push_back(Support(N, 1));
        auto w = gen_params(c, used.size(), bl.style);
        std::vector<PsddNode *> pr, su;
        std::vector<PsddParameter> pa;
        for (size_t i = 0; i < used.size(); ++i) {
          Built x = bl.build(bv[(size_t)b], used[i]);
          int nx = (int)c.draw(ch.node[(size_t)b + 1].size());
          st.push_back({x.t, w[i], nx});
          pr.push_back(x.node);
          su.push_back(ch.node[(size_t)b + 1][(size_t)nx]);
          pa.push_back(P(w[i]));
        }
        ch.node[(size_t)b].push_back(ch.m->GetConformedPsddDecisionNode(pr, su, pa, flag));
      }
      ch.levels[(size_t)b].push_back(st);
    }
  }
}
// ok(b, a): whether assignment a of block b is allowed; maximise instead of summing.
template <class F>
inline double chain_value(const Chain &ch, F ok, bool maximise, std::vector<std::vector<double>> *all = nullptr) {
  std::vector<std::vector<double>> val((size_t)ch.blocks);
  for (int b = ch.blocks - 1; b >= 0; --b) {
    for (auto &st : ch.levels[(size_t)b]) {
      double r = NINF;
      for (auto &el : st) {
        double s = NINF;
        for (size_t a = 0; a < el.t.size(); ++a)
          if (el.t[a] != NINF && ok(b, a)) s = maximise ? std::max(s, el.t[a]) : lse(s, el.t[a]);
        double x = s + el.w + (b + 1 < ch.blocks ? val[(size_t)b + 1][(size_t)el.next] : 0.0);
        if (s == NINF) x = NINF;
        r = maximise ? std::max(r, x) : lse(r, x);
      }
      val[(size_t)b].push_back(r);
    }
  }
  if (all) *all = val;
  return val[0][0];
}
// ---------------------------------------------------------------- formulas over many variables
// Whether a PSDD of any size accepts a complete assignment (structure only).
struct Acceptor {
  const std::bitset<MAX_VAR> &a;
  std::unordered_map<PsddNode *, bool> memo;
  explicit Acceptor(const std::bitset<MAX_VAR> &x) : a(x) {}
  bool operator()(PsddNode *x) {
    if (x->node_type() == TOP_NODE_TYPE) return true;
    if (auto l = x->psdd_literal_node()) return a[l->variable_index()] == l->sign();
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    auto d = x->psdd_decision_node();
    bool r = false;
    for (size_t i = 0; i < d->primes().size() && !r; ++i) r = (*this)(d->primes()[i]) && (*this)(d->subs()[i]);
    return memo[x] = r;
  }
};
// The log weight of a complete assignment, for PSDDs of any size.
struct Weigher {
  const std::bitset<MAX_VAR> &a;
  std::unordered_map<PsddNode *, double> memo;
  explicit Weigher(const std::bitset<MAX_VAR> &x) : a(x) {}
  double operator()(PsddNode *x) {
    if (auto t = x->psdd_top_node()) return (a[t->variable_index()] ? t->true_parameter() : t->false_parameter()).parameter();
    if (auto l = x->psdd_literal_node()) return a[l->variable_index()] == l->sign() ? 0 : NINF;
    auto it = memo.find(x);
    if (it != memo.end()) return it->second;
    auto d = x->psdd_decision_node();
    double r = NINF;
    for (size_t i = 0; i < d->primes().size(); ++i) {
      double p = (*this)(d->primes()[i]);
      if (p == NINF) continue;
      double s = (*this)(d->subs()[i]), w = d->parameters()[i].parameter();
      if (s != NINF && w != NINF) r = lse(r, p + s + w);
    }
    return memo[x] = r;
  }
};
inline mpz_class count_models(PsddNode *x, std::unordered_map<PsddNode *, mpz_class> &memo) {
  if (x->node_type() == TOP_NODE_TYPE) return 2;
  if (x->node_type() == LITERAL_NODE_TYPE) return 1;
  auto it = memo.find(x);
  if (it != memo.end()) return it->second;
  auto d = x->psdd_decision_node();
  mpz_class r = 0;
  for (size_t i = 0; i < d->primes().size(); ++i) r += count_models(d->primes()[i], memo) * count_models(d->subs()[i], memo);
  return memo[x] = r;
}
inline mpz_class count_models(PsddNode *x) {
  std::unordered_map<PsddNode *, mpz_class> memo;
  return count_models(x, memo);
}
// A conjunction of small formulas over disjoint sets of leaves of a vtree with n leaves.
struct Blocks {
  int n = 0;
  struct B {
    std::vector<int> at;  // leaf positions; bit i of the table is at[i]
    Support t;
  };
  std::vector<B> bs;
  size_t value(const B &b, const std::vector<uint8_t> &x) const {
    size_t a = 0;
    for (size_t i = 0; i < b.at.size(); ++i) a |= (size_t)x[(size_t)b.at[i]] << i;
    return a;
  }
  bool accepts(const std::vector<uint8_t> &x) const {
    for (auto &b : bs)
      if (!b.t[value(b, x)]) return false;
    return true;
  }
  mpz_class count() const {
    mpz_class r = 1;
    int f = n;
    for (auto &b : bs) {
      r *= (unsigned long)count_support(b.t);
      f -= (int)b.at.size();
    }
    mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), (unsigned long)f);
    return r;
  }
  // a random assignment: any, accepted, or one change away from accepted
  std::vector<uint8_t> draw(Case &c) const {
    std::vector<uint8_t> x((size_t)n);
    uint64_t s = c.draw(UINT64_MAX);
    for (auto &y : x) y = pbt::splitmix(s) & 1;
    if (c.draw(4) == 0) return x;
    for (auto &b : bs) {
      std::vector<size_t> ok;
      for (size_t a = 0; a < b.t.size(); ++a)
        if (b.t[a]) ok.push_back(a);
      if (ok.empty()) continue;
      size_t a = ok[pbt::splitmix(s) % ok.size()];
      for (size_t i = 0; i < b.at.size(); ++i) x[(size_t)b.at[i]] = (a >> i) & 1;
    }
    if (c.draw(3) == 2) x[c.draw((uint64_t)n)] ^= 1;
    return x;
  }
};
inline Blocks gen_blocks(Case &c, int n, bool hundreds = false) {
  Blocks b;
  b.n = n;
  if (c.draw(3) == 0 && n >= 8) {  // pairs across the middle: decisions with 2^k alternatives
    int k = 3 + (int)c.draw((uint64_t)std::min(n / 2 - 3, 5)), h = (n + 1) / 2;
    uint64_t how = c.draw(3);
    if (hundreds && n >= 18 && how < 2 && c.draw(12) == 11) {
      k = 9;
      c.label("hundreds of alternatives");
    }
    for (int i = 0; i < k; ++i) {
      Support eq{1, 0, 0, 1}, ne{0, 1, 1, 0}, lt{1, 0, 1, 1};
      b.bs.push_back({{i, h + i}, how == 0 ? eq : how == 1 ? (c.flip() ? eq : ne) : (c.draw(4) ? eq : lt)});
    }
    c.label("pairs across the middle");
  } else {
    std::vector<int> free;
    for (int i = 0; i < n; ++i) free.push_back(i);
    int k = 1 + (int)c.draw(4);
    for (int i = 0; i < k && !free.empty(); ++i) {
      int len = 1 + (int)c.draw(std::min<uint64_t>(5, free.size()));
      Blocks::B x;
      for (int j = 0; j < len; ++j) {
        size_t q = c.draw(free.size());
        x.at.push_back(free[q]);
        free.erase(free.begin() + (long)q);
      }
      x.t = gen_support(c, len);
      b.bs.push_back(x);
    }
  }
  return b;
}
// The conjunction as an SDD whose variable for leaf i is ids[i].
inline SddNode *blocks_sdd(const Blocks &b, SddManager *m, const std::vector<uint32_t> &ids) {
  SddNode *all = sdd_manager_true(m);
  for (auto &x : b.bs) {
    std::vector<SddNode *> layer(x.t.size());
    for (size_t i = 0; i < layer.size(); ++i) layer[i] = x.t[i] ? sdd_manager_true(m) : sdd_manager_false(m);
    for (size_t v = x.at.size(); v-- > 0;) {
      size_t half = layer.size() / 2;
      SddLiteral id = (SddLiteral)ids[(size_t)x.at[v]];
      std::vector<SddNode *> nx(half);
      for (size_t i = 0; i < half; ++i) nx[i] = sdd_disjoin(sdd_conjoin(sdd_manager_literal(-id, m), layer[i], m), sdd_conjoin(sdd_manager_literal(id, m), layer[i + half], m), m);
      layer = nx;
    }
    all = sdd_conjoin(all, layer[0], m);
  }
  return all;
}
inline std::string show_blocks(const Blocks &b) {
  std::string s;
  for (auto &x : b.bs) {
    s += "leaves";
    for (int i : x.at) s += fmt(" %d", i);
    s += " models";
    for (size_t a = 0; a < x.t.size(); ++a)
      if (x.t[a]) s += " " + bits(a, (int)x.at.size());
    s += "; ";
  }
  return s;
}
// order: variables of the leaves
inline void check_blocks(Case &c, PsddNode *x, const Blocks &b, const std::vector<uint32_t> &order, const char *what, int tries = 12) {
  mpz_class want = b.count(), got = count_models(x);
  PBT_REQUIRE(got == want, "%s: %s models, expected %s", what, got.get_str().c_str(), want.get_str().c_str());
  for (int q = 0; q < tries; ++q) {
    auto a = b.draw(c);
    std::bitset<MAX_VAR> inst;
    for (int i = 0; i < b.n; ++i)
      if (a[(size_t)i]) inst.set(order[(size_t)i]);
    PBT_REQUIRE(Acceptor(inst)(x) == b.accepts(a), "%s: an assignment is %s", what, b.accepts(a) ? "rejected" : "accepted");
  }
}
// Counts records in a structure; the oracle for learning.
struct Learner {
  Reader r;
  std::unordered_map<PsddNode *, std::vector<double>> count;
  // The alternative of a decision that a record takes; bit i = i-th leaf below the node.
  size_t branch(PsddDecisionNode *d, size_t a, size_t b) {
    for (size_t i = 0; i < d->primes().size(); ++i)
      if (r.support(d->primes()[i])[a] && r.support(d->subs()[i])[b]) return i;
    pbt::fail("harness: a record got lost");
  }
  void route(PsddNode *x, size_t rec, double times = 1) {
    if (x->node_type() == TOP_NODE_TYPE) {
      auto &k = count[x];
      k.resize(2, 0);
      k[rec & 1] += times;
    } else if (auto d = x->psdd_decision_node()) {
      int nl = (int)sdd_vtree_var_count(sdd_vtree_left(x->vtree_node()));
      size_t a = rec & (((size_t)1 << nl) - 1), b = rec >> nl, i = branch(d, a, b);
      auto &k = count[x];
      k.resize(d->primes().size(), 0);
      k[i] += times;
      route(d->primes()[i], a, times);
      route(d->subs()[i], b, times);
    }
  }
  // The parameter to be learned for alternative i (of k) of a node.
  double expect(PsddNode *p, size_t i, size_t k, double alpha) const {
    auto it = count.find(p);
    double cnt = it == count.end() ? 0 : it->second[i], tot = 0;
    if (it != count.end())
      for (double z : it->second) tot += z;
    return std::log(cnt + alpha) - std::log(tot + alpha * (double)k);
  }
  // The learned weight of an accepted record.
  double weight(PsddNode *x, size_t rec, double alpha) {
    if (x->node_type() == TOP_NODE_TYPE) return expect(x, rec & 1, 2, alpha);
    if (auto d = x->psdd_decision_node()) {
      int nl = (int)sdd_vtree_var_count(sdd_vtree_left(x->vtree_node()));
      size_t a = rec & (((size_t)1 << nl) - 1), b = rec >> nl, i = branch(d, a, b);
      return expect(x, i, d->primes().size(), alpha) + weight(d->primes()[i], a, alpha) + weight(d->subs()[i], b, alpha);
    }
    return 0;
  }
};
}  // namespace gen
#endif
