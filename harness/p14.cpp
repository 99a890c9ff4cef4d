// P14: the unique table: equal nodes are shared, different nodes never merged.
#include <tuple>

#include "psddfile.h"
using namespace gen;

namespace {
// Parameters live on a grid: index 0 is zero, otherwise a 1e-7 cell of logs; cells
// of different indices are at least two cells apart.  draw_log picks any log inside.
using Cell = long;
Cell gen_cell(Case &c) {
  switch (c.draw(5)) {
    case 0: return 1 + (long)c.draw(3);
    case 1: return 1 + (long)c.draw(3) - 5;  // positive logs: weights above 1
    case 2: return 0;
    case 3: return 1000000 + (long)c.draw(4);
    default: return 1 + (long)c.draw(30000000);
  }
}
double draw_log(Case &c, Cell k) {
  if (k == 0) return NINF;
  double s = k > 0 ? -1 : 1;
  double m = 3.0 * std::fabs((double)k) + 0.5;
  static const double j[] = {0, 0.3, -0.3, 0.1};
  return s * (m + j[c.draw(4)]) * 1e-7;
}
bool in_cell(double log, Cell k) {
  if (k == 0) return log == NINF;
  double s = k > 0 ? -1 : 1;
  return std::fabs(s * log * 1e7 - (3.0 * std::fabs((double)k) + 0.5)) < 0.5001;
}
struct El {
  size_t p, s;
  Cell w;
  bool operator<(const El &o) const { return std::tie(p, s, w) < std::tie(o.p, o.s, o.w); }
  bool operator==(const El &o) const { return std::tie(p, s, w) == std::tie(o.p, o.s, o.w); }
};
struct Req {
  int kind = 0;  // 0 literal, 1 top, 2 decision
  int v = 0;     // model vtree node
  uintmax_t flag = 0;
  bool sign = false;
  Cell pos = 0, neg = 0;
  std::vector<El> els;  // sorted
  bool operator<(const Req &o) const { return std::tie(kind, v, flag, sign, pos, neg, els) < std::tie(o.kind, o.v, o.flag, o.sign, o.pos, o.neg, o.els); }
};
struct Entry {
  Req r;
  PsddNode *x;
  Support s;
};
// Decisions with up to 128 (now and then 512) alternatives, one per assignment of the left variables.
void wide_case(Case &c) {
  int k = 2 + (int)c.draw(6);
  if (c.draw(16) == 15) {
    k = 9;
    c.label("hundreds of alternatives");
  }
  int n = k + 1 + (int)c.draw(2);
  VT vt;
  {
    VT::N nd;
    int kind = (int)c.draw(4);
    nd.l = vt_shape(c, vt, k, kind);
    nd.r = vt_shape(c, vt, n - k, kind);
    nd.n = n;
    vt.nodes.push_back(nd);
    vt.root = (int)vt.nodes.size() - 1;
    vt_number(vt, gen_vars(c, n, true));
  }
  Env e(vt);
  c.label("wide");
  c.nontrivial = true;
  int lv = e.vt.nodes[(size_t)e.vt.root].l, rv = e.vt.nodes[(size_t)e.vt.root].r;
  uintmax_t flag = gen_flag(c);
  Builder b(c, e.vt, e.m, flag);
  b.reuse = 4;
  size_t N = (size_t)1 << k, NR = (size_t)1 << (n - k);
  std::vector<PsddNode *> cube, sub;
  for (size_t a = 0; a < N; ++a) {
    Support s(N, 0);
    s[a] = 1;
    cube.push_back(b.build(lv, s).node);
  }
  for (int i = 0; i < 3; ++i) {
    Support s(NR, 0);
    s[(size_t)i % NR] = 1;
    if (i == 2) s.assign(NR, 1);
    sub.push_back(b.build(rv, s).node);
  }
  struct E3 {
    size_t p, s;
    Cell w;
    bool operator<(const E3 &o) const { return std::tie(p, s, w) < std::tie(o.p, o.s, o.w); }
  };
  using Dec = std::vector<E3>;
  Dec base;
  uint64_t skip = c.draw(3);
  static const Cell few[] = {1, 2, 1000000, 23025850};
  for (size_t a = 0; a < N; ++a)
    if (skip != 2 || c.draw(4)) base.push_back({a, c.draw(3), few[c.draw(4)]});
  if (base.empty()) base.push_back({0, 0, 1});
  std::map<std::pair<uintmax_t, Dec>, PsddNode *> by;
  std::set<PsddNode *> made;
  c.note("wide: %zu alternatives\n", base.size());
  int steps = 4 + (int)c.draw(20);
  std::vector<Dec> seen{base};
  for (int i = 0; i < steps; ++i) {
    Dec d = c.pick(seen);
    uintmax_t f = flag;
    switch (i == 0 ? 0 : c.draw(8)) {
      case 0:
      case 1: break;                                                              // again, in another order
      case 2: d[c.draw(d.size())].s = c.draw(3); break;                            // one sub
      case 3: d[c.draw(d.size())].w = few[c.draw(4)]; break;                       // one parameter
      case 4: std::swap(d[c.draw(d.size())].w, d[c.draw(d.size())].w); break;      // two parameters exchanged
      case 5: std::swap(d[c.draw(d.size())].s, d[c.draw(d.size())].s); break;      // two subs exchanged
      case 6:
        if (d.size() > 1) d.erase(d.begin() + (long)c.draw(d.size()));              // one alternative less
        break;
      default: f = another_flag(c, flag);
    }
    std::sort(d.begin(), d.end());
    Dec order = d;
    c.shuffle(order);
    std::vector<PsddNode *> p, s;
    std::vector<PsddParameter> w;
    for (auto &q : order) {
      p.push_back(cube[q.p]);
      s.push_back(sub[q.s]);
      w.push_back(P(draw_log(c, q.w)));
    }
    // children of another flag may be used: only the requested node's flag matters
    PsddNode *x = e.m->GetConformedPsddDecisionNode(p, s, w, f);
    c.count("requests");
    auto it = by.find({f, d});
    if (it != by.end()) {
      PBT_REQUIRE(it->second == x, "wide: asked again for a decision of %zu alternatives, got a different node", d.size());
    } else {
      PBT_REQUIRE(made.insert(x).second, "wide: asked for a new decision of %zu alternatives, got one made earlier", d.size());
      by[{f, d}] = x;
      seen.push_back(d);
    }
    auto q = x->psdd_decision_node();
    PBT_REQUIRE(x->flag_index() == f && q && q->primes().size() == d.size() && q->subs().size() == d.size() && q->parameters().size() == d.size(), "wide: got another node than asked for");
    std::map<PsddNode *, size_t> where;
    for (size_t j = 0; j < q->primes().size(); ++j) where[q->primes()[j]] = j;
    for (auto &el : d) {
      auto z = where.find(cube[el.p]);
      PBT_REQUIRE(z != where.end() && q->subs()[z->second] == sub[el.s] && in_cell(q->parameters()[z->second].parameter(), el.w), "wide: an alternative is missing or has another sub or parameter");
    }
  }
}
}  // namespace

PBT_PROPERTY("P14", "histories of 10 to 80 requests for literal, unconstrained-variable and decision nodes in one manager: fresh ones, repetitions (elements shuffled, parameters moved inside their 1e-7 cell) and near misses (one component changed), against a map from what was asked to the node; one in 20 with decisions of up to 128 or 512 alternatives; plus repeated constructions (conversion, product, loading, normalising, reading); non-trivial when at least one repetition and one near miss of a decision or unconstrained-variable node occurred") {
  if (c.draw(20) == 19) return wide_case(c);
  int n = gen_n(c, 5, 6);
  Env e(c, n);
  std::vector<Entry> es;
  std::vector<std::vector<size_t>> at(e.vt.nodes.size());
  std::map<Req, size_t> by;
  std::map<PsddNode *, size_t> by_ptr;
  std::set<uintmax_t> ids;
  std::vector<uintmax_t> flags{gen_flag(c), gen_flag(c), 3};
  bool rep = false, near = false;
  auto describe = [&](const Req &r) {
    if (r.kind == 0) return fmt("literal %s%u flag %ju", r.sign ? "" : "-", e.vt.nodes[(size_t)r.v].var, r.flag);
    if (r.kind == 1) return fmt("top %u flag %ju true-cell %ld false-cell %ld", e.vt.nodes[(size_t)r.v].var, r.flag, r.pos, r.neg);
    std::string s = fmt("decision at %d flag %ju", r.v, r.flag);
    for (auto &x : r.els) s += fmt(" (#%zu #%zu cell %ld)", x.p, x.s, x.w);
    return s;
  };
  auto verify = [&](const Entry &en) {
    const Req &r = en.r;
    PsddNode *x = en.x;
    std::string d = describe(r);
    PBT_REQUIRE(x->flag_index() == r.flag, "asked for %s, the node carries flag %ju", d.c_str(), x->flag_index());
    PBT_REQUIRE(x->vtree_node() == e.vn[(size_t)r.v], "asked for %s, the node is at another vtree node", d.c_str());
    if (r.kind == 0) {
      auto l = x->psdd_literal_node();
      PBT_REQUIRE(l && l->variable_index() == e.vt.nodes[(size_t)r.v].var && l->sign() == r.sign, "asked for %s, got another node", d.c_str());
    } else if (r.kind == 1) {
      auto t = x->psdd_top_node();
      PBT_REQUIRE(t && t->variable_index() == e.vt.nodes[(size_t)r.v].var, "asked for %s, got another node", d.c_str());
      PBT_REQUIRE(in_cell(t->true_parameter().parameter(), r.pos) && in_cell(t->false_parameter().parameter(), r.neg), "asked for %s, got logs %.9g (true) %.9g (false)", d.c_str(), t->true_parameter().parameter(), t->false_parameter().parameter());
    } else {
      auto q = x->psdd_decision_node();
      PBT_REQUIRE(q && q->primes().size() == r.els.size() && q->subs().size() == r.els.size() && q->parameters().size() == r.els.size(), "asked for %s, got another node", d.c_str());
      std::vector<bool> hit(r.els.size());
      for (size_t i = 0; i < r.els.size(); ++i) {
        bool ok = false;
        for (size_t j = 0; j < r.els.size() && !ok; ++j)
          if (!hit[j] && q->primes()[j] == es[r.els[i].p].x && q->subs()[j] == es[r.els[i].s].x && in_cell(q->parameters()[j].parameter(), r.els[i].w)) hit[j] = ok = true;
        PBT_REQUIRE(ok, "asked for %s, element %zu is missing or has another parameter", d.c_str(), i);
      }
    }
  };
  auto ask = [&](const Req &r) {
    PsddNode *x;
    if (r.kind == 0) {
      int32_t v = (int32_t)e.vt.nodes[(size_t)r.v].var;
      x = e.m->GetPsddLiteralNode(r.sign ? v : -v, r.flag);
    } else if (r.kind == 1) {
      x = e.m->GetPsddTopNode(e.vt.nodes[(size_t)r.v].var, r.flag, P(draw_log(c, r.pos)), P(draw_log(c, r.neg)));
    } else {
      std::vector<El> els = r.els;
      c.shuffle(els);
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      for (auto &q : els) {
        p.push_back(es[q.p].x);
        s.push_back(es[q.s].x);
        w.push_back(P(draw_log(c, q.w)));
      }
      x = e.m->GetConformedPsddDecisionNode(p, s, w, r.flag);
    }
    c.note("%s -> %p\n", describe(r).c_str(), (void *)x);
    PBT_REQUIRE(x != nullptr, "asked for %s, got null", describe(r).c_str());
    c.count("requests");
    auto it = by.find(r);
    if (it != by.end()) {
      PBT_REQUIRE(es[it->second].x == x, "asked again for %s, got a different node", describe(r).c_str());
      verify(es[it->second]);
      return it->second;
    }
    auto jt = by_ptr.find(x);
    PBT_REQUIRE(jt == by_ptr.end(), "asked for %s, got the node made for %s", describe(r).c_str(), describe(es[jt->second].r).c_str());
    PBT_REQUIRE(ids.insert(x->node_index()).second, "two nodes of a manager have index %ju", x->node_index());
    Entry en;
    en.r = r;
    en.x = x;
    if (r.kind == 0) {
      en.s = {(uint8_t)!r.sign, (uint8_t)r.sign};
    } else if (r.kind == 1) {
      en.s = {1, 1};
    } else {
      int nl = e.vt.nodes[(size_t)e.vt.nodes[(size_t)r.v].l].n;
      en.s.assign((size_t)1 << e.vt.nodes[(size_t)r.v].n, 0);
      for (auto &q : r.els)
        for (size_t a = 0; a < es[q.p].s.size(); ++a)
          if (es[q.p].s[a])
            for (size_t b = 0; b < es[q.s].s.size(); ++b)
              if (es[q.s].s[b]) en.s[a | (b << nl)] = 1;
    }
    verify(en);
    by[r] = es.size();
    by_ptr[x] = es.size();
    at[(size_t)r.v].push_back(es.size());
    es.push_back(en);
    return es.size() - 1;
  };
  // a request with valid children for vtree node v, or a leaf below when none exist
  std::function<Req(int)> fresh = [&](int v) {
    Req r;
    r.v = v;
    r.flag = c.pick(flags);
    const auto &nd = e.vt.nodes[(size_t)v];
    if (e.vt.leaf(v)) {
      r.kind = (int)c.draw(2);
      if (r.kind == 0) {
        r.sign = c.flip();
      } else {
        r.pos = gen_cell(c);
        r.neg = gen_cell(c);
      }
      return r;
    }
    if (at[(size_t)nd.l].empty()) return fresh(nd.l);
    if (at[(size_t)nd.r].empty()) return fresh(nd.r);
    r.kind = 2;
    Support seen((size_t)1 << e.vt.nodes[(size_t)nd.l].n, 0);
    int k = 1 + (int)c.draw(4);
    for (int i = 0; i < k; ++i) {
      size_t p = c.pick(at[(size_t)nd.l]);
      bool clash = false;
      for (size_t a = 0; a < seen.size(); ++a) clash = clash || (seen[a] && es[p].s[a]);
      if (clash) continue;
      for (size_t a = 0; a < seen.size(); ++a) seen[a] |= es[p].s[a];
      r.els.push_back({p, c.pick(at[(size_t)nd.r]), gen_cell(c)});
    }
    std::sort(r.els.begin(), r.els.end());
    return r;
  };
  int steps = 10 + (int)c.draw(c.thorough ? 150 : 70);
  for (int i = 0; i < steps; ++i) {
    uint64_t how = es.empty() ? 0 : c.draw(6);
    if (how <= 2) {
      ask(fresh((int)(e.vt.nodes.size() - 1 - c.draw(e.vt.nodes.size()))));
    } else if (how == 3) {
      const Req r = es[c.draw(es.size())].r;
      if (r.kind) rep = true;
      ask(r);
    } else {
      Req r = es[c.draw(es.size())].r;
      switch (c.draw(4)) {
        case 0: r.flag = c.pick(flags); break;
        case 1:
          if (r.kind == 0) r.sign = !r.sign;
          else if (r.kind == 1) std::swap(r.pos, r.neg);
          else if (r.els.size() > 1) r.els.erase(r.els.begin() + (long)c.draw(r.els.size()));
          break;
        case 2:
          if (r.kind == 1) (c.flip() ? r.pos : r.neg) = gen_cell(c);
          if (r.kind == 2) r.els[c.draw(r.els.size())].w = gen_cell(c);
          break;
        default:
          if (r.kind == 1) {  // the next cell but two
            Cell &q = c.flip() ? r.pos : r.neg;
            q = q == -1 ? -2 : q + 1;
          }
          if (r.kind == 2) {
            if (c.flip()) {
              El &q = r.els[c.draw(r.els.size())];
              q.s = c.pick(at[(size_t)e.vt.nodes[(size_t)r.v].r]);
            } else {
              Cell &q = r.els[c.draw(r.els.size())].w;
              q = q == -1 ? -2 : q + 1;
            }
          }
      }
      std::sort(r.els.begin(), r.els.end());
      if (r.kind) near = true;
      ask(r);
    }
  }
  c.nontrivial = rep && near;
  for (auto &en : es) verify(en);  // nothing drifted
  // the nodes' own comparison and hash: a node made outside of the manager for the same request
  for (int k = 0; k < 12; ++k) {
    const Entry &en = c.pick(es);
    const Req &r = en.r;
    std::unique_ptr<PsddNode> twin;
    uintmax_t index = 1000000 + (uintmax_t)k;
    uint32_t var = e.vt.nodes[(size_t)r.v].var;
    if (r.kind == 0) {
      twin.reset(new PsddLiteralNode(index, e.vn[(size_t)r.v], r.flag, r.sign ? (int32_t)var : -(int32_t)var));
    } else if (r.kind == 1) {
      twin.reset(new PsddTopNode(index, e.vn[(size_t)r.v], r.flag, var, P(draw_log(c, r.pos)), P(draw_log(c, r.neg))));
    } else {
      std::vector<El> els = r.els;
      c.shuffle(els);
      std::vector<PsddNode *> p, s;
      std::vector<PsddParameter> w;
      for (auto &q : els) {
        p.push_back(es[q.p].x);
        s.push_back(es[q.s].x);
        w.push_back(P(draw_log(c, q.w)));
      }
      twin.reset(new PsddDecisionNode(index, e.vn[(size_t)r.v], r.flag, p, s, w));
    }
    PBT_REQUIRE(twin->hash_value() == en.x->hash_value(), "equal nodes (%s) have hashes %zu and %zu", describe(r).c_str(), twin->hash_value(), en.x->hash_value());
    auto same = [](PsddNode *a, PsddNode *b) {
      if (a->psdd_literal_node()) return *a->psdd_literal_node() == *b->psdd_literal_node();
      if (a->psdd_top_node()) return *a->psdd_top_node() == *b->psdd_top_node();
      return *a->psdd_decision_node() == *b->psdd_decision_node();
    };
    for (auto &other : es) {
      if (other.r.kind != r.kind) continue;
      bool want = other.x == en.x;
      PBT_REQUIRE(same(twin.get(), other.x) == want && same(other.x, twin.get()) == want, "== of %s and %s is %d", describe(r).c_str(), describe(other.r).c_str(), !want);
    }
    c.count("comparisons", es.size());
  }
  // repeated constructions arrive at identical roots
  size_t pickd = c.draw(es.size());
  PsddNode *x = es[pickd].x;
  int xv = es[pickd].r.v;
  uintmax_t flag = gen_flag(c);
  auto up = ancestors(e.vt, xv);
  Vtree *target = e.vn[(size_t)up[c.draw(up.size())]];
  PsddNode *l1 = e.m->LoadPsddNode(target, x, flag), *n1 = e.m->NormalizePsddNode(target, x, flag), *t1 = e.m->GetTrueNode(target, flag);
  PBT_REQUIRE(e.m->LoadPsddNode(target, x, flag) == l1, "loading again gives another root");
  PBT_REQUIRE(e.m->NormalizePsddNode(target, x, flag) == n1, "normalising again gives another root");
  PBT_REQUIRE(e.m->GetTrueNode(target, flag) == t1, "the unconstrained PSDD is built twice");
  Support s = gen_support(c, n);
  Built a = gen_psdd(c, e.vt, e.m, flag, false, &s), b = gen_psdd(c, e.vt, e.m, flag, false, &s);
  auto m1 = e.m->Multiply(a.node, b.node, flag), m2 = e.m->Multiply(a.node, b.node, flag);
  PBT_REQUIRE(m1.first == m2.first, "multiplying again gives another root");
  SddEnv se;
  se.init(c, e.vt, e.vt.root);
  Fn f = gen_sdd(c, se.m, n);
  std::vector<Vtree *> unused;
  PsddNode *s1 = e.m->ConvertSddToPsdd(f.node, se.vtree(), flag), *s2 = e.m->ConvertSddToPsdd(f.node, se.vtree(), flag);
  PBT_REQUIRE(s1 == s2, "converting an SDD again gives another root");
  // an equal function built another way, canonical as an SDD, converts to the same root
  SddNode *again = sdd_negate(sdd_negate(f.node, se.m), se.m);
  PBT_REQUIRE(e.m->ConvertSddToPsdd(again, se.vtree(), flag) == s1, "converting an equal SDD gives another root");
  std::string file = pbt::scratch_file("p14.psdd");
  psdd_node_util::WritePsddToFile(a.node, file.c_str());
  PsddNode *r1 = e.m->ReadPsddFile(file.c_str(), flag), *r2 = e.m->ReadPsddFile(file.c_str(), flag);
  unlink(file.c_str());
  PBT_REQUIRE(r1 == r2, "reading again gives another root");
  for (auto &en : es) verify(en);
}
