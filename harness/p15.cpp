// P15: DeleteUnusedPsddNodes and DeletePsddNodesWithoutFlagIndexes.
#include "psddfile.h"
using namespace gen;

namespace {
// What a node looks like, kept after the node itself may be gone.
struct Shape {
  int type = 0;
  uintmax_t index = 0, flag = 0;
  int32_t lit = 0;
  uint32_t var = 0;
  double pos = 0, neg = 0;
  std::vector<PsddNode *> p, s;
  std::vector<double> w;
};
Shape shape_of(PsddNode *x) {
  Shape h;
  h.type = x->node_type();
  h.index = x->node_index();
  h.flag = x->flag_index();
  if (auto l = x->psdd_literal_node()) h.lit = l->literal();
  if (auto t = x->psdd_top_node()) {
    h.var = t->variable_index();
    h.pos = t->true_parameter().parameter();
    h.neg = t->false_parameter().parameter();
  }
  if (auto d = x->psdd_decision_node()) {
    h.p = d->primes();
    h.s = d->subs();
    for (auto &q : d->parameters()) h.w.push_back(q.parameter());
  }
  return h;
}
PsddNode *request(PsddManager *m, const Shape &h) {
  if (h.type == LITERAL_NODE_TYPE) return m->GetPsddLiteralNode(h.lit, h.flag);
  if (h.type == TOP_NODE_TYPE) return m->GetPsddTopNode(h.var, h.flag, P(h.pos), P(h.neg));
  std::vector<PsddParameter> w;
  for (double q : h.w) w.push_back(P(q));
  return m->GetConformedPsddDecisionNode(h.p, h.s, w, h.flag);
}
struct Live {
  PsddNode *x;
  Table t;
  std::string fp, file;
  std::string answers;
};
std::string answers_of(PsddNode *x) {
  auto ser = psdd_node_util::SerializePsddNodes(x);
  std::string s = psdd_node_util::ModelCount(ser).get_str();
  auto mar = psdd_node_util::GetMarginals(ser);
  std::map<uint32_t, std::pair<double, double>> sorted;
  for (auto &m : mar) sorted[m.first] = {m.second.first.parameter(), m.second.second.parameter()};
  for (auto &m : sorted) s += fmt(" %u:%.9g/%.9g", m.first, m.second.first, m.second.second);
  auto mpe = psdd_node_util::GetMPESolution(x);
  s += fmt(" mpe %.9g size %ju", mpe.second.parameter(), (uintmax_t)psdd_node_util::GetPsddSize(x));
  return s;
}

void table_case(Case &c) {
  c.label("flag deletion");
  std::unique_ptr<PsddUniqueTable> tab(PsddUniqueTable::GetPsddUniqueTable());
  int n = gen_n(c, 4, 5);
  VT vt = gen_vtree(c, n);
  Vtree *v = to_sdd_vtree(vt);
  auto vn = zip(vt, v);
  // the counter the caller keeps; it may be far on, and used for other tables in between
  uintmax_t next = c.flip() ? 0 : c.pick(std::vector<uintmax_t>{65530, ((uintmax_t)1 << 31) - 3, ((uintmax_t)1 << 32) - 3, (uintmax_t)1 << 63});
  uintmax_t jump = c.chance(1, 3) ? c.pick(std::vector<uintmax_t>{1, 255, 65535, ((uintmax_t)1 << 32) - 1}) : 0;
  if (next || jump) c.label("counter far on");
  std::vector<uintmax_t> flags{0, 1, gen_flag(c), UINTMAX_MAX};
  struct Made {
    PsddNode *x;
    Shape h;
    Vtree *v;
  };
  std::vector<Made> made;
  std::map<std::pair<int, uintmax_t>, std::vector<size_t>> at;
  auto construct = [&](const Shape &h, Vtree *at_v) -> PsddNode * {
    if (h.type == LITERAL_NODE_TYPE) return new PsddLiteralNode(next, at_v, h.flag, h.lit);
    if (h.type == TOP_NODE_TYPE) return new PsddTopNode(next, at_v, h.flag, h.var, P(h.pos), P(h.neg));
    // the alternatives in any order
    std::vector<size_t> o(h.p.size());
    for (size_t i = 0; i < o.size(); ++i) o[i] = i;
    if (o.size() > 1) c.shuffle(o);
    std::vector<PsddNode *> p, q;
    std::vector<PsddParameter> w;
    for (auto i : o) p.push_back(h.p[i]), q.push_back(h.s[i]), w.push_back(P(h.w[i]));
    return new PsddDecisionNode(next, at_v, h.flag, p, q, w);
  };
  int steps = 5 + (int)c.draw(40);
  for (int i = 0; i < steps; ++i) {
    if (c.draw(8) == 7 && !made.empty()) {
      std::unordered_set<uintmax_t> keep;
      for (auto f : flags)
        if (c.flip()) keep.insert(f);
      // what a kept node is made of is kept
      std::map<PsddNode *, uintmax_t> flag_at;
      for (auto &q : made) flag_at[q.x] = q.h.flag;
      for (size_t k = made.size(); k-- > 0;)
        if (keep.count(made[k].h.flag))
          for (auto l : {&made[k].h.p, &made[k].h.s})
            for (auto x : *l)
              if (keep.insert(flag_at[x]).second) k = made.size();
      std::string ks;
      for (auto f : keep) ks += fmt("%ju ", f);
      c.note("delete nodes without flags %s(%zu nodes)\n", ks.c_str(), made.size());
      c.count("deletions");
      std::vector<std::string> fps;
      for (auto &q : made) fps.push_back(keep.count(q.h.flag) ? fingerprint(q.x) : "");
      tab->DeletePsddNodesWithoutFlagIndexes(keep);
      std::vector<Made> left;
      size_t gone = 0;
      for (size_t k = 0; k < made.size(); ++k) {
        Made &q = made[k];
        if (keep.count(q.h.flag)) {
          PBT_REQUIRE(fingerprint(q.x) == fps[k], "deleting by flag changed a node that stays");
          uintmax_t before = next;
          PsddNode *y = tab->GetUniqueNode(construct(q.h, q.v), &next);
          PBT_REQUIRE(y == q.x && next == before, "a node whose flag is kept was forgotten");
          left.push_back(q);
        } else if (std::all_of(q.h.p.begin(), q.h.p.end(), [&](PsddNode *z) { return keep.count(flag_at[z]); }) && std::all_of(q.h.s.begin(), q.h.s.end(), [&](PsddNode *z) { return keep.count(flag_at[z]); })) {
          if (q.h.type == DECISION_NODE_TYPE) c.count("decision nodes of a deleted flag over kept ones");
          uintmax_t before = next;
          PsddNode *y = tab->GetUniqueNode(construct(q.h, q.v), &next);
          PBT_REQUIRE(next == before + 1 && y->node_index() == before, "a node whose flag is not kept is still known");
          q.x = y;
          q.h.index = before;
          left.push_back(q);
          ++gone;
        } else {
          ++gone;
        }
      }
      // decisions of deleted flags: rebuilt over the new leaves later on
      made.clear();
      at.clear();
      std::vector<Made> tmp = left;
      for (auto &q : tmp) {
        made.push_back(q);
        for (size_t z = 0; z < vn.size(); ++z)
          if (vn[z] == q.v) at[{(int)z, q.h.flag}].push_back(made.size() - 1);
      }
      if (gone && !keep.empty() && left.size() > gone) c.nontrivial = true;
      continue;
    }
    uintmax_t f = c.pick(flags);
    std::function<void(int)> mk = [&](int z) {
      Shape h;
      h.flag = f;
      const auto &nd = vt.nodes[(size_t)z];
      if (vt.leaf(z)) {
        if (c.flip()) {
          h.type = TOP_NODE_TYPE;
          h.var = nd.var;
          h.pos = std::log((1.0 + (double)c.draw(3)) / 4);
          h.neg = std::log(1 - std::exp(h.pos));
        } else {
          h.type = LITERAL_NODE_TYPE;
          h.lit = c.flip() ? (int32_t)nd.var : -(int32_t)nd.var;
        }
      } else {
        auto &L = at[{nd.l, c.chance(1, 4) ? c.pick(flags) : f}], &R = at[{nd.r, c.chance(1, 4) ? c.pick(flags) : f}];
        if (L.empty()) return mk(nd.l);
        if (R.empty()) return mk(nd.r);
        h.type = DECISION_NODE_TYPE;
        std::set<PsddNode *> primes;
        for (int k = 1 + (int)c.draw(3); k > 0; --k) primes.insert(made[c.pick(L)].x);
        for (auto p : primes) {
          h.p.push_back(p);
          h.s.push_back(made[c.pick(R)].x);
          h.w.push_back(primes.size() == 1 ? 0 : -(double)(1 + c.draw(2)));
        }
        if (primes.size() > 1) c.count("table nodes of several alternatives");
      }
      for (auto &q : made)
        if (q.v == vn[(size_t)z] && q.h.type == h.type && q.h.flag == h.flag && q.h.lit == h.lit && q.h.var == h.var && q.h.pos == h.pos && q.h.neg == h.neg && q.h.p == h.p && q.h.s == h.s && q.h.w == h.w) {
          PBT_REQUIRE(tab->GetUniqueNode(construct(h, vn[(size_t)z]), &next) == q.x, "an equal node is not shared");
          return;
        }
      next += jump;
      uintmax_t before = next;
      PsddNode *x = tab->GetUniqueNode(construct(h, vn[(size_t)z]), &next);
      PBT_REQUIRE(next == before + 1 && x->node_index() == before, "a new node is taken for a known one");
      h.index = before;
      made.push_back({x, h, vn[(size_t)z]});
      at[{z, f}].push_back(made.size() - 1);
    };
    mk((int)(vt.nodes.size() - 1 - c.draw(vt.nodes.size())));
  }
  c.count("table nodes", made.size());
  sdd_vtree_free(v);
}
// Chains that share nodes: thousands of nodes at once.
void large_case(Case &c) {
  Chain a, b;
  gen_chain(c, a, c.thorough ? 200 : 60, false);
  gen_chain_like(c, a, b, false);
  c.label("large");
  PsddManager *m = a.m;
  std::vector<PsddNode *> roots{a.root(), b.root(), c.pick(c.pick(a.node)), c.pick(c.pick(b.node))};
  if (c.flip()) {
    RandomDoubleFromGammaGenerator g(1, 1, (uint)c.draw(1000));
    roots.push_back(m->SampleParameters(&g, a.root(), gen_flag(c)));
  }
  if (c.flip()) {
    auto p = m->Multiply(a.root(), b.root(), gen_flag(c));
    if (p.first) roots.push_back(p.first);
  }
  std::vector<PsddNode *> keep;
  for (auto x : roots)
    if (c.flip()) keep.push_back(x);
  if (!keep.empty() && c.draw(3) == 0) keep.push_back(keep[0]);
  c.shuffle(keep);
  std::unordered_set<PsddNode *> stay;
  for (auto x : all_nodes(keep)) stay.insert(x);
  std::vector<std::pair<PsddNode *, Shape>> all;
  for (auto x : all_nodes(roots)) all.push_back({x, shape_of(x)});
  std::vector<std::string> fps;
  for (auto x : keep) fps.push_back(fingerprint(x));
  c.note("large: %zu of %zu nodes stay\n", stay.size(), all.size());
  if (!stay.empty() && stay.size() < all.size()) c.nontrivial = true;
  m->DeleteUnusedPsddNodes(keep);
  if (c.flip()) m->DeleteUnusedPsddNodes(keep);
  c.count("deletions");
  for (size_t i = 0; i < keep.size(); ++i) PBT_REQUIRE(fingerprint(keep[i]) == fps[i], "large: deletion changed a PSDD in use");
  for (auto &q : all)
    if (stay.count(q.first)) PBT_REQUIRE(request(m, q.second) == q.first, "large: after deletion a node in use is not found again");
  size_t budget = 200;
  for (auto &q : all) {
    if (stay.count(q.first) || budget == 0) continue;
    bool ok = true;
    for (auto x : q.second.p) ok = ok && stay.count(x);
    for (auto x : q.second.s) ok = ok && stay.count(x);
    if (!ok) continue;
    --budget;
    PsddNode *y = request(m, q.second);
    PBT_REQUIRE(y && y->node_index() != q.second.index, "large: a node no used root reaches is still known after deletion");
    PBT_REQUIRE(request(m, q.second) == y, "large: a node made after deletion is not shared");
  }
}
}  // namespace

PBT_PROPERTY("P15", "histories of 5 to 25 operations on one manager (generated PSDDs, products, conversions, loads, file reads, true nodes, lifted nodes, inner nodes kept as roots, deletion with any subset of the live roots, repeated, empty), checking survivors, re-requests of surviving and forgotten nodes, and later operations against truth tables; one case in 6 deletes by flag in a node table; one in 48 on chains with thousands of nodes; non-trivial when a deletion kept some node and forgot some other") {
  if (c.draw(6) == 5) return table_case(c);
  if (c.draw(40) == 39) return large_case(c);
  int n = gen_n(c, 5, 6);
  Env e(c, n);
  std::vector<Live> live;
  std::vector<uintmax_t> flags{gen_flag(c), 5};
  std::string file = pbt::scratch_file("p15.psdd");
  auto file_of = [&](PsddNode *x) {
    psdd_node_util::WritePsddToFile(x, file.c_str());
    return pbt::read_all(file);
  };
  auto add = [&](PsddNode *x, const Table &t, const char *what) {
    PBT_REQUIRE(x != nullptr, "%s: null", what);
    same_table(read_table(x), t, (int)sdd_vtree_var_count(x->vtree_node()), what);
    check_wellformed(x, x->vtree_node(), [] { WfOptions o; o.flags = false; return o; }(), what);
    for (auto y : all_nodes({x})) PBT_REQUIRE(request(e.m, shape_of(y)) == y, "%s: the parts of a node do not lead back to it", what);
    Live l{x, t, fingerprint(x), file_of(x), answers_of(x)};
    live.push_back(l);
    c.note("#%zu: %s, index %ju: %s\n", live.size() - 1, what, x->node_index(), show_table(t, (int)sdd_vtree_var_count(x->vtree_node())).c_str());
  };
  auto check_live = [&](const char *when) {
    for (auto &l : live) {
      PBT_REQUIRE(fingerprint(l.x) == l.fp, "%s: a PSDD in use changed", when);
      PBT_REQUIRE(answers_of(l.x) == l.answers, "%s: a PSDD in use answers '%s', before '%s'", when, answers_of(l.x).c_str(), l.answers.c_str());
      PBT_REQUIRE(file_of(l.x) == l.file, "%s: a PSDD in use writes another file", when);
    }
  };
  std::vector<Support> sups{gen_support(c, n), gen_support(c, n)};
  int steps = 5 + (int)c.draw(c.thorough ? 40 : 20);
  for (int i = 0; i < steps; ++i) {
    uintmax_t flag = c.pick(flags);
    switch (live.empty() ? 0 : c.draw(10)) {
      case 0:
      case 1: {
        Built b = gen_psdd(c, e.vt, e.m, flag, false, c.draw(3) == 2 ? nullptr : &c.pick(sups));
        add(b.node, b.t, "generated");
        break;
      }
      case 2: {
        Live a = c.pick(live), b = c.pick(live);
        if (a.x->vtree_node() != b.x->vtree_node()) break;
        bool zero = false;  // only strictly positive operands
        for (auto x : all_nodes({a.x, b.x})) {
          if (auto t = x->psdd_top_node()) zero = zero || t->true_parameter().parameter() == NINF || t->false_parameter().parameter() == NINF;
          if (auto d = x->psdd_decision_node())
            for (auto &p : d->parameters()) zero = zero || p.parameter() == NINF;
        }
        if (zero) break;
        Table want(a.t.size());
        for (size_t k = 0; k < want.size(); ++k) want[k] = a.t[k] == NINF || b.t[k] == NINF ? NINF : a.t[k] + b.t[k];
        double tot = table_total(want);
        auto r = e.m->Multiply(a.x, b.x, flag);
        if (tot == NINF) {
          PBT_REQUIRE(r.first == nullptr, "product of contradictory PSDDs is a node");
          break;
        }
        for (auto &w : want) w -= tot;
        add(r.first, want, "product");
        break;
      }
      case 3: {
        Live a = c.pick(live);
        add(e.m->LoadPsddNode(a.x->vtree_node(), a.x, flag), a.t, "loaded");
        break;
      }
      case 4: {
        Live a = c.pick(live);
        pbt::write_all(file, a.file);
        PsddNode *x = e.m->ReadPsddFile(file.c_str(), flag);
        PBT_REQUIRE(x != nullptr, "read: null");
        same_table(read_table(x), a.t, (int)sdd_vtree_var_count(a.x->vtree_node()), "read", TOL + 3e-6 * n);
        add(x, read_table(x), "read");
        break;
      }
      case 5: {  // an inner node becomes a root of its own
        Live a = c.pick(live);
        auto all = all_nodes({a.x});
        PsddNode *x = all[c.draw(all.size())];
        add(x, read_table(x), "inner node");
        break;
      }
      case 6: {  // nodes without constraint, and a node lifted with them
        Vtree *v = c.pick(e.vn);
        if (c.flip()) {
          add(e.m->GetTrueNode(v, flag), Table((size_t)1 << sdd_vtree_var_count(v), 0.0), "true node");
          break;
        }
        Live a = c.pick(live);
        v = a.x->vtree_node();
        while (sdd_vtree_parent(v) && (v == a.x->vtree_node() || c.flip())) v = sdd_vtree_parent(v);
        auto in = e.vt.nodes[(size_t)e.model_of(a.x->vtree_node())], out = e.vt.nodes[(size_t)e.model_of(v)];
        Table want((size_t)1 << out.n);
        for (size_t k = 0; k < want.size(); ++k) want[k] = a.t[(k >> (in.lo - out.lo)) & (((size_t)1 << in.n) - 1)];
        add(e.m->NormalizePsddNode(v, a.x, flag), want, "lifted");
        break;
      }
      default: {  // deletion
        std::vector<Live> keep;
        uint64_t how = c.draw(5);
        for (auto &l : live)
          if (how == 0 || (how <= 3 && c.flip())) keep.push_back(l);
        std::vector<PsddNode *> used;
        for (auto &l : keep) used.push_back(l.x);
        if (!used.empty() && c.flip()) used.push_back(used[c.draw(used.size())]);
        c.shuffle(used);
        std::unordered_set<PsddNode *> stay;
        for (auto x : all_nodes(used)) stay.insert(x);
        std::vector<PsddNode *> roots;
        for (auto &l : live) roots.push_back(l.x);
        std::vector<std::pair<PsddNode *, Shape>> all, gone;
        std::unordered_set<PsddNode *> gone_set;
        for (auto x : all_nodes(roots)) {
          all.push_back({x, shape_of(x)});
          if (!stay.count(x)) {
            gone.push_back(all.back());
            gone_set.insert(x);
          }
        }
        std::string ks;
        for (auto x : used) ks += fmt("%ju ", x->node_index());
        c.note("delete, using %s: %zu nodes stay, %zu go\n", ks.c_str(), stay.size(), gone.size());
        live = keep;
        e.m->DeleteUnusedPsddNodes(used);
        if (c.flip()) e.m->DeleteUnusedPsddNodes(used);
        c.count("deletions");
        c.count("nodes kept", stay.size());
        c.count("nodes forgotten", gone.size());
        if (!gone.empty() && !stay.empty()) c.nontrivial = true;
        check_live("after deletion");
        for (auto &q : all)
          if (stay.count(q.first)) PBT_REQUIRE(request(e.m, q.second) == q.first, "after deletion a node in use is not found again");
        // nodes whose children are all in use (or which have none) can be asked for again
        if (c.flip()) {
          size_t budget = 12;
          for (auto &q : gone) {
            bool ok = true;
            for (auto x : q.second.p) ok = ok && !gone_set.count(x);
            for (auto x : q.second.s) ok = ok && !gone_set.count(x);
            if (!ok || budget == 0) continue;
            --budget;
            PsddNode *y = request(e.m, q.second);
            PBT_REQUIRE(y && y->node_index() != q.second.index, "a node no used root reaches is still known after deletion");
            PBT_REQUIRE(request(e.m, q.second) == y, "a node made after deletion is not shared");
            Shape h = shape_of(y);
            PBT_REQUIRE(h.type == q.second.type && h.flag == q.second.flag && h.lit == q.second.lit && h.var == q.second.var && h.w.size() == q.second.w.size(), "a node asked for after deletion is another one");
          }
        }
      }
    }
    if (live.size() > 12) live.erase(live.begin());
  }
  check_live("at the end");
  unlink(file.c_str());
}
