// P34: a node reports what it was made from and what was recorded on it, and nothing else.
#include "gen.h"
using namespace gen;

namespace {
struct Model {
  PsddNode *x = nullptr;
  int type = 0;
  uintmax_t index = 0, flag = 0;
  Vtree *v = nullptr;
  int32_t lit = 0;
  uint32_t var = 0;
  bool has_params = false;
  double pos = 0, neg = 0;
  struct El {
    PsddNode *p, *s;
    double w;
  };
  std::vector<El> els;
  // records, in the node's own order of elements
  std::vector<uintmax_t> counts;
  uintmax_t user = 0;
  bool active = false;
  BatchedPsddValue value, context;
  size_t hash = 0;
};
void check(const Model &m) {
  PsddNode *x = m.x;
  PBT_REQUIRE(x->node_type() == m.type && x->node_index() == m.index && x->flag_index() == m.flag && x->vtree_node() == m.v, "type %d, index %ju, flag %ju instead of %d, %ju, %ju", x->node_type(), x->node_index(), x->flag_index(), m.type, m.index, m.flag);
  PBT_REQUIRE(!!x->psdd_literal_node() == (m.type == LITERAL_NODE_TYPE) && !!x->psdd_top_node() == (m.type == TOP_NODE_TYPE) && !!x->psdd_decision_node() == (m.type == DECISION_NODE_TYPE), "a node of type %d passes for another kind", m.type);
  PBT_REQUIRE(x->user_data() == m.user, "user data %ju, recorded %ju", x->user_data(), m.user);
  PBT_REQUIRE(x->activation_flag() == m.active, "activation %d, recorded %d", x->activation_flag(), m.active);
  PBT_REQUIRE(x->batched_psdd_value() == m.value && x->batched_psdd_context_value() == m.context && *x->MutableBatchedPsddValue() == m.value && *x->MutableBatchedPsddContextValue() == m.context, "other batched values than recorded");
  PBT_REQUIRE(x->hash_value() == m.hash, "the hash value changed");
  if (auto l = x->psdd_literal_node()) {
    PBT_REQUIRE(l == x && l->literal() == m.lit && l->sign() == (m.lit > 0) && l->variable_index() == (uint32_t)std::abs(m.lit), "literal %d instead of %d", l->literal(), m.lit);
  }
  if (auto t = x->psdd_top_node()) {
    PBT_REQUIRE(t == x && t->variable_index() == m.var, "variable %u instead of %u", t->variable_index(), m.var);
    if (m.has_params) PBT_REQUIRE(t->true_parameter().parameter() == m.pos && t->false_parameter().parameter() == m.neg, "parameters %.17g and %.17g instead of %.17g and %.17g", t->true_parameter().parameter(), t->false_parameter().parameter(), m.pos, m.neg);
    PBT_REQUIRE(t->true_data_count() == m.counts[0] && t->false_data_count() == m.counts[1], "counts %ju and %ju, recorded %ju and %ju", t->true_data_count(), t->false_data_count(), m.counts[0], m.counts[1]);
  }
  if (auto d = x->psdd_decision_node()) {
    size_t k = m.els.size();
    PBT_REQUIRE(d == x && d->primes().size() == k && d->subs().size() == k && d->parameters().size() == k && d->data_counts().size() == k, "%zu elements instead of %zu", d->primes().size(), k);
    for (auto &e : m.els) {
      size_t i = 0;
      while (i < k && d->primes()[i] != e.p) ++i;
      PBT_REQUIRE(i < k && d->subs()[i] == e.s, "an element is missing or has another right part");
      if (m.has_params) PBT_REQUIRE(d->parameters()[i].parameter() == e.w, "an element has parameter %.17g instead of %.17g", d->parameters()[i].parameter(), e.w);
    }
    for (size_t i = 0; i < k; ++i) PBT_REQUIRE(d->data_counts()[i] == m.counts[i], "count %zu is %ju, recorded %ju", i, d->data_counts()[i], m.counts[i]);
  }
}
}  // namespace

PBT_PROPERTY("P34", "2 to 10 nodes of every kind made with every constructor over a vtree of up to 4 variables (decisions of up to 16 elements in any order), then 0 to 40 records (counts, resets, user data, activation, batched values); after each, every node is compared with a model; non-trivial when a count was raised on a node with several counters and another node was touched") {
  int n = 2 + (int)c.draw(4);
  VT vt;
  vt.root = vt_shape(c, vt, n, (int)c.draw(5));
  vt_number(vt, gen_vars(c, n, true));
  Vtree *root = to_sdd_vtree(vt);
  auto vn = zip(vt, root);
  uintmax_t next = c.draw(3) == 2 ? c.draw(1u << 30) : 0;
  std::vector<std::unique_ptr<PsddNode>> own;
  std::vector<Model> ms;
  auto keep = [&](Model m, PsddNode *x, uintmax_t index) {
    m.x = x;
    m.index = index;
    m.hash = x->hash_value();
    own.emplace_back(x);
    ms.push_back(m);
    check(ms.back());
    return x;
  };
  // a node at a vtree node; how: which constructor
  std::function<PsddNode *(int)> make = [&](int v) -> PsddNode * {
    const auto &nd = vt.nodes[(size_t)v];
    Model m;
    m.v = vn[(size_t)v];
    uint64_t how = c.draw(4);
    m.flag = how == 3 ? 0 : gen_flag(c);
    uintmax_t before = next;
    PsddNode *x;
    if (vt.leaf(v)) {
      if (c.flip()) {
        m.type = TOP_NODE_TYPE;
        m.var = nd.var;
        m.counts.assign(2, 0);
        if (how <= 1) {
          auto w = gen_params(c, 2, gen_style(c, true));
          m.has_params = true;
          m.pos = w[0];
          m.neg = w[1];
          x = new PsddTopNode(next, m.v, m.flag, m.var, P(w[0]), P(w[1]));
          ++next;
        } else if (how == 2) {
          x = new PsddTopNode(&next, m.v, m.flag, m.var);
        } else {
          x = new PsddTopNode(&next, m.v, m.var);
        }
      } else {
        m.type = LITERAL_NODE_TYPE;
        m.lit = c.flip() ? (int32_t)nd.var : -(int32_t)nd.var;
        if (how <= 1) x = new PsddLiteralNode(next++, m.v, m.flag, m.lit);
        else if (how == 2) x = new PsddLiteralNode(&next, m.v, m.flag, m.lit);
        else x = new PsddLiteralNode(&next, m.v, m.lit);
      }
    } else {
      m.type = DECISION_NODE_TYPE;
      size_t k = 1 + c.draw(c.chance(1, 6) ? 16 : 4);
      std::vector<PsddNode *> pr, su;
      for (size_t i = 0; i < k; ++i) {
        pr.push_back(make(nd.l));
        su.push_back(i && c.flip() ? su[c.draw(i)] : make(nd.r));
      }
      // in any order
      std::vector<size_t> o(k);
      for (size_t i = 0; i < k; ++i) o[i] = i;
      c.shuffle(o);
      std::vector<PsddNode *> pr2, su2;
      for (size_t i : o) {
        pr2.push_back(pr[i]);
        su2.push_back(su[i]);
      }
      auto w = gen_params(c, k, gen_style(c, true));
      std::vector<PsddParameter> pa;
      for (size_t i = 0; i < k; ++i) {
        pa.push_back(P(w[i]));
        m.els.push_back({pr2[i], su2[i], w[i]});
      }
      m.counts.assign(k, 0);
      m.has_params = how != 2 && how != 3;
      before = next;
      if (how == 0) x = new PsddDecisionNode(next++, m.v, m.flag, pr2, su2, pa);
      else if (how == 1) x = new PsddDecisionNode(&next, m.v, m.flag, pr2, su2, pa);
      else if (how == 2) x = new PsddDecisionNode(&next, m.v, m.flag, pr2, su2);
      else x = new PsddDecisionNode(&next, m.v, pr2, su2);
    }
    PBT_REQUIRE(next == before + 1, "making a node turned the next index from %ju into %ju", before, next);
    return keep(m, x, before);
  };
  int made = 1 + (int)c.draw(2);
  for (int i = 0; i < made; ++i) make(vt.leaf(vt.root) ? vt.root : c.flip() ? vt.root : (int)c.draw(vt.nodes.size()));
  c.note("vtree %s, %zu nodes\n", vt.str().c_str(), ms.size());
  bool several = false, others = false;
  int steps = (int)c.draw(41);
  size_t at = 0;
  for (int i = 0; i < steps; ++i) {
    if (c.flip()) at = c.draw(ms.size());
    Model &m = ms[at];
    static const uintmax_t amounts[] = {1, 2, 0, 7, 1000000007ull, 1ull << 40, 1ull << 62};
    uintmax_t k = amounts[c.draw(7)];
    auto bits_of = [&]() {
      BatchedPsddValue b(c.draw(6));
      for (size_t j = 0; j < b.size(); ++j) b[j] = c.flip();
      return b;
    };
    const char *what = "";
    switch (c.draw(8)) {
      case 0:
      case 1:
      case 2:
        what = "count";
        if (auto t = m.x->psdd_top_node()) {
          if (c.flip()) {
            t->IncrementTrueDataCount(k);
            m.counts[0] += k;
          } else {
            t->IncrementFalseDataCount(k);
            m.counts[1] += k;
          }
          several = true;
        }
        if (auto d = m.x->psdd_decision_node()) {
          size_t j = c.draw(m.counts.size());
          d->IncrementDataCount(j, k);
          m.counts[j] += k;
          several = several || m.counts.size() > 1;
        }
        break;
      case 3:
        what = "reset of counts";
        m.x->ResetDataCount();
        std::fill(m.counts.begin(), m.counts.end(), 0);
        break;
      case 4:
        what = "user data";
        m.user = k == 7 ? UINTMAX_MAX : k;
        m.x->SetUserData(m.user);
        break;
      case 5:
        what = "activation";
        m.active = c.flip();
        if (m.active) m.x->SetActivationFlag();
        else m.x->ResetActivationFlag();
        break;
      case 6:
        what = "batched values";
        m.value = bits_of();
        m.x->SetBatchedPsddValue(m.value);
        break;
      default:
        what = "batched context";
        m.context = bits_of();
        if (c.flip()) m.x->SetBatchedPsddContextValue(m.context);
        else *m.x->MutableBatchedPsddContextValue() = m.context;
    }
    c.note("node %ju: %s\n", m.index, what);
    others = others || at > 0;
    for (auto &q : ms) check(q);
    // records do not make two nodes different or alike
    PsddNode *y = m.x;
    if (auto l = y->psdd_literal_node()) {
      PsddLiteralNode z(next, m.v, m.flag, m.lit);
      PBT_REQUIRE(z == *l && *l == z && z.hash_value() == m.hash, "a literal node with records differs from one without");
    } else if (auto t = y->psdd_top_node()) {
      PsddTopNode z(next, m.v, m.flag, m.var, t->true_parameter(), t->false_parameter());
      PBT_REQUIRE(z == *t && *t == z && z.hash_value() == m.hash, "a top node with records differs from one without");
    } else if (auto d = y->psdd_decision_node()) {
      PsddDecisionNode z(next, m.v, m.flag, d->primes(), d->subs(), d->parameters());
      PBT_REQUIRE(z == *d && *d == z && z.hash_value() == m.hash, "a decision node with records differs from one without");
    }
  }
  c.count("nodes", ms.size());
  c.count("records", (uint64_t)steps);
  c.nontrivial = several && others;
  sdd_vtree_free(root);
}
