// P09: LearnPsddParameters against an independent router and counter.
#include "gen.h"
using namespace gen;

namespace {
// The learned PSDD against the counts; returns whether some node has a choice.
bool check_learned(pbt::Case &c, Learner &l, PsddNode *x, PsddNode *y, double alpha, const char *what) {
  Matcher m(what);
  m.match(x, y);
  bool choice = false;
  for (auto &pr : m.map) {
    PsddNode *p = pr.first, *q = pr.second;
    if (p->node_type() == TOP_NODE_TYPE) {
      double t = q->psdd_top_node()->true_parameter().parameter(), f = q->psdd_top_node()->false_parameter().parameter();
      double wt = l.expect(p, 1, 2, alpha), wf = l.expect(p, 0, 2, alpha);
      PBT_REQUIRE(close(t, wt, 1e-6) && close(f, wf, 1e-6), "%s: variable %u: logs (%.9g false, %.9g true), expected (%.9g, %.9g)", what, p->psdd_top_node()->variable_index(), f, t, wf, wt);
      choice = true;
    } else if (auto d = p->psdd_decision_node()) {
      auto dq = q->psdd_decision_node();
      auto alg = m.align(d, dq);
      for (size_t i = 0; i < alg.size(); ++i) {
        double g = dq->parameters()[alg[i]].parameter(), w = l.expect(p, i, alg.size(), alpha);
        PBT_REQUIRE(close(g, w, 1e-6), "%s: a decision parameter is exp(%.9g), expected exp(%.9g)", what, g, w);
      }
      choice |= alg.size() > 1;
    }
    c.count("parameters");
  }
  return choice;
}
// hundreds of variables, up to hundreds of records
void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.draw(4) == 3 ? (c.thorough ? 100 : 50) : 12, true);
  if (ch.blocks > 200) return;  // the deep ones take too long here
  c.label("large");
  c.nontrivial = true;
  PsddNode *x = ch.root();
  auto &order = ch.vt.order;
  size_t N = c.draw(4) == 3 ? 200 + c.draw(900) : c.draw(90);
  std::vector<std::bitset<MAX_VAR>> recs;
  RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(100000));
  uint64_t rs = c.draw(UINT64_MAX);
  int bad = (int)c.draw(4);
  for (size_t k = 0; k < N; ++k) {
    std::bitset<MAX_VAR> a;
    if (k && pbt::splitmix(rs) % 5 == 0) {
      a = recs[pbt::splitmix(rs) % k];
    } else {
      x->DirectSample(&a, &g);
      if (bad == 3 && pbt::splitmix(rs) % 4 == 0) a.flip(order[pbt::splitmix(rs) % order.size()]);
    }
    recs.push_back(a);
  }
  Learner l;
  size_t accepted = 0;
  for (auto &a : recs) {
    Acceptor ok(a);
    if (!ok(x)) continue;
    ++accepted;
    std::vector<PsddNode *> st{x};
    while (!st.empty()) {
      PsddNode *y = st.back();
      st.pop_back();
      if (auto t = y->psdd_top_node()) {
        auto &k = l.count[y];
        k.resize(2, 0);
        k[a[t->variable_index()]] += 1;
      } else if (auto d = y->psdd_decision_node()) {
        auto &k = l.count[y];
        k.resize(d->primes().size(), 0);
        for (size_t i = 0; i < d->primes().size(); ++i)
          if (ok(d->primes()[i]) && ok(d->subs()[i])) {
            k[i] += 1;
            st.push_back(d->primes()[i]);
            st.push_back(d->subs()[i]);
            break;
          }
      }
    }
  }
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  for (auto v : order) {
    BatchedPsddValue col(N);
    for (size_t k = 0; k < N; ++k) col[k] = recs[k][v];
    ex[(int32_t)v] = col;
  }
  double alpha = c.flip() ? 1 : 0.125;
  uintmax_t flag = gen_flag(c);
  c.note("large: %zu of %zu records accepted, %zu variables\n", accepted, N, order.size());
  std::string fp = fingerprint(x);
  PsddNode *y = ch.m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(alpha), flag);
  WfOptions o;
  o.flag = flag;
  o.normalised = o.positive = true;
  check_wellformed(y, ch.m->vtree(), o, "large learned PSDD");
  check_learned(c, l, x, y, alpha, "large learned PSDD");
  PBT_REQUIRE(fingerprint(x) == fp, "large: the given structure changed");
  PBT_REQUIRE(ch.m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(alpha), flag) == y, "large: learning again gives another PSDD");
}
// tens of thousands of records over a few variables
void bulk_case(Case &c) {
  int n = 1 + (int)c.draw(3);
  Env e(c, n);
  PsddNode *x = gen_structure(c, e, gen_flag(c));
  Support s = read_support(x);
  c.label("bulk");
  c.nontrivial = true;
  std::vector<size_t> times(s.size(), 0);
  size_t N = 0;
  int kinds = 1 + (int)c.draw(4);
  for (int k = 0; k < kinds; ++k) {
    static const size_t sizes[] = {1, 255, 256, 257, 1000, 32767, 32768, 65535, 65536, 65537, 70000};
    size_t m = sizes[c.draw(11)] + (c.flip() ? c.draw(300) : 0);
    times[c.draw(s.size())] += m;
    N += m;
  }
  std::vector<size_t> recs;
  for (size_t a = 0; a < times.size(); ++a) recs.insert(recs.end(), times[a], a);
  uint64_t rs = c.draw(UINT64_MAX);
  if (c.flip())
    for (size_t i = N; i > 1; --i) std::swap(recs[i - 1], recs[pbt::splitmix(rs) % i]);
  std::unordered_map<int32_t, BatchedPsddValue> ex;
  for (int i = 0; i < n; ++i) {
    BatchedPsddValue v(N);
    for (size_t k = 0; k < N; ++k) v[k] = (recs[k] >> i) & 1;
    ex[(int32_t)e.vt.order[(size_t)i]] = v;
  }
  Learner l;
  for (size_t a = 0; a < times.size(); ++a)
    if (times[a] && s[a]) l.route(x, a, times[a]);
  double alpha = c.flip() ? 1 : 0.01;
  uintmax_t flag = gen_flag(c);
  c.note("bulk: %zu records of %d variables\n", N, n);
  PsddNode *y = e.m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(alpha), flag);
  WfOptions o;
  o.flag = flag;
  o.normalised = o.positive = true;
  check_wellformed(y, e.m->vtree(), o, "bulk learned PSDD");
  check_learned(c, l, x, y, alpha, "bulk learned PSDD");
}
}  // namespace

PBT_PROPERTY("P09", "a generated structure (random parameters, or converted from an SDD), 0 to 60 records of which some are rejected, a smoothing constant, learned twice, with permuted records and from re-sampled parameters, from the learned PSDD and from other records; or (1 in 25) chains of up to 150 variables with up to 1100 records, or (1 in 100) up to 200000 records of at most 3 variables; non-trivial when at least two accepted records differ and at least one decision has several alternatives") {
  if (c.draw(25) == 24) return large_case(c);
  if (c.draw(100) == 99) return bulk_case(c);
  int n = gen_n(c, 6, 8);
  if (n == WIDEST && c.flip()) ++n;  // the wide nodes then are not the root
  Env e(c, n);
  PsddNode *x = gen_structure(c, e, gen_flag(c));
  Support s = read_support(x);
  std::vector<size_t> in, out;
  for (size_t a = 0; a < s.size(); ++a) (s[a] ? in : out).push_back(a);
  static const double alphas[] = {1, 0.5, 0.001, 10, 1e-6, 3.25};
  int N = (int)c.draw(c.thorough ? 200 : 60);
  bool want_zero = c.chance(1, 5);
  uint64_t spread = c.draw(3);
  std::vector<size_t> recs;
  for (int i = 0; i < N; ++i) {
    if (!out.empty() && c.draw(6) == 5) recs.push_back(out[c.draw(out.size())]);
    else recs.push_back(in[spread == 0 ? c.draw(in.size()) : spread == 1 ? c.draw(std::min<size_t>(in.size(), 3)) : c.draw(c.draw(in.size()) + 1)]);
  }
  double alpha = alphas[c.draw(6)];
  if (want_zero) {
    // make every context reached: add every accepted assignment once
    for (size_t a : in)
      if (in.size() <= 64) recs.push_back(a);
    if (in.size() <= 64) {
      // now drop records as long as every context is still reached
      int drops = (int)c.draw(20);
      alpha = 0;
      for (int k = 0; k < drops && recs.size() > 1; ++k) {
        std::vector<size_t> t = recs;
        t.erase(t.begin() + (long)c.draw(t.size()));
        Learner l;
        for (size_t a : t)
          if (s[a]) l.route(x, a);
        bool all = true;
        for (auto y : all_nodes({x}))
          if (y->node_type() != LITERAL_NODE_TYPE && !l.count.count(y)) all = false;
        if (all) recs = t;
      }
      c.label("maximum likelihood (alpha 0)");
    }
  }
  c.shuffle(recs);
  uintmax_t flag = gen_flag(c);
  auto examples = [&](const std::vector<size_t> &rs) {
    std::unordered_map<int32_t, BatchedPsddValue> ex;
    for (int i = 0; i < n; ++i) {
      BatchedPsddValue v(rs.size());
      for (size_t k = 0; k < rs.size(); ++k) v[k] = (rs[k] >> i) & 1;
      ex[(int32_t)e.vt.order[(size_t)i]] = v;
    }
    return ex;
  };
  auto ex = examples(recs);
  if (c.chance(1, 4)) {  // a variable the structure does not have
    uint32_t f = 1;
    while (mask_of(e.vt.order)[f]) ++f;
    ex[(int32_t)f] = BatchedPsddValue(recs.size(), true);
  }
  if (recs.empty() && c.flip()) ex.clear();
  std::set<size_t> distinct;
  size_t rejected = 0;
  Learner l;
  for (size_t a : recs) {
    if (s[a]) {
      distinct.insert(a);
      l.route(x, a);
    } else {
      ++rejected;
    }
  }
  if (rejected) c.label("rejected records");
  if (recs.empty()) c.label("no records");
  std::string rt;
  for (size_t i = 0; i < recs.size() && i < 20; ++i) rt += bits(recs[i], n) + " ";
  c.note("vtree %s, %zu of %zu accepted, alpha %g, records %s\n", e.vt.str().c_str(), in.size(), s.size(), alpha, rt.c_str());
  std::string fp = fingerprint(x);
  PsddParameter al = PsddParameter::CreateFromDecimal(alpha);
  PsddNode *y = e.m->LearnPsddParameters(x, ex, recs.size(), al, flag);
  WfOptions o;
  o.flag = flag;
  o.normalised = true;
  o.positive = alpha > 0;
  check_wellformed(y, e.m->vtree(), o, "learned PSDD");
  bool choice = check_learned(c, l, x, y, alpha, "learned PSDD");
  if (choice && distinct.size() > 1) c.nontrivial = true;
  PBT_REQUIRE(fingerprint(x) == fp, "the given structure changed");
  // again, and in another order
  PBT_REQUIRE(e.m->LearnPsddParameters(x, ex, recs.size(), al, flag) == y, "learning again gives another PSDD");
  std::vector<size_t> perm = recs;
  c.shuffle(perm);
  if (!ex.empty()) PBT_REQUIRE(e.m->LearnPsddParameters(x, examples(perm), perm.size(), al, flag) == y, "the order of the records changes the result");
  // other data in between, then the original again
  std::vector<size_t> half(recs.begin(), recs.begin() + (long)(recs.size() / 2));
  e.m->LearnPsddParameters(x, examples(half), half.size(), PsddParameter::CreateFromDecimal(1), gen_flag(c));
  PBT_REQUIRE(e.m->LearnPsddParameters(x, ex, recs.size(), al, flag) == y, "an earlier learning run changes the result");
  {  // other flags
    o.flag = another_flag(c, flag);
    PsddNode *y3 = e.m->LearnPsddParameters(x, ex, recs.size(), al, o.flag);
    check_wellformed(y3, e.m->vtree(), o, "learned under another flag");
    same_table(read_table(y3), read_table(y), n, "learned under another flag");
  }
  // other parameters on the same structure
  RandomDoubleFromGammaGenerator g(1.0, 1.0, (uint)c.draw(1000));
  PsddNode *x2 = e.m->SampleParameters(&g, x, gen_flag(c));
  PsddNode *y2 = e.m->LearnPsddParameters(x2, ex, recs.size(), al, flag);
  same_table(read_table(y2), read_table(y), n, "learned from the same structure with other parameters");
  // the learned PSDD as the structure: the same data first, then other data
  PsddNode *y4 = e.m->LearnPsddParameters(y, ex, recs.size(), al, c.flip() ? flag : gen_flag(c));
  Learner l4;  // nodes of the structure may have become one node of the learned PSDD
  for (size_t a : recs)
    if (s[a]) l4.route(y, a);
  check_learned(c, l4, y, y4, alpha, "learned from the learned PSDD");
  size_t cut = c.draw(recs.size() + 1);
  std::vector<size_t> rest(recs.begin() + (long)cut, recs.end());
  PsddNode *from = c.flip() ? y : x;
  Learner l2;
  for (size_t a : rest)
    if (s[a]) l2.route(from, a);
  double alpha2 = alphas[c.draw(6)];
  PsddNode *y5 = e.m->LearnPsddParameters(from, examples(rest), rest.size(), PsddParameter::CreateFromDecimal(alpha2), c.flip() ? flag : gen_flag(c));
  check_learned(c, l2, from, y5, alpha2, "learned from other records");
}
