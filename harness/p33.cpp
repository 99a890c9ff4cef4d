// P33: effort and results follow the number of distinct nodes, not of paths.
#include "psddfile.h"
using namespace gen;

namespace {
// "The number of these variables that are true is q modulo K": K nodes at every vtree
// node, reached along a number of paths exponential in the depth.  Some leaves are fixed,
// some unconstrained (and do not count).
struct Parity {
  struct El {
    int l, r;  // residue of the left and of the right part
    double w;
  };
  struct Part {
    bool there = false;
    std::vector<El> els;      // of a decision
    double neg = 0, pos = 0;  // of a leaf
    PsddNode *node = nullptr;
  };
  const VT &vt;
  int K;
  std::vector<Part> part[4];
  std::vector<int> kind;  // of a leaf: 0 counted, 1 fixed to false, 2 unconstrained
  Parity(const VT &v, int k) : vt(v), K(k), kind(v.nodes.size(), 0) {
    for (auto &p : part) p.resize(v.nodes.size());
  }
  void build(Case &c, uint64_t &s, PsddManager *m, uintmax_t flag) {
    auto number = [&]() { return 0.05 + (double)(pbt::splitmix(s) >> 11) * 0x1p-53; };
    // model nodes come after their children
    for (size_t v = 0; v < vt.nodes.size(); ++v) {
      const auto &nd = vt.nodes[v];
      for (int q = 0; q < K; ++q) {
        Part &p = part[q][v];
        if (vt.leaf((int)v)) {
          if (q > 1 || (kind[v] && q)) continue;
          p.there = true;
          if (kind[v] == 2) {
            double a = number(), b = number();
            p.neg = std::log(a / (a + b));
            p.pos = std::log(b / (a + b));
            p.node = m->GetPsddTopNode(nd.var, flag, P(p.pos), P(p.neg));
          } else {
            p.neg = q ? NINF : 0;
            p.pos = q ? 0 : NINF;
            p.node = m->GetPsddLiteralNode(q ? (int32_t)nd.var : -(int32_t)nd.var, flag);
          }
          continue;
        }
        std::vector<PsddNode *> pr, su;
        std::vector<PsddParameter> pa;
        double total = 0;
        std::vector<double> w;
        for (int l = 0; l < K; ++l) {
          int rest = (q - l + K) % K;
          if (!part[l][(size_t)nd.l].there || !part[rest][(size_t)nd.r].there) continue;
          p.els.push_back({l, rest, 0});
          w.push_back(number());
          total += w.back();
          pr.push_back(part[l][(size_t)nd.l].node);
          su.push_back(part[rest][(size_t)nd.r].node);
        }
        if (p.els.empty()) continue;
        p.there = true;
        for (size_t i = 0; i < w.size(); ++i) {
          p.els[i].w = std::log(w[i] / total);
          pa.push_back(P(p.els[i].w));
        }
        p.node = m->GetConformedPsddDecisionNode(pr, su, pa, flag);
      }
    }
  }
  PsddNode *root(int q) const { return part[q][(size_t)vt.root].node; }
  template <class F>
  double value(int q, F ok, bool maximise) const {
    std::vector<double> r[4];
    for (auto &x : r) x.assign(vt.nodes.size(), NINF);
    for (size_t v = 0; v < vt.nodes.size(); ++v)
      for (int k = 0; k < K; ++k) {
        const Part &p = part[k][v];
        if (!p.there) continue;
        double &x = r[k][v];
        if (vt.leaf((int)v)) {
          double a = ok(vt.nodes[v].var, false) ? p.neg : NINF, b = ok(vt.nodes[v].var, true) ? p.pos : NINF;
          x = maximise ? std::max(a, b) : lse(a, b);
        }
        for (auto &e : p.els) {
          double a = r[e.l][(size_t)vt.nodes[v].l], b = r[e.r][(size_t)vt.nodes[v].r];
          if (a == NINF || b == NINF) continue;
          x = maximise ? std::max(x, e.w + a + b) : lse(x, e.w + a + b);
        }
      }
    return r[q][(size_t)vt.root];
  }
  mpz_class count(int q) const {
    std::vector<mpz_class> r[4];
    for (auto &x : r) x.resize(vt.nodes.size());
    for (size_t v = 0; v < vt.nodes.size(); ++v)
      for (int k = 0; k < K; ++k) {
        const Part &p = part[k][v];
        if (!p.there) continue;
        if (vt.leaf((int)v)) r[k][v] = kind[v] == 2 ? 2 : 1;
        for (auto &e : p.els) r[k][v] += r[e.l][(size_t)vt.nodes[v].l] * r[e.r][(size_t)vt.nodes[v].r];
      }
    return r[q][(size_t)vt.root];
  }
};
size_t nodes_of(PsddNode *x) { return all_nodes({x}).size(); }
}  // namespace

PBT_PROPERTY("P33", "structures counting modulo 2, 3 or 4 with random parameters over any vtree of 2 to 120 variables (1 in 30: up to 1500), with fixed and unconstrained variables, so that nodes are reached along up to 2^n paths; every query, construction, conversion and file operation must end within the CPU limit of a case, agree with a dynamic program, and yield no more nodes than sharing allows; non-trivial from 30 variables") {
  bool huge = c.chance(1, 30);
  int n = huge ? 300 + (int)c.draw(1200) : 2 + (int)c.draw(119);
  VT vt;
  vt.root = vt_shape(c, vt, n, (int)c.draw(5));
  vt_number(vt, gen_vars(c, n, true));
  Env e(vt);
  int K = c.flip() ? 2 : 2 + (int)c.draw(3);
  Parity a(e.vt, K), b(e.vt, K);
  uint64_t s = c.draw(UINT64_MAX);
  int fixed = (int)c.draw(4);
  for (int i = 0; i < fixed; ++i) {
    size_t v = c.draw(vt.nodes.size());
    if (vt.leaf((int)v)) a.kind[v] = b.kind[v] = 1 + (int)c.draw(2);
  }
  uintmax_t flag = gen_flag(c), other = another_flag(c, flag);
  a.build(c, s, e.m, flag);
  b.build(c, s, e.m, c.flip() ? flag : other);
  int q = (int)c.draw((uint64_t)K);
  while (!a.root(q)) q = (q + 1) % K;
  PsddNode *x = a.root(q), *y = b.root(q);
  size_t N = nodes_of(x);
  double tol = TOL + 4e-7 * n;
  c.note("%d variables, %d modulo %d, %zu nodes, flag %ju\n", n, q, K, N, flag);
  c.nontrivial = n >= 30;
  c.count("nodes", N);
  if (huge) c.label("hundreds of variables");
  auto full = mask_of(vt.order);
  auto any = [](uint32_t, bool) { return true; };
  auto sum_ok = [&](PsddNode *r, double want, const std::bitset<MAX_VAR> &known, const std::bitset<MAX_VAR> &inst, const char *what) {
    double got = psdd_node_util::Evaluate(known, inst, r).parameter();
    PBT_REQUIRE(close(got, want, tol), "%s: log probability %.9g, expected %.9g", what, got, want);
  };
  auto random_values = [&]() {
    std::bitset<MAX_VAR> r;
    for (auto v : vt.order)
      if (pbt::splitmix(s) & 1) r.set(v);
    return r;
  };
  auto ser = psdd_node_util::SerializePsddNodes(x);
  PBT_REQUIRE(ser.size() == N, "listing: %zu nodes of %zu", ser.size(), N);
  std::string file = pbt::scratch_file("p33.psdd");
  int ops = 3 + (int)c.draw(6);
  for (int i = 0; i < ops; ++i) {
    uint64_t op = c.draw(15);
    c.note("operation %ju\n", (uintmax_t)op);
    c.count("operations");
    switch (op) {
      case 0: {  // evaluation of a partial assignment
        auto known = random_values(), inst = random_values();
        if (c.flip()) known |= random_values();
        known &= full;
        sum_ok(x, a.value(q, [&](uint32_t v, bool t) { return !known[v] || inst[v] == t; }, false), known, inst, "evaluation");
        break;
      }
      case 1: {
        auto m = psdd_node_util::GetMarginals(ser);
        PBT_REQUIRE(m.size() == (size_t)n, "marginals of %zu variables instead of %d", m.size(), n);
        for (int k = 0; k < 3; ++k) {
          uint32_t z = c.pick(vt.order);
          double want = a.value(q, [&](uint32_t v, bool t) { return v != z || t; }, false);
          PBT_REQUIRE(close(std::exp(m[z].second.parameter()), std::exp(want), tol), "marginal %.9g, expected %.9g", std::exp(m[z].second.parameter()), std::exp(want));
        }
        break;
      }
      case 2: {
        auto m = c.flip() ? psdd_node_util::GetMPESolution(x) : psdd_node_util::GetMPESolution(ser);
        double best = a.value(q, any, true), is = a.value(q, [&](uint32_t v, bool t) { return m.first[v] == t; }, false);
        PBT_REQUIRE(close(m.second.parameter(), best, tol) && close(is, best, tol), "most probable: %.9g, its probability %.9g, the best %.9g", m.second.parameter(), is, best);
        break;
      }
      case 3: {  // consistency, also with what no assignment extends
        auto known = random_values(), inst = random_values();
        if (c.flip()) {
          known.reset();
          for (int k = 0; k < 3; ++k) known.set(c.pick(vt.order));
        }
        if (c.flip()) {
          known = full;
          for (size_t v = 0; v < vt.nodes.size(); ++v)
            if (vt.leaf((int)v) && a.kind[v] == 1 && c.flip()) inst.reset(vt.nodes[v].var);
        }
        known &= full;
        bool want = a.value(q, [&](uint32_t v, bool t) { return !known[v] || inst[v] == t; }, false) != NINF;
        std::unordered_map<uint32_t, bool> map;
        for (auto v : vt.order)
          if (known[v]) map[v] = inst[v];
        bool r1 = psdd_node_util::IsConsistent(x, known, inst & known), r2 = psdd_node_util::IsConsistent(ser, known, inst & known), r3 = x->IsConsistent(map);
        if (known == full && !c.draw(3)) {
          uint32_t top = *std::max_element(vt.order.begin(), vt.order.end());
          r3 = r3 && x->IsConsistent(inst, top);
          r1 = r1 && r3;
        }
        PBT_REQUIRE(r1 == want && r2 == want && r3 == want, "consistency: %d %d %d, expected %d", r1, r2, r3, want);
        break;
      }
      case 4: {
        auto inst = random_values();
        bool want = a.value(q, [&](uint32_t v, bool t) { return inst[v] == t; }, false) != NINF;
        psdd_node_util::SetActivationFlag(inst, ser);
        PBT_REQUIRE(x->activation_flag() == want, "activation %d, expected %d", x->activation_flag(), want);
        for (auto z : ser) z->ResetActivationFlag();
        break;
      }
      case 5: {
        mpz_class got = psdd_node_util::ModelCount(ser), want = a.count(q);
        PBT_REQUIRE(got == want, "model count %s, expected %s", got.get_str().c_str(), want.get_str().c_str());
        uintmax_t size = 0;
        for (auto z : all_nodes({x}))
          size += z->node_type() == TOP_NODE_TYPE ? 1 : z->node_type() == DECISION_NODE_TYPE ? z->psdd_decision_node()->primes().size() - 1 : 0;
        PBT_REQUIRE(psdd_node_util::GetPsddSize(x) == size, "size %ju, expected %ju", (uintmax_t)psdd_node_util::GetPsddSize(x), size);
        break;
      }
      case 6: {
        RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
        for (int k = 0; k < 3; ++k) {
          std::bitset<MAX_VAR> d;
          x->DirectSample(&d, &g);
          PBT_REQUIRE(a.value(q, [&](uint32_t v, bool t) { return d[v] == t; }, false) != NINF && (d & ~full).none(), "drew an assignment of probability 0");
        }
        break;
      }
      case 7: {
        auto r = c.flip() ? e.m->Multiply(x, y, other) : e.m->Multiply(y, x, other);
        PBT_REQUIRE(r.first, "product: null");
        // one pair of nodes of equal parity at every vtree node
        PBT_REQUIRE(nodes_of(r.first) <= N, "product: %zu nodes, %zu pairs of nodes accept anything in common", nodes_of(r.first), N);
        std::bitset<MAX_VAR> d, d2;
        RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
        x->DirectSample(&d, &g);
        auto at = [&](const Parity &p, const std::bitset<MAX_VAR> &z) { return p.value(q, [&](uint32_t v, bool t) { return z[v] == t; }, false); };
        sum_ok(r.first, at(a, d) + at(b, d) - r.second.parameter(), full, d, "product");
        // nothing in common
        int q2 = (q + 1 + (int)c.draw((uint64_t)K - 1)) % K;
        if (PsddNode *z = b.root(q2)) {
          auto o = c.flip() ? e.m->Multiply(x, z, other) : e.m->Multiply(z, x, other);
          PBT_REQUIRE(!o.first && o.second.parameter() == NINF, "the product of PSDDs with nothing in common is not null");
        }
        if (c.flip()) {  // of a product
          auto t = c.flip() ? e.m->Multiply(r.first, x, flag) : e.m->Multiply(x, r.first, flag);
          PBT_REQUIRE(t.first && nodes_of(t.first) <= N, "product of a product: %zu nodes of %zu", nodes_of(t.first), N);
          sum_ok(t.first, 2 * at(a, d) + at(b, d) - r.second.parameter() - t.second.parameter(), full, d, "product of a product");
        }
        break;
      }
      case 8: {
        Env e2(e.vt);
        PsddNode *z = e2.m->LoadPsddNode(e2.m->vtree(), renumbered(c, x, 4), other);
        PBT_REQUIRE(nodes_of(z) == N, "loaded: %zu nodes of %zu", nodes_of(z), N);
        auto known = random_values() & full, inst = random_values();
        sum_ok(z, a.value(q, [&](uint32_t v, bool t) { return !known[v] || inst[v] == t; }, false), known, inst, "loaded");
        break;
      }
      case 9: {
        RandomDoubleFromGammaGenerator g(1, 1, (uint)c.draw(1000));
        auto z = e.m->SampleParametersForMultiplePsdds(&g, {x, y}, other);
        PBT_REQUIRE(z.size() == 2 && nodes_of(z[0]) <= N && nodes_of(z[1]) <= N, "sampled parameters: %zu and %zu nodes of %zu", nodes_of(z[0]), nodes_of(z[1]), N);
        PBT_REQUIRE(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(z[0])) == a.count(q), "sampled parameters: another model count");
        break;
      }
      case 10: {
        size_t recs = 1 + c.draw(4);
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        for (auto v : vt.order) {
          BatchedPsddValue col(recs);
          for (size_t k = 0; k < recs; ++k) col[k] = pbt::splitmix(s) & 1;
          ex[(int32_t)v] = col;
        }
        PsddNode *z = e.m->LearnPsddParameters(x, ex, recs, PsddParameter::CreateFromDecimal(1), other);
        PBT_REQUIRE(nodes_of(z) <= N, "learned: %zu nodes of %zu", nodes_of(z), N);
        PBT_REQUIRE(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(z)) == a.count(q), "learned: another model count");
        sum_ok(z, 0, std::bitset<MAX_VAR>(), std::bitset<MAX_VAR>(), "learned");
        break;
      }
      case 11: {
        psdd_node_util::WritePsddToFile(x, file.c_str());
        std::string t = pbt::read_all(file);
        size_t lines = 0;
        for (size_t k = 0; k < t.size(); ++k)
          if ((k == 0 || t[k - 1] == '\n') && (t[k] == 'L' || t[k] == 'T' || t[k] == 'D')) ++lines;
        PBT_REQUIRE(lines == N, "file: %zu nodes of %zu", lines, N);
        PsddNode *z = e.m->ReadPsddFile(file.c_str(), other);
        PBT_REQUIRE(z && nodes_of(z) <= N, "read: %zu nodes of %zu", z ? nodes_of(z) : 0, N);
        PBT_REQUIRE(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(z)) == a.count(q), "read: another model count");
        break;
      }
      case 12: {  // to an SDD and back
        if (huge) break;
        SddEnv se;
        se.init(c, e.vt, e.vt.root);
        std::unordered_map<SddLiteral, SddLiteral> map;
        for (int k = 0; k < n; ++k) map[(SddLiteral)e.vt.order[(size_t)k]] = (SddLiteral)se.ids[(size_t)k];
        SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, se.m);
        PsddNode *z = e.m->ConvertSddToPsdd(f, se.vtree(), other);
        PBT_REQUIRE(z, "to an SDD and back: null");
        // at most the nodes and, at every vtree node, an unconstrained one
        PBT_REQUIRE(nodes_of(z) <= N + e.vt.nodes.size(), "to an SDD and back: %zu nodes of %zu", nodes_of(z), N);
        PBT_REQUIRE(psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(z)) == a.count(q), "to an SDD and back: another model count");
        break;
      }
      case 13: {
        e.m->DeleteUnusedPsddNodes({x, y});
        PBT_REQUIRE(psdd_node_util::GetCoveredPsddNodes({x, y}).size() == all_nodes({x, y}).size(), "covered nodes: not one entry per node");
        uint64_t s2 = s;
        (void)s2;
        PsddNode *z = e.m->LoadPsddNode(e.m->vtree(), x, flag);
        PBT_REQUIRE(z == x, "deletion: loading a PSDD in use under its flag gives another node");
        break;
      }
      default: {
        PsddNode *inner = c.pick(ser);
        PsddNode *z = e.m->NormalizePsddNode(e.m->vtree(), inner, flag);
        PBT_REQUIRE(nodes_of(z) <= nodes_of(inner) + 2 * e.vt.nodes.size(), "lifted: %zu nodes from %zu over a vtree of %zu", nodes_of(z), nodes_of(inner), e.vt.nodes.size());
        PBT_REQUIRE(nodes_of(e.m->GetTrueNode(e.m->vtree(), flag)) <= e.vt.nodes.size(), "true node: more nodes than the vtree");
      }
    }
  }
  unlink(file.c_str());
}
