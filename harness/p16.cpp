// P16: every operation's result is well formed, whatever produced its input.
#include "psddfile.h"
using namespace gen;

namespace {
bool positive(PsddNode *r) {
  for (auto x : all_nodes({r})) {
    if (auto t = x->psdd_top_node())
      if (t->true_parameter().parameter() == NINF || t->false_parameter().parameter() == NINF) return false;
    if (auto d = x->psdd_decision_node())
      for (auto &p : d->parameters())
        if (p.parameter() == NINF) return false;
  }
  return true;
}
// Large PSDDs: everything but exclusiveness through tables, which the chain's small
// blocks allow as well because check_wellformed skips only wide left parts.
void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 120 : 40, false);
  c.label("large");
  PsddNode *x = ch.root();
  WfOptions o;
  for (int i = 0; i < 3; ++i) {
    o.flag = gen_flag(c);
    o.normalised = o.positive = true;
    PsddNode *y = nullptr;
    const char *what = "";
    switch (c.draw(4)) {
      case 0: {
        RandomDoubleFromGammaGenerator g(1, 1, (uint)c.draw(1000));
        y = ch.m->SampleParameters(&g, x, o.flag);
        what = "large sampled PSDD";
        break;
      }
      case 1: {
        y = ch.m->Multiply(x, x, o.flag).first;
        what = "large product";
        break;
      }
      case 2: {
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        size_t N = c.draw(6);
        for (auto v : ch.vt.order) ex[(int32_t)v] = BatchedPsddValue(N);
        RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
        for (size_t k = 0; k < N; ++k) {
          std::bitset<MAX_VAR> inst;
          x->DirectSample(&inst, &g);
          for (auto v : ch.vt.order) ex[(int32_t)v][k] = inst[v];
        }
        y = ch.m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(0.5), o.flag);
        what = "large learned PSDD";
        break;
      }
      default: {
        y = ch.m->LoadPsddNode(ch.m->vtree(), x, o.flag);
        what = "large loaded PSDD";
      }
    }
    PBT_REQUIRE(y != nullptr, "%s: null", what);
    check_wellformed(y, ch.m->vtree(), o, what);
    c.nontrivial = true;
    x = y;
  }
}
}  // namespace

PBT_PROPERTY("P16", "pipelines of 2 to 7 operations (conversion, sub-vtree conversion, compilation, product, learning, sampling, loading into a second manager over a refined vtree, reading, normalising), each applied to an earlier result under a random flag, every result examined node by node; or (1 in 15) on chains of up to 120 variables; non-trivial when at least two results have a decision with several alternatives") {
  if (c.draw(15) == 14) return large_case(c);
  int n = gen_n(c, 6, 7);
  Env e(c, n);
  SddEnv se;
  se.init(c, e.vt, e.vt.root);
  Refiner rf(c, e.vt, (int)c.draw(3));
  Refined r = rf.run(e.vt.root);
  Env b(r.vt);
  std::vector<PsddNode *> pool;   // at the root of e
  std::vector<PsddNode *> pool2;  // at the root of b
  int wide = 0;
  auto good = [&](PsddNode *x, Vtree *v, uintmax_t flag, bool norm, bool pos, const char *what) {
    PBT_REQUIRE(x != nullptr, "%s: null", what);
    WfOptions o;
    o.flag = flag;
    o.normalised = norm;
    o.positive = pos;
    check_wellformed(x, v, o, what);
    bool w = false;
    for (auto y : all_nodes({x}))
      if (y->psdd_decision_node() && y->psdd_decision_node()->primes().size() > 1) w = true;
    wide += w;
    c.note("%s, flag %ju: %zu nodes\n", what, flag, all_nodes({x}).size());
    c.count("results");
  };
  int steps = 2 + (int)c.draw(6);
  std::string file = pbt::scratch_file("p16.psdd");
  for (int i = 0; i < steps; ++i) {
    uintmax_t flag = gen_flag(c);
    bool second = !pool2.empty() && c.draw(4) == 3;
    Env &m = second ? b : e;
    auto &pl = second ? pool2 : pool;
    switch (pl.empty() ? c.draw(3) : c.draw(11)) {
      case 0: {
        Fn f = gen_sdd(c, se.m, n);
        PsddNode *x = e.m->ConvertSddToPsdd(f.node, se.vtree(), flag);
        if (!x) break;
        good(x, e.m->vtree(), flag, false, true, "converted PSDD");
        pool.push_back(x);
        break;
      }
      case 1: {
        std::vector<std::vector<SddLiteral>> cl;
        int k = (int)c.draw(5);
        for (int j = 0; j < k; ++j) {
          cl.emplace_back();
          int len = 1 + (int)c.draw(3);
          for (int q = 0; q < len; ++q) {
            SddLiteral v = (SddLiteral)e.vt.order[c.draw((uint64_t)n)];
            cl.back().push_back(c.flip() ? -v : v);
          }
        }
        PsddNode *x = CNF(cl).Compile(e.m, flag);
        if (!x) break;
        good(x, e.m->vtree(), flag, false, true, "compiled CNF");
        pool.push_back(x);
        break;
      }
      case 2: {
        PsddNode *x = gen_psdd(c, e.vt, e.m, flag, true).node;
        good(x, e.m->vtree(), flag, true, false, "generated PSDD");
        pool.push_back(x);
        break;
      }
      case 3: {
        PsddNode *x = c.pick(pl), *y = c.pick(pl);
        if (!positive(x) || !positive(y)) break;
        auto z = m.m->Multiply(x, y, flag);
        if (!z.first) break;
        good(z.first, m.m->vtree(), flag, true, true, "product");
        pl.push_back(z.first);
        break;
      }
      case 4: {
        RandomDoubleFromGammaGenerator g(0.5 + (double)c.draw(4), 1, (uint)c.draw(1000));
        PsddNode *x = m.m->SampleParameters(&g, c.pick(pl), flag);
        good(x, m.m->vtree(), flag, true, true, "sampled PSDD");
        pl.push_back(x);
        break;
      }
      case 5: {
        PsddNode *x = c.pick(pl);
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        size_t N = c.draw(20);
        for (auto v : m.vt.order) {
          BatchedPsddValue col(N);
          for (size_t k = 0; k < N; ++k) col[k] = c.flip();
          ex[(int32_t)v] = col;
        }
        static const double al[] = {1, 0.1, 7};
        PsddNode *y = m.m->LearnPsddParameters(x, ex, N, PsddParameter::CreateFromDecimal(al[c.draw(3)]), flag);
        good(y, m.m->vtree(), flag, true, true, "learned PSDD");
        pl.push_back(y);
        break;
      }
      case 6: {
        PsddNode *x = b.m->LoadPsddNode(b.m->vtree(), c.pick(pool.empty() ? pl : pool), flag);
        good(x, b.m->vtree(), flag, false, false, "loaded PSDD");
        pool2.push_back(x);
        break;
      }
      case 7: {
        PsddNode *x = c.pick(pl);
        psdd_node_util::WritePsddToFile(x, file.c_str());
        PsddNode *y = m.m->ReadPsddFile(file.c_str(), flag);
        good(y, m.m->vtree(), flag, false, false, "read PSDD");
        pl.push_back(y);
        break;
      }
      case 8: {  // a sub-vtree target
        int v = (int)c.draw(m.vt.nodes.size());
        SddEnv sub;
        sub.init(c, m.vt, v);
        Fn f = gen_sdd(c, sub.m, sub.n);
        PsddNode *x;
        if (c.flip()) {
          x = m.m->FromSdd(f.node, sub.vtree(), flag, m.vn[(size_t)v]);
        } else {
          std::unordered_set<SddLiteral> vars;
          for (auto q : m.order_of(v)) vars.insert((SddLiteral)q);
          x = m.m->FromSdd(f.node, sub.vtree(), flag, vars);
        }
        if (!x) break;
        good(x, m.vn[(size_t)v], flag, false, true, "PSDD of a sub-vtree");
        PsddNode *y = m.m->LoadPsddNode(m.m->vtree(), x, flag);
        good(y, m.m->vtree(), flag, false, true, "lifted PSDD of a sub-vtree");
        pl.push_back(y);
        break;
      }
      case 9: {
        int v = (int)c.draw(m.vt.nodes.size());
        good(m.m->GetTrueNode(m.vn[(size_t)v], flag), m.vn[(size_t)v], flag, false, true, "unconstrained PSDD");
        break;
      }
      default: {
        if (c.flip()) m.m->DeleteUnusedPsddNodes(pl);
        auto rs = pl;
        RandomDoubleFromUniformGenerator g(0.5, 2, (uint)c.draw(1000));
        auto out = m.m->SampleParametersForMultiplePsdds(&g, rs, flag);
        for (auto x : out) good(x, m.m->vtree(), flag, true, true, "jointly sampled PSDD");
        pl = out;
      }
    }
    if (pool.size() > 6) pool.erase(pool.begin());
    if (pool2.size() > 6) pool2.erase(pool2.begin());
  }
  unlink(file.c_str());
  c.nontrivial = wide >= 2;
}
