// P17: histories of operations and queries; nothing made earlier ever changes.
#include "psddfile.h"
using namespace gen;

namespace {
struct Obj {
  PsddNode *x;
  int mgr;  // 0 or 1
  Table t;
  Support s;
  std::string fp;
  std::vector<uint32_t> order;
  bool positive, normalised;
  std::map<std::string, std::string> asked;
  std::vector<size_t> recs;  // what it was learned from
};
bool has_zero(PsddNode *r) {
  for (auto x : all_nodes({r})) {
    if (auto t = x->psdd_top_node())
      if (t->true_parameter().parameter() == NINF || t->false_parameter().parameter() == NINF) return true;
    if (auto d = x->psdd_decision_node())
      for (auto &p : d->parameters())
        if (p.parameter() == NINF) return true;
  }
  return false;
}
}  // namespace

PBT_PROPERTY("P17", "histories of 8 to 40 constructions, products, learnings, samplings, loads, file round trips and queries (evaluation, marginals, MPE, consistency, activation, counting, size, listing, drawing, writing, conversion to SDD) over PSDDs of two managers that share nodes; after every operation all live PSDDs are compared with their snapshots, and every query repeated later must answer the same; non-trivial when at least 3 PSDDs lived together and at least one query was repeated after other operations") {
  int n = gen_n(c, 5, 6);
  Env e(c, n);
  Refiner rf(c, e.vt, (int)c.draw(2));
  Refined r = rf.run(e.vt.root);
  Env b(r.vt);
  Env *env[2] = {&e, &b};
  std::vector<Obj> objs;
  std::string file = pbt::scratch_file("p17.psdd");
  bool repeated = false;
  auto add = [&](PsddNode *x, int mgr, bool normalised, const char *what) {
    if (!x) return;
    Obj o;
    o.x = x;
    o.mgr = mgr;
    o.t = read_table(x);
    o.s = read_support(x);
    o.fp = fingerprint(x);
    o.order = env[mgr]->order_of(env[mgr]->model_of(x->vtree_node()));
    o.positive = !has_zero(x);
    o.normalised = normalised;
    objs.push_back(o);
    c.note("#%zu := %s (manager %d, index %ju, over %s)\n", objs.size() - 1, what, mgr, x->node_index(), show_vars(o.order).c_str());
  };
  auto check_all = [&](const char *after) {
    for (size_t i = 0; i < objs.size(); ++i) {
      Obj &o = objs[i];
      PBT_REQUIRE(fingerprint(o.x) == o.fp, "#%zu changed after: %s", i, after);
    }
    std::vector<PsddNode *> roots;
    for (auto &o : objs) roots.push_back(o.x);
    for (auto x : all_nodes(roots)) {
      PBT_REQUIRE(x->user_data() == 0, "a node keeps scratch data after: %s", after);
      PBT_REQUIRE(!x->activation_flag(), "a node stays activated after: %s", after);
    }
  };
  std::vector<Support> sups{gen_support(c, n), gen_support(c, n)};
  SddEnv se;
  se.init(c, e.vt, e.vt.root);
  int steps = 8 + (int)c.draw(c.thorough ? 60 : 32);
  size_t most = 0;
  for (int i = 0; i < steps; ++i) {
    uintmax_t flag = c.draw(3) == 2 ? gen_flag(c) : 1;
    std::string op = "?";
    if (objs.empty() || c.draw(3) == 0) {  // something new
      switch (objs.empty() ? c.draw(2) : c.draw(9)) {
        case 0: op = "generate"; add(gen_psdd(c, e.vt, e.m, flag, true, &c.pick(sups)).node, 0, true, "generated"); break;
        case 1: {
          op = "convert";
          Fn f = gen_sdd(c, se.m, n);
          add(e.m->ConvertSddToPsdd(f.node, se.vtree(), flag), 0, false, "converted");
          break;
        }
        case 2: {
          op = "inner node";
          Obj o = c.pick(objs);
          auto all = all_nodes({o.x});
          add(all[c.draw(all.size())], o.mgr, false, "inner node");
          break;
        }
        case 3:
        case 4: {
          op = "product";
          Obj p = c.pick(objs), q = c.pick(objs);
          if (!p.positive || !q.positive || p.x->vtree_node() != q.x->vtree_node()) break;
          auto z = env[p.mgr]->m->Multiply(p.x, q.x, flag);
          add(z.first, p.mgr, true, "product");
          break;
        }
        case 5: {
          op = "learn";
          Obj o = c.pick(objs);
          if (o.x->vtree_node() != env[o.mgr]->m->vtree()) break;
          bool again = !o.recs.empty() && c.flip();  // a learned PSDD and its own records
          if (again) flag = o.x->flag_index();
          std::vector<size_t> recs = o.recs;
          if (!again) {
            recs.resize(c.draw(12));
            for (auto &a : recs) a = c.draw(o.t.size());
          }
          Learner l;
          for (size_t a : recs)
            if (o.s[a]) l.route(o.x, a);
          std::unordered_map<int32_t, BatchedPsddValue> ex;
          for (size_t q = 0; q < o.order.size(); ++q) {
            BatchedPsddValue col(recs.size());
            for (size_t k = 0; k < recs.size(); ++k) col[k] = (recs[k] >> q) & 1;
            ex[(int32_t)o.order[q]] = col;
          }
          PsddNode *y = env[o.mgr]->m->LearnPsddParameters(o.x, ex, recs.size(), PsddParameter::CreateFromDecimal(1), flag);
          Table want(o.t.size(), NINF);
          for (size_t a = 0; a < want.size(); ++a)
            if (o.s[a]) want[a] = l.weight(o.x, a, 1);
          same_table(read_table(y), want, (int)o.order.size(), "learned");
          size_t before = objs.size();
          add(y, o.mgr, true, again ? "learned again" : "learned");
          if (objs.size() > before) objs.back().recs = recs;
          break;
        }
        case 6: {
          op = "sample parameters";
          std::vector<PsddNode *> roots;
          int mgr = (int)c.draw(2);
          for (auto &o : objs)
            if (o.mgr == mgr && c.flip()) roots.push_back(o.x);
          if (roots.empty()) break;
          RandomDoubleFromGammaGenerator g(1, 1, (uint)c.draw(1000));
          auto out = env[mgr]->m->SampleParametersForMultiplePsdds(&g, roots, flag);
          add(out[c.draw(out.size())], mgr, true, "sampled");
          break;
        }
        case 7: {
          op = "load";
          Obj o = c.pick(objs);
          if (o.mgr == 0) {
            add(b.m->LoadPsddNode(b.m->vtree(), o.x, flag), 1, false, "loaded into the other manager");
          } else {
            add(b.m->LoadPsddNode(b.m->vtree(), o.x, flag), 1, false, "loaded");
          }
          break;
        }
        default: {
          op = "write and read";
          Obj o = c.pick(objs);
          psdd_node_util::WritePsddToFile(o.x, file.c_str());
          add(env[o.mgr]->m->ReadPsddFile(file.c_str(), flag), o.mgr, false, "read");
        }
      }
      most = std::max(most, objs.size());
      check_all(op.c_str());
      if (objs.size() > 14) objs.erase(objs.begin() + (long)c.draw(objs.size()));
      continue;
    }
    // a query
    size_t oi = c.draw(objs.size());
    Obj &o = objs[oi];
    int k = (int)o.order.size();
    size_t full = ((size_t)1 << k) - 1;
    auto ser = psdd_node_util::SerializePsddNodes(o.x);
    uint64_t mask = c.draw(full + 1), val = c.draw(full + 1);
    auto mb = to_bitset(mask, o.order), ib = to_bitset(val, o.order);
    std::string key, ans;
    switch (c.draw(10)) {
      case 0:
        key = fmt("evaluate %s %s", bits(mask, k).c_str(), bits(val & mask, k).c_str());
        mask = 0;  // complete assignments have an oracle also when unnormalised
        {
          double got = psdd_node_util::Evaluate(mask_of(o.order), ib, o.x).parameter();
          PBT_REQUIRE(close(got, o.t[val]), "#%zu: evaluate gives %.9g, expected %.9g", oi, got, o.t[val]);
          ans = o.normalised ? fmt("%.9g", psdd_node_util::Evaluate(mb, ib, ser).parameter()) : "";
        }
        break;
      case 1: {
        if (!o.normalised) continue;
        key = "marginals";
        std::map<uint32_t, std::string> m;
        for (auto &q : psdd_node_util::GetMarginals(ser)) m[q.first] = fmt("%.9g/%.9g", q.second.first.parameter(), q.second.second.parameter());
        for (auto &q : m) ans += fmt("%u:%s ", q.first, q.second.c_str());
        break;
      }
      case 2: {
        key = "mpe";
        auto m = c.flip() ? psdd_node_util::GetMPESolution(o.x) : psdd_node_util::GetMPESolution(ser);
        size_t a = 0;
        for (int q = 0; q < k; ++q)
          if (m.first[o.order[(size_t)q]]) a |= (size_t)1 << q;
        if (o.normalised || o.positive) {
          double best = NINF;
          for (double w : o.t) best = std::max(best, w);
          PBT_REQUIRE(close(m.second.parameter(), best) && close(o.t[a], best), "#%zu: MPE gives %s with %.9g (its weight is %.9g), the best is %.9g", oi, bits(a, k).c_str(), m.second.parameter(), o.t[a], best);
        }
        ans = fmt("%s %.9g", bits(a, k).c_str(), m.second.parameter());
        break;
      }
      case 3: {
        key = fmt("consistent %s %s", bits(mask, k).c_str(), bits(val & mask, k).c_str());
        std::unordered_map<uint32_t, bool> pm;
        for (int q = 0; q < k; ++q)
          if ((mask >> q) & 1) pm[o.order[(size_t)q]] = (val >> q) & 1;
        bool want = false;
        for (size_t a = 0; a <= full; ++a) want = want || (o.s[a] && ((a ^ val) & mask) == 0);
        bool x1 = o.x->IsConsistent(pm), x2 = psdd_node_util::IsConsistent(o.x, mb, ib & mb), x3 = psdd_node_util::IsConsistent(ser, mb, ib & mb);
        PBT_REQUIRE(x1 == want && x2 == want && x3 == want, "#%zu: consistency answers %d %d %d, expected %d", oi, x1, x2, x3, want);
        ans = want ? "yes" : "no";
        break;
      }
      case 4: {
        key = fmt("activation %s", bits(val, k).c_str());
        psdd_node_util::SetActivationFlag(ib, ser);
        ans = o.x->activation_flag() ? "on" : "off";
        PBT_REQUIRE(o.x->activation_flag() == (bool)o.s[val], "#%zu: activation by %s is %s", oi, bits(val, k).c_str(), ans.c_str());
        for (auto y : ser) y->ResetActivationFlag();
        break;
      }
      case 5: {
        key = "count";
        ans = psdd_node_util::ModelCount(ser).get_str();
        PBT_REQUIRE(ans == std::to_string(count_support(o.s)), "#%zu: model count %s, expected %zu", oi, ans.c_str(), count_support(o.s));
        break;
      }
      case 6: {
        key = "size and listing";
        ans = fmt("%ju", (uintmax_t)psdd_node_util::GetPsddSize(o.x));
        for (auto y : ser) ans += fmt(" %ju", y->node_index());
        break;
      }
      case 7: {
        if (!o.normalised) continue;
        uint seed = (uint)c.draw(4);
        key = fmt("draw with seed %u", seed);
        RandomDoubleFromUniformGenerator g(0, 1, seed);
        for (int q = 0; q < 3; ++q) {
          std::bitset<MAX_VAR> inst;
          o.x->DirectSample(&inst, &g);
          size_t a = 0;
          for (int z = 0; z < k; ++z)
            if (inst[o.order[(size_t)z]]) a |= (size_t)1 << z;
          PBT_REQUIRE(o.t[a] != NINF, "#%zu: drew an assignment of probability 0", oi);
          ans += bits(a, k) + " ";
        }
        break;
      }
      case 8: {
        key = "file";
        psdd_node_util::WritePsddToFile(o.x, file.c_str());
        ans = pbt::read_all(file);
        break;
      }
      default: {
        key = "sdd";
        if (o.mgr != 0 || o.x->vtree_node() != e.m->vtree()) continue;
        std::unordered_map<SddLiteral, SddLiteral> vm;
        for (int q = 0; q < n; ++q) vm[(SddLiteral)e.vt.order[(size_t)q]] = (SddLiteral)se.ids[(size_t)q];
        SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(ser, vm, se.m);
        same_support(se.to_leaves(sdd_table(f, n)), o.s, n, "converted to an SDD");
        ans = fmt("%p", (void *)f);
      }
    }
    c.note("#%zu %s -> %.60s\n", oi, key.c_str(), ans.c_str());
    c.count("queries");
    auto it = o.asked.find(key);
    if (it != o.asked.end()) {
      PBT_REQUIRE(it->second == ans, "#%zu: '%s' answered '%.300s' before and '%.300s' now", oi, key.c_str(), it->second.c_str(), ans.c_str());
      repeated = true;
    }
    o.asked[key] = ans;
    check_all(key.c_str());
  }
  unlink(file.c_str());
  c.nontrivial = most >= 3 && repeated;
}
