// Histories of operations in which every result is written down to the last bit.
#ifndef VERIF_PLAY_H
#define VERIF_PLAY_H
#include "uai.h"

#include <psdd/binary_data.h>
#include <psdd/pgm_compiler.h>
using namespace gen;

namespace {
std::string number(const PsddParameter &p) { return fmt("%a", p.parameter()); }
// Everything there is to see of a PSDD, without addresses.
std::string dump(PsddNode *r) {
  if (!r) return "null\n";
  std::string s;
  for (auto x : psdd_node_util::SerializePsddNodes(r)) {
    s += fmt("%ju:%d:%ju:%ld", x->node_index(), x->node_type(), x->flag_index(), (long)sdd_vtree_position(x->vtree_node()));
    if (auto l = x->psdd_literal_node()) s += fmt(" %d", l->literal());
    if (auto t = x->psdd_top_node()) s += fmt(" %u ", t->variable_index()) + number(t->true_parameter()) + " " + number(t->false_parameter());
    if (auto d = x->psdd_decision_node())
      for (size_t i = 0; i < d->primes().size(); ++i) s += fmt(" (%ju %ju ", d->primes()[i]->node_index(), d->subs()[i]->node_index()) + number(d->parameters()[i]) + ")";
    s += "\n";
  }
  return s;
}
bool positive(PsddNode *r) {
  for (auto x : all_nodes({r})) {
    if (auto t = x->psdd_top_node())
      if (t->true_parameter().parameter() == NINF || t->false_parameter().parameter() == NINF) return false;
    if (auto d = x->psdd_decision_node())
      for (auto &p : d->parameters())
        if (p.parameter() == NINF) return false;
  }
  return true;
}
// Work of no relevance in between, from choices of its own.
struct Noise {
  uint64_t s = 0;
  std::vector<std::unique_ptr<Env>> envs;
  std::vector<void *> blocks;
  void operator()() {
    if (!s) return;
    uint64_t k = pbt::splitmix(s) % 8;
    if (k > 4) return;
    for (int i = 0; i < 20; ++i) {
      size_t z = pbt::splitmix(s) % 400;
      if (!blocks.empty() && pbt::splitmix(s) % 2) {
        std::swap(blocks[pbt::splitmix(s) % blocks.size()], blocks.back());
        ::operator delete(blocks.back());
        blocks.pop_back();
      } else {
        blocks.push_back(::operator new(z));
      }
    }
    if (k > 2) return;
    Case c;
    c.rng = pbt::splitmix(s);
    if (envs.empty() || k == 0) envs.emplace_back(new Env(c, 1 + (int)c.draw(5)));
    Env &e = *envs[c.draw(envs.size())];
    PsddNode *x = gen_psdd(c, e.vt, e.m, gen_flag(c), false).node;
    switch (c.draw(4)) {
      case 0: e.m->Multiply(x, x, 1); break;
      case 1: {
        RandomDoubleFromGammaGenerator g(1, 1, (uint)c.draw(100));
        e.m->SampleParameters(&g, x, 3);
        break;
      }
      case 2: {
        RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(100));
        std::bitset<MAX_VAR> b;
        x->DirectSample(&b, &g);
        break;
      }
      default: e.m->DeleteUnusedPsddNodes({});
    }
  }
  ~Noise() {
    for (auto p : blocks) ::operator delete(p);
  }
};

void network_play(Case &c, Noise &noise, std::vector<std::string> &out, const std::string &path) {
  int n = gen_n(c, 5, 6);
  std::vector<uint32_t> vars;
  for (int i = 1; i <= n; ++i) vars.push_back((uint32_t)i);
  c.shuffle(vars);
  VT vt = gen_vtree_with_vars(c, vars);
  NetOptions no;
  no.vt = &vt;
  Net g = gen_net(c, n, 6, no);
  std::string f = path + ".uai", vf = path + ".vtree", pf = path + ".psdd";
  pbt::write_all(f, net_text(g));
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(vf.c_str(), v);
  sdd_vtree_free(v);
  noise();
  PgmCompiler pc(pbt::scratch_root());
  pc.read_uai_file(f.c_str());
  pc.init_psdd_manager_from_vtree(vf.c_str());
  int k = 1 + (int)c.draw(2);
  for (int i = 0; i < k; ++i) {
    noise();
    uint64_t how = c.draw(3);
    size_t gc = 1 + (size_t)c.draw(4);
    auto r = how == 0 ? pc.compile_network(gc) : how == 1 ? pc.compile_network_with_vtree(gc) : pc.compile_network_dc(gc);
    out.push_back(fmt("network, strategy %ju: %s\n%s", (uintmax_t)how, number(r.second).c_str(), dump(r.first).c_str()));
    if (r.first) {
      psdd_node_util::WritePsddToFile(r.first, pf.c_str());
      out.push_back(pbt::read_all(pf));
    }
  }
  for (auto &x : {f, vf, pf}) unlink(x.c_str());
}

// Files have names that begin with path.
void play(Case &c, Noise &noise, std::vector<std::string> &out, const std::string &path) {
  if (c.chance(1, 5)) return network_play(c, noise, out, path);
  Env e(c, gen_n(c, 5, 7));
  int n = e.n();
  SddEnv se;
  se.init(c, e.vt, e.vt.root);
  std::vector<PsddNode *> live;
  std::string file = path + ".psdd";
  int steps = 6 + (int)c.draw(c.thorough ? 30 : 16);
  auto add = [&](PsddNode *x, const char *what) {
    out.push_back(std::string(what) + ": " + dump(x));
    if (x && live.size() < 8) live.push_back(x);
    else if (x) live[c.draw(live.size())] = x;
  };
  for (int i = 0; i < steps; ++i) {
    noise();
    uintmax_t flag = c.draw(3) == 2 ? gen_flag(c) : 1;
    switch (live.empty() ? c.draw(3) : c.draw(15)) {
      case 0: add(gen_psdd(c, e.vt, e.m, flag, true).node, "nodes one by one"); break;
      case 1: {
        Fn f = gen_sdd(c, se.m, n);
        add(e.m->ConvertSddToPsdd(f.node, se.vtree(), flag), "conversion of an SDD");
        break;
      }
      case 2: {
        std::vector<std::vector<SddLiteral>> cl(c.draw(8));
        for (auto &q : cl) {
          q.resize(1 + c.draw(3));
          for (auto &l : q) l = (SddLiteral)c.pick(e.vt.order) * (c.flip() ? -1 : 1);
        }
        if (c.flip()) {
          std::string s = fmt("p cnf %d %zu\n", n, cl.size());
          for (auto &q : cl) {
            for (auto l : q) s += fmt("%ld ", (long)l);
            s += "0\n";
          }
          pbt::write_all(file, s);
          noise();
          CNF read(file.c_str());
          noise();
          add(read.Compile(e.m, flag), "compiled CNF file");
          break;
        }
        add(CNF(cl).Compile(e.m, flag), "compiled CNF");
        break;
      }
      case 3:
      case 4: {
        PsddNode *a = c.pick(live), *b = c.pick(live);
        if (a->vtree_node() != b->vtree_node() || !positive(a) || !positive(b)) break;
        auto r = e.m->Multiply(a, b, flag);
        out.push_back(number(r.second));
        add(r.first, "product");
        break;
      }
      case 5: {
        PsddNode *a = c.pick(live);
        std::vector<uint32_t> order = e.order_of(e.model_of(a->vtree_node()));
        size_t recs = c.draw(12);
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        for (auto q : order) {
          BatchedPsddValue col(recs);
          for (size_t k = 0; k < recs; ++k) col[k] = c.flip();
          ex[(int32_t)q] = col;
        }
        add(e.m->LearnPsddParameters(a, ex, recs, PsddParameter::CreateFromDecimal(0.5), flag), "learned");
        break;
      }
      case 6: {
        std::vector<PsddNode *> roots;
        for (auto x : live)
          if (c.flip()) roots.push_back(x);
        if (roots.empty()) break;
        std::unique_ptr<RandomDoubleGenerator> g;
        uint seed = (uint)c.draw(1000);
        switch (c.draw(3)) {
          case 0: g.reset(new RandomDoubleFromUniformGenerator(0.1, 1, seed)); break;
          case 1: g.reset(new RandomDoubleFromGammaGenerator(1, 1, seed)); break;
          default: g.reset(new RandomDoubleFromGammaGenerator(2, 1));
        }
        for (auto x : e.m->SampleParametersForMultiplePsdds(g.get(), roots, flag)) add(x, "sampled parameters");
        break;
      }
      case 7: {
        PsddNode *a = c.pick(live);
        psdd_node_util::WritePsddToFile(a, file.c_str());
        out.push_back("file: " + pbt::read_all(file));
        noise();
        add(e.m->ReadPsddFile(file.c_str(), flag), "read");
        break;
      }
      case 8: {
        PsddNode *a = c.pick(live);
        if (c.flip()) add(e.m->NormalizePsddNode(e.m->vtree(), a, flag), "lifted");
        else add(e.m->LoadPsddNode(e.m->vtree(), a, flag), "loaded");
        break;
      }
      case 9: {
        std::vector<PsddNode *> keep;
        for (auto x : live)
          if (c.flip()) keep.push_back(x);
        live = keep;
        e.m->DeleteUnusedPsddNodes(keep);
        if (c.flip()) add(e.m->GetTrueNode(e.m->vtree(), flag), "true node");
        break;
      }
      case 10: {
        auto all = all_nodes({c.pick(live)});
        add(all[c.draw(all.size())], "inner node");
        break;
      }
      case 11: {
        std::vector<PsddNode *> roots;
        for (auto x : live)
          if (c.flip()) roots.push_back(x);
        c.shuffle(roots);
        std::string s = "listing:";
        for (auto x : psdd_node_util::SerializePsddNodes(roots)) s += fmt(" %ju", x->node_index());
        out.push_back(s);
        break;
      }
      case 12: {
        PsddNode *a = c.pick(live);
        auto ser = psdd_node_util::SerializePsddNodes(a);
        auto m = psdd_node_util::GetMPESolution(a);
        std::string s = "most probable: " + number(m.second) + m.first.to_string().substr(MAX_VAR - 200) + " marginals";
        std::map<uint32_t, std::string> q;
        for (auto &z : psdd_node_util::GetMarginals(ser)) q[z.first] = number(z.second.first) + "/" + number(z.second.second);
        for (auto &z : q) s += fmt(" %u:%s", z.first, z.second.c_str());
        std::bitset<MAX_VAR> mask, inst;
        for (auto v : e.vt.order) {
          if (c.flip()) mask.set(v);
          if (c.flip()) inst.set(v);
        }
        s += " value " + number(psdd_node_util::Evaluate(mask, inst, ser));
        s += " in one " + number(psdd_node_util::Evaluate(mask, inst, a)) + fmt(" consistent %d %d", psdd_node_util::IsConsistent(a, mask, inst), psdd_node_util::IsConsistent({a}, mask, inst));
        std::set<uintmax_t> covered;
        for (auto &z : psdd_node_util::GetCoveredPsddNodes({a})) covered.insert(z.first);
        for (auto z : covered) s += fmt(" %ju", z);
        if (c.flip()) {
          std::unordered_map<SddLiteral, SddLiteral> map;
          for (int q = 0; q < n; ++q) map[(SddLiteral)e.vt.order[(size_t)q]] = (SddLiteral)se.ids[(size_t)q];
          s += " function ";
          for (auto b : sdd_table(psdd_node_util::ConvertPsddNodeToSddNode(ser, map, se.m), n)) s += b ? '1' : '0';
        }
        s += " count " + psdd_node_util::ModelCount(ser).get_str() + fmt(" size %ju", (uintmax_t)psdd_node_util::GetPsddSize(a));
        out.push_back(s);
        break;
      }
      case 13: {
        PsddNode *a = c.pick(live);
        RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
        std::string s = "draws:";
        for (int k = 0; k < 5; ++k) {
          std::bitset<MAX_VAR> b;
          a->DirectSample(&b, &g);
          s += " ";
          for (auto v : e.vt.order) s += b[v] ? '1' : '0';
          noise();
        }
        out.push_back(s);
        break;
      }
      default: {
        BinaryData d;
        d.set_variable_size((size_t)n);
        int k = (int)c.draw(10);
        for (int q = 0; q < k; ++q) {
          std::bitset<MAX_VAR> b;
          for (int v = 0; v < n; ++v)
            if (c.flip()) b.set((size_t)v + 1);
          d.AddRecord(b);
        }
        out.push_back(fmt("dataset of %ju: %a", (uintmax_t)d.data_size(), k ? d.CalculateEntropy() : 0));
        std::string s;
        d.WriteFile(file.c_str());
        out.push_back("dataset file: " + pbt::read_all(file));
        noise();
        BinaryData back;
        back.set_variable_size((size_t)n);
        back.ReadFile(file.c_str());
        std::multiset<std::string> rows;
        for (auto &z : back.data()) {
          std::string q = fmt("%ju ", (uintmax_t)z.second);
          for (int v = 1; v <= n; ++v) q += z.first[(size_t)v] ? '1' : '0';
          rows.insert(q);
        }
        std::string t = fmt("dataset read: %ju of %u:", (uintmax_t)back.data_size(), back.variable_size());
        for (auto &q : rows) t += " " + q;
        out.push_back(t);
      }
    }
  }
  unlink(file.c_str());
}
}  // namespace
#endif
