// P36: work that leaves nothing new behind keeps no memory.
#include <psdd/csvparser.h>
#include <psdd/hypergraph_decomposition_vtree.h>
#include <psdd/jointree_vtree.h>
#include <psdd/minfill_vtree.h>

#include "cnftext.h"
#include "pbt_stub.h"
#include "play.h"

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {
// Does the same work again and again; what it keeps must stop growing.
struct Meter {
  Case &c;
  int done = 0;
  void operator()(const char *what, const std::function<void()> &work) {
    work();
    work();
    size_t least = SIZE_MAX;
    for (int i = 0; i < 6 && least; ++i) {
      size_t before = __sanitizer_get_current_allocated_bytes();
      work();
      size_t after = __sanitizer_get_current_allocated_bytes();
      least = std::min(least, after > before ? after - before : 0);
    }
    c.count(what);
    ++done;
    PBT_REQUIRE(least == 0, "%s: every repetition keeps at least another %zu bytes", what, least);
  }
};

void manager_case(Case &c, Meter &m) {
  Env e(c, gen_n(c, 5, 7));
  int n = e.n();
  SddEnv se;
  se.init(c, e.vt, e.vt.root);
  uintmax_t f0 = gen_flag(c), flag = c.flip() ? f0 : gen_flag(c);
  bool zeros = c.chance(1, 3);
  PsddNode *x = gen_psdd(c, e.vt, e.m, f0, zeros).node, *y = gen_psdd(c, e.vt, e.m, f0, zeros).node;
  if (c.chance(1, 4)) {
    auto all = all_nodes({x});
    x = all[c.draw(all.size())];
  }
  auto order = e.order_of(e.model_of(x->vtree_node()));
  c.note("vtree %s, %zu nodes\n", e.vt.str().c_str(), all_nodes({x}).size());
  if (all_nodes({x}).size() >= 5) c.nontrivial = true;
  std::bitset<MAX_VAR> mask, inst;
  for (auto v : order) {
    if (c.flip()) mask.set(v);
    if (c.flip()) inst.set(v);
  }
  std::string file = pbt::scratch_file("f");
  uint seed = (uint)c.draw(1000);
  int steps = 2 + (int)c.draw(5);
  for (int i = 0; i < steps; ++i) {
    switch (c.draw(22)) {
      case 0: m("listing", [&] { psdd_node_util::SerializePsddNodes(x); psdd_node_util::SerializePsddNodes({x, y}); }); break;
      case 1: m("covered nodes", [&] { psdd_node_util::GetCoveredPsddNodes({x, y}); }); break;
      case 2: m("evaluation", [&] { psdd_node_util::Evaluate(mask, inst, x); psdd_node_util::Evaluate(mask, inst, psdd_node_util::SerializePsddNodes(x)); }); break;
      case 3: m("marginals", [&] { psdd_node_util::GetMarginals(psdd_node_util::SerializePsddNodes(x)); }); break;
      case 4: {
        if (auto d = c.chance(1, 4) ? x->psdd_decision_node() : nullptr) {  // no assignment is possible
          auto z = e.m->GetConformedPsddDecisionNode(d->primes(), d->subs(), std::vector<PsddParameter>(d->primes().size(), PsddParameter::CreateFromDecimal(0)), flag);
          m("most probable of none", [&] { psdd_node_util::GetMPESolution(z); });
        }
        m("most probable assignment", [&] { psdd_node_util::GetMPESolution(x); psdd_node_util::GetMPESolution(psdd_node_util::SerializePsddNodes(x)); });
        break;
      }
      case 5: m("model count", [&] { psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(x)); psdd_node_util::GetPsddSize(x); }); break;
      case 6:
        m("consistency", [&] {
          psdd_node_util::IsConsistent(x, mask, inst);
          psdd_node_util::IsConsistent({x, y}, mask, inst);
          std::unordered_map<uint32_t, bool> q;
          for (auto v : order)
            if (mask[v]) q[v] = inst[v];
          x->IsConsistent(q);
        });
        break;
      case 7:
        m("drawing", [&] {
          RandomDoubleFromUniformGenerator g(0, 1, seed);
          std::bitset<MAX_VAR> b;
          x->DirectSample(&b, &g);
        });
        break;
      case 8: m("file", [&] { psdd_node_util::WritePsddToFile(x, file.c_str()); e.m->ReadPsddFile(file.c_str(), flag); }); break;
      case 9: {
        if (x->vtree_node() != e.m->vtree()) break;
        std::unordered_map<SddLiteral, SddLiteral> map;
        for (int q = 0; q < n; ++q) map[(SddLiteral)e.vt.order[(size_t)q]] = (SddLiteral)se.ids[(size_t)q];
        m("to an SDD", [&] { psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(x), map, se.m); });
        break;
      }
      case 10: {
        Fn f = gen_sdd(c, se.m, n);
        m("from an SDD", [&] { e.m->ConvertSddToPsdd(f.node, se.vtree(), flag); e.m->FromSdd(f.node, se.vtree(), flag, e.m->vtree()); });
        break;
      }
      case 11: {
        Clauses cl(c.draw(8));
        for (auto &q : cl) {
          q.resize(c.chance(1, 8) ? 0 : 1 + c.draw(3));
          for (auto &l : q) l = (SddLiteral)c.pick(e.vt.order) * (c.flip() ? -1 : 1);
        }
        pbt::write_all(file, dimacs(c, cl, n, false));
        m("CNF", [&] { CNF(cl).Compile(e.m, flag); CNF(file.c_str()).Compile(e.m, flag); });
        break;
      }
      case 12: {
        if (!positive(x) || !positive(y)) break;
        PsddNode *z = y;
        if (x->vtree_node() != y->vtree_node()) z = x;
        m("product", [&] { e.m->Multiply(x, z, flag); });
        break;
      }
      case 13: {
        size_t recs = c.draw(80);
        std::unordered_map<int32_t, BatchedPsddValue> ex;
        for (auto q : order) {
          BatchedPsddValue col(recs);
          for (size_t k = 0; k < recs; ++k) col[k] = c.flip();
          ex[(int32_t)q] = col;
        }
        m("learning", [&] { e.m->LearnPsddParameters(x, ex, recs, PsddParameter::CreateFromDecimal(0.5), flag); });
        break;
      }
      case 14:
        m("sampled parameters", [&] {
          RandomDoubleFromUniformGenerator u(0.1, 1, seed);
          RandomDoubleFromGammaGenerator g(2, 1, seed);
          e.m->SampleParameters(&u, x, flag);
          e.m->SampleParametersForMultiplePsdds(&g, {x, y}, flag);
        });
        break;
      case 15: m("loading", [&] { e.m->LoadPsddNode(e.m->vtree(), x, flag); e.m->NormalizePsddNode(e.m->vtree(), x, flag); }); break;
      case 16: m("true node", [&] { e.m->GetTrueNode(e.m->vtree(), flag); e.m->GetTrueNode(x->vtree_node(), flag); }); break;
      case 17:
        m("nodes in use asked for again", [&] {
          for (auto z : all_nodes({x})) {
            if (auto l = z->psdd_literal_node()) e.m->GetPsddLiteralNode(l->literal(), flag);
            if (auto t = z->psdd_top_node()) e.m->GetPsddTopNode(t->variable_index(), flag, t->true_parameter(), t->false_parameter());
            if (auto d = z->psdd_decision_node()) e.m->GetConformedPsddDecisionNode(d->primes(), d->subs(), d->parameters(), flag);
          }
        });
        break;
      case 18: m("a deletion that keeps everything", [&] { e.m->DeleteUnusedPsddNodes({x, y}); }); break;
      case 19:  // counts and flags of a node
        m("activation", [&] {
          auto s = psdd_node_util::SerializePsddNodes(x);
          psdd_node_util::SetActivationFlag(inst, s);
          for (auto z : s) z->ResetActivationFlag();
        });
        break;
      case 20: {
        Env e2(e.vt);
        m("loading into another manager", [&] { e2.m->LoadPsddNode(e2.m->vtree(), x, flag); });
        break;
      }
      default:  // nodes handed to a manager are its own; an unused manager keeps nothing
        m("managers", [&] {
          delete PsddManager::GetPsddManagerFromVtree(e.m->vtree());
          std::unordered_map<uint32_t, uint32_t> map;
          for (auto v : vtree_util::VariablesUnderVtree(se.vtree())) map[(uint32_t)v] = (uint32_t)v;
          delete PsddManager::GetPsddManagerFromSddVtree(se.vtree(), map);
        });
    }
  }
  unlink(file.c_str());
}

void vtree_case(Case &c, Meter &m) {
  int n = gen_n(c, 12, 40);
  VT vt = gen_vtree(c, n);
  Vtree *v = to_sdd_vtree(vt);
  auto vn = zip(vt, v);
  Vtree *at = c.pick(vn);
  if (n > 2) c.nontrivial = true;
  std::vector<SddLiteral> some;
  std::unordered_map<SddLiteral, SddLiteral> map;
  for (auto q : vt.order) {
    if (c.flip()) some.push_back((SddLiteral)q);
    map[(SddLiteral)q] = (SddLiteral)q + 3;
  }
  if (some.empty()) some.push_back((SddLiteral)vt.order[0]);
  std::unordered_set<SddLiteral> set(some.begin(), some.end());
  c.note("vtree %s\n", vt.str().c_str());
  m("copies of vtrees", [&] { sdd_vtree_free(vtree_util::CopyVtree(at)); sdd_vtree_free(vtree_util::CopyVtree(v, map)); });
  m("projections of vtrees", [&] { sdd_vtree_free(vtree_util::ProjectVtree(v, some)); });
  m("vtree listings", [&] {
    vtree_util::SerializeVtree(at);
    vtree_util::VariablesUnderVtree(at);
    vtree_util::LeftToRightLeafTraverse(at);
    vtree_util::SubVtreeByVariables(v, set);
  });
  sdd_vtree_free(v);
}

void data_case(Case &c, Meter &m) {
  int n = 1 + (int)c.draw(100), rows = (int)c.draw(12);
  BinaryData d;
  d.set_variable_size((uint32_t)n);
  std::string json = fmt("{\"variable_size\": %d, \"data\": [", n);
  for (int i = 0; i < rows; ++i) {
    std::bitset<MAX_VAR> b;
    json += i ? ", [" : "[";
    bool first = true;
    for (int v = 1; v <= n; ++v)
      if (c.chance(1, 5)) {
        b.set((size_t)v);
        json += fmt("%s%d", first ? "" : ",", v);
        first = false;
      }
    if (c.chance(1, 6)) json += first ? "0" : ",\"x\"";
    json += "]";
    d.AddRecord(b);
  }
  json += "]}";
  if (c.chance(1, 6)) json = c.flip() ? "{\"data\": []}" : fmt("{\"variable_size\": %d}", n);
  std::string file = pbt::scratch_file("f"), jf = pbt::scratch_file("j");
  pbt::write_all(jf, json);
  if (rows > 2) c.nontrivial = true;
  c.note("%d records of %d variables; %s\n", rows, n, json.c_str());
  m("dataset files", [&] {
    d.WriteFile(file.c_str());
    BinaryData back;
    back.ReadFile(file.c_str());
    back.ReadFile(file.c_str());
    if (rows) back.CalculateEntropy();
  });
  m("sparse data", [&] { delete BinaryData::ReadSparseDataJsonFile(jf.c_str()); });
  unlink(file.c_str());
  unlink(jf.c_str());
}

void csv_case(Case &c, Meter &m) {
  std::string s;
  for (int i = (int)c.draw(300); i > 0; --i) {
    switch (c.draw(6)) {
      case 0: s += '"'; break;
      case 1: s += ','; break;
      case 2: s += c.flip() ? "\n" : "\r\n"; break;
      case 3: s += (char)(1 + c.draw(255)); break;
      case 4: s += std::string(c.draw(80), 'x'); break;
      default: s += c.flip() ? "\"\"" : "1";
    }
  }
  if (s.size() > 5) c.nontrivial = true;
  c.note("%zu bytes\n", s.size());
  std::string file = pbt::scratch_file("f");
  bool no_file = c.chance(1, 10);
  if (!no_file) pbt::write_all(file, s);
  int header = c.flip(), stop = c.chance(1, 4) ? (int)c.draw(4) : INT_MAX;
  const char *delim = c.chance(1, 10) ? c.pick(std::vector<const char *>{"\"", "\n", ""}) : ",";
  m(no_file ? "text of records, without a file" : "text of records", [&] {
    for (int how = 0; how < 2; ++how) {
      CsvParser *p = how ? CsvParser_new(file.c_str(), delim, header) : CsvParser_new_from_string(s.c_str(), delim, header);
      if (!p) continue;
      CsvParser_getHeader(p);
      int k = 0;
      while (k++ < stop) {
        CsvRow *r = CsvParser_getRow(p);
        if (!r) break;
        CsvParser_destroy_row(r);
      }
      CsvParser_getErrorMessage(p);
      CsvParser_destroy(p);
    }
  });
  unlink(file.c_str());
}

void network_case(Case &c, Meter &m) {
  int n = gen_n(c, 5, 7);
  std::vector<uint32_t> vars;
  for (int i = 1; i <= n; ++i) vars.push_back((uint32_t)i);
  c.shuffle(vars);
  VT vt = gen_decision_vtree(c, vars);
  NetOptions no;
  no.vt = &vt;
  Net g = gen_net(c, n, 6, no);
  c.note("%s", net_note(g).c_str());
  if (g.fs.size() > 1) c.nontrivial = true;
  std::string f = pbt::scratch_file("u"), vf = pbt::scratch_file("v");
  pbt::write_all(f, net_text(g, &c));
  Vtree *v = to_sdd_vtree(vt);
  sdd_vtree_save(vf.c_str(), v);
  sdd_vtree_free(v);
  m("network files", [&] {
    UaiNetwork net;
    net.read_file(f.c_str());
    net.read_file(f.c_str());
  });
  PgmCompiler pc(pbt::scratch_root());
  pc.read_uai_file(f.c_str());
  pc.init_psdd_manager_from_vtree(vf.c_str());
  switch (c.draw(5)) {
    case 0: m("factors", [&] { pc.compile_factor(g.fs.size() - 1); }); break;
    case 1: m("networks, one by one", [&] { pc.compile_network(1000); }); break;
    case 2: m("networks, along the vtree", [&] { pc.compile_network_with_vtree(1000); }); break;
    case 3: m("networks, in pairs", [&] { pc.compile_network_dc(1000); }); break;
    default: {
      UaiNetwork net;
      net.read_file(f.c_str());
      m("vtrees of networks", [&] { sdd_vtree_free(MinFillVtree(&net).ConstructVtree()); });
      PgmCompiler pc2(pbt::scratch_root());
      pc2.read_uai_file(f.c_str());
      m("managers for networks", [&] {
        for (int mode : {VTREE_METHOD_MINFILL, VTREE_METHOD_JOINTREE, VTREE_METHOD_HYPER_FIXED_BF}) {
          pc2.init_psdd_manager((char)mode);
          delete pc2.psdd_manager();
        }
        pc2.init_psdd_manager_from_vtree(vf.c_str());
        delete pc2.psdd_manager();
      });
      m("join trees", [&] { sdd_vtree_free(JointreeVtree(&net).ConstructVtree()); });
      m("hypergraph vtrees", [&] { sdd_vtree_free(HypergraphDecompositionVtree(&net, pbt::scratch_root().c_str()).ConstructVtree()); });
    }
  }
  unlink(f.c_str());
  unlink(vf.c_str());
}
}  // namespace

PBT_PROPERTY("P36", "queries, files, repeated constructions of nodes that exist, vtree utilities, datasets, texts of records and networks, each done eight times with the same arguments, the objects it returns given back; the bytes in use must stop growing; non-trivial when a PSDD has at least five nodes, or there are several variables, records or factors") {
  Meter m{c};
  switch (c.draw(8)) {
    case 0: return vtree_case(c, m);
    case 1: return data_case(c, m);
    case 2: return csv_case(c, m);
    case 3: return network_case(c, m);
    default: return manager_case(c, m);
  }
}
