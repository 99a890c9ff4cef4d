// P12: WritePsddToFile and ReadPsddFile.
#include "psddfile.h"
using namespace gen;

namespace {
// Structure and parameters (to the six decimals of the format) of the file against
// the PSDD: every node listed once.
void check_file(const std::string &text, PsddNode *root) {
  FPsdd f = parse_psdd(text);
  auto all = all_nodes({root});
  PBT_REQUIRE(f.nodes.size() == all.size(), "the file lists %zu nodes, the PSDD has %zu", f.nodes.size(), all.size());
  PBT_REQUIRE(f.declared == (long)all.size(), "the header declares %ld nodes, the PSDD has %zu", f.declared, all.size());
  // pair nodes from the root down
  std::map<uint64_t, PsddNode *> pair;
  std::set<PsddNode *> used;
  std::vector<uint64_t> todo;
  auto bind = [&](uint64_t id, PsddNode *x) {
    auto it = pair.find(id);
    if (it != pair.end()) {
      PBT_REQUIRE(it->second == x, "file: line %ju stands for two nodes", (uintmax_t)id);
      return;
    }
    PBT_REQUIRE(used.insert(x).second, "file: a node is listed twice");
    pair[id] = x;
    todo.push_back(id);
  };
  auto num = [&](double got, double want) {
    PBT_REQUIRE(got == want || std::fabs(got - want) <= 5.1e-7, "file: parameter %.9g where the PSDD has %.9g", got, want);
  };
  bind(f.nodes.back().id, root);
  while (!todo.empty()) {
    uint64_t id = todo.back();
    todo.pop_back();
    const FNode &n = f.nodes[f.at[id]];
    PsddNode *x = pair[id];
    PBT_REQUIRE(n.vtree == (long)sdd_vtree_position(x->vtree_node()), "file: a node is listed at vtree id %ld, it is at %ld", n.vtree, (long)sdd_vtree_position(x->vtree_node()));
    if (auto l = x->psdd_literal_node()) {
      PBT_REQUIRE(n.kind == 'L' && n.lit == l->literal(), "file: literal %d is listed as %c %ld", l->literal(), n.kind, n.lit);
    } else if (auto t = x->psdd_top_node()) {
      PBT_REQUIRE(n.kind == 'T' && n.lit == (long)t->variable_index(), "file: top node of %u is listed as %c %ld", t->variable_index(), n.kind, n.lit);
      num(n.neg, t->false_parameter().parameter());
      num(n.pos, t->true_parameter().parameter());
    } else {
      auto d = x->psdd_decision_node();
      PBT_REQUIRE(n.kind == 'D' && n.els.size() == d->primes().size(), "file: a decision node is listed as %c with %zu elements", n.kind, n.els.size());
      for (size_t i = 0; i < n.els.size(); ++i) {
        bind(n.els[i].p, d->primes()[i]);
        bind(n.els[i].s, d->subs()[i]);
        num(n.els[i].w, d->parameters()[i].parameter());
      }
    }
  }
}

void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 200 : 80, true);
  ch.node[0][0] = renumbered(c, ch.node[0][0]);
  c.label("large");
  c.nontrivial = true;
  std::string f = pbt::scratch_file("p12.psdd");
  std::string before = fingerprint(ch.root());
  psdd_node_util::WritePsddToFile(ch.root(), f.c_str());
  check_file(pbt::read_all(f), ch.root());
  PsddManager *m2 = make_manager(ch.vt);
  PsddNode *y = m2->ReadPsddFile(f.c_str(), 3);
  unlink(f.c_str());
  PBT_REQUIRE(y != nullptr, "large: the file reads as null");
  PBT_REQUIRE(fingerprint(ch.root()) == before, "large: writing changed the PSDD");
  mpz_class m1 = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(ch.root())), mm = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(y));
  PBT_REQUIRE(m1 == mm, "large: model count %s became %s", m1.get_str().c_str(), mm.get_str().c_str());
  auto mask = mask_of(ch.vt.order);
  auto ser = psdd_node_util::SerializePsddNodes(y);
  for (int q = 0; q < 4; ++q) {
    std::bitset<MAX_VAR> known, inst;
    for (auto v : ch.vt.order) {
      if (q == 0 || c.draw(4) == 0) known.set(v);
      if (c.flip()) inst.set(v);
    }
    if (q == 1) {  // a drawn assignment
      RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
      inst.reset();
      ch.root()->DirectSample(&inst, &g);
      known = mask;
    }
    double want = chain_value(ch, [&](int k, size_t s) {
      for (int i = 0; i < ch.bn[(size_t)k]; ++i) {
        uint32_t var = ch.vt.order[(size_t)(ch.lo[(size_t)k] + i)];
        if (known[var] && inst[var] != (bool)((s >> i) & 1)) return false;
      }
      return true;
    }, false);
    double got = psdd_node_util::Evaluate(known, inst, ser).parameter();
    PBT_REQUIRE(close(got, want, ch.tol() + 3e-6 * ch.vt.nvars()), "large: log probability %.9g after reading, %.9g before", got, want);
  }
  delete m2;
}
}  // namespace

namespace {
void property(Case &c) {
  if (c.draw(12) == 11) return large_case(c);
  int n = gen_n(c, 6, 8);
  Env e(c, n);
  PsddNode *x = renumbered(c, gen_structure(c, e, gen_flag(c)));
  if (c.chance(1, 6)) {
    auto all = all_nodes({x});
    x = all[c.draw(all.size())];
    c.label("inner node");
  }
  bool zero = false;
  for (auto y : all_nodes({x})) {
    if (y->node_type() == TOP_NODE_TYPE) {
      c.nontrivial = true;
      zero = zero || y->psdd_top_node()->true_parameter().parameter() == NINF || y->psdd_top_node()->false_parameter().parameter() == NINF;
    }
    if (auto d = y->psdd_decision_node()) {
      if (d->primes().size() > 1) c.nontrivial = true;
      for (auto &p : d->parameters()) zero = zero || p.parameter() == NINF;
    }
  }
  if (zero) c.label("zero parameter");
  Table t = read_table(x);
  int k = (int)sdd_vtree_var_count(x->vtree_node());
  Support sup = read_support(x);
  c.note("vtree %s, node at position %ld, %s\n", e.vt.str().c_str(), (long)sdd_vtree_position(x->vtree_node()), show_table(t, k).c_str());
  std::string before = fingerprint(x);
  std::string f = pbt::scratch_file("p12.psdd");
  std::unique_ptr<Env> e2;
  PsddManager *m2 = e.m;
  Vtree *v2 = x->vtree_node();
  if (c.flip()) {
    e2.reset(new Env(e.vt));
    m2 = e2->m;
    v2 = e2->vn[(size_t)e.model_of(x->vtree_node())];
    c.label("read into another manager");
  }
  uintmax_t flag = gen_flag(c);
  double tol = TOL + 3e-6 * k;
  std::string text;
  if (c.draw(3) == 2) {
    text = own_file(c, x);
    pbt::write_all(f, text);
    c.label("file of our own");
  } else {
    if (c.flip()) pbt::write_all(f, std::string(20000, '#'));  // an older, longer file
    psdd_node_util::WritePsddToFile(x, f.c_str());
    text = pbt::read_all(f);
    check_file(text, x);
  }
  c.note("%.1500s", text.c_str());
  PBT_REQUIRE(fingerprint(x) == before, "writing changed the PSDD");
  for (auto y : all_nodes({x})) PBT_REQUIRE(y->user_data() == 0, "a node keeps scratch data after writing");
  PsddNode *y = m2->ReadPsddFile(f.c_str(), flag);
  PBT_REQUIRE(y != nullptr, "the file reads as null");
  WfOptions o;
  o.flag = flag;
  check_wellformed(y, v2, o, "read PSDD");
  same_support(read_support(y), sup, k, "read PSDD");
  same_table(read_table(y), t, k, "read PSDD", tol);
  auto mc = psdd_node_util::ModelCount(psdd_node_util::SerializePsddNodes(y));
  PBT_REQUIRE(mc == (unsigned long)count_support(sup), "the read PSDD has %s models, expected %zu", mc.get_str().c_str(), count_support(sup));
  PsddNode *y2 = m2->ReadPsddFile(f.c_str(), flag);
  PBT_REQUIRE(y2 == y, "reading the same file again gives another node");
  // once more around: the six decimals are kept, so the same node comes back
  std::string f2 = pbt::scratch_file("p12b.psdd");
  psdd_node_util::WritePsddToFile(y, f2.c_str());
  std::string text2 = pbt::read_all(f2);
  check_file(text2, y);
  PsddNode *z = m2->ReadPsddFile(f2.c_str(), flag);
  PBT_REQUIRE(z != nullptr, "the second file reads as null");
  same_table(read_table(z), t, k, "second round", tol);
  psdd_node_util::WritePsddToFile(z, f2.c_str());
  PsddNode *z2 = m2->ReadPsddFile(f2.c_str(), flag);
  PBT_REQUIRE(z2 == z, "writing and reading a PSDD read from a written file gives another node");
  unlink(f.c_str());
  unlink(f2.c_str());
  PBT_REQUIRE(fingerprint(x) == before, "reading changed the written PSDD");
}
}  // namespace

PBT_PROPERTY("P12", "generated PSDDs (zero parameters, unnormalised ones from SDDs, inner nodes included) written and read into the writing manager and into another one over an equal vtree, and files of our own writing (other ids, comments, more digits, other orders); or (1 in 12) chains of up to 240 variables; non-trivial when the PSDD has a decision node with two or more alternatives or an unconstrained variable") {
  int files = pbt::open_files();
  property(c);
  int now = pbt::open_files();
  PBT_REQUIRE(now == files, "%d files are open after the case, %d were before", now, files);
}
