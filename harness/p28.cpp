// P28: ConvertPsddNodeToSddNode against the support; SDD -> PSDD -> SDD.
#include "gen.h"
using namespace gen;

namespace {
mpz_class sdd_models(SddNode *x, Vtree *v, std::map<SddNode *, mpz_class> &memo) {
  // models over the variables below v
  mpz_class r = 0;
  if (sdd_node_is_false(x)) return r;
  if (sdd_node_is_true(x)) {
    r = 1;
    mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), (unsigned long)sdd_vtree_var_count(v));
    return r;
  }
  Vtree *w = sdd_vtree_of(x);
  auto it = memo.find(x);
  if (it != memo.end()) {
    r = it->second;
  } else {
    if (sdd_node_is_literal(x)) {
      r = 1;
    } else {
      SddNode **e = sdd_node_elements(x);
      for (SddSize i = 0; i < sdd_node_size(x); ++i) r += sdd_models(e[2 * i], sdd_vtree_left(w), memo) * sdd_models(e[2 * i + 1], sdd_vtree_right(w), memo);
    }
    memo[x] = r;
  }
  mpz_mul_2exp(r.get_mpz_t(), r.get_mpz_t(), (unsigned long)(sdd_vtree_var_count(v) - sdd_vtree_var_count(w)));
  return r;
}
bool sdd_accepts(SddNode *x, const std::vector<uint8_t> &a, std::map<SddNode *, bool> &memo) {
  if (sdd_node_is_true(x)) return true;
  if (sdd_node_is_false(x)) return false;
  if (sdd_node_is_literal(x)) {
    SddLiteral l = sdd_node_literal(x);
    return a[(size_t)std::labs(l)] == (l > 0);
  }
  auto it = memo.find(x);
  if (it != memo.end()) return it->second;
  SddNode **e = sdd_node_elements(x);
  bool r = false;
  for (SddSize i = 0; i < sdd_node_size(x) && !r; ++i) r = sdd_accepts(e[2 * i], a, memo) && sdd_accepts(e[2 * i + 1], a, memo);
  return memo[x] = r;
}
void large_case(Case &c) {
  c.label("large");
  c.nontrivial = true;
  if (c.flip()) {  // a chain, to an SDD over a vtree of the same shape
    Chain ch;
    gen_chain(c, ch, c.thorough ? 60 : 25, true);
    ch.node[0][0] = renumbered(c, ch.node[0][0]);
    if (ch.blocks > 200) return;
    SddEnv s;
    s.init(c, ch.vt, ch.vt.root);
    int n = s.n;
    std::unordered_map<SddLiteral, SddLiteral> map;
    for (int i = 0; i < n; ++i) map[(SddLiteral)ch.vt.order[(size_t)i]] = (SddLiteral)s.ids[(size_t)i];
    PsddNode *x = ch.root();
    std::string before = fingerprint(x);
    SddNode *f = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(x), map, s.m);
    std::map<SddNode *, mpz_class> memo;
    mpz_class got = sdd_models(f, s.vtree(), memo), want = count_models(x);
    PBT_REQUIRE(got == want, "large: the SDD has %s models, the PSDD %s", got.get_str().c_str(), want.get_str().c_str());
    PBT_REQUIRE(fingerprint(x) == before, "large: the PSDD changed");
    for (int q = 0; q < 10; ++q) {
      std::bitset<MAX_VAR> a;
      if (q < 8) {
        RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1000));
        x->DirectSample(&a, &g);
        if (q > 3) a.flip(c.pick(ch.vt.order));
      } else {
        for (auto v : ch.vt.order)
          if (c.flip()) a.set(v);
      }
      std::vector<uint8_t> b((size_t)n + 1);
      for (int i = 0; i < n; ++i) b[s.ids[(size_t)i]] = a[ch.vt.order[(size_t)i]];
      std::map<SddNode *, bool> m2;
      PBT_REQUIRE(sdd_accepts(f, b, m2) == Acceptor(a)(x), "large: SDD and PSDD disagree on an assignment");
    }
  } else {  // a wide or long formula and back
    int n = 8 + (int)c.draw(c.flip() ? 10 : 60);
    VT t;
    t.root = vt_shape(c, t, n, c.flip() ? 2 : (int)c.draw(5));
    vt_number(t, gen_vars(c, n, true));
    SddEnv s;
    s.init(c, t, t.root);
    Blocks b = gen_blocks(c, n);
    SddNode *f = blocks_sdd(b, s.m, s.ids);
    std::unordered_map<uint32_t, uint32_t> map;
    std::unordered_map<SddLiteral, SddLiteral> back;
    for (int i = 0; i < n; ++i) {
      map[s.ids[(size_t)i]] = t.order[(size_t)i];
      back[(SddLiteral)t.order[(size_t)i]] = (SddLiteral)s.ids[(size_t)i];
    }
    std::unique_ptr<PsddManager> m(PsddManager::GetPsddManagerFromSddVtree(s.vtree(), map));
    c.note("large: %d variables, %s\n", n, show_blocks(b).c_str());
    PsddNode *x = m->ConvertSddToPsdd(f, s.vtree(), gen_flag(c));
    PBT_REQUIRE(x != nullptr, "large: a satisfiable SDD gives the null PSDD");
    PBT_REQUIRE(psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(x), back, s.m) == f, "large: SDD -> PSDD -> SDD gives another SDD node");
  }
}
}  // namespace

PBT_PROPERTY("P28", "a generated PSDD (or inner node) converted to an SDD over an independent vtree under a random one-to-one variable renaming, and an SDD converted to a PSDD and back; or (1 in 40) over up to hundreds of variables or with up to 128 alternatives; non-trivial when the support is neither everything nor a single assignment") {
  if (c.draw(40) == 39) return large_case(c);
  int n = gen_n(c, 7, 9);
  if (c.flip()) {
    Env e(c, n);
    Built b = gen_psdd(c, e.vt, e.m, gen_flag(c), true);
    b.node = renumbered(c, b.node);
    PsddNode *x = b.node;
    if (c.chance(1, 4)) {
      auto all = all_nodes({x});
      x = all[c.draw(all.size())];
      c.label("inner node");
    }
    auto order = e.order_of(e.model_of(x->vtree_node()));
    int k = (int)order.size();
    Support s = read_support(x);
    size_t cnt = count_support(s);
    if (cnt > 1 && cnt < s.size()) c.nontrivial = true;
    // an SDD manager with at least k variables, its own shape and numbering
    int N = k + (int)c.draw(3);
    VT t2 = gen_vtree(c, N, false);
    SddEnv sd;
    sd.init(c, t2, t2.root);
    std::vector<uint32_t> target;
    for (int i = 1; i <= N; ++i) target.push_back((uint32_t)i);
    c.shuffle(target);
    std::unordered_map<SddLiteral, SddLiteral> map;
    for (int i = 0; i < k; ++i) map[(SddLiteral)order[(size_t)i]] = (SddLiteral)target[(size_t)i];
    c.note("PSDD over %s, %zu models; SDD variables %s\n", show_vars(order).c_str(), cnt, show_vars(target).c_str());
    std::string before = fingerprint(x);
    auto ser = psdd_node_util::SerializePsddNodes(x);
    SddNode *y = psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sd.m);
    Support got = sdd_table(y, N);
    for (size_t a = 0; a < got.size(); ++a) {
      size_t idx = 0;
      for (int i = 0; i < k; ++i)
        if ((a >> (target[(size_t)i] - 1)) & 1) idx |= (size_t)1 << i;
      PBT_REQUIRE(!!got[a] == !!s[idx], "SDD assignment %s is %s, the PSDD says %d", bits(a, N).c_str(), got[a] ? "accepted" : "rejected", s[idx]);
    }
    PBT_REQUIRE(psdd_node_util::ConvertPsddNodeToSddNode(ser, map, sd.m) == y, "converting again gives another SDD");
    PBT_REQUIRE(fingerprint(x) == before, "the PSDD changed");
    for (PsddNode *z : ser) PBT_REQUIRE(z->user_data() == 0, "a node keeps scratch data");
    c.label("PSDD to SDD");
  } else {
    VT t = gen_vtree(c, n);
    SddEnv s;
    s.init(c, t, t.root);
    std::unordered_map<uint32_t, uint32_t> map;
    std::unordered_map<SddLiteral, SddLiteral> back;
    for (int i = 0; i < n; ++i) {
      map[s.ids[(size_t)i]] = t.order[(size_t)i];
      back[(SddLiteral)t.order[(size_t)i]] = (SddLiteral)s.ids[(size_t)i];
    }
    std::unique_ptr<PsddManager> m(PsddManager::GetPsddManagerFromSddVtree(s.vtree(), map));
    Fn f = gen_sdd(c, s.m, n);
    size_t cnt = count_support(f.t);
    c.note("vtree %s, %zu models\n", t.str().c_str(), cnt);
    PsddNode *x = m->ConvertSddToPsdd(f.node, s.vtree(), gen_flag(c));
    if (!x) return;
    if (cnt > 1 && cnt < f.t.size()) c.nontrivial = true;
    SddNode *y = psdd_node_util::ConvertPsddNodeToSddNode(psdd_node_util::SerializePsddNodes(x), back, s.m);
    PBT_REQUIRE(y == f.node, "SDD -> PSDD -> SDD gives another SDD node");
    c.label("SDD to PSDD to SDD");
  }
}
