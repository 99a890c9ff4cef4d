// P06: every way of asking for consistency against the support of the structure.
#include "gen.h"
using namespace gen;

PBT_PROPERTY("P06", "a generated PSDD (parameters may be 0) or an inner node, with 4 to 15 partial and complete assignments asked in all available ways, or a chain PSDD of up to hundreds of variables; non-trivial when the support is neither everything nor one assignment") {
  if (c.draw(10) == 9) {
    Chain ch;
    gen_chain(c, ch, c.thorough ? 200 : 80, true);
    ch.node[0][0] = renumbered(c, ch.node[0][0]);
    c.nontrivial = true;
    c.label("large");
    // support of the structure: elements and block tables, whatever the weights
    std::vector<std::vector<std::vector<Support>>> sup((size_t)ch.blocks);
    auto ser = psdd_node_util::SerializePsddNodes(ch.root());
    int n = ch.vt.nvars();
    // independent reading: block supports through the accessors
    Reader rd;
    for (int q = 0; q < 6; ++q) {
      std::bitset<MAX_VAR> mb, ib;
      uint64_t dens = c.draw(3);
      for (int i = 0; i < n; ++i) {
        if (dens == 0 || c.draw(dens + 1)) mb.set(ch.vt.order[(size_t)i]);
        if (c.flip()) ib.set(ch.vt.order[(size_t)i]);
      }
      if (q % 2 == 0) {  // a path through the structure, so that it is consistent
        PsddNode *x = ch.root();
        for (int b = 0; b < ch.blocks; ++b) {
          PsddNode *blk = x;
          PsddNode *nx = nullptr;
          if (b + 1 < ch.blocks) {
            auto d = x->psdd_decision_node();
            size_t k = c.draw(d->primes().size());
            blk = d->primes()[k];
            nx = d->subs()[k];
          }
          const Support &s = rd.support(blk);
          std::vector<size_t> okay;
          for (size_t a = 0; a < s.size(); ++a)
            if (s[a]) okay.push_back(a);
          size_t a = okay[c.draw(okay.size())];
          for (int i = 0; i < ch.bn[(size_t)b]; ++i) ib[ch.vt.order[(size_t)(ch.lo[(size_t)b] + i)]] = (a >> i) & 1;
          x = nx;
        }
        if (c.chance(1, 4)) {
          size_t v = ch.vt.order[c.draw((uint64_t)n)];
          ib.flip(v);
        }
      }
      // reachability oracle, block by block
      std::set<PsddNode *> cur{ch.root()};
      bool want = false;
      for (int b = 0; b < ch.blocks; ++b) {
        std::set<PsddNode *> nx;
        bool last = b + 1 == ch.blocks;
        auto fits = [&](PsddNode *blk) {
          const Support &s = rd.support(blk);
          for (size_t a = 0; a < s.size(); ++a) {
            if (!s[a]) continue;
            bool ok = true;
            for (int i = 0; i < ch.bn[(size_t)b]; ++i) {
              size_t v = ch.vt.order[(size_t)(ch.lo[(size_t)b] + i)];
              if (mb[v] && ib[v] != (bool)((a >> i) & 1)) ok = false;
            }
            if (ok) return true;
          }
          return false;
        };
        for (PsddNode *x : cur) {
          if (last) {
            if (fits(x)) want = true;
          } else {
            auto d = x->psdd_decision_node();
            for (size_t k = 0; k < d->primes().size(); ++k)
              if (fits(d->primes()[k])) nx.insert(d->subs()[k]);
          }
        }
        cur = nx;
      }
      c.label(want ? "large consistent" : "large inconsistent");
      PBT_REQUIRE(psdd_node_util::IsConsistent(ch.root(), mb, ib) == want, "large: IsConsistent(root) answers %d, expected %d", !want, want);
      PBT_REQUIRE(psdd_node_util::IsConsistent(ser, mb, ib) == want, "large: IsConsistent(list) answers %d, expected %d", !want, want);
    }
    return;
  }
  int n = gen_n(c, 7, 9);
  Env e(c, n);
  Built b = gen_psdd(c, e.vt, e.m, gen_flag(c), true);
  b.node = renumbered(c, b.node);
  PsddNode *x = b.node;
  if (c.chance(1, 4)) {
    auto all = all_nodes({x});
    x = all[c.draw(all.size())];
    c.label("inner node");
  }
  auto order = e.order_of(e.model_of(x->vtree_node()));
  n = (int)order.size();
  Support s = read_support(x);
  size_t full = s.size() - 1;
  size_t k = count_support(s);
  if (k > 1 && k < s.size()) c.nontrivial = true;
  c.note("vtree %s, node over %s, support of %zu\n", e.vt.str().c_str(), show_vars(order).c_str(), k);
  auto ser = psdd_node_util::SerializePsddNodes(x);
  auto own = mask_of(order);
  int queries = 4 + (int)c.draw(12);
  for (int q = 0; q < queries; ++q) {
    uint64_t mask = q == 0 ? full : c.draw(full + 1), val = c.draw(full + 1);
    bool want = false;
    for (size_t i = 0; i <= full; ++i)
      if (s[i] && ((i ^ val) & mask) == 0) want = true;
    c.label(want ? "consistent" : "inconsistent");
    c.note("mask %s value %s -> %d\n", bits(mask, n).c_str(), bits(val, n).c_str(), want);
    std::bitset<MAX_VAR> mb = to_bitset(mask, order), ib = to_bitset(val & mask, order);
    std::unordered_map<uint32_t, bool> pm;
    for (int i = 0; i < n; ++i)
      if ((mask >> i) & 1) pm[order[(size_t)i]] = (val >> i) & 1;
    if (c.flip()) {
      int z = 1 + (int)c.draw(4);
      for (int i = 0; i < z; ++i) {
        uint32_t f = 1 + (uint32_t)c.draw(c.flip() ? 12 : MAX_VAR - 1);
        bool v = c.flip();
        if (own[f]) {
          if (!mb[f]) ib[f] = v;  // value of an unassigned variable
          continue;
        }
        pm[f] = v;
        mb.set(f);
        ib[f] = v;
      }
      c.label("foreign variables");
    }
    PBT_REQUIRE(x->IsConsistent(pm) == want, "map form answers %d, expected %d", !want, want);
    PBT_REQUIRE(psdd_node_util::IsConsistent(x, mb, ib) == want, "mask form on the root answers %d, expected %d", !want, want);
    PBT_REQUIRE(psdd_node_util::IsConsistent(ser, mb, ib) == want, "mask form on the node list answers %d, expected %d", !want, want);
    for (PsddNode *y : ser) PBT_REQUIRE(!y->activation_flag(), "a node stays activated after the query");
    {  // first k variables
      uint32_t kk = (uint32_t)c.draw(c.flip() ? 12 : 70);
      std::bitset<MAX_VAR> full_inst = to_bitset(val, order);
      for (uint32_t f = 0; f < 80; ++f)
        if (!own[f] && c.flip()) full_inst.set(f);
      bool w2 = false;
      for (size_t i = 0; i <= full; ++i) {
        bool ok = s[i];
        for (int j = 0; j < n && ok; ++j)
          if (order[(size_t)j] <= kk && (((i ^ val) >> j) & 1)) ok = false;
        if (ok) w2 = true;
      }
      PBT_REQUIRE(x->IsConsistent(full_inst, kk) == w2, "first-%u-variables form answers %d, expected %d", kk, !w2, w2);
    }
    if (q < 3) {  // activation by a complete assignment
      std::bitset<MAX_VAR> inst = to_bitset(val, order);
      psdd_node_util::SetActivationFlag(inst, ser);
      Reader rd;
      for (PsddNode *y : ser) {
        auto oy = e.order_of(e.model_of(y->vtree_node()));
        size_t idx = 0;
        for (size_t i = 0; i < oy.size(); ++i)
          if (inst[oy[i]]) idx |= (size_t)1 << i;
        bool w3 = rd.support(y)[idx];
        PBT_REQUIRE(y->activation_flag() == w3, "activation of a node is %d, expected %d", !w3, w3);
      }
      for (PsddNode *y : ser) y->ResetActivationFlag();
      for (PsddNode *y : ser) PBT_REQUIRE(!y->activation_flag(), "ResetActivationFlag leaves a node activated");
    }
    c.count("queries");
  }
}
