// P07: ModelCount against counting the table / an integer dynamic program.
#include "gen.h"
using namespace gen;

static void check_count(PsddNode *x, const mpz_class &want) {
  auto ser = psdd_node_util::SerializePsddNodes(x);
  for (int k = 0; k < 2; ++k) {
    mpz_class got = psdd_node_util::ModelCount(ser);
    PBT_REQUIRE(got == want, "model count is %s, expected %s", got.get_str().c_str(), want.get_str().c_str());
  }
}

PBT_PROPERTY("P07", "a generated PSDD, its inner nodes, and equal structures built with other parameters, flags, partitions and managers; or (1 in 4) a chain PSDD of up to hundreds of variables whose count exceeds 64 bits; non-trivial when the count is neither 1 nor 2^n") {
  if (c.draw(4) == 3) {
    Chain ch;
    gen_chain(c, ch, c.thorough ? 300 : 120, true);
    std::vector<std::vector<mpz_class>> val((size_t)ch.blocks);
    Reader rd;
    for (int b = ch.blocks - 1; b >= 0; --b)
      for (size_t k = 0; k < ch.levels[(size_t)b].size(); ++k) {
        mpz_class r = 0;
        PsddNode *x = ch.node[(size_t)b][k];
        if (b + 1 == ch.blocks) {
          r = (unsigned long)count_support(rd.support(x));
        } else {
          // count through the model: which next state each element leads to
          auto d = x->psdd_decision_node();
          for (size_t i = 0; i < d->primes().size(); ++i) {
            size_t nx = 0;
            while (ch.node[(size_t)b + 1][nx] != d->subs()[i]) ++nx;
            r += (unsigned long)count_support(rd.support(d->primes()[i])) * val[(size_t)b + 1][nx];
          }
        }
        val[(size_t)b].push_back(r);
      }
    c.nontrivial = true;
    if (mpz_sizeinbase(val[0][0].get_mpz_t(), 2) > 64) c.label("count over 64 bits");
    c.note("count %s\n", val[0][0].get_str().c_str());
    check_count(renumbered(c, ch.root()), val[0][0]);
    size_t b = c.draw((uint64_t)ch.blocks);
    check_count(ch.node[b][0], val[b][0]);
    return;
  }
  int n = gen_n(c, 8, 11);
  Env e(c, n);
  Support s = gen_support(c, n);
  size_t k = count_support(s);
  if (k > 1 && k < s.size()) c.nontrivial = true;
  c.note("vtree %s, %zu of %zu assignments\n", e.vt.str().c_str(), k, s.size());
  PsddNode *x = renumbered(c, gen_psdd(c, e.vt, e.m, gen_flag(c), true, &s).node);
  check_count(x, (unsigned long)k);
  // the same structure with other parameters, flag and partitions
  PsddNode *y = gen_psdd(c, e.vt, e.m, gen_flag(c), true, &s).node;
  check_count(y, (unsigned long)k);
  // another vtree and manager over the same variables
  if (c.flip()) {
    std::vector<uint32_t> ord = e.vt.order;
    std::vector<size_t> perm((size_t)n);
    for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
    c.shuffle(perm);
    std::vector<uint32_t> o2;
    for (auto i : perm) o2.push_back(ord[i]);
    Support s2(s.size(), 0);
    for (size_t a = 0; a < s.size(); ++a) {
      size_t r = 0;
      for (size_t i = 0; i < perm.size(); ++i)
        if ((a >> perm[i]) & 1) r |= (size_t)1 << i;
      s2[r] = s[a];
    }
    Env e2(gen_vtree_with_vars(c, o2));
    check_count(gen_psdd(c, e2.vt, e2.m, gen_flag(c), true, &s2).node, (unsigned long)k);
    c.label("second manager");
  }
  auto all = all_nodes({x, y});
  for (int q = 0; q < 3; ++q) {
    PsddNode *z = all[c.draw(all.size())];
    check_count(z, (unsigned long)count_support(read_support(z)));
  }
}
