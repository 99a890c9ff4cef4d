// Helpers of the demonstrations: values of PSDDs computed from their nodes only.
#ifndef DEMO_H
#define DEMO_H
#include <psdd/cnf.h>
#include <psdd/psdd_manager.h>
#include <psdd/psdd_node.h>
#include <psdd/psdd_unique_table.h>

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#define CHECK(c)                                             \
  do {                                                       \
    if (!(c)) {                                              \
      fprintf(stderr, "line %d: not true: %s\n", __LINE__, #c); \
      exit(1);                                               \
    }                                                        \
  } while (0)
using Bits = std::bitset<MAX_VAR>;
inline bool near(double a, double b, double tol = 1e-5) { return std::fabs(a - b) <= tol * (1 + std::fabs(b)); }
inline double dec(PsddParameter p) { return std::exp(p.parameter()); }
inline PsddParameter P(double x) { return PsddParameter::CreateFromDecimal(x); }
// the weight the nodes give to a complete assignment
inline double weight(PsddNode *n, const Bits &x) {
  if (n == nullptr) return 0;
  if (auto *l = n->psdd_literal_node()) return x[l->variable_index()] == l->sign();
  if (auto *t = n->psdd_top_node()) return dec(x[t->variable_index()] ? t->true_parameter() : t->false_parameter());
  auto *d = n->psdd_decision_node();
  double s = 0;
  for (size_t i = 0; i < d->primes().size(); ++i) {
    double p = weight(d->primes()[i], x);
    if (p > 0) s += p * weight(d->subs()[i], x) * dec(d->parameters()[i]);
  }
  return s;
}
// assignment number a over the variables 1..n: bit i-1 of a is variable i
inline Bits bits(unsigned a, int n) {
  Bits b;
  for (int i = 1; i <= n; ++i) b[i] = (a >> (i - 1)) & 1;
  return b;
}
inline Bits mask_of(int n) { return bits(~0u, n); }
inline PsddManager *manager(int n, const char *type = "balanced") {
  Vtree *v = sdd_vtree_new(n, type);
  PsddManager *m = PsddManager::GetPsddManagerFromVtree(v);
  sdd_vtree_free(v);
  return m;
}
using Clauses = std::vector<std::vector<SddLiteral>>;
inline PsddNode *psdd(PsddManager *m, const Clauses &c, unsigned seed, uintmax_t flag = 0) {
  PsddNode *n = CNF(c).Compile(m, flag);
  if (n == nullptr) return nullptr;
  RandomDoubleFromUniformGenerator g(0.1, 1.0, seed);
  return m->SampleParameters(&g, n, flag);
}
inline bool holds(const Clauses &c, const Bits &x) {
  for (auto &k : c) {
    bool s = false;
    for (auto l : k) s = s || x[std::labs(l)] == (l > 0);
    if (!s) return false;
  }
  return true;
}
inline std::string work(const std::string &f) { return std::string(getenv("DEMO_WORK")) + "/" + f; }
inline void put(const std::string &f, const std::string &text) {
  std::ofstream o(f);
  o << text;
}
inline std::string get(const std::string &f) {
  std::ifstream i(f);
  std::stringstream s;
  s << i.rdbuf();
  return s.str();
}
#endif
