// P30: the random sources and the parameters sampled with them follow their distributions.
#include "gen.h"
using namespace gen;

namespace {
// Regularised lower incomplete gamma function.
double gamma_cdf(double a, double x) {
  if (x <= 0) return 0;
  double lead = std::exp(a * std::log(x) - x - std::lgamma(a));
  if (x < a + 1) {
    double t = 1 / a, s = t;
    for (int n = 1; n < 100000 && t > s * 1e-16; ++n) s += t *= x / (a + n);
    return s * lead;
  }
  double b = x + 1 - a, cc = 1e300, d = 1 / b, h = d;
  for (int i = 1; i < 100000; ++i) {
    double an = -i * (i - a);
    b += 2;
    d = 1 / (an * d + b);
    cc = b + an / cc;
    double m = d * cc;
    h *= m;
    if (std::fabs(m - 1) < 1e-15) break;
  }
  return 1 - lead * h;
}
double divergence(double k, double n, double p) {
  double q = k / n, r = 0;
  if (q > 0) r += q * std::log(q / p);
  if (q < 1) r += (1 - q) * std::log((1 - q) / (1 - p));
  return n * r;
}
// u: the values' places in their distribution, uniform in [0,1] if all is well. Every
// bound has a probability of less than 1e-15 of being exceeded by independent draws.
void check_uniform(const std::vector<double> &u, const char *what) {
  double N = (double)u.size(), worst = 0;
  std::vector<double> s = u;
  std::sort(s.begin(), s.end());
  for (size_t i = 0; i < s.size(); ++i) worst = std::max({worst, s[i] - (double)i / N, (double)(i + 1) / N - s[i]});
  PBT_REQUIRE(2 * N * worst * worst < 36, "%s: %zu values, their distribution is off by %.4f", what, u.size(), worst);
  for (size_t lag = 1; lag <= 2; ++lag) {
    double cells[4][4] = {};
    double pairs = 0;
    for (size_t i = 0; i + lag < u.size(); i += 2 * lag) {
      auto q = [](double z) { return std::min(3, (int)(z * 4)); };
      cells[q(u[i])][q(u[i + lag])] += 1;
      pairs += 1;
    }
    for (auto &r : cells)
      for (double k : r) PBT_REQUIRE(divergence(k, pairs, 1.0 / 16) < 45, "%s: successive values depend on each other (%.0f of %.0f pairs in a sixteenth)", what, k, pairs);
  }
}
struct Spec {
  bool gamma;
  double a, b;
  uint seed;
  bool seeded;
  RandomDoubleGenerator *make() const {
    if (!gamma) return new RandomDoubleFromUniformGenerator(a, b, seed);
    return seeded ? new RandomDoubleFromGammaGenerator(a, b, seed) : new RandomDoubleFromGammaGenerator(a, b);
  }
  std::string str() const { return fmt("%s(%.17g, %.17g)%s", gamma ? "gamma" : "uniform", a, b, seeded ? fmt(" seed %u", seed).c_str() : ""); }
};
Spec gen_spec(Case &c) {
  Spec s;
  s.gamma = c.flip();
  s.seeded = !s.gamma || !c.chance(1, 5);
  s.seed = s.seeded ? (uint)c.draw(c.flip() ? 10 : UINT32_MAX) : 0;
  if (s.gamma) {
    static const double shapes[] = {1, 0.5, 0.05, 0.9, 1.1, 2, 3.5, 10, 200}, scales[] = {1, 0.5, 2, 1e-3, 1e4, 3};
    s.a = shapes[c.draw(9)];
    s.b = scales[c.draw(6)];
  } else {
    static const double iv[][2] = {{0, 1}, {-1, 1}, {5, 5.5}, {0, 1e-3}, {-1e6, 1e6}, {1e-300, 3e-300}, {-3, -2}, {0, 1e9}, {1, 1.0000001}, {0, 1e300}, {0.25, 4}};
    size_t k = c.draw(11);
    s.a = iv[k][0];
    s.b = iv[k][1];
  }
  return s;
}
void sources_case(Case &c) {
  c.label("sources");
  c.nontrivial = true;
  Spec s = gen_spec(c);
  size_t N = c.chance(1, 8) ? 30000 : 4000;
  c.note("%s, %zu values\n", s.str().c_str(), N);
  std::unique_ptr<RandomDoubleGenerator> g(s.make());
  std::vector<double> v, u;
  for (size_t i = 0; i < N; ++i) {
    double x = g->generate();
    c.count("values");
    v.push_back(x);
    if (s.gamma) {
      PBT_REQUIRE(std::isfinite(x) && x >= 0, "%s yields %.17g", s.str().c_str(), x);
      u.push_back(gamma_cdf(s.a, x / s.b));
    } else {
      PBT_REQUIRE(x >= s.a && x <= s.b, "%s yields %.17g", s.str().c_str(), x);
      u.push_back((x - s.a) / (s.b - s.a));
    }
  }
  check_uniform(u, s.str().c_str());
  if (!s.gamma) {
    auto q = (RandomDoubleFromUniformGenerator *)g.get();
    PBT_REQUIRE(q->min() == s.a && q->max() == s.b, "%s reports the interval [%.17g, %.17g]", s.str().c_str(), q->min(), q->max());
  }
  // other sources drawn from in between do not matter
  std::vector<std::unique_ptr<RandomDoubleGenerator>> others;
  std::unique_ptr<RandomDoubleGenerator> g2(s.make());
  int m = (int)c.draw(3);
  for (int i = 0; i < m; ++i) others.emplace_back((c.flip() ? s : gen_spec(c)).make());
  uint64_t rs = c.draw(1u << 30);
  for (size_t i = 0; i < 300; ++i) {
    for (auto &o : others)
      if (pbt::splitmix(rs) & 1) o->generate();
    if (m && pbt::splitmix(rs) % 100 == 0) others.emplace_back(s.make());
    double x = g2->generate();
    PBT_REQUIRE(x == v[i], "%s: value %zu is %.17g, but %.17g when drawn again", s.str().c_str(), i, v[i], x);
  }
}

// Distinct values, none of them a constant multiple of another pair's ratio.
struct Recorder : RandomDoubleGenerator {
  uint64_t s;
  double shift;
  std::vector<double> logs;
  double generate() override {
    double l = shift + ((double)(pbt::splitmix(s) >> 11) * 0x1p-53 - 0.5) * 6;
    double x = std::exp(l);
    logs.push_back(std::log(x));
    return x;
  }
};
void draws_case(Case &c) {
  c.label("sampled parameters");
  Recorder g;
  std::vector<PsddNode *> roots;
  std::unique_ptr<Env> e;
  Chain ch;
  PsddManager *m;
  if (c.chance(1, 6)) {
    gen_chain(c, ch, 40, true);
    roots.push_back(ch.root());
    m = ch.m;
    c.label("chain");
  } else {
    e.reset(new Env(c, gen_n(c, 6, 8)));
    m = e->m;
    int k = 1 + (int)c.draw(3);
    for (int i = 0; i < k; ++i) {
      PsddNode *x = gen_structure(c, *e, gen_flag(c));
      if (c.chance(1, 3)) {
        auto all = all_nodes({x});
        x = all[c.draw(all.size())];
      }
      roots.push_back(x);
    }
  }
  g.s = c.draw(UINT64_MAX);
  static const double shifts[] = {0, 20, -20, 200, -300};
  g.shift = shifts[c.draw(5)];
  uintmax_t flag = gen_flag(c);
  size_t parameters = 0;  // to be drawn
  for (auto x : all_nodes(roots)) {
    size_t k = x->node_type() == TOP_NODE_TYPE ? 2 : x->node_type() == DECISION_NODE_TYPE ? x->psdd_decision_node()->parameters().size() : 0;
    if (k >= 2) parameters += k;
  }
  std::vector<PsddNode *> res;
  if (roots.size() == 1 && c.flip()) res = {m->SampleParameters(&g, roots[0], flag)};
  else res = m->SampleParametersForMultiplePsdds(&g, roots, flag);
  PBT_REQUIRE(g.logs.size() >= parameters, "%zu values are drawn for %zu parameters of nodes with several alternatives", g.logs.size(), parameters);
  std::vector<std::pair<double, size_t>> by;
  for (size_t i = 0; i < g.logs.size(); ++i) by.push_back({g.logs[i], i});
  std::sort(by.begin(), by.end());
  const double eps = 1e-9;
  auto find = [&](double l) {  // the draws with this logarithm
    std::vector<size_t> r;
    for (auto it = std::lower_bound(by.begin(), by.end(), std::make_pair(l - eps, (size_t)0)); it != by.end() && it->first <= l + eps; ++it) r.push_back(it->second);
    return r;
  };
  std::vector<PsddNode *> used(g.logs.size(), nullptr);
  auto nodes = all_nodes(res);
  size_t several = 0, stride = 1 + nodes.size() * g.logs.size() / 100000, turn = 0;
  c.note("%zu roots, %zu nodes, %zu draws\n", roots.size(), nodes.size(), g.logs.size());
  for (auto x : nodes) {
    std::vector<double> p;
    if (auto t = x->psdd_top_node()) p = {t->true_parameter().parameter(), t->false_parameter().parameter()};
    if (auto d = x->psdd_decision_node())
      for (auto &q : d->parameters()) p.push_back(q.parameter());
    if (p.size() < 2) continue;
    ++several;
    if (turn++ % stride) continue;
    // every scaling that turns the parameters into draws
    size_t fits = 0;
    std::vector<size_t> which;
    for (auto &first : by) {
      double k = first.first - p[0];
      std::vector<size_t> w{first.second};
      bool ok = true, unique = true;
      for (size_t j = 1; j < p.size() && ok; ++j) {
        auto f = find(p[j] + k);
        ok = !f.empty();
        unique = unique && f.size() == 1;
        if (ok) w.push_back(f[0]);
      }
      if (!ok) continue;
      fits += unique ? 1 : 2;
      which = w;
    }
    PBT_REQUIRE(fits, "a node of %zu alternatives has parameters that are no multiples of values drawn", p.size());
    if (fits > 1) continue;  // more than one reading
    c.count("nodes");
    for (size_t d : which) {
      PBT_REQUIRE(!used[d], "a value of the source is used for two parameters");
      used[d] = x;
    }
  }
  c.nontrivial = several >= 2;
}
}  // namespace

PBT_PROPERTY("P30", "1 in 8: 4000 or 30000 values of a uniform or gamma source, compared with the distribution function (Dvoretzky-Kiefer-Wolfowitz bound) and for dependence of successive values, drawn again with other sources in use; otherwise 1 to 3 PSDDs (or a chain) re-parameterised with a recorded source, parameters matched with the values drawn; non-trivial when a source is examined or at least two nodes have several parameters") {
  if (c.draw(8) == 7) return sources_case(c);
  draws_case(c);
}
