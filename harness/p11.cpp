// P11: DirectSample.
#include "gen.h"
using namespace gen;

namespace {
// A uniform source whose values are scripted.
struct Source : RandomDoubleFromUniformGenerator {
  enum Kind { kUniform, kMin, kMax, kAlmostMax, kAlmostMin, kMixedEnds, kNear };
  int kind;
  uint64_t s;
  std::vector<double> points;
  Source(double lo, double hi, int k, uint64_t seed) : RandomDoubleFromUniformGenerator(lo, hi, 0), kind(k), s(seed) {}
  double at(double u) const { return std::min(max(), std::max(min(), min() + u * (max() - min()))); }
  double generate() override {
    uint64_t x = pbt::splitmix(s);
    double u = (double)(x >> 11) * 0x1p-53;
    switch (kind) {
      case kUniform: return at(u);
      case kMin: return min();
      case kMax: return max();
      case kAlmostMax: return std::nextafter(max(), min());
      case kAlmostMin: return std::nextafter(min(), max());
      case kMixedEnds:
        switch (x % 6) {
          case 0: return min();
          case 1: return max();
          case 2: return std::nextafter(max(), min());
          case 3: return at(1 - 1e-8);
          case 4: return at(1e-8);
          default: return at(u);
        }
      default: {  // close to a boundary between alternatives
        static const double d[] = {0, 1e-16, -1e-16, 1e-9, -1e-9, 6e-8, -6e-8, 1e-6, -1e-6};
        double p = points[(x >> 20) % points.size()];
        return at(p + d[x % 9]);
      }
    }
  }
};
std::vector<double> boundaries(PsddNode *root) {
  std::vector<double> r{0, 1};
  for (auto x : all_nodes({root})) {
    if (auto t = x->psdd_top_node()) {
      r.push_back(std::exp(t->true_parameter().parameter()));
      r.push_back(std::exp(t->false_parameter().parameter()));
    }
    if (auto d = x->psdd_decision_node()) {
      double a = 0;
      for (auto &p : d->parameters()) r.push_back(a += std::exp(p.parameter()));
    }
    if (r.size() > 300) break;
  }
  return r;
}
const double kIv[][2] = {{0, 1}, {-1, 1}, {5, 5.5}, {0, 1e-3}, {-1e6, 1e6}, {1e-300, 3e-300}, {-3, -2}, {0, 1e9}, {1.0, 1.0000001}};

// N * KL(k/N || p): by Chernoff's bound a larger value than x has probability at
// most 2 exp(-x) for independent draws.
double divergence(double k, double n, double p) {
  double q = k / n, r = 0;
  if (q > 0) r += q * std::log(q / p);
  if (q < 1) r += (1 - q) * std::log((1 - q) / (1 - p));
  return n * r;
}
const double kLimit = 45;

void check_frequencies(const std::vector<uint64_t> &cnt, const Table &t, uint64_t draws, int n) {
  for (size_t a = 0; a < cnt.size(); ++a) {
    double p = std::exp(t[a]);
    if (p > 1 - 1e-9) continue;
    if (p == 0) continue;
    double d = divergence((double)cnt[a], (double)draws, p);
    PBT_REQUIRE(!(d > kLimit), "assignment %s drawn %ju times in %ju, its probability is %.9g (divergence %.1f)", bits(a, n).c_str(), (uintmax_t)cnt[a], (uintmax_t)draws, p, d);
  }
  for (int i = 0; i < n; ++i) {
    double p = 0, k = 0;
    for (size_t a = 0; a < cnt.size(); ++a)
      if ((a >> i) & 1) {
        p += std::exp(t[a]);
        k += (double)cnt[a];
      }
    if (p < 1e-12 || p > 1 - 1e-9) continue;
    double d = divergence(k, (double)draws, p);
    PBT_REQUIRE(!(d > kLimit), "leaf %d true %.0f times in %ju, its marginal is %.9g (divergence %.1f)", i, k, (uintmax_t)draws, p, d);
  }
}

void large_case(Case &c) {
  Chain ch;
  gen_chain(c, ch, c.thorough ? 300 : 120, true);
  ch.node[0][0] = renumbered(c, ch.node[0][0]);
  c.label("large");
  c.nontrivial = true;
  auto mask = mask_of(ch.vt.order);
  Source src(0, 1, (int)c.draw(7), c.draw(1u << 30));
  src.points = boundaries(ch.root());
  for (int q = 0; q < 10; ++q) {
    std::bitset<MAX_VAR> inst;
    ch.root()->DirectSample(&inst, &src);
    c.count("draws");
    PBT_REQUIRE((inst & ~mask).none(), "large: a variable outside the PSDD is set");
    double w = chain_value(ch, [&](int k, size_t s) {
      for (int i = 0; i < ch.bn[(size_t)k]; ++i)
        if (inst[ch.vt.order[(size_t)(ch.lo[(size_t)k] + i)]] != (bool)((s >> i) & 1)) return false;
      return true;
    }, false);
    PBT_REQUIRE(w != NINF, "large: drew an assignment of probability 0 (source kind %d)", src.kind);
  }
}
// Alternatives of small probability, drawn from often enough to be seen.
void rare_case(Case &c) {
  c.label("rare alternatives");
  c.nontrivial = true;
  int n = 2 + (int)c.draw(2);
  Env e(c, n);
  Support full((size_t)1 << n, 1);
  Builder bl(c, e.vt, e.m, gen_flag(c));
  bl.single = true;
  int eps_at = 3 + (int)c.draw(3);
  bl.rare = std::pow(10.0, -eps_at) * (2.0 + (double)c.draw(8));
  Built b = bl.build(e.vt.root, full);
  Table t = read_table(b.node);
  auto order = e.vt.order;
  uint64_t draws = 3000000;
  RandomDoubleFromUniformGenerator g(0, 1, (uint)c.draw(1u << 30));
  c.note("distribution %s, %ju draws\n", show_table(t, n).c_str(), (uintmax_t)draws);
  std::vector<uint64_t> cnt(t.size(), 0);
  for (uint64_t d = 0; d < draws; ++d) {
    std::bitset<MAX_VAR> inst;
    b.node->DirectSample(&inst, &g);
    size_t a = 0;
    for (int i = 0; i < n; ++i)
      if (inst[order[(size_t)i]]) a |= (size_t)1 << i;
    ++cnt[a];
  }
  c.count("draws", draws);
  check_frequencies(cnt, t, draws, n);
}
}  // namespace

PBT_PROPERTY("P11", "generated normalised PSDDs (zero parameters included), also inner nodes, drawn from with the real generator over several intervals and seeds, and with scripted sources (uniform, interval ends, next to the ends, next to the boundaries between alternatives); or (1 in 12) chains of up to 360 variables; or (1 in 500) alternatives of probability down to 2e-5 drawn from 3 million times; frequencies compared by a Chernoff bound with false-alarm probability below 1e-15 per case; non-trivial when at least two assignments have positive probability") {
  if (c.draw(12) == 11) return large_case(c);
  if (c.chance(1, 500)) return rare_case(c);
  int n = gen_n(c, 5, 7);
  Env e(c, n);
  Built b = gen_psdd(c, e.vt, e.m, gen_flag(c), true);
  b.node = renumbered(c, b.node);
  PsddNode *x = b.node;
  if (c.chance(1, 5)) {
    auto all = all_nodes({x});
    x = all[c.draw(all.size())];
    c.label("inner node");
  }
  int v = e.model_of(x->vtree_node());
  auto order = e.order_of(v);
  n = (int)order.size();
  Table t = read_table(x);
  auto mask = mask_of(order);
  size_t k = count_support(support_of(t));
  if (k >= 2) c.nontrivial = true;
  if (x->node_type() == LITERAL_NODE_TYPE) c.label("literal");
  if (x->node_type() == TOP_NODE_TYPE) c.label("top");
  std::string fp = fingerprint(x);
  const double *iv = kIv[c.draw(9)];
  int kind = (int)c.draw(8);
  uint64_t seed = c.draw(1u << 30);
  uint64_t draws = c.chance(1, 20) ? 20000 : kind == 0 || kind == 7 ? 2000 : 200;
  c.note("vtree %s, node over %s, distribution %s\ninterval [%g,%g], source kind %d, seed %ju, %ju draws\n", e.vt.str().c_str(), show_vars(order).c_str(), show_table(t, n).c_str(), iv[0], iv[1], kind, (uintmax_t)seed, (uintmax_t)draws);
  auto make = [&]() -> RandomDoubleFromUniformGenerator * {
    if (kind == 7) return new RandomDoubleFromUniformGenerator(iv[0], iv[1], (uint)seed);
    auto s = new Source(iv[0], iv[1], kind, seed);
    s->points = boundaries(x);
    return s;
  };
  std::unique_ptr<RandomDoubleFromUniformGenerator> g(make()), g2(make());
  PBT_REQUIRE(g->min() == iv[0] && g->max() == iv[1], "the source reports another interval");
  if (kind == 7) {
    c.label("library source");
    for (int i = 0; i < 20; ++i) {
      double a = g->generate(), bb = g2->generate();
      PBT_REQUIRE(a >= iv[0] && a <= iv[1], "the source yields %.17g outside [%g,%g]", a, iv[0], iv[1]);
      PBT_REQUIRE(a == bb, "sources with equal seeds differ");
    }
  } else if (kind) {
    c.label("source at the ends or boundaries");
  }
  std::vector<uint64_t> cnt(t.size(), 0);
  for (uint64_t d = 0; d < draws; ++d) {
    std::bitset<MAX_VAR> inst;
    x->DirectSample(&inst, g.get());
    PBT_REQUIRE((inst & ~mask).none(), "a variable outside the PSDD is set");
    size_t a = 0;
    for (int i = 0; i < n; ++i)
      if (inst[order[(size_t)i]]) a |= (size_t)1 << i;
    PBT_REQUIRE(t[a] != NINF, "drew assignment %s, which has probability 0", bits(a, n).c_str());
    ++cnt[a];
    if (d < 50) {
      std::bitset<MAX_VAR> other;
      x->DirectSample(&other, g2.get());
      PBT_REQUIRE(inst == other, "equal seeds give different draws");
    }
  }
  c.count("draws", draws);
  if (kind == 0 || kind == 7) check_frequencies(cnt, t, draws, n);
  PBT_REQUIRE(fingerprint(x) == fp, "drawing changed the PSDD");
}
