// P18: PsddParameter against long-double arithmetic, over sequences of operations.
#include <psdd/psdd_parameter.h>

#include <limits>

#include "pbt.h"

namespace {
using LD = long double;
const LD LNINF = -std::numeric_limits<LD>::infinity();

struct Val {
  PsddParameter p;
  LD ref;   // reference log
  LD err;   // allowed absolute error of the log
};

LD ref_add(LD a, LD b) {
  if (a == LNINF) return b;
  if (b == LNINF) return a;
  LD m = std::max(a, b), d = std::min(a, b) - m;
  return m + log1pl(expl(d));
}
LD slack(LD x) { return x == LNINF ? 0 : 4e-16L * (1 + fabsl(x)) * 8; }

void check_value(const Val &v, const char *what) {
  double g = v.p.parameter();
  if (v.ref == LNINF) {
    PBT_REQUIRE(std::isinf(g) && g < 0, "%s: log is %.17g, expected zero", what, g);
  } else {
    PBT_REQUIRE(std::isfinite(g), "%s: log is %.17g, expected %.17Lg", what, g, v.ref);
    PBT_REQUIRE(fabsl((LD)g - v.ref) <= v.err + slack(v.ref), "%s: log is %.17g, expected %.17Lg", what, g, v.ref);
  }
}

void check_relations(const PsddParameter &a, const PsddParameter &b) {
  double x = a.parameter(), y = b.parameter();
  bool eq = a == b, ne = a != b, lt = a < b, gt = a > b;
  PBT_REQUIRE(eq == !ne, "== and != agree on logs %.17g and %.17g", x, y);
  PBT_REQUIRE((int)eq + (int)lt + (int)gt == 1, "logs %.17g and %.17g: == %d, < %d, > %d", x, y, eq, lt, gt);
  PBT_REQUIRE((b == a) == eq && (b < a) == gt && (b > a) == lt, "comparison of logs %.17g and %.17g is not symmetric", x, y);
  if (!eq) PBT_REQUIRE(lt == (x < y), "logs %.17g and %.17g are ordered against their value", x, y);
  if (eq) PBT_REQUIRE(a.hash_value() == b.hash_value(), "equal parameters (logs %.17g, %.17g) hash differently", x, y);
  if (x == y) {
    PBT_REQUIRE(eq, "parameters with the same log %.17g differ", x);
  } else if (std::isinf(x) || std::isinf(y)) {
    PBT_REQUIRE(!eq, "zero equals the parameter with log %.17g", std::isinf(x) ? y : x);
  } else {
    double d = std::fabs(x - y);
    if (d > 2e-7 + 1e-12 * std::fabs(x)) PBT_REQUIRE(!eq, "logs %.17g and %.17g compare equal", x, y);
    // clearly inside one cell (cells are cut at multiples of 1e-7)
    double cx = x * 1e7, cy = y * 1e7;
    double fx = cx - std::trunc(cx), fy = cy - std::trunc(cy), m = 1e-3 + 1e-9 * std::fabs(x) + 4e-16 * std::fabs(cx);
    if (std::trunc(cx) == std::trunc(cy) && m < 0.2 && std::fabs(fx) > m && std::fabs(fy) > m && std::fabs(fx) < 1 - m && std::fabs(fy) < 1 - m)
      PBT_REQUIRE(eq, "logs %.17g and %.17g of one cell compare different", x, y);
  }
}

Val make(pbt::Case &c) {
  switch (c.draw(9)) {
    case 0: return {PsddParameter::CreateFromDecimal(1.0), 0, 0};
    case 1: return {PsddParameter::CreateFromDecimal(0.0), LNINF, 0};
    case 2: return {PsddParameter(), LNINF, 0};
    case 3: {
      double d = (1.0 + (double)c.draw(1000)) / (1.0 + (double)c.draw(1000));
      return {PsddParameter::CreateFromDecimal(d), logl((LD)d), 0};
    }
    case 4: {
      double d = std::ldexp(1.0 + c.unit(), c.chance(1, 8) ? (c.flip() ? -1074 + (int)c.draw(80) : 1023 - (int)c.draw(24)) : (int)c.draw(2000) - 1000);
      return {PsddParameter::CreateFromDecimal(d), logl((LD)d), 0};
    }
    case 5: {
      double l = -(double)c.draw(1u << 20) / 64.0;
      return {PsddParameter::CreateFromLog(l), l, 0};
    }
    case 6: {
      double l = ((double)c.draw(1u << 24) - (double)(1 << 23)) / 4096.0;
      return {PsddParameter::CreateFromLog(l), l, 0};
    }
    case 7: {  // around cell boundaries
      double l = -((double)c.draw(1u << 20) + ((double)c.draw(32) - 16) / 16.0) * 1e-7;
      return {PsddParameter::CreateFromLog(l), l, 0};
    }
    default: return {PsddParameter::CreateFromLog(-std::numeric_limits<double>::infinity()), LNINF, 0};
  }
}
}  // namespace

PBT_PROPERTY("P18", "a history of 2 to 24 creations, +, *, /, +=, *=, /=, copies and self-assignments over a pool of parameters, all pairs compared at the end; non-trivial when an arithmetic operation met a finite, non-unit operand") {
  std::vector<Val> pool;
  int n = 2 + (int)c.draw(c.thorough ? 60 : 23);
  bool arith = false;
  for (int k = 0; k < n; ++k) {
    uint64_t op = pool.size() < 2 ? 0 : c.draw(11);
    if (op <= 1) {
      Val v = make(c);
      check_value(v, "creation");
      c.note("v%zu = create log %.17Lg\n", pool.size(), v.ref);
      pool.push_back(v);
      continue;
    }
    size_t i = pool.size() - 1 - c.draw(pool.size()), j = c.draw(pool.size());
    Val a = pool[i], b = pool[j];
    if (op == 2) {  // a value next to an existing one
      static const double eps[] = {0, 1e-12, 1e-9, 2e-8, 6e-8, 9e-8, 1.1e-7, 1.9e-7, 2.1e-7, 1e-6};
      double e = eps[c.draw(10)] * (c.flip() ? -1 : 1);
      if (a.ref == LNINF) e = 0;
      double l = a.p.parameter() + e;
      Val v{PsddParameter::CreateFromLog(l), l, 0};
      check_value(v, "creation from log");
      c.note("v%zu = create log %.17g (next to v%zu)\n", pool.size(), l, i);
      pool.push_back(v);
      continue;
    }
    if (a.ref != LNINF && a.ref != 0 && b.ref != LNINF && b.ref != 0) arith = true;
    int kind = (int)((op - 3) % 3);
    bool compound = op >= 6 && op <= 8, self = op == 9;
    if (op >= 9) kind = (int)c.draw(3);
    if (self) {
      b = a;
      j = i;
    }
    if (kind == 2 && b.ref == LNINF) kind = 1;
    if ((a.ref != LNINF && fabsl(a.ref) > 4e8L) || (b.ref != LNINF && fabsl(b.ref) > 4e8L)) continue;  // out of range
    Val r;
    if (kind == 0) {
      r.ref = ref_add(a.ref, b.ref);
      r.err = std::max(a.ref == LNINF ? 0 : a.err, b.ref == LNINF ? 0 : b.err);
    } else {
      bool z = a.ref == LNINF || b.ref == LNINF;
      r.ref = z ? LNINF : kind == 1 ? a.ref + b.ref : a.ref - b.ref;
      r.err = a.err + b.err;
    }
    if (r.ref != LNINF) r.err += slack(a.ref) + slack(b.ref) + slack(r.ref);
    static const char *names[] = {"+", "*", "/"};
    PsddParameter before_a = pool[i].p, before_b = pool[j].p;
    if (compound || self) {
      // in place; the right operand may be the same object
      PsddParameter copy = pool[i].p;
      PsddParameter bin = kind == 0 ? copy + pool[j].p : kind == 1 ? copy * pool[j].p : copy / pool[j].p;
      PsddParameter *ret = kind == 0 ? &(pool[i].p += pool[j].p) : kind == 1 ? &(pool[i].p *= pool[j].p) : &(pool[i].p /= pool[j].p);
      PBT_REQUIRE(ret == &pool[i].p, "compound assignment does not return its left operand");
      c.note("v%zu %s= v%zu\n", i, names[kind], j);
      pool[i].ref = r.ref;
      pool[i].err = r.err;
      check_value(pool[i], "compound assignment");
      LD d = fabsl((LD)bin.parameter() - (LD)pool[i].p.parameter());
      PBT_REQUIRE(bin.parameter() == pool[i].p.parameter() || d <= slack(r.ref) + r.err, "%s= gives log %.17g, %s gives %.17g", names[kind], pool[i].p.parameter(), names[kind], bin.parameter());
      if (bin.parameter() == pool[i].p.parameter())
        PBT_REQUIRE(bin == pool[i].p && bin.hash_value() == pool[i].p.hash_value() && !(bin < pool[i].p) && !(bin > pool[i].p),
                    "%s= and %s give the same log %.17g but compare or hash differently", names[kind], names[kind], bin.parameter());
      // a copy made from the same log must be indistinguishable
      check_relations(PsddParameter::CreateFromLog(pool[i].p.parameter()), pool[i].p);
      c.label(std::string("op") + names[kind] + "=");
      c.count("operations");
    } else {
      r.p = kind == 0 ? a.p + b.p : kind == 1 ? a.p * b.p : a.p / b.p;
      c.note("v%zu = v%zu %s v%zu\n", pool.size(), i, names[kind], j);
      check_value(r, "binary operator");
      PBT_REQUIRE(a.p.parameter() == before_a.parameter() || std::isinf(before_a.parameter()), "an operand changed");
      check_relations(PsddParameter::CreateFromLog(r.p.parameter()), r.p);
      c.label(std::string("op") + names[kind]);
      c.count("operations");
      pool.push_back(r);
    }
    // neutral and absorbing elements
    const PsddParameter &x = pool.back().p;
    PsddParameter zero, one = PsddParameter::CreateFromDecimal(1);
    PBT_REQUIRE((x + zero).parameter() == x.parameter() && (zero + x).parameter() == x.parameter(), "zero is not neutral for addition at log %.17g", x.parameter());
    PBT_REQUIRE((x * one).parameter() == x.parameter() && (one * x).parameter() == x.parameter(), "one is not neutral for multiplication at log %.17g", x.parameter());
    PBT_REQUIRE(std::isinf((x * zero).parameter()) && (x * zero).parameter() < 0, "zero does not absorb log %.17g", x.parameter());
  }
  for (auto &a : pool)
    for (auto &b : pool) check_relations(a.p, b.p);
  c.count("comparisons", pool.size() * pool.size());
  if (arith) {
    c.nontrivial = true;
    c.label("arithmetic on finite operands");
  }
}
