// Networks of factors over two-valued variables: a model, its oracle and its text.
#ifndef VERIF_UAI_H
#define VERIF_UAI_H
#include "gen.h"
namespace gen {
struct Net {
  int n = 0;
  bool bayes = false;
  struct Factor {
    std::vector<int> scope;          // variables from 1, the last one is the LSB
    std::vector<double> value;       // 2^|scope|
    std::vector<std::string> text;   // the same, as written
  };
  std::vector<Factor> fs;
  // index of an assignment (bit v-1 is variable v) in factor f
  size_t index(const Factor &f, uint64_t x) const {
    size_t i = 0;
    for (int v : f.scope) i = 2 * i + ((x >> (v - 1)) & 1);
    return i;
  }
  double log_factor(size_t k, uint64_t x) const {
    double d = fs[k].value[index(fs[k], x)];
    return d == 0 ? NINF : std::log(d);
  }
  double log_weight(uint64_t x) const {
    double s = 0;
    for (size_t k = 0; k < fs.size(); ++k) {
      double d = log_factor(k, x);
      if (d == NINF) return NINF;
      s += d;
    }
    return s;
  }
  // over a variable order (leaves left to right)
  Table table(const std::vector<uint32_t> &order) const {
    Table t((size_t)1 << order.size());
    for (size_t a = 0; a < t.size(); ++a) {
      uint64_t x = 0;
      for (size_t i = 0; i < order.size(); ++i)
        if ((a >> i) & 1) x |= 1ull << (order[i] - 1);
      t[a] = log_weight(x);
    }
    return t;
  }
  Table factor_table(size_t k, const std::vector<uint32_t> &order) const {
    Table t((size_t)1 << order.size());
    for (size_t a = 0; a < t.size(); ++a) {
      uint64_t x = 0;
      for (size_t i = 0; i < order.size(); ++i)
        if ((a >> i) & 1) x |= 1ull << (order[i] - 1);
      t[a] = log_factor(k, x);
    }
    return t;
  }
};
struct NetOptions {
  bool all_covered = true;
  int max_scope = 4;
  bool zeros = true;
  bool all_zero_factors = true;  // allow factors without a positive entry
  const VT *vt = nullptr;        // keep scopes to those compile_factor supports
};
// Whether, at every vtree node splitting the scope, exactly one of its variables is
// on the left (see the finding on compile_factor in known_findings.txt).
inline int scope_count(const VT &t, int v, const std::set<int> &s, bool &ok) {
  if (t.leaf(v)) return s.count((int)t.nodes[(size_t)v].var) ? 1 : 0;
  int a = scope_count(t, t.nodes[(size_t)v].l, s, ok), b = scope_count(t, t.nodes[(size_t)v].r, s, ok);
  if (a && b && a != 1) ok = false;
  return a + b;
}
inline bool scope_ok(const VT &t, const std::vector<int> &sc) {
  bool ok = true;
  scope_count(t, t.root, std::set<int>(sc.begin(), sc.end()), ok);
  return ok;
}
// A vtree splitting off single variables more often than not.
inline int decision_shape(Case &c, VT &t, int n) {
  VT::N nd;
  nd.lo = (int)t.order.size();
  nd.n = n;
  if (n == 1) {
    t.order.push_back(0);
    t.nodes.push_back(nd);
    return (int)t.nodes.size() - 1;
  }
  int left = c.draw(4) != 3 ? 1 : 1 + (int)c.draw((uint64_t)n - 1);
  nd.l = decision_shape(c, t, left);
  nd.r = decision_shape(c, t, n - left);
  t.nodes.push_back(nd);
  return (int)t.nodes.size() - 1;
}
inline VT gen_decision_vtree(Case &c, const std::vector<uint32_t> &vars) {
  VT t;
  t.root = decision_shape(c, t, (int)vars.size());
  vt_number(t, vars);
  return t;
}
inline std::vector<double> gen_factor_values(Case &c, size_t N, int kind, bool zeros, bool all_zero) {
  std::vector<double> v(std::min<size_t>(N, 8191));  // larger tables repeat
  for (auto &x : v) {
    int k = kind == 5 ? (int)c.draw(5) : kind;
    switch (k) {
      case 0: x = (1.0 + (double)c.draw(20)) / 4; break;
      case 1: x = 1.0; break;
      case 2: x = std::pow(10.0, (double)c.draw(25) - 12.0) * (1.0 + (double)c.draw(8)); break;
      case 3: x = 0.001 * (1.0 + (double)c.draw(998)); break;
      default: {
        static const double eps[] = {0, 1e-9, 1e-8, 3e-7, 1e-5, 1e-3};
        x = 0.5 + eps[c.draw(6)];
      }
    }
  }
  if (zeros) {
    uint64_t p = 1 + c.draw(3);
    for (auto &x : v)
      if (c.draw(5) < p) x = 0;
    bool any = false;
    for (double x : v) any = any || x > 0;
    if (!any && !(all_zero && c.draw(3) == 2)) v[c.draw(v.size())] = 1;
  }
  for (size_t i = v.size(); i < N; ++i) v.push_back(v[i - 8191]);
  return v;
}
inline Net gen_net(Case &c, int n, int max_factors, const NetOptions &o) {
  Net g;
  g.n = n;
  g.bayes = c.flip();
  int kf = 1 + (int)c.draw((uint64_t)max_factors);
  int kind = (int)c.draw(6);
  bool zeros = o.zeros && c.chance(1, 2);
  std::vector<bool> cov((size_t)n + 1, false);
  auto add = [&](std::vector<int> sc) {
    while (o.vt && !scope_ok(*o.vt, sc)) sc.erase(sc.begin() + (long)c.draw(sc.size()));
    Net::Factor f;
    f.scope = sc;
    f.value = gen_factor_values(c, (size_t)1 << sc.size(), kind, zeros && c.flip(), o.all_zero_factors);
    for (int v : sc) cov[(size_t)v] = true;
    g.fs.push_back(f);
  };
  for (int k = 0; k < kf; ++k) {
    if (k && c.draw(6) == 5) {  // the scope of an earlier factor, reordered
      auto sc = g.fs[c.draw(g.fs.size())].scope;
      c.shuffle(sc);
      add(sc);
      continue;
    }
    std::vector<int> vs;
    for (int v = 1; v <= n; ++v) vs.push_back(v);
    int len = 1 + (int)c.draw((uint64_t)std::min(n, o.max_scope));
    std::vector<int> sc;
    for (int j = 0; j < len; ++j) {
      size_t i = c.draw(vs.size());
      sc.push_back(vs[i]);
      vs.erase(vs.begin() + (long)i);
    }
    add(sc);
  }
  if (o.all_covered) {
    std::vector<int> un;
    for (int v = 1; v <= n; ++v)
      if (!cov[(size_t)v]) un.push_back(v);
    c.shuffle(un);
    while (!un.empty()) {
      std::vector<int> sc;
      int len = 1 + (int)c.draw((uint64_t)std::min((int)un.size(), o.max_scope));
      for (int j = 0; j < len; ++j) {
        sc.push_back(un.back());
        un.pop_back();
      }
      if ((int)sc.size() < o.max_scope && (int)sc.size() < n && c.flip()) {  // attach it
        int v = 1 + (int)c.draw((uint64_t)n);
        if (std::find(sc.begin(), sc.end(), v) == sc.end()) sc.insert(sc.begin() + (long)c.draw(sc.size() + 1), v);
      }
      add(sc);
      un.clear();
      for (int v = 1; v <= n; ++v)
        if (!cov[(size_t)v]) un.push_back(v);
    }
  }
  return g;
}
inline std::string net_note(const Net &g) {
  std::string s = fmt("%s, %d variables\n", g.bayes ? "BAYES" : "MARKOV", g.n);
  for (auto &f : g.fs) {
    s += " factor over";
    for (int v : f.scope) s += fmt(" %d", v);
    s += ":";
    for (double d : f.value) s += fmt(" %.17g", d);
    s += "\n";
  }
  return s;
}
// One layout; with c, layouts vary in everything the format leaves open.
inline std::string net_text(Net &g, Case *c = nullptr) {
  size_t drawn = 0;
  uint64_t state = 0;
  auto d = [&](uint64_t n) -> uint64_t {
    if (!c) return 0;
    if (++drawn < 20000) return c->draw(n);
    if (!state) state = c->draw(1u << 20) * 2 + 1;  // the rest of a large text follows from one choice
    state = state * 6364136223846793005ull + 1442695040888963407ull;
    return (state >> 33) % n;
  };
  std::string s = g.bayes ? "BAYES" : "MARKOV";
  s += "\n" + std::to_string(g.n) + "\n";
  for (int i = 0; i < g.n; ++i) s += i ? " 2" : "2";
  s += "\n" + std::to_string(g.fs.size()) + "\n";
  auto gap = [&]() -> std::string {
    switch (d(6)) {
      case 4: return "\t";
      case 5: return "  ";
      default: return " ";
    }
  };
  auto tail = [&]() -> std::string { return d(5) == 4 ? " " : ""; };
  for (auto &f : g.fs) {
    s += std::to_string(f.scope.size());
    for (int v : f.scope) s += gap() + std::to_string(v - 1);
    s += tail() + "\n";
  }
  bool blank = d(3) != 2;
  uint64_t style = d(4);  // of table layout
  for (auto &f : g.fs) {
    if (blank) {
      s += "\n";
      while (d(5) == 4) s += "\n";
      if (d(6) == 5) s += d(2) ? " \n" : "\t\n";
    }
    std::string line = tail();
    s += line + std::to_string(f.value.size());
    uint64_t st = style == 3 ? d(3) : style;
    s += st == 2 ? gap() : tail() + "\n";
    f.text.clear();
    for (size_t i = 0; i < f.value.size(); ++i) {
      double x = f.value[i];
      std::string w;
      switch (d(6)) {
        case 0:
        case 1: w = fmt("%.17g", x); break;
        case 2: w = fmt("%.16e", x); break;
        case 3: w = fmt("%.16E", x); break;
        case 4: w = fmt("%.30f", x); break;
        default: w = x == 0 ? "0" : fmt("+%.17g", x);
      }
      f.text.push_back(w);
      s += (i ? "" : tail()) + w;
      bool last = i + 1 == f.value.size();
      if (last) {
        s += tail() + "\n";
      } else if (st == 1 && d(3) == 0) {
        s += tail() + "\n";
      } else {
        s += gap();
      }
    }
  }
  if (c) {
    uint64_t e = d(4);
    if (e == 3) s += "\n";
    if (e == 2) s.pop_back();
  }
  return s;
}
// A long chain of factors; oracle by dynamic programming.
struct ChainNet {
  struct F {
    int lo, len;
    std::vector<double> lv;  // bit i = place lo+i
  };
  int n = 0;
  Net net;
  VT vt;
  std::vector<uint32_t> name;  // variable at every place
  std::vector<F> fs;
  // log of the total weight of the assignments that ok(place, value) allows
  double value(const std::function<bool(int, bool)> &ok, bool maximise = false) const;
};
// The vtree's leaves follow the chain; fit: only scopes that compile_factor supports on it.
inline ChainNet gen_chain_net(Case &c, int n, bool all_zero, bool fit = true) {
  ChainNet r;
  r.n = n;
  Net g;
  g.n = n;
  g.bayes = c.flip();
  auto &name = r.name;
  for (int i = 1; i <= n; ++i) name.push_back((uint32_t)i);
  if (c.flip()) c.shuffle(name);
  bool zeros = c.chance(1, 3);
  auto &fs = r.fs;
  int lo = 0;
  auto &vt = r.vt;
  vt = c.flip() ? gen_vtree_with_vars(c, name) : gen_decision_vtree(c, name);
  auto add = [&](int at, int len) {
    std::vector<int> win;
    for (int i = 0; i < len; ++i) win.push_back((int)name[(size_t)(at + i)]);
    while (fit && !scope_ok(vt, win)) {
      win.erase(win.begin());
      ++at;
      --len;
    }
    Net::Factor f;
    std::vector<int> pos;
    for (int i = 0; i < len; ++i) pos.push_back(at + i);
    c.shuffle(pos);
    for (int p : pos) f.scope.push_back((int)name[(size_t)p]);
    f.value = gen_factor_values(c, (size_t)1 << len, (int)c.draw(6), zeros && c.draw(4) == 3, all_zero);
    ChainNet::F o{at, len, {}};
    for (size_t a = 0; a < (size_t)1 << len; ++a) {
      size_t i = 0;
      for (int p : pos) i = 2 * i + ((a >> (p - at)) & 1);
      o.lv.push_back(f.value[i] == 0 ? NINF : std::log(f.value[i]));
    }
    g.fs.push_back(f);
    fs.push_back(o);
  };
  while (lo < n) {
    int len = std::min(n - lo, 1 + (int)c.draw(3));
    int at = std::max(0, lo - (int)c.draw(2));
    add(at, std::min(len + lo - at, 4));
    // from the first uncovered place on
    if (fs.back().lo > lo || fs.back().lo + fs.back().len <= lo) add(lo, 1);
    lo = std::max(lo + 1, fs.back().lo == lo && fs.back().len == 1 ? lo + 1 : fs.back().lo + fs.back().len);
  }
  // index order of factors is arbitrary
  std::vector<size_t> perm(g.fs.size());
  for (size_t i = 0; i < perm.size(); ++i) perm[i] = i;
  c.shuffle(perm);
  r.net = g;
  for (size_t i = 0; i < perm.size(); ++i) r.net.fs[i] = g.fs[perm[i]];
  return r;
}
// windows of width up to 4 ending anywhere: state = the last 3 values
inline double ChainNet::value(const std::function<bool(int, bool)> &ok, bool maximise) const {
    std::map<unsigned, double> cur{{0, 0.0}};  // bit j: place i-1-j
    for (int i = 0; i < n; ++i) {
      std::map<unsigned, double> nx;
      for (auto &s : cur)
        for (int b = 0; b < 2; ++b) {
          if (!ok(i, b)) continue;
          unsigned st = (s.first << 1 | (unsigned)b) & 15;
          double w = s.second;
          for (auto &f : fs)
            if (f.lo + f.len - 1 == i) {
              size_t a = 0;
              for (int j = 0; j < f.len; ++j)
                if ((st >> (f.len - 1 - j)) & 1) a |= (size_t)1 << j;
              w += f.lv[a];
            }
          if (w == NINF) continue;
          unsigned key = st & 7;
          auto it = nx.find(key);
          if (it == nx.end()) nx[key] = w; else it->second = maximise ? std::max(it->second, w) : lse(it->second, w);
        }
      cur = nx;
    }
    double r = NINF;
    for (auto &s : cur) r = maximise ? std::max(r, s.second) : lse(r, s.second);
    return r;
}
}  // namespace gen
#endif
