// An independent reader and writer of the PSDD file format.
#ifndef VERIF_PSDDFILE_H
#define VERIF_PSDDFILE_H
#include "gen.h"
namespace gen {
struct FNode {
  char kind = 0;  // L T D
  uint64_t id = 0;
  long vtree = 0;
  long lit = 0;          // literal, or variable of a T
  double neg = 0, pos = 0;
  struct El {
    uint64_t p, s;
    double w;
  };
  std::vector<El> els;
};
struct FPsdd {
  std::vector<FNode> nodes;
  long declared = -1;
  std::map<uint64_t, size_t> at;
  // number of variables under a node and its table need the vtree
  Table table(const std::map<long, Vtree *> &pos, uint64_t id, std::map<uint64_t, Table> &memo) const {
    auto it = memo.find(id);
    if (it != memo.end()) return it->second;
    const FNode &x = nodes[at.at(id)];
    Table t;
    if (x.kind == 'L') {
      t = {x.lit > 0 ? NINF : 0.0, x.lit > 0 ? 0.0 : NINF};
    } else if (x.kind == 'T') {
      t = {x.neg, x.pos};
    } else {
      Vtree *v = pos.at(x.vtree);
      int n = (int)sdd_vtree_var_count(v), nl = (int)sdd_vtree_var_count(sdd_vtree_left(v));
      t.assign((size_t)1 << n, NINF);
      for (auto &e : x.els) {
        Table a = table(pos, e.p, memo), b = table(pos, e.s, memo);
        PBT_REQUIRE(a.size() == (size_t)1 << nl && a.size() * b.size() == t.size(), "file: an element of node %ju does not fit the vtree", (uintmax_t)id);
        if (e.w == NINF) continue;
        for (size_t p = 0; p < a.size(); ++p)
          for (size_t q = 0; q < b.size(); ++q)
            if (a[p] != NINF && b[q] != NINF) t[p | (q << nl)] = lse(t[p | (q << nl)], e.w + a[p] + b[q]);
      }
    }
    return memo[id] = t;
  }
};
inline void positions(Vtree *v, std::map<long, Vtree *> &out) {
  out[(long)sdd_vtree_position(v)] = v;
  if (!sdd_vtree_is_leaf(v)) {
    positions(sdd_vtree_left(v), out);
    positions(sdd_vtree_right(v), out);
  }
}
inline double parse_num(const std::string &s) {
  char *e = nullptr;
  double d = strtod(s.c_str(), &e);
  PBT_REQUIRE(!s.empty() && *e == 0, "file: '%s' is not a number", s.c_str());
  return d;
}
inline long parse_int(const std::string &s) {
  char *e = nullptr;
  long d = strtol(s.c_str(), &e, 10);
  PBT_REQUIRE(!s.empty() && *e == 0, "file: '%s' is not an integer", s.c_str());
  return d;
}
// Strict parse: syntax, children before parents, no id twice.
inline FPsdd parse_psdd(const std::string &text) {
  FPsdd f;
  std::istringstream is(text);
  std::string line;
  while (std::getline(is, line)) {
    if (line.empty()) continue;
    if (line[0] == 'c') continue;
    std::istringstream ls(line);
    std::vector<std::string> w;
    std::string x;
    while (ls >> x) w.push_back(x);
    if (w[0] == "psdd") {
      PBT_REQUIRE(w.size() == 2 && f.declared < 0 && f.nodes.empty(), "file: bad header line '%s'", line.c_str());
      f.declared = parse_int(w[1]);
      continue;
    }
    PBT_REQUIRE(f.declared >= 0, "file: node line before the header");
    FNode n;
    PBT_REQUIRE(w[0].size() == 1 && w.size() >= 4, "file: line '%.80s'", line.c_str());
    n.kind = w[0][0];
    n.id = (uint64_t)parse_int(w[1]);
    n.vtree = parse_int(w[2]);
    if (n.kind == 'L') {
      PBT_REQUIRE(w.size() == 4, "file: line '%.80s'", line.c_str());
      n.lit = parse_int(w[3]);
    } else if (n.kind == 'T') {
      PBT_REQUIRE(w.size() == 6, "file: line '%.80s'", line.c_str());
      n.lit = parse_int(w[3]);
      n.neg = parse_num(w[4]);
      n.pos = parse_num(w[5]);
    } else {
      PBT_REQUIRE(n.kind == 'D', "file: line '%.80s'", line.c_str());
      long k = parse_int(w[3]);
      PBT_REQUIRE(k > 0 && w.size() == 4 + 3 * (size_t)k, "file: a decision line declares %ld elements and has %zu fields", k, w.size());
      for (long i = 0; i < k; ++i) {
        FNode::El e{(uint64_t)parse_int(w[4 + 3 * (size_t)i]), (uint64_t)parse_int(w[5 + 3 * (size_t)i]), parse_num(w[6 + 3 * (size_t)i])};
        PBT_REQUIRE(f.at.count(e.p) && f.at.count(e.s), "file: node %ju appears before one of its children", (uintmax_t)n.id);
        n.els.push_back(e);
      }
    }
    PBT_REQUIRE(f.at.emplace(n.id, f.nodes.size()).second, "file: id %ju appears twice", (uintmax_t)n.id);
    f.nodes.push_back(n);
  }
  return f;
}
// A file of our own: other ids, comments, more digits, any bottom-up order.
inline std::string own_file(Case &c, PsddNode *root) {
  auto all = all_nodes({root});
  std::unordered_map<PsddNode *, uint64_t> id;
  std::vector<PsddNode *> order;
  std::vector<PsddNode *> left = all;
  c.shuffle(left);
  // repeatedly emit nodes whose children are out
  std::unordered_set<PsddNode *> out;
  while (order.size() < all.size()) {
    for (auto x : left) {
      if (out.count(x)) continue;
      bool ready = true;
      if (auto d = x->psdd_decision_node())
        for (size_t i = 0; i < d->primes().size(); ++i) ready = ready && out.count(d->primes()[i]) && out.count(d->subs()[i]);
      if (ready) {
        order.push_back(x);
        out.insert(x);
      }
    }
  }
  uint64_t cur = c.draw(3) * 1000, step = 1, top = 1000000;
  if (c.chance(1, 8)) {  // numbers far apart
    step = c.pick(std::vector<uint64_t>{(uint64_t)1 << 16, (uint64_t)1 << 31, (uint64_t)1 << 32});
    top = UINT64_MAX;
    c.label("node numbers of a file far apart");
  }
  bool down = c.flip();
  for (auto x : order) {
    cur += step * (1 + c.draw(5));
    id[x] = down ? top - cur : cur;
  }
  int digits = 6 + (int)c.draw(4) * 3;
  auto num = [&](double v) { return v == NINF ? std::string("-inf") : fmt("%.*f", digits, v); };
  std::string s;
  auto comment = [&]() {
    static const char *cs[] = {"c a comment\n", "c\n", "c L 0 0 1\n", "c psdd 3\n", "cD 1 2 3\n"};
    while (c.draw(6) == 5) s += cs[c.draw(5)];
  };
  comment();
  s += fmt("psdd %zu\n", order.size());
  for (auto x : order) {
    comment();
    long v = (long)sdd_vtree_position(x->vtree_node());
    if (auto l = x->psdd_literal_node()) s += fmt("L %ju %ld %d\n", (uintmax_t)id[x], v, l->literal());
    if (auto t = x->psdd_top_node())
      s += fmt("T %ju %ld %u %s %s\n", (uintmax_t)id[x], v, t->variable_index(), num(t->false_parameter().parameter()).c_str(), num(t->true_parameter().parameter()).c_str());
    if (auto d = x->psdd_decision_node()) {
      s += fmt("D %ju %ld %zu", (uintmax_t)id[x], v, d->primes().size());
      std::vector<size_t> idx(d->primes().size());
      for (size_t i = 0; i < idx.size(); ++i) idx[i] = i;
      c.shuffle(idx);
      for (size_t i : idx) s += fmt(" %ju %ju %s", (uintmax_t)id[d->primes()[i]], (uintmax_t)id[d->subs()[i]], num(d->parameters()[i].parameter()).c_str());
      s += "\n";
    }
  }
  if (c.flip()) comment();
  if (c.chance(1, 4)) s.pop_back();  // no final newline
  return s;
}
}  // namespace gen
#endif
