// A stand-in for the part of htd used by psdd (libhtd.so is not installed here).
// It supplies any valid answer, not only the ones htd's heuristics would find.
#ifndef VERIF_HTD_MAIN_HPP
#define VERIF_HTD_MAIN_HPP
#include <algorithm>
#include <cassert>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <stack>
#include <stdexcept>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>

#include "pbt_stub.h"

#define HTD_UNUSED(x) (void)(x);

namespace htd {
typedef std::uint_least32_t id_t;
typedef htd::id_t vertex_t;
typedef std::size_t index_t;
struct Id {
  static const id_t FIRST = 1;
};
struct Vertex {
  static const vertex_t UNKNOWN = 0;
  static const vertex_t FIRST = 1;
};

class LibraryInstance;

class IMultiHypergraph {
 public:
  virtual ~IMultiHypergraph() {}
  std::size_t vertexCount() const { return n_; }
  std::size_t edgeCount() const { return edges_.size(); }
  bool isVertex(vertex_t v) const { return v >= 1 && v <= n_; }
  const std::vector<std::vector<vertex_t>> &edgeList() const { return edges_; }

 protected:
  std::size_t n_ = 0;
  std::vector<std::vector<vertex_t>> edges_;
};
class IMutableMultiHypergraph : public IMultiHypergraph {
 public:
  vertex_t nextVertex() const { return (vertex_t)(n_ + 1); }
  vertex_t addVertex() { return (vertex_t)++n_; }
  vertex_t addVertices(std::size_t k) {
    vertex_t r = nextVertex();
    n_ += k;
    return r;
  }
  id_t addEdge(const std::vector<vertex_t> &e) {
    for (vertex_t v : e)
      if (v < 1 || v > n_) {
        std::cerr << "htd stand-in: edge with the unknown vertex " << v << std::endl;
        abort();
      }
    edges_.push_back(e);
    return (id_t)edges_.size();
  }
  id_t addEdge(vertex_t a, vertex_t b) { return addEdge(std::vector<vertex_t>{a, b}); }
};
class MultiHypergraph : public IMutableMultiHypergraph {
 public:
  MultiHypergraph(const LibraryInstance *) {}
  MultiHypergraph(const LibraryInstance *, std::size_t n) { n_ = n; }
};
class MultiHypergraphFactory {
 public:
  IMutableMultiHypergraph *createInstance() const { return new MultiHypergraph(nullptr); }
};

class IVertexOrdering {
 public:
  virtual ~IVertexOrdering() {}
  virtual const std::vector<vertex_t> &sequence() const = 0;
};
class VertexOrdering : public IVertexOrdering {
 public:
  VertexOrdering(const std::vector<vertex_t> &s, std::size_t = 1) : s_(s) {}
  const std::vector<vertex_t> &sequence() const override { return s_; }

 private:
  std::vector<vertex_t> s_;
};

// A permutation of the vertices: arbitrary, or by minimum fill with arbitrary ties.
inline std::vector<vertex_t> pbt_ordering(const IMultiHypergraph &g) {
  std::size_t n = g.vertexCount();
  std::vector<std::set<vertex_t>> nb(n + 1);
  for (auto &e : g.edgeList())
    for (vertex_t a : e)
      for (vertex_t b : e)
        if (a != b) nb[a].insert(b);
  std::vector<vertex_t> left, out;
  for (vertex_t v = 1; v <= n; ++v) left.push_back(v);
  bool fill = pbt_stub::draw(3) != 2;
  while (!left.empty()) {
    std::vector<std::size_t> best;
    std::size_t bf = (std::size_t)-1;
    for (std::size_t i = 0; i < left.size(); ++i) {
      std::size_t f = 0;
      if (fill) {
        auto &s = nb[left[i]];
        for (vertex_t a : s)
          for (vertex_t b : s)
            if (a < b && !nb[a].count(b)) ++f;
      }
      if (f < bf) {
        bf = f;
        best.clear();
      }
      if (f == bf) best.push_back(i);
    }
    std::size_t i = best[pbt_stub::draw(best.size())];
    vertex_t v = left[i];
    left.erase(left.begin() + (long)i);
    out.push_back(v);
    auto s = nb[v];
    for (vertex_t a : s) {
      nb[a].erase(v);
      for (vertex_t b : s)
        if (a != b) nb[a].insert(b);
    }
  }
  return out;
}

inline void pbt_see(const IMultiHypergraph &g) {
  auto &s = pbt_stub::seen();
  ++s.graphs;
  s.vertices = g.vertexCount();
  s.edges.clear();
  for (auto &e : g.edgeList()) s.edges.emplace_back(e.begin(), e.end());
}

class IOrderingAlgorithm {
 public:
  virtual ~IOrderingAlgorithm() {}
  virtual IVertexOrdering *computeOrdering(const IMultiHypergraph &g) const {
    auto s = pbt_ordering(g);
    pbt_see(g);
    pbt_stub::seen().sequence.assign(s.begin(), s.end());
    return new VertexOrdering(s);
  }
};
class MinFillOrderingAlgorithm : public IOrderingAlgorithm {
 public:
  MinFillOrderingAlgorithm(const LibraryInstance *) {}
};
class MinDegreeOrderingAlgorithm : public IOrderingAlgorithm {
 public:
  MinDegreeOrderingAlgorithm(const LibraryInstance *) {}
};
class OrderingAlgorithmFactory {
 public:
  void setConstructionTemplate(IOrderingAlgorithm *a) { delete a; }
};

class ITreeDecomposition {
 public:
  virtual ~ITreeDecomposition() {}
  std::size_t vertexCount() const { return bag_.size(); }
  vertex_t root() const { return root_; }
  bool isRoot(vertex_t v) const { return v == root_; }
  vertex_t parent(vertex_t v) const { return parent_[v - 1]; }
  const std::vector<vertex_t> &children(vertex_t v) const { return child_[v - 1]; }
  std::size_t childCount(vertex_t v) const { return child_[v - 1].size(); }
  const std::vector<vertex_t> &bagContent(vertex_t v) const { return bag_.at(v - 1); }
  std::size_t bagSize(vertex_t v) const { return bag_.at(v - 1).size(); }
  std::size_t maximumBagSize() const {
    std::size_t m = 0;
    for (auto &b : bag_) m = std::max(m, b.size());
    return m;
  }
  std::size_t minimumBagSize() const {
    std::size_t m = (std::size_t)-1;
    for (auto &b : bag_) m = std::min(m, b.size());
    return m;
  }
  std::size_t height() const { return height(root_); }
  std::size_t height(vertex_t v) const {
    std::size_t h = 0;
    for (vertex_t c : child_[v - 1]) h = std::max(h, 1 + height(c));
    return h;
  }
  // construction
  vertex_t pbt_add(const std::vector<vertex_t> &bag, vertex_t parent) {
    bag_.push_back(bag);
    parent_.push_back(parent);
    child_.emplace_back();
    vertex_t v = (vertex_t)bag_.size();
    if (parent)
      child_[parent - 1].push_back(v);
    else
      root_ = v;
    return v;
  }

 private:
  std::vector<std::vector<vertex_t>> bag_, child_;
  std::vector<vertex_t> parent_;
  vertex_t root_ = 0;
};
typedef ITreeDecomposition IMutableTreeDecomposition;

class FitnessEvaluation {
 public:
  FitnessEvaluation(int n, ...) {
    va_list ap;
    va_start(ap, n);
    for (int i = 0; i < n; ++i) v_.push_back(va_arg(ap, double));
    va_end(ap);
  }
  FitnessEvaluation(const std::vector<double> &v) : v_(v) {}
  double at(index_t i) const { return v_.at(i); }
  std::size_t levels() const { return v_.size(); }

 private:
  std::vector<double> v_;
};
class ITreeDecompositionFitnessFunction {
 public:
  virtual ~ITreeDecompositionFitnessFunction() {}
  virtual FitnessEvaluation *fitness(const IMultiHypergraph &, const ITreeDecomposition &) const = 0;
  virtual ITreeDecompositionFitnessFunction *clone() const = 0;
};

class ITreeDecompositionManipulationOperation {
 public:
  virtual ~ITreeDecompositionManipulationOperation() {}
  virtual bool pbt_normalises() const { return false; }
};
class NormalizationOperation : public ITreeDecompositionManipulationOperation {
 public:
  NormalizationOperation(const LibraryInstance *) {}
  NormalizationOperation(const LibraryInstance *, bool, bool, bool, bool) {}
  bool pbt_normalises() const override { return true; }
};
class IVertexSelectionStrategy {
 public:
  virtual ~IVertexSelectionStrategy() {}
};
class RandomVertexSelectionStrategy : public IVertexSelectionStrategy {
 public:
  RandomVertexSelectionStrategy(std::size_t) {}
};
class TreeDecompositionOptimizationOperation : public ITreeDecompositionManipulationOperation {
 public:
  TreeDecompositionOptimizationOperation(const LibraryInstance *) {}
  TreeDecompositionOptimizationOperation(const LibraryInstance *, ITreeDecompositionFitnessFunction *f) : f_(f) {}
  void setManagementInstance(const LibraryInstance *) {}
  void setVertexSelectionStrategy(IVertexSelectionStrategy *s) { delete s; }
  void addManipulationOperation(ITreeDecompositionManipulationOperation *o) { ops_.emplace_back(o); }
  bool pbt_normalises() const override {
    for (auto &o : ops_)
      if (o->pbt_normalises()) return true;
    return false;
  }

 private:
  std::unique_ptr<ITreeDecompositionFitnessFunction> f_;
  std::vector<std::unique_ptr<ITreeDecompositionManipulationOperation>> ops_;
};

// A valid tree decomposition from an ordering, with an arbitrary root, normalised
// (one vertex in or out per step, joins between equal bags) when asked to.
inline ITreeDecomposition *pbt_decompose(const IMultiHypergraph &g, bool normalise) {
  std::size_t n = g.vertexCount();
  auto ord = pbt_ordering(g);
  std::vector<std::set<vertex_t>> nb(n + 1);
  for (auto &e : g.edgeList())
    for (vertex_t a : e)
      for (vertex_t b : e)
        if (a != b) nb[a].insert(b);
  std::vector<std::size_t> at(n + 1);
  for (std::size_t i = 0; i < n; ++i) at[ord[i]] = i;
  std::vector<std::set<vertex_t>> bag(n);
  std::vector<std::set<std::size_t>> adj(n);
  for (std::size_t i = 0; i < n; ++i) {
    vertex_t v = ord[i];
    auto s = nb[v];
    bag[i] = s;
    bag[i].insert(v);
    std::size_t p = n;
    for (vertex_t a : s) {
      p = std::min(p, at[a]);
      nb[a].erase(v);
      for (vertex_t b : s)
        if (a != b) nb[a].insert(b);
    }
    if (s.empty() && i + 1 < n) p = i + 1 + pbt_stub::draw(n - i - 1);
    if (p < n) {
      adj[i].insert(p);
      adj[p].insert(i);
    }
  }
  // drop bags contained in a neighbouring one
  std::vector<bool> gone(n, false);
  if (pbt_stub::draw(4) != 3)
    for (bool again = true; again;) {
      again = false;
      for (std::size_t i = 0; i < n && !again; ++i) {
        if (gone[i]) continue;
        for (std::size_t j : adj[i])
          if (std::includes(bag[j].begin(), bag[j].end(), bag[i].begin(), bag[i].end())) {
            for (std::size_t k : adj[i]) {
              adj[k].erase(i);
              if (k != j) {
                adj[k].insert(j);
                adj[j].insert(k);
              }
            }
            adj[i].clear();
            gone[i] = true;
            again = true;
            break;
          }
      }
    }
  std::vector<std::size_t> live;
  for (std::size_t i = 0; i < n; ++i)
    if (!gone[i]) live.push_back(i);
  auto *d = new ITreeDecomposition();
  if (live.empty()) {
    d->pbt_add({}, 0);
    return d;
  }
  bool empty_root = pbt_stub::draw(2) == 0, empty_leaves = pbt_stub::draw(2) == 0, join_parent = pbt_stub::draw(2) == 1;
  auto vec = [](const std::set<vertex_t> &s) { return std::vector<vertex_t>(s.begin(), s.end()); };
  // from the node `top` with bag cur, descends to one with bag goal; returns it
  auto walk = [&](vertex_t top, std::set<vertex_t> cur, const std::set<vertex_t> &goal) {
    auto step = [&]() { top = d->pbt_add(vec(cur), top); };
    std::vector<vertex_t> rm, ad;
    for (vertex_t x : cur)
      if (!goal.count(x)) rm.push_back(x);
    for (vertex_t x : goal)
      if (!cur.count(x)) ad.push_back(x);
    for (vertex_t x : rm) {
      cur.erase(x);
      step();
    }
    for (vertex_t x : ad) {
      cur.insert(x);
      step();
    }
    return top;
  };
  std::function<void(std::size_t, std::size_t, vertex_t)> place = [&](std::size_t i, std::size_t from, vertex_t me) {
    std::vector<std::size_t> ch;
    for (std::size_t j : adj[i])
      if (j != from) ch.push_back(j);
    for (std::size_t k = ch.size(); k > 1; --k) std::swap(ch[k - 1], ch[pbt_stub::draw(k)]);
    if (!normalise) {
      for (std::size_t j : ch) place(j, i, d->pbt_add(vec(bag[j]), me));
      return;
    }
    if (ch.empty()) {
      if (empty_leaves) walk(me, bag[i], {});
      return;
    }
    if (ch.size() > 1 && join_parent) me = d->pbt_add(vec(bag[i]), me);
    for (std::size_t k = 0; k < ch.size(); ++k) {
      vertex_t at_k = me;
      if (ch.size() - k > 1) {  // a binary join
        at_k = d->pbt_add(vec(bag[i]), me);
        me = d->pbt_add(vec(bag[i]), me);
      }
      vertex_t x = walk(at_k, bag[i], bag[ch[k]]);
      place(ch[k], i, x);
    }
  };
  std::size_t r = live[pbt_stub::draw(live.size())];
  vertex_t top;
  if (normalise && empty_root) {
    top = d->pbt_add({}, 0);
    top = walk(top, {}, bag[r]);
  } else {
    top = d->pbt_add(vec(bag[r]), 0);
  }
  place(r, n, top);
  return d;
}

class ITreeDecompositionAlgorithm {
 public:
  virtual ~ITreeDecompositionAlgorithm() {}
  void addManipulationOperation(ITreeDecompositionManipulationOperation *o) { ops_.emplace_back(o); }
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const {
    bool norm = false;
    for (auto &o : ops_) norm = norm || o->pbt_normalises();
    return pbt_decompose(g, norm);
  }

 private:
  std::vector<std::unique_ptr<ITreeDecompositionManipulationOperation>> ops_;
};
class TreeDecompositionAlgorithmFactory {
 public:
  ITreeDecompositionAlgorithm *createInstance() const { return new ITreeDecompositionAlgorithm(); }
};
class IterativeImprovementTreeDecompositionAlgorithm {
 public:
  IterativeImprovementTreeDecompositionAlgorithm(const LibraryInstance *, ITreeDecompositionAlgorithm *a, ITreeDecompositionFitnessFunction *f) : a_(a), f_(f) {}
  void setIterationCount(std::size_t n) { iter_ = n; }
  void setNonImprovementLimit(std::size_t) {}
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g) const {
    return computeDecomposition(g, [](const IMultiHypergraph &, const ITreeDecomposition &, const FitnessEvaluation &) {});
  }
  ITreeDecomposition *computeDecomposition(const IMultiHypergraph &g, const std::function<void(const IMultiHypergraph &, const ITreeDecomposition &, const FitnessEvaluation &)> &cb) const {
    ITreeDecomposition *best = nullptr;
    std::size_t k = 1 + pbt_stub::draw(2);
    for (std::size_t i = 0; i < k; ++i) {
      ITreeDecomposition *d = a_->computeDecomposition(g);
      std::unique_ptr<FitnessEvaluation> e(f_->fitness(g, *d));
      cb(g, *d, *e);
      delete best;
      best = d;
    }
    pbt_see(g);
    pbt_stub::seen().largest_bag = best->maximumBagSize();
    return best;
  }

 private:
  std::unique_ptr<ITreeDecompositionAlgorithm> a_;
  std::unique_ptr<ITreeDecompositionFitnessFunction> f_;
  std::size_t iter_ = 1;
};

class LibraryInstance {
 public:
  MultiHypergraphFactory &multiHypergraphFactory() { return g_; }
  OrderingAlgorithmFactory &orderingAlgorithmFactory() { return o_; }
  TreeDecompositionAlgorithmFactory &treeDecompositionAlgorithmFactory() { return t_; }

 private:
  MultiHypergraphFactory g_;
  OrderingAlgorithmFactory o_;
  TreeDecompositionAlgorithmFactory t_;
};
inline LibraryInstance *createManagementInstance(id_t) { return new LibraryInstance(); }

class PostOrderTreeTraversal {
 public:
  void traverse(const ITreeDecomposition &d, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const { go(d, d.root(), 0, 0, f); }

 private:
  static void go(const ITreeDecomposition &d, vertex_t v, vertex_t p, std::size_t depth, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) {
    for (vertex_t c : d.children(v)) go(d, c, v, depth + 1, f);
    f(v, p, depth);
  }
};
class PreOrderTreeTraversal {
 public:
  void traverse(const ITreeDecomposition &d, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) const { go(d, d.root(), 0, 0, f); }

 private:
  static void go(const ITreeDecomposition &d, vertex_t v, vertex_t p, std::size_t depth, const std::function<void(vertex_t, vertex_t, std::size_t)> &f) {
    f(v, p, depth);
    for (vertex_t c : d.children(v)) go(d, c, v, depth + 1, f);
  }
};
}  // namespace htd
#endif
