// A stand-in for the part of kahypar used by psdd (libkahypar.so is not installed
// here): any partition within the requested balance.
#ifndef LIBKAHYPAR_H
#define LIBKAHYPAR_H
#include <cmath>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include "pbt_stub.h"

struct kahypar_context_s {
  bool configured;
};
typedef struct kahypar_context_s kahypar_context_t;
typedef unsigned int kahypar_hypernode_id_t;
typedef unsigned int kahypar_hyperedge_id_t;
typedef int kahypar_hypernode_weight_t;
typedef int kahypar_hyperedge_weight_t;
typedef int kahypar_partition_id_t;

inline kahypar_context_t *kahypar_context_new() { return new kahypar_context_s{false}; }
inline void kahypar_context_free(kahypar_context_t *c) { delete c; }
inline void kahypar_configure_context_from_file(kahypar_context_t *c, const char *f) {
  FILE *fp = fopen(f, "r");
  if (!fp) {
    fprintf(stderr, "kahypar stand-in: could not load the context file %s\n", f);
    exit(77);
  }
  fclose(fp);
  c->configured = true;
}
inline void kahypar_partition(const kahypar_hypernode_id_t nv, const kahypar_hyperedge_id_t ne, const double eps, const kahypar_partition_id_t k,
                              const kahypar_hypernode_weight_t *, const kahypar_hyperedge_weight_t *, const size_t *eptr,
                              const kahypar_hyperedge_id_t *eind, kahypar_hyperedge_weight_t *objective, kahypar_context_t *,
                              kahypar_partition_id_t *part) {
  if (k != 2 || nv < 2) abort();
  for (kahypar_hyperedge_id_t e = 0; e < ne; ++e)
    for (size_t i = eptr[e]; i < eptr[e + 1]; ++i)
      if (eind[i] >= nv) {
        fprintf(stderr, "kahypar stand-in: hyperedge with the unknown vertex %u\n", eind[i]);
        abort();
      }
  auto &seen = pbt_stub::seen();
  if (seen.partitions++ == 0) {
    seen.hyper_vertices = nv;
    for (kahypar_hyperedge_id_t e = 0; e < ne; ++e) seen.hyper.emplace_back(eind + eptr[e], eind + eptr[e + 1]);
  }
  size_t most = (size_t)std::floor((1.0 + eps) * std::ceil(nv / 2.0));
  if (most >= nv) most = nv - 1;
  size_t least = nv - most;
  size_t zeros = least + pbt_stub::draw(most - least + 1);
  std::vector<unsigned> order(nv);
  for (unsigned i = 0; i < nv; ++i) order[i] = i;
  if (pbt_stub::draw(2) == 0) {
    for (size_t i = nv; i > 1; --i) std::swap(order[i - 1], order[pbt_stub::draw(i)]);
  } else {  // grow along the hyperedges, for small cuts
    std::vector<unsigned> out{(unsigned)pbt_stub::draw(nv)};
    std::vector<bool> in(nv, false);
    in[out[0]] = true;
    for (size_t h = 0; out.size() < nv; ++h) {
      if (h == out.size())
        for (unsigned i = 0; i < nv; ++i)
          if (!in[i]) {
            in[i] = true;
            out.push_back(i);
            break;
          }
      for (kahypar_hyperedge_id_t e = 0; e < ne; ++e) {
        bool has = false;
        for (size_t i = eptr[e]; i < eptr[e + 1]; ++i) has = has || eind[i] == out[h];
        if (!has) continue;
        for (size_t i = eptr[e]; i < eptr[e + 1]; ++i)
          if (!in[eind[i]]) {
            in[eind[i]] = true;
            out.push_back(eind[i]);
          }
      }
    }
    order = out;
  }
  int flip = (int)pbt_stub::draw(2);
  for (size_t i = 0; i < nv; ++i) part[order[i]] = (i < zeros ? 0 : 1) ^ flip;
  *objective = 0;
  for (kahypar_hyperedge_id_t e = 0; e < ne; ++e) {
    bool a = false, b = false;
    for (size_t i = eptr[e]; i < eptr[e + 1]; ++i) (part[eind[i]] ? b : a) = true;
    *objective += a && b;
  }
}
#endif
