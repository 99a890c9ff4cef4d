// P20: UaiNetwork::read_file.
#include <psdd/uai_network.h>

#include "uai.h"
using namespace gen;

namespace {
void property(Case &c) {
  UaiNetwork u;
  int rounds = c.draw(4) == 3 ? 2 : 1;
  if (rounds == 2) c.label("read into a used object");
  for (int r = 0; r < rounds; ++r) {
    NetOptions o;
    o.all_covered = c.flip();
    o.max_scope = c.thorough ? 8 : 6;
    int n = 1 + (int)c.draw(12), most = 14;
    if (c.draw(25) == 24) {
      n = 20 + (int)c.draw(c.thorough ? 1500 : 400);
      most = 2 * n;
      o.max_scope = 3;
      c.label("large");
    } else if (c.draw(25) == 24) {
      o.max_scope = n;  // tables of up to 4096 entries
      most = 3;
      c.label("large tables");
      if (c.chance(1, 30)) {
        o.max_scope = n = 16 + (int)c.draw(2);
        most = 2;
        c.label("tables of more than 65535 entries");
      }
    } else if (c.draw(200) == 199) {
      n = 30000 + (int)c.draw(60000);
      o.all_covered = false;
      most = 6;
      c.label("tens of thousands of variables");
    }
    Net g = gen_net(c, n, most, o);
    std::string text = net_text(g, &c);
    c.note("%s---\n%.1500s---\n", net_note(g).c_str(), text.c_str());
    std::string f = pbt::scratch_file("p20.uai");
    pbt::write_all(f, text);
    u.read_file(f.c_str());
    unlink(f.c_str());
    PBT_REQUIRE(u.network_type() == (g.bayes ? BAYESIAN_NETWORK_TYPE : MARKOV_NETWORK_TYPE), "network type %d for a %s file", u.network_type(), g.bayes ? "BAYES" : "MARKOV");
    PBT_REQUIRE(u.var_size() == (size_t)n, "%zu variables, expected %d", u.var_size(), n);
    PBT_REQUIRE(u.factor_size() == g.fs.size(), "%zu factors, expected %zu", u.factor_size(), g.fs.size());
    PBT_REQUIRE(u.factor_scopes().size() == g.fs.size(), "%zu scopes, expected %zu", u.factor_scopes().size(), g.fs.size());
    PBT_REQUIRE(u.params().size() == g.fs.size(), "%zu tables, expected %zu", u.params().size(), g.fs.size());
    for (size_t k = 0; k < g.fs.size(); ++k) {
      auto &sc = u.factor_scopes()[k];
      PBT_REQUIRE(sc.size() == g.fs[k].scope.size(), "factor %zu: %zu variables, expected %zu", k, sc.size(), g.fs[k].scope.size());
      for (size_t i = 0; i < sc.size(); ++i) PBT_REQUIRE(sc[i] == (size_t)g.fs[k].scope[i], "factor %zu: variable %zu at place %zu, expected %d", k, sc[i], i, g.fs[k].scope[i]);
      auto &ps = u.params()[k];
      PBT_REQUIRE(ps.size() == g.fs[k].value.size(), "factor %zu: %zu entries, expected %zu", k, ps.size(), g.fs[k].value.size());
      if (ps.size() >= 4) c.nontrivial = true;
      for (size_t i = 0; i < ps.size(); ++i) {
        double want = std::strtod(g.fs[k].text[i].c_str(), nullptr);
        want = want == 0 ? NINF : std::log(want);
        PBT_REQUIRE(close(ps[i].parameter(), want, 1e-9), "factor %zu, entry %zu: log %.12g, expected %.12g", k, i, ps[i].parameter(), want);
      }
    }
  }
}
}  // namespace

PBT_PROPERTY("P20", "generated networks (up to 12 variables and 14 factors, any kind, scopes up to 6 in any order) written in random layouts: tables on one or several lines, blank lines, spaces and tabs, fixed, shortest and scientific notation; now and then hundreds of variables and factors, or tables of up to 4096 (131072) entries, or tens of thousands of variables; a second network read into the same object; non-trivial when some table has at least 4 entries") {
  int files = pbt::open_files();
  property(c);
  int now = pbt::open_files();
  PBT_REQUIRE(now == files, "%d files are open after the case, %d were before", now, files);
}
