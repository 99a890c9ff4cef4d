// Clause lists and layouts of DIMACS files.
#ifndef VERIF_CNFTEXT_H
#define VERIF_CNFTEXT_H
#include "gen.h"
namespace gen {
using Clauses = std::vector<std::vector<SddLiteral>>;

inline std::string dimacs(Case &c, const Clauses &cl, int nv, bool plain) {
  static const std::vector<std::string> junk = {"c a comment\n", "c\n", "c 1 -2 0\n", "cnf 3 0\n"};
  std::string s;
  auto maybe_comment = [&] {
    if (!plain && c.chance(1, 6)) s += c.pick(junk);
    if (!plain && c.chance(1, 10)) s += c.flip() ? "\n" : "   \n";
  };
  maybe_comment();
  if (c.draw(5) != 4) s += fmt("p cnf %d %zu\n", nv, cl.size());
  bool bol = true;  // at the beginning of a line
  for (size_t i = 0; i < cl.size(); ++i) {
    if (bol) maybe_comment();
    for (auto l : cl[i]) {
      s += fmt("%ld", (long)l);
      if (!plain && c.chance(1, 12)) {
        s += "\n";
        bol = true;
        maybe_comment();
        continue;
      }
      s += (!plain && c.chance(1, 10)) ? (c.flip() ? "\t" : "  ") : " ";
      bol = false;
    }
    bool last = i + 1 == cl.size();
    if (last && !plain && !cl[i].empty() && c.chance(1, 10)) continue;  // the last 0 may be missing
    s += "0";
    if (!plain && !last && c.chance(1, 6)) {
      s += " ";
      bol = false;
    } else if (last && c.chance(1, 4)) {
      bol = false;
    } else {
      s += (!plain && c.chance(1, 8)) ? " \n" : "\n";
      bol = true;
    }
  }
  if (bol) {
    maybe_comment();
    if (!plain && c.chance(1, 8)) s += "\n";
  }
  return s;
}
}  // namespace gen
#endif
