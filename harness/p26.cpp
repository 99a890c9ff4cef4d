// P26: BinaryData::ReadSparseDataJsonFile.
#include "gen.h"
using namespace gen;

namespace {
std::string ws(Case &c) {
  static const char *w[] = {"", "", "", " ", "\n", "\t", "  \n "};
  return w[c.draw(7)];
}
std::string invalid_number(Case &c, uint64_t n) {
  switch (c.draw(9)) {
    case 0: return "0";
    case 1: return fmt("%ju", (uintmax_t)(n + 1));
    case 2: return fmt("-%ju", (uintmax_t)(1 + c.draw(n)));
    case 3: return fmt("%ju.5", (uintmax_t)c.draw(n + 1));
    case 4: return "-1";
    case 5: return fmt("%ju", (uintmax_t)(n + 1 + c.draw(1u << 20)));
    case 6: return "18446744073709551615";
    case 7: return "-9223372036854775808";
    default: return c.flip() ? "1e300" : "0.25";
  }
}
std::string not_a_number(Case &c) {
  static const char *w[] = {"\"1\"", "null", "true", "false", "[1]", "[]", "{}", "{\"a\":1}", "\"\""};
  return w[c.draw(9)];
}
std::string filler(Case &c) {
  static const char *w[] = {"1", "\"x\"", "[[1,2],[3]]", "null", "{\"data\":[[1]],\"variable_size\":2}", "true", "0.5"};
  return w[c.draw(7)];
}
}  // namespace

namespace {
void property(Case &c) {
  uint64_t n = c.draw(6) == 5 ? 1 + c.draw(MAX_VAR - 1) : 1 + c.draw(20);
  std::string f = pbt::scratch_file("p26.json");
  bool large = c.draw(40) == 39;
  if (large) c.label("large");
  int k = (int)c.draw(large ? 300 : 25);
  std::map<std::vector<uint32_t>, uint64_t> want;
  uint64_t total = 0, skipped = 0;
  std::vector<std::vector<uint32_t>> pool;
  std::string data = "[";
  auto list = [&](const std::vector<std::string> &w) {
    std::string s = "[";
    for (size_t i = 0; i < w.size(); ++i) s += ws(c) + (i ? "," : "") + ws(c) + w[i];
    return s + ws(c) + "]";
  };
  bool first = true;
  for (int i = 0; i < k; ++i) {
    std::string ex;
    uint64_t kind = c.draw(8);
    std::vector<uint32_t> v;
    if (!pool.empty() && c.draw(3) == 2) {
      v = pool[c.draw(pool.size())];
      c.shuffle(v);
    } else {
      int m = (int)c.draw(large ? 80 : 6);
      for (int j = 0; j < m; ++j) v.push_back((uint32_t)(c.draw(8) == 7 ? n : 1 + c.draw(n)));
      pool.push_back(v);
    }
    std::vector<std::string> w;
    for (auto u : v) w.push_back(std::to_string(u));
    if (kind <= 4) {
      ex = list(w);
      std::set<uint32_t> s(v.begin(), v.end());
      if (++want[std::vector<uint32_t>(s.begin(), s.end())] > 1) c.nontrivial = true;
      ++total;
    } else {
      ++skipped;
      if (kind == 7) {
        do ex = not_a_number(c);
        while (ex[0] == '[');
        if (c.draw(4) == 3) ex = c.flip() ? "7" : "{\"a\":[1]}";
      } else {
        std::string bad = kind == 5 ? invalid_number(c, n) : not_a_number(c);
        w.insert(w.begin() + (long)c.draw(w.size() + 1), bad);
        ex = list(w);
      }
    }
    data += (first ? "" : ",") + ws(c) + ex;
    first = false;
  }
  data += ws(c) + "]";
  if (total && skipped) c.nontrivial = true;
  std::vector<std::string> fields{"\"variable_size\"" + ws(c) + ":" + ws(c) + std::to_string(n), "\"data\"" + ws(c) + ":" + ws(c) + data};
  int missing = c.draw(10) == 9 ? 1 + (int)c.draw(3) : 0;  // bit 0: variable_size, bit 1: data
  if (missing & 1) fields[0] = c.flip() ? "\"variable_sizes\":3" : "\"Variable_size\":3";
  if (missing & 2) fields[1] = c.flip() ? "\"dat\":[[1]]" : "\"examples\":[[1]]";
  while (c.draw(4) == 3) fields.push_back(fmt("\"other%zu\":", fields.size()) + filler(c));
  c.shuffle(fields);
  std::string doc = ws(c) + "{";
  for (size_t i = 0; i < fields.size(); ++i) doc += (i ? "," : "") + ws(c) + fields[i];
  doc += ws(c) + "}" + ws(c);
  c.note("%s\n", doc.c_str());
  pbt::write_all(f, doc);
  BinaryData *d = BinaryData::ReadSparseDataJsonFile(f.c_str());
  unlink(f.c_str());
  if (missing) {
    c.label("field missing");
    c.nontrivial = true;
    PBT_REQUIRE(d == nullptr, "a dataset from a document without a required field");
    return;
  }
  PBT_REQUIRE(d != nullptr, "null for a document with both fields");
  PBT_REQUIRE(d->variable_size() == n, "%u variables, expected %ju", d->variable_size(), (uintmax_t)n);
  PBT_REQUIRE(d->data_size() == total, "data size %ju, expected %ju", d->data_size(), (uintmax_t)total);
  PBT_REQUIRE(d->data().size() == want.size(), "%zu distinct records, expected %zu", d->data().size(), want.size());
  for (auto &e : d->data()) {
    std::vector<uint32_t> key;
    for (size_t i = e.first._Find_first(); i < MAX_VAR; i = e.first._Find_next(i)) key.push_back((uint32_t)i);
    auto it = want.find(key);
    PBT_REQUIRE(it != want.end(), "a record of %zu variables that is no valid example", key.size());
    PBT_REQUIRE(it->second == e.second, "a record is counted %ju times, expected %ju", e.second, (uintmax_t)it->second);
  }
  delete d;
}
}  // namespace

PBT_PROPERTY("P26", "generated documents (1 to 20 variables, or up to 65535; up to 25 examples: valid, repeated, with indices 0, negative, fractional, too large or huge, with strings, booleans, null or nested values, and examples that are no arrays; other fields, any white space, any field order), and documents lacking a field; non-trivial when valid and skipped examples are mixed or an example repeats") {
  int files = pbt::open_files();
  property(c);
  int now = pbt::open_files();
  PBT_REQUIRE(now == files, "%d files are open after the case, %d were before", now, files);
}
