// P25: BinaryData.
#include <new>

#include "gen.h"
using namespace gen;

namespace {
using Rec = std::bitset<MAX_VAR>;
using Count = std::map<std::vector<uint32_t>, uint64_t>;  // set bits
std::vector<uint32_t> key(const Rec &b) {
  std::vector<uint32_t> k;
  for (size_t i = b._Find_first(); i < MAX_VAR; i = b._Find_next(i)) k.push_back((uint32_t)i);
  return k;
}
// A dataset in memory that held something else before.
struct Data {
  void *mem;
  BinaryData *d;
  Data() : mem(malloc(sizeof(BinaryData))) {
    memset(mem, 0x5a, sizeof(BinaryData));
    d = new (mem) BinaryData;
  }
  ~Data() {
    d->~BinaryData();
    free(mem);
  }
  Data(const Data &) = delete;
};
void check(const BinaryData &d, const Count &want, const char *what) {
  uint64_t n = 0;
  for (auto &e : want) n += e.second;
  PBT_REQUIRE(d.data_size() == n, "%s: data size %ju, expected %ju", what, d.data_size(), (uintmax_t)n);
  PBT_REQUIRE(d.data().size() == want.size(), "%s: %zu distinct records, expected %zu", what, d.data().size(), want.size());
  double ent = 0;
  for (auto &e : d.data()) {
    auto it = want.find(key(e.first));
    PBT_REQUIRE(it != want.end(), "%s: a record that was not given", what);
    PBT_REQUIRE(it->second == e.second, "%s: a record is counted %ju times, expected %ju", what, e.second, (uintmax_t)it->second);
    ent += (double)it->second * (std::log((double)it->second) - std::log((double)n));
  }
  if (n) {
    double got = d.CalculateEntropy();
    PBT_REQUIRE(close(got, ent / (double)n, 1e-9), "%s: entropy figure %.12g, expected %.12g", what, got, ent / (double)n);
  }
}
void add(Case &c, std::vector<Rec> &pool, int n, std::vector<Rec> &out, int k) {
  for (int i = 0; i < k; ++i) {
    if (!pool.empty() && c.draw(2) == 1) {
      out.push_back(pool[c.draw(pool.size())]);
      continue;
    }
    Rec r;
    if (n <= 24) {
      uint64_t x = c.draw(1ull << n);
      for (int j = 0; j < n; ++j)
        if ((x >> j) & 1) r.set((size_t)j + 1);
    } else {
      int m = (int)c.draw(6);
      for (int j = 0; j < m; ++j) r.set(1 + c.draw((uint64_t)n));
      if (c.draw(3) == 2) r.set((size_t)n);
    }
    pool.push_back(r);
    out.push_back(r);
  }
}
}  // namespace

namespace {
void property(Case &c) {
  bool wide = c.draw(12) == 11;
  int n = wide ? 25 + (int)c.draw(c.thorough ? 20000 : 4000) : 1 + (int)c.draw(12);
  if (wide) c.label("wide");
  std::vector<Rec> pool;
  Count model;
  Data x;
  PBT_REQUIRE(x.d->data_size() == 0, "a new dataset has size %ju", x.d->data_size());
  bool known_vars = false;
  std::string f = pbt::scratch_file("p25.csv");
  int ops = 1 + (int)c.draw(5);
  for (int k = 0; k < ops; ++k) {
    uint64_t op = c.draw(4);
    if (op <= 1 || (op == 3 && (!known_vars || model.empty()))) {
      if (!known_vars) {
        x.d->set_variable_size((uint32_t)n);
        known_vars = true;
      }
      std::vector<Rec> recs;
      add(c, pool, n, recs, (int)c.draw(wide ? 6 : c.thorough ? 120 : 40));
      c.note("add %zu records over %d variables\n", recs.size(), n);
      if (!recs.empty() && c.chance(1, 40)) {  // one record very often
        size_t often = c.chance(1, 25) ? 65000 + c.draw(3000) : 200 + c.draw(700);
        c.label(often > 1000 ? "a record tens of thousands of times" : "a record hundreds of times");
        c.note("the first of them %zu times\n", often);
        recs.insert(recs.end(), often, recs[0]);
      }
      for (auto &r : recs) {
        x.d->AddRecord(r);
        if (++model[key(r)] > 1) c.nontrivial = true;
      }
      check(*x.d, model, "after adding");
    } else if (op == 2) {  // a file of our own
      int m = c.draw(3) == 2 && !wide ? 1 + (int)c.draw(12) : n;  // possibly another width
      if (m != n) pool.clear();
      n = m;
      std::vector<Rec> recs;
      add(c, pool, n, recs, (int)c.draw(wide ? 6 : 30));
      bool crlf = c.draw(3) == 2, quoted = c.draw(4) == 3, last = c.flip();
      std::string s;
      Count now;
      for (size_t i = 0; i < recs.size(); ++i) {
        for (int v = 1; v <= n; ++v) {
          if (v > 1) s += ",";
          std::string w = recs[i][(size_t)v] ? "1" : "0";
          s += quoted && !wide && c.flip() ? "\"" + w + "\"" : w;
        }
        if (i + 1 < recs.size() || last) s += crlf ? "\r\n" : "\n";
        if (++now[key(recs[i])] > 1) c.nontrivial = true;
      }
      c.note("read %zu records over %d variables%s\n", recs.size(), n, model.empty() ? "" : " into a used dataset");
      pbt::write_all(f, s);
      x.d->ReadFile(f.c_str());
      model = now;
      known_vars = true;
      if (!recs.empty()) PBT_REQUIRE(x.d->variable_size() == (uint32_t)n, "read: %u variables, expected %d", x.d->variable_size(), n);
      else known_vars = false;
      check(*x.d, model, "after reading");
    } else {
      c.note("write %zu distinct records and read them back\n", model.size());
      if (c.flip()) pbt::write_all(f, std::string(5000, '1'));  // an older, longer file
      x.d->WriteFile(f.c_str());
      check(*x.d, model, "after writing");
      // the text, read independently
      std::string text = pbt::read_all(f);
      Count now;
      std::istringstream is(text);
      std::string line;
      while (std::getline(is, line)) {
        PBT_REQUIRE((int)line.size() == 2 * n - 1, "written: a line of %zu bytes for %d variables", line.size(), n);
        std::vector<uint32_t> k2;
        for (int v = 1; v <= n; ++v) {
          char ch = line[(size_t)(2 * v - 2)];
          PBT_REQUIRE(ch == '0' || ch == '1', "written: a field that is not 0 or 1");
          if (v < n) PBT_REQUIRE(line[(size_t)(2 * v - 1)] == ',', "written: no comma between fields");
          if (ch == '1') k2.push_back((uint32_t)v);
        }
        ++now[k2];
      }
      PBT_REQUIRE(now == model, "the written file holds other records");
      if (c.flip()) {
        Data y;
        y.d->ReadFile(f.c_str());
        PBT_REQUIRE(y.d->variable_size() == (uint32_t)n, "read back: %u variables, expected %d", y.d->variable_size(), n);
        check(*y.d, model, "read back");
      } else {
        c.label("read back into the same object");
        x.d->ReadFile(f.c_str());
        PBT_REQUIRE(x.d->variable_size() == (uint32_t)n, "read back: %u variables, expected %d", x.d->variable_size(), n);
        check(*x.d, model, "read back into the same object");
      }
    }
  }
  unlink(f.c_str());
}
}  // namespace

PBT_PROPERTY("P25", "datasets of up to 40 records (120 when thorough; sometimes one of them up to 68000 times) over 1 to 12 variables, or (1 in 12) over up to 4000, built by AddRecord, by reading CSV text of our own and by several reads and writes in one object; non-trivial when a record repeats") {
  int files = pbt::open_files();
  property(c);
  int now = pbt::open_files();
  PBT_REQUIRE(now == files, "%d files are open after the case, %d were before", now, files);
}
