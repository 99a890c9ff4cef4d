// P27: csvparser.
#include <psdd/csvparser.h>
#include <sys/stat.h>

#include "pbt.h"
using pbt::Case;
using pbt::fmt;

namespace {
using Row = std::vector<std::string>;
std::string show(const std::string &s) {
  std::string o;
  for (unsigned char ch : s.substr(0, 200)) {
    if (ch == '\n') o += "\\n";
    else if (ch == '\r') o += "\\r";
    else if (ch < 32 || ch > 126) o += fmt("\\x%02x", ch);
    else o += (char)ch;
  }
  if (s.size() > 200) o += fmt("...(%zu)", s.size());
  return o;
}
std::string show(const Row &r) {
  std::string o;
  for (size_t i = 0; i < r.size() && i < 12; ++i) o += "[" + show(r[i]) + "]";
  if (r.size() > 12) o += fmt("...(%zu fields)", r.size());
  return o;
}
Row take(const CsvRow *r) {
  Row o;
  int n = CsvParser_getNumFields(r);
  const char **f = CsvParser_getFields(r);
  for (int i = 0; i < n; ++i) o.push_back(f[i]);
  return o;
}
// an exact-size copy, so that a read beyond it is seen
struct Exact {
  char *p;
  explicit Exact(const std::string &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.c_str(), s.size() + 1); }
  ~Exact() { free(p); }
  Exact(const Exact &) = delete;
};

struct Text {
  std::string bytes;
  std::vector<Row> rows;
  char delim = ',';
};
std::string gen_field(Case &c, char delim, bool plain) {
  size_t len;
  switch (c.draw(8)) {
    case 0: len = 0; break;
    case 1: len = 1; break;
    case 2: len = 60 + c.draw(8); break;
    case 3: len = c.draw(4) == 3 ? 120 + c.draw(12) : c.draw(5); break;
    case 4: len = c.draw(8) == 7 ? 250 + c.draw(20) : 2; break;
    default: len = 1 + c.draw(6);
  }
  std::string s;
  static const char alpha[] = "ab01\"\n,; x";
  for (size_t i = 0; i < len; ++i) {
    char ch;
    switch (c.draw(plain ? 2 : 5)) {
      case 0:
      case 1: ch = "01xyz"[c.draw(5)]; break;
      case 2: ch = alpha[c.draw(10)]; break;
      case 3: ch = delim; break;
      default: ch = (char)(1 + c.draw(255));
    }
    if (ch == '\r') ch = 'r';
    s += ch;
  }
  return s;
}
Text gen_text(Case &c) {
  Text t;
  static const char ds[] = {',', ';', '\t', '|', ' ', 'x', '0', (char)0xe9, (char)0xff};
  t.delim = ds[c.draw(9)];
  int rows = (int)c.draw(c.thorough ? 12 : 6);
  const char *nl = c.draw(3) == 2 ? "\r\n" : "\n";
  bool last_newline = c.draw(3) != 2;
  bool plain = c.flip();
  uint64_t quoting = c.draw(3);
  for (int r = 0; r < rows; ++r) {
    size_t k;
    switch (c.draw(10)) {
      case 0: k = 1; break;
      case 1: k = 62 + c.draw(5); break;
      case 2: k = c.draw(3) == 2 ? 126 + c.draw(5) : 2; break;
      case 3: k = c.draw(6) == 5 ? 188 + c.draw(10) : 3; break;
      default: k = 1 + c.draw(5);
    }
    bool many = k > 20;
    Row row;
    std::string line;
    for (size_t i = 0; i < k; ++i) {
      std::string f = many && c.draw(8) != 7 ? std::string(c.draw(3), 'a') : gen_field(c, t.delim, plain);
      bool must = f.find(t.delim) != std::string::npos || f.find('"') != std::string::npos || f.find('\n') != std::string::npos;
      bool quote = must || (quoting == 1 && c.flip()) || quoting == 2;
      if (k == 1 && f.empty() && r + 1 == rows && !last_newline) quote = true;  // otherwise there is no row
      if (i) line += t.delim;
      if (quote) {
        line += '"';
        for (char ch : f) {
          if (ch == '"') line += '"';
          line += ch;
        }
        line += '"';
      } else {
        line += f;
      }
      row.push_back(f);
    }
    t.bytes += line;
    if (r + 1 < rows || last_newline) t.bytes += nl;
    t.rows.push_back(row);
  }
  return t;
}

struct Source {  // a parser over a text, from memory or from a file
  CsvParser *p;
  Source(bool file, const std::string &bytes, const char *delim, int header) {
    if (file) {
      std::string f = pbt::scratch_file("p27.csv");
      pbt::write_all(f, bytes);
      p = CsvParser_new(f.c_str(), delim, header);
    } else {
      Exact e(bytes);
      p = CsvParser_new_from_string(e.p, delim, header);
    }
  }
  ~Source() { CsvParser_destroy(p); }
  Source(const Source &) = delete;
};

void expect_end(CsvParser *p, const char *what, int times) {
  for (int i = 0; i < times; ++i) {
    CsvRow *r = CsvParser_getRow(p);
    PBT_REQUIRE(r == nullptr, "%s: a row after the end: %s", what, show(take(r)).c_str());
    PBT_REQUIRE(CsvParser_getErrorMessage(p) != nullptr, "%s: no message at the end", what);
  }
}

void roundtrip(Case &c) {
  Text t = gen_text(c);
  c.label("well-formed text");
  int header = (int)c.draw(2);
  std::string dl = c.draw(4) == 3 ? std::string(1, t.delim) + "zz" : std::string(1, t.delim);
  const char *delim = t.delim == ',' && c.flip() ? nullptr : dl.c_str();
  c.note("delimiter \\x%02x, header %d, text: %s\n", (unsigned char)t.delim, header, show(t.bytes).c_str());
  for (auto &r : t.rows) {
    if (r.size() > 1) c.nontrivial = true;
    for (auto &f : r)
      if (f.find_first_of("\"\n") != std::string::npos) c.nontrivial = true;
  }
  uint64_t ask = c.draw(3);  // when to ask for the header
  for (int file = 0; file < 2; ++file) {
    const char *what = file ? "file" : "string";
    Source s(file, t.bytes, delim, header);
    auto header_check = [&]() {
      const CsvRow *h = CsvParser_getHeader(s.p);
      if (!header) {
        PBT_REQUIRE(h == nullptr && CsvParser_getErrorMessage(s.p), "%s: a header where none was announced", what);
      } else if (t.rows.empty()) {
        PBT_REQUIRE(h == nullptr, "%s: a header in an empty text", what);
      } else {
        PBT_REQUIRE(h != nullptr, "%s: no header", what);
        PBT_REQUIRE(take(h) == t.rows[0], "%s: header %s, expected %s", what, show(take(h)).c_str(), show(t.rows[0]).c_str());
      }
    };
    if (ask == 1) header_check();
    size_t from = header && !t.rows.empty() ? 1 : 0;
    for (size_t i = from; i < t.rows.size(); ++i) {
      CsvRow *r = CsvParser_getRow(s.p);
      PBT_REQUIRE(r != nullptr, "%s: row %zu of %zu is missing (%s)", what, i, t.rows.size(), CsvParser_getErrorMessage(s.p) ? CsvParser_getErrorMessage(s.p) : "no message");
      Row got = take(r);
      CsvParser_destroy_row(r);
      PBT_REQUIRE(got.size() == t.rows[i].size(), "%s: row %zu has %zu fields, expected %zu: %s", what, i, got.size(), t.rows[i].size(), show(got).c_str());
      for (size_t k = 0; k < got.size(); ++k) PBT_REQUIRE(got[k] == t.rows[i][k], "%s: row %zu, field %zu is [%s], expected [%s]", what, i, k, show(got[k]).c_str(), show(t.rows[i][k]).c_str());
      if (ask == 2) header_check();
    }
    expect_end(s.p, what, 1 + (int)c.draw(3));
    if (ask == 2) header_check();
  }
}

void any_bytes(Case &c) {
  c.label("arbitrary bytes");
  std::string b;
  size_t n = c.draw(4) == 3 ? c.draw(400) : c.draw(24);
  uint64_t how = c.draw(3);
  static const char sp[] = "\",\n\ra1\"";
  for (size_t i = 0; i < n; ++i) {
    switch (how == 2 ? c.draw(2) : how) {
      case 0: b += sp[c.draw(7)]; break;
      default: b += (char)c.draw(256);
    }
    if (c.draw(40) == 39) b += std::string(60 + c.draw(8), "a\",\r"[c.draw(4)]);
  }
  if (c.chance(1, 4)) {  // damage a well-formed text
    b = gen_text(c).bytes;
    int k = 1 + (int)c.draw(4);
    for (int i = 0; i < k && !b.empty(); ++i) {
      size_t at = c.draw(b.size());
      if (c.flip()) b.erase(at, 1); else b[at] = sp[c.draw(7)];
    }
    c.label("damaged text");
  }
  int header = (int)c.draw(2);
  const char *delim = c.flip() ? "," : ";";
  c.note("header %d, bytes: %s\n", header, show(b).c_str());
  if (b.find('"') != std::string::npos) c.nontrivial = true;
  std::vector<Row> got[2];
  for (int file = 0; file < 2; ++file) {
    Source s(file, b, delim, header);
    if (header && c.flip()) (void)CsvParser_getHeader(s.p);
    size_t total = 0;
    while (CsvRow *r = CsvParser_getRow(s.p)) {
      Row row = take(r);
      CsvParser_destroy_row(r);
      for (auto &f : row) total += f.size();
      got[file].push_back(row);
      PBT_REQUIRE(got[file].size() <= b.size() + 1, "more rows than bytes");
    }
    PBT_REQUIRE(total <= b.size(), "fields of %zu bytes out of %zu", total, b.size());
    expect_end(s.p, file ? "file" : "string", 2);
    if (header) {
      const CsvRow *h = CsvParser_getHeader(s.p);
      if (h) got[file].insert(got[file].begin(), take(h));
    }
  }
  if (b.find('\0') == std::string::npos) PBT_REQUIRE(got[0] == got[1], "parsing from a file gives %zu rows, from a string %zu (or other fields)", got[1].size(), got[0].size());
}

void errors(Case &c) {
  c.label("errors");
  c.nontrivial = true;
  auto rejected = [&](CsvParser *p, const char *what) {
    for (int i = 0; i < 2; ++i) {
      PBT_REQUIRE(CsvParser_getRow(p) == nullptr, "%s: a row", what);
      PBT_REQUIRE(CsvParser_getErrorMessage(p) != nullptr && *CsvParser_getErrorMessage(p), "%s: no message", what);
    }
    CsvParser_destroy(p);
  };
  int header = (int)c.draw(2);
  std::string dir = pbt::scratch_root();
  switch (c.draw(6)) {
    case 0: {
      static const char *bad[] = {"\n", "\r", "", "\""};
      const char *d = bad[c.draw(4)];
      c.note("delimiter %s\n", show(std::string(d)).c_str());
      rejected(CsvParser_new_from_string("a,b\n", d, header), "unsupported delimiter (string)");
      std::string f = pbt::scratch_file("p27.csv");
      pbt::write_all(f, "a,b\n");
      rejected(CsvParser_new(f.c_str(), d, header), "unsupported delimiter (file)");
      break;
    }
    case 1: rejected(CsvParser_new(nullptr, ",", header), "null path"); break;
    case 2: rejected(CsvParser_new_from_string(nullptr, ",", header), "null string"); break;
    case 3: {
      std::string f = dir + "/" + std::string(1 + c.draw(200), 'n') + ".none";
      rejected(CsvParser_new(f.c_str(), ",", header), "missing file");
      break;
    }
    case 4: {
      std::string f;
      while (f.size() < 300 + c.draw(4000)) f += "/no_such_directory";
      rejected(CsvParser_new(f.c_str(), ",", header), "missing file with a long name");
      break;
    }
    default: rejected(CsvParser_new(dir.c_str(), ",", header), "a directory"); break;
  }
}
}  // namespace

namespace {
void property(Case &c) {
  uint64_t k = c.draw(20);
  if (k == 19) return errors(c);
  if (k >= 12) return any_bytes(c);
  return roundtrip(c);
}
}  // namespace

PBT_PROPERTY("P27", "well-formed texts written by an independent writer (fields up to 270 bytes, up to 198 fields per row, nine delimiters, LF and CRLF, header or not, final newline or not), arbitrary and damaged bytes, and unusable inputs, each from memory and from a file; non-trivial when a row has several fields, a field needs quoting or the bytes hold a quote") {
  int files = pbt::open_files();
  property(c);
  int now = pbt::open_files();
  PBT_REQUIRE(now == files, "%d files are open after the case, %d were before", now, files);
}
