// P02: free-form line anatomy.  Every string up to a length over the
// significant characters, in every entry state, and every sequence of line
// kinds, against the reference of ref_lines.hh.
#include "mc.hh"
#include "src_util.hh"
#include "cmp_lines.hh"
char const *const mc_property = "P02";
using FLPR::File_Line;

static void one(mc::Run &r, std::string const &s, ref::State st0) {
  ref::State st = st0;
  ref::Line L = ref::free_line(s, st);
  bool lit = st0.lit, threw = false; File_Line f;
  try { f = File_Line::analyze_free(7, s, st0.open, st0.cont, lit); } catch (std::exception &) { threw = true; }
  r.step();
  if (L.odd) { r.count(2); return; }
  if (L.kind == ref::ERROR) { r.count(1); if (!threw) r.fail("ends inside a literal but was accepted: " + describe(f)); r.trace(); return; }
  if (threw) r.fail("valid line rejected");
  auto d = differ(f, L, false);
  if (!d.empty()) r.fail(d);
  if (lit != st.lit) r.fail("literal-block state wrong");
  if (f.linenum != 7) r.fail("line number lost");
  if (f.left_txt + f.left_space + f.main_txt + f.right_space + f.right_txt != s) r.fail("fields do not reassemble the line; " + describe(f));
  r.state(mc::hash(describe(f), L.kind)); r.trace();
}

static std::vector<std::string> kinds() {
  return {"", "  ", "! c", "  !c 'q", "#if", "#define X \\", "include 'f'", "  INCLUDE \"f\"", "include x", "!#flpr on", "!#flprf90 literal",
    "a=1", "10 a=1", "12345 b", "a=1 ! c'", "a=1 &", "a=1 & ! c \"", "&", " & ", "& &", "  & b", "  & b &", "9 &", "9", "9*b &", "'x' 'y'", "\"!&\"", "'it''s'",
    "a='x &", "a='x& ! y &", "b=\"p'q&", "&y'", "&y' &", " & y\"", "&", "x'", "y''z' ! e", "z&w&", "a=1;b=2", " ;; ", "#", "!", "a='unterminated", "&'&",  "& \"", "1'", "\t&\tx\t"};
}

static void file_case(mc::Run &r, std::vector<std::string> const &v) {
  FLPR::Logical_File lf;
  bool ok = scan_free(lf, v);
  r.step(v.size());
  ref::State st; std::vector<ref::Line> R; bool err = false, odd = false; bool cpp_cont = false;
  for (auto const &s : v) {
    if (cpp_cont) { // continuation of a preprocessor line
      ref::Line L; L.kind = ref::CPP; R.push_back(L); st = ref::State{};
      auto t = ref::rtrim(s); cpp_cont = !t.empty() && t.back() == '\\'; continue;
    }
    R.push_back(ref::free_line(s, st));
    if (R.back().kind == ref::ERROR) { err = true; break; }
    if (R.back().odd) { odd = true; break; }
    if (R.back().kind == ref::CPP) { auto t = ref::rtrim(s); cpp_cont = t.back() == '\\'; }
  }
  if (odd) { r.count(2); return; }
  if (err) { r.count(1); if (ok) r.fail("a line ends inside a literal, but the file was accepted"); r.trace(); return; }
  if (!ok) r.fail("valid file rejected");
  size_t i = 0; std::string sh;
  for (auto const &ll : lf.lines)
    for (auto const &f : ll.layout()) {
      if (i >= R.size()) r.fail("more lines than input");
      auto d = differ(f, R[i], false);
      if (!d.empty()) r.fail("line " + std::to_string(i + 1) + ": " + d);
      if (f.linenum != (int)i + 1) r.fail("line number");
      sh += char('a' + R[i].kind); sh += f.is_continued() ? '1' : '0'; sh += f.open_delim; ++i;
    }
  if (i != R.size()) r.fail("lines lost");
  r.state(sh); r.trace();
}

void explore(mc::Run &r) {
  // 1. strings
  std::string A = "a1 '\"!&#";
  size_t maxlen = r.thorough ? 8 : 6;
  std::vector<ref::State> entry(5);
  entry[1].cont = true; entry[2].cont = true; entry[2].open = '\''; entry[3].cont = true; entry[3].open = '"'; entry[4].lit = true;
  for (size_t len = 0; len <= maxlen; ++len) {
    size_t head = len < 3 ? len : 3, tail = len - head;   // one case = one prefix of up to 3 characters
    size_t nh = 1, nt = 1; for (size_t k = 0; k < head; ++k) nh *= A.size(); for (size_t k = 0; k < tail; ++k) nt *= A.size();
    for (size_t h = 0; h < nh; ++h) {
      std::string s(len, ' '); size_t x = h;
      for (size_t k = 0; k < head; ++k) { s[k] = A[x % A.size()]; x /= A.size(); }
      for (size_t e = 0; e < entry.size(); ++e)
        if (r.begin([&] { return "all lines of length " + std::to_string(len) + " starting with " + mc::show(s.substr(0, head)) + " in entry state " + std::to_string(e); }))
          r.body([&] {
            std::string pre = r.cur;
            for (size_t t = 0; t < nt; ++t) {
              size_t y = t; for (size_t k = head; k < len; ++k) { s[k] = A[y % A.size()]; y /= A.size(); }
              r.note(pre, s);
              one(r, s, entry[e]); r.count(0);
            }
          });
    }
  }
  // 2. decorated include/directive/tab/label lines
  {
    std::vector<std::string> pre{"", " ", "\t", "   ", "1 ", "12345 ", "99999", "&", " &", "a ", "\r"},
      mid{"include", "INCLUDE", "iNcLude", "includ", "includes", "!#flpr", "!#flp", "!#flprf90 literal", "!#flprf90 litera", "!#flprxxx literals", "!#flprf90  literal", "#", "##", "!", "", "x", ";", "'a!b'", "\"a&b\"", "'a''!'", "\"'\"", "'\"'", "x%y"},
      suf{"", " ", "'f'", " 'f'", "\"f\"", "  \"f\" ! c", "f", "=1", " &", "&", " & ! c", "!c", " ! c & ' \"", "\t", "\t! c", "'&", "'& ", "'& x", "\"!&", " &\t", "&!", "\r", "'&\r", "&\r", "\"&\r", "'& \r", "& ! c\r", "'&\t\r", " &\r\t"};
    for (auto const &p : pre) for (auto const &m : mid) for (auto const &q : suf) for (size_t e = 0; e < entry.size(); ++e) {
      std::string s = p + m + q;
      if (r.begin([&] { return "line " + mc::show(s) + " entry state " + std::to_string(e); })) r.body([&] { one(r, s, entry[e]); r.count(0); });
    }
  }
  // 2c. white space of every kind around literals, ampersands and comments
  { std::string B = "a'\"!& \t\r;"; size_t top = r.thorough ? 7 : 5;
    for (size_t len = 1; len <= top; ++len) { size_t n = 1; for (size_t k = 1; k < len; ++k) n *= B.size();
      for (char c0 : B) for (size_t e = 0; e < entry.size(); ++e) if (r.begin([&] { return "all lines of length " + std::to_string(len) + " (any white space) starting with " + mc::show(std::string(1, c0)) + " in entry state " + std::to_string(e); }))
        r.body([&] { std::string pre = r.cur, s(len, ' '); s[0] = c0; for (size_t t = 0; t < n; ++t) { size_t y = t; for (size_t k = 1; k < len; ++k) { s[k] = B[y % B.size()]; y /= B.size(); } r.note(pre, s); one(r, s, entry[e]); r.count(0); } }); } }
  // 2b. short lines far to the right
  for (size_t pad : {4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 31, 72, 73, 131, 132, 133, 255, 256, 1000}) for (std::string const lead : {" ", "\t"})
    for (size_t len = 1; len <= (r.thorough ? 5u : 4u); ++len) { size_t n = 1; for (size_t k = 0; k < len; ++k) n *= A.size();
      for (size_t e = 0; e < entry.size(); ++e) if (r.begin([&] { return "all " + std::to_string(len) + " characters after " + std::to_string(pad) + (lead[0] == ' ' ? " blanks" : " tabs") + " in entry state " + std::to_string(e); }))
        r.body([&] { std::string pre = r.cur, s(len, ' '), head; for (size_t k = 0; k < pad; ++k) head += lead; for (size_t t = 0; t < n; ++t) { size_t y = t; for (size_t k = 0; k < len; ++k) { s[k] = A[y % A.size()]; y /= A.size(); } r.note(pre, s); one(r, head + s, entry[e]); r.count(0); } }); }
  // 3. sequences
  auto K = kinds(); size_t n = r.thorough ? 4 : 3;
  for (size_t len = 1; len <= n; ++len) {
    std::vector<size_t> ix(len, 0);
    for (;;) {
      std::vector<std::string> v; for (auto i : ix) v.push_back(K[i]);
      if (r.begin([&] { return mc::show(v); })) r.body([&] { file_case(r, v); });
      size_t k = 0; while (k < len && ++ix[k] == K.size()) ix[k++] = 0;
      if (k == len) break;
    }
  }
}
