// P03: fixed-form line anatomy against ref::fixed_line.
#include "mc.hh"
#include "src_util.hh"
#include "cmp_lines.hh"
char const *const mc_property = "P03";
using FLPR::File_Line;

static void one(mc::Run &r, std::string const &s, char open, int last) {
  ref::State st; st.open = open; st.cont = open != 0; std::string wr;
  ref::Line L = ref::fixed_line(s, last, st, wr);
  bool threw = false; File_Line f; std::string what;
  try { f = File_Line::analyze_fixed(7, s, open, last); } catch (std::exception &e) { threw = true; what = e.what(); }
  r.step();
  if (L.odd) { r.count(2); return; }
  if (L.kind == ref::ERROR) { if (!threw) r.fail("should be rejected: " + describe(f)); r.trace(); return; }
  if (threw) r.fail("valid line rejected: " + what);
  auto d = differ(f, L, true);
  if (!d.empty()) r.fail(d);
  if (f.linenum != 7) r.fail("line number lost");
  std::ostringstream os; os << f;
  if (os.str() != wr) r.fail("written as " + mc::show(os.str()) + " instead of " + mc::show(wr) + " from " + describe(f));
  if (L.kind == ref::CODE && f.main_first_col() != (int)(f.main_txt.empty() ? 0 : wr.find(f.main_txt[0] == ' ' ? f.main_txt : f.main_txt, 6) + 1))
    r.fail("main_first_col() is " + std::to_string(f.main_first_col()));
  r.state(mc::hash(describe(f), L.kind)); r.trace();
}

static std::vector<std::string> kinds() {
  return {"", "      ", "c x", "C 'x", "* y", "! z \"", "   ! q", "#if", "#def \\", "      include 'f'", "      INCLUDE x", "!#flpr o",
    "      a=1", "10    a=1", "  10  a=1 ! c'", "99999 b", "     0a=1", "     &+2", "     1 b", "     & 'x'", "     +'q",
    "      a='x", "      a='x ", "      a=\"it's", "     & y'", "     &y''z'", "     &y\"", "     &y", "     &  'b' ! e", "      a=1;b=2", "10", "     &", "\ta=2", "\t\tb", "1\tc", "     $ d!e", "      call f('x', \"y\")                                                   SEQ00010",
    "      a='a literal running beyond the last column which is seventy-two characters long'", "     ! c6"};
}

static void file_case(mc::Run &r, std::vector<std::string> const &v, int last) {
  FLPR::Logical_File lf; bool ok = scan_fixed(lf, v, last); r.step(v.size());
  ref::State st; std::vector<ref::Line> R; Lines W; bool err = false, odd = false, cpp_cont = false, seen_code = false;
  for (auto const &s : v) {
    if (cpp_cont) { ref::Line L; L.kind = ref::CPP; R.push_back(L); W.push_back(s); st = ref::State{}; auto t = ref::rtrim(s); cpp_cont = !t.empty() && t.back() == '\\'; continue; }
    std::string w; R.push_back(ref::fixed_line(s, last, st, w)); W.push_back(w);
    auto const &L = R.back();
    if (L.kind == ref::ERROR) { err = true; break; }
    if (L.odd) { odd = true; break; }
    if (L.kind == ref::CODE) { if (L.starts_cont && !seen_code) { odd = true; break; } seen_code = true; }
    else if (L.kind == ref::CPP || L.kind == ref::INCLUDE || L.kind == ref::DIRECTIVE) { seen_code = false; if (L.kind == ref::CPP) { auto t = ref::rtrim(s); cpp_cont = t.back() == '\\'; } }
  }
  if (odd) { r.count(2); return; }
  if (err) { if (ok) r.fail("accepted"); r.trace(); return; }
  if (!ok) r.fail("valid file rejected");
  size_t i = 0; std::string sh;
  for (auto const &ll : lf.lines) {
    size_t first = i;
    for (auto const &f : ll.layout()) {
      if (i >= R.size()) r.fail("more lines than input");
      auto d = differ(f, R[i], true);
      if (!d.empty()) r.fail("line " + std::to_string(i + 1) + ": " + d);
      if (f.linenum != (int)i + 1) r.fail("line number");
      // grouping: an initial code line starts a logical line, a continuation never does
      if (R[i].kind == ref::CODE && (R[i].starts_cont == (i == first))) r.fail("line " + std::to_string(i + 1) + " grouped into the wrong statement");
      sh += char('a' + R[i].kind); sh += f.open_delim; sh += i == first ? '|' : '.'; ++i;
    }
  }
  if (i != R.size()) r.fail("lines lost");
  r.state(sh); r.trace();
}

template <typename F> static void product(size_t n, std::string const &A, F &&f) {
  std::string s(n, A[0]); std::vector<size_t> ix(n, 0);
  for (;;) {
    f(s);
    size_t k = 0; while (k < n && ++ix[k] == A.size()) { ix[k] = 0; s[k] = A[0]; ++k; }
    if (k == n) return;
    s[k] = A[ix[k]];
  }
}

void explore(mc::Run &r) {
  std::vector<char> opens{0, '\'', '"'};
  // 1. control columns
  {
    std::vector<std::string> bodies{"", " ", "x", "  x=1", "'a!b' ! c", "x'", "y\" !", "!c", "  ! c", "'q", "&", "0", "x    "};
    std::string A = r.thorough ? " 10c!&x" : " 10c!&";
    product(3, A, [&](std::string h) {
      for (char o : opens)
        if (r.begin([&] { return "lines with columns 1-3 " + mc::show(h) + " open " + std::string(1, o ? o : '-'); })) r.body([&] {
          std::string pre = r.cur;
          product(3, A, [&](std::string t) { for (auto const &b : bodies) for (int last : {0, 72, 9}) { std::string s = h + t + b; r.note(pre, s + " last=" + std::to_string(last)); one(r, s, o, last); r.count(0); } });
        });
    });
    for (std::string c1 : {"*", "C", "c", "#", "d", "D", "!", "1", "\t", " \t", "12\t", "\t\t", "  \t\t\t", "     \t", "      \t", "\t&", "\t1", "!#flpr", "c#flpr", "!#flprf90 literal", "i", "      include", "      INCLUDE ", "\tinclude"})
      for (std::string b : {"", " ", "x", "     x", "nclude 'f'", "'f'", "\"f\" ! c", "      x = 'a", "!", "=1"})
        for (char o : opens) for (int last : {0, 72}) {
          std::string s = c1 + b;
          if (r.begin([&] { return "line " + mc::show(s) + " open " + std::string(1, o ? o : '-') + " last " + std::to_string(last); })) r.body([&] { one(r, s, o, last); r.count(0); });
        }
  }
  // 2. text around the last column
  {
    std::string A = "a '\"!&"; size_t n = r.thorough ? 8 : 6;
    for (std::string c : {"      ", "     &", "  12  ", "     0"}) for (size_t len = 1; len <= n; ++len)
      product(std::min<size_t>(len, 2), A, [&](std::string h) {
        for (char o : opens) if (r.begin([&] { return "lines " + mc::show(c + h) + "+" + std::to_string(len - h.size()) + " characters, open " + std::string(1, o ? o : '-'); })) r.body([&] {
          std::string pre = r.cur;
          product(len - h.size(), A, [&](std::string t) { for (int last : {0, 8, 9, 10, 11, 12}) { std::string s = c + h + t; r.note(pre, s + " last=" + std::to_string(last)); one(r, s, o, last); r.count(0); } });
        });
      });
  }
  // 3. sequences
  auto K = kinds(); size_t n = r.thorough ? 4 : 3;
  for (size_t len = 1; len <= n; ++len) {
    std::vector<size_t> ix(len, 0);
    for (;;) {
      std::vector<std::string> v; for (auto i : ix) v.push_back(K[i]);
      for (int last : {72, 0}) if (r.begin([&] { return mc::show(v) + " last column " + std::to_string(last); })) r.body([&] { file_case(r, v, last); });
      size_t k = 0; while (k < len && ++ix[k] == K.size()) ix[k++] = 0;
      if (k == len) break;
    }
  }
}
