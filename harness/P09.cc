// P09: every small fixed-form file converted to free form; the written text is
// read by the reference as free form and must be the same program.
#include "mc.hh"
#include "src_util.hh"
#include "ref_read.hh"
char const *const mc_property = "P09";
using namespace FLPR;
using refr::Item; using refr::Prog; using refr::read; using refr::show;
static void one(mc::Run &r, Lines const &v, int last) {
  Prog want = read(v, true, last);
  if (!want.ok) { r.count(0); return; }
  Logical_File f; if (!scan_fixed(f, v, last)) r.fail("valid file rejected"); r.step();
  bool any = !f.lines.empty(); f.make_stmts(); std::vector<std::string> mem; for (auto const &s : f.ll_stmts) { std::string o; for (auto const &t : s) o += t.text() + " "; mem.push_back(o); }
  bool res = f.convert_fixed_to_free(); r.step(); if (res != any) r.fail("reports " + std::to_string(res));
  if (any && f.is_fixed_format()) r.fail("the file still says that it is fixed-form");
  Lines w = split_lines(written(f)); Prog got = read(w, false, 0);
  if (!got.ok || got.items != want.items) r.fail("written as " + mc::show(w) + ", which reads " + show(got) + " instead of " + show(want));
  { size_t k = 0; for (auto const &s : f.ll_stmts) { std::string o; for (auto const &t : s) o += t.text() + " "; if (k >= mem.size() || o != mem[k++]) r.fail("the statements in memory changed"); } }
  Logical_File g; if (!scan_free(g, w)) r.fail("the free form does not scan: " + mc::show(w)); g.make_stmts(); size_t k = 0;
  auto a = f.ll_stmts.begin(); for (auto const &s : g.ll_stmts) { std::string o; for (auto const &t : s) o += t.text() + " "; if (k >= mem.size() || o != mem[k] || s.label() != a->label() || s.is_compound() != a->is_compound()) r.fail("statement " + std::to_string(k + 1) + " reads " + o + " from " + mc::show(w)); ++k; ++a; }
  if (k != mem.size()) r.fail("statements are missing from " + mc::show(w));
  if (f.convert_fixed_to_free()) r.fail("converts again");
  if (split_lines(written(f)) != w) r.fail("a second conversion changes the text");
  r.state(show(want)); r.trace();
}
void explore(mc::Run &r) {
  std::string pad(60, 'a');
  std::vector<std::string> K{"", "c x'", "C & y", "* !y", "! z \"", "   ! q", "c", "#if 'a", "#def \\", "      include 'f'", "!#flpr o",
    "      a=1", "10    a=1", "  10  a= b! c'", " 99999b  ; c ", "     0a=1", "     &+2", "     1b", "     ! 'x'", "     +'q", "      a = 'x", "      a='x ! ", "      a=\"it's", "     & y'", "     &y''z'", "     &y\"", "     &y", "     c  'b' ! e",
    "      p;q=2 ! f", "      x = p", "     1      ! g", "\ta=2", "1\tc", "     $ d!e & f",
    "      call f('x', \"y\")                                                   SEQ00010", "      s = b + c                                                         &", "     &  + d                                                              & T2", "     & e                                                                ! T3",
    "      s = '" + pad.substr(0, 61) + "SEQ00020", "     &" + pad + "bbbbbbSEQ3", "     &'" + pad.substr(0, 59) + "  ", "     &a''b'" + std::string(62, ' ') + "!x", "      s = c                                                       & ! u"};
  auto all = [&](std::vector<std::string> const &A, size_t n, std::vector<int> const &cols) {
    for (size_t len = 1; len <= n; ++len) { std::vector<size_t> ix(len, 0);
      for (;;) {
        if (r.begin([&] { Lines v; for (auto i : ix) v.push_back(A[i]); return mc::show(v); })) r.body([&] { Lines v; for (auto i : ix) v.push_back(A[i]); for (int c : cols) { r.note("last column " + std::to_string(c), mc::show(v)); one(r, v, c); } });
        size_t k = 0; while (k < len && ++ix[k] == A.size()) ix[k++] = 0;
        if (k == len) break; } }
  };
  all(K, r.thorough ? 4 : 3, {72, 0});
  all(K, 2, {9, 10, 11, 12, 13});
  std::vector<std::string> D{"c x'", "", "      a=1", "10    a = 'x", "     & y'", "     &y", "     1 b ! c", "     0a=1;b", "#if 'a", "      s = '" + pad.substr(0, 61) + "SEQ00020", "     &a''b'"};
  all(D, r.thorough ? 7 : 5, {72});
  // text around the last column
  std::string A = "a '!&"; size_t n = r.thorough ? 8 : 6;
  std::function<void(std::string, std::string, std::string)> rec = [&](std::string pre, std::string post, std::string s) {
    if (s.size() == n) { if (r.begin([&] { return "columns: " + pre + s; })) r.body([&] { for (auto const &tail : {std::string(""), std::string("     &b"), std::string("     & '"), std::string("     &x'c")}) for (int c : {0, 8, 9, 10, 11}) { Lines v{pre + s}; if (!post.empty()) v.insert(v.begin(), post); if (!tail.empty()) v.push_back(tail); r.note("last column " + std::to_string(c), mc::show(v)); one(r, v, c); } }); return; }
    for (char c : A) rec(pre, post, s + c); };
  rec("      ", "", ""); rec("     &", "      a", ""); rec("     &", "      'a", "");
}
