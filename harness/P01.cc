// P01: scan + write is the identity; scanning is a pure function of the text.
#include "mc.hh"
#include "src_util.hh"
#include "cmp_lines.hh"
char const *const mc_property = "P01";

static std::string dump(FLPR::Logical_File const &f) {
  std::string s;
  for (auto const &ll : f.lines) {
    s += "LL " + std::to_string(ll.label) + " " + std::to_string((int)ll.cat) + " " + toks_full(ll) + "\n";
    for (auto const &fl : ll.layout()) s += std::to_string(fl.linenum) + describe(fl) + "\n";
  }
  return s;
}
static void poison() {   // files that end in every kind of open state
  for (Lines const &v : {Lines{"a='x&"}, Lines{"a=\"x &"}, Lines{"a=1 &"}, Lines{"!#flprf90 literal", "x"}, Lines{"#def \\"}, Lines{"a='unterminated"}, Lines{"a = operator("}, Lines{"i = z'"}, Lines{"x = 'a''"}}) {
    FLPR::Logical_File f; scan_free(f, v);
  }
  FLPR::Logical_File f; scan_fixed(f, {"      a='x"});
}
static void check_file(mc::Run &r, Lines const &in, Lines const &expect, bool fixed, int last, bool must_scan) {
  FLPR::Logical_File f;
  bool ok = fixed ? scan_fixed(f, in, last) : scan_free(f, in);
  r.step(in.size());
  if (!ok) { r.count(1); if (must_scan) r.fail("valid file rejected"); return; }
  std::string w = written(f);
  if (w != join(expect)) r.fail("written back as " + mc::show(split_lines(w)) + " instead of " + mc::show(expect));
  int n = 0;
  for (auto const &ll : f.lines) {
    if (ll.layout().empty()) r.fail("empty logical line");
    for (auto const &fl : ll.layout()) if (fl.linenum != ++n) r.fail("line " + std::to_string(n) + " carries number " + std::to_string(fl.linenum));
  }
  if (n != (int)in.size()) r.fail("physical line count");
  if (f.num_input_lines != in.size()) r.fail("num_input_lines");
  std::string d = dump(f);
  f.make_stmts();
  if (written(f) != w) r.fail("making statements changed the text");
  r.state(d);
  poison();
  FLPR::Logical_File g; std::istringstream is(join(in));
  bool ok2 = g.read_and_scan(is, fixed ? "t.f" : "t.f90", last, fixed ? FLPR::File_Type::FIXEDFMT : FLPR::File_Type::FREEFMT);
  r.step(in.size());
  if (!ok2 || dump(g) != d) r.fail("a second scan of the same text, after other files, differs:\n" + dump(g) + "--- first\n" + d);
  r.trace();
}
static std::vector<std::string> free_kinds() {
  return {"", " \t ", "! c 'q", "\t!x", "#if 'a", "#def X \\", "include 'f' ! x", "!#flpr x", "!#flprf90 literal", "a=1", "  10 a = 1  ! t", "00012\tb", "a &", "a & ! c", "  & b", "&b&", "& &", "9 &", "s='x &", "s=\"p'!&  ", "  & y' ! z", "&y\" // 'x' &", "'", "a=1;;b=2 ;", " ; ", "x\r", "\r", "a\tb\t", "\\", "  \\ ", "a=1 & b", "@$?", "1234567 x", "123456 x", "!", "&", "& ! c", "a='x'&", "\xc3\xa9 ! \xe9"};
}
static std::vector<std::string> fixed_kinds() {
  return {"", "  \t ", "c x", "C", "*'y", "! z", "   ! q \"", "#if", "#def \\", "      include 'f'", "!#flpr o", "      a=1", "10    a=1  ! x", "  10  a", "99999 b", "     0a", "     &+2", "     1 'x'  ", "     +'q", "      a='x", "      a='x   ", "     & y'", "     &y\"!", "      a=1;;b=2", "10", "     &", "     &  ", "\ta=2", "\t\tb", "1\tc", " \t\t d", "      a\tb", "      call f('x', \"y\")                                                   SEQ00010",
    "      call f('x', \"y\")                                                   &", "      call f('x', \"y\")                                                   ! k", "      call f(x)                                                         ", "      call f(x)                                                                  ",
    "      a='a literal running beyond the last column which is seventy-two characters long'", "123456789012345678901234567890", "c23456789 123456789 123456789 123456789 123456789 123456789 123456789 123456789 x", "      x\r", "     ! c6"};
}
template <typename F> static void seqs(std::vector<std::string> const &K, size_t n, F &&f) {
  for (size_t len = 0; len <= n; ++len) {
    std::vector<size_t> ix(len, 0);
    for (;;) {
      Lines v; for (auto i : ix) v.push_back(K[i]);
      f(v);
      size_t k = 0; while (k < len && ++ix[k] == K.size()) ix[k++] = 0;
      if (k == len) break;
    }
  }
}
void explore(mc::Run &r) {
  size_t n = r.thorough ? 4 : 3;
  seqs(free_kinds(), n, [&](Lines const &v) {
    if (r.begin([&] { return "free " + mc::show(v); })) r.body([&] {
      bool must = true; ref::State st; bool pp = false;
      for (auto const &s : v) {
        if (pp) { auto t = ref::rtrim(s); pp = !t.empty() && t.back() == '\\'; st = ref::State{}; continue; }
        auto L = ref::free_line(s, st); if (L.kind == ref::ERROR || L.odd) { must = false; break; }
        if (L.kind == ref::CPP) { auto t = ref::rtrim(s); pp = t.back() == '\\'; }
      }
      check_file(r, v, v, false, 0, must);
    });
  });
  for (int last : {72, 0, 80})
    seqs(fixed_kinds(), last == 72 ? n : 2, [&](Lines const &v) {
      if (r.begin([&] { return "fixed " + mc::show(v) + " last column " + std::to_string(last); })) r.body([&] {
        ref::State st; Lines w; bool pp = false;
        for (auto const &s : v) {
          if (pp) { auto t = ref::rtrim(s); pp = !t.empty() && t.back() == '\\'; st = ref::State{}; w.push_back(s); continue; }
          std::string o; auto L = ref::fixed_line(s, last, st, o); if (L.kind == ref::ERROR || L.odd) { r.count(2); return; }
          if (L.kind == ref::CPP) { auto t = ref::rtrim(s); pp = t.back() == '\\'; }
          w.push_back(o);
        }
        check_file(r, v, w, true, last, true);
      });
    });
  // every single line over a character alphabet
  std::string A = "a1 '\"!&;#\t\\\r"; size_t m = r.thorough ? 6 : 4;
  std::vector<std::string> C; for (char c : A) C.push_back(std::string(1, c));
  seqs(C, m, [&](Lines const &p) {
    std::string s; for (auto const &x : p) s += x;
    for (int form = 0; form < 3; ++form)
      if (r.begin([&] { return (form == 0 ? "free line " : form == 1 ? "fixed line " : "continued free line ") + mc::show(s); })) r.body([&] {
        if (form == 0) check_file(r, {s}, {s}, false, 0, false);
        else if (form == 2) check_file(r, {"x = &", s, "y"}, {"x = &", s, "y"}, false, 0, false);
        else { ref::State st; std::string o, t = "      " + s; auto L = ref::fixed_line(t, 9, st, o); if (L.odd || L.kind == ref::ERROR) return; check_file(r, {t}, {o}, true, 9, true); }
      });
  });
}
