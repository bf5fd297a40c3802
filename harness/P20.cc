// P20: the formatter on every short file, under every combination of options.
#include "mc.hh"
#include <cstring>
#include "src_util.hh"
#include "ref_read.hh"
#include "flpr_format_base.hh"
#include <unistd.h>
char const *const mc_property = "P20";
using namespace FLPR;
// What a file says: statements with labels, and the remaining lines with the
// number of statements that may come before them.
struct Extra { std::string text; size_t lo, hi; };
struct Told { bool ok = true; std::string why; std::vector<std::string> st; std::vector<Extra> x; bool compound = false, empties = false; std::vector<std::string> inner; /* comment lines inside statements */ };
static Told tell(Lines const &v, bool fixed, int last) {
  Told t; auto p = refr::read(v, fixed, last); t.ok = p.ok; t.why = p.why;
  if (fixed) for (auto const &l : v) if (!refr::strip(l).empty() && refr::strip(l).find_first_not_of("0123456789") == std::string::npos && ref::firstnb(l) < 5) { t.ok = false; t.why = "label on nothing"; } size_t lo = 0; int until = -1;
  for (auto const &i : p.items) {
    if (i.kind != 's') { bool inside = i.line <= until; if (inside && i.col < 100000) t.inner.push_back(i.text); t.x.push_back({std::string(1, i.kind) + i.text, inside ? lo : t.st.size(), t.st.size()}); continue; }
    lo = t.st.size(); until = i.last; std::istringstream is(i.text); std::string w, cur; std::vector<std::string> s; bool semi = false;
    while (is >> w) { size_t c = w.find(':'); if (c == std::string::npos) { cur += w + " "; continue; } /* inside a literal */ w = w.substr(c + 1); if (w == ";") { if (cur.empty()) t.empties = true; else s.push_back(cur); cur.clear(); semi = true; } else { cur += w + " "; semi = false; } }
    if (!cur.empty()) s.push_back(cur); if (semi) t.empties = true; if (s.size() > 1) t.compound = true;
    for (auto const &q : s) if (std::isdigit((unsigned char)q[0])) { t.ok = false; t.why = "a statement begins with a number"; }
    if (s.empty() && i.label) { t.ok = false; t.why = "label on nothing"; }
    if (i.label && !s.empty()) s[0] = std::to_string(i.label) + " " + s[0];
    for (auto const &q : s) t.st.push_back(q);
  }
  // an empty continuation line keeps the comments before it inside the statement
  if (fixed) for (auto const &i : p.items) if (i.kind == '!' && i.col < 100000) for (size_t j = (size_t)i.line + 1; j < v.size(); ++j) { auto const &l = v[j]; auto s = refr::strip(l); if (l.size() > 5 && l.find_first_not_of(' ') == 5 && l[5] != '!' && refr::strip(l.substr(6)).empty()) t.inner.push_back(i.text); else if (!s.empty() && s[0] != '!' && !std::strchr("Cc*", l[0])) break; }
  return t;
}
struct Tap { std::ostringstream out, err; std::streambuf *o, *e; Tap() : o(std::cout.rdbuf(out.rdbuf())), e(std::cerr.rdbuf(err.rdbuf())) {} ~Tap() { std::cout.rdbuf(o); std::cerr.rdbuf(e); } };
struct Res { std::string out; bool readable, parsed; };
static Options opts(unsigned m, bool force, bool quiet) { Options o; o[Options::FIXED_TO_FREE] = m & 1; o[Options::REMOVE_EMPTY_STMTS] = m & 2; o[Options::SPLIT_COMPOUND_STMTS] = m & 4; o[Options::REINDENT] = m & 8; o[Options::ELABORATE_END_STMTS] = m & 4; o.set_do_output(force); o.set_quiet(quiet); return o; }
static Res format(mc::Run &r, std::string const &text, bool fixed, int last, unsigned m, bool force, bool quiet) {
  Tap tap; std::istringstream is(text); File f(is, fixed ? "t.f" : "t.f90", last, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT); Res s; s.readable = f;
  Indent_Table tab; Options o = opts(m, force, quiet); if (f && f.logical_file().is_fixed_format() && !o[Options::FIXED_TO_FREE]) { tab.apply_constant_fixed_indent(4); tab.set_continued_offset(5); } else tab.apply_emacs_indent();
  flpr_format_file(f, o, tab); r.step(); s.parsed = f; s.out = tap.out.str(); return s;
}
static std::string oname(unsigned m) { std::string s; if (m & 1) s += " free"; if (m & 2) s += " empties"; if (m & 4) s += " split"; if (m & 8) s += " indent"; return s.empty() ? " nothing" : s; }
static void check(mc::Run &r, Lines const &v, bool fixed, int last) {
  Told in = tell(v, fixed, last); if (!in.ok) { r.count(0); return; }
  std::string text = join(v), same; { Lines e = v; if (fixed) for (auto &l : e) if (refr::strip(l)[0] != '#') l = ref::expand(l); same = join(e); } // tabs of fixed form are expanded
  for (unsigned m = 0; m < 16; ++m) {
    r.note("", mc::show(v) + " options" + oname(m));
    Res a = format(r, text, fixed, last, m, true, false); bool ofixed = fixed && !(m & 1); int olast = fixed && !(m & 1) ? last : 0;
    if (!a.readable) { if (!a.out.empty()) r.fail("writes a file it could not read"); r.count(1); continue; }
    Lines w = split_lines(a.out); Told out = tell(w, ofixed, olast);
    if (!out.ok) r.fail("the output is broken (" + out.why + "): " + mc::show(w));
    if (out.st != in.st) r.fail("the statements change: " + mc::show(w));
    if (out.x.size() != in.x.size()) r.fail("comments are lost or multiply: " + mc::show(w));
    for (size_t i = 0; i < in.x.size(); ++i) { if (out.x[i].text != in.x[i].text) r.fail("a comment changes: " + mc::show(w)); if (out.x[i].lo > in.x[i].hi || out.x[i].hi < in.x[i].lo) r.fail("a comment moves to other statements: " + mc::show(w)); }
    if ((m & 6) && out.empties) r.fail("empty statements are left: " + mc::show(w));
    if ((m & 4) && out.compound) r.fail("compound statements are left: " + mc::show(w));
    if (!(m & 4) && in.compound && !out.compound) r.fail("compound statements are split unasked: " + mc::show(w));
    if (!(m & 6) && in.empties && !out.empties) r.fail("empty statements are removed unasked: " + mc::show(w));
    if (m == 0 || (m == 1 && !fixed)) if (a.out != same) r.fail("changes the file with nothing to do: " + mc::show(w));
    if (!(m & 8) || !a.parsed) if (!(m & 7) || (!(m & 1) && !in.empties && !in.compound)) if (a.out != same) r.fail("changes the file with nothing to do: " + mc::show(w));
    if ((m & 8) && !a.parsed && format(r, text, fixed, last, m & ~8u, true, false).out != a.out) r.fail("indents an unparsable file: " + mc::show(w));
    // what is written without being forced to
    Res b = format(r, text, fixed, last, m, false, false);
    if (b.out.empty() ? a.out != same && !a.out.empty() : b.out != a.out) r.fail("without forced output it writes " + mc::show(b.out) + " instead of " + mc::show(a.out));
    if (!b.out.empty() && a.out == same && !(m & 1)) r.fail("reports a change where there is none");
    Res q = format(r, text, fixed, last, m, false, true); if (!q.out.empty()) r.fail("writes although it should be quiet");
    // again
    Res c = format(r, a.out, ofixed, olast, m, true, false);
    if (!c.readable || c.parsed != a.parsed) r.fail("the output is understood differently: " + mc::show(w));
    if (c.out != a.out) { // the one listed case: a comment behind a continuation that is gone
      bool known = (m & 8) && !(in.inner.empty()); Lines w2 = split_lines(c.out); known = known && w2.size() == w.size();
      for (size_t i = 0; known && i < w.size(); ++i) if (w[i] != w2[i]) { auto t = refr::strip(w[i]); known = t == refr::strip(w2[i]) && !t.empty() && t[0] == '!' && std::count(in.inner.begin(), in.inner.end(), refr::words(t, true, false)); }
      r.fail("formatting " + mc::show(w) + " again gives " + mc::show(w2), known ? "comment-behind-emptied-continuation" : ""); }

    r.state(mc::hash(a.out));
  }
  r.trace();
}
static void all(mc::Run &r, char const *name, std::vector<std::string> const &alpha, int n, bool fixed, int last, Lines const &pre, Lines const &post) {
  std::vector<size_t> d;
  for (int len = 0; len <= n; ++len) { d.assign((size_t)len, 0);
    for (;;) {
      auto mk = [&] { Lines v = pre; for (auto i : d) v.push_back(alpha[i]); for (auto const &l : post) v.push_back(l); return v; };
      if (r.begin([&] { return std::string(name) + " " + mc::show(mk()); })) r.body([&] { check(r, mk(), fixed, last); });
      size_t k = 0; while (k < d.size() && ++d[k] == alpha.size()) d[k++] = 0; if (k == d.size()) break;
    } }
}
void explore(mc::Run &r) {
  std::vector<std::string> stmts{"x = 1", "10 x = 1", "a = 1; b = 2", " 20 a = 1; ; b = 2 ! c", ";", " ; x = 1;", "30 x = 1 ;; ! d", "! com", "#if 1", "", "a = &", " & 2; c = 3", "3; d = 4 ! e", "a = 'b;c'; d = \"!\"", "c = 'a&", " &b'; x = 2", "x = 1; y = &", "x = 1; &", "50 & ! l"};
  std::vector<std::string> nest{"do i = 1, 2; x = 1; end do", "do i = 1, 2", "end do", "40 x = 1; end do;", "do; ! c", "if (a) then; y = 1", "else; z = 1;;", "end if", "  ! com", "program p; use n; integer :: i", "subroutine s; contains", "end; end", "end", "do 40 i = 1, 2", "  #endif"};
  std::vector<std::string> fixed{"      x = 1", "   10 x = 1", "      a = 1; b = 2", "   20 a = 1; ; b = 2 ! c", "      ;", "      ; x = 1;", "C com", "", "#if 1", "     & ; c = 3", "     &3; d = 4 ! e", "      a = 'b;c'; d = \"!\"", "      c = 'a", "     &b'; x = 2", "\tx = 5; y = 6", "* x = 1", "     1", "   60"};
  std::vector<std::string> fnest{"      do 40 i = 1, 2", "   40 x = 1; y = 2", "      if (a) then; y = 1", "      end if", "        ! com", "c com", "      subroutine s; contains", "      end; end", "      end", "      do i = 1, 2; x = 1; end do", "     &   ; z = 3"};
  int T = r.thorough;
  all(r, "free", stmts, T ? 4 : 3, false, 0, {}, {"end"});
  all(r, "free, no end", stmts, T ? 3 : 2, false, 0, {}, {});
  all(r, "free, in a loop", stmts, T ? 3 : 2, false, 0, {"subroutine s", "do i = 1, 3"}, {"end do", "end"});
  all(r, "free nesting", nest, 4, false, 0, {}, {});
  if (T) all(r, "deeper free nesting", {nest[0], nest[3], nest[5], nest[6], nest[7], nest[8], nest[10], nest[11], nest[13]}, 5, false, 0, {}, {});
  all(r, "fixed", fixed, T ? 4 : 3, true, 0, {}, {"      end"});
  all(r, "fixed, column 72", fixed, T ? 3 : 2, true, 72, {}, {"      end"});
  all(r, "fixed, in a loop", fixed, T ? 3 : 2, true, 0, {"      subroutine s", "      do i = 1, 3"}, {"      end do", "      end"});
  all(r, "fixed nesting", fnest, T ? 5 : 4, true, 0, {}, {});
  // options: fresh ones ask for nothing, and each flag of the command line sets its own
  if (r.begin([&] { return std::string("fresh options"); })) r.body([&] { for (int fill : {0, 0xff, 0x5a}) { alignas(Options) unsigned char buf[sizeof(Options)]; std::memset(buf, fill, sizeof buf); Options *o = new (buf) Options; bool any = o->do_output() || o->quiet() || o->verbose() || o->do_timing() || o->write_inplace(); for (size_t i = 0; i < Options::NUM_FILTERS; ++i) any = any || (*o)[(Options::Filter_Tags)i]; if (any) r.fail("fresh options ask for something"); r.trace(); } });
  static char const flags[] = "cefioqtv";
  for (unsigned m = 0; m < 1u << 8; ++m) for (int sep = 0; sep < 2; ++sep) for (int files = 0; files < 3; ++files) if (r.begin([&] { return "command line " + std::to_string(m) + " " + std::to_string(sep) + " " + std::to_string(files); })) r.body([&] {
    std::vector<std::string> a{"flpr-format"}; std::string one = "-"; bool q = false, o = false, t = false, vb = false; for (int i = 0; i < 8; ++i) if (m >> i & 1) { if (sep) a.push_back(std::string("-") + flags[i]); else one += flags[i]; switch (flags[i]) { case 'o': o = true; break; case 'q': q = true; o = t = vb = false; break; case 't': t = vb = true; break; case 'v': vb = true; } } if (!sep && m) a.push_back(one);
    std::vector<std::string> want; for (int i = 0; i < files; ++i) { want.push_back("f" + std::to_string(i) + ".f90"); a.push_back(want.back()); } std::vector<char *> av; for (auto &x : a) av.push_back(&x[0]); av.push_back(nullptr);
    Options op; op.set_do_output(false); std::vector<std::string> names; Tap tap; optind = 0; bool res = parse_cmd_line(names, op, (int)a.size(), av.data()); r.step();
    if (res != (files > 0) || names != want) r.fail("file names");
    if (op[Options::COL72] != !!(m & 1) || op[Options::ELABORATE_END_STMTS] != !!(m & 2) || op[Options::FIXED_TO_FREE] != !!(m & 4) || op[Options::REINDENT] != !!(m & 8) || op[Options::REMOVE_EMPTY_STMTS] || op[Options::SPLIT_COMPOUND_STMTS]) r.fail("filters");
    if (op.do_output() != o || op.quiet() != q || op.verbose() != vb || op.do_timing() != t) r.fail("output options"); r.trace(); });
}
