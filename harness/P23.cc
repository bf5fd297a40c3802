// P23: inserting a USE into the procedures that call given names, for every
// small program and every form of call and use.
#include "mc.hh"
#include "src_util.hh"
#include "ref_proc.hh"
#include "ref_read.hh"
#include "module_base.hh"
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
char const *const mc_property = "P23";
using namespace FLPR;
using File = Parsed_File<>;
struct Form { char const *text; bool yes; };
// is it a call of foo (or ba_z)?
static std::vector<Form> const calls{
  {"call foo", true}, {"call foo()", true}, {"CALL Foo(x)", true}, {"call foo(x, *10)", true}, {"call a%foo", true}, {"call a%b%foo(x)", true}, {"call a(i)%foo(1)", true}, {"call a%b(2)%c%FOO()", true}, {"if (a) call foo", true}, {"IF (foo(1) .gt. 2) CALL FOO(3)", true}, {"if(b)call a%foo(x)", true}, {"call ba_z(1)", true},
  {"call foobar", false}, {"call fo", false}, {"call bar(foo)", false}, {"call bar(foo(1))", false}, {"call foo%bar", false}, {"call a%foo%b(1)", false}, {"call foo(i)%bar", false}, {"x = foo(1)", false}, {"call = foo", false}, {"if (foo) call bar", false}, {"if (a) foo = 1", false}, {"callfoo = 1", false}, {"print *, foo", false}, {"if (x) print *, 'call foo'", false}, {"foo = 2", false}, {"write (*, *) 'call foo'", false}, {"goto 10", false}};
// does it use mm?
static std::vector<Form> const uses{
  {"use mm", true}, {"USE MM", true}, {"use :: mm", true}, {"use, intrinsic :: Mm", true}, {"use,non_intrinsic::mm", true}, {"use mm, only: x", true}, {"use mm, only:", true}, {"use mm, y => x", true},
  {"use m", false}, {"use mmm", false}, {"use n, only: mm", false}, {"use n, mm => x", false}, {"use, intrinsic :: only", false}};
static std::vector<std::string> toks(std::string const &t) { std::vector<std::string> o; for (auto const &x : ref::lex(t).t) o.push_back(x.text); return o; }
static std::string flat(std::string const &t) { std::string o; for (auto const &x : toks(t)) o += x + " "; return o; }
static char const *const lname[] = {"comments above", "one line", "labels", "fixed", "continued", "comments beside"};
enum { NLAY = 6 };
static Lines layout(std::vector<std::string> const &s, int how) {
  Lines v;
  for (size_t i = 0; i < s.size(); ++i) { std::string n = std::to_string(i);
    switch (how) {
    case 0: v.push_back(i % 2 ? "  ! c" + n : ""); v.push_back(std::string(i % 3, ' ') + s[i]); break;
    case 1: if (v.empty()) v.push_back(" "); v[0] += (i ? "; " : "") + s[i]; break;
    case 2: v.push_back(std::to_string(10 + i) + " " + s[i]); break;
    case 3: v.push_back(i % 2 ? "C c" + n : "      ! c" + n); v.push_back(std::string(6 + i % 2, ' ') + s[i]); break;
    case 4: { auto t = toks(s[i]); if (t.size() < 2) { v.push_back(" " + s[i]); break; } size_t b = s[i].find(t[0]) + t[0].size(); bool word = b < s[i].size() && s[i][b] == ' '; v.push_back(" " + s[i].substr(0, b) + (word ? " &" : " &")); if (i % 2) v.push_back("! c" + n); v.push_back("    " + std::string(i % 3 ? "& " : "") + s[i].substr(b)); break; }
    default: v.push_back("  " + s[i] + " ! c" + n); }
  }
  return v;
}
// the statements, one per string with label; comments apart
static bool told(Lines const &w, bool fixed, std::vector<std::string> &st, std::vector<std::string> &com, std::string &why) {
  auto p = refr::read(w, fixed, 0); if (!p.ok) { why = p.why; return false; }
  for (auto const &i : p.items) { if (i.kind != 's') { com.push_back(i.text); continue; }
    std::istringstream is(i.text); std::string t, cur = i.label ? std::to_string(i.label) + " " : ""; bool any = false;
    while (is >> t) { t = t.substr(t.find(':') + 1); if (t == ";") { if (any) st.push_back(cur); cur.clear(); any = false; } else { cur += t + " "; any = true; } }
    if (any) st.push_back(cur); }
  return true;
}
struct Quiet { std::ostringstream sink; std::streambuf *old; Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(old); } };
static FLPR_Module::Module_Action action(bool caps) { FLPR_Module::Module_Action a(caps ? "MM" : "mm", {}); a.add_subroutine_name(caps ? "FOO" : "foo"); a.add_subroutine_name("ba_z"); return a; }
struct Expect { std::vector<size_t> at; }; // a USE goes before these statements
static Expect expect(std::vector<refp::Proc> const &ps, std::vector<char> const &isuse, std::vector<char> const &iscall) {
  Expect e; for (auto const &p : ps) { if (p.internal) continue; bool c = false, u = false; size_t at = (size_t)p.first;
    for (int i = p.first; i <= p.last; ++i) { int g = p.region[(size_t)(i - p.first)]; if (g == refp::EXEC && iscall[(size_t)i]) c = true; if (g == refp::USES && isuse[(size_t)i]) u = true; if (g == refp::USES || g == refp::BEGIN) at = (size_t)i + 1; }
    if (c && !u) e.at.push_back(at); }
  return e;
}
static std::string text_of(File const &f) { std::ostringstream os; FLPR_Module::write_file(os, f); return os.str(); }
static void check(mc::Run &r, std::vector<std::string> const &src, Expect const &e, int how, bool caps) {
  Lines v = layout(src, how); bool fixed = how == 3; File_Type ty = fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT; Quiet q;
  std::vector<std::string> before, bc, after, ac; std::string why;
  if (!told(v, fixed, before, bc, why) || before.size() != src.size()) r.fail("the harness cannot read its own input: " + why);
  std::vector<std::string> want; for (size_t i = 0, k = 0; i <= before.size(); ++i) { while (k < e.at.size() && e.at[k] == i) { want.push_back(caps ? "use MM " : "use mm "); ++k; } if (i < before.size()) want.push_back(before[i]); }
  std::istringstream is(join(v)); File f(is, fixed ? "t.f" : "t.f90", 0, ty); auto a = action(caps);
  Procedure_Visitor vis(f, a); bool changed = vis.visit(); r.step(); if (!f) r.fail("a well-formed program is rejected");
  std::string out = text_of(f); Lines w = split_lines(out);
  if (changed != !e.at.empty()) r.fail(std::string("reports ") + (changed ? "a change" : "no change") + " where " + std::to_string(e.at.size()) + " statements are due");
  if (e.at.empty() && out != join(v)) r.fail("changes a file that needs nothing: " + mc::show(w));
  if (!told(w, fixed, after, ac, why)) r.fail("the result is broken (" + why + "): " + mc::show(w));
  if (after != want) r.fail("the result is " + mc::show(w) + ", expected statements " + mc::show(want));
  if (ac != bc) r.fail("comments change: " + mc::show(w));
  if (how == 3 || how == 2 || how == 5 || how == 0) { // every line of the input stands, but for the indentation of comments
    Lines x = w; for (auto i = x.begin(); i != x.end();) i = flat(*i) == flat(caps ? "use MM" : "use mm") && std::find(v.begin(), v.end(), *i) == v.end() ? x.erase(i) : i + 1;
    bool same = x.size() == v.size(); for (size_t i = 0; same && i < x.size(); ++i) { auto t = refr::strip(x[i]); same = x[i] == v[i] || ((t.empty() || t[0] == '!') && t == refr::strip(v[i])); }
    bool dup = false; for (auto const &l : v) dup = dup || flat(l) == flat(caps ? "use MM" : "use mm");
    if (!same && !dup) r.fail("lines of the input change: " + mc::show(w)); }
  std::istringstream is2(out); File g(is2, fixed ? "t.f" : "t.f90", 0, ty); Procedure_Visitor vis2(g, a); bool again = vis2.visit(); r.step();
  if (!g) r.fail("the result is rejected: " + mc::show(w));
  if (again) r.fail("running it again reports a change"); if (text_of(g) != out) r.fail("running it again changes the file");
  r.state(mc::hash(out)); r.trace();
}
// the file tool: the file is replaced and the original kept beside it
static std::string slurp(std::string const &n) { std::ifstream is(n); std::ostringstream os; os << is.rdbuf(); return os.str(); }
static void on_disk(mc::Run &r, std::string const &text, char const *ext, bool valid, bool change) {
  char dir[] = "/tmp/flpr_p23_XXXXXX"; if (!mkdtemp(dir)) r.fail("no scratch directory"); std::string n = std::string(dir) + "/t" + ext, bak = n + ".bak";
  { std::ofstream os(n); os << text; } std::string bad;
  pid_t pid = fork(); if (pid == 0) { if (!freopen("/dev/null", "w", stderr)) _exit(9); auto a = action(false); bool c = FLPR_Module::do_file(n, 0, file_type_from_extension(n), a); _exit(c ? 41 : 40); }
  int st = 0; waitpid(pid, &st, 0); std::string first = slurp(n); struct stat sb; bool hasbak = stat(bak.c_str(), &sb) == 0;
  if (!WIFEXITED(st)) bad = "the tool crashes"; int code = WEXITSTATUS(st);
  if (bad.empty() && !valid && (first != text || hasbak)) bad = "an unparsable file is touched";
  if (bad.empty() && valid && code != (change ? 41 : 40)) bad = "the tool returns " + std::to_string(code);
  if (bad.empty() && valid && !change && (first != text || hasbak)) bad = "a file that needs nothing is touched";
  if (bad.empty() && valid && change) {
    if (!hasbak || slurp(bak) != text) bad = "the original is not kept";
    else { std::istringstream is(text); File f(is, n, 0, file_type_from_extension(n)); auto a = action(false); { Quiet q; Procedure_Visitor vis(f, a); vis.visit(); } if (text_of(f) != first) bad = "the file does not hold the result"; } }
  if (bad.empty() && valid) { // again
    pid = fork(); if (pid == 0) { if (!freopen("/dev/null", "w", stderr)) _exit(9); auto a = action(false); bool c = FLPR_Module::do_file(n, 0, file_type_from_extension(n), a); _exit(c ? 41 : 40); }
    waitpid(pid, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) != 40 || slurp(n) != first || (change && slurp(bak) != text)) bad = "a second run changes something"; }
  unlink(n.c_str()); unlink(bak.c_str()); rmdir(dir); r.step();
  if (!bad.empty()) r.fail(bad); r.trace();
}
void explore(mc::Run &r) {
  using V = std::vector<std::string>;
  // all forms of use and call in one procedure
  std::vector<V> heads{{"subroutine s(a)"}, {}, {"integer function f(a)"}, {"program p"}}; if (r.thorough) { heads.push_back({"recursive subroutine s"}); heads.push_back({"real(8) pure function f() result(y)"}); }
  auto forms = [&](V const &head, std::vector<Form> const &us, std::vector<Form> const &cs, bool decl, int how) {
    V src = head; std::vector<char> iu(head.size(), 0), ic(head.size(), 0); refp::Proc p; p.tag = "x"; if (!head.empty()) p.region.push_back(refp::BEGIN);
    auto add = [&](std::string const &t, bool u, bool c, int reg) { src.push_back(t); iu.push_back(u); ic.push_back(c); p.region.push_back(reg); };
    for (auto const &u : us) add(u.text, u.yes, false, refp::USES); if (decl) add("integer :: call", false, false, refp::DECLS); for (auto const &c : cs) add(c.text, false, c.yes, refp::EXEC); add("end", false, false, refp::END);
    p.first = 0; p.last = (int)src.size() - 1; Expect e = expect({p}, iu, ic);
    if (r.begin([&] { return std::string(lname[how]) + ": " + mc::show(src); })) r.body([&] { check(r, src, e, how, (us.size() + cs.size()) % 2); }); };
  for (int how = 0; how < NLAY; ++how) for (size_t h = 0; h < heads.size(); ++h) for (bool decl : {false, true}) {
    std::vector<std::vector<Form>> us{{}}; for (auto const &u : uses) us.push_back({u}); size_t one = us.size(); for (auto const &u : uses) for (auto const &w : uses) us.push_back({u, w});
    for (size_t i = 0; i < us.size(); ++i) { if (i >= one && h && !r.thorough) break; for (auto const &c : calls) { forms(heads[h], us[i], {c}, decl, how); } }
    for (size_t i = 0; i < one; ++i) { if ((h || decl) && !r.thorough && i % 5) continue; for (auto const &c : calls) for (auto const &d : calls) forms(heads[h], us[i], {c, d}, decl, how); } }
  // all small programs
  struct Profile { char const *name; V terms; int quick, deep; };
  std::vector<Profile> ps{
    {"units", {"program", "end", "subroutine", "endsubroutine", "function", "module", "contains", "moduleprocedure", "use", "call"}, 6, 8},
    {"internal", {"subroutine", "end", "contains", "use", "call"}, 8, 10},
    {"constructs", {"subroutine", "end", "use", "integer", "call", "if", "ifthen", "else", "endif", "doi", "enddo", "block", "endblock", "selectcase", "case", "endselect"}, 6, 7},
    {"more constructs", {"program", "end", "call", "selecttype", "typeis", "selectrank", "rank", "endselect", "associate", "endassociate", "elseif", "ifthen", "endif", "dowhile", "doconc", "do", "enddo", "where", "endwhere", "assign", "wherestmt", "format", "data"}, 5, 6},
    {"specifications", {"subroutine", "end", "use", "import", "implicit", "parameter", "integer", "interface", "endinterface", "type", "endtype", "contains", "tbprocedure", "call"}, 6, 7}};
  for (auto const &p : ps) { refp::Grammar g(p.terms); int N = r.thorough ? p.deep : p.quick;
    for (int n = 2; n <= N; ++n) { refp::Enumerator e(g, [&](refp::Deriv const &d) {
      auto procs = refp::procedures(d, g); std::vector<size_t> pick; V src = refp::source(d.terms, g); bool any = false;
      for (size_t i = 0; i < src.size(); ++i) { auto const &t = g.terms[(size_t)d.terms[i]]; if (t == "use" || t == "call" || t == "if") pick.push_back(i); if (t == "call" || t == "if") any = true; }
      if (!any) return; if (pick.size() > 5) return;
      for (unsigned m = 0; m < 1u << pick.size(); ++m) {
        V s = src; std::vector<char> iu(s.size(), 0), ic(s.size(), 0);
        for (size_t k = 0; k < pick.size(); ++k) { bool y = m >> k & 1; size_t i = pick[k]; auto const &t = g.terms[(size_t)d.terms[i]]; if (t == "use") { s[i] = y ? "use mm, only: x" : "use n"; iu[i] = y; } else if (t == "call") { s[i] = y ? "call foo(x)" : "call bar(x)"; ic[i] = y; } else { s[i] = y ? "if (x > 1) call foo" : "if (x > 1) call bar"; ic[i] = y; } }
        for (int how : {0, 1, 3}) if (r.begin([&] { return std::string(p.name) + ", " + lname[how] + ": " + mc::show(s); })) r.body([&] { check(r, s, expect(procs, iu, ic), how, false); });
      } });
      e.run("program", n); } }
  // labelled loops that end in the call
  for (auto const &c : calls) if (c.text[0] != 'g') for (int nest = 1; nest < 3; ++nest) if (r.begin([&] { return std::string("loop ending in ") + c.text; })) r.body([&] {
    std::string t = "subroutine s\n"; for (int i = 0; i < nest; ++i) t += "do 10 i" + std::to_string(i) + " = 1, 2\n"; t += "10 " + std::string(c.text) + "\nend\n"; Quiet q;
    std::istringstream is(t); File f(is, "t.f90", 0, File_Type::FREEFMT); auto a = action(false); Procedure_Visitor v(f, a); bool ch = v.visit(); r.step(); if (!f) r.fail("rejected");
    Lines want = split_lines(t); if (c.yes) want.insert(want.begin() + 1, "use mm"); if (ch != c.yes || text_of(f) != join(want)) r.fail("the result is " + mc::show(split_lines(text_of(f)))); r.trace(); });
  // the tool on files
  struct Disk { std::string text; char const *ext; bool valid, change; };
  std::vector<Disk> ds; for (auto ext : {".f90", ".f"}) { std::string p = ext[2] ? "" : "      "; auto T = [&](V const &v) { std::string s; for (auto const &l : v) s += p + l + "\n"; return s; };
    ds.push_back({T({"subroutine s", "call foo(1)", "end"}), ext, true, true}); ds.push_back({T({"subroutine s", "use mm", "call foo(1)", "end"}), ext, true, false}); ds.push_back({T({"subroutine s", "call bar(1)", "end"}), ext, true, false}); ds.push_back({T({"! c", "subroutine s", "if (a) call foo", "end", "subroutine t", "end", "subroutine u", "call foo", "contains", "subroutine v", "call foo", "end", "end"}), ext, true, true});
    ds.push_back({T({"subroutine s", "call foo(1)"}), ext, false, false}); ds.push_back({T({"subroutine s", "call foo(1)", "end if", "end"}), ext, false, false}); ds.push_back({T({"call foo", "call = ) 3", "end"}), ext, false, false}); ds.push_back({T({"subroutine s", "call foo(", "end"}), ext, false, false}); ds.push_back({T({"subroutine s", "call foo", "end", "x = 1", "contains"}), ext, false, false}); ds.push_back({"", ext, true, false}); ds.push_back({"! call foo\n", ext, true, false}); }
  for (auto const &d : ds) if (r.begin([&] { return std::string("file ") + d.ext + " " + mc::show(d.text); })) r.body([&] { on_disk(r, d.text, d.ext, d.valid, d.change); });
}
