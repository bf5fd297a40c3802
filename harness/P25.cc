// P25: the caliper tool on every small program: which statements it adds, which
// RETURNs it rewrites, and that it changes nothing else.
#include "mc.hh"
#include "src_util.hh"
#include "ref_proc.hh"
#include "ref_read.hh"
#define main caliper_main
#include "caliper.cc"
#undef main
#undef TAG
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
char const *const mc_property = "P25";
using V = std::vector<std::string>;
static V toks(std::string const &t) { V o; for (auto const &x : ref::lex(t).t) o.push_back(x.text); return o; }
static std::string flat(std::string const &t) { std::string o; for (auto const &x : toks(t)) o += x + " "; return o; }
static bool one_of(std::string t, char const *what) { for (auto &c : t) c = (char)tolower(c); t.erase(std::remove(t.begin(), t.end(), ' '), t.end()); size_t n = strlen(what); return t.size() >= n && t.compare(t.size() - n, n, what) == 0; }
static bool is_return(std::string const &t) { return t.size() == 6 && one_of(t, "return"); }
static bool if_return(std::string const &t) { return t.size() > 6 && (t[0] == 'i' || t[0] == 'I') && one_of(t, ")return"); }
static char const *const lname[] = {"comments above", "one line", "two a line", "fixed", "continued", "comments beside", "broken before the last token"};
enum { NLAY = 7 };
static std::string lab(int l) { return l ? std::to_string(l) + " " : ""; }
static Lines layout(V const &s, std::vector<int> const &lb, int how) {
  Lines v;
  for (size_t i = 0; i < s.size(); ++i) { std::string n = std::to_string(i), L = lab(lb[i]);
    switch (how) {
    case 0: v.push_back(i % 2 ? "  ! c" + n : ""); v.push_back((L.empty() ? std::string(i % 3, ' ') : L) + s[i]); break;
    case 1: if (v.empty()) v.push_back(" "); v[0] += (i ? "; " : "") + s[i]; break;
    case 2: if (i % 2 == 0) v.push_back(L + " " + s[i]); else v.back() += " ; " + s[i] + (i % 4 == 1 ? " ! c" + n : ""); break;
    case 3: { v.push_back(i % 2 ? "C c" + n : "      ! c" + n); std::string l = lb[i] ? std::to_string(lb[i]) : ""; l.resize(6, ' '); v.push_back(l + std::string(i % 2, ' ') + s[i]); break; }
    case 4: case 6: { auto t = toks(s[i]); if (t.size() < 2) { v.push_back(L + " " + s[i]); break; } size_t b = how == 4 ? s[i].find(t[0]) + t[0].size() : s[i].rfind(t.back()); v.push_back(L + " " + s[i].substr(0, b) + " &"); if (i % 2) v.push_back("! c" + n); v.push_back("    " + std::string(i % 3 ? "& " : "") + s[i].substr(b)); break; }
    default: v.push_back(L + "  " + s[i] + " ! c" + n); }
  }
  return v;
}
static bool told(Lines const &w, bool fixed, V &st, V &com, std::string &why) {
  auto p = refr::read(w, fixed, 0); if (!p.ok) { why = p.why; return false; }
  for (auto const &i : p.items) { if (i.kind != 's') { com.push_back(i.text); continue; }
    std::istringstream is(i.text); std::string t, cur = i.label ? std::to_string(i.label) + " " : ""; bool any = false;
    while (is >> t) { t = t.substr(t.find(':') + 1); if (t == ";") { if (any) st.push_back(cur); cur.clear(); any = false; } else { cur += t + " "; any = true; } }
    if (any) st.push_back(cur); }
  return true;
}
static V canon(std::string const &s) { V st, c; std::string why; told({" " + s}, false, st, c, why); return st; }
static std::string sub(std::string t, std::string const &tail) { return t.substr(0, t.size() - 6) + tail; } // replaces a trailing RETURN
struct Out { int rc; std::string text, err; };
static Out tool(std::string const &text, char const *ext) {
  std::string n = "/tmp/flpr_p25_" + std::to_string(getpid()) + ext; { std::ofstream os(n); os << text; }
  std::ostringstream o, e; auto *a = std::cout.rdbuf(o.rdbuf()); auto *b = std::cerr.rdbuf(e.rdbuf());
  char const *av[] = {"caliper", n.c_str(), nullptr}; int rc = caliper_main(2, av);
  std::cout.rdbuf(a); std::cerr.rdbuf(b); std::ifstream is(n); std::ostringstream back; back << is.rdbuf(); unlink(n.c_str());
  return {rc, o.str(), back.str() == text ? "" : "the input file is changed"};
}
struct Unit { refp::Proc p; std::string name; bool excluded; };
static void check(mc::Run &r, V const &src, std::vector<int> const &lb, std::vector<Unit> const &us, int how) {
  Lines v = layout(src, lb, how); bool fixed = how == 3; V before, bc, after, ac; std::string why;
  if (!told(v, fixed, before, bc, why) || before.size() != src.size()) r.fail("the harness cannot read its own input: " + why + mc::show(v));
  r.note("input ", mc::show(v));
  Out o = tool(join(v), fixed ? ".f" : ".f90"); r.step(); if (!o.err.empty()) r.fail(o.err);
  struct Jump { size_t at; }; struct Part { std::vector<size_t> beg, end; };
  // the statements that are due: text, and which unit's end label stands for "@"
  struct Want { std::string text; int label; int unit; }; std::vector<Want> want; std::vector<int> need(us.size(), 0), fixedlab(us.size(), 0); bool due = false;
  std::vector<int> first(us.size(), -1), last(us.size(), -1);
  for (size_t u = 0; u < us.size(); ++u) { auto const &p = us[u].p; if (p.internal || us[u].excluded) continue; for (int i = p.first; i <= p.last; ++i) if (p.region[(size_t)(i - p.first)] == refp::EXEC) { if (first[u] < 0) first[u] = i; last[u] = i; } if (first[u] >= 0) due = true; }
  std::vector<size_t> endpos(us.size(), 0);
  for (size_t i = 0; i < src.size(); ++i) {
    int in = -1; for (size_t u = 0; u < us.size(); ++u) if (first[u] >= 0 && (int)i >= first[u] && (int)i <= last[u]) in = (int)u;
    if (in >= 0 && first[(size_t)in] == (int)i) want.push_back({"call caliper_begin('" + us[(size_t)in].name + "')", 0, -1});
    bool fin = in >= 0 && last[(size_t)in] == (int)i; size_t u = (size_t)in;
    if (in >= 0 && is_return(src[i]) && fin) { endpos[u] = want.size(); fixedlab[u] = lb[i]; want.push_back({"call caliper_end('" + us[u].name + "')", lb[i], in}); continue; }
    if (in >= 0 && is_return(src[i])) { need[u] = 1; want.push_back({"go to @", lb[i], in}); }
    else if (in >= 0 && if_return(src[i])) { need[u] = 1; want.push_back({sub(src[i], "go to @"), lb[i], in}); }
    else want.push_back({src[i], lb[i], -1});
    if (fin) { endpos[u] = want.size(); want.push_back({"call caliper_end('" + us[u].name + "')", 0, in}); }
  }
  if (!due) { if (o.rc != 2 || !o.text.empty()) r.fail("output where nothing is due"); r.state(0); r.trace(); return; }
  if (o.rc != 0) r.fail("the tool reports " + std::to_string(o.rc) + " where statements are due");
  Lines w = split_lines(o.text);
  if (!told(w, fixed, after, ac, why)) r.fail("the result is broken (" + why + "): " + mc::show(w));
  if (after.size() != want.size()) r.fail("the result has " + std::to_string(after.size()) + " statements, expected " + std::to_string(want.size()) + ": " + mc::show(w));
  std::vector<int> L(us.size(), 0);
  for (size_t u = 0; u < us.size(); ++u) if (first[u] >= 0) { int got = atoi(after[endpos[u]].c_str());
    if (fixedlab[u] ? got != fixedlab[u] : need[u] ? got < 1 || got > 99999 : got != 0) r.fail("the end call of " + us[u].name + " has label " + std::to_string(got) + ": " + mc::show(w));
    if (need[u] && !fixedlab[u]) for (int i = us[u].p.first; i <= us[u].p.last; ++i) if (lb[(size_t)i] == got) r.fail("the label of the end call is in use: " + mc::show(w));
    L[u] = got; }
  for (size_t i = 0; i < want.size(); ++i) { auto const &x = want[i]; std::string t = x.text; int l = x.label; if (x.unit >= 0) { size_t u = (size_t)x.unit; if (endpos[u] == i) l = L[u]; else { size_t at = t.find('@'); t = t.substr(0, at) + std::to_string(L[u]); } }
    V c = canon(t); std::string exp = lab(l) + (c.empty() ? "" : c[0]); if (after[i] != exp) r.fail("statement " + std::to_string(i) + " is " + after[i] + ", expected " + exp + ": " + mc::show(w)); }
  if (ac != bc) r.fail("comments change: " + mc::show(w));
  if (how == 0 || how == 3 || how == 5) { size_t k = 0; for (size_t i = 0, s = 0; i < v.size(); ++i) { std::string t = refr::strip(v[i]); bool com = t.empty() || t[0] == '!' || (fixed && v[i][0] == 'C'); if (com) continue; bool ret = is_return(src[s]) || if_return(src[s]); ++s; if (ret) continue; while (k < w.size() && w[k] != v[i]) ++k; if (k == w.size()) r.fail("line changed: " + mc::show(v[i]) + " in " + mc::show(w)); ++k; } }
  r.state(mc::hash(o.text)); r.trace();
}
static std::string unit_name(std::string const &t) { auto k = toks(t); for (size_t i = 0; i + 1 < k.size(); ++i) { std::string w = k[i]; for (auto &c : w) c = (char)tolower(c); if (w == "program" || w == "subroutine" || w == "function" || w == "procedure") return k[i + 1]; if (w == "moduleprocedure") return k[i + 1]; } return ""; }
static bool pure(std::string const &t) { for (auto k : toks(t)) { for (auto &c : k) c = (char)tolower(c); if (k == "subroutine" || k == "function") return false; if (k == "pure" || k == "elemental") return true; } return false; }
// label patterns
static char const *const pname[] = {"no labels", "small labels", "9999 downwards", "the last RETURN only", "every other from 9999", "on the END statement"};
enum { NPAT = 6 };
static std::vector<int> labels(V const &src, int how, int pat, std::vector<char> const &exec) {
  std::vector<int> l(src.size(), 0); int k = 0;
  if (pat == 5) { if (how != 1 && (how != 2 || src.size() % 2)) l.back() = 9999; return l; }
  for (size_t i = 0; i < src.size(); ++i) { if (!exec[i]) continue; if (how == 1 || (how == 2 && i % 2)) continue; bool ret = is_return(src[i]); ++k;
    if (pat == 1) l[i] = 10 + (int)i; if (pat == 2 && !ret) l[i] = 10000 - k; if (pat == 3 && ret) l[i] = 77 + (int)i; if (pat == 4 && k % 2) l[i] = 10001 - 2 * ((k + 1) / 2); }
  return l;
}
void explore(mc::Run &r) {
  // one procedure: every heading, every body over the statement forms, every layout and label pattern
  struct Head { char const *text, *end; };
  std::vector<Head> heads{{"subroutine s(a)", "end"}, {"integer function Ff(a)", "end function"}, {"program p", "end program p"}, {"", "end"}, {"recursive subroutine s2", "end subroutine s2"}, {"pure subroutine s", "end"}, {"ELEMENTAL real function f(x)", "end"}, {"recursive pure subroutine s", "end"}, {"real(8) pure function pf() result(y)", "end"}, {"impure subroutine q", "end"}, {"subroutine pure", "end"}, {"function elemental(x)", "end"}, {"module subroutine ms", "end"}};
  V body{"x = 1", "return", "if (x > 1) return", "IF(a(1)==2)RETURN", "call s(x)", "if (x > 1) y = 2", "return = 3", "RETURN", "print *, 'return'", "if (x) return = 4"};
  auto one = [&](Head const &h, V const &decl, V const &b, int how, int pat, bool inner) {
    V src; std::vector<char> exec; Unit u; u.p.tag = "x"; u.excluded = pure(h.text); u.name = unit_name(h.text); auto add = [&](std::string const &t, int reg) { src.push_back(t); exec.push_back(reg == refp::EXEC); u.p.region.push_back(reg); };
    if (*h.text) add(h.text, refp::BEGIN); for (auto const &d : decl) add(d, refp::DECLS); for (auto const &x : b) add(x, refp::EXEC);
    std::vector<Unit> us; Unit in; if (inner) { add("contains", refp::CONTAINED); in.p.first = (int)src.size(); for (auto t : {"subroutine inner", "if (a) return", "return", "end subroutine"}) add(t, refp::CONTAINED); in.p.last = (int)src.size() - 1; in.p.internal = true; in.p.region = {refp::BEGIN, refp::EXEC, refp::EXEC, refp::END}; in.name = "inner"; in.excluded = false; }
    add(h.end, refp::END); u.p.first = 0; u.p.last = (int)src.size() - 1; us.push_back(u); if (inner) us.push_back(in);
    auto lb = labels(src, how, pat, exec); if (pat) { bool any = false; for (int l : lb) any = any || l; if (!any) return; }
    if (how == 1 && !*h.text && false) return;
    if (r.begin([&] { return std::string(lname[how]) + ", " + pname[pat] + ": " + mc::show(src); })) r.body([&] { check(r, src, lb, us, how); }); };
  int nb = r.thorough ? 4 : 3;
  for (size_t h = 0; h < heads.size(); ++h) for (int inner = 0; inner < 2; ++inner) for (int how = 0; how < NLAY; ++how) for (int pat = 0; pat < NPAT; ++pat) {
    int N = (h == 0 || h == 1 && how < 4) && !inner ? nb : h < 4 ? nb - 1 : r.thorough ? 2 : 1; std::vector<V> bs{{}}; size_t at = 0;
    for (int n = 1; n <= N; ++n) { size_t e = bs.size(); for (; at < e; ++at) for (auto const &x : body) { V y = bs[at]; y.push_back(x); bs.push_back(y); } }
    for (auto const &b : bs) for (auto const &d : h < 4 && b.size() < 3 ? std::vector<V>{{}, {"integer :: return"}} : std::vector<V>{{}}) one(heads[h], d, b, how, pat, inner); }
  // all small programs
  struct Profile { char const *name; V terms; int quick, deep; };
  std::vector<Profile> ps{
    {"units", {"program", "end", "subroutine", "endsubroutine", "function", "module", "contains", "moduleprocedure", "return", "if"}, 7, 8},
    {"internal", {"subroutine", "end", "contains", "assign", "return", "if"}, 8, 9},
    {"constructs", {"subroutine", "end", "integer", "assign", "return", "if", "ifthen", "else", "endif", "doi", "enddo", "block", "endblock", "selectcase", "case", "endselect"}, 6, 7},
    {"more constructs", {"program", "end", "return", "if", "selecttype", "typeis", "selectrank", "rank", "endselect", "associate", "endassociate", "elseif", "ifthen", "endif", "dowhile", "doconc", "do", "enddo", "where", "endwhere", "assign", "wherestmt", "format", "data", "entry"}, 5, 6}};
  for (auto const &p : ps) { refp::Grammar g(p.terms); int N = r.thorough ? p.deep : p.quick;
    for (int n = 2; n <= N; ++n) { refp::Enumerator e(g, [&](refp::Deriv const &d) {
      auto procs = refp::procedures(d, g); std::vector<size_t> pick; V src = refp::source(d.terms, g); std::vector<char> exec(src.size(), 0);
      for (size_t i = 0; i < src.size(); ++i) if (g.terms[(size_t)d.terms[i]] == "if") pick.push_back(i);
      std::vector<Unit> us; for (auto const &q : procs) { Unit u; u.p = q; u.excluded = false; std::string h = src[(size_t)q.first]; u.name = q.region.empty() || q.region[0] != refp::BEGIN ? "" : unit_name(h); us.push_back(u); for (int i = q.first; i <= q.last; ++i) if (q.region[(size_t)(i - q.first)] == refp::EXEC) exec[(size_t)i] = 1; }
      for (unsigned m = 0; m < 1u << pick.size(); ++m) { V s = src; for (size_t k = 0; k < pick.size(); ++k) if (m >> k & 1) s[pick[k]] = "if (x > 1) return";
        for (int how : {0, 1, 2, 3}) for (int pat : {0, 2, 5}) { if (pat && how == 1) continue; auto lb = labels(s, how, pat, exec); if (r.begin([&] { return std::string(p.name) + ", " + lname[how] + ", " + pname[pat] + ": " + mc::show(s); })) r.body([&] { check(r, s, lb, us, how); }); } }
      });
      e.run("program", n); } }
  // a RETURN with a value says which alternate return is taken
  for (V b : {V{"if (a) return 1"}, V{"return 1", "x = 1"}, V{"x = 1", "return 1"}}) { V src{"subroutine s(a, *)"}; for (auto const &x : b) src.push_back(x); src.push_back("end");
    if (r.begin([&] { return "alternate return: " + mc::show(src); })) r.body([&] { Out o = tool(join(layout(src, std::vector<int>(src.size(), 0), 0)), ".f90"); r.step(); if (o.rc == 0 && o.text.find("return 1") == std::string::npos) r.fail("the value of the alternate return is lost: " + mc::show(split_lines(o.text)), "alternate-return"); r.trace(); }); }
  // files that are not programs
  for (auto t : {"", "! c\n", "subroutine s\n", "subroutine s\nreturn\n", "x = 1\nend if\nend\n", "subroutine s\ncall = ) 3\nend\n", "module m\nend\n", "module m\ncontains\nend\n", "subroutine s\nend\n", "block data\nend\n"}) for (auto ext : {".f90", ".f", ".none", ""})
    if (r.begin([&] { return std::string("file ") + ext + " " + mc::show(t); })) r.body([&] { Out o = tool(t, ext); r.step(); if (o.rc != 2 || !o.text.empty() || !o.err.empty()) r.fail("the tool reports " + std::to_string(o.rc) + ", prints " + mc::show(o.text) + o.err); r.trace(); });
}
