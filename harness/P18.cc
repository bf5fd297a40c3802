// P18: procedure regions of every small program, before and after histories of
// edits through the procedure.
#include "mc.hh"
#include "src_util.hh"
#include "ref_proc.hh"
#include "ref_read.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure.hh"
char const *const mc_property = "P18";
using namespace FLPR;
using File = Parsed_File<>;
using Proc = Procedure<File>;
using Node = File::Parse_Tree::node;
using Tag = Proc::Region_Tag;
static std::string toks_of(std::string const &t) { std::string o; for (auto const &x : ref::lex(t).t) o += x.text + " "; return o; }
struct St { int reg; std::string text; int label; Lines pre; };
struct Model { std::vector<St> s; std::string name; bool headless = false; std::string tag; };
static char const *const rname[] = {"begin", "uses", "imports", "implicits", "decls", "execution", "contained", "end"};
static std::string low(std::string s) { for (auto &c : s) c = (char)std::tolower((unsigned char)c); return s; }
// tree node of the k-th procedure, in source order
static bool find_proc(Node &n, File::Prgm_Cursor c, int &k, File::Prgm_Cursor &out) {
  int t = n->syntag();
  if (t == Syntax_Tags::PG_MAIN_PROGRAM || t == Syntax_Tags::PG_SUBROUTINE_SUBPROGRAM || t == Syntax_Tags::PG_FUNCTION_SUBPROGRAM || t == Syntax_Tags::PG_SEPARATE_MODULE_SUBPROGRAM) { if (k-- == 0) { out = c; return true; } }
  if (n.branches().empty()) return false;
  c.down(); for (auto &b : n.branches()) { if (find_proc(b, c, k, out)) return true; if (c.has_next()) c.next(); }
  return false;
}
static void regions(mc::Run &r, Proc &p, Proc const &cp, Model const &m) {
  std::string all;
  for (int g = 0; g < refp::NREG; ++g) {
    Tag t = (Tag)g; std::string want, got, got2; int n = 0; for (auto const &s : m.s) if (s.reg == g) { want += toks_of(s.text) + "/ "; ++n; }
    for (auto &s : cp.crange(t)) { for (auto const &x : s) got += x.text() + " "; got += "/ "; }
    if (got != want) r.fail(std::string("region ") + rname[g] + " holds " + mc::show(got) + " instead of " + mc::show(want));
    if (cp.has_region(t) != (n > 0)) r.fail(std::string("has_region(") + rname[g] + ")");
    { int k = 0; for (auto it = cp.cbegin(t); it != cp.cend(t); ++it) ++k; if (k != n) r.fail("iteration over a region"); if (cp.cbegin(t).get_region() != t || cp.cend(t).get_region() != t) r.fail("region of an iterator"); }
    if (n) { for (auto const &x : *cp.clast(t)) got2 += x.text() + " "; if (want.size() < got2.size() + 2 || want.substr(want.size() - got2.size() - 2) != got2 + "/ ") r.fail("last statement of a region"); }
  }
  // the regions follow each other
  for (int g = 0; g < refp::NREG; ++g) { if (!cp.has_region((Tag)g)) continue; int h = g + 1; while (h < refp::NREG && !cp.has_region((Tag)h)) ++h; if (h < refp::NREG && cp.cend((Tag)g) != cp.cbegin((Tag)h)) r.fail(std::string("region ") + rname[h] + " does not follow " + rname[g]); }
  (void)p;
  if (cp.headless_main_program() != m.headless) r.fail("headless_main_program()");
  if (cp.is_main_program() != (m.tag == "main-program")) r.fail("is_main_program()");
  if (low(cp.name()) != low(m.name)) r.fail("name() is " + cp.name() + " instead of " + m.name);
}
static void labels(mc::Run &r, Proc const &p, Model const &m) { std::vector<int> a, b; p.scan_out_labels(std::back_inserter(a)); for (auto const &s : m.s) if (s.reg >= 0 && s.label) b.push_back(s.label); if (a != b) r.fail("scan_out_labels() finds " + std::to_string(a.size()) + " labels instead of " + std::to_string(b.size())); }
static std::string flat(Lines const &w) { // statements one by one, with comments
  refr::Prog p = refr::read(w, false, 0); if (!p.ok) return "broken: " + p.why; std::string o;
  for (auto const &i : p.items) { if (i.kind == '!') { o += "!" + i.text + "\n"; continue; } std::istringstream is(i.text); std::string t, cur; if (i.label) o += std::to_string(i.label) + " "; bool any = false; while (is >> t) { t = t.substr(t.find(':') + 1); if (t == ";") { o += "\n"; any = false; } else { o += t + " "; any = true; } } if (any) o += "\n"; }
  return o;
}
static std::string flat(Model const &m) { std::string o; for (auto const &s : m.s) { for (auto const &c : s.pre) o += "!" + c + "\n"; if (s.label) o += std::to_string(s.label) + " "; o += toks_of(s.text) + "\n"; } return o; }
struct Op { char k; int reg; int at; bool flag; };
static std::string fresh(int reg) { switch (reg) { case refp::USES: return "use zz"; case refp::IMPORTS: return "import :: zz"; case refp::IMPLICITS: return "implicit integer (q)"; case refp::DECLS: return "integer :: zz"; default: return "zz = 9"; } }
static int fresh_tag(int reg) { switch (reg) { case refp::USES: return Syntax_Tags::SG_USE_STMT; case refp::IMPORTS: return Syntax_Tags::SG_IMPORT_STMT; case refp::IMPLICITS: return Syntax_Tags::SG_IMPLICIT_STMT; case refp::DECLS: return Syntax_Tags::SG_TYPE_DECLARATION_STMT; default: return Syntax_Tags::SG_ASSIGNMENT_STMT; } }
static std::string show(Op const &o) { return std::string(1, o.k) + "(" + (o.reg >= 0 ? rname[o.reg] : "") + " " + std::to_string(o.at) + (o.flag ? " before prefix" : "") + ")"; }
static std::vector<Op> ops(Model const &m) {
  std::vector<Op> v; int n[refp::NREG] = {}; for (auto const &s : m.s) if (s.reg >= 0) ++n[s.reg];
  for (int g : {refp::USES, refp::IMPORTS, refp::IMPLICITS, refp::DECLS, refp::EXEC}) {
    for (int i = 0; i <= n[g]; ++i) for (bool f : {true, false}) v.push_back({'e', g, i, f});
    for (int i = 0; i < n[g]; ++i) { std::string t; int k = 0; for (auto const &s : m.s) if (s.reg == g && k++ == i) t = s.text; if (t == "use n, only: b" || t == "integer :: i" || t == "x = 1" || t == "import :: c" || t == "zz = 9") { v.push_back({'r', g, i, false}); v.push_back({'s', g, i, false}); v.push_back({'i', g, i, false}); } } }
  for (int k = 0; k < 3; ++k) v.push_back({'n', -1, k, false}); v.push_back({'c', -1, 0, false});
  return v;
}
static void apply(mc::Run &r, File &f, Proc &p, Model &m, Op const &o, bool compound) {
  (void)f; r.step();
  auto idx = [&](int g, int at) { // position in the model of the at-th statement of region g (or where it would be)
    int k = 0; for (size_t i = 0; i < m.s.size(); ++i) if (m.s[i].reg == g && k++ == at) return i;
    size_t after = 0; for (size_t i = 0; i < m.s.size(); ++i) if (m.s[i].reg == g) after = i + 1; if (k) return after;
    for (size_t i = 0; i < m.s.size(); ++i) if (m.s[i].reg > g) return i; return m.s.size(); };
  auto count = [&](int g) { int k = 0; for (auto const &s : m.s) k += s.reg == g; return k; };
  if (o.k == 'e') {
    auto pos = o.at == count(o.reg) ? p.end((Tag)o.reg) : p.begin((Tag)o.reg); if (o.at < count(o.reg)) for (int i = 0; i < o.at; ++i) ++pos;
    auto it = p.emplace_stmt(pos, Logical_Line(fresh(o.reg)), fresh_tag(o.reg), o.flag);
    size_t i = idx(o.reg, o.at); St s{o.reg, fresh(o.reg), 0, {}};
    if (!o.flag && i < m.s.size()) { s.pre = m.s[i].pre; m.s[i].pre.clear(); }
    m.s.insert(m.s.begin() + (long)i, s);
    if (it.get_region() != (Tag)o.reg) r.fail("emplace_stmt() returns another region"); std::string g; for (auto const &x : *it) g += x.text() + " "; if (g != toks_of(fresh(o.reg))) r.fail("emplace_stmt() returns " + g);
  } else if (o.k == 'n') { std::string nn = o.at == 0 ? "nn" : o.at == 1 ? "no" : m.name; if (o.at == 2) { for (char &c : nn) c = (char)std::toupper((unsigned char)c); if (nn.empty()) nn = "a_longer_name"; }
    bool same = m.name == nn; if (p.rename(nn) == same) r.fail("rename() reports the wrong thing");
    if (m.headless) { St s{refp::BEGIN, "program " + nn, 0, {}}; size_t i = 0; while (m.s[i].reg < 0) ++i; s.pre = m.s[i].pre; m.s[i].pre.clear(); m.s.insert(m.s.begin() + (long)i, s); m.headless = false; }
    else for (auto &s : m.s) if (s.reg == refp::BEGIN || s.reg == refp::END) { auto L = ref::lex(s.text); std::string t; bool done = false; int q = 0; for (auto const &x : L.t) { bool here = !done && q++ >= (s.reg == refp::END ? 2 : 1) && low(x.text) == low(m.name); done = done || here; t += (here ? nn : x.text) + " "; } s.text = t; }
    m.name = nn;
  } else if (o.k == 'c') {
    St *e = nullptr; for (auto &s : m.s) if (s.reg == refp::END) e = &s; auto L = ref::lex(e->text); std::string kind = m.tag == "main-program" ? "program" : m.tag == "subroutine-subprogram" ? "subroutine" : m.tag == "function-subprogram" ? "function" : "procedure";
    std::string want = "end " + kind + " " + m.name; bool ch = low(toks_of(want)) != low(toks_of(e->text)); if (m.headless && L.t.size() > 1) ch = false;
    if (p.complete_end_stmt() != ch) r.fail("complete_end_stmt() reports the wrong thing"); if (ch) e->text = want;
  } else {
    auto pos = p.begin((Tag)o.reg); for (int i = 0; i < o.at; ++i) ++pos; size_t i = idx(o.reg, o.at); St &s = m.s[i];
    static std::map<std::string, std::vector<std::string>> const T{{"use n, only: b", {"use yy", "use n, only: dd", "use n, only: b, ee"}}, {"integer :: i", {"integer :: yy(3)", "integer :: dd", "integer :: i, ee"}}, {"x = 1", {"yy = f('a')", "x = dd", "x = 1 * ee"}}, {"zz = 9", {"yy = f('a')", "zz = dd", "zz = 9 * ee"}}, {"import :: c", {"import :: yy, y2", "import :: dd", "import :: c, ee"}}};
    auto const &v = T.at(s.text); auto lastt = pos->end(); --lastt;
    if (o.k == 'r') { auto q = p.replace_stmt(pos, v[0], fresh_tag(o.reg)); if (q != pos) r.fail("replace_stmt() returns another position"); s.text = v[0]; }
    else if (o.k == 's') { auto b = lastt; ++b; p.replace_stmt_substr(pos, LL_TT_Range(pos->it(), lastt, b), "dd"); s.text = v[1]; }
    else { p.insert_text_after(pos, lastt, s.reg == refp::EXEC ? "* ee" : ", ee"); s.text = v[2]; }
  }
  (void)compound;
}
static void verify(mc::Run &r, File &f, Proc &p, Model const &m) {
  regions(r, p, p, m); labels(r, p, m);
  std::ostringstream os; for (auto const &l : f.logical_lines()) os << l; Lines w = split_lines(os.str());
  if (flat(w) != flat(m)) r.fail("the file is written as " + mc::show(w) + ", expected statements " + mc::show(flat(m)));
}
static Lines layout(std::vector<std::string> const &src, int how, Model &m) {
  Lines v;
  for (size_t i = 0; i < src.size(); ++i) {
    St s{-1, src[i], 0, {}};
    if (how == 0) { v.push_back("! c" + std::to_string(i)); s.pre.push_back("c" + std::to_string(i)); v.push_back("  " + src[i]); }
    else if (how == 1) { if (v.empty()) v.push_back(""); v[0] += (i ? "; " : "") + src[i]; }
    else { s.label = 10 + (int)i; v.push_back(std::to_string(s.label) + " " + src[i]); }
    m.s.push_back(s);
  }
  return v;
}
static std::string name_of(std::string const &heading) { auto L = ref::lex(heading); for (size_t i = 0; i < L.t.size(); ++i) { std::string t = low(L.t[i].text); if (t == "program" || t == "subroutine" || t == "function") return L.t[i + 1].text; if (t == "procedure") return L.t[i + 1].text; } return ""; }
static void one(mc::Run &r, std::vector<std::string> const &src, std::vector<refp::Proc> const &procs, int depth) {
  for (int how = 0; how < 3; ++how) for (size_t k = 0; k < procs.size(); ++k) {
    auto start = [&](Model &m, Lines &v) { m = Model{}; v = layout(src, how, m); auto const &q = procs[k]; for (int i = q.first; i <= q.last; ++i) m.s[(size_t)i].reg = q.region[(size_t)(i - q.first)]; m.tag = q.tag; m.headless = q.region[0] != refp::BEGIN; if (!m.headless) m.name = name_of(m.s[(size_t)q.first].text); };
    Model m; Lines v;
    std::function<void(std::vector<Op> const &)> go = [&](std::vector<Op> const &h) {
      start(m, v); std::istringstream is(join(v)); File f(is, "t.f90", 0, File_Type::FREEFMT); auto &t = f.parse_tree(); if (!f) r.fail("a well-formed program is rejected");
      std::string hs; for (auto const &o : h) hs += " " + show(o); r.note(mc::show(v) + " procedure " + std::to_string(k), hs);
      File::Prgm_Cursor c; int kk = (int)k; if (!find_proc(*t, t.cursor(), kk, c)) r.fail("the procedure is not in the tree");
      Proc p(f); if (p) r.fail("initialised too early"); if (!p.ingest(c) || !p) r.fail("ingest() fails"); r.step();
      if (h.empty()) { verify(r, f, p, m); Proc q(f); q.ingest(c); q.clear(); if (q) r.fail("clear() leaves regions"); if (!q.ingest(c)) r.fail("ingest() after clear() fails"); regions(r, q, q, m); }
      for (auto const &o : h) { apply(r, f, p, m, o, how == 1); verify(r, f, p, m); }
      std::string key = flat(m); for (auto const &s : m.s) key += (char)('a' + s.reg + 1); r.state(mc::hash(key)); r.trace();
      if ((int)h.size() < depth) { Model now = m; for (auto const &o : ops(now)) { auto g = h; g.push_back(o); go(g); } }
    };
    go({});
  }
}
void explore(mc::Run &r) {
  using V = std::vector<std::string>;
  struct Profile { char const *name; V terms; int plain[2], one[2], two[2]; };
  std::vector<Profile> ps{
    {"units", {"program", "end", "endprogramp", "subroutine", "endsubroutine", "function", "endfunction", "module", "endmodule", "contains", "moduleprocedure", "endprocedure", "assign", "integer", "use"}, {6, 7}, {4, 6}, {3, 4}},
    {"specifications", {"subroutine", "end", "use", "import", "implicit", "parameter", "format", "entry", "integer", "data", "assign"}, {6, 7}, {4, 6}, {3, 4}},
    {"constructs", {"program", "endprogram", "end", "use", "integer", "type", "endtype", "interface", "subroutine", "endsubroutine", "endinterface", "do", "enddo", "assign", "contains"}, {6, 8}, {4, 6}, {3, 4}}};
  for (auto const &p : ps) {
    refp::Grammar g(p.terms); int T = r.thorough;
    for (int n = 1; n <= p.plain[T]; ++n) { refp::Enumerator e(g, [&](refp::Deriv const &d) {
      if (r.begin([&] { return std::string(p.name) + ": " + mc::show(refp::source(d.terms, g)); })) r.body([&] { auto pr = refp::procedures(d, g); one(r, refp::source(d.terms, g), pr, n <= p.two[T] ? 2 : n <= p.one[T] ? 1 : 0); }); });
      e.run("program", n); }
  }
  // headings and ends
  V heads{"subroutine s", "subroutine s(a, b)", "pure recursive subroutine s()", "subroutine s(a) bind(c, name='s')", "function s(a)", "integer function s(a) result(x)", "type(t) function s(a)", "real(8) pure elemental function s(a)", "function s() bind(c) result(x)", "character(len=*) function s(a)", "PROGRAM s", "program program", "double precision function s(x)"};
  for (auto const &h : heads) for (int en = 0; en < 4; ++en) if (r.begin([&] { return "heading " + h + " end " + std::to_string(en); })) r.body([&] {
    bool fn = h.find("unction") != std::string::npos, pg = low(h).find("program") == 0; std::string kind = pg ? "program" : fn ? "function" : "subroutine", nm = h == "program program" ? "program" : "s";
    V src{h, "integer :: i", "x = 1", en == 0 ? "end" : en == 1 ? "end " + kind : en == 2 ? "end" + kind + " " + nm : "END " + kind + " " + nm};
    refp::Proc q; q.tag = pg ? "main-program" : fn ? "function-subprogram" : "subroutine-subprogram"; q.first = 0; q.last = 3; q.region = {refp::BEGIN, refp::DECLS, refp::EXEC, refp::END}; one(r, src, {q}, 2); });
}
