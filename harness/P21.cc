// P21: malformed input is reported; nothing crashes, hangs or is silently dropped.
#include "mc.hh"
#include <functional>
#include <map>
#include "src_util.hh"
#include "ref_prgm.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/parse_stmt.hh"
char const *const mc_property = "P21";
using namespace FLPR;
using File = Parsed_File<>;
using Node = File::Parse_Tree::node;

static std::vector<int> stmt_tags;
static void leaves(Node &n, std::vector<LL_Stmt const *> &v) { if (n->is_stmt()) v.push_back(&n->ll_stmt()); else for (auto &b : n.branches()) leaves(b, v); }
// Parse; if accepted the tree must hold every statement, once and in order.
static bool parse(mc::Run &r, std::string const &text, char const *name, int last_col, size_t *n_stmts = nullptr) {
  std::istringstream is(text); File f(is, name, last_col); r.step();
  if (!f) { // scanning failed: everything else must be inert
    if (!f.statements().empty()) r.fail("a file that could not be scanned has statements");
    if (!f.parse_tree().empty()) r.fail("a file that could not be scanned has a tree");
    return false;
  }
  auto &t = f.parse_tree(); size_t n = 0; std::vector<LL_Stmt const *> want, got; for (auto &s : f.statements()) { want.push_back(&s); ++n; }
  if (n_stmts) *n_stmts = n;
  if (!f) { if (f.prefetch_parse_tree() && f) r.fail("failure is forgotten"); Indent_Table it; f.indent(it); return false; }
  if (n && t.empty()) r.fail("success is reported without a tree");
  if (!t.empty()) leaves(*t, got);
  if (got != want) r.fail("success is reported, but the tree holds " + std::to_string(got.size()) + " of " + std::to_string(want.size()) + " statements");
  std::string h = std::to_string(n); for (auto *x : got) h += Syntax_Tags::label(x->syntax_tag()) + ";"; r.state(mc::hash(h));
  r.trace(); return true;
}
// ---------- A: token sequences --------------------------------------------
static void tokens(mc::Run &r, std::string const &stmt) {
  Logical_File lf; lf.read_and_scan(*std::make_unique<std::istringstream>(stmt + "\n"), "t.f90", 0); lf.make_stmts();
  if (lf.ll_stmts.size() == 1) {
    LL_Stmt &s = lf.ll_stmts.front(); int n = s.size(); std::string acc;
    for (int tag : stmt_tags) {
      TT_Stream ts(s); auto t = Stmt::parse_stmt_dispatch(tag, ts); r.step();
      if (t.empty()) { if (ts.num_consumed() != 0) r.fail(Syntax_Tags::label(tag) + " fails and leaves the stream at token " + std::to_string(ts.num_consumed())); }
      else { if (ts.num_consumed() > n || ts.num_consumed() < 0) r.fail(Syntax_Tags::label(tag) + " runs past the end"); acc += Syntax_Tags::label(tag) + ","; }
    }
    r.state(mc::hash(acc));
  }
  parse(r, "subroutine s\n" + stmt + "\nend subroutine\n", "t.f90", 0);
}
static void words(std::vector<std::string> const &al, int n, std::function<void(std::string const &)> const &f) {
  std::function<void(int, std::string const &)> rec = [&](int k, std::string const &s) { f(s); if (k) for (auto const &a : al) rec(k - 1, s.empty() ? a : s + " " + a); };
  rec(n, "");
}
// ---------- B: statement sequences ------------------------------------------
static void stmts(mc::Run &r, std::vector<int> const &seq, refp::Grammar const &g, refp::Grammar const &all, refp::Grammar const &lenient) {
  std::vector<int> full; for (int t : seq) full.push_back(all.term_id.at(g.terms[t]));
  refp::Recogniser rec(all); bool want = full.empty() || rec("program", full);
  refp::Recogniser rec2(lenient); bool may = want || rec2("program", full);
  size_t n = 0; bool got = parse(r, join(refp::source(seq, g)), "t.f90", 0, &n);
  if (n != seq.size()) r.fail("statement list");
  r.count(want ? 0 : 1);
  if (want && !got) r.fail("a well-formed program is rejected");
  if (!may && got) r.fail("an ill-formed program is accepted");
  if (n > 1) { // the same statements on shared lines
    auto src = refp::source(seq, g);
    for (size_t k = 1; k < 3; ++k) { // all on one line; the first on its own line
      Lines l; for (size_t i = 0; i < src.size(); ++i) if (i < k) l.push_back(src[i]); else l.back() += "; " + src[i];
      if (k == 2) { if (src.size() < 3) break; l = {src[0], src[1]}; for (size_t i = 2; i < src.size(); ++i) l[1] += "; " + src[i]; }
      size_t m = 0; if (parse(r, join(l), "t.f90", 0, &m) != got) r.fail(std::string(got ? "rejected" : "accepted") + " on shared lines: " + mc::show(l)); if (m != n) r.fail("statement list on shared lines"); } }
}
// ---------- C: lines ---------------------------------------------------------
static void lines(mc::Run &r, std::string const &text) {
  parse(r, text, "t.f90", 0); parse(r, text, "t.f", 72); parse(r, text, "t.f", 0); r.count(2);
}
void explore(mc::Run &r) {
  for (int t = 0; t < Syntax_Tags::SG_ZZZ_UB; ++t) { std::string l = Syntax_Tags::label(t); if (l.size() > 5 && l.compare(l.size() - 5, 5, "-stmt") == 0) stmt_tags.push_back(t); }
  using V = std::vector<std::string>;
  // A
  V tok{"(", ")", "[", "]", ",", ":", "=", "=>", "::", "%", "*", "/", "nm", "1", "'c'", "1.5"};
  words(tok, r.thorough ? 5 : 4, [&](std::string const &s) { if (r.begin([&] { return "tokens: " + s; })) r.body([&] { r.count(3); tokens(r, s); }); });
  V head{"allocate", "allocate (", "a", "a(", "a%b(", "a =", "a =>", "if (", "if (a)", "if (a) then", "do", "do 10", "do i =", "do while (", "do concurrent (", "call", "call f(", "write", "write (", "write (*,*)", "read", "read (", "print", "print *", "open (", "close (", "inquire (", "inquire (iolength=", "rewind (", "backspace (", "endfile (", "flush (", "wait (", "select case (", "select type (", "select rank (", "case", "case (", "type is (", "class is (", "rank (", "associate (", "block", "where (", "elsewhere (", "else if (", "else", "forall (", "forall (i = 1:2)", "end", "end do", "end if", "enddo", "goto", "go to (", "return", "stop", "error stop", "cycle", "exit", "continue", "deallocate (", "nullify (", "lock (", "unlock (", "sync all (", "sync images (", "sync memory (", "sync team (", "event post (", "event wait (", "form team (", "fail image", "format (", "data", "data a /", "entry f(", "use", "use m,", "use m, only:", "import", "import,", "implicit", "implicit real (", "parameter (", "integer", "integer (", "integer,", "integer ::", "integer :: a(", "real (kind =", "character (len =", "character *", "type (", "class (", "type", "type ::", "type, extends (", "procedure", "procedure (", "procedure (),", "generic ::", "final", "private", "public ::", "save", "save /", "dimension a(", "codimension a[", "target ::", "pointer a(", "allocatable a(", "asynchronous", "volatile", "value", "optional ::", "intent (", "external", "intrinsic", "equivalence (", "common /", "namelist /", "bind (c", "interface", "interface operator (", "abstract interface", "subroutine s(", "function f(", "function f() result (", "module", "module procedure", "submodule (", "program", "contains", "enum, bind (", "enumerator", "enumerator :: a =", "pure", "elemental function", "nm:", "10 format", "double precision", "sequence"};
  V rest{"(", ")", "[", "]", ",", ":", "=", "=>", "::", "*", "nm", "1"};
  for (auto const &h : head) words(rest, r.thorough ? 3 : 2, [&](std::string const &s) { if (r.begin([&] { return "headed: " + h + " " + s; })) r.body([&] { r.count(4); tokens(r, h + " " + s); }); });
  // B
  refp::Grammar all;
  // what FLPR takes on top of the standard: name(...) as a macro invocation, a name on the END of a headless program
  refp::Grammar lenient({}, "econ = T:parameter:action-stmt\nendp0 = T:endprogramp:end-program-stmt\n");
  struct Profile { char const *name; V terms; int quick, deep; };
  V unit{"program", "end", "endprogram", "subroutine", "endsubroutine", "function", "endfunction", "module", "endmodule", "contains", "moduleprocedure", "endprocedure", "assign", "integer"};
  V ifs{"subroutine", "endsubroutine", "end", "assign", "ifthen", "elseif", "else", "endif", "do", "enddo", "selectcase", "case", "endselect"};
  V cons{"subroutine", "endsubroutine", "associate", "endassociate", "block", "integer", "endblock", "selectrank", "rank", "selecttype", "typeis", "endselect"};
  V arr{"subroutine", "endsubroutine", "assign", "where", "maskedelsewhere", "elsewhere", "endwhere", "wherestmt", "forall", "endforall", "forallstmt"};
  V spec{"subroutine", "endsubroutine", "use", "import", "implicit", "parameter", "format", "entry", "integer", "save", "data", "assign"};
  V types{"module", "endmodule", "type", "endtype", "private", "sequence", "intkind", "integer", "contains", "tbprocedure", "final", "enum", "enumerator", "endenum"};
  V ifaces{"module", "endmodule", "interface", "endinterface", "subroutine", "endsubroutine", "function", "endfunction", "moduleprocedure", "integer", "end"};
  std::vector<Profile> ps{{"units", unit, 4, 5}, {"if/do/case", ifs, 4, 5}, {"select/associate/block", cons, 4, 5}, {"where/forall", arr, 4, 5}, {"specifications", spec, 4, 5}, {"types", types, 4, 5}, {"interfaces", ifaces, 4, 5}, {"everything", {}, 2, 3}};
  for (auto const &p : ps) {
    refp::Grammar g(p.terms); V al = p.terms; if (al.empty()) al = g.terms; std::vector<int> ids; for (auto const &t : al) ids.push_back(g.term_id.at(t));
    std::vector<int> seq; std::function<void(int)> rec = [&](int n) { if (r.begin([&] { return std::string(p.name) + ": " + mc::show(refp::source(seq, g)); })) r.body([&] { stmts(r, seq, g, all, lenient); }); if (n) for (int i : ids) { seq.push_back(i); rec(n - 1); seq.pop_back(); } };
    rec(r.thorough ? p.deep : p.quick);
    // every well-formed program with one statement removed, doubled, replaced, or two neighbours swapped
    int N = r.thorough ? 6 : p.terms.empty() ? 3 : 5;
    for (int n = 1; n <= N; ++n) {
      refp::Enumerator e(g, [&](refp::Deriv const &d) {
        auto go = [&](std::vector<int> const &m) { if (r.begin([&] { return std::string(p.name) + " mutated: " + mc::show(refp::source(m, g)); })) r.body([&] { stmts(r, m, g, all, lenient); }); };
        auto const &t = d.terms; int L = t.size();
        for (int i = 0; i < L; ++i) {
          auto m = t; m.erase(m.begin() + i); go(m);
          m = t; m.insert(m.begin() + i, t[i]); go(m);
          if (i + 1 < L && t[i] != t[i + 1]) { m = t; std::swap(m[i], m[i + 1]); go(m); }
          if (!p.terms.empty() && n <= N - 1) for (int x : ids) { if (x != t[i]) { m = t; m[i] = x; go(m); } }
        }
      });
      e.run("program", n);
    }
  }
  // C: all short texts, then all files of nasty lines
  V ch{"a", "'", "\"", "&", "!", ";", "#", "(", "1", " ", "\t", "\\", "\xe9", "*", ".", "=", "\n", "c", "0", "\r"};
  std::function<void(int, std::string const &)> txt = [&](int n, std::string const &s) { if (r.begin([&] { return "text: " + mc::show(s); })) r.body([&] { lines(r, s); }); if (n) for (auto const &c : ch) txt(n - 1, s + c); };
  txt(r.thorough ? 5 : 4, "");
  V nasty{"", " ", "&", " & ", "&&", ";", ";;a=1;", "10", "10 ;", "99999999999 a=1", "a = 'x", "a = 'x&", "&x'", "      a = 'x", "     &x'", "     1a", "      if (a", "#if a \\", "#", "!$omp b &", "#flpr x", "include 'a'", "include 'a", "c comment", "*", "\ta = 1", "\t1a = 2", "a = 1 ! \xe9", "a\xe9 = 1", "end", "      end", "subroutine s", "      subroutine s", "1234567 a=1", "abcdefgh", "  10  continue", "?", "a = b$c", "a = 1.e", "\x01", "& ! c", "a = & ! c", "a = 1; & ! d", "!", "'", std::string(80, 'x'), "      " + std::string(80, 'x'), std::string(6, ' ') + "a = '" + std::string(70, 'y')};
  std::function<void(int, Lines const &)> fl = [&](int n, Lines const &v) { if (!v.empty() && r.begin([&] { return "lines: " + mc::show(v); })) r.body([&] { lines(r, join(v)); }); if (n) for (auto const &l : nasty) { Lines w = v; w.push_back(l); fl(n - 1, w); } };
  fl(r.thorough ? 3 : 2, {});
  // D: files that aren't there, empty files, default objects
  if (r.begin([] { return std::string("interface: default-constructed"); })) r.body([&] { File f; if (f) r.fail("a default-constructed file is good"); if (!f.statements().empty() || !f.parse_tree().empty()) r.fail("not empty"); Indent_Table it; if (f.indent(it)) r.fail("indent changes something"); r.step(); });
  if (r.begin([] { return std::string("interface: missing file"); })) r.body([&] { File f("/nonexistent/x.f90", 0); if (f) r.fail("a missing file is good"); File g; if (g.read_file("/nonexistent/x.f90", 0)) r.fail("read_file reports success for a missing file"); if (g) r.fail("a missing file is good"); if (!g.parse_tree().empty()) r.fail("not empty"); r.step(); });
  for (char const *t : {"", "\n", "! c\n", "#if 1\n"}) for (char const *nm : {"t.f90", "t.f"}) if (r.begin([&] { return std::string("interface: empty ") + mc::show(std::string(t)); })) r.body([&] {
    std::istringstream is(t); File f(is, nm, 72); if (!f) r.fail("an empty file is bad"); auto &x = f.parse_tree(); if (!f || !x.empty() || !f.statements().empty()) r.fail("an empty file isn't empty"); Indent_Table it; f.indent(it); r.step(); });
  if (r.begin([] { return std::string("interface: read_file of a good file"); })) r.body([&] {
    char nm[] = "/tmp/flpr_p21_XXXXXX"; int fd = mkstemp(nm); if (fd < 0) return; char const *t = "      subroutine s\n      end\n"; if (write(fd, t, strlen(t)) < 0) return; close(fd);
    File f; bool ok = f.read_file(nm, 0, File_Type::FIXEDFMT); unlink(nm); if (!ok) r.fail("read_file reports failure for a good file"); if (!f || f.parse_tree().empty() || f.statements().size() != 2) r.fail("a good file isn't read"); r.step(); });
  for (char const *bad : {"a = 'x\n", "subroutine s\na = 'x\nend\n", "! c\na = 1 &\n'x\n"}) for (int type = 0; type < 2; ++type) if (r.begin([&] { return "interface: a good file after " + mc::show(std::string(bad)); })) r.body([&] {
    char nm[] = "/tmp/flpr_p21_XXXXXX"; int fd = mkstemp(nm); if (fd < 0) return; char const *t = "      subroutine s\n      end\n"; if (write(fd, t, strlen(t)) < 0) return; close(fd);
    std::istringstream is(bad); File f(is, type ? "t.f" : "t.f90", 0); r.step(); if (f) { unlink(nm); if (type == 0) r.fail("an open character literal is accepted"); return; }
    bool ok = f.read_file(nm, 0, File_Type::FIXEDFMT); unlink(nm); if (!ok || !f) r.fail("a good file isn't read after a bad one");
    if (f.parse_tree().empty() || f.statements().size() != 2) r.fail("a good file read after a bad one has " + std::to_string(f.statements().size()) + " statements"); });
  if (r.begin([] { return std::string("interface: unknown file type"); })) r.body([&] { std::istringstream is("end\n"); File f(is, "t.txt", 0); bool b = f; f.parse_tree(); if (b) { if (f.statements().size() != 1) r.fail("statements"); } r.step(); });
}
