// P24: several files, one after another or side by side, in the library and in the
// tools: each is treated as if it were alone, and read in the form its name says.
#include "mc.hh"
#include "src_util.hh"
#include "flpr/flpr.hh"
#include "flpr/Procedure.hh"
#include "flpr/Procedure_Visitor.hh"
#include "flpr/Indent_Table.hh"
#include "flpr/parse_stmt.hh"
#include "flpr_format_base.hh"
#include "module_base.hh"
#include <cassert>
#include <ext/stdio_sync_filebuf.h>
#include <fstream>
#include <iostream>
#include <fcntl.h>
#include <list>
#include <memory>
#include <optional>
#include <set>
#include <cstring>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
char const *const mc_property = "P24";
using namespace FLPR;
using PF = Parsed_File<>; using V = std::vector<std::string>;
struct Quiet { std::streambuf *old; std::ostringstream sink; Quiet() : old(std::cerr.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cerr.rdbuf(old); std::cerr.clear(); } };
struct Src { char const *name; std::string text; bool readable, program, change; };
static std::vector<Src> files() {
  std::string far = "      x = 1"; far.resize(72, ' '); far += "remark\n";
  return {
    {"free.f90", "program p\nuse n\n10 a = 1; b = 2 ;; c = 'x&\n &y' ! note\nif (a > 1) call foo\nend program p\n", true, true, true},
    {"fixed.f", "C note\n      SUBROUTINE S\n   10 A = 1\n     &+ 2; B = 2\n      CALL FOO(A)\n      END\n", true, true, true},
    {"unclosed.f90", "subroutine s\nif (a) then\ncall foo\ndo 10 i = 1, 2\nx = 1; y = 2\nend\n", true, false, false},
    {"literal.f90", "subroutine s\na = 'x\ncall foo\nend\n", false, false, false},
    {"empty.f90", "", true, true, false},
    {"column.F", "      subroutine s\n" + far + "      call foo\n      end\n", true, true, true},
    {"comments.f90", "! one\n\n#if 1\n! two\n", true, true, false},
    {"nonewline.f90", "module m\ncontains\nsubroutine s\n  call foo(1)\nend subroutine\nend module", true, true, true},
    {"hanging.f90", "subroutine s\nx = 1 &\n", true, false, false},
    {"hanging.f", "      subroutine s\n      a = 'x\n", true, false, false},
    {"labels.f90", "subroutine s\ndo 10 i = 1, 2\ndo 10 j = 1, 2\n10 call foo\ngoto 20\n20 continue\nend\n", true, true, true},
    {"cpp.f90", "#define a \\\n  'b\nsubroutine s\n!#flpr x\n call foo;\nend\n#if \\", true, true, true},
    {"format.f90", "subroutine s\nwrite (*, 1) a\n1 format (i3, 'x', 1pe12.4\n", true, false, false},
    {"blockdata.f90", "end\nend\nfunction f(x) result (y); y = x; end function f; subroutine t; call bar; end\n", true, true, false},
    {"odd.f90", "subroutine s\na = b$c ? )\ncall foo\nend\n", true, false, false},
    {"real.f90", "e1 = .5\nd1 = 1.", true, false, false},
    {"nested.f90", "module m\ninterface\nsubroutine i(a)\ninteger :: a\nend subroutine\nend interface\nenum, bind(c)\nenumerator :: r\nend enum\ntype t\ninteger :: i\nend type\ncontains\nsubroutine s\ninteger :: k\nif (a) then\nselect case (k)\ncase (1)\nwhere (a)\na = 1\nend where\ncase default\ndo i = 1, 2\nx = y + &\n z\nend do\nend select\nelse\nx = 1\nend if\ncontains\nsubroutine w\ny = 2\nend subroutine\nend subroutine\nend module\n", true, true, false},
    {"none.txt", "subroutine s\nend\n", false, false, false},
    {"missing.f90", "\x01", false, false, false}};
}
static Indent_Table table(bool fixed) { Indent_Table t; if (fixed) { t.apply_constant_fixed_indent(4); t.set_continued_offset(5); } else t.apply_emacs_indent(); return t; }
static std::string written(PF const &f) { std::ostringstream os; for (auto const &l : f.logical_lines()) os << l; return os.str(); }
// what the library says about a file, in three steps
static std::string scanned(PF &f) {
  std::ostringstream os; Logical_File &l = f.logical_file(); os << (f ? "good" : "bad") << '\n'; if (!f) return os.str();
  os << l.file_type() << ' ' << l.file_info->filename << ' ' << l.file_info->last_fixed_column << ' ' << l.num_input_lines << ' ' << l.has_flpr_pp << ' ' << l.is_fixed_format() << '\n';
  for (auto const &x : l.lines) { os << "L " << x.label << ' ' << (int)x.cat << ' '; for (auto const &t : x.fragments()) os << t << ' '; os << '\n' << x; }
  return os.str(); }
static std::string parsed(PF &f) {
  std::ostringstream os; f.prefetch_statements(); bool ok = f.prefetch_parse_tree(); os << "tree " << ok << ' ' << (f ? "good" : "bad") << ' '; if (!f.parse_tree().empty()) os << f.parse_tree(); os << '\n';
  if (f) for (auto &s : f.statements()) { os << "S " << s.label() << ' ' << s.stmt_tag(false) << ' ' << s.is_compound() << ' ' << s.has_hook() << ' '; for (auto const &t : s) os << t.text() << ' '; os << s.prefix_lines.size(); if (s.stmt_tree()) os << s.stmt_tree(); os << '\n'; }
  return os.str(); }
static std::string indented(PF &f, Indent_Table const &t) { std::ostringstream os; if (f) { bool c = f.indent(t); os << "indent " << c << ' ' << (f ? "good" : "bad") << '\n'; if (f) os << written(f); } return os.str(); }
static bool fixed_name(std::string const &n) { return n.substr(n.rfind('.')) != ".f90"; }
static PF make(Src const &s) { std::istringstream is(s.text); if (s.text == "\x01") return PF(s.name, 72); return PF(is, s.name, 72); }
static PF &open(std::list<PF> &l, Src const &s) { std::istringstream is(s.text); if (s.text == "\x01") l.emplace_back(s.name, 72); else l.emplace_back(is, s.name, 72); return l.back(); }
static std::string alone(Src const &s) { PF f = make(s); std::string o = scanned(f); o += parsed(f); return o + indented(f, table(fixed_name(s.name))); }
static std::string diff(std::string const &a, std::string const &b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t k = i > 60 ? i - 60 : 0; return mc::show(a.substr(k, 200)) + ", expected " + mc::show(b.substr(k, 200)); }
// ---------- running something in a process of its own ------------------------
struct Out { int code; std::string text; };
static Out in_child(std::function<int()> const &f) {
  int fd[2]; if (pipe(fd)) abort(); fflush(nullptr); pid_t p = fork();
  if (p == 0) { close(fd[0]); dup2(fd[1], 1); close(fd[1]); int null = ::open("/dev/null", O_WRONLY); dup2(null, 2); __gnu_cxx::stdio_sync_filebuf<char> sb(stdout); std::cout.rdbuf(&sb); std::cout.clear(); int c = 125; c = f(); std::cout.flush(); fflush(nullptr); _exit(c); }
  close(fd[1]); Out o; char b[4096]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.text.append(b, (size_t)n); close(fd[0]); int st = 0; waitpid(p, &st, 0); o.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); return o; }
struct Dir { // a scratch directory holding some of the files
  std::string path; V names;
  Dir() { char d[] = "/tmp/flpr_p24_XXXXXX"; if (!mkdtemp(d)) abort(); path = d; }
  void put(std::string const &n, std::string const &t) { if (t == "\x01") return; std::ofstream os(path + "/" + n); os << t; names.push_back(n); }
  std::string get(std::string const &n) { std::ifstream is(path + "/" + n); if (!is) return "\x01"; std::ostringstream os; os << is.rdbuf(); return os.str(); }
  ~Dir() { for (auto const &n : names) { unlink((path + "/" + n).c_str()); unlink((path + "/" + n + ".bak").c_str()); } rmdir(path.c_str()); } };
static Out tool(Dir const &d, char const *name, V const &args, char const *in = "/dev/null") {
  char const *exe = getenv((std::string("FLPR_TOOL_") + name).c_str()); if (!exe) abort();
  return in_child([&] { if (chdir(d.path.c_str()) || !freopen(in, "r", stdin)) return 126; std::vector<char *> av; for (auto const &a : args) av.push_back(const_cast<char *>(a.c_str())); av.push_back(nullptr); execv(exe, av.data()); return 127; }); }
// ---------- expectations for the tools, from the library ---------------------
static std::string format_one(std::string const &path, V const &flags) { // in a child
  ::Options o; o.enable_all_filters(); o[::Options::COL72] = o[::Options::FIXED_TO_FREE] = o[::Options::REINDENT] = false; bool c = false, f = false, i = false, q = false;
  for (auto const &a : flags) for (char ch : a.substr(1)) { if (ch == 'c') c = true; if (ch == 'f') f = true; if (ch == 'i') i = true; if (ch == 'o') o.set_do_output(true); if (ch == 'q') q = true; }
  if (q) { o.set_quiet(true); o.set_do_output(false); } o[::Options::FIXED_TO_FREE] = f; o[::Options::REINDENT] = i;
  PF file; file.read_file(path, c ? 72 : 0); Indent_Table t = table(fixed_name(path) && !f); ::flpr_format_file(file, o, t); return ""; }
static void tree_text(std::ostream &os, Stmt::Stmt_Tree::node const &n) { os << Syntax_Tags::label(n->syntag); if (!n.is_leaf()) { os << " <"; for (auto const &b : n.branches()) { tree_text(os, b); os << ' '; } os << ">"; } }
static std::string cst_one(V const &lines) { // "" if no parser takes it
  std::ostringstream os; int k = 0; for (int t = Syntax_Tags::SG_000_LB + 1; t < Syntax_Tags::SG_ZZZ_UB; ++t) { if (Syntax_Tags::type(t) != 5) continue;
    Logical_File l; l.file_info = std::make_shared<File_Info>("Line", File_Type::FREEFMT); if (!l.scan_free(lines)) return ""; l.make_stmts(); if (l.ll_stmts.empty()) return ""; TT_Stream ts(l.ll_stmts.front());
    auto st = Stmt::parse_stmt_dispatch(t, ts); if (st) { os << ++k << ": "; tree_text(os, *st); os << '\n'; } }
  return os.str(); }
void explore(mc::Run &r) {
  auto F = files(); size_t n = F.size(); Quiet quiet;
  std::vector<std::string> base; for (auto const &f : F) { Out o = in_child([&] { std::cout << alone(f); return 0; }); base.push_back(o.code ? "ended with " + std::to_string(o.code) : o.text); }
  auto seqs = [&](size_t len, size_t of, std::function<void(std::vector<size_t> const &)> const &f) { std::vector<size_t> v; std::function<void()> rec = [&] { if (!v.empty()) f(v); if (v.size() == len) return; for (size_t i = 0; i < of; ++i) { v.push_back(i); rec(); v.pop_back(); } }; rec(); };
  auto named = [&](std::vector<size_t> const &v) { std::string s; for (size_t i : v) s += std::string(" ") + F[i].name; return s; };
  // A: expectations on the files alone
  for (size_t i = 0; i < n; ++i) if (r.begin([&] { return std::string("alone: ") + F[i].name; })) r.body([&] { PF f = make(F[i]); r.step(); if (bool(f) != F[i].readable) r.fail(F[i].readable ? "rejected" : "accepted"); if (f) { f.parse_tree(); if (bool(f) != F[i].program) r.fail(F[i].program ? "not recognised as a program" : "accepted as a program"); } r.trace(); });
  // A: histories
  static char const *const mode[] = {"one after another", "side by side", "step by step from the back", "kept in a growing vector", "in the same place", "interrupted"};
  seqs(4, n, [&](std::vector<size_t> const &v) {
    for (int m = 0; m < 6; ++m) if (v.size() == 4 && m != 0 && m != 4 && !r.thorough) continue; else if (r.begin([&] { return std::string(mode[m]) + ":" + named(v); })) r.body([&] {
      std::vector<std::string> got(v.size()); Indent_Table t; auto ind = [&](size_t i) -> Indent_Table const & { if (fixed_name(F[v[i]].name)) { t.apply_constant_fixed_indent(4); t.set_continued_offset(5); } else t.apply_emacs_indent(); return t; };
      if (m == 0) for (size_t i = 0; i < v.size(); ++i) { std::list<PF> l; PF &f = open(l, F[v[i]]); got[i] = scanned(f); got[i] += parsed(f); got[i] += indented(f, ind(i)); }
      if (m == 1 || m == 2) { std::vector<std::unique_ptr<std::list<PF>>> l; for (size_t i = 0; i < v.size(); ++i) l.push_back(std::make_unique<std::list<PF>>()); auto each = [&](auto fn) { for (size_t k = 0; k < v.size(); ++k) fn(m == 1 ? k : v.size() - 1 - k); };
        each([&](size_t i) { got[i] = scanned(open(*l[i], F[v[i]])); }); each([&](size_t i) { got[i] += parsed(l[i]->back()); }); each([&](size_t i) { got[i] += indented(l[i]->back(), ind(i)); }); }
      if (m == 3) { std::vector<PF> fs; for (size_t i = 0; i < v.size(); ++i) { fs.push_back(make(F[v[i]])); got[i] = scanned(fs.back()); got[i] += parsed(fs.back()); } for (size_t i = 0; i < v.size(); ++i) got[i] += indented(fs[i], ind(i)); }
      if (m == 4) { std::optional<PF> f; for (size_t i = 0; i < v.size(); ++i) { f.emplace(make(F[v[i]])); got[i] = scanned(*f); got[i] += parsed(*f); got[i] += indented(*f, ind(i)); } }
      if (m == 5) for (size_t i = 0; i < v.size(); ++i) { { PF g = make(F[v[i]]); if (i % 2) g.prefetch_statements(); } PF h = make(F[v[i]]); if (h) h.logical_file().convert_fixed_to_free(); PF f = make(F[v[i]]); got[i] = scanned(f); got[i] += parsed(f); got[i] += indented(f, ind(i)); }
      r.step((int)v.size()); for (size_t i = 0; i < v.size(); ++i) { if (got[i] != base[v[i]]) r.fail(std::string(F[v[i]].name) + ", number " + std::to_string(i + 1) + ", differs from the file alone: " + diff(got[i], base[v[i]])); r.state(mc::hash(got[i])); } r.trace(); }); });
  // B: the form a file is read in
  struct Nm { char const *name; int form; }; // 1 free, 2 fixed, 0 none
  static std::vector<Nm> const nm{{"a.f90", 1}, {"a.f", 2}, {"a.F", 2}, {"./x.y/a.f90", 1}, {"b.f/a.f90", 1}, {"b.f90/a.f", 2}, {"a.b.f90", 1}, {"a.f90.f", 2}, {"a.f.f90", 1}, {".f90", 1}, {".f", 2}, {"..f", 2}, {"a", 0}, {"", 0}, {"a.", 0}, {"a.txt", 0}, {"a.f9", 0}, {"a.f900", 0}, {"a.ff", 0}, {"af90", 0}, {"a.f90 ", 0}, {"a.f90~", 0}, {"a.f.orig", 0}, {"f90", 0}, {"f", 0}};
  struct Tx { char const *text; int free, fixed; }; // number of statements in either form (-1: rejected)
  static std::vector<Tx> const tx{{"C x\n      a = 1\n     &+ 2\n      end\n", 4, 2}, {"      a = 1 &\n     &+ 2\n      end\n", 2, 2}, {"a = 'b\n", -1, 0}, {"", 0, 0}, {"! c\n* d\n      x = 1; y = 2 ! z\n", 3, 2}};
  for (auto const &x : nm) for (int ty = 0; ty < 3; ++ty) for (size_t k = 0; k < tx.size(); ++k) for (int how = 0; how < 3; ++how) if (r.begin([&] { return "form of " + mc::show(std::string(x.name)) + ", said to be " + std::to_string(ty) + ", text " + std::to_string(k) + ", " + (how == 2 ? "on disk" : how ? "stream" : "lines"); })) r.body([&] {
    File_Type t = ty == 0 ? File_Type::UNKNOWN : ty == 1 ? File_Type::FREEFMT : File_Type::FIXEDFMT; int form = ty ? ty : x.form; Logical_File l; bool ok; r.step();
    if (how == 0) { Logical_File::Line_Buf b; for (auto const &s : split_lines(tx[k].text)) b.push_back(s); ok = l.scan(b, x.name, 0, t); }
    else if (how == 1) { std::istringstream is(tx[k].text); ok = l.read_and_scan(is, x.name, 0, t); }
    else { if (strchr(x.name, '/') || !*x.name || !strcmp(x.name, ".") || !strcmp(x.name, "..")) { r.trace(); return; } Dir d; d.put(x.name, tx[k].text); std::string p = d.path + "/" + x.name; ok = l.read_and_scan(p, 0, t); }
    int want = form == 1 ? tx[k].free : form == 2 ? tx[k].fixed : -1;
    if (!form && ok) r.fail("a file of unknown form is read"); if (form && l.file_type() != (form == 1 ? File_Type::FREEFMT : File_Type::FIXEDFMT)) r.fail("the form is taken to be another");
    if (form && k == 2 && form == 2) { r.trace(); return; } // an open literal at the end of fixed form
    if (form && ok != (want >= 0)) r.fail(ok ? "accepted" : "rejected"); if (ok && form) { l.make_stmts(); if ((int)l.ll_stmts.size() != want) r.fail("there are " + std::to_string(l.ll_stmts.size()) + " statements, expected " + std::to_string(want)); if (l.is_fixed_format() != (form == 2)) r.fail("is_fixed_format"); }
    if (how == 0 && !ty) { File_Type g = file_type_from_extension(x.name); if (g != (x.form == 1 ? File_Type::FREEFMT : x.form == 2 ? File_Type::FIXEDFMT : File_Type::UNKNOWN)) r.fail("file_type_from_extension"); } r.trace(); });
  // C: flpr-format
  std::vector<V> flags; for (int m = 0; m < 16; ++m) { V f; for (int b = 0; b < 4; ++b) if (m >> b & 1) f.push_back(std::string("-") + "cfio"[b]); flags.push_back(f); if (f.size() > 1) { std::string j = "-"; for (auto i = f.rbegin(); i != f.rend(); ++i) j += (*i)[1]; flags.push_back({j}); } }
  flags.push_back({"-q"}); flags.push_back({"-oq"}); flags.push_back({"-i", "-q"}); flags.push_back({"-v", "-i"}); flags.push_back({"-t", "-o"}); flags.push_back({"-e", "-o"});
  for (auto const &fl : flags) {
    std::string fs; for (auto const &f : fl) fs += " " + f; bool small = fl.size() <= 1 && (fl.empty() || fl[0].size() == 2);
    std::vector<std::string> single(n); bool have = false;
    seqs(small && r.thorough ? 3 : 2, n, [&](std::vector<size_t> const &v) { if (v.size() > 1 && !small && !r.thorough && (v[0] + v[1]) % 3) return;
      if (r.begin([&] { return "flpr-format" + fs + named(v); })) r.body([&] {
        if (!have) { have = true; for (size_t i = 0; i < n; ++i) { Dir d; d.put(F[i].name, F[i].text); single[i] = in_child([&] { if (chdir(d.path.c_str())) return 1; format_one(F[i].name, fl); return 0; }).text; } }
        Dir d; V a{"flpr-format"}; a.insert(a.end(), fl.begin(), fl.end()); std::string want; for (size_t i : v) { d.put(F[i].name, F[i].text); a.push_back(F[i].name); want += single[i]; }
        Out o = tool(d, "flpr_format", a); r.step(); if (o.code >= 1000) r.fail("killed by signal " + std::to_string(o.code - 1000)); if (o.text != want) r.fail("prints " + mc::show(o.text) + ", expected " + mc::show(want));
        for (size_t i : v) if (d.get(F[i].name) != F[i].text || d.get(std::string(F[i].name) + ".bak") != "\x01") r.fail("touches its input"); r.state(mc::hash(o.text)); r.trace(); }); }); }
  for (V a : {V{}, V{"-z"}, V{"-i"}, V{"-z", "free.f90"}}) if (r.begin([&] { return "flpr-format usage " + mc::show(a); })) r.body([&] { Dir d; d.put(F[0].name, F[0].text); V w{"flpr-format"}; w.insert(w.end(), a.begin(), a.end()); Out o = tool(d, "flpr_format", w); r.step(); if (o.code == 0 || o.code >= 1000 || !o.text.empty()) r.fail("is accepted"); r.trace(); });
  // C: parse_files
  std::vector<std::string> psingle(n); bool have = false;
  seqs(r.thorough ? 4 : 3, n, [&](std::vector<size_t> const &v) { for (int list = 0; list < 3; ++list) { if (list && v.size() > 2) continue; if (r.begin([&] { return std::string("parse_files") + (list ? list == 1 ? " -f" : " -f and names" : "") + named(v); })) r.body([&] {
    auto strip = [&](std::string s) { std::string e = "done.\n"; if (s.size() < e.size() || s.substr(s.size() - e.size()) != e) r.fail("does not finish: " + mc::show(s)); return s.substr(0, s.size() - e.size()); };
    if (!have) { have = true; for (size_t i = 0; i < n; ++i) { Dir d; d.put(F[i].name, F[i].text); psingle[i] = strip(tool(d, "parse_files", {"parse_files", F[i].name}).text); bool good = F[i].readable && (F[i].program && F[i].text.size() > 0); if (F[i].name == std::string("comments.f90")) good = false; if (F[i].readable && !good && F[i].program) continue; if (F[i].name == std::string("column.F")) continue; if ((psingle[i].find("FAILED") == std::string::npos) != good) r.fail(std::string(F[i].name) + ": " + psingle[i]); } }
    Dir d; V a{"parse_files"}; std::string want, names; for (size_t k = 0; k < v.size(); ++k) { size_t i = v[k]; d.put(F[i].name, F[i].text); want += psingle[i]; if (list == 1 || (list == 2 && k == 0)) names += std::string(F[i].name) + (k + 1 < v.size() || k % 2 ? "\n" : ""); else a.push_back(F[i].name); }
    if (list) { d.put("list", names); a.insert(a.begin() + 1, {"-f", "list"}); }
    Out o = tool(d, "parse_files", a); r.step(); if (o.code != 0) r.fail("ends with " + std::to_string(o.code)); if (strip(o.text) != want) r.fail("prints " + mc::show(o.text) + ", expected " + mc::show(want)); r.state(mc::hash(o.text)); r.trace(); }); } });
  // C: module
  std::vector<size_t> rd; for (size_t i = 0; i < n; ++i) if (F[i].readable) rd.push_back(i);
  seqs(r.thorough ? 4 : 3, rd.size(), [&](std::vector<size_t> const &w) { std::vector<size_t> v; for (size_t i : w) v.push_back(rd[i]); std::set<size_t> uniq(v.begin(), v.end()); if (uniq.size() != v.size()) return;
    for (int list = 0; list < 3; ++list) { if (list && v.size() > 2) continue; if (r.begin([&] { return std::string("module") + (list == 2 ? " -f (none)" : list ? " -f" : "") + named(v); })) r.body([&] {
      Dir d; V a{"module"}; if (list) { a.push_back("-f"); a.push_back("names"); d.put("names", list == 1 ? " bar\nFoo  baz\n\nqux" : "fooo\nfo oo"); } else a.push_back("foo"); a.push_back("mm"); for (size_t i : v) { d.put(F[i].name, F[i].text); a.push_back(F[i].name); }
      Out o = tool(d, "module", a); r.step(); if (o.code != 0) r.fail("ends with " + std::to_string(o.code));
      for (size_t i : v) { PF f = make({F[i].name, F[i].text, true, true, true}); FLPR_Module::Module_Action act("mm", {}); if (list != 2) act.add_subroutine_name("foo"); if (list == 1) act.add_subroutine_name("bar"); std::string want = F[i].text; bool ch = false; { std::istringstream is(F[i].text); PF g(is, F[i].name, 0); Procedure_Visitor vis(g, act); ch = vis.visit(); if (ch) want = written(g); }
        if (list == 0 && ch != F[i].change) r.fail(std::string(F[i].name) + (ch ? " changes" : " does not change")); if (d.get(F[i].name) != want) r.fail(std::string(F[i].name) + " becomes " + mc::show(d.get(F[i].name)) + ", expected " + mc::show(want)); if (d.get(std::string(F[i].name) + ".bak") != (ch ? F[i].text : "\x01")) r.fail("the backup of " + std::string(F[i].name)); r.state(mc::hash(want)); } r.trace(); }); } });
  for (size_t b = 0; b < n; ++b) if (!F[b].readable) for (size_t i : rd) if (r.begin([&] { return std::string("module ") + F[i].name + " " + F[b].name; })) r.body([&] { Dir d; d.put(F[i].name, F[i].text); d.put(F[b].name, F[b].text); Out o = tool(d, "module", {"module", "foo", "mm", F[i].name, F[b].name}); r.step(); if (o.code == 0 || o.code >= 1000) r.fail("an unreadable file is not reported"); if (d.get(F[b].name) != F[b].text) r.fail("an unreadable file is touched"); if ((d.get(F[i].name) != F[i].text) != F[i].change) r.fail("the file before is not treated"); r.trace(); });
  for (V a : {V{}, V{"foo"}, V{"foo", "mm"}, V{"-f", "x"}, V{"-f", "x", "mm"}, V{"-fx", "mm"}, V{"-x", "foo", "mm", "free.f90"}}) if (r.begin([&] { return "module usage " + mc::show(a); })) r.body([&] { Dir d; d.put(F[0].name, F[0].text); V w{"module"}; w.insert(w.end(), a.begin(), a.end()); Out o = tool(d, "module", w); r.step(); if (o.code == 0 || o.code >= 1000) r.fail("is accepted"); if (d.get(F[0].name) != F[0].text) r.fail("a file is touched"); r.trace(); });
  // C: flpr_show_cst
  std::vector<V> st{{"a = 1"}, {"a(i) = b%c * 2"}, {"call f(x)"}, {"if (a) b = 1"}, {"if (a) then"}, {"end"}, {"end if"}, {"do i = 1, 3"}, {"integer :: i"}, {"real, dimension(3) :: a, b"}, {"use m, only: x"}, {"write (*, *) a"}, {"goto 10"}, {"a => b"}, {"where (a) b = 1"}, {"subroutine s(a)"}, {"implicit none"}, {"allocate (a(3))"}, {"select case (x)"}, {"case default"}, {"format (i3)"}, {"x = )"}, {"a b c"}, {"call f(x, &", "  y)"}, {"return"}, {"contains"}, {"10 continue"}, {"character*4 c"}, {"type :: t"}, {"data x /1/"}};
  std::vector<std::string> sexp(st.size()); bool shave = false;
  seqs(r.thorough ? 3 : 2, st.size(), [&](std::vector<size_t> const &v) { for (int joined = 0; joined < 2; ++joined) { if (joined) { bool lab = false; for (size_t k = 1; k < v.size(); ++k) lab = lab || st[v[k]].size() > 1 || isdigit(st[v[k]][0][0]); for (size_t k = 0; k + 1 < v.size(); ++k) lab = lab || st[v[k]].size() > 1; if (lab || v.size() < 2) continue; }
    if (r.begin([&] { std::string s = joined ? "show_cst, one line:" : "show_cst:"; for (size_t i : v) s += " " + mc::show(st[i]); return s; })) r.body([&] {
      if (!shave) { shave = true; for (size_t i = 0; i < st.size(); ++i) sexp[i] = cst_one(st[i]); }
      Dir d; std::string in; for (size_t k = 0; k < v.size(); ++k) { if (joined) in += (k ? "; " : "") + st[v[k]][0]; else for (auto const &l : st[v[k]]) in += l + "\n"; } if (!v.empty() && v[0] % 2) in += (joined ? "\n" : "") + std::string("\nnonsense behind a blank line\n"); d.put("in", in); std::string p = d.path + "/in";
      Out o = tool(d, "flpr_show_cst", {"flpr_show_cst"}, p.c_str()); r.step(); if (o.code != 0) r.fail("ends with " + std::to_string(o.code));
      std::string rest = o.text; for (size_t i : v) { if (!sexp[i].empty()) { if (rest.compare(0, sexp[i].size(), sexp[i])) r.fail("for " + mc::show(st[i]) + " prints " + mc::show(rest) + ", expected " + mc::show(sexp[i])); rest.erase(0, sexp[i].size()); } else { if (rest.compare(0, 14, "Unrecognized: ")) r.fail("for " + mc::show(st[i]) + " prints " + mc::show(rest)); rest.erase(0, rest.find('\n') + 1); } }
      if (!rest.empty()) r.fail("also prints " + mc::show(rest)); r.state(mc::hash(o.text)); r.trace(); }); } });
  for (std::string in : {"", "\n", "a = 'x\n", "\na = 1\n"}) if (r.begin([&] { return "show_cst nothing: " + mc::show(in); })) r.body([&] { Dir d; d.put("in", in); std::string p = d.path + "/in"; Out o = tool(d, "flpr_show_cst", {"x"}, p.c_str()); r.step(); if (o.code == 0 || o.code >= 1000 || !o.text.empty()) r.fail("is accepted"); r.trace(); });
}
