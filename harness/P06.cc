// P06: the statement sequence of every file over an alphabet of line units.
#include "mc.hh"
#include "src_util.hh"
#include "ref_lex.hh"
#include "flpr/LL_Stmt_Src.hh"
#include <list>
char const *const mc_property = "P06";
using namespace FLPR;

struct Unit { Lines lines; int label; std::string code; }; // code: statement text of the whole logical line, "" if none
using Stmts = std::vector<std::string>;
static Stmts stmts_of(std::string const &code) {
  Stmts v; std::string cur;
  for (auto const &t : ref::lex(code).t) { if (t.kind == Syntax_Tags::TK_SEMICOLON) { if (!cur.empty()) v.push_back(cur); cur.clear(); } else cur += std::to_string(t.kind) + ":" + t.text + " "; }
  if (!cur.empty()) v.push_back(cur);
  return v;
}
static std::string text_of(LL_Stmt const &s) { std::string o; for (auto const &t : s) o += std::to_string(t.token) + ":" + t.text() + " "; return o; }

template <typename Seq> static void compare(mc::Run &r, Logical_File &f, std::vector<Unit const *> const &us, Seq &seq, char const *who) {
  auto bad = [&](std::string const &m) { r.fail(std::string(who) + ": " + m); };
  // every physical line in exactly one logical line, in order
  std::vector<LL_SEQ::iterator> owner{f.lines.end()};
  for (auto li = f.lines.begin(); li != f.lines.end(); ++li) for (auto const &fl : li->layout()) { if (fl.linenum != (int)owner.size()) bad("physical lines out of order"); owner.push_back(li); }
  auto flat = [&](LL_Stmt &s) { std::vector<int> v; for (auto const &l : s.prefix_lines) for (auto const &fl : l->layout()) v.push_back(fl.linenum); return v; };
  auto si = seq.begin(); std::vector<int> pending; int nstmt = 0; int at = 1;
  for (auto const *u : us) {
    auto want = stmts_of(u->code);
    if (at + u->lines.size() > owner.size()) bad("missing physical lines");
    if (want.empty()) { for (size_t k = 0; k < u->lines.size(); ++k, ++at) if (!owner[at]->suppress) pending.push_back(at); if (!owner[at - 1]->stmts().empty()) bad("statements found on line " + std::to_string(at - 1)); continue; }
    auto li = owner[at];
    if (li->layout().size() != u->lines.size() || li->start_line() != at) bad("logical line of " + mc::show(u->lines) + " has other lines");
    at += u->lines.size();
    if (li->is_compound() != (want.size() > 1)) bad("is_compound()");
    int semis = 0; for (auto const &t : ref::lex(u->code).t) semis += t.kind == Syntax_Tags::TK_SEMICOLON;
    if (li->num_semicolons() != semis || li->has_empty_statements() != (semis > 0 && semis >= (int)want.size())) bad("empty-statement report of " + mc::show(u->lines));
    for (size_t k = 0; k < want.size(); ++k, ++si, ++nstmt) {
      std::string id = "statement " + std::to_string(nstmt + 1);
      if (si == seq.end()) bad(id + " (" + want[k] + ") is missing");
      LL_Stmt &s = *si;
      if (text_of(s) != want[k]) bad(id + " is " + text_of(s) + " instead of " + want[k]);
      if (s.it() != li) bad(id + " belongs to the wrong line");
      if (s.label() != (k == 0 ? u->label : 0) || s.has_label() != (k == 0 && u->label > 0)) bad(id + " has label " + std::to_string(s.label()));
      if (s.is_compound() != (want.size() > 1 ? (int)k + 1 : 0)) bad(id + " has compound number " + std::to_string(s.is_compound()));
      std::vector<int> wp; if (k == 0) wp.swap(pending);
      if (flat(s) != wp) bad(id + " owns " + std::to_string(flat(s).size()) + " prefix lines instead of " + std::to_string(wp.size()) + ", or other ones");
      if (s.prefix_ll_begin() != (wp.empty() ? li : owner[wp.front()]) || (s.prefix_ll_end() != li && !(wp.size() && std::next(owner[wp.back()]) != li))) bad(id + ": prefix range");
    }
  }
  if (at != (int)owner.size()) bad("extra physical line");
  if (si != seq.end()) bad("extra statement: " + text_of(*si));
}

void explore(mc::Run &r) {
  std::vector<Unit> freeu{
    {{""}, 0, ""}, {{"  "}, 0, ""}, {{"! c; d"}, 0, ""}, {{"#if X;Y"}, 0, ""}, {{"#define A \\", "B; C"}, 0, ""}, {{"!#flpr x;y"}, 0, ""}, {{" include 'f;g'"}, 0, ""},
    {{"a = 1"}, 0, "a = 1"}, {{"10 b = 2"}, 10, "b = 2"}, {{"c = 3; d = 4"}, 0, "c = 3; d = 4"}, {{"20 e; f ;g"}, 20, "e; f ;g"}, {{"h;"}, 0, "h;"}, {{"; i"}, 0, "; i"},
    {{";;"}, 0, ";;"}, {{" j ; ; k"}, 0, "j ; ; k"}, {{"l = &", "! in; side", "", "  m; n"}, 0, "l = m; n"}, {{"o &", " & = 'x;y' ; p"}, 0, "o = 'x;y' ; p"}, {{"30 q = 'a&", "  ! z", "&;b'; r ! s; t"}, 30, "q = 'a;b'; r"},
    {{"u; v&", "&w;"}, 0, "u; vw;"}, {{"99999 if(a)b;c"}, 99999, "if(a)b;c"}};
  std::vector<Unit> fixu{
    {{""}, 0, ""}, {{"C c; d"}, 0, ""}, {{"      ! x;"}, 0, ""}, {{"#if X;Y"}, 0, ""}, {{"      a = 1"}, 0, "a = 1"}, {{"   10 b = 2"}, 10, "b = 2"}, {{"      c = 3; d = 4"}, 0, "c = 3; d = 4"},
    {{"20    e; f ;g"}, 20, "e; f ;g"}, {{"      h;"}, 0, "h;"}, {{"      ;;"}, 0, ";;"}, {{"      l =", "c in; side", "", "     &  m; n"}, 0, "l = m; n"}, {{"      u; v", "     1w;"}, 0, "u; vw;"},
    {{" 30   p ! s; t", "     x = 4;q"}, 30, "p = 4;q"}};
  auto run = [&](std::vector<Unit> const &A, bool fixed, int maxlen) {
    std::vector<int> ix;
    std::function<void()> rec = [&] {
      std::vector<Unit const *> us; Lines v; for (int i : ix) { us.push_back(&A[i]); v.insert(v.end(), A[i].lines.begin(), A[i].lines.end()); }
      if (r.begin([&] { return std::string(fixed ? "fixed " : "free ") + mc::show(v); })) r.body([&] {
        Logical_File f; if (!v.empty() && !(fixed ? scan_fixed(f, v) : scan_free(f, v))) r.fail("scan reports failure");
        f.make_stmts(); r.step(); compare(r, f, us, f.ll_stmts, "make_stmts");
        std::list<LL_Stmt> direct; LL_Stmt_Src src(f.lines, false); while (src.advance()) direct.push_back(src.move()); compare(r, f, us, direct, "statement source");
        f.make_stmts(); r.step(); compare(r, f, us, f.ll_stmts, "make_stmts repeated");
        // lines without statements that are marked as suppressed belong to nobody
        int triv = 0; for (auto const &l : f.lines) triv += l.stmts().empty();
        for (int mode = 0; mode < (triv > 1 ? 3 : triv); ++mode) {
          int k = 0; for (auto &l : f.lines) if (l.stmts().empty()) { l.suppress = mode == 0 || k % 2 == mode - 1; ++k; }
          f.make_stmts(); r.step(); compare(r, f, us, f.ll_stmts, "make_stmts with suppressed lines");
        }
        r.state(join(v)); r.trace(2);
      });
      if ((int)ix.size() < maxlen) for (size_t i = 0; i < A.size(); ++i) { ix.push_back(i); rec(); ix.pop_back(); }
    };
    rec();
  };
  run(freeu, false, r.thorough ? 5 : 4);
  run(fixu, true, r.thorough ? 5 : 4);
}
