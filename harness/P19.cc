// P19: visiting the procedures of every small program.
#include "mc.hh"
#include "src_util.hh"
#include "ref_proc.hh"
#include "flpr/Parsed_File.hh"
#include "flpr/Procedure_Visitor.hh"
char const *const mc_property = "P19";
using namespace FLPR;
using File = Parsed_File<>;
struct Act {
  mc::Run &r; std::map<LL_Stmt const *, int> num; unsigned mask; File *file; std::string log; int calls = 0;
  bool operator()(File &f, File::Parse_Tree::cursor_t c, bool internal, bool module) {
    if (&f != file) r.fail("the action gets another file");
    auto &sr = c->stmt_range(); int b = sr.empty() ? -1 : num.at(&*sr.begin());
    log += Syntax_Tags::label(c->syntag()) + "@" + std::to_string(b) + "+" + std::to_string(sr.size()) + (internal ? " internal" : "") + (module ? " module" : "") + "; ";
    return mask >> calls++ & 1;
  }
};
// An internal procedure has no internal procedures of its own in Fortran, so such programs are left out.
static bool too_deep(std::vector<refp::Proc> const &ps) {
  for (auto const &a : ps) if (a.internal) for (auto const &b : ps) if (b.first > a.first && b.last < a.last) return true;
  return false;
}
static void check(mc::Run &r, Lines const &src, std::vector<refp::Proc> const &ps, bool compound) {
  std::string text = join(src); if (compound) { for (auto &c : text) if (c == '\n') c = ';'; text.back() = '\n'; }
  std::string want; for (auto const &p : ps) want += p.tag + "@" + std::to_string(p.first) + "+" + std::to_string(p.last - p.first + 1) + (p.internal ? " internal" : "") + (p.module ? " module" : "") + "; ";
  size_t n = ps.size(); std::vector<unsigned> masks; if (n <= 4) for (unsigned m = 0; m < 1u << n; ++m) masks.push_back(m); else { masks = {0, ~0u}; for (size_t i = 0; i < n; ++i) masks.push_back(1u << i); }
  std::istringstream is(text); File f(is, "t.f90", 0);
  for (bool prefetch : {false, true}) { // the tree is built on demand
    std::istringstream is2(text); File g(is2, "t.f90", 0); if (prefetch) g.parse_tree();
    Act a{r, {}, 0, &g, "", 0}; if (prefetch) { int k = 0; for (auto &s : g.statements()) a.num[&s] = k++; } else { int k = 0; for (auto &s : g.statements()) a.num[&s] = k++; }
    Procedure_Visitor<File, Act> v(g, a); bool res = v.visit(); r.step(); if (res) r.fail("reports a change"); if (a.log != want) r.fail("visits " + a.log + " instead of " + want); }
  std::map<LL_Stmt const *, int> num; { int k = 0; for (auto &s : f.statements()) num[&s] = k++; }
  for (unsigned m : masks) {
    Act a{r, num, m, &f, "", 0}; Procedure_Visitor<File, Act> v(f, a); bool res = v.visit(); r.step();
    if (a.log != want) r.fail("visits " + a.log + " instead of " + want);
    unsigned used = n >= 32 ? m : m & ((1u << n) - 1); if (res != (used != 0)) r.fail(std::string("reports ") + (res ? "a change" : "no change") + " when the actions say " + std::to_string(used));
  }
  r.state(want); r.trace();
}
void explore(mc::Run &r) {
  using V = std::vector<std::string>;
  struct Profile { char const *name; V terms; int quick, deep; };
  std::vector<Profile> ps{
    {"units", {"program", "end", "endprogramp", "subroutine", "endsubroutine", "function", "endfunction", "module", "endmodule", "contains", "moduleprocedure", "endprocedure", "assign", "integer"}, 7, 8},
    {"terse", {"program", "end", "subroutine", "function", "module", "contains", "moduleprocedure", "assign"}, 8, 10},
    {"nested", {"module", "endmodule", "contains", "subroutine", "endsubroutine", "moduleprocedure", "endprocedure"}, 12, 15},
    {"interfaces", {"module", "endmodule", "program", "endprogram", "interface", "endinterface", "subroutine", "endsubroutine", "moduleprocedure", "contains", "type", "tbprocedure", "endtype"}, 8, 9},
    {"execution", {"subroutine", "endsubroutine", "use", "implicit", "integer", "assign", "block", "endblock", "do", "enddo", "contains", "function", "endfunction"}, 7, 8}};
  for (auto const &p : ps) { refp::Grammar g(p.terms); int N = r.thorough ? p.deep : p.quick;
    for (int n = 1; n <= N; ++n) { refp::Enumerator e(g, [&](refp::Deriv const &d) {
      for (int compound = 0; compound < 2; ++compound) if (r.begin([&] { return std::string(p.name) + (compound ? " on one line: " : ": ") + mc::show(refp::source(d.terms, g)); })) r.body([&] { auto ps = refp::procedures(d, g); if (too_deep(ps)) { r.count(0); return; } check(r, refp::source(d.terms, g), ps, compound); }); });
      e.run("program", n); } }
  // no program at all
  for (auto t : {"", "\n", "! c\n", "#if x\n", "\n! c\n\n#endif\n"}) if (r.begin([&] { return std::string("empty file ") + mc::show(std::string(t)); })) r.body([&] { std::istringstream is{std::string(t)}; File f(is, "t.f90", 0); Act a{r, {}, ~0u, &f, "", 0}; Procedure_Visitor<File, Act> v(f, a); if (v.visit() || a.calls) r.fail("visits something"); r.trace(); });
}
