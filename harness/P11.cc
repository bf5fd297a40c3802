// P11: the program tree of every well-formed program up to a size.
#include "mc.hh"
#include "src_util.hh"
#include "ref_prgm.hh"
#include "flpr/Parsed_File.hh"
#include "tree_check.hh"
char const *const mc_property = "P11";
using namespace FLPR;

using namespace tc;
static void check(mc::Run &r, Lines const &src, std::string const &want, bool compound) {
  std::string text = join(src); if (compound) { for (auto &c : text) if (c == '\n') c = ';'; text.back() = '\n'; }
  std::istringstream is(text); File f(is, "t.f90", 0);
  auto &t = f.parse_tree(); r.step();
  if (!f) r.fail("a well-formed program is rejected");
  Checker c{r, f, {}}; int n = 0; for (auto &s : f.statements()) c.num[&s] = n++;
  if (n != (int)src.size()) r.fail("statement list");
  std::string got = shape(*t, c.num);
  if (got != want + "") r.fail("tree is " + got + " instead of " + want);
  auto s = c.walk(*t, t.cursor(), 0); if (s.second != n) r.fail("the tree ends after statement " + std::to_string(s.second));
  if ((*t)->syntag() != Syntax_Tags::PG_PROGRAM) r.fail("root is not program");
  r.state(mc::hash(got)); r.trace();
}
void explore(mc::Run &r) {
  refp::Grammar all; tags(all);
  struct Profile { char const *name; std::vector<std::string> terms; int quick, deep; bool wrap; };
  using V = std::vector<std::string>;
  V unit{"program", "end", "endprogram", "endprogramp", "subroutine", "endsubroutine", "function", "endfunction", "module", "endmodule", "contains", "moduleprocedure", "endprocedure", "assign", "integer"};
  V ifs{"subroutine", "endsubroutine", "assign", "ifthen", "elseif", "else", "endif", "do", "enddo", "selectcase", "case", "endselect"};
  V cons{"subroutine", "endsubroutine", "call", "associate", "endassociate", "block", "integer", "endblock", "selectrank", "rank", "selecttype", "typeis", "classdefault", "endselect", "casedefault", "selectcase"};
  V arr{"subroutine", "endsubroutine", "assign", "where", "maskedelsewhere", "elsewhere", "endwhere", "wherestmt", "forall", "endforall", "forallstmt"};
  V atoms{"subroutine", "endsubroutine", "assign", "call", "if", "wherestmt", "forallstmt", "continue", "return", "format", "data", "entry", "do", "doi", "dowhile", "doconc", "enddo", "ifthen", "endif"};
  V spec{"subroutine", "endsubroutine", "use", "import", "implicit", "parameter", "format", "entry", "generic", "procdecl", "integer", "save", "private", "data", "assign"};
  V types{"module", "endmodule", "type", "endtype", "private", "sequence", "intkind", "integer", "contains", "tbprocedure", "generic", "final", "enum", "enumerator", "endenum"};
  V ifaces{"module", "endmodule", "interface", "endinterface", "subroutine", "endsubroutine", "function", "endfunction", "moduleprocedure", "integer", "use", "implicit", "end", "parameter"};
  V blocks{"subroutine", "endsubroutine", "block", "endblock", "use", "import", "integer", "save", "type", "endtype", "enum", "enumerator", "endenum", "interface", "endinterface", "assign", "do", "enddo"};
  std::vector<Profile> ps{{"units", unit, 7, 8, true}, {"if/do/case", ifs, 9, 10, false}, {"select/associate/block", cons, 9, 10, false}, {"where/forall", arr, 9, 10, false}, {"atoms", atoms, 7, 8, false}, {"specifications", spec, 7, 8, false}, {"types", types, 8, 9, false}, {"interfaces", ifaces, 8, 9, false}, {"blocks", blocks, 8, 9, true}, {"everything", {}, 5, 6, true}};
  for (auto const &p : ps) {
    refp::Grammar g(p.terms); int N = r.thorough ? p.deep : p.quick;
    for (int n = 1; n <= N; ++n) {
      refp::Enumerator e(g, [&](refp::Deriv const &d) {
        for (int compound = 0; compound < (p.wrap ? 2 : 1); ++compound)
          if (r.begin([&] { return std::string(p.name) + (compound ? " on one line: " : ": ") + mc::show(refp::source(d.terms, g)); })) r.body([&] { r.count(compound); check(r, refp::source(d.terms, g), refp::shape(d, g), compound); });
      });
      e.run("program", n);
    }
  }
}
