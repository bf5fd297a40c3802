// P10: re-indenting every small program, in every layout, by several tables.
#include "mc.hh"
#include "src_util.hh"
#include "ref_prgm.hh"
#include "ref_read.hh"
#include "flpr/Indent_Table.hh"
#include "flpr/Parsed_File.hh"
char const *const mc_property = "P10";
using namespace FLPR;
using File = Parsed_File<>;
static std::map<std::string, int> tagno;
struct Table { std::string name; Indent_Table t; };
static std::vector<Table> tables() {
  std::vector<Table> v(4);
  v[0].name = "emacs"; v[0].t.apply_emacs_indent();
  v[1].name = "constant 4"; v[1].t.apply_constant_indent(4);
  v[2].name = "fixed 5"; v[2].t.apply_constant_fixed_indent(5);
  v[3].name = "own"; int k = 1; // every construct another offset
  for (auto n : {"block", "execution-part", "specification-part", "derived-type-def", "enum-def", "case-construct", "where-body-construct", "internal-subprogram", "module-subprogram", "interface-specification", "block-specification-part", "forall-construct", "do-construct", "module", "implicit-part", "type-bound-procedure-part"}) v[3].t.set_indent(tagno.at(n), k++);
  v[3].t.set_continued_offset(0);
  return v;
}
// The offsets a table has to give: what its name and documentation say
static int offset(int table, std::string const &tag) {
  static std::map<std::string, int> const em{{"block", 3}, {"execution-part", 2}, {"interface-specification", 3}, {"internal-subprogram", 2}, {"module-subprogram", 2}, {"specification-part", 2}, {"where-body-construct", 3}, {"derived-type-def", 3}, {"enum-def", 3}, {"case-construct", 3}};
  if (table == 3) { int k = 1; for (auto n : {"block", "execution-part", "specification-part", "derived-type-def", "enum-def", "case-construct", "where-body-construct", "internal-subprogram", "module-subprogram", "interface-specification", "block-specification-part", "forall-construct", "do-construct", "module", "implicit-part", "type-bound-procedure-part"}) { if (tag == n) return k; ++k; } return 0; }
  auto it = em.find(tag); if (it == em.end()) return 0;
  if (table == 0) return it->second;
  if (table == 2 && (tag == "execution-part" || tag == "specification-part")) return 0;
  return table == 1 ? 4 : 5;
}
static int cont_offset(int table) { return table == 3 ? 0 : 5; }
static bool bracketed(std::string const &t) { return t == "derived-type-def" || t == "enum-def" || t == "case-construct"; }
// Expected columns of the statements of a derivation
static std::vector<int> columns(refp::Deriv const &d, int table) {
  std::vector<int> out, base; std::vector<std::string const *> open; std::vector<int> nth; int cur = 0;
  // last statement of a bracketed construct: the TERM just before its CLOSE
  for (size_t i = 0; i < d.ev.size(); ++i) {
    auto const &e = d.ev[i];
    if (e.k == refp::Ev::OPEN) { open.push_back(e.tag); base.push_back(cur); nth.push_back(0); if (!bracketed(*e.tag)) cur += offset(table, *e.tag); }
    else if (e.k == refp::Ev::CLOSE) { cur = base.back(); base.pop_back(); open.pop_back(); nth.pop_back(); }
    else {
      bool br = !open.empty() && bracketed(*open.back()), first = br && nth.back() == 0, last = br && d.ev[i + 1].k == refp::Ev::CLOSE && !first;
      if (last) cur = base.back();
      out.push_back(cur);
      if (first) { cur += offset(table, *open.back()); nth.back() = 1; }
    }
  }
  return out;
}
static std::string squash(std::string const &s) { std::string o; for (char c : s) if (!std::isspace((unsigned char)c)) o += c; return o; }
static std::string text_of(File const &f) { std::ostringstream os; for (auto const &l : f.logical_lines()) os << l; return os.str(); }
// cols: expected column of each statement line, in order (-1: any)
static void check(mc::Run &r, Lines const &src, bool fixed, int last, Table const &tb, int table, std::vector<int> const &cols) {
  refr::Prog a = refr::read(src, fixed, last);
  if (!a.ok) r.fail("harness: not a program: " + a.why);
  std::istringstream is(join(src)); File f(is, fixed ? "t.f" : "t.f90", last, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT);
  f.parse_tree(); if (!f) r.fail("a well-formed program is rejected");
  bool res = f.indent(tb.t); r.step(); std::string t1 = text_of(f); Lines w = split_lines(t1);
  if (w.size() != src.size()) r.fail("written as " + mc::show(w));
  bool past = false; // a line pushed over the last column is outside the domain
  for (size_t i = 0; i < w.size(); ++i) if (squash(w[i]) != squash(src[i])) { // text beyond the last column gets its '!'
      if (fixed && last > 0 && src[i].size() > (size_t)last) { std::string x = squash(w[i]); auto b = x.find('!'); if (b != std::string::npos) x.erase(b, 1); if (x == squash(src[i])) continue; }
      r.fail("line " + std::to_string(i + 1) + " " + mc::show(src[i]) + " is written as " + mc::show(w[i])); }
  (void)past;
  refr::Prog b = refr::read(w, fixed, last);
  if (!b.ok || b.items != a.items) r.fail("written as " + mc::show(w) + ", which reads " + refr::show(b) + " instead of " + refr::show(a));
  if (res != (w != src)) { bool bang = false; for (size_t i = 0; i < w.size(); ++i) bang = bang || squash(w[i]) != squash(src[i]); if (!bang) r.fail(res ? "reports a change and makes none" : "changes the text without saying so"); }
  // where things stand
  size_t k = 0; int at = -1, upto = -1; std::vector<refr::Item const *> wait;
  auto label_end = [&](refr::Item const &i) { size_t q = 0; auto const &s = w[(size_t)i.line]; while (q < s.size() && std::isspace((unsigned char)s[q])) ++q; while (q < s.size() && std::isdigit((unsigned char)s[q])) ++q; return (int)q; };
  for (auto const &i : b.items) {
    if (i.kind == 's') {
      int want = k < cols.size() ? cols[k] : -1; ++k; if (i.text.find_first_not_of("0123456789:; ") == std::string::npos && i.text.find(';') != std::string::npos) { --k; continue; } // an empty line of semicolons
      at = want; upto = i.last;
      for (auto c : wait) { int x = fixed && want == 5 ? 6 : want; auto const &l = w[(size_t)c->line]; if (fixed && l[0] != '!' && !std::isspace((unsigned char)l[0])) continue; if (want >= 0 && c->col != x) r.fail("comment " + mc::show(l) + " of a statement to be indented by " + std::to_string(want)); }
      wait.clear();
      if (want < 0) continue;
      int x = fixed ? 6 + want : want; if (!fixed && i.label) x = std::max(want, label_end(i) + 1);
      if (i.col != x) r.fail("statement " + mc::show(w[(size_t)i.line]) + " is to be indented by " + std::to_string(want));
      if (!fixed) for (int q = i.line + 1; q <= i.last; ++q) { auto const &l = w[(size_t)q]; size_t c = ref::firstnb(l); if (c < l.size() && l[c] != '&' && l[c] != '!' && (int)c != want + cont_offset(table)) r.fail("continuation " + mc::show(l) + " of a statement indented by " + std::to_string(want)); }
    } else if (i.kind == '!' && i.col < 100000) {
      if (i.line < upto) { int x = at + cont_offset(table); if (fixed && x == 5) x = 6; auto const &l = w[(size_t)i.line]; if (fixed && l[0] != '!' && !std::isspace((unsigned char)l[0])) continue; if (at >= 0 && i.col != x) r.fail("comment " + mc::show(l) + " inside a statement indented by " + std::to_string(at)); }
      else wait.push_back(&i);
    }
  }
  // labels stay in place
  { size_t j = 0; for (auto const &i : a.items) { auto const &o = b.items[j++]; if (i.kind == 's' && i.label && src[(size_t)i.line].find_first_not_of(" \t") != w[(size_t)o.line].find_first_not_of(" \t") && src[(size_t)i.line].find('\t') == std::string::npos) r.fail("the label of " + mc::show(src[(size_t)i.line]) + " moved in " + mc::show(w[(size_t)o.line])); } }
  // again
  if (f.indent(tb.t)) r.fail("indenting again reports a change of " + mc::show(w)); 
  if (text_of(f) != t1) r.fail("indenting again changes " + mc::show(w) + " to " + mc::show(split_lines(text_of(f))));
  std::istringstream is2(t1); File g(is2, fixed ? "t.f" : "t.f90", last, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT); g.parse_tree(); if (!g) r.fail("the indented program is rejected: " + mc::show(w));
  bool again = g.indent(tb.t); r.step(); if (again || text_of(g) != t1) r.fail("indenting the written text again changes " + mc::show(w) + " to " + mc::show(split_lines(text_of(g))));
  r.state(mc::hash(t1)); r.trace();
}
// does it parse?  (a failure is reported on std::cerr)
static bool quiet(File &f) { auto b = std::cerr.rdbuf(nullptr); f.parse_tree(); std::cerr.rdbuf(b); std::cerr.clear(); return bool(f); }
void explore(mc::Run &r) {
  for (int t = 0; t < Syntax_Tags::SG_ZZZ_UB; ++t) tagno[Syntax_Tags::label(t)] = t;
  auto const tabs = tables(); std::vector<int> T{0, 1, 2, 3};
  using V = std::vector<std::string>;
  // 1. every nesting of constructs
  struct Profile { char const *name; V terms; int quick, deep; };
  std::vector<Profile> ps{
    {"units", {"program", "endprogram", "subroutine", "endsubroutine", "function", "endfunction", "module", "endmodule", "contains", "moduleprocedure", "endprocedure", "end", "assign", "integer"}, 6, 7},
    {"if/do/case", {"subroutine", "endsubroutine", "assign", "ifthen", "elseif", "else", "endif", "do", "enddo", "selectcase", "case", "endselect"}, 7, 8},
    {"select/associate/block", {"subroutine", "endsubroutine", "call", "associate", "endassociate", "block", "integer", "endblock", "selectrank", "rank", "selecttype", "typeis", "endselect"}, 7, 8},
    {"where/forall", {"subroutine", "endsubroutine", "assign", "where", "maskedelsewhere", "elsewhere", "endwhere", "wherestmt", "forall", "endforall"}, 7, 8},
    {"types", {"module", "endmodule", "type", "endtype", "private", "sequence", "integer", "contains", "tbprocedure", "enum", "enumerator", "endenum"}, 7, 8},
    {"interfaces", {"module", "endmodule", "interface", "endinterface", "subroutine", "endsubroutine", "function", "endfunction", "moduleprocedure", "integer", "use", "implicit"}, 7, 8},
    {"everything", {}, 4, 5}};
  for (auto const &p : ps) {
    refp::Grammar g(p.terms); int N = r.thorough ? p.deep : p.quick;
    for (int n = 1; n <= N; ++n) {
      refp::Enumerator e(g, [&](refp::Deriv const &d) {
        if (r.begin([&] { return std::string(p.name) + ": " + mc::show(refp::source(d.terms, g)); })) r.body([&] {
          Lines s = refp::source(d.terms, g), v; for (size_t i = 0; i < s.size(); ++i) v.push_back(std::string(i * 7 % 11, ' ') + s[i]);
          Lines x; for (size_t i = 0; i < s.size(); ++i) x.push_back("      " + std::string(i * 7 % 11, ' ') + s[i]);
          for (int t : T) { r.note("table", tabs[(size_t)t].name); auto c = columns(d, t); check(r, v, false, 0, tabs[(size_t)t], t, c); if (t >= 2 || r.thorough) check(r, x, true, 72, tabs[(size_t)t], t, c); }
        });
      });
      e.run("program", n);
    }
  }
  // 2. every layout of the lines of nested programs.  @ = the statement's text, A|B = its two halves, % = token broken in two
  struct Skel { V terms; };
  std::vector<V> sk{{"subroutine", "integer", "ifthen", "assign", "else", "call", "endif", "endsubroutine"}, {"module", "type", "integer", "endtype", "contains", "subroutine", "selectcase", "case", "assign", "endselect", "endsubroutine", "endmodule"}, {"program", "do", "where", "assign", "endwhere", "block", "integer", "call", "endblock", "enddo", "contains", "function", "endfunction", "endprogram"}};
  struct Lay { std::vector<std::string> lines; bool act; };
  std::vector<Lay> FR{{{"@"}, false}, {{"          @"}, false}, {{"10 @"}, false}, {{"  99999   @ ! c"}, false}, {{"@ ! c"}, false}, {{"               @          ! c"}, false}, {{"A &", "B"}, false}, {{"A & ! p", " & B ! q"}, false}, {{"      %1&", "         &%2"}, false}, {{"A&! p", "! mid", "", "                 B     ! q"}, false}, {{"! c", "@"}, false}, {{"      ! deep", "", "#if X", "@", "#endif"}, false}, {{"!c1", "  include 'f'", "!        c2", "@"}, false}, {{"@; x = 2 ; y = 3"}, true}, {{"s = 'a &", "   & b ! ' // ''; @"}, true}, {{"77 s = \"&", " &  \" &", "! \" c", "   // 'x' ! d"}, true}, {{"    @;"}, false}, {{"!#flpr f9 literal", " ! keep", "   x", "!#flpr f9 literal", "@"}, false}, {{"!$omp p", "\t@"}, false}, {{";", "! e", "@"}, false}, {{"10 &", "  @"}, false}, {{"  20 & ! c", "", "! d", " & @ ! e"}, false}};
  std::vector<Lay> FX{{{"      @"}, false}, {{"             @"}, false}, {{"10    @"}, false}, {{"  99    @ ! c"}, false}, {{"     0@"}, false}, {{"      @ ! c"}, false}, {{"      A", "     &B"}, false}, {{"         A ! p", "     1 B       ! q"}, false}, {{"      %1", "     +%2"}, false}, {{"      A ! p", "C mid ! x", "! mid2", "", "*  mid3", "     !   B"}, false}, {{"c up ! x", "      @"}, false}, {{"!      d", "        ! e", "#if X", "      @", "#endif"}, false}, {{"      include 'f'", "* c2", "      @"}, false}, {{"      @; x = 2 ; y = 3"}, true}, {{"      s = 'a ", "     & b ! ' // '';@"}, true}, {{"\t@"}, false}, {{"5\t@"}, false}, {{"      x = 2                                                             SEQ00010"}, true}, {{"         x = 2                                                          & X", "     &   + 1                                                            !"}, true}, {{"123   x = 'a'                                                           &", "     & // b"}, true}};
  for (size_t s = 0; s < sk.size(); ++s) {
    refp::Grammar g(sk[s]); refp::Deriv found; bool have = false; std::vector<int> want; for (auto const &t : sk[s]) want.push_back(g.term_id.at(t));
    refp::Enumerator e(g, [&](refp::Deriv const &d) { if (!have && d.terms == want) { found = d; have = true; } }); e.guide = &want; e.run("program", (int)want.size());
    if (!have) { fprintf(stderr, "no derivation of skeleton %zu\n", s); _exit(3); }
    Lines txt = refp::source(want, g); size_t n = txt.size();
    for (int fixed = 0; fixed < 2; ++fixed) {
      auto const &LA = fixed ? FX : FR;
      auto lay = [&](size_t slot, size_t k, Lines &out, std::vector<int> &map) {
        std::string t = txt[slot]; size_t sp = t.find_first_of(" ("); std::string A = t, B; if (sp != std::string::npos) { A = t.substr(0, sp); B = t.substr(sp); if (!fixed && B[0] == ' ') B.erase(0, 1); }
        size_t first = 0;
        for (auto l : LA[k].lines) {
          auto rep = [&](char const *p, std::string const &x) { size_t q = l.find(p); if (q != std::string::npos) l.replace(q, strlen(p), x); };
          if (l.find('%') != std::string::npos) { rep("%1", t.substr(0, 3)); rep("%2", t.substr(3)); }
          else if (l.find('@') != std::string::npos) rep("@", t); else if (l.find('A') != std::string::npos && LA[k].lines.size() > 1 && l.find_first_not_of(" ") == l.find('A')) rep("A", A);
          else { size_t q = l.find('B'); if (q != std::string::npos) { l.replace(q, 1, B); if (B.empty()) l = fixed ? "c" : (q + 1 < l.size() ? l : "!"); } }
          out.push_back(l); ++first; }
        map.push_back((int)slot);
      };
      auto usable = [&](size_t slot, size_t k) { if (LA[k].act) return sk[s][slot] == "assign" && txt[slot] == "x = 1" && !(s == 2 && slot == 3); std::string const &t = txt[slot]; bool two = t.find_first_of(" (") != std::string::npos; for (auto const &l : LA[k].lines) if ((l.find("A") == l.find_first_not_of(" ") && l.find('A') != std::string::npos) && !two) return false; for (auto const &l : LA[k].lines) if (l.find("%") != std::string::npos && t.size() < 5) return false; return true; };
      auto run = [&](std::vector<std::pair<size_t, size_t>> const &dec) {
        for (auto const &d : dec) if (!usable(d.first, d.second)) return;
        auto build = [&] { Lines v; std::vector<int> m; for (size_t i = 0; i < n; ++i) { size_t k = 0; for (auto const &d : dec) if (d.first == i) k = d.second; lay(i, k, v, m); } return v; };
        if (r.begin([&] { return std::string(fixed ? "fixed " : "free ") + mc::show(build()); })) r.body([&] {
          Lines v = build(); r.note("lines", mc::show(v));
          for (int t : r.thorough ? T : fixed ? std::vector<int>{2, 3} : std::vector<int>{0, 3}) { r.note("table", tabs[(size_t)t].name); check(r, v, fixed, fixed ? 72 : 0, tabs[(size_t)t], t, columns(found, t)); } });
      };
      std::set<size_t> const k3{2, 3, 8, 9, 11, 12, 13};
      run({});
      for (size_t i = 0; i < n; ++i) for (size_t a = 1; a < LA.size(); ++a) { run({{i, a}});
        for (size_t j = i + 1; j < n; ++j) for (size_t b = 1; b < LA.size(); ++b) { run({{i, a}, {j, b}});
          if (r.thorough && k3.count(a) && k3.count(b)) for (size_t k = j + 1; k < n; ++k) for (size_t c : k3) run({{i, a}, {j, b}, {k, c}}); } }
    }
  }
  // 3. loops ended by labels: whatever the nesting, only blanks change
  V L{"do 10 i = 1, n", "do 20 j = 1, n", "x = 1", "10 continue", " 20   y = 2", "20 end do", "do k = 1, n", "end do", "if (x > 1) then", "end if", "! c"};
  for (size_t len = 1; len <= (r.thorough ? 6u : 5u); ++len) { std::vector<size_t> ix(len, 0);
    for (;;) {
      auto build = [&](bool fixed) { Lines v; v.push_back(fixed ? "      subroutine s" : "subroutine s"); for (auto i : ix) { std::string t = L[i]; if (fixed) { if (t[0] == '!') t = "! c"; else { size_t q = t.find_first_not_of("0123456789 "); std::string lab; for (char c : t.substr(0, q)) if (c != ' ') lab += c; t = lab + std::string(6 - lab.size(), ' ') + t.substr(q); } } v.push_back(t); } v.push_back(fixed ? "      end" : "end"); return v; };
      if (r.begin([&] { return mc::show(build(false)); })) r.body([&] {
        for (int fixed = 0; fixed < 2; ++fixed) { Lines v = build(fixed); { std::istringstream is(join(v)); File f(is, "t", 72, fixed ? File_Type::FIXEDFMT : File_Type::FREEFMT); if (!quiet(f)) { r.count(0); continue; } }
          for (int t : T) check(r, v, fixed, fixed ? 72 : 0, tabs[(size_t)t], t, {}); } });
      size_t k = 0; while (k < len && ++ix[k] == L.size()) ix[k++] = 0;
      if (k == len) break; } }
  // 4. lines that have no room for their indent
  for (size_t room : {0u, 7u}) for (int t : {0, 2}) {
    Lines v{"      subroutine s", "      do i = 1, n", "      x = " + std::string(62 - room, 'y'), "      end do", "      end"};
    if (r.begin([&] { return "no room: " + mc::show(v) + " by " + tabs[(size_t)t].name; })) r.body([&] {
      refr::Prog a = refr::read(v, true, 72); std::istringstream is(join(v)); File f(is, "t.f", 72, File_Type::FIXEDFMT); f.parse_tree(); f.indent(tabs[(size_t)t].t); r.step();
      Lines w = split_lines(text_of(f)); refr::Prog b = refr::read(w, true, 72);
      if (!b.ok || b.items != a.items) r.fail("a statement is moved over the last column: " + mc::show(w), "past-last-column:" + std::to_string(room) + ":" + std::to_string(t));
      r.trace(); }); }
}
