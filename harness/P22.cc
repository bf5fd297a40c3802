// P22: client extensions: every statement of a bounded language under every
// registration, and every small program with extended statements.
#include "tree_check.hh"
#include "stmt_common.hh"
#include "flpr/Stmt_Parser_Exts.hh"
#include "flpr/parse_stmt.hh"
char const *const mc_property = "P22";
using namespace FLPR; using refs::Sent;
enum { CE = Syntax_Tags::CLIENT_EXTENSION };
// The extensions and what each accepts.
static Sent texts(TT_Stream &ts) { Sent s; auto m = ts.mark(); while (!ts.is_eol()) { s.push_back(ts.peek_tt().lower()); ts.consume(); } ts.rewind(m); return s; }
static bool name(std::string const &s) { return std::isalpha((unsigned char)s[0]); }
static bool pred(int e, Sent const &s) {
  switch (e) {
  case 0: return s.size() == 2 && s[0] == "zap" && name(s[1]);
  case 1: return !s.empty() && s[0] == "zap";
  case 3: return s.size() % 2 == 1 && (s[0] == "zip" || s[0] == "zap");
  case 4: { if (s.size() < 2 || s[0] != "print") return false; for (size_t i = 1; i < s.size(); ++i) if (i % 2 ? !name(s[i]) : s[i] != ",") return false; return s.size() % 2 == 0; }
  default: return false;
  }
}
static FLPR::Stmt::Stmt_Tree build(TT_Stream &ts, int tag) { // a flat tree of everything
  FLPR::Stmt::Stmt_Tree t{tag}; while (!ts.is_eol()) { int k = ts.peek(); if (Syntax_Tags::is_name(k)) k = Syntax_Tags::TK_NAME; FLPR::Stmt::hoist_back(t, FLPR::Stmt::Stmt_Tree{k, ts.digest(1)}); } FLPR::Stmt::cover_branches(*t); return t; }
template <int E> static FLPR::Stmt::Stmt_Tree ext(TT_Stream &ts) {
  if (E == 2) { ts.consume_until_eol(); return {}; }            // takes everything, then fails
  if (E == 5) { if (!ts.is_eol()) ts.consume(); return {}; }    // takes one token, then fails
  if (!pred(E, texts(ts))) { if (E == 1 && !ts.is_eol()) ts.consume(); return {}; }
  return build(ts, CE + E);
}
static FLPR::Stmt::Stmt_Tree print_ext(TT_Stream &ts) { // by the library's own combinators
  using namespace FLPR::Stmt; auto p = seq(CE + 4, tok(Syntax_Tags::KW_PRINT), list(Syntax_Tags::SG_OUTPUT_ITEM_LIST, FLPR::Stmt::name()), eol()); return p(ts).parse_tree; }
using Fn = FLPR::Stmt::Stmt_Tree (*)(TT_Stream &);
static Fn const fns[] = {&ext<0>, &ext<1>, &ext<2>, &ext<3>, &print_ext, &ext<5>}; enum { NE = 6 };
using Seq = std::vector<int>;
struct Config { Seq act, spec; };
static std::string show(Config const &c) { std::string s = "action"; for (int e : c.act) s += " " + std::to_string(e); s += " specification"; for (int e : c.spec) s += " " + std::to_string(e); return s; }
static void install(Config const &c) { auto &x = FLPR::Stmt::get_parser_exts(); x.clear(); for (size_t i = 0; i < std::max(c.act.size(), c.spec.size()); ++i) { if (i < c.act.size()) x.register_action_stmt(fns[c.act[i]]); if (i < c.spec.size()) x.register_other_specification_stmt(fns[c.spec[i]]); } }
static std::vector<Config> configs(size_t n) {
  std::vector<Config> v; std::function<void(Config, size_t)> go = [&](Config c, size_t left) {
    v.push_back(c); if (!left) return;
    if (c.spec.empty()) for (int e = 0; e < NE; ++e) if (!std::count(c.act.begin(), c.act.end(), e)) { Config d = c; d.act.push_back(e); go(d, left - 1); }
    for (int e = 0; e < NE; ++e) if (!std::count(c.spec.begin(), c.spec.end(), e)) { Config d = c; d.spec.push_back(e); go(d, left - 1); } };
  go({}, n); return v;
}
static std::string shape(FLPR::Stmt::Stmt_Tree::node const &n) { std::string s = std::to_string(n->syntag) + "/" + std::to_string(n->token_range.size()); if (n.branches().empty()) { s += ":"; for (auto const &t : n->token_range) s += t.text() + " "; } else { s += "("; for (auto const &b : n.branches()) s += shape(b) + " "; s += ")"; } return s; }
static std::string shape(FLPR::Stmt::Stmt_Tree const &t) { return t.empty() ? "none" : shape(*t); }
// which extension takes it, -1 none
static int taker(Seq const &q, Sent const &s) { for (int e : q) if (pred(e, s)) return e; return -1; }
struct Rule { Fn f; char const *name; };
static Rule const others[] = {{&FLPR::Stmt::assignment_stmt, "assignment"}, {&FLPR::Stmt::print_stmt, "print"}, {&FLPR::Stmt::end_do_stmt, "end-do"}, {&FLPR::Stmt::if_then_stmt, "if-then"}, {&FLPR::Stmt::use_stmt, "use"}, {&FLPR::Stmt::type_declaration_stmt, "declaration"}, {&FLPR::Stmt::continue_stmt, "continue"}, {&FLPR::Stmt::subroutine_stmt, "subroutine"}, {&FLPR::Stmt::save_stmt, "save"}};
static void statement(mc::Run &r, Sent const &s, std::vector<Config> const &cs) {
  sc::Scanned S(sc::spaced(s), s); r.step(); if (!S.ok) { r.count(3); return; }
  auto parse = [&](Fn f, int &left) { TT_Stream ts(*S.s); auto t = f(ts); left = ts.num_consumed(); r.step(); return shape(t); };
  struct Got { std::string t; int n; };
  auto look = [&](Fn f) { Got g; g.t = parse(f, g.n); return g; };
  FLPR::Stmt::get_parser_exts().clear();
  Got a0 = look(&FLPR::Stmt::action_stmt), o0 = look(&FLPR::Stmt::other_specification_stmt); std::vector<Got> x0; for (auto const &k : others) x0.push_back(look(k.f));
  std::string alone[2][NE]; // what the extension by itself makes of it
  for (int e = 0; e < NE; ++e) if (pred(e, s)) { TT_Stream ts(*S.s); auto t = fns[e](ts); if (t.empty()) r.fail("the harness's extension fails"); alone[0][e] = shape(t); }
  bool isif = s.size() > 4 && s[0] == "if" && s[1] == "(" && s[2] == "x" && s[3] == ")"; Sent inner; if (isif) inner.assign(s.begin() + 4, s.end());
  for (auto const &c : cs) {
    install(c); Got a = look(&FLPR::Stmt::action_stmt), o = look(&FLPR::Stmt::other_specification_stmt);
    auto judge = [&](char const *what, Got const &g, Got const &g0, Seq const &q, int tag) {
      if (g0.t != "none") { r.count(0); if (g.t != g0.t || g.n != g0.n) r.fail(show(c) + ": a standard " + what + " is parsed as " + g.t + " instead of " + g0.t); return; }
      int e = taker(q, s); std::string want = e < 0 ? "none" : std::to_string(tag) + "/" + std::to_string(S.s->size()) + "(" + alone[0][e] + " )";
      if (e >= 0) r.count(1); else r.count(2);
      if (isif && tag == Syntax_Tags::SG_ACTION_STMT) { // IF takes the extended statement
        TT_Stream ts(*S.s); ts.consume(4); auto t = FLPR::Stmt::action_stmt(ts); bool in = !t.empty() && ts.is_eol(); if (in != (g.t != "none")) r.fail(show(c) + ": an IF statement is " + g.t + " although its action is " + shape(t)); if (in && g.t.find(shape(t)) == std::string::npos) r.fail(show(c) + ": the action of an IF statement is parsed as " + g.t + " instead of " + shape(t)); return; }
      if (g.t != want) r.fail(show(c) + ": " + what + " is parsed as " + g.t + " instead of " + want);
      if (e < 0 && g.n != g0.n) r.fail(show(c) + ": a failed extension leaves the stream at token " + std::to_string(g.n) + " instead of " + std::to_string(g0.n)); };
    judge("action", a, a0, c.act, Syntax_Tags::SG_ACTION_STMT); judge("specification", o, o0, c.spec, Syntax_Tags::SG_OTHER_SPECIFICATION_STMT);
    for (size_t i = 0; i < x0.size(); ++i) { Got g = look(others[i].f); if (g.t != x0[i].t) r.fail(show(c) + ": changes a " + others[i].name + " statement"); }
    // through the statement: handed over, dropped, built again
    for (int k = 0; k < 2; ++k) { TT_Stream ts(*S.s); auto t = k ? FLPR::Stmt::other_specification_stmt(ts) : FLPR::Stmt::action_stmt(ts); if (t.empty()) continue; std::string w = shape(t); int inner_tag = t.ccursor().down(1)->syntag;
      S.s->set_stmt_tree(std::move(t)); int tag = S.s->syntax_tag(), want = k ? (int)Syntax_Tags::SG_OTHER_SPECIFICATION_STMT : inner_tag; if (tag != want) r.fail(show(c) + ": the statement is tagged " + Syntax_Tags::label(tag) + " instead of " + Syntax_Tags::label(want));
      if (S.s->stmt_tag(false) != tag) r.fail("stmt_tag()"); S.s->drop_stmt_tree(); auto const &again = S.s->stmt_tree(); r.step(); if (shape(again) != w) r.fail(show(c) + ": the dropped tree is built again as " + shape(again) + " instead of " + w); if (S.s->syntax_tag() != tag) r.fail(show(c) + ": the tag changes when the tree is built again");
      S.s->reset_stmt_tree(); }
    r.state(mc::hash(a.t + o.t));
  }
  FLPR::Stmt::get_parser_exts().clear(); if (look(&FLPR::Stmt::action_stmt).t != a0.t || look(&FLPR::Stmt::other_specification_stmt).t != o0.t) r.fail("clearing does not restore the standard language");
  r.trace();
}
// programs
static char const *const more = "econ = T:zap:action-stmt | T:ifzap:action-stmt\ndecln = T:zip:other-specification-stmt\nbdecl = T:zip:other-specification-stmt\n";
static void program(mc::Run &r, Lines const &src, std::string const &want, bool act, bool spec) { // want empty: not a program
  Config c; if (act) c.act = {2, 0}; if (spec) c.spec = {5, 3}; install(c); std::istringstream is(join(src)); std::ostringstream sink; auto *old = std::cerr.rdbuf(sink.rdbuf());
  tc::File f(is, "t.f90", 0); auto &t = f.parse_tree(); std::cerr.rdbuf(old); r.step();
  std::string got; bool ok = f;
  if (ok != !want.empty()) r.fail(show(c) + (ok ? ": accepted" : ": rejected"));
  if (ok) { tc::Checker k{r, f, {}}; int n = 0; for (auto &s : f.statements()) k.num[&s] = n++; got = tc::shape(*t, k.num); if (got != want) r.fail(show(c) + ": tree is " + got + " instead of " + want); k.walk(*t, t.cursor(), 0);
    for (auto &s : f.statements()) { int tag = s.syntax_tag(); std::string w = shape(s.stmt_tree()); s.drop_stmt_tree(); if (shape(s.stmt_tree()) != w || s.syntax_tag() != tag) r.fail(show(c) + ": a dropped statement tree is not built again"); } }
  FLPR::Stmt::get_parser_exts().clear(); r.state(mc::hash(got)); r.trace();
}
void explore(mc::Run &r) {
  for (int e = 0; e < NE; ++e) Syntax_Tags::register_ext(CE + e, e ? ("ext" + std::to_string(e) + "-stmt").c_str() : "zap-stmt", 5);
  // labels of registered and unregistered tags
  if (r.begin([&] { return std::string("tag labels"); })) r.body([&] { if (Syntax_Tags::label(CE) != std::string("zap-stmt") || Syntax_Tags::label(CE + 5) != std::string("ext5-stmt") || Syntax_Tags::type(CE + 3) != 5) r.fail("registered label"); if (Syntax_Tags::label(CE + 77) != std::string("<client-extension+77>")) r.fail("default label is " + Syntax_Tags::label(CE + 77)); if (!Syntax_Tags::label(Syntax_Tags::SG_CALL_STMT).compare("zap-stmt")) r.fail("standard label"); r.trace(); });
  auto few = configs(2), many = configs(3);
  // the extended language, and what is near it
  std::vector<std::string> al{"zap", "zip", "a", "x", "(", ")", "=", "print", ",", "if", "::", "end"};
  for (int len = 1; len <= (r.thorough ? 4 : 3); ++len) { std::vector<size_t> d((size_t)len, 0);
    for (;;) { auto mk = [&] { Sent s; for (auto i : d) s.push_back(al[i]); return s; };
      if (r.begin([&] { return "statement " + sc::spaced(mk()); })) r.body([&] { statement(r, mk(), len < 4 ? many : few); });
      if (r.begin([&] { return "statement if (x) " + sc::spaced(mk()); })) r.body([&] { Sent s{"if", "(", "x", ")"}; for (auto const &t : mk()) s.push_back(t); statement(r, s, few); });
      size_t k = 0; while (k < d.size() && ++d[k] == al.size()) d[k++] = 0; if (k == d.size()) break; } }
  // the standard language
  refs::Grammar g; sc::init(g); int deep = r.thorough ? 4 : 3;
  for (auto const &rule : g.order) if (sc::is_stmt_rule(rule)) g.derive(rule, deep, [&](refs::Toks const &t) { if (r.begin([&] { return rule + ": " + sc::spaced(refs::plain(t)); })) r.body([&] { statement(r, refs::plain(t), few); }); });
  // programs with extended statements, under each registration
  using V = std::vector<std::string>; struct Profile { char const *name; V terms; int quick, deep; };
  std::vector<Profile> ps{{"units", {"program", "end", "subroutine", "module", "contains", "moduleprocedure", "zap", "zip", "assign", "integer"}, 7, 8},
    {"constructs", {"subroutine", "end", "zap", "ifzap", "zip", "ifthen", "else", "endif", "doi", "enddo", "block", "endblock", "selectcase", "case", "endselect"}, 7, 8},
    {"specifications", {"module", "end", "interface", "endinterface", "subroutine", "zip", "zap", "use", "implicit", "integer", "type", "endtype", "save"}, 7, 8}};
  { refp::Grammar all({}, more); tc::tags(all); }
  for (auto const &p : ps) { refp::Grammar pg(p.terms, more); for (int n = 1; n <= (r.thorough ? p.deep : p.quick); ++n) { refp::Enumerator e(pg, [&](refp::Deriv const &d) {
    bool za = false, zi = false; for (int t : d.terms) { auto const &k = pg.terms[(size_t)t]; za = za || k == "zap" || k == "ifzap"; zi = zi || k == "zip"; }
    for (int m = 0; m < 4; ++m) if (r.begin([&] { return std::string(p.name) + " " + std::to_string(m) + ": " + mc::show(refp::source(d.terms, pg)); })) r.body([&] { bool ok = (!za || (m & 1)) && (!zi || (m & 2)); program(r, refp::source(d.terms, pg), ok ? refp::shape(d, pg) : "", m & 1, m & 2); }); }); e.run("program", n); } }
  // anything at all
  V any{"subroutine", "end", "zap", "zip", "integer", "assign", "doi", "enddo"}; refp::Grammar ag(any, more); refp::Recogniser rec(ag); std::vector<int> ids; for (auto const &k : any) ids.push_back(ag.term_id.at(k));
  for (int len = 1; len <= (r.thorough ? 7 : 6); ++len) { std::vector<size_t> d((size_t)len, 0);
    for (;;) { if (r.begin([&] { V s; for (auto i : d) s.push_back(refp::text.at(any[i])); return "any program " + mc::show(s); })) r.body([&] {
        std::vector<int> q; for (auto i : d) q.push_back(ids[i]); bool der = rec("program", q); std::string want; if (der) { refp::Enumerator e(ag, [&](refp::Deriv const &x) { want = refp::shape(x, ag); }); e.guide = &q; e.run("program", len); }
        program(r, refp::source(q, ag), want, true, true); });
      size_t k = 0; while (k < d.size() && ++d[k] == any.size()) d[k++] = 0; if (k == d.size()) break; } }
  // labelled loops that end in an extended statement
  for (int nest = 1; nest < 4; ++nest) for (auto const &t : {"zap a", "if (x > 1) zap a", "zap a b", "zip b c", "zap = 3"}) for (int m = 0; m < 4; ++m) if (r.begin([&] { return std::string("loop ending in ") + t + " " + std::to_string(nest) + std::to_string(m); })) r.body([&] {
    Lines v{"subroutine s"}; for (int i = 0; i < nest; ++i) v.push_back("do 10 i" + std::to_string(i) + " = 1, 2"); v.push_back(std::string("10 ") + t); v.push_back("end"); std::string x = t; bool ok = x == "zap = 3" || ((m & 1) && (x == "zap a" || x[0] == 'i'));
    Config c; if (m & 1) c.act = {5, 0}; if (m & 2) c.spec = {1, 3}; install(c); std::istringstream is(join(v)); std::ostringstream sink; auto *old = std::cerr.rdbuf(sink.rdbuf()); tc::File f(is, "t.f90", 0); f.parse_tree(); std::cerr.rdbuf(old); r.step(); FLPR::Stmt::get_parser_exts().clear();
    if (!!f != ok) r.fail(ok ? "rejected" : "accepted"); r.trace(); });
}
