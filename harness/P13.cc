// P13: each statement is recognised as the kind the grammar gives it.
#include "mc.hh"
#include <set>
#include "stmt_common.hh"
char const *const mc_property = "P13";
using namespace FLPR; using namespace sc;
struct Judge {
  refs::Grammar const &g; refs::Recogniser strict, lenient; std::vector<std::string> actions, others;
  explicit Judge(refs::Grammar const &g) : g{g}, strict{g, false}, lenient{g, true} {}
  // must: the kind this sequence was derived from
  std::vector<char> took;   // what the previous writing of the same tokens was taken for
  void operator()(mc::Run &r, refs::Sent const &s, std::string const &text, char const *must, bool again = false) {
    r.note(must ? must : "changed", text);
    Scanned sc(text, s); r.step();
    if (!sc.ok) { if (must) r.fail("the tokens of the statement are not found"); else r.count(3); return; }
    strict.set(s); lenient.set(s); std::string acc;
    took.resize(kinds.size());
    for (auto const &k : kinds) { size_t ki = (size_t)(&k - kinds.data()); if (again && !took[ki] && (!must || strcmp(must, k.name))) continue;
      TT_Stream ts(*sc.s); Stmt_Tree t = k.f(ts); r.step(); bool got = static_cast<bool>(t); took[ki] = got;
      bool may = lenient.whole(k.rule), shall = strict.whole(k.rule);
      if (must && std::string(must) == k.name && !shall) r.fail(std::string("reference: ") + must);
      if (got && !may) r.fail(std::string(k.name) + " accepts what is no such statement", std::string("accepts:") + k.name);
      if (!got && shall) r.fail(std::string(k.name) + " does not accept its statement", std::string("rejects:") + k.name);
      if (!got && ts.num_consumed() != 0) r.fail(std::string(k.name) + " fails without putting the tokens back");
      if (got && ts.num_consumed() != (int)sc.s->size()) r.fail(std::string(k.name) + " succeeds after " + std::to_string(ts.num_consumed()) + " of " + std::to_string(sc.s->size()) + " tokens");
      if (got) { r.count(1); acc += k.name; acc += ','; if ((*t)->syntag != k.tag) r.fail(std::string(k.name) + " reports " + Syntax_Tags::label((*t)->syntag)); }
      if (got != may) r.count(2);
      if (k.tag >= 0 && (got || must)) { TT_Stream t2(*sc.s); std::cerr.setstate(std::ios::failbit); Stmt_Tree d = Stmt::parse_stmt_dispatch(k.tag, t2); std::cerr.clear(); if (static_cast<bool>(d) != got) r.fail(std::string("parse_stmt_dispatch disagrees for ") + k.name); }
      if (got && !strcmp(k.name, "action_stmt")) inside(r, t, "action_stmt", s, true);
      if (got && !strcmp(k.name, "other_specification_stmt")) inside(r, t, "other_specification_stmt", s, false);
    }
    r.state(acc); r.trace();
  }
  // the kind reported by one of the catch-all rules
  void inside(mc::Run &r, Stmt_Tree &t, char const *what, refs::Sent const &s, bool action) {
    if (t->num_branches() != 1) { r.fail(std::string(what) + ": not one statement inside"); return; }
    std::string kind = Syntax_Tags::label((*t->branches().begin())->syntag); for (char &c : kind) if (c == '-') c = '_';
    auto i = g.rule.find(kind);
    if (i == g.rule.end() || !lenient.whole(i->second)) r.fail(std::string(what) + " reports " + kind);
    if (action && !Stmt::is_action_stmt((*t->branches().begin())->syntag)) r.fail("is_action_stmt denies " + kind);
    if (action && kind == "macro_stmt") for (auto const &k : kinds) if (k.name != kind && strcmp(k.name, "action_stmt") && g_action(k.name) && strict.whole(k.rule)) r.fail(std::string("a ") + k.name + " is taken for a macro");
    (void)s;
  }
  static bool g_action(std::string const &k) { static char const *const no[] = {"allocate_stmt", "assignment_stmt", "backspace_stmt", "call_stmt", "close_stmt", "computed_goto_stmt", "continue_stmt", "cycle_stmt", "deallocate_stmt", "endfile_stmt", "error_stop_stmt", "event_post_stmt", "event_wait_stmt", "exit_stmt", "fail_image_stmt", "flush_stmt", "form_team_stmt", "forall_stmt", "goto_stmt", "if_stmt", "inquire_stmt", "lock_stmt", "nullify_stmt", "open_stmt", "pointer_assignment_stmt", "print_stmt", "read_stmt", "return_stmt", "rewind_stmt", "stop_stmt", "sync_all_stmt", "sync_images_stmt", "sync_memory_stmt", "sync_team_stmt", "unlock_stmt", "wait_stmt", "where_stmt", "write_stmt", "arithmetic_if_stmt"}; for (auto x : no) if (k == x) return true; return false; }
};
// A name may be spelled like two keywords run together
static void joined_names(mc::Run &r, Judge &judge, refs::Toks const &t, char const *must) {
  for (size_t i = 0; i < t.size(); ++i) if (t[i].slot == refs::NAME || t[i].slot == refs::TNAME) for (auto const &j : ref::joined) {
    refs::Sent s = refs::plain(t); s[i] = std::string(j.a) + j.b; std::string text = spaced(s); r.note(must, text);
    judge.strict.set(s); judge.lenient.set(s); Scanned sc(text, s); r.step(); if (!sc.ok) { r.count(3); continue; }
    for (auto const &k : kinds) {
      TT_Stream ts(*sc.s); bool got = static_cast<bool>(k.f(ts)); r.step();
      if (!got && k.name == std::string(must)) r.fail("the name " + s[i] + " is taken for two keywords", "joined-name:" + s[i]);
    }
    r.count(0);
  }
  r.trace();
}
void explore(mc::Run &r) {
  refs::Grammar g; init(g); Judge judge(g);
  std::vector<std::string> al = alphabet, few{"(", ")", ",", ":", "=", "a"};
  int deep = r.thorough ? 6 : 4, mid = r.thorough ? 3 : 2;
  for (auto const &rule : g.order) if (is_stmt_rule(rule)) {
    char const *must = rule.c_str();
    g.derive(rule, deep, [&](refs::Toks const &t) {
      if (r.begin([&] { return rule + ": " + spaced(refs::plain(t)); })) r.body([&] { r.count(0); auto s = refs::plain(t); judge(r, s, spaced(s), must); judge(r, s, upper(s), must, true); judge(r, s, tight(s), must, true); });
    });
    g.derive(rule, 1, [&](refs::Toks const &t) {
      if (r.begin([&] { return "joined names: " + rule + ": " + spaced(refs::plain(t)); })) r.body([&] { joined_names(r, judge, t, must); });
    });
    std::set<std::string> near; g.derive(rule, 1, [&](refs::Toks const &t) { near.insert(spaced(refs::plain(t))); });
    g.derive(rule, mid, [&](refs::Toks const &t) {
      bool cost1 = near.count(spaced(refs::plain(t)));
      if (r.begin([&] { return "substitutions: " + rule + ": " + spaced(refs::plain(t)); })) r.body([&] { substitute(t, true, [&](refs::Sent const &s) { r.count(0); judge(r, s, spaced(s), must); judge(r, s, tight(s), must, true); }); });
      if (r.begin([&] { return "changes: " + rule + ": " + spaced(refs::plain(t)); })) r.body([&] { mutate(refs::plain(t), r.thorough || cost1 ? al : few, [&](refs::Sent const &s) { judge(r, s, spaced(s), nullptr); }); });
    });
  }
}
