// P14: the tree of an accepted statement has exactly its tokens, in order, as
// leaves, and every inner node is what its label says.
#include "mc.hh"
#include "stmt_common.hh"
char const *const mc_property = "P14";
using namespace FLPR; using namespace sc;
struct Judge {
  refs::Grammar const &g; refs::Recogniser lenient; std::vector<int> rule_of, list_of;   // by tag
  explicit Judge(refs::Grammar const &g) : g{g}, lenient{g, true}, rule_of(Syntax_Tags::SG_ZZZ_UB, -1), list_of(Syntax_Tags::SG_ZZZ_UB, -1) {
    std::map<std::string, std::string> alias{{"int-expr", "expr"}, {"logical-expr", "expr"}, {"int-constant-expr", "expr"}, {"default-char-expr", "expr"}, {"lower-bound-expr", "expr"}, {"upper-bound-expr", "expr"}, {"selector", "expr"}, {"binding-name-list", "name-list"}, {"dummy-arg-name-list", "name-list"}, {"rename-list", "rename-list"}};
    for (int t = 0; t < Syntax_Tags::SG_ZZZ_UB; ++t) {
      std::string l = Syntax_Tags::label(t); bool list = l.size() > 5 && l.compare(l.size() - 5, 5, "-list") == 0; std::string b = list ? l.substr(0, l.size() - 5) : l;
      for (char &c : b) if (c == '-') c = '_';
      auto i = g.rule.find(b); if (i != g.rule.end()) (list ? list_of : rule_of)[t] = i->second;
    }
  }
  struct Walk { std::vector<TT_SEQ::iterator> toks; size_t next = 0; std::string shape; };
  // returns the token span covered
  std::pair<size_t, size_t> walk(mc::Run &r, Walk &w, Stmt_Tree::node const &n, Scanned &sc, char const *kind) {
    std::string label = Syntax_Tags::label(n->syntag);
    if (n->syntag == Syntax_Tags::HOIST || n->syntag == Syntax_Tags::UNKNOWN || n->syntag == Syntax_Tags::BAD) r.fail(std::string(kind) + ": a node is labelled " + label);
    size_t b = w.next;
    // these may be absent from the text, and are then kept as empty nodes
    if (n.is_leaf() && n->token_range.empty() && (n->syntag == Syntax_Tags::SG_PREFIX || n->syntag == Syntax_Tags::SG_CONCURRENT_LOCALITY)) { w.shape += '-'; return {b, b}; }
    if (n.is_leaf()) {
      if (n->token_range.size() != 1) r.fail(std::string(kind) + ": leaf " + label + " has " + std::to_string(n->token_range.size()) + " tokens");
      if (w.next >= w.toks.size() || n->token_range.begin() != w.toks[w.next]) r.fail(std::string(kind) + ": leaf " + label + " is not token " + std::to_string(w.next));
      auto &t = *w.toks[w.next];
      if (n->syntag != t.token && !(n->syntag == Syntax_Tags::TK_NAME && Syntax_Tags::is_name(t.token))) r.fail(std::string(kind) + ": leaf " + label + " for " + t.text());
      w.shape += '.'; ++w.next; return {b, w.next};
    }
    w.shape += std::to_string(n->syntag) + '(';
    for (auto const &c : n.branches()) walk(r, w, c, sc, kind);
    w.shape += ')';
    if (n->token_range.begin() != w.toks[b] || n->token_range.size() != w.next - b || std::prev(n->token_range.end()) != w.toks[w.next - 1]) r.fail(std::string(kind) + ": node " + label + " does not span its branches");
    if (!sc.owner.empty()) { // is it what it says?
      size_t e = w.next; bool aligned = (b == 0 || sc.owner[b] != sc.owner[b - 1]) && (e == sc.owner.size() || sc.owner[e] != sc.owner[e - 1]);
      if (aligned) {
        size_t rb = sc.owner[b], re = sc.owner[e - 1] + 1; int ru = rule_of[(size_t)n->syntag], li = list_of[(size_t)n->syntag];
        if (ru >= 0) { r.count(2); if (!lenient.span(ru, rb, re)) r.fail(std::string(kind) + ": node " + label + " covers what is none"); }
        if (li >= 0) { r.count(2); if (!list(li, rb, re, sc)) r.fail(std::string(kind) + ": node " + label + " covers what is none"); }
      }
    }
    return {b, w.next};
  }
  // moving about: up, down, next and prev of every node lead where the tree says
  template <class C> void moves(mc::Run &r, C c, Stmt_Tree::node const &n, char const *kind) {
    if (&*c != &*n) r.fail(std::string(kind) + ": a cursor stands on another node than " + Syntax_Tags::label(n->syntag));
    if (c.has_down() == n.branches().empty()) r.fail(std::string(kind) + ": has_down()");
    if (n.branches().empty()) return;
    auto d = c; d.down(); size_t k = 0, N = n.branches().size();
    for (auto const &b : n.branches()) {
      if (d.has_prev() != (k > 0) || d.has_next() != (k + 1 < N) || !d.has_up()) r.fail(std::string(kind) + ": reported moves from child " + std::to_string(k) + " of " + Syntax_Tags::label(n->syntag));
      auto u = d; u.up(); if (&*u != &*n) r.fail(std::string(kind) + ": up() from child " + std::to_string(k) + " of " + Syntax_Tags::label(n->syntag) + " leads elsewhere");
      if (k) { auto q = d; q.prev().next(); if (&*q != &*d) r.fail(std::string(kind) + ": prev() and next() of child " + std::to_string(k)); }
      moves(r, d, b, kind); if (++k < N) d.next(); }
  }
  bool list(int rule, size_t b, size_t e, Scanned &sc) { // item {, item}
    std::vector<char> ok(e + 1, 0); ok[b] = 1;
    for (size_t p = b; p < e; ++p) if (ok[p]) for (size_t q = p + 1; q <= e; ++q) if (lenient.span(rule, p, q)) { if (q == e) return true; if ((*sent)[q] == ",") ok[q + 1] = 1; }
    // sets and groups may also follow each other without a comma
    return rule == g.rule.at("data_stmt_set");
  }
  refs::Sent const *sent = nullptr;
  void operator()(mc::Run &r, refs::Sent const &s, std::string const &text, char const *must, bool all) {
    r.note(must ? must : "changed", text); Scanned sc(text, s); r.step();
    if (!sc.ok) { r.count(3); return; }
    sent = &s; lenient.set(s); Walk w; for (auto i = sc.s->begin(); i != sc.s->end(); ++i) w.toks.push_back(i);
    for (auto const &k : kinds) {
      if (!all && (!must || strcmp(must, k.name))) { if (!lenient.whole(k.rule)) continue; }
      TT_Stream ts(*sc.s); Stmt_Tree t = k.f(ts); r.step();
      if (!t) { if (t.size() != 0) r.fail("a failed parse leaves a tree"); continue; }
      r.count(0); w.next = 0; w.shape.clear(); walk(r, w, *t, sc, k.name); moves(r, t.ccursor(), *t, k.name);
      if (t.ccursor().has_up() || t.ccursor().has_next() || t.ccursor().has_prev()) r.fail(std::string(k.name) + ": the root has neighbours");
      if (w.next != w.toks.size()) r.fail(std::string(k.name) + ": the tree has " + std::to_string(w.next) + " of " + std::to_string(w.toks.size()) + " tokens");
      if (!strcmp(k.name, "do_stmt") || !strcmp(k.name, "label_do_stmt")) {
        int want = 0; for (size_t i = 0; i + 1 < s.size(); ++i) if (s[i] == "do" && (i == 0 || s[i - 1] == ":") && isdigit((unsigned char)s[i + 1][0])) { want = atoi(s[i + 1].c_str()); break; }
        if (Stmt::get_label_do_label(t) != want) r.fail("label of a DO statement is read as " + std::to_string(Stmt::get_label_do_label(t)));
      }
      // through the statement: handed over, dropped and built again
      if (k.tag >= 0) {
        std::string before = w.shape; sc.s->set_stmt_tree(std::move(t)); int tag = sc.s->syntax_tag(); sc.s->drop_stmt_tree();
        auto const &again = sc.s->stmt_tree(); r.step(); if (!again.empty()) { // what it is, and what a one-line IF holds
          moves(r, again.ccursor(), *again, k.name); int inner = tag; if (tag == Syntax_Tags::SG_IF_STMT) { Stmt_Tree::node const *n = &*again; while ((*n)->syntag != Syntax_Tags::SG_IF_STMT) n = &n->branches().front(); inner = -n->branches().back().branches().front()->syntag; }
          if (sc.s->stmt_tag(false) != sc.s->syntax_tag() || sc.s->stmt_tag(true) != (sc.s->syntax_tag() == tag ? inner : sc.s->syntax_tag())) r.fail(std::string(k.name) + ": stmt_tag() is " + std::to_string(sc.s->stmt_tag(true))); }
        if (again.empty()) r.fail(std::string(k.name) + ": the dropped tree is not built again");
        w.next = 0; w.shape.clear(); walk(r, w, *again, sc, k.name); r.count(1);
        bool exact = !Stmt::is_action_stmt(tag); if (exact && w.shape != before) r.fail(std::string(k.name) + ": the rebuilt tree differs");
        if (sc.s->syntax_tag() != tag && exact) r.fail(std::string(k.name) + ": the rebuilt tree is " + Syntax_Tags::label(sc.s->syntax_tag()));
        sc.s->reset_stmt_tree();
      }
      r.state(w.shape);
    }
    r.trace();
  }
};
void explore(mc::Run &r) {
  refs::Grammar g; init(g); Judge judge(g);
  int deep = r.thorough ? 6 : 4, mid = r.thorough ? 3 : 2;
  std::vector<std::string> few{"(", ")", ",", ":", "=", "a", "%"};
  for (auto const &rule : g.order) if (is_stmt_rule(rule)) {
    char const *must = rule.c_str();
    g.derive(rule, deep, [&](refs::Toks const &t) {
      if (r.begin([&] { return rule + ": " + spaced(refs::plain(t)); })) r.body([&] { auto s = refs::plain(t); judge(r, s, spaced(s), must, true); judge(r, s, tight(s), must, false); });
    });
    g.derive(rule, mid, [&](refs::Toks const &t) {
      if (r.begin([&] { return "substitutions: " + rule + ": " + spaced(refs::plain(t)); })) r.body([&] { substitute(t, false, [&](refs::Sent const &s) { judge(r, s, spaced(s), must, false); }); });
    });
    g.derive(rule, mid - 1, [&](refs::Toks const &t) {
      if (r.begin([&] { return "changes: " + rule + ": " + spaced(refs::plain(t)); })) r.body([&] { mutate(refs::plain(t), r.thorough ? alphabet : few, [&](refs::Sent const &s) { judge(r, s, spaced(s), nullptr, false); }); });
    });
  }
}
