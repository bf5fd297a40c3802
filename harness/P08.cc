// P08: every short history of statement edits of small files.  After each edit
// the statement list in memory must be what the edit asked for, and what
// writing the file and scanning it again gives.
#include "mc.hh"
#include "src_util.hh"
#include "ref_lex.hh"
#include "ref_lines.hh"
#include "flpr/parse_stmt.hh"
char const *const mc_property = "P08";
using namespace FLPR;
using It = LL_STMT_SEQ::iterator;
struct Unit { Lines lines; };
static std::string text_of(LL_Stmt const &s) { std::string o; for (auto const &t : s) o += std::to_string(t.token) + ":" + t.text() + " "; return o; }
static std::string lexed(std::string const &s) { std::string o; for (auto const &t : ref::lex(s).t) o += std::to_string(t.kind) + ":" + t.text + " "; return o; }
static Lines physical(Logical_Line const &ll) { std::ostringstream os; os << ll; return split_lines(os.str()); }
static std::string strip(std::string s) { while (!s.empty() && s.back() == ' ') s.pop_back(); size_t b = s.find_first_not_of(' '); return b == std::string::npos ? "" : s.substr(b); }
static std::vector<std::string> comments(Lines const &v, bool fixed) { std::vector<std::string> o; ref::State st; for (auto const &l : v) { std::string w; ref::Line L = fixed ? ref::fixed_line(l, 72, st, w) : ref::free_line(l, st); if (L.kind == ref::COMMENT) o.push_back(strip(l)); else if (!L.comment.empty()) o.push_back(strip(L.comment)); } return o; }
static int kind_of(LL_Stmt &s) { TT_Stream ts(s); auto t = Stmt::action_stmt(ts); if (!t) return -1; auto c = t.ccursor(); c.down(); return c->syntag; }

enum Op { SPLIT, ISOLATE, EMPLACE, EMPLACE_AFTER, TEXT, SUBSTR, INSERT, APPEND, LABEL };
static char const *const opname[] = {"split_compound_before", "isolate_stmt", "emplace_ll_stmt", "emplace_ll_stmt_after_prefix", "replace_stmt_text", "replace_stmt_substr", "insert_text_after", "append_stmt_text", "set_stmt_label"};
struct Edit { Op op; int s, i, j; };
static std::string name(Edit const &e) { return std::string(opname[e.op]) + "(stmt " + std::to_string(e.s + 1) + "," + std::to_string(e.i) + "," + std::to_string(e.j) + "); "; }
struct S { std::vector<std::string> tk; int label; std::vector<std::string> prefix; It it; void *hook; int tag; std::string text() const { std::string o; for (auto const &x : tk) o += x + " "; return o; } };
static std::vector<std::string> words(LL_Stmt const &s) { std::vector<std::string> v; for (auto const &t : s) v.push_back(std::to_string(t.token) + ":" + t.text()); return v; }
static std::vector<std::string> lexwords(std::string const &s) { std::vector<std::string> v; for (auto const &t : ref::lex(s).t) v.push_back(std::to_string(t.kind) + ":" + t.text); return v; }
static std::vector<Lines> const texts{{"u = v"}, {"u = v +", "w(1) ! x"}};
static int const labels[] = {0, 7, 99999};

struct World {
  mc::Run &r; bool fixed; Logical_File f; std::vector<S> m; int tags[64]; std::string log;
  World(mc::Run &r, bool fixed, Lines const &v) : r{r}, fixed{fixed} {
    if (!(fixed ? scan_fixed(f, v) : scan_free(f, v))) r.fail("scan fails");
    f.make_stmts(); int k = 0;
    for (auto i = f.ll_stmts.begin(); i != f.ll_stmts.end(); ++i, ++k) {
      TT_Stream ts(*i); auto t = Stmt::action_stmt(ts); if (!t) r.fail("alphabet: " + text_of(*i)); i->set_stmt_tree(std::move(t)); i->set_hook(&tags[k % 64]);
      m.push_back({words(*i), i->label(), prefix(*i), i, &tags[k % 64], i->syntax_tag()});
    }
  }
  static std::vector<std::string> prefix(LL_Stmt const &s) { std::vector<std::string> v; for (auto const &l : s.prefix_lines) for (auto const &x : physical(*l)) v.push_back(x); return v; }
  void bad(std::string const &s) { r.fail(log + s); }
  // the statements sharing a line with this one, as written; and whether a comment stands among its lines
  bool inner_comments(It s) { for (auto const &fl : s->ll().layout()) if (!fl.is_fortran()) return true; return false; }

  // false: outside the domain
  bool apply(Edit const &e) {
    log += name(e); S &t = m[(size_t)e.s]; It pos = t.it; Logical_File g; bool res = false, want = false; int n = (int)t.tk.size();
    auto newline = [&](Lines const &v) { return fixed ? (v.size() == 1 ? Logical_Line(v[0], 72) : Logical_Line(v, 72)) : (v.size() == 1 ? Logical_Line(v[0]) : Logical_Line(v)); };
    switch (e.op) {
    case SPLIT: want = pos->is_compound() > 1; res = f.split_compound_before(pos); if (res != want) bad("split_compound_before reports " + std::to_string(res)); break;
    case ISOLATE: want = pos->ll().is_compound(); res = f.isolate_stmt(pos); if (res != want) bad("isolate_stmt reports " + std::to_string(res)); if (pos->ll().is_compound()) bad("isolate_stmt leaves the statement in a compound"); break;
    case EMPLACE: case EMPLACE_AFTER: {
      Logical_Line ll = newline(fixed ? (e.i ? Lines{" 77   z = 9 ! n", "     &  + 1"} : Lines{"      z = 9"}) : (e.i ? Lines{"77 z = 9 & ! n", "  + 1"} : Lines{"z = 9"}));
      It ni = e.op == EMPLACE ? f.emplace_ll_stmt(pos, std::move(ll), Syntax_Tags::SG_ASSIGNMENT_STMT) : f.emplace_ll_stmt_after_prefix(pos, std::move(ll), Syntax_Tags::SG_ASSIGNMENT_STMT);
      S x; x.tk = lexwords(e.i ? "z = 9 + 1" : "z = 9"); x.label = e.i ? 77 : 0; x.it = ni; x.hook = nullptr; x.tag = Syntax_Tags::SG_ASSIGNMENT_STMT; if (e.op == EMPLACE_AFTER) x.prefix.swap(t.prefix); m.insert(m.begin() + e.s, x); break; }
    case TEXT: {
      if (inner_comments(pos)) { f.isolate_stmt(pos); if (inner_comments(pos)) return false; } // refused by an assertion
      Lines nt = texts[(size_t)e.i]; for (auto &x : nt) { size_t q = x.find(" !"); if (q != std::string::npos) x.erase(q); }
      int tag = e.j ? t.tag : (int)Syntax_Tags::SG_ASSIGNMENT_STMT; (void)tag;
      f.replace_stmt_text(pos, nt, Syntax_Tags::SG_ASSIGNMENT_STMT); std::string all; for (auto const &x : nt) all += x + " "; t.tk = lexwords(all); t.hook = nullptr; t.tag = Syntax_Tags::SG_ASSIGNMENT_STMT; break; }
    case SUBSTR: {
      auto b = std::next(pos->begin(), e.i), en = std::next(pos->begin(), e.j + 1); LL_TT_Range rg(pos->it(), b, en); f.replace_stmt_substr(pos, rg, "(zz+7)");
      auto w = lexwords("(zz+7)"); std::vector<std::string> v(t.tk.begin(), t.tk.begin() + e.i); v.insert(v.end(), w.begin(), w.end()); v.insert(v.end(), t.tk.begin() + e.j + 1, t.tk.end()); t.tk = v; t.hook = nullptr; break; }
    case INSERT: f.insert_text_after(pos, std::next(pos->begin(), e.i), " zz "); t.tk.insert(t.tk.begin() + e.i + 1, lexwords("zz")[0]); t.hook = nullptr; break;
    case APPEND: { f.append_stmt_text(pos, " + zz"); auto w = lexwords("+ zz"); t.tk.insert(t.tk.end(), w.begin(), w.end()); t.hook = nullptr; break; }
    case LABEL: { int l = labels[e.i]; res = f.set_stmt_label(pos, l); if (res != (l != t.label)) bad("set_stmt_label reports " + std::to_string(res)); t.label = l; break; }
    }
    (void)n; r.step(); return true;
  }
  // everything the property asks for, given the text before the last edit
  void check(Lines const &before, Edit const *e, std::pair<size_t, size_t> touched) {
    std::string w = written(f); Lines now = split_lines(w); Logical_File g;
    if (!(fixed ? scan_fixed(g, now) : scan_free(g, now))) bad("the written text does not scan: " + mc::show(now)); g.make_stmts();
    std::vector<std::string> left;   // lines that held the end of a statement before, and only their comment or blanks now
    auto gi = g.ll_stmts.begin(); auto fi = f.ll_stmts.begin(); size_t k = 0;
    for (auto &x : m) {
      std::string id = "statement " + std::to_string(++k) + " ";
      if (fi == f.ll_stmts.end() || fi != x.it) bad(id + "is not where its iterator says");
      if (gi == g.ll_stmts.end()) bad(id + "is missing from the text " + mc::show(now));
      if (text_of(*gi) != x.text()) bad(id + "is " + text_of(*gi) + " instead of " + x.text() + " in " + mc::show(now));
      if (text_of(*fi) != x.text()) bad(id + "is " + text_of(*fi) + " instead of " + x.text() + " in memory");
      if (fi->label() != x.label || gi->label() != x.label) bad(id + "has label " + std::to_string(fi->label()) + " in memory, " + std::to_string(gi->label()) + " in the text, instead of " + std::to_string(x.label));
      if (fi->is_compound() != gi->is_compound()) bad(id + "has compound number " + std::to_string(fi->is_compound()) + " instead of " + std::to_string(gi->is_compound()));
      if (prefix(*fi) != x.prefix) bad(id + "has prefix " + mc::show(prefix(*fi)) + " instead of " + mc::show(x.prefix));
      left.insert(left.end(), x.prefix.begin(), x.prefix.end());
      if (prefix(*gi) != left) bad(id + "has prefix " + mc::show(prefix(*gi)) + " in the text instead of " + mc::show(left));
      if (fi->empty() || fi->ll().stmts().size() < 1) bad(id + "range");
      size_t at = fi->is_compound() ? (size_t)fi->is_compound() - 1 : 0; auto const &rg = fi->ll().stmts();
      if (at >= rg.size() || !rg[at].equal(*fi) || rg[at].end() != fi->end()) bad(id + "does not refer to its line's tokens");
      if (fi->get_hook() != x.hook) bad(id + (x.hook ? "lost its link" : "kept the link to its old tree node"));
      if (fi->syntax_tag() != x.tag) bad(id + "is tagged " + Syntax_Tags::label(fi->syntax_tag()));
      if (kind_of(*gi) == x.tag) { auto const &t = fi->stmt_tree(); if (t.empty() || (*t)->token_range.begin() != fi->begin() || (*t)->token_range.size() != fi->size()) bad(id + "has a tree of other tokens"); fi->drop_stmt_tree(); r.count(1); }
      left.clear(); { auto const &lo = fi->ll().layout(); size_t n = lo.size(); while (n && !lo[n - 1].is_fortran()) --n; Lines ph = physical(fi->ll()); if (ph.size() != lo.size()) bad(id + "layout"); left.assign(ph.begin() + (long)n, ph.end()); }
      ++gi; ++fi;
    }
    if (fi != f.ll_stmts.end() || gi != g.ll_stmts.end()) bad("there are extra statements");
    if (e) {
      auto ca = comments(before, fixed), cb = comments(now, fixed); if ((e->op == EMPLACE || e->op == EMPLACE_AFTER) && e->i) { auto p = std::find(cb.begin(), cb.end(), "! n"); if (p == cb.end()) bad("the comment of the new statement is lost"); cb.erase(p); auto q = std::find(ca.begin(), ca.end(), "! n"); if (q != ca.end()) { ca.erase(q); if ((p = std::find(cb.begin(), cb.end(), "! n")) != cb.end()) cb.erase(p); } }
      if (ca != cb) bad("comments are now " + mc::show(cb) + " instead of " + mc::show(ca));
      // lines of other statements stay as they are
      size_t pre = touched.first, post = before.size() - touched.second;
      if (now.size() < pre + post || !std::equal(before.begin(), before.begin() + (long)pre, now.begin()) || !std::equal(before.end() - (long)post, before.end(), now.end() - (long)post)) bad("other lines changed: " + mc::show(now));
    }
    r.state(w);
  }
  // physical lines [first,second) that the edit may change
  std::pair<size_t, size_t> extent(It s, Op op) {
    size_t at = 0; for (auto l = f.lines.begin(); l != f.lines.end(); ++l) { size_t n = physical(*l).size(); if (l == s->it()) { if ((op == EMPLACE || op == EMPLACE_AFTER) && s->is_compound() < 2) return {at - (op == EMPLACE ? prefix(*s).size() : 0), at - (op == EMPLACE ? prefix(*s).size() : 0)}; return {at, at + n}; } at += n; }
    return {0, 0};
  }
  std::vector<Edit> edits(bool coarse) {
    std::vector<Edit> e;
    for (int s = 0; s < (int)m.size(); ++s) { int n = (int)m[(size_t)s].tk.size();
      e.push_back({SPLIT, s, 0, 0}); e.push_back({ISOLATE, s, 0, 0});
      for (int i = 0; i < 2; ++i) { if (!coarse || i) e.push_back({EMPLACE, s, i, 0}); if (!coarse || !i) e.push_back({EMPLACE_AFTER, s, i, 0}); e.push_back({TEXT, s, i, 0}); }
      for (int i = 0; i < n; ++i) for (int j = i; j < n; ++j) if (!coarse || (i == 0 && j == n - 1) || (i == 1 && j == 1)) e.push_back({SUBSTR, s, i, j});
      for (int i = 0; i < n; ++i) if (!coarse || i == n - 1) e.push_back({INSERT, s, i, 0});
      e.push_back({APPEND, s, 0, 0}); for (int i = 0; i < (coarse ? 2 : 3); ++i) e.push_back({LABEL, s, i, 0}); }
    return e;
  }
};

void explore(mc::Run &r) {
  std::vector<Lines> freeu{{"a = 1"}, {"10 b = 2 ! t"}, {" c = 3; d = 4"}, {"20 e = f(5) ; goto 20;  call h(x) ! u"}, {"l = & ! i", "  ! in", "  m + n"}, {"o = 'x&", "  &;y'; p = q"},
    {"! c1"}, {"#if X"}, {""}, {";; r = s ;; t = u ;"}, {"if (v) w = y; & ! j", "  continue"}, {"30 goto 30; x = &", "", "  & y; &", "  return"}, {" include 'f'"}};
  std::vector<Lines> fixu{{"      a = 1"}, {"   10 b = 2 ! t"}, {"        c = 3; d = 4"}, {"20    e = f(5) ; goto 20;  call h(x) ! u"}, {"      l =", "C in", "     &  m + n"}, {"      o = 'x", "     1;y'; p = q"},
    {"* c1"}, {"#if X"}, {""}, {"      ;; r = s ;; t = u ;"}, {" 30   if (v) w = y;", "     +  continue"}};
  auto run = [&](std::vector<Lines> const &U, bool fixed, int units, int depth, bool coarse) {
    std::vector<int> ix;
    std::function<void()> rec = [&] {
      Lines v; for (int i : ix) v.insert(v.end(), U[(size_t)i].begin(), U[(size_t)i].end());
      if (!ix.empty()) {
        std::vector<Edit> first; { World w(r, fixed, v); first = w.edits(coarse); }
        for (auto const &e0 : first) if (r.begin([&] { return std::string(fixed ? "fixed " : "free ") + mc::show(v) + " histories starting with " + name(e0); })) r.body([&] {
          std::function<void(std::vector<Edit>)> go = [&](std::vector<Edit> seq) {
            std::string d; for (auto const &e : seq) d += name(e); r.note(std::string(fixed ? "fixed " : "free ") + mc::show(v), d);
            World w(r, fixed, v); Lines before; std::pair<size_t, size_t> ext; bool in = true;
            for (size_t k = 0; k < seq.size() && in; ++k) { if (k + 1 == seq.size()) { before = split_lines(written(w.f)); ext = w.extent(w.m[(size_t)seq[k].s].it, seq[k].op); } in = w.apply(seq[k]); }
            if (!in) { r.count(0); return; }
            w.check(before, &seq.back(), ext); r.trace();
            if ((int)seq.size() < depth) for (auto const &e : w.edits(coarse)) { seq.push_back(e); go(seq); seq.pop_back(); }
          };
          go({e0});
        });
      }
      if ((int)ix.size() < units) for (size_t i = 0; i < U.size(); ++i) { ix.push_back((int)i); rec(); ix.pop_back(); }
    };
    rec();
  };
  for (int fx = 0; fx < 2; ++fx) { auto const &U = fx ? fixu : freeu;
    run(U, fx, 1, r.thorough ? 3 : 2, false);
    run(U, fx, 2, r.thorough ? 3 : 2, true);
    run(U, fx, 3, r.thorough ? 2 : 1, true); }
}
