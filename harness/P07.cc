// P07: every sequence of up to k edits of a logical line, on every layout.
// After each edit the written text must be the old text with exactly that
// change, and the line in memory must be what scanning the written text gives.
#include "mc.hh"
#include "src_util.hh"
#include "ref_lex.hh"
#include "ref_lines.hh"
char const *const mc_property = "P07";
using namespace FLPR;

struct T { int kind; std::string text; int line, col, eline, ecol; }; // 0-based physical position; ecol one past the last character
struct View {                        // what the text says
  Lines lines; std::vector<T> toks; std::vector<std::string> comments; std::vector<std::string> code; int label = 0; int nlogical = 0; bool ok = true; std::vector<size_t> stmts; std::string why;
};
static std::string strip(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\r')) s.pop_back(); size_t b = 0; while (b < s.size() && s[b] == ' ') ++b; return s.substr(b); }

// Read the written text independently: reference line anatomy + reference lexer
static View view(Lines const &lines, bool fixed) {
  View v; v.lines = lines; ref::State st; std::string text; std::vector<std::pair<int, int>> at; bool first = true, pending = false; char open_before = 0;
  for (size_t i = 0; i < lines.size(); ++i) {
    ref::State before = st; std::string w; ref::Line L = fixed ? ref::fixed_line(lines[i], 72, st, w) : ref::free_line(lines[i], st);
    if (L.odd || L.kind == ref::ERROR) { v.ok = false; v.why = "line " + std::to_string(i + 1) + " " + mc::show(lines[i]) + " is malformed"; return v; }
    if (L.kind == ref::COMMENT) v.comments.push_back(strip(lines[i]));
    if (L.kind != ref::CODE) continue;
    if (!fixed && L.starts_cont && !before.cont) { v.ok = false; v.why = "line " + std::to_string(i + 1) + " begins with & but nothing is continued"; return v; }
    if (fixed && L.starts_cont && first) { v.ok = false; v.why = "first line is a continuation line"; return v; }
    bool newll = fixed ? !L.starts_cont : !before.cont;
    if (newll) { v.nlogical++; if (!L.label.empty()) v.label = std::stoi(L.label); if (!first) { text += '\n'; at.push_back({-1, -1}); } }
    // where does the code stand in the line?
    size_t c = fixed ? 6 : 0;
    if (!fixed) { while (c < lines[i].size() && lines[i][c] == ' ') ++c; if (L.starts_cont) ++c; else c += L.label.size(); }
    if (!(fixed ? (before.open && L.starts_cont) : before.open != 0)) while (c < lines[i].size() && lines[i][c] == ' ') ++c;
    std::string code = L.code; size_t lead = 0; while (lead < code.size() && code[lead] == ' ' && !before.open) ++lead; code.erase(0, lead);
    bool sp_before = !newll && !open_before && (fixed ? (c > 6) : (!L.starts_cont || c > lines[i].find('&') + 1));
    if (sp_before || (!newll && pending)) { text += ' '; at.push_back({-1, -1}); }
    for (size_t k = 0; k < code.size(); ++k) { text += code[k]; at.push_back({(int)i, (int)(c + k)}); }
    size_t e = c + code.size(); pending = !L.open && e < lines[i].size() && lines[i][e] == ' ';
    v.code.push_back(strip(code)); open_before = L.open; first = false;
  }
  if (st.cont) { v.ok = false; v.why = "the text ends in a continuation"; return v; }
  size_t b = 0; std::string all = text;
  while (b <= all.size()) { size_t e = all.find('\n', b); if (e == std::string::npos) e = all.size();
    auto L = ref::lex(all.substr(b, e - b));
    if (L.open) { v.ok = false; v.why = "literal left open"; return v; }
    size_t c = 0;
    for (auto const &t : L.t) { auto p = at[b + t.pos], q = at[b + t.pos + t.text.size() - 1]; v.toks.push_back({t.kind, t.text, p.first, p.second, q.first, q.second + 1}); if (t.kind == Syntax_Tags::TK_SEMICOLON) { if (c) v.stmts.push_back(c); c = 0; } else ++c; }
    if (c) v.stmts.push_back(c);
    b = e + 1; }
  return v;
}
static Lines text_lines(Logical_Line const &ll) { std::ostringstream os; os << ll; return split_lines(os.str()); }
static std::string tk(std::vector<T> const &t) { std::string s; for (auto const &x : t) s += std::to_string(x.kind) + ":" + x.text + " "; return s; }

struct Outside {};                   // the edits asked for a fixed-form line with a label and no text
struct Ctx {
  mc::Run &r; bool fixed; std::string log;
  void bad(std::string const &m) { r.fail(log + m); }
  // memory agrees with the text
  View agree(Logical_Line &ll, char const *when) {
    Lines w = text_lines(ll); View v = view(w, fixed);
    if (fixed && ll.label && !w.empty() && w[0].size() > 5 && strip(w[0].substr(5, w[0].find('!', 5) - 5)).empty()) throw Outside();
    if (!v.ok) bad(std::string(when) + ": written text is broken: " + v.why + " in " + mc::show(w));
    if (v.nlogical > 1) bad(std::string(when) + ": written text has become " + std::to_string(v.nlogical) + " statement lines: " + mc::show(w));
    if (toks(ll) != tk(v.toks)) bad(std::string(when) + ": memory holds " + toks(ll) + " but the text " + mc::show(w) + " says " + tk(v.toks));
    if (ll.label != v.label) bad(std::string(when) + ": label in memory " + std::to_string(ll.label) + ", in text " + std::to_string(v.label));
    std::vector<size_t> gs; for (auto const &s : ll.stmts()) gs.push_back(s.size());
    if (gs != v.stmts) bad(std::string(when) + ": statement ranges in memory differ from the text");
    // the library itself reads it the same way
    if (!w.empty()) { Logical_File f; if (!(fixed ? scan_fixed(f, w) : scan_free(f, w))) bad(std::string(when) + ": re-scan fails"); std::string s; for (auto const &l : f.lines) s += toks(l); if (s != tk(v.toks)) bad(std::string(when) + ": re-scan of " + mc::show(w) + " gives " + s); }
    r.step(); r.state(mc::hash(join(w)));
    return v;
  }
};
static int const NAME = Syntax_Tags::TK_NAME;
enum Op { REP, REM, SUB, INSB, INSA, SPLIT, EMPT, LABEL, INDENT, COMMENT, MAIN };
struct Edit { Op op; int i, j; };
static std::string name(Edit const &e) { static char const *n[] = {"replace_fragment", "remove_fragment", "replace_stmt_substr", "insert_text_before", "insert_text_after", "split_after", "remove_empty_statements", "set_label", "set_leading_spaces", "append_comment", "replace_main_text"}; return std::string(n[e.op]) + "(" + std::to_string(e.i) + "," + std::to_string(e.j) + "); "; }
static std::vector<Lines> const mains{{"u = v"}, {"u = v +", "w"}, {"u =", "v +", "w - 'x'"}};
static std::pair<int, int> const indents[] = {{0, 0}, {4, 2}, {9, 4}, {3, 1}};
static int const labels[] = {0, 7, 99999};

static std::vector<Edit> edits(View const &v, Logical_Line &ll, bool fixed) {
  std::vector<Edit> e; int n = v.toks.size(); if (!n) return e;
  for (int i = 0; i < n; ++i) { e.push_back({REP, i, 0}); e.push_back({REM, i, 0}); e.push_back({INSB, i, 0}); e.push_back({INSA, i, 0}); if (i + 1 < n && v.toks[i + 1].kind == Syntax_Tags::TK_SEMICOLON && v.toks[i].kind != Syntax_Tags::TK_SEMICOLON) e.push_back({SPLIT, i, 0}); }
  e.push_back({INSB, n, 0});
  int b = 0; for (size_t k = 0, c = 0; c < (size_t)n; ++c) { bool semi = v.toks[c].kind == Syntax_Tags::TK_SEMICOLON; if (semi || c + 1 == (size_t)n) { int end = semi ? c : n; for (int i = b; i < end; ++i) for (int j = i; j < end; ++j) e.push_back({SUB, i, j}); b = c + 1; } }
  e.push_back({EMPT, 0, 0});
  if (ll.layout()[0].is_fortran()) for (int k = 0; k < 3; ++k) e.push_back({LABEL, k, 0});
  if (!fixed) for (int k = 0; k < 4; ++k) e.push_back({INDENT, k, 0});
  e.push_back({COMMENT, 0, 0});
  bool triv = false; for (auto const &fl : ll.layout()) triv |= !fl.is_fortran();
  if (!triv && !ll.is_compound() && !ll.num_semicolons()) for (int k = 0; k < 3; ++k) e.push_back({MAIN, k, 0});
  return e;
}
static TT_SEQ::iterator nth(Logical_Line &ll, int i) { auto t = ll.fragments().begin(); std::advance(t, i); return t; }
static std::vector<T> lexed(std::string const &s) { std::vector<T> o; for (auto const &t : ref::lex(s).t) o.push_back({t.kind, t.text, 0, 0, 0, 0}); return o; }

// Apply; false: outside the operation's domain (ll untouched)
static bool apply(Ctx &c, Logical_Line &ll, View const &v, Edit const &e, View &after) {
  int n = v.toks.size(); auto const &tv = v.toks;
  auto same_comments = [&](View const &w, std::vector<std::string> const &want, char const *op) { if (w.comments != want) c.bad(std::string(op) + ": comments are now " + mc::show(w.comments) + " instead of " + mc::show(want)); };
  // trailing comments of code lines, in line order with the full-line ones
  auto allcomm = [&](View const &w) { std::vector<std::string> o; ref::State st; for (auto const &l : w.lines) { std::string x; ref::Line L = c.fixed ? ref::fixed_line(l, 72, st, x) : ref::free_line(l, st); if (L.kind == ref::COMMENT) o.push_back(strip(l)); else if (!L.comment.empty()) o.push_back(strip(L.comment)); } return o; };
  auto spliced = [&](int l, int b, int e2, std::string const &txt) { Lines x = v.lines; x[l].replace(b, e2 - b, txt); return x; };
  auto exact = [&](Lines const &want) { Lines got = text_lines(ll); if (got != want) c.bad("text is " + mc::show(got) + " instead of " + mc::show(want)); };
  std::string op = name(e); op.pop_back(); op.pop_back();
  auto tokens_are = [&](std::vector<T> const &want) { if (tk(after.toks) != tk(want)) c.bad(op + ": tokens are " + tk(after.toks) + " instead of " + tk(want)); };
  auto comments_kept = [&] { if (allcomm(after) != allcomm(v)) c.bad(op + ": comments are now " + mc::show(allcomm(after)) + " instead of " + mc::show(allcomm(v))); };
  // a line of text that begins with a digit string is labelled: no statement begins like that
  auto num_first = [](std::vector<T> const &t) { for (auto const &x : t) if (x.kind != Syntax_Tags::TK_SEMICOLON) return std::isdigit((unsigned char)x.text[0]) != 0; return false; };
  switch (e.op) {
  case REP: {
    T const &t = tv[e.i]; if (t.line != t.eline) return false;
    Lines want = spliced(t.line, t.col, t.ecol, "zz"); View x = view(want, c.fixed); auto wt = tv; wt[e.i].kind = NAME; wt[e.i].text = "zz";
    if (t.kind == Syntax_Tags::TK_SEMICOLON) return false;
    if (!x.ok || tk(x.toks) != tk(wt)) return false;                  // merges with a neighbour
    c.log += name(e); ll.replace_fragment(nth(ll, e.i), NAME, "zz"); exact(want); ll.init_stmts(); after = c.agree(ll, "replace_fragment"); break; }
  case REM: {
    T const &t = tv[e.i]; if (t.line != t.eline) return false;
    Lines want = spliced(t.line, t.col, t.ecol, ""); auto wt = tv; wt.erase(wt.begin() + e.i);
    bool only = true; for (int k = 0; k < n; ++k) if (k != e.i && (tv[k].line == t.line || tv[k].eline == t.line)) only = false;
    if (n == 1 || num_first(wt)) return false;
    if (only) { Lines y = spliced(t.line, t.col, t.ecol, " "); View x = view(y, c.fixed); }
    else { View x = view(want, c.fixed); if (!x.ok || tk(x.toks) != tk(wt)) return false; }
    c.log += name(e); ll.remove_fragment(nth(ll, e.i)); after = c.agree(ll, "remove_fragment"); tokens_are(wt); comments_kept();
    if (!only) { Lines got = text_lines(ll); // blanks may be tidied on the edited line only
      if (got.size() != want.size()) c.bad(op + ": text is " + mc::show(got)); for (size_t k = 0; k < got.size(); ++k) if (k == (size_t)t.line ? strip(got[k]) != strip(want[k]) : got[k] != want[k]) c.bad(op + ": text is " + mc::show(got) + " instead of " + mc::show(want)); }
    break; }
  case SUB: {
    std::string nt = "(zz+7)"; T const &a = tv[e.i], &b = tv[e.j];
    std::vector<T> wt(tv.begin(), tv.begin() + e.i); for (auto const &t : lexed(nt)) wt.push_back(t); wt.insert(wt.end(), tv.begin() + e.j + 1, tv.end());
    { std::string run = nt; size_t k0 = e.i, k1 = e.j + 1;               // the new text must not change how its neighbours read
      while (k0 > 0 && tv[k0 - 1].eline == tv[k0].line && tv[k0 - 1].ecol == tv[k0].col) { --k0; run = tv[k0].text + run; }
      while (k1 < tv.size() && tv[k1 - 1].eline == tv[k1].line && tv[k1 - 1].ecol == tv[k1].col) { run += tv[k1].text; ++k1; }
      std::vector<T> rt(wt.begin() + k0, wt.begin() + (wt.size() - (tv.size() - k1))); if (tk(lexed(run)) != tk(rt)) return false; }
    auto bi = nth(ll, e.i), ei = nth(ll, e.j + 1); TT_Range g(bi, ei);
    c.log += name(e); ll.replace_stmt_substr(g, nt);
    if (a.line == b.eline) exact(spliced(a.line, a.col, b.ecol, nt));
    after = c.agree(ll, "replace_stmt_substr"); tokens_are(wt); comments_kept(); break; }
  case INSB: case INSA: {
    int l, col; std::string nt = e.op == INSA ? " zz" : "zz ";
    if (e.op == INSB) { if (e.i == n) { l = tv[n - 1].eline; col = tv[n - 1].ecol; nt = " zz"; } else { l = tv[e.i].line; col = tv[e.i].col; } } else { l = tv[e.i].eline; col = tv[e.i].ecol; }
    int at = e.op == INSA ? e.i + 1 : e.i; auto wt = tv; wt.insert(wt.begin() + at, T{NAME, "zz", 0, 0, 0, 0});
    Lines want = spliced(l, col, col, nt); View x = view(want, c.fixed); if (!x.ok || tk(x.toks) != tk(wt)) return false;
    c.log += name(e); if (e.op == INSB) ll.insert_text_before(nth(ll, e.i), nt); else ll.insert_text_after(nth(ll, e.i), nt);
    exact(want); after = c.agree(ll, "insert_text"); tokens_are(wt); break; }
  case SPLIT: {
    if (num_first({tv.begin() + e.i + 1, tv.end()})) return false;
    c.log += name(e); Logical_Line nl; bool res = ll.split_after(nth(ll, e.i), nl);
    std::vector<T> first(tv.begin(), tv.begin() + e.i + 1), rest(tv.begin() + e.i + 1, tv.end());
    auto lead = [](std::vector<T> t) { while (!t.empty() && t.front().kind == Syntax_Tags::TK_SEMICOLON) t.erase(t.begin()); return t; };
    auto trail = [](std::vector<T> t) { while (!t.empty() && t.back().kind == Syntax_Tags::TK_SEMICOLON) t.pop_back(); return t; };
    if (!res) { // nothing after: only semicolons
      if (!lead(rest).empty()) c.bad(op + ": reports that nothing follows"); if (ll.layout().empty()) c.bad("split_after lost the line");
      ll.init_stmts(); after = c.agree(ll, "split_after (nothing follows)"); if (tk(trail(after.toks)) != tk(trail(first))) c.bad(op + ": tokens are " + tk(after.toks)); comments_kept(); break; }
    ll.init_stmts(); nl.init_stmts();
    after = c.agree(ll, "split_after (first part)"); View w2 = c.agree(nl, "split_after (second part)");
    tokens_are(first); if (tk(lead(w2.toks)) != tk(lead(rest))) c.bad(op + ": second part holds " + tk(w2.toks) + " instead of " + tk(rest));
    auto ca = allcomm(after), cb = allcomm(w2); ca.insert(ca.end(), cb.begin(), cb.end()); if (ca != allcomm(v)) c.bad(op + ": comments are now " + mc::show(ca) + " instead of " + mc::show(allcomm(v)));
    if (after.label != v.label || w2.label) c.bad(op + ": label did not stay with the first part");
    // go on with the second part: its bookkeeping must be right as well
    if (e.i % 2) { ll = nl; after = w2; }
    break; }
  case EMPT: {
    std::vector<T> wt; for (auto const &t : tv) { if (t.kind == Syntax_Tags::TK_SEMICOLON && (wt.empty() || wt.back().kind == Syntax_Tags::TK_SEMICOLON)) continue; wt.push_back(t); }
    while (!wt.empty() && wt.back().kind == Syntax_Tags::TK_SEMICOLON) wt.pop_back();
    c.log += name(e); bool res = ll.remove_empty_statements();
    if (res != (wt.size() != tv.size())) c.bad(op + ": reports " + (res ? "a" : "no") + " change");
    if (!res) exact(v.lines);
    after = c.agree(ll, "remove_empty_statements"); tokens_are(wt); comments_kept(); break; }
  case LABEL: {
    int k = labels[e.i]; if (k && v.toks[0].kind == Syntax_Tags::TK_SEMICOLON) return false;
    c.log += name(e); bool res = ll.set_label(k); if (res != (k != v.label)) c.bad(op + ": reports " + (res ? "a" : "no") + " change");
    if (!res) exact(v.lines);
    after = c.agree(ll, "set_label"); if (after.label != k) c.bad(op + ": label is " + std::to_string(after.label)); tokens_are(tv); comments_kept();
    auto nonempty = [](std::vector<std::string> x) { x.erase(std::remove(x.begin(), x.end(), std::string()), x.end()); return x; };
    if (nonempty(after.code) != nonempty(v.code)) c.bad(op + ": code lines changed"); if (!v.toks[0].line) for (size_t i = 1; i < v.lines.size(); ++i) if (after.lines[i] != v.lines[i]) c.bad(op + ": another line changed");
    if (c.fixed && after.toks[0].col != v.toks[0].col) c.bad(op + ": code moved from column " + std::to_string(v.toks[0].col) + " to " + std::to_string(after.toks[0].col));
    break; }
  case INDENT: {
    auto p = indents[e.i]; c.log += name(e); bool res = ll.set_leading_spaces(p.first, p.second);
    after = c.agree(ll, "set_leading_spaces"); tokens_are(tv); comments_kept(); if (after.code != v.code) c.bad(op + ": code lines changed");
    if (res != (after.lines != v.lines)) c.bad(op + ": reports " + (res ? "a" : "no") + " change");
    if (ll.layout()[0].is_fortran()) { int want = p.first; if (v.label) want = std::max(want, (int)(v.lines[0].find_first_not_of(' ') + std::to_string(v.label).size()) + 1); if (after.toks[0].line == 0 && after.toks[0].col != want) c.bad(op + ": code starts in column " + std::to_string(after.toks[0].col) + " instead of " + std::to_string(want)); }
    if (ll.set_leading_spaces(p.first, p.second)) c.bad(op + ": not idempotent"); break; }
  case COMMENT: {
    if (c.fixed) for (auto const &t : tv) if (t.line != t.eline) return false;      // blanks inside a token: see DESIGN
    c.log += name(e); ll.append_comment("hey"); after = c.agree(ll, "append_comment"); tokens_are(tv); if (after.code != v.code) c.bad(op + ": code lines changed");
    auto a = allcomm(v), b = allcomm(after); std::string ja = join(a), jb = join(b); size_t q = jb.find("hey"); if (q == std::string::npos) c.bad(op + ": comment not there");
    for (auto const &s : a) if (jb.find(s) == std::string::npos) c.bad(op + ": comment " + s + " lost"); break; }
  case MAIN: {
    c.log += name(e); std::string all; for (auto const &s : mains[e.i]) all += s + " "; ll.replace_main_text(mains[e.i]); after = c.agree(ll, "replace_main_text"); tokens_are(lexed(all));
    auto a = allcomm(v), b = allcomm(after); if (a != b) c.bad(op + ": comments are now " + mc::show(b) + " instead of " + mc::show(a)); if (after.label != v.label) c.bad(op + ": label changed"); break; }
  }
  c.r.step(); return true;
}

void explore(mc::Run &r) {
  struct Lay { bool fixed; Lines l; };
  std::vector<Lay> lays{
    {false, {"  a = b + c"}}, {false, {"10 a=b ! cmt"}}, {false, {"a = b + &", "  ! mid", "  & c * d ! end"}}, {false, {"  call f(x, & ! one", "    y, &", "", "    z)"}}, {false, {"a=1; b = 2 ; c=3 ! t"}},
    {false, {"a=1; b = &", "  2; c=3 & ! k", "; d=4"}}, {false, {"; a=1;; b=2 ;"}}, {false, {"x = 'it''s &", "  &more' // y"}}, {false, {"20 if (a) then; b=1"}}, {false, {"p = q&", "&r + s ; t"}}, {false, {" enddo ; endif"}},
    {false, {"10 &", "  a = 1"}}, {false, {" 20 & ! c", "", "  call f(x,& ", "    y) ; b"}}, {false, {"a=1 & ! u", "; & ! v", "; b=2; & ! w", ";"}}, {false, {"a &", "!1", "!2", "!3", "!4", "; b"}}, {false, {"  30   x = 1.5e3 &", "      + y&", "      - z ;"}},
    {true, {"      a = b + c"}}, {true, {"   10 a=b ! cmt"}}, {true, {"      a = b +", "C mid", "     &  c * d ! end"}}, {true, {"      a=1; b = 2 ; c=3"}}, {true, {"20    call f(x,", "     1  y,", "", "     2  z);"}}, {true, {"        p = q", "     &r ; t = 'a!'"}}, {true, {"      ;a=1;;"}}};
  for (auto const &L : lays) {
    auto make = [&] { return L.fixed ? Logical_Line(L.l, 72) : Logical_Line(L.l); };
    Logical_Line l0 = make(); View v0 = view(L.l, L.fixed);
    if (!v0.ok) { fprintf(stderr, "bad layout %s\n", v0.why.c_str()); _exit(3); }
    int depth = r.thorough ? 3 : 2;
    auto first = edits(v0, l0, L.fixed);
    for (auto const &e1 : first) {
      if (r.begin([&] { return std::string(L.fixed ? "fixed " : "free ") + mc::show(L.l) + " edits starting with " + name(e1); })) r.body([&] {
        std::function<void(std::vector<Edit>)> rec = [&](std::vector<Edit> seq) {
          std::string d; for (auto const &e : seq) d += name(e); r.note(std::string(L.fixed ? "fixed " : "free ") + mc::show(L.l), d);
          Logical_Line ll = make(); Ctx c{r, L.fixed, ""}; View v = c.agree(ll, "before any edit"), a;
          try { for (auto const &e : seq) { if (!apply(c, ll, v, e, a)) { r.count(0); return; } v = a; } } catch (Outside const &) { r.count(0); return; }
          r.trace();
          if ((int)seq.size() < depth && !v.toks.empty()) for (auto const &e : edits(v, ll, L.fixed)) { if (seq.size() == 2 && e.op == SUB && e.j - e.i > 1) continue; seq.push_back(e); rec(seq); seq.pop_back(); }
        };
        rec({e1});
      });
    }
  }
}
