// P17: TT_Stream as an index into a token sequence.
#include "mc.hh"
#include "src_util.hh"
#include "flpr/TT_Stream.hh"
char const *const mc_property = "P17";
using namespace FLPR;

struct S {
  mc::Run &r; TT_Stream &ts; std::vector<TT_SEQ::iterator> it; // tokens then end
  std::vector<std::string> txt; std::vector<int> tok; int n;
  void bad(std::string m) { r.fail(m); }
  void at(int p, std::string const &ctx) {
    auto e = [&](bool ok, char const *m) { if (!ok) bad(ctx + ": at token " + std::to_string(p) + ": " + m); };
    e(ts.next_iterator() == it[p], "position (next_iterator)");
    e(ts.num_consumed() == p, "num_consumed()");
    e(ts.curr() == (p ? tok[p - 1] : Syntax_Tags::BAD), "curr()");
    e(ts.curr_tt().text() == (p ? txt[p - 1] : ""), "curr_tt()");
    e(ts.peek() == (p < n ? tok[p] : Syntax_Tags::BAD), "peek()");
    for (int k = 1; k <= n + 3; ++k) { int w = p + k - 1 < n ? tok[p + k - 1] : Syntax_Tags::BAD; e(ts.peek(k) == w, ("peek(" + std::to_string(k) + ")").c_str()); e(ts.peek_tt(k).token == w, "peek_tt()"); if (p + k - 1 < n) e(&ts.peek_tt(k) == &*it[p + k - 1], "peek_tt() identity"); }
    e(ts.peek_back() == (n ? tok[n - 1] : Syntax_Tags::BAD), "peek_back()");
    e(ts.mark() == it[p], "mark()");
    r.step();
  }
  int match_fwd(int p, int open, int close) { int d = 0; for (int i = p; i < n; ++i) { if (tok[i] == open) ++d; else if (tok[i] == close && --d == 0) return i; } return -1; }
  int match_back(int p) { int d = 0; for (int i = p; i >= 0; --i) { if (tok[i] == Syntax_Tags::TK_PARENR) ++d; else if (tok[i] == Syntax_Tags::TK_PARENL && --d == 0) return i; } return -1; }
  void go(int p) { ts.rewind(it[p]); }
  void capture(int p, int q, TT_Stream::Capture const &c, std::string const &ctx) {
    std::string want, got; for (int i = p; i < q; ++i) want += txt[i];
    ts.capture_text(c, got);
    if (got != want) bad(ctx + ": captured text " + mc::show(got) + " instead of " + mc::show(want));
    if (c.size() != q - p || c.empty() != (p == q)) bad(ctx + ": capture size");
    LL_TT_Range g = ts.capture_to_range(c); if ((int)g.size() != q - p || (p < q && (&g.front() != &*it[p] || &g.back() != &*it[q - 1]))) bad(ctx + ": capture_to_range");
  }
};
static void stream_case(mc::Run &r, std::string const &text, int depth) {
  LL_SEQ seq; seq.emplace_back(text); Logical_Line &ll = seq.back();
  std::vector<TT_SEQ::iterator> all; for (auto i = ll.fragments().begin(); i != ll.fragments().end(); ++i) all.push_back(i); all.push_back(ll.fragments().end());
  int N = (int)all.size() - 1;
  // the whole line and every proper sub-range: bounds of the stream, not of the line, count
  for (int b = 0; b <= N; ++b) for (int e = b; e <= N; ++e) {
    if (b != 0 && e != N && N > 4 && b + 1 != e) continue;
    LL_TT_Range rg(seq.begin(), all[b], all[e]); TT_Stream ts(rg);
    S s{r, ts, {all.begin() + b, all.begin() + e + 1}, {}, {}, e - b};
    for (int i = b; i < e; ++i) { s.txt.push_back(all[i]->text()); s.tok.push_back(all[i]->token); }
    int n = s.n;
    std::string ctx = "tokens [" + std::to_string(b) + "," + std::to_string(e) + ")";
    s.at(0, ctx + " start");
    for (int p = 0; p <= n; ++p) {
      s.go(p); s.at(p, ctx + " rewind(mark)");
      auto cap0 = ts.capture_begin(); if (!cap0.empty() || cap0.size() != 0) s.bad(ctx + ": open capture not empty");
      for (int k = 0; p + k <= n; ++k) { // consume / digest / capture / rewind
        s.go(p); auto m = ts.mark(); auto c = ts.capture_begin(); if (k == 1) ts.consume(); else ts.consume(k); s.at(p + k, ctx + " consume"); ts.capture_end(c); s.capture(p, p + k, c, ctx);
        if (depth > 1) for (int q = 0; q <= n; ++q) { s.go(q); s.capture(p, p + k, c, ctx + " later"); }
        ts.rewind(m); s.at(p, ctx + " rewind(mark) after consume");
        auto g = ts.digest(k); s.at(p + k, ctx + " digest"); if ((int)g.size() != k || (k && (&g.front() != &*s.it[p] || &g.back() != &*s.it[p + k - 1]))) s.bad(ctx + ": digest range"); if (g.it() != seq.begin()) s.bad("digest line");
      }
      s.go(p); ts.put_back(); s.at(p ? p - 1 : 0, ctx + " put_back");
      s.go(p); ts.rewind(); s.at(0, ctx + " rewind()");
      s.go(p); ts.consume_until_eol(); s.at(n, ctx + " consume_until_eol");
      s.go(p); { bool q = ts.is_eol(); bool semi = p < n && s.tok[p] == Syntax_Tags::TK_SEMICOLON; if (q != (p == n || semi)) s.bad(ctx + ": is_eol()"); s.at(semi ? p + 1 : p, ctx + " is_eol"); }
      if (p < n) { s.go(p); ts.expect_tok(s.tok[p]); s.at(p + 1, ctx + " expect_tok"); }
      if (p < n && s.tok[p] == Syntax_Tags::TK_NAME) { s.go(p); if (ts.expect_id() != s.txt[p]) s.bad("expect_id"); s.at(p + 1, ctx + " expect_id"); s.go(p); std::string low = s.txt[p]; for (char &ch : low) ch = std::tolower(ch); if (ts.expect_id_low() != low) s.bad("expect_id_low"); s.at(p + 1, ctx + " expect_id_low"); }
      if (p < n && s.tok[p] == Syntax_Tags::SG_INT_LITERAL_CONSTANT) { s.go(p); if (ts.expect_integer() != std::stoi(s.txt[p])) s.bad("expect_integer"); s.at(p + 1, ctx + " expect_integer"); }
      auto search = [&](bool got, int want, int pos, char const *nm) { if (got != (want >= 0)) s.bad(ctx + ": " + nm + " from token " + std::to_string(p) + " returned " + (got ? "true" : "false")); if (want >= 0) s.at(pos, ctx + " " + nm); };
      if (p < n && s.tok[p] == Syntax_Tags::TK_PARENL) {
        int m = s.match_fwd(p, Syntax_Tags::TK_PARENL, Syntax_Tags::TK_PARENR);
        s.go(p); search(ts.move_to_close_paren(), m, m + 1, "move_to_close_paren");
        if (m >= 0 && depth > 1) { bool ok = ts.move_to_open_paren(); if (!ok) s.bad(ctx + ": cannot go back to the open paren"); s.at(p + 1, ctx + " there and back"); }
        s.go(p); search(ts.move_before_close_paren(), m, m, "move_before_close_paren");
      }
      { int m = p && s.tok[p - 1] == Syntax_Tags::TK_PARENR ? s.match_back(p - 1) : -1; s.go(p); search(ts.move_to_open_paren(), m, m + 1, "move_to_open_paren"); if (m < 0 && !(p && s.tok[p - 1] == Syntax_Tags::TK_PARENR)) s.at(p, ctx + " refused move_to_open_paren"); }
      if (p < n && s.tok[p] == Syntax_Tags::TK_BRACKETL) { int m = s.match_fwd(p, Syntax_Tags::TK_BRACKETL, Syntax_Tags::TK_BRACKETR); s.go(p); search(ts.ignore_bracket_expr(), m, m + 1, "ignore_bracket_expr"); }
      // unkeyword on a copy of the line
      for (int k = -1; k <= n - p; ++k) {
        LL_SEQ s2; s2.emplace_back(text); auto &f2 = s2.back().fragments(); auto bi = std::next(f2.begin(), b), ei = std::next(f2.begin(), e);
        TT_Stream t2(LL_TT_Range(s2.begin(), bi, ei)); t2.consume(p); if (k < 0) t2.unkeyword(); else t2.unkeyword(k);
        int i = 0; for (auto const &t : f2) { int w = all[i]->token; int rel = i - b; if (rel >= p && rel < n && (k < 0 || rel < p + k) && Syntax_Tags::is_keyword(w)) w = Syntax_Tags::TK_NAME; if (t.token != w || t.text() != all[i]->text()) s.bad(ctx + ": unkeyword(" + std::to_string(k) + ") at " + std::to_string(p)); ++i; }
        r.step();
      }
      r.state(mc::hash(text, p * 31 + b * 7 + e));
    }
    r.trace();
  }
}
void explore(mc::Run &r) {
  std::vector<std::string> T{"A", "(", ")", "[", "]", ","}, U{"if", "7", ";", "(", ")", "B1"};
  int maxlen = r.thorough ? 7 : 5;
  for (auto const *V : {&T, &U}) for (int len = 0; len <= maxlen - (V == &U); ++len) {
    std::vector<size_t> ix(len, 0);
    for (;;) {
      std::string s; for (auto i : ix) s += (s.empty() ? "" : " ") + (*V)[i];
      if (!s.empty() && s[0] == '7') s = "; " + s;
      if (r.begin([&] { return "line " + mc::show(s); })) r.body([&] { stream_case(r, s, len <= 4 ? 2 : 1); });
      int k = 0; while (k < len && ++ix[k] == V->size()) ix[k++] = 0;
      if (k == len) break;
    }
  }
}
