// P05: tokens against the reference lexer.
#include "mc.hh"
#include "src_util.hh"
#include "ref_lex.hh"
char const *const mc_property = "P05";
using namespace FLPR;

static std::string const PRE = "( ";   // keeps digits from being a label, '#' from being a directive

// Compare the tokens of one line with the reference
static void check(mc::Run &r, std::string const &body, std::string const &pre = PRE) {
  ref::Lexed L = ref::lex(pre + body);
  if (L.open) { r.count(0); return; }          // ends inside a literal: not a line (P02)
  std::string text = pre + body;
  Logical_Line ll(text);
  std::string got, want, raw; size_t i = 0; bool same = true;
  auto show = [&] {
    std::string g, w; std::ostringstream os;
    for (auto const &t : ll.fragments()) { Syntax_Tags::print(os, t.token); os << ":" << t.text() << "@" << t.start_pos << " "; }
    os << "  expected: ";
    for (auto const &t : L.t) { Syntax_Tags::print(os, t.kind); os << ":" << t.text << "@" << t.pos + 1 << " "; }
    return os.str();
  };
  // lossless and positions, for every text
  size_t cursor = 0;
  for (auto const &t : ll.fragments()) {
    while (cursor < text.size() && (text[cursor] == ' ' || text[cursor] == '\t' || text[cursor] == '\r')) ++cursor;
    if (text.compare(cursor, t.text().size(), t.text()) != 0 || t.text().empty()) r.fail("tokens lose or alter text: " + show());
    if (t.start_pos != (int)cursor + 1) r.fail("token " + mc::show(t.text()) + " reports column " + std::to_string(t.start_pos) + " instead of " + std::to_string(cursor + 1));
    if (t.lower() != ref::low(t.text())) r.fail("lower-case text of " + mc::show(t.text()));
    cursor += t.text().size();
  }
  while (cursor < text.size() && (text[cursor] == ' ' || text[cursor] == '\t' || text[cursor] == '\r')) ++cursor;
  if (cursor != text.size()) r.fail("tokens lose text at the end: " + show());
  // spacing between tokens
  { Token_Text const *prev = nullptr;
    for (auto const &t : ll.fragments()) {
      if (prev) { int gap = t.start_pos - prev->start_pos - (int)prev->text().size();
        if (t.pre_spaces() != gap || prev->post_spaces() != gap) r.fail("spacing between " + mc::show(prev->text()) + " and " + mc::show(t.text()) + " recorded as " + std::to_string(prev->post_spaces()) + "/" + std::to_string(t.pre_spaces()) + " instead of " + std::to_string(gap)); }
      prev = &t; } }
  r.step();
  if (L.odd) { r.count(1); return; }            // malformed number: kinds not specified
  for (auto const &t : ll.fragments()) {
    if (i >= L.t.size() || t.token != L.t[i].kind || t.text() != L.t[i].text) { same = false; break; }
    ++i;
  }
  if (!same || i != L.t.size()) r.fail("tokens differ: " + show());
  uint64_t h = 0; for (auto const &t : L.t) h = mc::mix(h * 31 + t.kind); r.state(h);
  r.trace();
}
static std::string casing(std::string w, unsigned m) { for (size_t i = 0; i < w.size(); ++i) if (m >> (i % 6) & 1) w[i] = std::toupper(w[i]); return w; }

void explore(mc::Run &r) {
  // every keyword and joined keyword, every case pattern (period 6), in context
  std::vector<std::string> words;
  for (auto const &k : ref::keywords) words.push_back(k.w);
  for (auto const &j : ref::joined) { words.push_back(std::string(j.a) + j.b); words.push_back(std::string(j.a) + " " + j.b); words.push_back(std::string(j.a) + "   " + j.b); words.push_back(std::string(j.a) + "_" + j.b); }
  for (char const *w : {"x", "inoutx", "ends", "endblockdata", "selectrank", "enddos", "gotos", "xgoto", "bendif", "end1", "do1", "endif_", "e", "d", "e1", "d1", "doubleprecisionx"}) words.push_back(w);
  std::vector<std::string> pres{"", "x", "x ", "_", "1 ", "%", "(", ",", ".", "::", "'s'", "1.0 ", "1.0,", "=", "a_"};
  std::vector<std::string> posts{"", "x", " x", "1", " 1", "_", "(", " (", "=", "%", ".", "'s'", "_'s'", ",", ":", "::", "*", ";", "\t", "/"};
  for (auto const &w : words)
    if (r.begin([&] { return "keyword " + w + " in every case and context"; })) r.body([&] {
      for (unsigned m = 0; m < 64; ++m) { std::string c = casing(w, m); if (m >= (1u << std::min<size_t>(6, w.size()))) break;
        r.note("word", c); check(r, c); check(r, c, ""); }
      for (auto const &p : pres) for (auto const &q : posts) for (unsigned m : {0u, 63u, 1u, 42u}) {
        std::string c = p + casing(w, m) + q; r.note("word in context", c); check(r, c); }
    });
  // literals with every kind parameter, and dotted operators, in every context
  { std::vector<std::string> lits{".true.", ".false.", ".t.", ".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge.", ".not.", ".and.", ".or.", ".eqv.", ".neqv.", ".xor.", ".eqvx.", ".nots.", "1", "0", "12", "1.", "1.5", ".5", "12.34", "1e3", "1d-2", "1.e+5", "1.D0", "2E10", ".5e-1"};
    std::vector<std::string> kinds{"", "_4", "_16", "_k", "_k1", "_K_2", "_real64", "_if", "_", "_4x"};
    std::vector<std::string> ps{"", "a", "a ", "1", "1 ", ")", "(", "-", ",", "='", "'s'", "a%", "if", ".not.", ".x.", "1.5", "1.5 ", "*"};
    std::vector<std::string> qs{"", " ", "b", " b", "1", ".5", " 1", ")", "(", "-", ",", "'s'", "/", ".and.", ".x.", "e5", "_4", "%re", "*", "=", ":"};
    for (auto const &l : lits) for (auto const &k : kinds)
      if (r.begin([&] { return "literal or operator " + l + k; })) r.body([&] {
        for (auto const &p : ps) for (auto const &q : qs) for (unsigned m : {0u, 63u, 42u}) { std::string c = p + casing(l + k, m) + q; r.note("literal", c); check(r, c); } }); }
  // character literals: every content, delimiter and kind
  { std::string A = "a'\"!&;_ 1"; int n = r.thorough ? 5 : 4; char const *ks[] = {"", "k_", "1_", "K_1_", "12_", "if_", "_", "end_if_", "k _"};
    for (char const *k : ks) for (char q : {'\'', '"'})
      if (r.begin([&] { return std::string("character literals ") + k + q; })) r.body([&] {
        std::function<void(std::string &)> rec = [&](std::string &s) { for (char const *p : {"", "a", "=", "x "}) for (char const *z : {"", "b", "'c'", "//\"d\"", " _k"}) { std::string c = p + (k + (q + s + q)) + z; r.note("literal", c); if (c.find('!') == std::string::npos && c.find('&') == std::string::npos) check(r, c); else { ref::Lexed L = ref::lex(PRE + c); bool inside = !L.open; for (size_t i = 0; inside && i < c.size(); ++i) if (c[i] == '!' || c[i] == '&') { bool in = false; for (auto const &t : L.t) if (t.kind == Syntax_Tags::SG_CHAR_LITERAL_CONSTANT && t.pos <= i + PRE.size() && i + PRE.size() < t.pos + t.text.size()) in = true; inside = in; } if (inside) check(r, c); } }
          if ((int)s.size() < n) for (char c : A) { s += c; rec(s); s.pop_back(); } };
        std::string s; rec(s); }); }
  // words over prefixes, extensions and single-letter changes of keywords are names
  for (auto const &w0 : words)
    if (w0.find(' ') == std::string::npos && r.begin([&] { return "neighbours of " + w0; })) r.body([&] {
      for (size_t i = 0; i < w0.size(); ++i) {
        std::string w = w0; w.erase(i, 1); r.note("deletion", w); if (!w.empty()) check(r, w);
        for (char c : {'a', 'e', 's', '_', '1'}) { w = w0; w[i] = c; r.note("substitution", w); check(r, w); w = w0; w.insert(i, 1, c); r.note("insertion", w); check(r, w); }
        if (i + 1 < w0.size()) { w = w0; std::swap(w[i], w[i + 1]); r.note("transposition", w); check(r, w); }
      }
    });
  for (auto const &w1 : ref::keywords)
    if (r.begin([&] { return std::string("keyword pairs joined: ") + w1.w; })) r.body([&] {
      for (auto const &w2 : ref::keywords) { std::string w = std::string(w1.w) + w2.w; r.note("joined", w); check(r, w); w = std::string(w1.w) + " " + w2.w; check(r, w); } });
  // sequences of lexical pieces, adjacent or separated
  std::vector<std::string> pieces{"a", "B_1", "if", "enddo", "12", "0", "1_k", "7_8", "1.", "1.5", ".5", "1e3", "1.d-2", "2.5E+10_dp", "1.e5_8", "'x'", "\"y\"", "'it''s'", "\"\"", "k_'z'", "1_\"w\"",
    "(", ")", "[", "]", "+", "-", "=", ":", ";", "/", "%", ",", "*", "|", "<", ">", ".eq.", ".NE.", ".and.", ".Not.", ".true.", ".false._k", ".myop.", "..", ".", "@", "$", "#", "?", "\xe9", "=>", "**", "//", "::", "/="};
  unsigned N = pieces.size();
  for (unsigned a = 0; a < N; ++a) for (unsigned b = 0; b < N; ++b)
    if (r.begin([&] { return "pieces " + pieces[a] + " | " + pieces[b] + " | any"; })) r.body([&] {
      auto go = [&](std::string const &s) { r.note("pieces", s); check(r, s); };
      go(pieces[a]); go(pieces[a] + pieces[b]); go(pieces[a] + "  " + pieces[b]); go(" " + pieces[a] + "\t" + pieces[b] + " ");
      for (unsigned c = 0; c < N; ++c) {
        go(pieces[a] + pieces[b] + pieces[c]); go(pieces[a] + " " + pieces[b] + pieces[c]); go(pieces[a] + pieces[b] + " " + pieces[c]); go(pieces[a] + " " + pieces[b] + "   " + pieces[c]);
        if (r.thorough) for (unsigned d = 0; d < N; ++d) { go(pieces[a] + pieces[b] + pieces[c] + pieces[d]); go(pieces[a] + " " + pieces[b] + pieces[c] + " " + pieces[d]); }
      }
    });
  // all character strings
  std::string A = "ae1._'\"=/*<>:+ d"; int len = r.thorough ? 6 : 5;
  for (char c0 : A) for (char c1 : A)
    if (r.begin([&] { return std::string("all strings of up to ") + std::to_string(len) + " characters starting with " + c0 + c1; })) r.body([&] {
      std::function<void(std::string &)> rec = [&](std::string &s) { r.note("text", s); check(r, s); if ((int)s.size() < len) for (char c : A) { s += c; rec(s); s.pop_back(); } };
      std::string s{c0, c1}; rec(s); if (c1 == A[0]) { std::string t{c0}; check(r, t); }
    });
  // ordered pairs of lines: the second must be as if alone
  std::vector<std::string> lines;
  for (auto const &p : pieces) lines.push_back(p);
  for (char const *s : {"x = 1.0", "x = 1.5e3", "x = .5_dp", "e5 = 1", "d2", "_8", "5_x", "x = 1.e", "1 e5", "e", "end do", "1.and.", "x", ".5e", "12", "3 + e2", "7e2", "k_1"}) lines.push_back(s);
  for (auto const &a : lines)
    if (r.begin([&] { return "pairs of lines after " + a; })) r.body([&] {
      for (auto const &b : lines) { r.note("after " + a, b); if (ref::lex(PRE + a).open || ref::lex(PRE + b).open) continue; Logical_Line x(PRE + a); r.step(); check(r, b); if (!std::isdigit((unsigned char)b[0]) && b[0] != '#' && b[0] != '_') check(r, b, ""); check(r, a); }
      Logical_File f; Lines v; for (auto const &b : lines) { v.push_back("( " + a); v.push_back("( " + b); } // and in one file
      if (!scan_free(f, v)) r.fail("file rejected");
      size_t k = 0; for (auto const &ll : f.lines) { auto L = ref::lex(v[k]); std::string w; if (!L.odd) { size_t i = 0; for (auto const &t : ll.fragments()) { if (i >= L.t.size() || L.t[i].kind != t.token || L.t[i].text != t.text() || t.start_line != (int)k + 1) r.fail("line " + std::to_string(k + 1) + " " + mc::show(v[k]) + " tokenised differently in a file"); ++i; } if (i != L.t.size()) r.fail("line " + std::to_string(k + 1) + ": missing tokens"); } ++k; }
      r.step(v.size()); r.trace();
    });
}
