// Reference reading of a whole source file: what program its lines say.
#ifndef REF_READ_HH
#define REF_READ_HH
#include "mc.hh"
#include "src_util.hh"
#include "ref_lex.hh"
#include "ref_lines.hh"
namespace refr {
// kind: s statement line, ! comment, p anything else.  Where it stands is not
// compared: line, column of the text, and the last line.
struct Item { char kind; int label; std::string text; int line = 0, col = 0, last = 0; bool operator==(Item const &o) const { return kind == o.kind && label == o.label && text == o.text; } };
struct Prog { std::vector<Item> items; bool ok = true; std::string why; };
inline std::string strip(std::string s) { while (!s.empty() && std::isspace((unsigned char)s.back())) s.pop_back(); size_t b = 0; while (b < s.size() && std::isspace((unsigned char)s[b])) ++b; return s.substr(b); }
// what a comment says, whatever introduces it
inline std::string words(std::string s, bool line, bool fixed) { if (line && fixed && !s.empty() && (s[0] == 'c' || s[0] == 'C' || s[0] == '*')) s[0] = '!'; s = strip(s); size_t b = 0; while (b < s.size() && (s[b] == '!' || s[b] == '&' || s[b] == ' ' || s[b] == '\t')) ++b; return s.substr(b); }
inline Prog read(Lines const &v, bool fixed, int last) {
  Prog p; ref::State st; int stmt = -1; std::string text; bool open_before = false, pending = false, cpp_cont = false;
  auto close = [&] { if (stmt < 0) return; auto L = ref::lex(text); bool stray = false; for (auto const &t : L.t) stray = stray || t.text == "&"; /* no statement has one */ if (L.open || L.odd || stray) { p.ok = false; p.why = "statement " + text; } std::string o; for (auto const &t : L.t) o += std::to_string(t.kind) + ":" + t.text + " "; p.items[(size_t)stmt].text = o; stmt = -1; text.clear(); pending = false; };
  auto bad = [&](std::string const &m) { p.ok = false; p.why = m; };
  int lno = -1; auto put = [&](char k, int l, std::string const &t, size_t c) { p.items.push_back({k, l, t, lno, (int)c, lno}); };
  for (auto const &s : v) { ++lno;
    if (cpp_cont) { put('p', 0, s, 0); st = ref::State{}; auto t = ref::rtrim(s); cpp_cont = !t.empty() && t.back() == '\\'; continue; }
    ref::State before = st; std::string w; ref::Line L = fixed ? ref::fixed_line(s, last, st, w) : ref::free_line(s, st);
    if (L.kind == ref::ERROR || L.odd) { bad("line " + mc::show(s)); return p; }
    switch (L.kind) {
    case ref::BLANK: break;
    case ref::COMMENT: { auto x = words(s, true, fixed); if (!x.empty()) put('!', 0, x, ref::firstnb(s)); break; }
    case ref::CODE: {
      bool cont = fixed ? L.starts_cont : before.cont;
      if (cont && stmt < 0) { bad("nothing to continue at " + mc::show(s)); return p; }
      if (!fixed && L.starts_cont && !before.cont) { bad("unexpected & at " + mc::show(s)); return p; }
      if (!fixed && !L.label.empty()) { size_t e = s.find(L.label) + L.label.size(); if (std::stoi(L.label) == 0 || e >= s.size() || !std::isspace((unsigned char)s[e])) { bad("label at " + mc::show(s)); return p; } }
      if (!cont) { close(); put('s', L.label.empty() ? 0 : std::stoi(L.label), "", 0); stmt = (int)p.items.size() - 1; { std::string e = fixed ? ref::expand(s) : s; size_t q = fixed ? 6 : 0; if (!fixed && !L.label.empty()) q = e.find(L.label) + L.label.size(); while (q < e.size() && std::isspace((unsigned char)e[q])) ++q; p.items.back().col = (int)q; } }
      std::string code = L.code; size_t lead = 0; if (!before.open) while (lead < code.size() && std::isspace((unsigned char)code[lead])) ++lead; code.erase(0, lead);
      if (cont && !open_before) { // a blank where the lines meet?
        bool sp = pending; size_t c;
        if (fixed) { std::string e = ref::expand(s); c = 6; if (c < e.size() && std::isspace((unsigned char)e[c])) sp = true; }
        else if (!L.starts_cont) sp = true; else { c = s.find('&') + 1; if (c < s.size() && s[c] == ' ') sp = true; }
        if (sp) text += ' '; }
      text += code; pending = false; p.items[(size_t)stmt].last = lno;
      { std::string e = fixed ? ref::expand(s) : s; size_t q = e.find(L.code); if (q != std::string::npos && !L.open) { size_t k = q + L.code.size(); if (k < e.size() && std::isspace((unsigned char)e[k]) && !(fixed && last > 0 && k >= (size_t)last)) pending = true; } }
      open_before = L.open; auto x = words(L.comment, false, fixed); if (!x.empty()) put('!', 0, x, 100000); break; }
    default: close(); put('p', 0, strip(s), 0); if (L.kind == ref::CPP) { auto t = ref::rtrim(s); cpp_cont = !t.empty() && t.back() == '\\'; } break;
    }
  }
  if (!fixed && st.cont) bad("ends in a continuation");
  close(); return p;
}
inline std::string show(Prog const &p) { if (!p.ok) return "broken: " + p.why; std::string s; for (auto const &i : p.items) s += std::string(1, i.kind) + (i.label ? std::to_string(i.label) : "") + "[" + i.text + "] "; return s; }
} // namespace refr
#endif
