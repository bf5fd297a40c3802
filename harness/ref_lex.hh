// Reference lexer: the lexical rules of free-form statement text, written from
// the language rules, independent of scan_fort.l / unsmash / Smash_Hash.
#ifndef REF_LEX_HH
#define REF_LEX_HH
#include "ref_keywords.hh"
#include <cctype>
#include <map>
#include <string>
#include <vector>
namespace ref {
struct Tok { int kind; std::string text; size_t pos; };
struct Lexed { std::vector<Tok> t; bool odd = false; bool open = false; };
inline bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool dg(char c) { return c >= '0' && c <= '9'; }
inline bool id(char c) { return al(c) || dg(c) || c == '_'; }
inline std::string low(std::string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
inline int keyword(std::string const &w) {
  static std::map<std::string, int> m = [] { std::map<std::string, int> r; for (auto const &k : keywords) r[k.w] = k.tag; return r; }();
  auto i = m.find(w); return i == m.end() ? -1 : i->second;
}
inline size_t joined_at(std::string const &w) {
  static std::map<std::string, size_t> m = [] { std::map<std::string, size_t> r; for (auto const &j : joined) r[std::string(j.a) + j.b] = std::string(j.a).size(); return r; }();
  auto i = m.find(w); return i == m.end() ? 0 : i->second;
}
inline Lexed lex(std::string const &s) {
  using S = FLPR::Syntax_Tags; Lexed L; size_t i = 0, n = s.size();
  auto at = [&](size_t k) { return k < n ? s[k] : '\0'; };
  auto emit = [&](int k, size_t b, size_t e) { L.t.push_back({k, s.substr(b, e - b), b}); i = e; };
  auto litend = [&](size_t q) -> size_t { // q at opening quote; one past the closing one, or 0
    char c = s[q]; for (size_t k = q + 1; k < n; ++k) if (s[k] == c) { if (at(k + 1) == c) ++k; else return k + 1; } return 0; };
  auto kindend = [&](size_t k) -> size_t { // end of a kind parameter at k, or 0
    if (dg(at(k))) { while (dg(at(k))) ++k; return k; }
    if (al(at(k))) { while (id(at(k))) ++k; return k; } return 0; };
  while (i < n) {
    char c = s[i];
    if (c == ' ' || c == '\t' || c == '\r') { ++i; continue; }
    if (al(c)) {
      size_t e = i; while (id(at(e))) ++e;
      if ((at(e) == '\'' || at(e) == '"') && s[e - 1] == '_') { size_t q = litend(e); if (q) { emit(S::SG_CHAR_LITERAL_CONSTANT, i, q); continue; } L.open = true; }
      std::string w = low(s.substr(i, e - i)); int k = keyword(w); size_t j;
      if (k >= 0) emit(k, i, e);
      else if ((j = joined_at(w))) { emit(keyword(w.substr(0, j)), i, i + j); emit(keyword(w.substr(j)), i, e); }
      else emit(S::TK_NAME, i, e);
      continue;
    }
    if (dg(c) || (c == '.' && dg(at(i + 1)))) {
      size_t b = i, e = i; while (dg(at(e))) ++e;
      bool real = false;
      if (at(e) == '.') {
        size_t o = e + 1; while (al(at(o))) ++o;
        if (!(e > b && o > e + 1 && at(o) == '.')) { real = true; ++e; while (dg(at(e))) ++e; }
      }
      size_t sig = e, x = e;
      if (at(x) == 'e' || at(x) == 'E' || at(x) == 'd' || at(x) == 'D') { ++x; if (at(x) == '+' || at(x) == '-') ++x; if (dg(at(x))) { while (dg(at(x))) ++x; real = true; } else x = sig; }
      size_t k = 0; if (at(x) == '_') k = kindend(x + 1);
      if (!real) {
        if (at(e) == '_' && (at(e + 1) == '\'' || at(e + 1) == '"')) { size_t q = litend(e + 1); if (q) { emit(S::SG_CHAR_LITERAL_CONSTANT, b, q); continue; } L.open = true; }
        emit(S::SG_INT_LITERAL_CONSTANT, b, k ? k : e);
      } else {
        emit(S::SG_SIGNIFICAND, b, sig);
        if (x > sig) { emit(S::SG_EXPONENT_LETTER, sig, sig + 1); emit(S::SG_EXPONENT, sig + 1, x); }
        if (k) { emit(S::TK_UNDERSCORE, x, x + 1); emit(S::SG_KIND_PARAM, x + 1, k); }
        if (at(i) == '.' && dg(at(i + 1))) L.odd = true;
      }
      if (id(at(i)) || at(i) == '\'' || at(i) == '"') L.odd = true;   // a number must be delimited
      continue;
    }
    if (c == '\'' || c == '"') {
      size_t q = litend(i); if (q) emit(S::SG_CHAR_LITERAL_CONSTANT, i, q); else { L.open = true; emit(S::UNKNOWN, i, i + 1); }
      continue;
    }
    if (c == '.') {
      size_t o = i + 1; while (al(at(o))) ++o;
      if (o > i + 1 && at(o) == '.') {
        std::string w = low(s.substr(i, o + 1 - i)); ++o;
        static std::map<std::string, int> ops{{".eq.", S::TK_REL_EQ}, {".ne.", S::TK_REL_NE}, {".lt.", S::TK_REL_LT}, {".le.", S::TK_REL_LE}, {".gt.", S::TK_REL_GT}, {".ge.", S::TK_REL_GE},
          {".not.", S::TK_NOT_OP}, {".and.", S::TK_AND_OP}, {".or.", S::TK_OR_OP}, {".eqv.", S::TK_EQV_OP}, {".neqv.", S::TK_NEQV_OP}};
        if (w == ".true." || w == ".false.") {
          size_t k = at(o) == '_' ? kindend(o + 1) : 0;
          emit(w == ".true." ? S::TK_TRUE_CONSTANT : S::TK_FALSE_CONSTANT, i, k ? k : o);
          if (id(at(i))) L.odd = true;
          continue;
        }
        auto f = ops.find(w); emit(f == ops.end() ? S::TK_DEF_OP : f->second, i, o);
        continue;
      }
      if (at(i + 1) == '.') { emit(S::TK_DBL_DOT, i, i + 2); continue; }
      emit(S::UNKNOWN, i, i + 1); continue;
    }
    struct Sym { char const *s; int k; };
    static Sym const syms[] = { // longest first
      {"::", S::TK_DBL_COLON}, {"**", S::TK_POWER_OP}, {"//", S::TK_CONCAT}, {"=>", S::TK_ARROW}, {"==", S::TK_REL_EQ}, {"/=", S::TK_REL_NE}, {"<=", S::TK_REL_LE}, {">=", S::TK_REL_GE},
      {"(", S::TK_PARENL}, {")", S::TK_PARENR}, {"[", S::TK_BRACKETL}, {"]", S::TK_BRACKETR}, {"+", S::TK_PLUS}, {"-", S::TK_MINUS}, {"=", S::TK_EQUAL}, {":", S::TK_COLON}, {";", S::TK_SEMICOLON},
      {"/", S::TK_SLASHF}, {"%", S::TK_PERCENT}, {",", S::TK_COMMA}, {"*", S::TK_ASTERISK}, {"|", S::TK_VBAR}, {"<", S::TK_REL_LT}, {">", S::TK_REL_GT}};
    bool hit = false;
    for (auto const &y : syms) { size_t l = std::char_traits<char>::length(y.s); if (s.compare(i, l, y.s) == 0) { emit(y.k, i, i + l); hit = true; break; } }
    if (!hit) emit(S::UNKNOWN, i, i + 1);
  }
  return L;
}
} // namespace ref
#endif
