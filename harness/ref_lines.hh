// Reference model of source-line anatomy, written from the Fortran source-form
// rules (and FLPR's documented extensions), independent of File_Line.cc.
#ifndef REF_LINES_HH
#define REF_LINES_HH
#include <string>
#include <vector>
#include <cctype>

namespace ref {
enum Kind { BLANK, COMMENT, CPP, INCLUDE, DIRECTIVE, LITERAL, CODE, ERROR };
struct Line {
  Kind kind = CODE;
  bool starts_cont = false;  // leading & / column 6 mark
  bool ends_cont = false;    // trailing & (free form only)
  std::string label;         // digits, "" if none
  std::string code;          // text of the statement part
  std::string comment;       // trailing comment from its '!'
  char open = 0;             // literal left open
  bool odd = false;          // malformed: outside the specified domain
};
struct State { bool cont = false; char open = 0; bool lit = false; };

inline bool wsp(char c) { return c == ' ' || c == '\t' || c == '\r'; }
inline size_t firstnb(std::string const &s) { size_t i = 0; while (i < s.size() && wsp(s[i])) ++i; return i; }
inline bool ieq(std::string const &s, size_t at, char const *lit) {
  for (size_t k = 0; lit[k]; ++k) if (at + k >= s.size() || std::tolower((unsigned char)s[at + k]) != lit[k]) return false;
  return true;
}
inline bool include_at(std::string const &s, size_t f) {
  if (!ieq(s, f, "include")) return false;
  f += 7; while (f < s.size() && s[f] == ' ') ++f;
  return f < s.size() && (s[f] == '\'' || s[f] == '"');
}
inline bool directive_at(std::string const &s, size_t f) { return s.compare(f, 6, "!#flpr") == 0; }
inline bool literal_at(std::string const &s, size_t f) {
  // a three-character language tag follows "!#flpr"
  return directive_at(s, f) && s.size() >= f + 17 && s.compare(f + 9, 8, " literal") == 0;
}
inline std::string rtrim(std::string s) { while (!s.empty() && (s.back() == ' ' || s.back() == '\t')) s.pop_back(); return s; }

// One free-form line in entry state st; st is advanced.
inline Line free_line(std::string const &s, State &st) {
  Line L; size_t f = firstnb(s);
  if (st.lit) { L.kind = LITERAL; if (f < s.size() && literal_at(s, f)) st.lit = false; st.cont = false; st.open = 0; return L; }
  if (f == s.size()) { L.kind = BLANK; return L; }                   // state passes through
  if (s[0] == '#') { L.kind = CPP; if (st.cont) L.odd = true; st = State{}; return L; }
  if (include_at(s, f)) { L.kind = INCLUDE; if (st.cont) L.odd = true; st = State{}; return L; }
  if (s[f] == '!') {
    if (literal_at(s, f)) { L.kind = LITERAL; if (st.cont) L.odd = true; st = State{}; st.lit = true; return L; }
    if (directive_at(s, f)) { L.kind = DIRECTIVE; if (st.cont) L.odd = true; st = State{}; return L; }
    L.kind = COMMENT; return L;                                       // state passes through
  }
  L.kind = CODE;
  size_t i = f;
  if (!st.cont && std::isdigit((unsigned char)s[i])) {
    while (i < s.size() && std::isdigit((unsigned char)s[i])) L.label += s[i++];
    if (L.label.size() > 5) L.odd = true;                             // not a label: malformed
    while (i < s.size() && wsp(s[i])) ++i;
  } else if (s[i] == '&') { L.starts_cont = true; ++i; }
  char q = st.open; size_t b = i;
  bool done = false;
  for (; i < s.size() && !done; ++i) {
    char c = s[i];
    if (q) {
      if (c == q) q = 0;
      else if (c == '&') {
        size_t j = i + 1; while (j < s.size() && std::isspace((unsigned char)s[j])) ++j;
        if (j == s.size()) { L.ends_cont = true; L.open = q; done = true; L.code = s.substr(b, i - b); }
      }
    } else if (c == '\'' || c == '"') q = c;
    else if (c == '!') { L.code = rtrim(s.substr(b, i - b)); L.comment = s.substr(i); done = true; }
    else if (c == '&') {
      L.code = rtrim(s.substr(b, i - b)); L.ends_cont = true; done = true;
      size_t j = i + 1; while (j < s.size() && wsp(s[j])) ++j;
      if (j < s.size()) { if (s[j] == '!') L.comment = s.substr(j); else L.odd = true; }  // text after & : malformed
    }
  }
  if (!done) {
    if (q) { L.kind = ERROR; return L; }
    L.code = rtrim(s.substr(b));
  }
  st.cont = L.ends_cont; st.open = L.open;
  return L;
}

// tabs of the first tab run, when it starts in the control columns, become six blanks each
inline std::string expand(std::string const &in) {
  size_t t = in.find('\t');
  if (t == std::string::npos || t >= 6) return in;
  size_t e = t; while (e < in.size() && in[e] == '\t') ++e;
  return in.substr(0, t) + std::string(6 * (e - t), ' ') + in.substr(e);
}

// One fixed-form line. last == 0: no limit.  `written`: what writing it back gives.
inline Line fixed_line(std::string const &in, int last, State &st, std::string &written) {
  Line L; std::string s = expand(in); written = s;
  size_t f = firstnb(s);
  if (f == s.size()) { L.kind = BLANK; return L; }
  bool comment_mark = false;
  if (f != 5) {
    if (s[0] == '#') { L.kind = CPP; st = State{}; return L; }
    if (include_at(s, f)) { L.kind = INCLUDE; st = State{}; return L; }
    comment_mark = s[f] == '!' || (f == 0 && (s[0] == '*' || s[0] == 'c' || s[0] == 'C'));
    if (comment_mark) {
      if (literal_at(s, f) ) { L.kind = ERROR; return L; }
      if (s[f] == '!' && directive_at(s, f)) { L.kind = DIRECTIVE; st = State{}; return L; }
      if (s[f] != '!' && s.compare(f + 1, 5, "#flpr") == 0) L.odd = true;
      L.kind = COMMENT; return L;
    }
  }
  L.kind = CODE;
  size_t i = 6;
  char q = 0;
  if (f == 5) {
    if (s[5] != '0') { L.starts_cont = true; q = st.open; }
    else if (st.open) L.odd = true;
  } else if (f < 5) {
    size_t j = f;
    while (j < s.size() && j < 5 && std::isdigit((unsigned char)s[j])) L.label += s[j++];
    if (L.label.empty()) L.odd = true;                     // code in the label field
    while (j < s.size() && j < 6) { if (s[j] != ' ') L.odd = true; ++j; } // junk, or column-6 mark on a labelled line
    if (st.open) L.odd = true;
  } else if (st.open) L.odd = true;                         // literal never closed
  // statement body
  bool open_in = q != 0;
  size_t lim = last > 0 ? std::min<size_t>(last, s.size()) : s.size();
  size_t b = 6;
  if (!open_in) while (b < s.size() && std::isspace((unsigned char)s[b])) ++b;
  if (b >= s.size()) { if (open_in) { L.odd = true; } L.kind = BLANK; if (!L.odd) { } return L; }
  if (last > 0 && b >= (size_t)last) { L.odd = true; return L; }    // nothing before the last column
  if (last > 0 && last < 7) { L.odd = true; return L; }
  size_t e = std::string::npos;
  for (i = b; i < lim; ++i) {
    char c = s[i];
    if (q) { if (c == q) q = 0; }
    else if (c == '\'' || c == '"') q = c;
    else if (c == '!') { e = i; break; }
  }
  if (e == std::string::npos) {
    L.code = s.substr(b, lim - b); L.open = q;
    if (lim < s.size()) {
      std::string tail = s.substr(lim); size_t t = firstnb(tail);
      if (t == tail.size()) tail.clear();
      else if (tail[t] != '!' && tail[t] != '&') tail = "! " + tail;
      L.comment = tail; written = s.substr(0, lim) + tail;
    }
  } else { L.code = s.substr(b, e - b); L.comment = s.substr(e); }
  if (!L.open) L.code = rtrim(L.code);
  if (L.code.empty()) L.odd = true;   // only commentary after a label / mark
  st.open = L.open; st.cont = false;
  return L;
}
} // namespace ref
#endif
