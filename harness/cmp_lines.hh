// Compare a File_Line produced by the implementation with the reference.
#ifndef CMP_LINES_HH
#define CMP_LINES_HH
#include "flpr/File_Line.hh"
#include "ref_lines.hh"
inline std::string describe(FLPR::File_Line const &f) {
  std::ostringstream os;
  os << "{" << (f.is_blank() ? "blank " : "") << (f.is_comment() ? "comment " : "") << (f.is_preprocessor() ? "cpp " : "")
     << (f.is_include() ? "include " : "") << (f.is_flpr_pp() ? "directive " : "") << (f.is_flpr_lit() ? "literal " : "")
     << (f.has_label() ? "label " : "") << (f.is_continuation() ? "continuation " : "") << (f.is_continued() ? "continued " : "")
     << "<" << f.left_txt << "><" << f.left_space << "><" << f.main_txt << "><" << f.right_space << "><" << f.right_txt << "> open="
     << (f.open_delim ? f.open_delim : '-') << "}";
  return os.str();
}
inline bool allws(std::string const &s) { for (char c : s) if (!std::isspace((unsigned char)c)) return false; return true; }
inline std::string strip(std::string const &s) {
  size_t b = 0, e = s.size();
  while (b < e && std::isspace((unsigned char)s[b])) ++b;
  while (e > b && std::isspace((unsigned char)s[e - 1])) --e;
  return s.substr(b, e - b);
}
// "" when they agree
inline std::string differ(FLPR::File_Line const &f, ref::Line const &L, bool fixed) {
  using namespace ref;
  auto say = [&](std::string m) { return m + "; got " + describe(f); };
  int n = f.is_blank() + f.is_comment() + f.is_preprocessor() + f.is_include() + f.is_flpr_pp() + f.is_flpr_lit();
  if (n > 1) return say("more than one line class");
  auto want = [&](Kind k, bool v, char const *nm) { return (L.kind == k) == v ? std::string() : std::string(L.kind == k ? "should be " : "should not be ") + nm; };
  for (auto const &m : {want(BLANK, f.is_blank(), "blank"), want(COMMENT, f.is_comment(), "a comment"), want(CPP, f.is_preprocessor(), "a preprocessor line"),
                        want(INCLUDE, f.is_include(), "an include line"), want(DIRECTIVE, f.is_flpr_pp(), "a directive"),
                        want(LITERAL, f.is_flpr_lit(), "in a literal block"), want(CODE, f.is_fortran(), "code")})
    if (!m.empty()) return say(m);
  if (f.is_fixed_format() != fixed) return say("wrong source form");
  if (L.kind != CODE) {
    if (f.open_delim) return say("open literal on a non-code line");
    return "";
  }
  if (f.has_label() != !L.label.empty()) return say("label presence should be " + std::string(L.label.empty() ? "no" : "yes"));
  if (f.has_label() && strip(f.left_txt) != L.label) return say("label should be " + L.label);
  if (f.is_continuation() != L.starts_cont) return say("leading continuation mark misjudged");
  if (!fixed && f.is_continued() != L.ends_cont) return say("trailing continuation mark misjudged");
  if (!allws(f.left_space) || !allws(f.right_space)) return say("spacing fields hold text");
  if (f.open_delim != L.open) return say(std::string("open literal should be ") + (L.open ? L.open : '-'));
  std::string code = f.main_txt, wc = L.code;
  if (code != wc) return say("code should be <" + wc + ">");
  std::string rt = f.right_txt;
  if (!fixed) {
    if (!rt.empty() && rt[0] == '&') rt = strip(rt.substr(1));
    else rt = rt.empty() ? rt : strip(rt);
    if (rt != strip(L.comment)) return say("comment should be <" + L.comment + ">");
  } else if (rt != L.comment) return say("comment should be <" + L.comment + ">");
  return "";
}
#endif
