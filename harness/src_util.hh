// Small helpers on FLPR's public API shared by harnesses.
#ifndef SRC_UTIL_HH
#define SRC_UTIL_HH
#include "flpr/flpr.hh"
#include <sstream>
#include <string>
#include <vector>
using Lines = std::vector<std::string>;

inline std::string written(FLPR::Logical_File const &f) {
  std::ostringstream os;
  for (auto const &ll : f.lines) os << ll;
  return os.str();
}
inline Lines split_lines(std::string const &t) {
  Lines v; size_t b = 0;
  while (b < t.size()) { size_t e = t.find('\n', b); if (e == std::string::npos) e = t.size(); v.push_back(t.substr(b, e - b)); b = e + 1; }
  return v;
}
inline std::string join(Lines const &v) { std::string s; for (auto const &l : v) { s += l; s += '\n'; } return s; }
inline bool scan_free(FLPR::Logical_File &f, Lines const &v) { return f.scan(v, "t.f90", 0, FLPR::File_Type::FREEFMT); }
inline bool scan_fixed(FLPR::Logical_File &f, Lines const &v, int last = 72) { return f.scan(v, "t.f", last, FLPR::File_Type::FIXEDFMT); }
// tokens as text: kind:text
inline std::string toks(FLPR::Logical_Line const &ll) {
  std::ostringstream os;
  for (auto const &t : ll.fragments()) os << t.token << ':' << t.text() << ' ';
  return os.str();
}
inline std::string toks_full(FLPR::Logical_Line const &ll) {
  std::ostringstream os;
  for (auto const &t : ll.fragments())
    os << t.token << ':' << t.text() << '@' << t.start_line << '.' << t.start_pos << '/' << t.pre_spaces() << '/' << t.post_spaces() << ' ';
  return os.str();
}
#endif
