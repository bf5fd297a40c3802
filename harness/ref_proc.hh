// The procedures of a derived program, with the region of each statement.
#ifndef REF_PROC_HH
#define REF_PROC_HH
#include "ref_prgm.hh"
namespace refp {
enum Region { BEGIN, USES, IMPORTS, IMPLICITS, DECLS, EXEC, CONTAINED, END, NREG };
struct Proc { std::string tag; int first = 0, last = 0; bool internal = false, module = false; std::vector<int> region; /* of statements first..last */ };
inline std::vector<Proc> procedures(Deriv const &d, Grammar const &g) {
  static std::vector<std::string> const kinds{"main-program", "subroutine-subprogram", "function-subprogram", "separate-module-subprogram"};
  std::vector<Proc> out; struct Open { std::string const *tag; int proc; }; std::vector<Open> st; int n = 0;
  // per open procedure: depth at which it opened
  for (auto const &e : d.ev) {
    if (e.k == Ev::OPEN) {
      int p = -1;
      if (std::find(kinds.begin(), kinds.end(), *e.tag) != kinds.end()) { p = (int)out.size(); Proc q; q.tag = *e.tag; q.first = n; for (auto const &o : st) { if (o.proc >= 0) q.internal = true; if (*o.tag == "module") q.module = true; } out.push_back(q); }
      st.push_back({e.tag, p});
    } else if (e.k == Ev::CLOSE) { if (st.back().proc >= 0) { Proc &q = out[(size_t)st.back().proc]; q.last = n - 1; q.region.back() = END; } st.pop_back(); }
    else {
      for (size_t i = 0; i < st.size(); ++i) if (st[i].proc >= 0) {
        Proc &q = out[(size_t)st[i].proc]; int r;
        if (i + 1 == st.size()) r = n == q.first ? BEGIN : END; // overwritten for the last one anyway
        else { std::string const &t = *st[i + 1].tag; std::string const &k = g.terms[(size_t)e.term];
          if (t == "execution-part") r = EXEC; else if (t == "internal-subprogram-part") r = CONTAINED;
          else if (i + 2 == st.size()) r = k == "use" ? USES : k == "import" ? IMPORTS : DECLS;
          else r = *st[i + 2].tag == "implicit-part" ? IMPLICITS : DECLS; }
        q.region.push_back(r);
      }
      ++n;
    }
  }
  return out;
}
} // namespace refp
#endif
