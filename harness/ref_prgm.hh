// Program structure: the Fortran nesting grammar (R501-R1052, the part FLPR
// supports) as data; enumeration of all its derivations of a given length, and
// an independent recogniser.  Terminals are statements, written as text.
#ifndef REF_PRGM_HH
#define REF_PRGM_HH
#include <algorithm>
#include <cstdlib>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace refp {
// kind strings are FLPR's published tag labels
static char const *const grammar_text = R"(
program{program} = unit units
units = | unit units
unit = main | headless | sub | fun | module
main{main-program} = T:program:program-stmt spec execo intero endp
headless{main-program} = spec execo intero endp0
endp0 = T:end:end-program-stmt | T:endprogram:end-program-stmt
endp = endp0 | T:endprogramp:end-program-stmt
sub{subroutine-subprogram} = subh spec execo intero endsub
subh = T:subroutine:subroutine-stmt
endsub = T:end:end-subroutine-stmt | T:endsubroutine:end-subroutine-stmt
fun{function-subprogram} = funh spec execo intero endfun
funh = T:function:function-stmt
endfun = T:end:end-function-stmt | T:endfunction:end-function-stmt
module{module} = T:module:module-stmt spec mparto endmod
endmod = T:end:end-module-stmt | T:endmodule:end-module-stmt
mparto = | mpart
mpart{module-subprogram-part} = T:contains:contains-stmt msubs
msubs = | msub msubs
msub{module-subprogram} = sub | fun | sep
sep{separate-module-subprogram} = T:moduleprocedure:mp-subprogram-stmt spec execo intero endsep
endsep = T:end:end-mp-subprogram-stmt | T:endprocedure:end-mp-subprogram-stmt
intero = | inter
inter{internal-subprogram-part} = T:contains:contains-stmt isubs
isubs = | isub isubs
isub{internal-subprogram} = sub | fun
spec{specification-part} = uses imports impl decls0
uses = | T:use:use-stmt uses
imports = | T:import:import-stmt imports
impl{implicit-part} = impls
impls = | imp impls
imp = T:implicit:implicit-stmt | T:parameter:parameter-stmt | T:format:format-stmt | T:entry:entry-stmt
decls0 = | decln decls
decls = | decl decls
decl = decln | T:parameter:parameter-stmt | T:format:format-stmt | T:entry:entry-stmt
decln = type | enum | iface | T:generic:generic-stmt | T:procdecl:procedure-declaration-stmt | T:integer:type-declaration-stmt | T:save:other-specification-stmt | T:private:other-specification-stmt | T:data:data-stmt
type{derived-type-def} = T:type:derived-type-stmt tpars privs comp tbpo T:endtype:end-type-stmt
tpars = | T:intkind:type-param-def-stmt tpars
privs = | priv privs
priv = T:private:private-or-sequence | T:sequence:private-or-sequence
comp{component-part} = comps
comps = | T:integer:component-def-stmt comps
tbpo = | tbp
tbp{type-bound-procedure-part} = T:contains:contains-stmt bprivo binds
bprivo = | T:private:binding-private-stmt
binds = | bind binds
bind = T:tbprocedure:type-bound-proc-binding | T:generic:type-bound-proc-binding | T:final:type-bound-proc-binding
enum{enum-def} = T:enum:enum-def-stmt T:enumerator:enumerator-def-stmt enumrs T:endenum:end-enum-stmt
enumrs = | T:enumerator:enumerator-def-stmt enumrs
iface{interface-block} = T:interface:interface-stmt ifspecs T:endinterface:end-interface-stmt
ifspecs = | ifspec ifspecs
ifspec{interface-specification} = ibody | T:moduleprocedure:procedure-stmt
ibody{interface-body} = funh spec endfun | subh spec endsub
execo = | exec
exec{execution-part} = econ epcs
epcs = | epc epcs
epc = econ | T:format:format-stmt | T:data:data-stmt | T:entry:entry-stmt
block{block} = epcs
econ = T:assign:action-stmt | T:call:action-stmt | T:if:action-stmt | T:wherestmt:action-stmt | T:forallstmt:action-stmt | T:continue:action-stmt | T:return:action-stmt | assoc | blockc | case | do | ifc | selrank | seltype | where | forall
assoc{associate-construct} = T:associate:associate-stmt block T:endassociate:end-associate-stmt
blockc{block-construct} = T:block:block-stmt bspec bblock T:endblock:end-block-stmt
bspec{block-specification-part} = uses imports bdecls
bdecls = | bdecl bdecls
bdecl = type | enum | iface | T:integer:type-declaration-stmt | T:save:other-specification-stmt
bblock{block} = | econ epcs
case{case-construct} = T:selectcase:select-case-stmt cases T:endselect:end-select-stmt
cases = | casest block cases
casest = T:case:case-stmt | T:casedefault:case-stmt
do{do-construct} = dost block T:enddo:end-do-stmt
dost = T:do:do-stmt | T:doi:do-stmt | T:dowhile:do-stmt | T:doconc:do-stmt
ifc{if-construct} = T:ifthen:if-then-stmt block elifs elseo T:endif:end-if-stmt
elifs = | T:elseif:else-if-stmt block elifs
elseo = | T:else:else-stmt block
selrank{select-rank-construct} = T:selectrank:select-rank-stmt ranks T:endselect:end-select-rank-stmt
ranks = | T:rank:select-rank-case-stmt block ranks
seltype{select-type-construct} = T:selecttype:select-type-stmt guards T:endselect:end-select-type-stmt
guards = | guard block guards
guard = T:typeis:type-guard-stmt | T:classdefault:type-guard-stmt
where{where-construct} = T:where:where-construct-stmt wbodies masked elsew T:endwhere:end-where-stmt
wbodies = | wbody wbodies
wbody{where-body-construct} = T:assign:assignment-stmt | T:wherestmt:where-stmt | where
masked = | T:maskedelsewhere:masked-elsewhere-stmt wbodies masked
elsew = | T:elsewhere:elsewhere-stmt wbodies
forall{forall-construct} = T:forall:forall-construct-stmt fbodies T:endforall:end-forall-stmt
fbodies = | fbody fbodies
fbody = T:assign:forall-assignment-stmt | T:wherestmt:where-stmt | T:forallstmt:forall-stmt | where | forall
)";
static std::map<std::string, std::string> const text{
  {"program", "program p"}, {"end", "end"}, {"endprogram", "end program"}, {"endprogramp", "endprogram p"}, {"subroutine", "subroutine s(a)"}, {"endsubroutine", "end subroutine s"},
  {"function", "integer function f(a)"}, {"endfunction", "endfunction f"}, {"module", "module m"}, {"endmodule", "end module m"}, {"contains", "contains"}, {"moduleprocedure", "module procedure q"}, {"endprocedure", "end procedure q"},
  {"use", "use n, only: b"}, {"import", "import :: c"}, {"implicit", "implicit none"}, {"parameter", "parameter (e = 3)"}, {"format", "format (i3)"}, {"entry", "entry g(a)"},
  {"generic", "generic :: operator(+) => h"}, {"procdecl", "procedure(s), pointer :: pp"}, {"integer", "integer :: i"}, {"save", "save"}, {"private", "private"}, {"data", "data x /1/"},
  {"type", "type :: t"}, {"endtype", "end type t"}, {"sequence", "sequence"}, {"intkind", "integer, kind :: k = 4"}, {"tbprocedure", "procedure :: w"}, {"final", "final :: z"}, {"enum", "enum, bind(c)"}, {"enumerator", "enumerator :: red = 1"}, {"endenum", "end enum"},
  {"interface", "interface"}, {"endinterface", "end interface"},
  {"assign", "x = 1"}, {"call", "call s(x)"}, {"if", "if (x > 1) y = 2"}, {"wherestmt", "where (m) v = 0"}, {"forallstmt", "forall (i = 1:3) v(i) = i"}, {"continue", "continue"}, {"return", "return"},
  {"associate", "associate (aa => b%c)"}, {"endassociate", "end associate"}, {"block", "block"}, {"endblock", "end block"}, {"selectcase", "select case (k)"}, {"case", "case (1)"}, {"casedefault", "case default"}, {"endselect", "end select"},
  {"do", "do"}, {"doi", "do i = 1, n"}, {"dowhile", "do while (x < 3)"}, {"doconc", "do concurrent (i = 1:n)"}, {"enddo", "end do"}, {"ifthen", "if (x == 1) then"}, {"elseif", "else if (x == 2) then"}, {"else", "else"}, {"endif", "end if"},
  {"selectrank", "select rank (r)"}, {"rank", "rank (1)"}, {"selecttype", "select type (o)"}, {"typeis", "type is (integer)"}, {"classdefault", "class default"},
  {"where", "where (m > 0)"}, {"maskedelsewhere", "elsewhere (m < 0)"}, {"elsewhere", "elsewhere"}, {"endwhere", "end where"}, {"forall", "forall (i = 1:n)"}, {"endforall", "end forall"},
  {"zap", "zap a"}, {"zip", "zip b c"}, {"ifzap", "if (x > 1) zap a"}}; // client extensions
// what an action statement is
static std::map<std::string, std::string> const action{{"assign", "assignment-stmt"}, {"call", "call-stmt"}, {"if", "if-stmt"}, {"wherestmt", "where-stmt"}, {"forallstmt", "forall-stmt"}, {"continue", "continue-stmt"}, {"return", "return-stmt"}, {"zap", "zap-stmt"}, {"ifzap", "if-stmt"}};

struct Sym { int nt = -1, term = -1; std::string tag; };
struct Rule { std::string name, tag; std::vector<std::vector<Sym>> alts; int minlen = 1000; };
struct Grammar {
  std::vector<Rule> rules; std::map<std::string, int> byname; std::vector<std::string> terms; std::map<std::string, int> term_id; std::vector<std::string> tags;
  int nt(std::string const &n) { auto it = byname.find(n); if (it != byname.end()) return it->second; byname[n] = rules.size(); rules.push_back({n, "", {}, 1000}); return byname[n]; }
  // allowed: terminals to keep (empty = all)
  // more: alternatives on top of the standard's ("rule = alternatives" lines)
  explicit Grammar(std::vector<std::string> const &allowed = {}, std::string const &more = "") {
    std::istringstream is(grammar_text + more); std::string line;
    while (std::getline(is, line)) {
      if (line.empty()) continue;
      size_t eq = line.find(" = "); std::string head = line.substr(0, eq), tag; size_t br = head.find('{');
      if (br != std::string::npos) { tag = head.substr(br + 1, head.size() - br - 2); head.erase(br); tags.push_back(tag); }
      int h = nt(head); if (!tag.empty()) rules[h].tag = tag;
      std::string body = line.substr(eq + 3) + " |"; std::istringstream bs(body); std::string w; std::vector<Sym> cur; bool ok = true;
      while (bs >> w) {
        if (w == "|") { if (ok) rules[h].alts.push_back(cur); cur.clear(); ok = true; continue; }
        Sym s; if (w.compare(0, 2, "T:") == 0) { size_t c = w.find(':', 2); std::string t = w.substr(2, c - 2); s.tag = w.substr(c + 1); if (!text.count(t)) { fprintf(stderr, "no text for %s\n", t.c_str()); abort(); } if (!term_id.count(t)) { term_id[t] = terms.size(); terms.push_back(t); } s.term = term_id[t]; if (!allowed.empty() && std::find(allowed.begin(), allowed.end(), t) == allowed.end()) ok = false; }
        else s.nt = nt(w);
        cur.push_back(s);
      }
    }
    for (auto &r : rules) if (r.alts.empty() && allowed.empty()) { fprintf(stderr, "undefined %s\n", r.name.c_str()); abort(); }
    for (bool ch = true; ch;) { ch = false; for (auto &r : rules) for (auto &a : r.alts) { int m = 0; for (auto &s : a) m += s.nt < 0 ? 1 : rules[s.nt].minlen; if (m < r.minlen) { r.minlen = m; ch = true; } } }
  }
  int min(Sym const &s) const { return s.nt < 0 ? 1 : rules[s.nt].minlen; }
};
// One derivation: a flat event list
struct Ev { enum K { OPEN, TERM, CLOSE } k; int term; std::string const *tag; };
struct Deriv { std::vector<Ev> ev; std::vector<int> terms; };

// All derivations of `start` with exactly n statements
struct Enumerator {
  Grammar const &g; std::function<void(Deriv const &)> cb; Deriv d; std::vector<int> const *guide = nullptr; // only derivations of these statements
  Enumerator(Grammar const &g_, std::function<void(Deriv const &)> c) : g(g_), cb(std::move(c)) {}
  // stack: symbols still to expand, innermost last; null = close marker
  struct It { Sym const *s; };
  std::vector<It> st; int need = 0;
  void run(std::string const &start, int n) { Sym s; s.nt = g.byname.at(start); st.clear(); st.push_back({&s}); need = g.min(s); go(n); }
  void go(int n) {
    if (need > n) return;
    if (st.empty()) { if (n == 0) cb(d); return; }
    It it = st.back(); st.pop_back();
    if (!it.s) { d.ev.push_back({Ev::CLOSE, -1, nullptr}); go(n); d.ev.pop_back(); }
    else if (it.s->nt < 0) { if (guide && (d.terms.size() >= guide->size() || (*guide)[d.terms.size()] != it.s->term)) { st.push_back(it); return; } d.ev.push_back({Ev::TERM, it.s->term, &it.s->tag}); d.terms.push_back(it.s->term); need -= 1; if (n > 0) go(n - 1); need += 1; d.terms.pop_back(); d.ev.pop_back(); }
    else {
      Rule const &r = g.rules[it.s->nt]; int m = r.minlen; need -= m; bool tagged = !r.tag.empty();
      if (tagged) { d.ev.push_back({Ev::OPEN, -1, &r.tag}); st.push_back({nullptr}); }
      for (auto const &a : r.alts) {
        size_t keep = st.size(); int am = 0; for (auto i = a.rbegin(); i != a.rend(); ++i) { st.push_back({&*i}); am += g.min(*i); }
        need += am; go(n); need -= am; st.resize(keep);
      }
      if (tagged) { st.pop_back(); d.ev.pop_back(); }
      need += m;
    }
    st.push_back(it);
  }
};
// Is a sequence of statements derivable?
struct Recogniser {
  Grammar const &g; std::vector<int> const *in = nullptr; std::vector<std::vector<int64_t>> memo; // per nt, per position: bit set of ends, -1 unknown
  explicit Recogniser(Grammar const &g_) : g(g_) {}
  uint64_t ends(int nt, int pos) {
    int64_t &m = memo[nt][pos]; if (m != -1) return m;
    uint64_t out = 0;
    for (auto const &a : g.rules[nt].alts) {
      uint64_t cur = uint64_t(1) << pos;
      for (auto const &s : a) { uint64_t nx = 0; for (int p = 0; p <= (int)in->size(); ++p) if (cur >> p & 1) { if (s.nt < 0) { if (p < (int)in->size() && (*in)[p] == s.term) nx |= uint64_t(1) << (p + 1); } else nx |= ends(s.nt, p); } cur = nx; if (!cur) break; }
      out |= cur;
    }
    memo[nt][pos] = (int64_t)out; return out;
  }
  bool operator()(std::string const &start, std::vector<int> const &seq) { in = &seq; if (seq.size() > 60) abort(); memo.assign(g.rules.size(), std::vector<int64_t>(seq.size() + 1, -1)); return ends(g.byname.at(start), 0) >> seq.size() & 1; }
};
// Expected tree, empty nodes pruned:  tag(child child ...)   leaves: tag#index
inline std::string shape(Deriv const &d, Grammar const &g) {
  std::vector<std::string> st{""}; std::vector<std::string const *> open; int i = 0;
  for (auto const &e : d.ev) {
    if (e.k == Ev::OPEN) { st.push_back(""); open.push_back(e.tag); }
    else if (e.k == Ev::TERM) { std::string t = *e.tag; if (t == "action-stmt") t = action.at(g.terms[e.term]); st.back() += t + "#" + std::to_string(i++) + " "; }
    else { std::string c = st.back(); st.pop_back(); if (!c.empty()) st.back() += *open.back() + "(" + c + ") "; open.pop_back(); }
  }
  return st[0];
}
inline std::vector<std::string> source(std::vector<int> const &terms, Grammar const &g) { std::vector<std::string> v; for (int t : terms) v.push_back(text.at(g.terms[t])); return v; }
} // namespace refp
#endif
