// P12: labelled DO loops, against a nesting automaton; and the label stack.
#include "mc.hh"
#include <functional>
#include <map>
#include "src_util.hh"
#include "flpr/Parsed_File.hh"
char const *const mc_property = "P12";
using namespace FLPR;
using File = Parsed_File<>;
using Node = File::Parse_Tree::node;
using Parse = Prgm::Parsers<>;

enum Kind { LDO, DO, ENDDO, IF, ELSE, ENDIF, CONT, ACT, FMT };
struct St { char const *text; Kind k; int label, target; };
struct Fr { Kind k; int target; int head; std::string done, cur; }; // done: finished blocks of an IF; cur: current block
struct Auto { // reference automaton
  std::vector<Fr> st{{ACT, 0, -1, "", ""}}; bool bad = false; int i = 0; std::vector<int> labels;
  static std::string wrap(char const *t, std::string const &c) { return c.empty() ? "" : std::string(t) + "(" + c + ") "; }
  void put(St const &s) {
    std::string leaf = "#" + std::to_string(i) + " ";
    if (s.label) { if (std::find(labels.begin(), labels.end(), s.label) != labels.end()) { bad = true; return; } labels.push_back(s.label); }
    bool open = false; if (s.label) for (auto &f : st) if (f.k == LDO && f.target == s.label) open = true;
    if (open) {
      int n = 0; while (st[st.size() - 1 - n].k == LDO && st[st.size() - 1 - n].target == s.label) ++n;
      if (n == 0) { bad = true; return; }
      int outer = 0; for (auto &f : st) if (f.k == LDO && f.target == s.label) ++outer;
      if (outer != n) { bad = true; return; }
      if (s.k == CONT || s.k == ACT || (s.k == ENDDO && n == 1)) {
        for (int q = n; q >= 1; --q) {
          Fr f = st.back(); st.pop_back(); std::string h = "#" + std::to_string(f.head) + " ", t;
          if (n == 1 && s.k != ACT) t = wrap("do-construct", h + wrap("block", f.cur) + leaf);
          else if (n == 1) t = wrap("nonblock-do-construct", wrap("action-term-do-construct", h + wrap("do-body", f.cur) + wrap("do-term-action-stmt", leaf)));
          else t = wrap("nonblock-do-construct", wrap(q == 1 ? "outer-shared-do-construct" : "inner-shared-do-construct", h + wrap("do-body", f.cur) + wrap("do-term-shared-stmt", leaf)));
          st.back().cur += t;
        }
      } else { bad = true; return; }
    } else switch (s.k) {
      case LDO: case DO: case IF: st.push_back({s.k, s.target, i, "", ""}); break;
      case ELSE: if (st.back().k != IF || st.back().target) { bad = true; return; } st.back().done = wrap("block", st.back().cur) + leaf; st.back().cur = ""; st.back().target = 1; break;
      case ENDDO: case ENDIF: {
        Fr f = st.back(); if (f.k != (s.k == ENDDO ? DO : IF)) { bad = true; return; } st.pop_back();
        st.back().cur += wrap(s.k == ENDDO ? "do-construct" : "if-construct", "#" + std::to_string(f.head) + " " + f.done + wrap("block", f.cur) + leaf); break; }
      default: st.back().cur += leaf;
    }
    ++i;
  }
  bool complete() const { return !bad && st.size() == 1; }
};
static std::map<std::string, int> tagno;
static std::vector<char> keep;
static std::string shape(Node &n, std::map<LL_Stmt const *, int> const &num) {
  if (n->is_stmt()) { auto it = num.find(&n->ll_stmt()); return "#" + (it == num.end() ? "?" : std::to_string(it->second - 1)) + " "; }
  std::string c; for (auto &b : n.branches()) c += shape(b, num);
  if (c.empty()) return "";
  return keep[n->syntag()] ? Syntax_Tags::label(n->syntag()) + "(" + c + ") " : c;
}
// spans: a node covers exactly the statements from its first to its last leaf
static std::pair<int, int> spans(mc::Run &r, Node &n, std::map<LL_Stmt const *, int> const &num) {
  if (n->is_stmt()) { int b = num.at(&n->ll_stmt()); return {b, b}; }
  std::pair<int, int> s{1 << 20, -1};
  for (auto &b : n.branches()) { auto x = spans(r, b, num); if (x.second < 0) continue; if (s.second >= 0 && x.first != s.second + 1 && x.first != s.second) r.fail("children of " + Syntax_Tags::label(n->syntag()) + " are not adjacent"); s.first = std::min(s.first, x.first); s.second = std::max(s.second, x.second); }
  auto &sr = n->stmt_range();
  int want = s.second < 0 ? 0 : s.second - s.first + 1;
  if ((int)sr.size() != want) r.fail("node " + Syntax_Tags::label(n->syntag()) + " spans " + std::to_string(sr.size()) + " statements instead of " + std::to_string(want));
  if (want && (num.at(&*sr.begin()) != s.first || sr.end() != std::next(sr.begin(), want))) r.fail("node " + Syntax_Tags::label(n->syntag()) + " spans other statements");
  return s;
}
static void check(mc::Run &r, std::vector<St const *> const &seq, bool ok, std::string const &want) {
  Lines src{"subroutine s"}; for (auto *s : seq) src.push_back(s->text); src.push_back("end subroutine s");
  { std::istringstream is(join(src)); File f(is, "t.f90", 0); auto &t = f.parse_tree(); r.step();
    if (bool(f) != ok) r.fail(ok ? "a well-formed loop nest is rejected" : "an ill-formed loop nest is accepted");
    if (ok) {
      std::map<LL_Stmt const *, int> num; int n = 0; for (auto &s : f.statements()) num[&s] = n++;
      if (n != (int)src.size()) r.fail("statement list");
      std::string got = shape(*t, num), w = "#-1 " + want + "#" + std::to_string(seq.size()) + " ";
      if (got != w) r.fail("tree is " + got + " instead of " + w);
      spans(r, *t, num); r.state(mc::hash(got)); r.trace();
    } }
  { std::istringstream is(join(Lines(src.begin() + 1, src.end()))); Logical_File lf; lf.read_and_scan(is, "t.f90", 0); lf.make_stmts();
    Parse::State st(lf.ll_stmts); auto res = Parse::execution_part(st); r.step();
    if (!st.do_label_stack.empty()) r.fail("labels are left on the label stack after execution_part");
    if (ok && !seq.empty()) { if (!res.match) r.fail("execution_part does not match"); int left = 0; while (st.ss) { ++left; st.ss.advance(); } if (left != 1) r.fail("execution_part leaves " + std::to_string(left) + " statements"); } }
}
static std::string name(std::vector<St const *> const &v) { std::string s; for (auto *x : v) s += std::string(x->text) + " / "; return s; }
static void explore_nests(mc::Run &r, char const *pname, std::vector<St> const &al, int depth) {
  std::vector<St const *> seq;
  std::function<void(Auto const &)> dfs = [&](Auto const &a) {
    if (!seq.empty() && r.begin([&] { return std::string(pname) + ": " + name(seq) + (a.complete() ? "" : "(incomplete)"); }))
      r.body([&] { r.count(a.complete() ? 0 : 1); check(r, seq, a.complete(), a.st[0].cur.empty() ? "" : "execution-part(" + a.st[0].cur + ") "); });
    if ((int)seq.size() == depth) return;
    for (auto const &s : al) {
      if (s.k == FMT && seq.empty()) continue; // would belong to the specification part
      Auto b = a; b.put(s); seq.push_back(&s);
      if (!b.bad) dfs(b);
      else if (s.label == 0 || std::find(a.labels.begin(), a.labels.end(), s.label) == a.labels.end()) {
        if (r.begin([&] { return std::string(pname) + ": " + name(seq) + "(wrong)"; })) r.body([&] { r.count(2); check(r, seq, false, ""); });
        // the same, with everything that was open closed afterwards
        static St const cont10{"10 continue", CONT, 10, 0}, cont20{"20 continue", CONT, 20, 0}, cont30{"30 continue", CONT, 30, 0}, ed{"end do", ENDDO, 0, 0}, ei{"end if", ENDIF, 0, 0};
        size_t keepn = seq.size(); std::vector<int> used = a.labels; if (s.label) used.push_back(s.label); bool can = true; Auto c = a; std::vector<St> closers;
        while (c.st.size() > 1) { Fr const &f = c.st.back(); St const *x = f.k == DO ? &ed : f.k == IF ? &ei : f.target == 10 ? &cont10 : f.target == 20 ? &cont20 : &cont30; if (x->label && std::find(used.begin(), used.end(), x->label) != used.end()) { can = false; break; } seq.push_back(x); c.put(*x); if (c.bad) { can = false; break; } }
        if (can && seq.size() > keepn
          ) { if (r.begin([&] { return std::string(pname) + ": " + name(seq) + "(wrong in the middle)"; })) r.body([&] { r.count(2); check(r, seq, false, ""); }); }
        seq.resize(keepn);
      }
      seq.pop_back();
    }
  };
  dfs(Auto());
}
// the label stack on its own
static void explore_stack(mc::Run &r, int depth) {
  struct Op { int k, label; }; std::vector<Op> al{{0, 10}, {0, 20}, {1, 0}, {2, 10}, {2, 20}, {3, 10}, {3, 20}, {2, 0}, {3, 0}};
  std::vector<int> idx; 
  std::function<void(int, int)> rec = [&](int n, int size) {
    if (n == 0) {
      if (r.begin([&] { std::string s = "label stack:"; for (int i : idx) s += (al[i].k == 0 ? " push " : al[i].k == 1 ? " pop" : al[i].k == 2 ? " level " : " is_top ") + (al[i].k == 1 ? "" : std::to_string(al[i].label)); return s; }))
        r.body([&] {
          r.count(3); Label_Stack s; std::vector<std::pair<int, int>> ref; // label, level (-1: not decided)
          for (int i : idx) { Op o = al[i]; r.step();
            if (o.k == 0) { s.push(o.label); ref.push_back({o.label, -1}); }
            else if (o.k == 1) { s.pop(); ref.pop_back(); }
            else if (o.k == 3) { if (s.is_top(o.label) != (!ref.empty() && ref.back().first == o.label)) r.fail("is_top"); }
            else {
              int want = -1;
              if (!ref.empty() && ref.back().first == o.label) {
                if (ref.back().second < 0) { size_t n = 0; while (n < ref.size() && ref[ref.size() - 1 - n].first == o.label) ++n; for (size_t q = 0; q < n; ++q) ref[ref.size() - n + q].second = n == 1 ? 0 : (int)q + 1; }
                want = ref.back().second;
              }
              int got = s.level(o.label); if (got != want) r.fail("level(" + std::to_string(o.label) + ") is " + std::to_string(got) + " instead of " + std::to_string(want));
            }
            if (s.empty() != ref.empty() || s.size() != ref.size()) r.fail("size");
            std::string h; for (auto &p : ref) h += std::to_string(p.first) + ":" + std::to_string(p.second) + ","; r.state(mc::hash(h));
          }
          r.trace();
        });
      return;
    }
    for (size_t i = 0; i < al.size(); ++i) { if (al[i].k == 1 && size == 0) continue; idx.push_back(i); rec(n - 1, size + (al[i].k == 0) - (al[i].k == 1)); idx.pop_back(); }
  };
  rec(depth, 0);
}
void explore(mc::Run &r) {
  for (int t = 0; t < Syntax_Tags::SG_ZZZ_UB; ++t) tagno[Syntax_Tags::label(t)] = t;
  keep.assign(Syntax_Tags::SG_ZZZ_UB + 1, 0);
  for (auto const *t : {"execution-part", "do-construct", "block", "nonblock-do-construct", "action-term-do-construct", "do-body", "do-term-action-stmt", "outer-shared-do-construct", "inner-shared-do-construct", "do-term-shared-stmt", "if-construct"}) keep[tagno.at(t)] = 1;
  explore_stack(r, r.thorough ? 7 : 6);
  std::vector<St> two{{"do 10 i = 1, 2", LDO, 0, 10}, {"do 20 j = 1, 2", LDO, 0, 20}, {"do k = 1, 2", DO, 0, 0}, {"end do", ENDDO, 0, 0}, {"10 end do", ENDDO, 10, 0}, {"20 end do", ENDDO, 20, 0}, {"10 continue", CONT, 10, 0}, {"20 continue", CONT, 20, 0}, {"10 x = 1", ACT, 10, 0}, {"20 x = 1", ACT, 20, 0}, {"x = 1", ACT, 0, 0}, {"if (c) then", IF, 0, 0}, {"end if", ENDIF, 0, 0}};
  std::vector<St> share{{"do 10 i = 1, 2", LDO, 0, 10}, {"do 20 j = 1, 2", LDO, 0, 20}, {"do 30 k = 1, 2", LDO, 0, 30}, {"10 continue", CONT, 10, 0}, {"20 continue", CONT, 20, 0}, {"20 x = 1", ACT, 20, 0}, {"30 continue", CONT, 30, 0}, {"30 end do", ENDDO, 30, 0}};
  std::vector<St> forms{{"do 10, while (c)", LDO, 0, 10}, {"lp: do 010", LDO, 0, 10}, {"do 10 concurrent (i = 1:3)", LDO, 0, 10}, {"20 do 10 i = 1, 2", LDO, 20, 10}, {"do", DO, 0, 0}, {"20 do while (c)", DO, 20, 0}, {"10 end do lp", ENDDO, 10, 0}, {"20 enddo", ENDDO, 20, 0}, {"10 if (c) x = 1", ACT, 10, 0}, {"0010 call s(x)", ACT, 10, 0}, {"20 continue", CONT, 20, 0}, {"10 continue", CONT, 10, 0}, {"end do", ENDDO, 0, 0}};
  std::vector<St> mixed{{"do 10 i = 1, 2", LDO, 0, 10}, {"do 20 i = 1, 2", LDO, 0, 20}, {"10 if (c) then", IF, 10, 0}, {"if (c) then", IF, 0, 0}, {"else", ELSE, 0, 0}, {"10 else", ELSE, 10, 0}, {"10 end if", ENDIF, 10, 0}, {"end if", ENDIF, 0, 0}, {"10 format (i3)", FMT, 10, 0}, {"20 continue", CONT, 20, 0}, {"10 continue", CONT, 10, 0}, {"do", DO, 0, 0}, {"10 end do", ENDDO, 10, 0}};
  explore_nests(r, "two labels", two, r.thorough ? 6 : 5);
  explore_nests(r, "shared ends", share, r.thorough ? 9 : 7);
  explore_nests(r, "forms", forms, r.thorough ? 6 : 5);
  explore_nests(r, "mixed", mixed, r.thorough ? 6 : 5);
}
