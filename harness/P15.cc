// P15: Safe_List / SL_Range against a plain sequence: every operation sequence
// up to a depth, with every position argument.
#include "mc.hh"
#include "flpr/Safe_List.hh"
#include <algorithm>
#include <map>
#include <memory>
char const *const mc_property = "P15";
struct E { int v = 0, id = 0; E() {} E(int a, int b) : v(a), id(b) {} bool operator==(E const &o) const { return v == o.v && id == o.id; } };
using SL = FLPR::Safe_List<E>;
using R = FLPR::SL_Range<E>;

struct World {
  mc::Run &r;
  SL A, B; std::vector<E> a, b;             // implementation / reference
  std::map<int, SL::iterator> held;         // iterators of live elements
  SL::iterator endA, endB; bool keepA = false, keepB = false;
  int next = 1; std::string log;
  World(mc::Run &run, SL &&l, std::vector<E> ref) : r(run), A(std::move(l)), a(ref) { next = 1 + (int)ref.size(); rehold(); }
  void rehold() { held.clear(); for (auto i = A.begin(); i != A.end(); ++i) held[i->id] = i; for (auto i = B.begin(); i != B.end(); ++i) held[i->id] = i; endA = A.end(); endB = B.end(); }
  void bad(std::string m) { r.fail(log + " -> " + m); }
  void check1(SL &l, std::vector<E> &s, char const *n, bool held_too) {
    SL const &c = l;
    if (l.size() != s.size()) bad(std::string(n) + " size() is " + std::to_string(l.size()) + ", should be " + std::to_string(s.size()));
    if (l.empty() != s.empty()) bad(std::string(n) + " empty() wrong");
    size_t k = 0;
    for (auto i = l.begin(); i != l.end(); ++i, ++k) { if (k >= s.size() || !(*i == s[k])) bad(std::string(n) + " contents differ at " + std::to_string(k)); if (k > 40) bad("endless"); }
    if (k != s.size()) bad(std::string(n) + " forward walk ends early");
    k = 0; for (auto const &e : c) { if (!(e == s[k])) bad("const walk"); ++k; }
    k = s.size();
    for (auto i = l.end(); i != l.begin();) { --i; if (k == 0 || !(*i == s[k - 1])) bad(std::string(n) + " backward walk differs"); --k; }
    if (c.begin() != c.cbegin() || c.end() != c.cend() || SL::const_iterator(l.end()) != c.end()) bad("const iterators");
    if (!s.empty()) { if (!(l.front() == s.front()) || !(l.back() == s.back()) || !(c.front() == s.front()) || !(c.back() == s.back())) bad(std::string(n) + " front/back"); }
    if (held_too)
      for (k = 0; k < s.size(); ++k) {
        auto h = held.find(s[k].id); if (h == held.end()) bad("lost");
        auto i = h->second;
        if (!(*i == s[k])) bad("held iterator no longer denotes its element");
        if (std::distance(l.begin(), i) != (long)k || std::distance(i, l.end()) != (long)(s.size() - k)) bad("held iterator out of place");
      }
  }
  void check() {
    check1(A, a, "A", true); check1(B, b, "B", true);
    if (A.end() != endA) bad("stored end() of A invalidated");
    if (B.end() != endB) bad("stored end() of B invalidated");
    if (!(A == A) || (A == B) != (a == b)) bad("operator==");
    std::string h; for (auto &e : a) h += char('0' + (e.v & 1)) ; h += '|'; for (auto &e : b) h += char('0' + (e.v & 1));
    r.state(h);
  }
};
static int nops(size_t n) { return (int)(3 * (n + 1) + (n + 1) + n + n * (n + 1) / 2 + 4 + (n ? 1 : 0) + 4 + 10); }

// operation number k on the current world; false if there is no such operation
static bool apply(World &w, int k) {
  auto &A = w.A; auto &a = w.a; size_t n = a.size();
  auto at = [&](size_t p) { return std::next(A.begin(), p); };
  auto fresh = [&] { int id = w.next++; return E(id % 3 == 0 ? 0 : id, id); };
  w.r.step();
  auto name = [&](std::string s) { w.log += (w.log.empty() ? "" : "; ") + s; };
  auto P = [](size_t p) { return std::to_string(p); };
  for (size_t p = 0; p <= n; ++p, --k) if (k == 0) { name("insert@" + P(p)); E e = fresh(); auto i = A.insert(at(p), e); a.insert(a.begin() + p, e); w.held[e.id] = i; if (!(*i == e)) w.bad("returned iterator"); return true; } 
  for (size_t p = 0; p <= n; ++p, --k) if (k == 0) { name("emplace@" + P(p)); E e = fresh(); auto i = A.emplace(at(p), e.v, e.id); a.insert(a.begin() + p, e); w.held[e.id] = i; if (!(*i == e)) w.bad("returned iterator"); return true; }
  for (size_t p = 0; p <= n; ++p, --k) if (k == 0) { name("insert2@" + P(p)); E x[2] = {fresh(), fresh()}; auto i = A.insert(at(p), x, x + 2); a.insert(a.begin() + p, x, x + 2); w.held[x[0].id] = i; w.held[x[1].id] = std::next(i); if (!(*i == x[0])) w.bad("returned iterator"); return true; }
  for (size_t p = 0; p <= n; ++p, --k) if (k == 0) { name("insert&&@" + P(p)); E e = fresh(); auto i = A.insert(at(p), E(e)); a.insert(a.begin() + p, e); w.held[e.id] = i; return true; }
  for (size_t p = 0; p < n; ++p, --k) if (k == 0) { name("erase@" + P(p)); auto i = A.erase(at(p)); a.erase(a.begin() + p); if (std::distance(A.begin(), i) != (long)p) w.bad("erase returned a wrong iterator"); return true; }
  for (size_t p = 0; p < n; ++p) for (size_t q = p + 1; q <= n; ++q, --k) if (k == 0) { name("erase[" + P(p) + "," + P(q) + ")"); auto i = A.erase(at(p), at(q)); a.erase(a.begin() + p, a.begin() + q); if (std::distance(A.begin(), i) != (long)p) w.bad("erase returned a wrong iterator"); return true; }
  if (k-- == 0) { name("push_back"); E e = fresh(); A.push_back(e); a.push_back(e); w.held[e.id] = std::prev(A.end()); return true; }
  if (k-- == 0) { name("push_back&&"); E e = fresh(); A.push_back(E(e)); a.push_back(e); w.held[e.id] = std::prev(A.end()); return true; }
  if (k-- == 0) { name("emplace_back"); E e = fresh(); auto &x = A.emplace_back(e.v, e.id); a.push_back(e); w.held[e.id] = std::prev(A.end()); if (!(x == e)) w.bad("emplace_back result"); return true; }
  if (k-- == 0) { name("emplace_front"); E e = fresh(); auto &x = A.emplace_front(e.v, e.id); a.insert(a.begin(), e); w.held[e.id] = A.begin(); if (!(x == e)) w.bad("emplace_front result"); return true; }
  if (n && k-- == 0) { name("pop_back"); A.pop_back(); a.pop_back(); return true; }
  auto rm = [&](char const *nm, auto pred) { name(nm); A.remove_if(pred); a.erase(std::remove_if(a.begin(), a.end(), pred), a.end()); };
  if (k-- == 0) { rm("remove_if(zero)", [](E const &e) { return e.v == 0; }); return true; }
  if (k-- == 0) { rm("remove_if(nonzero)", [](E const &e) { return e.v != 0; }); return true; }
  if (k-- == 0) { rm("remove_if(all)", [](E const &) { return true; }); return true; }
  if (k-- == 0) { rm("remove_if(odd id)", [](E const &e) { return e.id % 2 == 1; }); return true; }
  if (k-- == 0) { name("clear"); A.clear(); a.clear(); return true; }
  if (k-- == 0) { name("move-construct"); auto e = w.endA; SL C(std::move(A)); w.check1(C, a, "C", true); if (C.end() != e) w.bad("moved list has another end()"); w.r.step();
    std::vector<E> none; w.check1(A, none, "moved-from", false); A = std::move(C); if (A.end() != e) w.bad("moved list has another end()"); w.check1(C, none, "moved-from", false); C.push_back(E(1, 77)); none.push_back(E(1, 77)); w.check1(C, none, "refilled", false); return true; }
  if (k-- == 0) { name("swap A,B"); std::swap(w.A, w.B); std::swap(w.a, w.b); std::swap(w.endA, w.endB); return true; }
  if (k-- == 0) { name("B = move(A)"); auto e = w.endA; w.B = std::move(w.A); w.b = w.a; w.a.clear(); w.endB = w.B.end(); if (w.endB != e) w.bad("end() not kept by move assignment"); w.endA = A.end(); return true; }
  if (k-- == 0) { name("copy"); SL C(A); if (!(C == A)) w.bad("copy differs"); w.check1(C, a, "copy", false); w.check1(A, a, "A", true); C.clear(); std::vector<E> none; w.check1(C, none, "cleared copy", false); return true; }
  if (k-- == 0) { name("B = A"); w.B = w.A; w.b = w.a; w.check1(w.B, w.b, "B", false); // same ids: make them distinct again
    size_t i = 0; for (auto &x : w.B) { x.id = w.next++; w.b[i++].id = x.id; } for (auto it = w.B.begin(); it != w.B.end(); ++it) w.held[it->id] = it; w.endB = w.B.end(); return true; }
  if (k-- == 0) { name("self-assign"); SL &s = A; A = s; w.endA = A.end(); auto i = A.begin(); for (auto &e : a) w.held[e.id] = i++; return true; }
  return false;
}

static void lists(mc::Run &r) {
  size_t depth = r.thorough ? 4 : 3;
  for (int ctor = 0; ctor < 4; ++ctor) {
    auto make = [&](World **out) {
      std::vector<E> v;
      if (ctor == 0) { *out = new World(r, SL(), v); }
      else if (ctor == 1) { SL l(2, E(5, 0)); int id = 1; for (auto &e : l) { e.id = id++; v.push_back(e); } *out = new World(r, std::move(l), v); }
      else if (ctor == 2) { SL l(2); int id = 1; for (auto &e : l) { e.id = id++; v.push_back(e); } *out = new World(r, std::move(l), v); }
      else { v = {E(1, 1), E(0, 2), E(4, 3)}; *out = new World(r, SL{E(1, 1), E(0, 2), E(4, 3)}, v); }
    };
    // iterative deepening over op indices; an index beyond the alphabet ends the loop
    std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &ops) {
      // execute ops as one case
      int more = 0;
      if (r.begin([&] { std::string s = "list ctor " + std::to_string(ctor) + " ops"; for (int o : ops) s += " " + std::to_string(o); return s; }))
        r.body([&] { World *w; make(&w); std::unique_ptr<World> g(w); w->check(); for (int o : ops) { apply(*w, o); w->check(); } r.trace(); });
      if (ops.size() == depth) return;
      // number of successors depends only on the reference size: dry run on the reference
      World *w; make(&w); std::unique_ptr<World> g(w);
      (void)more;
      static std::map<size_t, int> width;
      size_t n = 0;
      { // reference-only size: replay on a scratch world (cheap)
        mc::Run dummy; dummy.sh = r.sh; dummy.tab = r.tab; dummy.tabmask = r.tabmask;
        for (int o : ops) apply(*w, o); n = w->a.size(); }
      if (!width.count(n)) { int k = 0; for (;; ++k) { World t(r, SL(), {}); for (size_t i = 0; i < n; ++i) { E e(1, (int)i + 1); t.A.push_back(e); t.a.push_back(e); t.next++; } t.rehold(); if (!apply(t, k)) break; } width[n] = k; }
      for (int k = 0; k < width[n]; ++k) { ops.push_back(k); rec(ops); ops.pop_back(); }
    };
    std::vector<int> ops; rec(ops);
  }
}

static void ranges(mc::Run &r) {
  int N = r.thorough ? 6 : 4;
  for (int n = 1; n <= N; ++n) for (int b = 0; b <= n; ++b) for (int e = b; e <= n; ++e) {
    // op sequences on [b,e): 0.. insert/erase outside, extend, update
    int depth = r.thorough ? 4 : 3, nop = 18; int total = 1; for (int i = 0; i < depth; ++i) total *= nop;
    for (int code = 0; code < total; ++code)
      if (r.begin([&] { return "range [" + std::to_string(b) + "," + std::to_string(e) + ") of " + std::to_string(n) + " ops code " + std::to_string(code); })) r.body([&] {
        SL l; for (int i = 0; i < n; ++i) l.push_back(E(i + 1, i + 1));
        R g(std::next(l.begin(), b), std::next(l.begin(), e));
        std::vector<int> out; for (int i = b; i < e; ++i) out.push_back(i + 1);
        int next = 100; std::string log;
        auto bad = [&](std::string m) { r.fail(log + " -> " + m); };
        bool unset = false;                       // cleared without a position: begin() and end() mean nothing
        auto check = [&] {
          if (unset) { if (g.size() != 0 || !g.empty()) bad("cleared range is not empty"); R o; if (!g.equal(o) || !o.equal(g)) bad("equal() of cleared ranges"); R w(l); if (g.equal(w) || w.equal(g)) bad("equal() of a cleared range and a set one"); return; }
          if (g.size() != out.size() || g.empty() != out.empty()) bad("range size");
          std::vector<int> got; for (auto const &x : g) got.push_back(x.id); if (got != out) bad("range denotes other elements");
          if (!out.empty()) { if (g.front().id != out.front() || g.back().id != out.back() || g.last()->id != out.back()) bad("front/back/last"); }
          R const &cg = g; if (cg.begin() != g.cbegin() || cg.end() != g.cend()) bad("const");
          FLPR::SL_Const_Range<E> cr(cg.begin(), cg.end()); if (cr.size() != out.size() || cr.empty() != out.empty()) bad("const range");
          if (!out.empty() && (cr.front().id != out.front() || cr.back().id != out.back() || cr.last()->id != out.back())) bad("const range ends");
          FLPR::SL_Range_Iterator<E> ri(g); size_t k = 0; while (ri) { if (!!ri != !(!ri)) bad("bool"); if (ri->id != out[k] || (*ri).id != out[k]) bad("range iterator"); ++k; bool m = ri.advance(); if (m != (k < out.size())) bad("advance() result"); }
          if (k != out.size()) bad("range iterator length");
          SL c(l); R h = FLPR::rebase<E>(l.begin(), g, c.begin()); std::vector<int> hg; for (auto const &x : h) hg.push_back(x.id); if (hg != out) bad("rebased range");
          if (!out.empty() && h.begin() == g.begin()) bad("rebase did not move to the copy");
          R same(g); if (!g.equal(same)) bad("equal()"); if (g.equal(h)) bad("equal() across lists");
          r.state(mc::hash(std::to_string(out.size()) + "," + std::to_string(std::distance(l.begin(), g.begin())) + "," + std::to_string(l.size())));
        };
        check();
        int x = code;
        for (int d = 0; d < depth; ++d, x /= nop) {
          int o = x % nop; r.step();
          if (unset) switch (o) {
            case 0: case 1: case 2: case 3: case 4: case 5: case 9: continue;
            case 6: log += "update_end(begin) "; g.update_end(l.begin()); unset = false; check(); continue;
            case 7: { log += "update_end(end) "; g.update_end(l.end()); unset = false; check(); continue; }
            case 8: if (!l.empty()) { log += "push_back(first) "; g.push_back(R(l.begin())); out = {l.begin()->id}; unset = false; } check(); continue;
            case 10: { log += "push unset "; R none; g.push_back(none); g.push_front(none); g.push_back(R(l.end(), l.end())); g.push_front(R(l.begin(), l.begin())); check(); continue; }
            case 11: { log += "push self "; g.push_back(g); g.push_front(g); check(); continue; }
            case 12: log += "clear(end) "; g.clear(l.end()); unset = false; check(); continue;
            default: break;
          }
          switch (o) {
          case 0: log += "insert-before-range "; l.insert(g.begin(), E(1, next++)); if (out.empty()) { g.clear(g.end()); } break;
          case 1: if (g.begin() != l.begin() ) { log += "erase-before "; l.erase(std::prev(g.begin())); } break;
          case 2: log += "insert-front "; l.emplace_front(1, next++); if (out.empty()) g.clear(g.end()); break;
          case 3: log += "push_back-list "; if (g.end() != l.end()) l.push_back(E(1, next++)); break;
          case 4: if (g.end() != l.end()) { log += "erase-after "; auto i = std::next(g.end()); if (i != l.end()) l.erase(i); } break;
          case 5: if (g.end() != l.end()) { log += "insert-after-next "; l.insert(std::next(g.end()), E(1, next++)); } break;
          case 6: { log += "insert-at-end+update_end "; auto i = l.insert(g.end(), E(1, next++)); g.update_end(i); break; }
          case 7: { log += "insert-at-end+extend "; int id = next++; auto i = l.insert(g.end(), E(1, id)); g.update_end(i); g.push_back(R(i)); out.push_back(id); break; }
          case 8: if (g.end() != l.end()) { log += "push_back-next "; out.push_back(g.end()->id); g.push_back(R(g.end())); } break;
          case 9: if (g.begin() != l.begin()) { log += "push_front-prev "; auto i = std::prev(g.begin()); out.insert(out.begin(), i->id); g.push_front(R(i)); } break;
          case 10: { log += "push empty "; g.push_back(R(g.end(), g.end())); g.push_front(R(g.begin(), g.begin())); R none; g.push_back(none); g.push_front(none); break; }
          case 11: { log += "push self "; g.push_back(g); g.push_front(g); break; }
          case 12: { log += "clear(end) "; g.clear(g.end()); out.clear(); break; }
          case 13: { log += "whole "; R h(l); g.assign_range(h); out.clear(); for (auto const &y : l) out.push_back(y.id); unset = false; break; }
          case 14: log += "clear() "; g.clear(); out.clear(); unset = true; break;
          case 15: log += "default "; g = R(); out.clear(); unset = true; break;
          case 16: if (unset || out.empty()) { log += "push_front(whole) "; R h(l); g.push_front(h); if (!l.empty()) { out.clear(); for (auto const &y : l) out.push_back(y.id); unset = false; } } break;
          case 17: if (unset || out.empty()) { log += "push_back(whole) "; R h(l); g.push_back(h); if (!l.empty()) { out.clear(); for (auto const &y : l) out.push_back(y.id); unset = false; } } break;
          }
          check();
        }
        R c(g); c.clear(); if (c.size() != 0 || !c.empty()) bad("clear()");
        r.trace();
      });
  }
}
void explore(mc::Run &r) { lists(r); ranges(r); }
