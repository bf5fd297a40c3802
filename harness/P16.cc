// P16: Tree/Tree_Node/cursors against a reference forest.
#include "mc.hh"
#include "flpr/Tree.hh"
#include <memory>
char const *const mc_property = "P16";
using T = FLPR::Tree<int>;
using Node = T::node;

struct N { int v; std::vector<N> k; bool operator==(N const &o) const { return v == o.v && k == o.k; } };
struct Forest { std::vector<N> t[3]; int next = 10; };   // t[i] empty or one root
typedef std::vector<int> Path;
static N &at(N &n, Path const &p, size_t d = 0) { return d == p.size() ? n : at(n.k[p[d]], p, d + 1); }
static T::iterator at(T::iterator n, Path const &p) { for (int x : p) n = std::next(n->branches().begin(), x); return n; }
static void paths(N const &n, Path &cur, std::vector<Path> &out) { out.push_back(cur); for (size_t i = 0; i < n.k.size(); ++i) { cur.push_back(i); paths(n.k[i], cur, out); cur.pop_back(); } }
static size_t count(N const &n) { size_t c = 1; for (auto const &k : n.k) c += count(k); return c; }
static std::string str(N const &n) { std::string s = std::to_string(n.v); if (!n.k.empty()) { s += "("; for (auto const &k : n.k) s += str(k) + " "; s += ")"; } return s; }
static bool prefix(Path const &a, Path const &b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }

struct Op { int kind, i, j, pos; Path p, q; };
static std::string show(Op const &o) {
  static char const *nm[] = {"new", "graft_front&", "graft_back&", "graft_front&&", "graft_back&&", "graft&@", "graft&&@", "node.emplace_front", "node.emplace_back", "node.emplace@", "node.swap", "tree.swap", "move-construct", "clear", "move-assign", "set", "node.graft-subtree"};
  std::string s = nm[o.kind]; s += "(" + std::to_string(o.i) + "," + std::to_string(o.j) + "," + std::to_string(o.pos);
  auto pp = [](Path const &p) { std::string s = ";"; for (int x : p) s += std::to_string(x) + "."; return s; };
  return s + pp(o.p) + pp(o.q) + ")";
}
static std::vector<Op> ops(Forest const &f) {
  std::vector<Op> v;
  for (int i = 0; i < 3; ++i) {
    if (f.t[i].empty()) { v.push_back({0, i, 0, 0, {}, {}}); continue; }
    std::vector<Path> P; Path c; paths(f.t[i][0], c, P);
    for (int j = 0; j < 3; ++j) if (j != i && !f.t[j].empty()) {
      if (j == (i + 1) % 3) for (int k = 1; k <= 4; ++k) v.push_back({k, i, j, 0, {}, {}});
      for (int pos = 0; pos <= (int)f.t[i][0].k.size(); ++pos) v.push_back({5 + (pos & 1), i, j, pos, {}, {}});
      if (i < j) { v.push_back({11, i, j, 0, {}, {}});
        std::vector<Path> Q; Path d; paths(f.t[j][0], d, Q); for (auto const &p : P) for (auto const &q : Q) if (p.size() + q.size() < 4) v.push_back({10, i, j, 0, p, q}); }
      v.push_back({14, i, j, 0, {}, {}});
    }
    for (auto const &p : P) { if (p.size() > 2) continue; N n = f.t[i][0]; N const &x = at(n, p);
      v.push_back({7, i, 0, 0, p, {}}); v.push_back({8, i, 0, 0, p, {}}); for (int pos = 0; pos <= (int)x.k.size(); ++pos) v.push_back({9, i, 0, pos, p, {}}); v.push_back({15, i, 0, 0, p, {}}); }
    for (auto const &p : P) for (auto const &q : P) if (p < q && !prefix(p, q) && !prefix(q, p)) v.push_back({10, i, i, 0, p, q});
    v.push_back({12, i, 0, 0, {}, {}}); v.push_back({13, i, 0, 0, {}, {}});
  }
  return v;
}
static void apply(Forest &f, Op const &o) {
  auto &t = f.t[o.i]; auto &u = f.t[o.j];
  switch (o.kind) {
  case 0: t.assign(1, N{f.next++, {}}); break;
  case 1: case 3: t[0].k.insert(t[0].k.begin(), u[0]); u.clear(); break;
  case 2: case 4: t[0].k.push_back(u[0]); u.clear(); break;
  case 5: case 6: t[0].k.insert(t[0].k.begin() + o.pos, u[0]); u.clear(); break;
  case 7: { N &n = at(t[0], o.p); n.k.insert(n.k.begin(), N{f.next++, {}}); break; }
  case 8: { N &n = at(t[0], o.p); n.k.push_back(N{f.next++, {}}); break; }
  case 9: { N &n = at(t[0], o.p); n.k.insert(n.k.begin() + o.pos, N{f.next++, {}}); break; }
  case 10: std::swap(at(t[0], o.p), at(u[0], o.q)); break;
  case 11: t.swap(u); break;
  case 12: break;
  case 13: t.clear(); break;
  case 14: t = u; u.clear(); break;
  case 15: at(t[0], o.p).v = f.next++; break;
  }
}
struct World { T t[3]; int next = 10; };
static void apply(mc::Run &r, World &w, Op const &o) {
  T &t = w.t[o.i]; T &u = w.t[o.j];
  r.step();
  auto expect = [&](T::iterator a, T::iterator b) { if (a != b) r.fail("wrong iterator returned by " + show(o)); };
  switch (o.kind) {
  case 0: { int const v = w.next++; if (v & 1) t = T(v); else t = T(int(v)); break; }
  case 1: { auto x = t.graft_front(u); expect(x, t->branches().begin()); break; }
  case 2: { auto x = t.graft_back(u); expect(x, std::prev(t->branches().end())); break; }
  case 3: { auto x = t.graft_front(std::move(u)); u.clear(); expect(x, t->branches().begin()); break; }
  case 4: { auto x = t.graft_back(std::move(u)); u.clear(); expect(x, std::prev(t->branches().end())); break; }
  case 5: { auto x = t.graft(std::next(t->branches().begin(), o.pos), u); expect(x, std::next(t->branches().begin(), o.pos)); break; }
  case 6: { T::const_iterator c = std::next(t->branches().begin(), o.pos); auto x = t.graft(c, std::move(u)); u.clear(); expect(x, std::next(t->branches().begin(), o.pos)); break; }
  case 7: { auto n = at(t.root(), o.p); auto x = n->emplace_front(Node(int(w.next++))); expect(x, n->branches().begin()); break; }
  case 8: { auto n = at(t.root(), o.p); auto x = n->emplace_back(Node(int(w.next++))); expect(x, std::prev(n->branches().end())); break; }
  case 9: { auto n = at(t.root(), o.p); auto x = n->emplace(std::next(n->branches().begin(), o.pos), Node(int(w.next++))); expect(x, std::next(n->branches().begin(), o.pos)); break; }
  case 10: at(t.root(), o.p)->swap(*at(u.root(), o.q)); break;
  case 11: t.swap(u); break;
  case 12: { T x(std::move(t)); t = std::move(x); break; }
  case 13: t.clear(); break;
  case 14: t = std::move(u); u.clear(); break;
  case 15: **at(t.root(), o.p) = w.next++; break;
  }
}
static void same(mc::Run &r, T::iterator n, N const &m, T::iterator parent, std::string const &log) {
  auto bad = [&](std::string s) { r.fail(log + "-> " + s); };
  if (**n != m.v) bad("value " + std::to_string(**n) + " should be " + std::to_string(m.v));
  if (n->self() != n) bad("node does not know its place");
  if (n->trunk() != parent) bad("parent link wrong");
  if (n->is_root() != (parent == n)) bad("is_root");
  if (n->num_branches() != m.k.size() || n->is_leaf() != m.k.empty() || n->is_fork() == m.k.empty()) bad("branch count");
  if (n->size() != count(m)) bad("size()");
  if (m.k.empty()) return;
  size_t i = 0;
  for (auto b = n->branches().begin(); b != n->branches().end(); ++b, ++i) { if (i >= m.k.size()) bad("too many branches"); same(r, b, m.k[i], n, log); }
  if (i != m.k.size()) bad("branches lost");
}
static void check(mc::Run &r, World &w, Forest const &f, std::string const &log) {
  std::string h;
  for (int i = 0; i < 3; ++i) {
    T const &ct = w.t[i];
    if (f.t[i].empty()) { if (!ct.empty() || ct.size() != 0) r.fail(log + "-> tree " + std::to_string(i) + " should be empty"); h += "-"; continue; }
    if (ct.empty() || !ct || !ct.tree_initialized() || ct.size() != count(f.t[i][0])) r.fail(log + "-> size of tree " + std::to_string(i));
    if (T::const_iterator(w.t[i].root()) != ct.root() || ct.croot() != ct.root() || *(*ct) != f.t[i][0].v) r.fail(log + "-> root access");
    same(r, w.t[i].root(), f.t[i][0], w.t[i].root(), log);
    ct.check();
    h += str(f.t[i][0]) + "/";
  }
  r.state(h);
}

static void build(T &t, T::iterator n, N const &m) { for (auto const &k : m.k) { auto b = n->emplace_back(Node(int(k.v))); build(t, b, k); } }
static void shapes(int n, std::vector<std::vector<N>> &out) {  // all ordered forests of n nodes
  if (n == 0) { out.push_back({}); return; }
  for (int first = 1; first <= n; ++first) {
    std::vector<std::vector<N>> kids, rest; shapes(first - 1, kids); shapes(n - first, rest);
    for (auto const &k : kids) for (auto const &q : rest) { std::vector<N> v; v.push_back(N{0, k}); v.insert(v.end(), q.begin(), q.end()); out.push_back(v); }
  }
}
static void number(N &n, int &c) { n.v = c++; for (auto &k : n.k) number(k, c); }

template <typename C> static void cursor_moves(mc::Run &r, C const &c0, N &root, Path const &p, int depth, std::string const &log);
template <typename C> static void cursor_at(mc::Run &r, C &c, N &root, Path const &p, std::string const &log) {
  N &me = at(root, p);
  auto bad = [&](std::string s) { r.fail(log + " -> " + s); };
  if (!c) bad("unassociated");
  if (*c != me.v || *c.node() != me.v || **c.self() != me.v || *c.operator->() != me.v) bad("cursor is on " + std::to_string(*c) + " instead of " + std::to_string(me.v));
  bool up = !p.empty(), prev = up && p.back() > 0; bool next = false;
  if (up) { Path q(p.begin(), p.end() - 1); next = p.back() + 1 < (int)at(root, q).k.size(); }
  if (c.has_up() != up || c.is_root() == up) bad("has_up()");
  if (c.has_prev() != prev) bad("has_prev()");
  if (c.has_next() != next) bad("has_next()");
  if (c.has_down() != !me.k.empty() || c.is_fork() == me.k.empty() || c.is_leaf() != me.k.empty() || c.num_branches() != me.k.size()) bad("has_down()/branch queries");
  r.step();
}
template <typename C> static void cursor_moves(mc::Run &r, C const &c0, N &root, Path const &p, int depth, std::string const &log) {
  { C c(c0); cursor_at(r, c, root, p, log); }
  if (!depth) { r.trace(); return; }
  N &me = at(root, p); Path parent = p; if (!p.empty()) parent.pop_back();
  size_t sib = p.empty() ? 1 : at(root, parent).k.size();
  // up by every count
  for (size_t k = 0; k <= p.size(); ++k) { C c(c0); C &x = c.up((int)k); if (&x != &c) r.fail("up result"); Path q(p.begin(), p.end() - k); if (k == 1) { C d(c0); d.up(); cursor_at(r, d, root, q, log + "up"); } cursor_moves(r, c, root, q, k ? depth - 1 : 0, log + "up" + std::to_string(k) + " "); }
  { Path q = p; C c(c0); for (int k = 1; !at(root, q).k.empty(); ++k) { q.push_back(0); C d(c0); d.down(k); cursor_moves(r, d, root, q, depth - 1, log + "down" + std::to_string(k) + " "); C e(c0); if (!e.try_down(k)) r.fail(log + "try_down refused a possible move"); cursor_at(r, e, root, q, log + "try_down"); } }
  if (me.k.empty()) { C c(c0); if (c.try_down()) r.fail(log + "try_down said yes on a leaf"); cursor_at(r, c, root, p, log + "failed try_down"); }
  if (!p.empty()) {
    for (size_t t = 0; t < sib; ++t) { Path q = p; q.back() = (int)t; int d = (int)t - p.back(); C c(c0); if (d > 0) { c.next(d); C e(c0); if (!e.try_next(d)) r.fail(log + "try_next refused a possible move"); cursor_at(r, e, root, q, log + "try_next"); } else if (d < 0) c.prev(-d); else continue; cursor_moves(r, c, root, q, depth - 1, log + (d > 0 ? "next" : "prev") + std::to_string(std::abs(d)) + " "); }
  }
  if (p.empty() || p.back() + 1 == (int)sib) { C c(c0); if (c.try_next()) r.fail(log + "try_next said yes at the end"); cursor_at(r, c, root, p, log + "failed try_next"); }
  for (int extra = 1; extra <= 2; ++extra) { // asking for more than there is must be reported
    int avail = p.empty() ? 0 : (int)sib - 1 - p.back(); C c(c0); if (c.try_next(avail + extra)) r.fail(log + "try_next claimed too many moves");
    int deep = 0; for (N *n = &me; !n->k.empty(); n = &n->k[0]) ++deep; C d(c0); if (d.try_down(deep + extra)) r.fail(log + "try_down claimed too many moves"); }
}

void explore(mc::Run &r) {
  // 1. histories
  size_t depth = r.thorough ? 4 : 3;
  for (int init = 0; init < 2; ++init) {
    Forest f0; for (int i = 0; i < 3; ++i) f0.t[i].assign(1, N{i + 1, {}});
    if (init) { f0.t[0][0].k = {N{4, {}}, N{5, {N{6, {}}}}}; f0.t[1][0].k = {N{7, {}}}; }
    std::vector<Op> seq;
    std::function<void(Forest const &)> rec = [&](Forest const &f) {
      if (seq.size() == depth) {
        if (r.begin([&] { std::string s = "start " + std::to_string(init) + ":"; for (auto const &o : seq) s += " " + show(o); return s; })) r.body([&] {
          World w; for (int i = 0; i < 3; ++i) { w.t[i] = T(int(f0.t[i][0].v)); build(w.t[i], w.t[i].root(), f0.t[i][0]); }
          Forest g = f0; check(r, w, g, "start ");
          for (auto const &o : seq) { apply(r, w, o); apply(g, o); check(r, w, g, "after " + show(o)); }
          r.trace();
        });
        return;
      }
      for (auto const &o : ops(f)) { Forest g = f; apply(g, o); seq.push_back(o); rec(g); seq.pop_back(); }
    };
    rec(f0);
  }
  // 2. cursors on every shape
  int maxn = r.thorough ? 7 : 6;
  for (int n = 1; n <= maxn; ++n) {
    std::vector<std::vector<N>> S; shapes(n - 1, S);
    for (auto const &kids : S) {
      N root{0, kids}; int c = 1; number(root, c);
      if (r.begin([&] { return "cursors on " + str(root); })) r.body([&] {
        T t(int(root.v)); build(t, t.root(), root); t.check();
        std::vector<Path> P; Path q; paths(root, q, P);
        for (auto const &p : P) {
          T::cursor_t cur(at(t.root(), p)); cursor_moves(r, cur, root, p, 2, "cursor ");
          T::const_cursor_t cc(cur); cursor_moves(r, cc, root, p, 2, "const cursor ");
        }
        T const &ct = t; auto a = t.cursor(); auto b = ct.cursor(); auto d = ct.ccursor(); cursor_at(r, a, root, {}, "cursor()"); cursor_at(r, b, root, {}, "cursor() const"); cursor_at(r, d, root, {}, "ccursor()");
        T::cursor_t e; if (e) r.fail("default cursor is associated"); a.clear(); if (a) r.fail("cleared cursor is associated");
      });
    }
  }
}
