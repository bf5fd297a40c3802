// P26: Range_Partition against a plain list of owners: every history of appends,
// look-ups, insertions and clearing, with every position argument.
#include "mc.hh"
#include "flpr/Safe_List.hh"
#include "flpr/flpr.hh"
#include "flpr/Procedure.hh" // Range_Partition.hh cannot be included alone
char const *const mc_property = "P26";
using SL = FLPR::Safe_List<int>; using It = SL::iterator; using R = FLPR::SL_Range<int>;
struct Call { char what; int part; It a, b; long n; };
static std::vector<Call> calls;
struct Rec { int part; void update_begin(It o, It n, long s) { calls.push_back({'b', part, o, n, s}); } void update_end(It o, It n) { calls.push_back({'e', part, o, n, 0}); } void update_size(long s) { calls.push_back({'s', part, {}, {}, s}); } };
using RP = FLPR::Range_Partition<R, Rec>;
enum { MAXP = 5 };
struct Op { char k; int idx, n, pos; bool operator<(Op const &o) const { return std::tie(k, idx, n, pos) < std::tie(o.k, o.idx, o.n, o.pos); } };
static std::string show(std::vector<Op> const &v) { std::string s; for (auto &o : v) { if (!s.empty()) s += "; "; std::string i = std::to_string(o.idx);
  if (o.k == 'a') s += "append " + std::to_string(o.n) + " to " + i; if (o.k == 'b') s += "begin " + i; if (o.k == 'e') s += "end " + i; if (o.k == 'i') s += "insert " + std::to_string(o.n) + " into " + i + " at " + std::to_string(o.pos); if (o.k == 'c') s += "clear"; if (o.k == 't') s += "track " + i; if (o.k == 'C') s += "look at all (const)"; } return s; }
// the reference: owners of the covered elements, in order
struct Ref { std::vector<int> own; bool act[MAXP] = {}; bool trk[MAXP] = {}; int P;
  int lo(int i) const { size_t k = 0; while (k < own.size() && own[k] < i) ++k; return (int)k; }
  int hi(int i) const { return lo(i + 1); }
  int last() const { int l = -1; for (int i = 0; i < P; ++i) if (act[i]) l = i; return l; }
  std::vector<Op> ops() const { std::vector<Op> v; bool any = last() >= 0; int left = 6 - (int)own.size();
    for (int i = 0; i < P; ++i) { if (i >= last()) for (int n = 0; n < 3 && n <= left; ++n) v.push_back({'a', i, n, 0}); }
    if (any) { for (int i = 0; i < P; ++i) { v.push_back({'b', i, 0, 0}); v.push_back({'e', i, 0, 0}); }
      for (int i = 0; i < P; ++i) if (act[i]) for (int n = 0; n < 3 && n <= left; ++n) for (int p = lo(i); p <= hi(i); ++p) v.push_back({'i', i, n, p});
      v.push_back({'C', 0, 0, 0}); v.push_back({'c', 0, 0, 0}); }
    for (int i = 0; i < P; ++i) if (!trk[i]) v.push_back({'t', i, 0, 0});
    return v; }
  void apply(Op const &o) {
    if (o.k == 'a') { if (o.n) act[o.idx] = true; own.insert(own.end(), (size_t)o.n, o.idx); }
    if (o.k == 'b' || o.k == 'e') act[o.idx] = true; if (o.k == 't') trk[o.idx] = true;
    if (o.k == 'i') own.insert(own.begin() + o.pos, (size_t)o.n, o.idx);
    if (o.k == 'c') { own.clear(); for (int i = 0; i < P; ++i) act[i] = trk[i] = false; } }
};
static void run(mc::Run &r, int P, std::vector<Op> const &ops) {
  SL l; for (int i = 0; i < 40; ++i) l.push_back(i); It base = std::next(l.begin(), 3); // something before and behind
  RP rp((size_t)P); Ref f; f.P = P; int fresh = 100;
  auto bad = [&](std::string const &m) { r.fail(m); };
  auto all = [&] {
    RP const &c = rp; if (!rp.validate()) bad("validate()");
    bool any = f.last() >= 0; if (c.empty() == any) bad("empty() wrong"); if (!any) return;
    auto at = [&](int k) { return std::next(base, k); };
    if (c.begin() != SL::const_iterator(at(0)) || c.cbegin() != c.begin() || rp.begin() != at(0)) bad("begin() is not the first element");
    if (c.end() != SL::const_iterator(at((int)f.own.size())) || c.cend() != c.end() || rp.end() != at((int)f.own.size())) bad("end() is not behind the last element");
    for (int i = 0; i < P; ++i) { size_t x = (size_t)i; std::string n = " of partition " + std::to_string(i);
      if (c.begin(x) != SL::const_iterator(at(f.lo(i))) || c.cbegin(x) != c.begin(x)) bad("begin" + n);
      if (c.end(x) != SL::const_iterator(at(f.hi(i))) || c.cend(x) != c.end(x)) bad("end" + n);
      if (c.empty(x) != (f.lo(i) == f.hi(i))) bad("empty" + n); if (c.has_tracker(x) != f.trk[i]) bad("has_tracker" + n);
      if (f.trk[i] && (rp.get_tracker(x).part != i || c.get_tracker(x).part != i)) bad("tracker" + n); } };
  all();
  for (auto const &o : ops) { size_t x = (size_t)o.idx; calls.clear(); r.step();
    if (o.k == 'a') { It b = std::next(base, (long)f.own.size()), e = std::next(b, o.n); if (o.idx % 2) rp.append(x, b, e); else if (o.n % 2) rp.append(x, R(b, e)); else { R rr(b, e); R const &cr = rr; rp.append(x, cr); } }
    if (o.k == 'b' && rp.begin(x) != std::next(base, f.lo(o.idx))) bad("begin of partition " + std::to_string(o.idx) + " (not const)");
    if (o.k == 'e' && rp.end(x) != std::next(base, f.hi(o.idx))) bad("end of partition " + std::to_string(o.idx) + " (not const)");
    if (o.k == 't') rp.set_tracker(x, Rec{o.idx}); if (o.k == 'c') rp.clear_partitions();
    if (o.k == 'i') { It pos = std::next(base, o.pos), nb = pos; for (int k = 0; k < o.n; ++k) nb = l.insert(nb, fresh++); if (o.pos == 0 && o.n) base = nb;
      bool front = o.pos == f.lo(o.idx); rp.insert(x, nb, pos);
      std::vector<Call> want; if (front) { if (f.trk[o.idx]) want.push_back({'b', o.idx, pos, nb, o.n}); if (o.pos > 0) { int p = f.own[(size_t)o.pos - 1]; if (f.trk[p]) want.push_back({'e', p, pos, nb, 0}); } } else if (f.trk[o.idx]) want.push_back({'s', o.idx, {}, {}, o.n});
      if (o.n) { bool same = want.size() <= calls.size(); for (auto const &w : want) { bool hit = false; for (auto const &c : calls) hit = hit || (c.what == w.what && c.part == w.part && c.n == w.n && (w.what == 's' || (c.a == w.a && c.b == w.b))); same = same && hit; }
        for (auto const &c : calls) if (c.part != o.idx && c.what != 'e') same = false; if (!same) bad("the trackers are told something else"); } }
    f.apply(o); if (o.k != 'c' || true) { if (o.k == 'c') base = std::next(l.begin(), 3); all(); }
  }
  uint64_t h = 7; for (int v : f.own) h = h * 31 + (uint64_t)v + 1; for (int i = 0; i < P; ++i) h = h * 31 + (uint64_t)(f.act[i] + 2 * f.trk[i]); r.state(h); r.trace();
}
void explore(mc::Run &r) {
  for (int P = 1; P <= (r.thorough ? 5 : 4); ++P) { size_t depth = P < 3 ? 5 : 4; if (r.thorough && P < 5) depth = P < 3 ? 6 : 5;
    std::vector<Op> ops; std::function<void(Ref const &)> rec = [&](Ref const &f) {
      if (r.begin([&] { return std::to_string(P) + " partitions: " + show(ops); })) r.body([&] { run(r, P, ops); });
      if (ops.size() == depth) return;
      for (auto const &o : f.ops()) { Ref g = f; g.apply(o); ops.push_back(o); rec(g); ops.pop_back(); } };
    Ref f; f.P = P; rec(f); }
}
