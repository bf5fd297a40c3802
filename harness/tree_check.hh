// Checks of a program tree against a reference derivation, shared by P11 and P22.
#ifndef TREE_CHECK_HH
#define TREE_CHECK_HH
#include "mc.hh"
#include "src_util.hh"
#include "ref_prgm.hh"
#include "flpr/Parsed_File.hh"
namespace tc {
using namespace FLPR;
using File = Parsed_File<>;
using Node = File::Parse_Tree::node;
static std::vector<char> keep;       // construct tags of the grammar
static std::map<std::string, int> tagno;
static void tags(refp::Grammar const &g) {
  for (int t = 0; t < Syntax_Tags::SG_ZZZ_UB; ++t) tagno[Syntax_Tags::label(t)] = t;
  keep.assign(Syntax_Tags::SG_ZZZ_UB + 1, 0);
  for (auto const &t : g.tags) { if (!tagno.count(t)) { fprintf(stderr, "no tag %s\n", t.c_str()); _exit(3); } keep[tagno[t]] = 1; }
}
// projection of the tree built on the constructs of the grammar
static std::string shape(Node &n, std::map<LL_Stmt const *, int> const &num) {
  if (n->is_stmt()) { auto it = num.find(&n->ll_stmt()); std::string t = Syntax_Tags::label(n->syntag()); if (n->syntag() == Syntax_Tags::SG_ACTION_STMT) t = Syntax_Tags::label(n->ll_stmt().syntax_tag()); return t + "#" + (it == num.end() ? "?" : std::to_string(it->second)) + " "; }
  std::string c; for (auto &b : n.branches()) c += shape(b, num);
  if (c.empty()) return "";
  return keep[n->syntag()] ? Syntax_Tags::label(n->syntag()) + "(" + c + ") " : c;
}
struct Checker {
  mc::Run &r; File &f; std::map<LL_Stmt const *, int> num;
  // spans, parents and siblings; returns [first,last) leaf numbers
  std::pair<int, int> walk(Node &n, File::Prgm_Cursor c, int next) {
    int b = next, e = next;
    if (&c.node() != &n) r.fail("cursor does not stand on the node it was moved to");
    if (n->is_stmt()) {
      if (!n.is_leaf()) r.fail("a statement node has children");
      auto it = num.find(&n->ll_stmt()); if (it == num.end()) r.fail("a node names a statement that is not in the list");
      b = it->second; e = b + 1;
      if (b != next) r.fail("statement " + std::to_string(b) + " stands in the tree where statement " + std::to_string(next) + " belongs");
      if (&*n->ll_stmt_iter() != &n->ll_stmt() || &n->stmt_tree() != &n->ll_stmt().stmt_tree()) r.fail("statement node names two statements");
      auto sc = f.stmt_to_node_cursor(n->ll_stmt_iter());
      if (&sc.node() != &n) r.fail("the link of statement " + std::to_string(b) + " leads to another node");
    } else {
      if (c.has_down() == n.branches().empty()) r.fail("has_down() is wrong");
      size_t k = 0, N = n.branches().size();
      for (auto &x : n.branches()) {
        auto d = c; if (k == 0) d.down(); else { d.down(); for (size_t q = 0; q < k; ++q) d.next(); }
        if (d.has_prev() != (k > 0) || d.has_next() != (k + 1 < N) || !d.has_up()) r.fail("reported moves are wrong");
        auto u = d; u.up(); if (&u.node() != &n) r.fail("up() from a child does not lead to its parent");
        auto s = walk(x, d, e); e = s.second; ++k;
      }
    }
    auto &sr = n->stmt_range();
    if ((int)sr.size() != e - b) r.fail("node " + Syntax_Tags::label(n->syntag()) + " spans " + std::to_string(sr.size()) + " statements instead of " + std::to_string(e - b));
    if (e > b) { if (num.at(&*sr.begin()) != b) r.fail("node " + Syntax_Tags::label(n->syntag()) + " begins at statement " + std::to_string(num.at(&*sr.begin())) + " instead of " + std::to_string(b)); if (sr.end() != std::next(sr.begin(), e - b)) r.fail("node range has another end"); }
    return {b, e};
  }
};
} // namespace tc
#endif
