// P04: every way of breaking a statement over lines gives the tokens of the
// unbroken statement, at the positions where the characters stand.
#include "mc.hh"
#include "src_util.hh"
#include "ref_lex.hh"
char const *const mc_property = "P04";
using namespace FLPR;

struct Layout { Lines lines; std::vector<std::pair<int, int>> at; }; // at[k]: line (0-based), column (1-based) of character k

static std::string kinds(std::vector<ref::Tok> const &t) { std::string s; for (auto const &k : t) s += std::to_string(k.kind) + ":" + k.text + " "; return s; }
// may a lexical token boundary be at p (so that a break without a leading & is legal)?
static bool boundary(std::string const &s, size_t p) {
  std::string a = s.substr(0, p), b = s.substr(p);
  auto la = ref::lex(a), lb = ref::lex(b), lw = ref::lex(s), ls = ref::lex(a + " " + b);
  if (la.open || lb.open) return false;
  auto c = la.t; for (auto const &t : lb.t) c.push_back(t);
  return kinds(c) == kinds(lw.t) && kinds(ls.t) == kinds(lw.t);
}
// is position p inside a character literal?
static bool inlit(std::string const &s, size_t p) { char q = 0; for (size_t i = 0; i < p; ++i) { if (q) { if (s[i] == q) q = 0; } else if (s[i] == '\'' || s[i] == '"') q = s[i]; } return q; }

static void check(mc::Run &r, std::string const &stmt, std::string const &label, Layout const &y, bool fixed, bool in_file) {
  r.note(fixed ? "fixed" : "free", join(y.lines));
  auto L = ref::lex(stmt);
  Logical_File f; Logical_Line *ll = nullptr; Logical_Line alone; int base = 0;
  if (in_file) {
    Lines v; std::string pad = fixed ? "      " : "";
    v.push_back(pad + "y = 1"); v.insert(v.end(), y.lines.begin(), y.lines.end()); v.push_back(pad + "z = 9");
    if (!(fixed ? scan_fixed(f, v) : scan_free(f, v))) r.fail("scan reports failure");
    if (f.lines.size() != 3) r.fail(std::to_string(f.lines.size()) + " logical lines instead of 3");
    auto i = f.lines.begin(); if (toks(*i) != toks(Logical_Line("y = 1"))) r.fail("the statement before was changed: " + toks(*i));
    ll = &*++i; ++i; if (toks(*i) != toks(Logical_Line("z = 9"))) r.fail("the statement after was changed: " + toks(*i));
    base = 1;
  } else { alone = fixed ? Logical_Line(y.lines, 72) : Logical_Line(y.lines); ll = &alone; }
  r.step();
  size_t k = 0; std::string got = toks(*ll), want = kinds(L.t);
  if (got != want) r.fail("tokens are " + got + " instead of " + want);
  if (ll->label != (label.empty() ? 0 : std::stoi(label))) r.fail("label is " + std::to_string(ll->label));
  for (auto const &t : ll->fragments()) {
    auto p = y.at[L.t[k].pos], e = y.at[L.t[k].pos + L.t[k].text.size() - 1];
    if (t.start_line != p.first + 1 + base || t.start_pos != p.second)
      r.fail("token " + t.text() + " reports " + std::to_string(t.start_line) + ":" + std::to_string(t.start_pos) + " but stands at " + std::to_string(p.first + 1 + base) + ":" + std::to_string(p.second));
    auto const &lay = ll->layout();
    auto in = [&](int l, int c, char ch) { return l >= 0 && l < (int)lay.size() && c >= 0 && c < (int)lay[l].main_txt.size() && lay[l].main_txt[c] == ch; };
    if (t.main_txt_line() != p.first || !in(t.main_txt_line(), t.main_txt_col(), t.text().front()) || t.main_txt_eline() != e.first || !in(t.main_txt_eline(), t.main_txt_ecol() - 1, t.text().back()))
      r.fail("token " + t.text() + " has wrong begin/end in its line's code text");
    ++k;
  }
  // statements between semicolons
  std::vector<size_t> sz; size_t c = 0; for (auto const &t : L.t) { if (t.kind == Syntax_Tags::TK_SEMICOLON) { if (c) sz.push_back(c); c = 0; } else ++c; } if (c) sz.push_back(c);
  auto const &st = ll->stmts(); std::vector<size_t> gs; for (auto const &s : st) gs.push_back(s.size());
  if (gs != sz) r.fail("grouped into " + std::to_string(gs.size()) + " statements, or with wrong extents");
  r.state(mc::hash(join(y.lines))); r.trace();
}

// style of one break in free form
struct Style { bool lead; char const *before; char const *after; char const *indent; bool legal_in_token; };
static Style const styles[] = {
  {true, "", "", "", true}, {true, "", "  ", "    ", true}, {true, "", "", "  ", true},
  {false, "", "", "", false}, {false, " ", "", "  ", false}, {false, "", " ! c 'o & x", "   ", false}, {true, "  ", "! it's", " ", false}, {true, "", "!", "", true},
  {true, "", "\r", "", true}, {false, "\t", "\t\r", "\t", false},
};
static std::vector<Lines> const mids{{}, {""}, {"! it's &"}, {"   ", "  !x \"", ""}};
static std::vector<Lines> const mids_fixed{{}, {""}, {"C it's &"}, {"*", "   ", "! \" x"}, {"c     &x"}};

// append text chunk s[b,e) of the statement at column col of line l
static void place(Layout &y, size_t b, size_t e, int col) { for (size_t k = b; k < e; ++k) y.at[k] = {(int)y.lines.size() - 1, col + (int)(k - b)}; }

static bool build_free(std::string const &s, std::string const &label, std::vector<size_t> const &br, std::vector<int> const &st, std::vector<int> const &mid, Layout &y) {
  y.at.assign(s.size(), {-1, -1}); y.lines.clear();
  std::string cur = label.empty() ? "" : label + " "; 
  y.lines.emplace_back(); size_t b = 0;
  for (size_t i = 0; i <= br.size(); ++i) {
    size_t e = i < br.size() ? br[i] : s.size();
    std::string head = i == 0 ? cur : std::string(styles[st[i - 1]].indent) + (styles[st[i - 1]].lead ? "&" : "");
    y.lines.back() = head + s.substr(b, e - b); place(y, b, e, (int)head.size() + 1);
    if (i < br.size()) {
      Style const &t = styles[st[i]];
      bool lit = inlit(s, e);
      if (!t.legal_in_token && !boundary(s, e)) return false;
      if (lit && t.after[0] && std::string(t.after).find('!') != std::string::npos) return false;
      if (s.substr(b, e - b).find_first_not_of(' ') == std::string::npos && !lit) return false;  // a line of blanks only
      y.lines.back() += std::string(t.before) + "&" + t.after;
      for (auto const &m : mids[mid[i]]) y.lines.push_back(m);
      y.lines.emplace_back();
    } else if (s.substr(b, e - b).find_first_not_of(' ') == std::string::npos) return false;
    b = e;
  }
  return true;
}
static bool build_fixed(std::string const &s, std::string const &label, std::vector<size_t> const &br, char mark, std::vector<int> const &mid, Layout &y) {
  y.at.assign(s.size(), {-1, -1}); y.lines.clear(); y.lines.emplace_back(); size_t b = 0;
  for (size_t i = 0; i <= br.size(); ++i) {
    size_t e = i < br.size() ? br[i] : s.size();
    std::string head = i == 0 ? label + std::string(6 - label.size(), ' ') : std::string("     ") + mark;
    bool lit = i < br.size() && inlit(s, e);
    if (lit) { if (i) return false; head += std::string(66 - (e - b), ' '); }   // the literal fills the line to column 72
    if (!lit && s.substr(b, e - b).find_first_not_of(' ') == std::string::npos) return false;
    y.lines.back() = head + s.substr(b, e - b); place(y, b, e, (int)head.size() + 1);
    if (i < br.size()) { for (auto const &m : mids_fixed[mid[i]]) y.lines.push_back(m); y.lines.emplace_back(); }
    b = e;
  }
  return true;
}

void explore(mc::Run &r) {
  std::vector<std::string> S{"call foo(a, 'it''s !x & y', 1.5e3_dp)", "enddo", "end do", "x=a.and..not.b", "if(i.eq.1.and.j==2)goto 10", "a=b;c=d//\"q;'\";", "integer::x(3)=[1,2]", "selectcase(k_'a b')", "x = 1.e-5**2", "p=>q%r ; ; z", "write(*,'(a)')\"\"", "elseif(t)then", "data x/1_i8,2*.true._k/"};
  std::vector<std::string> labels{"", "10"};
  for (auto const &s : S) for (auto const &lab : labels) {
    std::vector<std::vector<size_t>> brs{{}};
    for (size_t p = 1; p < s.size(); ++p) brs.push_back({p});
    for (size_t p = 1; p < s.size(); ++p) for (size_t q = p + 1; q < s.size(); ++q) { brs.push_back({p, q}); if (r.thorough && s.size() < 26) for (size_t t = q + 1; t < s.size(); ++t) brs.push_back({p, q, t}); }
    for (auto const &br : brs) {
      if (lab.size() && br.size() > 1 && !r.thorough) continue;
      if (r.begin([&] { std::string d = mc::show(s) + " label '" + lab + "' broken at"; for (auto p : br) d += " " + std::to_string(p); return d; })) r.body([&] {
        size_t n = br.size(), ns = sizeof styles / sizeof *styles; Layout y;
        std::vector<int> st(n), mid(n);
        if (n == 0) { build_free(s, lab, br, st, mid, y); check(r, s, lab, y, false, true); check(r, s, lab, y, false, false); build_fixed(s, lab, br, '&', mid, y); check(r, s, lab, y, true, true); check(r, s, lab, y, true, false); return; }
        std::function<void(size_t)> rs = [&](size_t i) {
          if (i == n) { if (build_free(s, lab, br, st, mid, y)) { check(r, s, lab, y, false, true); if (n == 1) check(r, s, lab, y, false, false); } return; }
          for (size_t k = 0; k < ns; ++k) for (size_t m = 0; m < mids.size(); ++m) {
            if (i >= 1 && !r.thorough && (k != (size_t)st[0] && k % 3 != 0)) continue;
            if (i >= 1 && !r.thorough && m != ((size_t)mid[0] + 1) % mids.size()) continue;
            if (i >= 2 && (k != (size_t)st[0] || m != (size_t)mid[1])) continue;
            st[i] = k; mid[i] = m; rs(i + 1);
          }
        };
        rs(0);
        for (char mark : {'&', '1', 'x'}) for (size_t m = 0; m < mids_fixed.size(); ++m) for (size_t m2 = 0; m2 < (n > 1 ? mids_fixed.size() : 1); ++m2) {
          if (n > 1 && !r.thorough && (m2 != m || mark == 'x')) continue;
          mid[0] = m; for (size_t i = 1; i < n; ++i) mid[i] = m2;
          if (build_fixed(s, lab, br, mark, mid, y)) { check(r, s, lab, y, true, true); if (n == 1) check(r, s, lab, y, true, false); }
        }
      });
    }
  }
}
