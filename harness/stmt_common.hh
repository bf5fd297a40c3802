// Shared by P13 and P14: FLPR's statement parsers by name, writings of a token
// sequence, and the substitution families.
#ifndef STMT_COMMON_HH
#define STMT_COMMON_HH
#include <functional>
#include <map>
#include <memory>
#include "src_util.hh"
#include "ref_lex.hh"
#include "ref_stmt.hh"
#include "flpr/parse_stmt.hh"
namespace sc {
using FLPR::Stmt::Stmt_Tree; using FLPR::TT_Stream; using FLPR::Syntax_Tags;
struct Kind { char const *name; Stmt_Tree (*f)(TT_Stream &); int rule; int tag; };
#define K(x) {#x, &FLPR::Stmt::x, 0, 0},
static std::vector<Kind> kinds{
K(access_stmt) K(allocatable_stmt) K(allocate_stmt) K(arithmetic_if_stmt) K(assignment_stmt) K(associate_stmt) K(asynchronous_stmt) K(backspace_stmt) K(bind_stmt) K(block_stmt) K(call_stmt) K(case_stmt) K(close_stmt) K(codimension_stmt) K(common_stmt) K(component_def_stmt) K(data_component_def_stmt) K(computed_goto_stmt) K(contains_stmt) K(continue_stmt) K(cycle_stmt) K(data_stmt) K(deallocate_stmt) K(derived_type_stmt) K(dimension_stmt) K(do_stmt) K(label_do_stmt) K(nonlabel_do_stmt) K(else_stmt) K(else_if_stmt) K(elsewhere_stmt) K(masked_elsewhere_stmt) K(end_associate_stmt) K(end_block_stmt) K(end_do) K(end_do_stmt) K(end_enum_stmt) K(end_forall_stmt) K(end_function_stmt) K(end_if_stmt) K(end_interface_stmt) K(end_module_stmt) K(end_mp_subprogram_stmt) K(end_program_stmt) K(end_select_stmt) K(end_select_rank_stmt) K(end_select_type_stmt) K(end_submodule_stmt) K(end_subroutine_stmt) K(end_type_stmt) K(end_where_stmt) K(endfile_stmt) K(entry_stmt) K(enum_def_stmt) K(enumerator_def_stmt) K(equivalence_stmt) K(error_stop_stmt) K(event_post_stmt) K(event_wait_stmt) K(exit_stmt) K(external_stmt) K(fail_image_stmt) K(final_procedure_stmt) K(flush_stmt) K(forall_construct_stmt) K(forall_stmt) K(forall_assignment_stmt) K(form_team_stmt) K(format_stmt) K(function_stmt) K(generic_stmt) K(goto_stmt) K(if_stmt) K(action_stmt) K(if_then_stmt) K(implicit_stmt) K(import_stmt) K(inquire_stmt) K(intent_stmt) K(interface_stmt) K(intrinsic_stmt) K(lock_stmt) K(macro_stmt) K(module_stmt) K(mp_subprogram_stmt) K(namelist_stmt) K(nullify_stmt) K(open_stmt) K(optional_stmt) K(other_specification_stmt) K(parameter_stmt) K(pointer_assignment_stmt) K(pointer_stmt) K(print_stmt) K(binding_private_stmt) K(private_components_stmt) K(private_or_sequence) K(sequence_stmt) K(proc_component_def_stmt) K(procedure_declaration_stmt) K(procedure_stmt) K(program_stmt) K(protected_stmt) K(read_stmt) K(return_stmt) K(rewind_stmt) K(save_stmt) K(select_case_stmt) K(select_rank_stmt) K(select_rank_case_stmt) K(select_type_stmt) K(stop_stmt) K(submodule_stmt) K(subroutine_stmt) K(sync_all_stmt) K(sync_images_stmt) K(sync_memory_stmt) K(sync_team_stmt) K(target_stmt) K(type_bound_generic_stmt) K(type_bound_proc_binding) K(type_bound_procedure_stmt) K(type_declaration_stmt) K(type_guard_stmt) K(type_param_def_stmt) K(unlock_stmt) K(use_stmt) K(value_stmt) K(volatile_stmt) K(wait_stmt) K(where_construct_stmt) K(where_stmt) K(write_stmt)
};
#undef K
inline std::string label_of(std::string s) { for (char &c : s) if (c == '_') c = '-'; return s; }
inline void init(refs::Grammar const &g) {
  std::map<std::string, int> tags; for (int t = 0; t < Syntax_Tags::SG_ZZZ_UB; ++t) tags.emplace(Syntax_Tags::label(t), t);
  for (auto &k : kinds) { k.rule = g.rule.at(k.name); auto i = tags.find(label_of(k.name)); k.tag = i == tags.end() ? -1 : i->second; }
}
inline std::string spaced(refs::Sent const &s) { std::string r; for (auto const &t : s) { if (!r.empty()) r += ' '; r += t; } return r; }
inline std::string upper(refs::Sent const &s) { std::string r; for (auto t : s) { if (!r.empty()) r += ' '; if (t.find('\'') == std::string::npos) for (char &c : t) c = (char)toupper(c); r += t; } return r; }
// blanks only where the token sequence needs them (so END IF is written ENDIF where the language allows it)
inline std::string tight(refs::Sent const &s) {
  std::string r; std::vector<std::string> want;
  auto same = [&](std::string const &x) { auto L = ref::lex(x); if (L.odd || L.open || L.t.size() != want.size()) return false; for (size_t i = 0; i < want.size(); ++i) if (L.t[i].text != want[i]) return false; return true; };
  for (auto const &t : s) { for (auto const &x : ref::lex(t).t) want.push_back(x.text); std::string x = r + t; if (!same(x)) { x = r + ' ' + t; } r = x; }
  return r;
}
struct Scanned {
  FLPR::Logical_File lf; bool ok = false; FLPR::LL_Stmt *s = nullptr; std::vector<size_t> owner; // FLPR token -> reference token
  explicit Scanned(std::string const &text, refs::Sent const &want) {
    std::istringstream is(text + "\n"); lf.read_and_scan(is, "t.f90", 0); lf.make_stmts();
    if (lf.ll_stmts.size() != 1) return;
    s = &lf.ll_stmts.front(); if (s->has_label()) return;
    std::string acc; size_t j = 0;
    for (auto const &t : *s) { if (j >= want.size()) return; owner.push_back(j); std::string x = t.text(); if (x.find('\'') == std::string::npos) for (char &c : x) c = (char)tolower(c); acc += x; if (acc == want[j]) { acc.clear(); ++j; } }
    ok = acc.empty() && j == want.size();
  }
};
static std::vector<refs::Sent> const &expr_forms() {
  static std::vector<refs::Sent> v;
  if (v.empty()) for (char const *e : {"1", "1.5", "1.5e3_dp", "'s'", "'a''(b'", ".true.", "- x", ".not. x", ".op. x", "a + b", "a / b", "a == b", "a /= b", "a // b", "a .op. b", "a ** ( - 2 )", "( a + b ) * c", "( a )", "( 1.0 , 2.0 )", "( a ) . x", "[ 1 , 2 ]", "( / 1 , 2 / )", "f ( )", "f ( a , b )", "f ( k = 1 , v = 's' )", "a % b ( 1 : 2 )", "a % b % c ( i ) ( 1 : 2 )", "a ( : , 2 : )", "a ( : : 2 )", "a ( 1 :: 2 )", "f ( ( a ) , [ b ] ) % c", "z'ff'"}) {
    refs::Sent s; std::istringstream is(e); std::string w; while (is >> w) s.push_back(w); if (spaced(s).find(" . ") != std::string::npos) continue; v.push_back(s); }
  return v;
}
// every single replacement of one slot by every form that may stand there
inline void substitute(refs::Toks const &t, bool keywords, std::function<void(refs::Sent const &)> const &f) {
  auto put = [&](size_t i, refs::Sent const &w) { refs::Sent s; for (size_t j = 0; j < t.size(); ++j) if (j == i) s.insert(s.end(), w.begin(), w.end()); else s.push_back(t[j].text); if (s.size() < 60) f(s); };
  for (size_t i = 0; i < t.size(); ++i) switch (t[i].slot) {
  case refs::NAME: if (keywords) for (auto const &k : ref::keywords) put(i, {k.w}); put(i, {"a_long_name_1"}); put(i, {"x"}); break;
  case refs::TNAME: if (keywords) for (auto const &k : ref::keywords) if (!refs::intrinsic_type(k.w)) put(i, {k.w}); put(i, {"x"}); break;
  case refs::EXPR: for (auto const &e : expr_forms()) put(i, e); if (keywords) for (char const *k : {"end", "if", "null", "stat", "real", "type", "only", "then"}) put(i, {k}); break;
  case refs::INT: put(i, {"1"}); put(i, {"99999"}); break;
  case refs::STR: put(i, {"'it''s'"}); break;
  case refs::DEFOP: put(i, {".x."}); break;
  case refs::REAL: put(i, {"1.0d0"}); put(i, {".5"}); put(i, {"2.e-3_sp"}); break;
  case refs::BOZ: put(i, {"b'01'"}); put(i, {"o'17'"}); break;
  case refs::LETTER: put(i, {"z"}); break;
  default: break;
  }
}
// every change of one token
inline void mutate(refs::Sent const &s, std::vector<std::string> const &al, std::function<void(refs::Sent const &)> const &f) {
  size_t n = s.size(); auto emit = [&](refs::Sent const &x) { if (x.empty() || x.size() > 60 || isdigit((unsigned char)x[0][0])) return; f(x); };
  for (size_t i = 0; i < n; ++i) { refs::Sent x = s; x.erase(x.begin() + (long)i); emit(x); }
  for (size_t i = 0; i < n; ++i) { refs::Sent x = s; x.insert(x.begin() + (long)i, s[i]); emit(x); }
  for (size_t i = 0; i + 1 < n; ++i) if (s[i] != s[i + 1]) { refs::Sent x = s; std::swap(x[i], x[i + 1]); emit(x); }
  for (size_t i = 0; i < n; ++i) for (auto const &a : al) if (a != s[i]) { refs::Sent x = s; x[i] = a; emit(x); }
  for (size_t i = 0; i <= n; ++i) for (auto const &a : al) { refs::Sent x = s; x.insert(x.begin() + (long)i, a); emit(x); }
}
static std::vector<std::string> const alphabet{"(", ")", "[", "]", ",", ":", "::", "=", "=>", "*", "/", "%", "+", "a", "10", "'s'", ".op.", "end", "if", "only"};
inline bool is_stmt_rule(std::string const &r) { for (auto const &k : kinds) if (r == k.name) return r != "action_stmt" && r != "other_specification_stmt"; return false; }
} // namespace sc
#endif
