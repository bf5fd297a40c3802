// Statement grammar: Fortran 2018 statement rules (the part FLPR supports, plus
// its macro-stmt and the usual type*n spelling) as data; enumeration of the
// derivations within a number of deviations from the shortest one, and a
// recogniser over token texts.
//   WORD keyword   'x' symbol   lower rule   [x] optional   {x} repetition
//   <x>  x {',' x}   ~x  taken by FLPR beyond the standard: never demanded, never
//   complained about   @name/@letter/@int/@str/@defop/@expr  built-in
#ifndef REF_STMT_HH
#define REF_STMT_HH
#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <vector>
namespace refs {
static char const *const grammar_text = R"(
access_stmt = access_spec [ ['::'] < generic_spec > ]
access_spec = PUBLIC | PRIVATE
generic_spec = @name | OPERATOR '(' defined_operator ')' | ASSIGNMENT '(' '=' ')' | defined_io_generic_spec
defined_io_generic_spec = READ '(' FORMATTED ')' | READ '(' UNFORMATTED ')' | WRITE '(' FORMATTED ')' | WRITE '(' UNFORMATTED ')'
defined_operator = @defop | extended_intrinsic_op
extended_intrinsic_op = intrinsic_operator
intrinsic_operator = '+' | '-' | '*' | '/' | '**' | '//' | '==' | '/=' | '<' | '<=' | '>' | '>=' | '.eq.' | '.ne.' | '.lt.' | '.le.' | '.gt.' | '.ge.' | '.not.' | '.and.' | '.or.' | '.eqv.' | '.neqv.'
allocatable_stmt = ALLOCATABLE ['::'] < allocatable_decl >
allocatable_decl = @name [ '(' array_spec ')' ] [ '[' coarray_spec ']' ]
array_spec = < explicit_shape_spec > | < assumed_shape_spec > | assumed_size_spec | implied_shape_spec | assumed_implied_spec | '..'
explicit_shape_spec = [ @expr ':' ] @expr
assumed_shape_spec = [ @expr ] ':'
deferred_shape_spec = ':'
assumed_implied_spec = [ @expr ':' ] '*'
assumed_size_spec = < explicit_shape_spec > ',' assumed_implied_spec
implied_shape_spec = assumed_implied_spec ',' < assumed_implied_spec >
coarray_spec = < ':' > | explicit_coshape_spec
explicit_coshape_spec = { [ @expr ':' ] @expr ',' } [ @expr ':' ] '*'
allocate_stmt = ALLOCATE '(' [ type_spec '::' ] < allocation > [ ',' < alloc_opt > ] ')'
allocation = allocate_object [ '(' < allocate_shape_spec > ')' ] [ '[' allocate_coarray_spec ']' ]
allocate_object = @name | structure_component
structure_component = part_ref '%' { part_ref '%' } @name [ image_selector ]
allocate_shape_spec = [ @expr ':' ] @expr
allocate_coarray_spec = [ < allocate_shape_spec > ',' ] [ @expr ':' ] '*'
alloc_opt = ERRMSG '=' variable | MOLD '=' @expr | SOURCE '=' @expr | STAT '=' variable
arithmetic_if_stmt = IF '(' @expr ')' @int ',' @int ',' @int
assignment_stmt = variable '=' @expr
variable = designator | function_reference
designator = data_ref [ '(' substring_range ')' ]
substring_range = [ @expr ] ':' [ @expr ]
data_ref = part_ref { '%' part_ref }
part_ref = @name [ '(' < section_subscript > ')' ] [ image_selector ]
section_subscript = @expr | [ @expr ] ':' [ @expr ] [ ':' @expr ] | [ @expr ] '::' @expr
image_selector = '[' < @expr > [ ',' < image_selector_spec > ] ']'
image_selector_spec = STAT '=' variable | TEAM '=' @expr | TEAM_NUMBER '=' @expr
function_reference = procedure_designator '(' [ < actual_arg_spec > ] ')'
procedure_designator = @name | data_ref '%' @name
actual_arg_spec = [ @name '=' ] actual_arg
actual_arg = @expr | ~( '*' @int )
associate_stmt = [ @name ':' ] ASSOCIATE '(' < association > ')'
association = @name '=>' @expr
asynchronous_stmt = ASYNCHRONOUS ['::'] < @name >
backspace_stmt = BACKSPACE unit_or_list
unit_or_list = @expr | '(' < io_spec > ')' | ~soup
io_spec = @expr | '*' | @name '=' @expr | @name '=' '*'
bind_stmt = language_binding_spec ['::'] < bind_entity >
bind_entity = @name | '/' @name '/'
language_binding_spec = BIND '(' C [ ',' NAME '=' @expr ] ')'
block_stmt = [ @name ':' ] BLOCK
call_stmt = CALL procedure_designator [ '(' [ < actual_arg_spec | '*' @int > ] ')' ]
case_stmt = CASE ( '(' < case_value_range > ')' | DEFAULT ) [ @name ]
case_value_range = @expr | @expr ':' | ':' @expr | @expr ':' @expr
close_stmt = CLOSE io_list
io_list = '(' < io_spec > ')' | ~soup
soup = '(' ~[ @soup ] ')'
codimension_stmt = CODIMENSION ['::'] < codimension_decl >
codimension_decl = @name '[' coarray_spec ']'
common_stmt = COMMON [ '/' @name '/' | '/' '/' | '//' ] < common_block_object > { [','] ( '/' @name '/' | '//' | '/' '/' ) < common_block_object > }
common_block_object = @name [ '(' array_spec ')' ]
component_def_stmt = data_component_def_stmt | proc_component_def_stmt
data_component_def_stmt = declaration_type_spec [ [ ',' < component_attr_spec > ] '::' ] < component_decl >
component_attr_spec = access_spec | ALLOCATABLE | CODIMENSION '[' coarray_spec ']' | CONTIGUOUS | DIMENSION '(' component_array_spec ')' | POINTER
component_array_spec = < explicit_shape_spec > | < ':' >
component_decl = @name [ '(' component_array_spec ')' ] [ '[' coarray_spec ']' ] [ '*' char_length ] [ component_initialization ]
component_initialization = '=' @expr | '=>' @expr
char_length = @int | '(' type_param_value ')' | ~@name
type_param_value = @expr | '*' | ':'
computed_goto_stmt = GO TO '(' < label > ')' [','] @expr
label = @int
contains_stmt = CONTAINS
continue_stmt = CONTINUE
cycle_stmt = CYCLE [ @name ]
data_stmt = DATA data_stmt_set { [','] data_stmt_set }
data_stmt_set = < data_stmt_object > '/' < data_stmt_value > '/'
data_stmt_object = variable | data_implied_do
data_implied_do = '(' < data_i_do_object > ',' [ integer_type_spec '::' ] @name '=' @expr ',' @expr [ ',' @expr ] ')' | ~soup
data_i_do_object = data_ref | '(' < data_ref > ',' @name '=' @expr ',' @expr ')'
data_stmt_value = [ data_stmt_repeat '*' ] data_stmt_constant
data_stmt_repeat = @int | @name
data_stmt_constant = @int | ( '-' | '+' ) @int | @str | [ '-' | '+' ] @real | '.true.' | '.false.' | @name | NULL '(' ')' | @name '(' @expr ',' @expr ')' | '(' [ '-' | '+' ] @real ',' [ '-' | '+' ] @real ')' | '(' @name ',' @name ')' | @boz | ~( @letter @str ) | ~( '(' @expr ',' @expr ')' ) | ~designator | ~function_reference | ~structure_constructor
structure_constructor = derived_type_spec '(' [ < [ @name '=' ] @expr > ] ')'
deallocate_stmt = DEALLOCATE '(' < allocate_object > [ ',' < dealloc_opt > ] ')'
dealloc_opt = ERRMSG '=' variable | STAT '=' variable
derived_type_stmt = TYPE [ [ ',' < type_attr_spec > ] '::' ] @name [ '(' < @name > ')' ]
type_attr_spec = ABSTRACT | access_spec | BIND '(' C ')' | EXTENDS '(' @name ')'
dimension_stmt = DIMENSION ['::'] < @name '(' array_spec ')' >
do_stmt = label_do_stmt | nonlabel_do_stmt
label_do_stmt = [ @name ':' ] DO label [ loop_control ]
nonlabel_do_stmt = [ @name ':' ] DO [ loop_control ]
loop_control = [','] ( @name '=' @expr ',' @expr [ ',' @expr ] | WHILE '(' @expr ')' | CONCURRENT concurrent_header concurrent_locality )
concurrent_header = '(' [ integer_type_spec '::' ] < concurrent_control > [ ',' @expr ] ')'
concurrent_control = @name '=' @expr ':' @expr [ ':' @expr ]
concurrent_locality = { locality_spec }
locality_spec = LOCAL '(' < @name > ')' | LOCAL_INIT '(' < @name > ')' | SHARED '(' < @name > ')' | DEFAULT '(' NONE ')'
else_stmt = ELSE [ @name ]
else_if_stmt = ELSE IF '(' @expr ')' THEN [ @name ]
elsewhere_stmt = ELSE WHERE [ @name ]
masked_elsewhere_stmt = ELSE WHERE '(' @expr ')' [ @name ]
end_associate_stmt = END ASSOCIATE [ @name ]
end_block_stmt = END BLOCK [ @name ]
end_do = end_do_stmt | continue_stmt
end_do_stmt = END DO [ @name ]
end_enum_stmt = END ENUM
end_forall_stmt = END FORALL [ @name ]
end_function_stmt = END [ FUNCTION [ @name ] ]
end_if_stmt = END IF [ @name ]
end_interface_stmt = END INTERFACE [ generic_spec ]
end_module_stmt = END [ MODULE [ @name ] ]
end_mp_subprogram_stmt = END [ PROCEDURE [ @name ] ]
end_program_stmt = END [ PROGRAM [ @name ] ]
end_select_stmt = END SELECT [ @name ]
end_select_rank_stmt = END SELECT [ @name ]
end_select_type_stmt = END SELECT [ @name ]
end_submodule_stmt = END [ SUBMODULE [ @name ] ]
end_subroutine_stmt = END [ SUBROUTINE [ @name ] ]
end_type_stmt = END TYPE [ @name ]
end_where_stmt = END WHERE [ @name ]
endfile_stmt = END FILE unit_or_list
entry_stmt = ENTRY @name [ '(' [ < dummy_arg > ] ')' [ suffix ] ]
dummy_arg = @name | '*'
suffix = RESULT '(' @name ')' [ language_binding_spec ] | language_binding_spec [ RESULT '(' @name ')' ]
enum_def_stmt = ENUM ',' BIND '(' C ')'
enumerator_def_stmt = ENUMERATOR ['::'] < enumerator >
enumerator = @name [ '=' @expr ]
equivalence_stmt = EQUIVALENCE < equivalence_set >
equivalence_set = '(' equivalence_object ',' < equivalence_object > ')'
equivalence_object = @name | array_element | substring
array_element = @name '(' < @expr > ')' | ~( data_ref '%' @name '(' < @expr > ')' )
substring = parent_string '(' substring_range ')'
parent_string = @name | @name '(' < @expr > ')' | ~designator | ~@str
error_stop_stmt = ERROR STOP [ @expr ] [ ',' QUIET '=' @expr ]
event_post_stmt = EVENT POST '(' variable [ ',' < sync_stat > ] ')'
event_wait_stmt = EVENT WAIT '(' variable [ ',' < UNTIL_COUNT '=' @expr | sync_stat > ] ')'
sync_stat = STAT '=' variable | ERRMSG '=' variable
exit_stmt = EXIT [ @name ]
external_stmt = EXTERNAL ['::'] < @name >
fail_image_stmt = FAIL IMAGE
final_procedure_stmt = FINAL ['::'] < @name >
flush_stmt = FLUSH unit_or_list
forall_construct_stmt = [ @name ':' ] FORALL concurrent_header
forall_stmt = FORALL concurrent_header forall_assignment_stmt
forall_assignment_stmt = assignment_stmt | pointer_assignment_stmt
form_team_stmt = FORM TEAM '(' @expr ',' variable [ ',' < NEW_INDEX '=' @expr | sync_stat > ] ')'
format_stmt = FORMAT format_specification
format_specification = '(' [ < format_item > ] ')' | ~soup
format_item = @name | @int @name | @int '(' < @name > ')' | '(' @name ')' | @str | '/' | '*' '(' @name ')' | ':'
function_stmt = [ prefix ] FUNCTION @name ( '(' [ < @name > ] ')' [ suffix ] | ~[ suffix ] )
prefix = prefix_spec { prefix_spec }
prefix_spec = ELEMENTAL | IMPURE | MODULE | NON_RECURSIVE | PURE | RECURSIVE | declaration_type_spec
generic_stmt = GENERIC [ ',' access_spec ] '::' generic_spec '=>' < @name >
goto_stmt = GO TO label
if_stmt = IF '(' @expr ')' if_action
if_action = simple_action | ~action_stmt
simple_action = assignment_stmt | allocate_stmt | backspace_stmt | call_stmt | close_stmt | continue_stmt | cycle_stmt | deallocate_stmt | endfile_stmt | error_stop_stmt | event_post_stmt | event_wait_stmt | exit_stmt | fail_image_stmt | flush_stmt | form_team_stmt | goto_stmt | inquire_stmt | lock_stmt | nullify_stmt | open_stmt | pointer_assignment_stmt | print_stmt | read_stmt | return_stmt | rewind_stmt | stop_stmt | sync_all_stmt | sync_images_stmt | sync_memory_stmt | sync_team_stmt | unlock_stmt | wait_stmt | where_stmt | write_stmt | computed_goto_stmt | arithmetic_if_stmt | forall_stmt
action_stmt = simple_action | if_stmt | macro_stmt
if_then_stmt = [ @name ':' ] IF '(' @expr ')' THEN
implicit_stmt = IMPLICIT < implicit_spec > | IMPLICIT NONE [ '(' [ < implicit_none_spec > ] ')' ]
implicit_spec = declaration_type_spec '(' < letter_spec > ')'
letter_spec = @letter [ '-' @letter ]
implicit_none_spec = EXTERNAL | TYPE
import_stmt = IMPORT [ ['::'] < @name > ] | IMPORT ',' ONLY ':' < @name > | IMPORT ',' NONE | IMPORT ',' ALL
inquire_stmt = INQUIRE '(' IOLENGTH '=' variable ')' < output_item > | INQUIRE '(' < io_spec > ')' | ~( INQUIRE soup [ < output_item > ] )
output_item = @expr | io_implied_do
io_implied_do = '(' < io_implied_do_object > ',' io_implied_do_control ')'
io_implied_do_object = output_item
io_implied_do_control = io_do_var '=' @expr ',' @expr [ ',' @expr ]
io_do_var = @name | ~variable
input_item = variable | io_implied_do
intent_stmt = INTENT '(' intent_spec ')' ['::'] < @name >
intent_spec = IN | OUT | INOUT | IN OUT
interface_stmt = INTERFACE [ generic_spec ] | ABSTRACT INTERFACE
intrinsic_stmt = INTRINSIC ['::'] < @name >
lock_stmt = LOCK '(' variable [ ',' < ACQUIRED_LOCK '=' variable | sync_stat > ] ')'
macro_stmt = @pname macro_args | ~( @name soup )
macro_args = '(' [ < @expr > ] ')' | ~soup
module_stmt = MODULE @name
mp_subprogram_stmt = MODULE PROCEDURE @name
namelist_stmt = NAMELIST '/' @name '/' < @name > { [','] '/' @name '/' < @name > }
nullify_stmt = NULLIFY '(' < pointer_object > ')'
pointer_object = @name | structure_component
open_stmt = OPEN io_list
optional_stmt = OPTIONAL ['::'] < @name >
other_specification_stmt = access_stmt | allocatable_stmt | asynchronous_stmt | bind_stmt | codimension_stmt | dimension_stmt | external_stmt | intent_stmt | intrinsic_stmt | namelist_stmt | optional_stmt | pointer_stmt | protected_stmt | save_stmt | target_stmt | volatile_stmt | value_stmt | common_stmt | equivalence_stmt
parameter_stmt = PARAMETER '(' < named_constant_def > ')'
named_constant_def = @name '=' @expr
pointer_assignment_stmt = data_pointer_object [ '(' < @expr ':' > ')' ] '=>' @expr | data_pointer_object '(' < @expr ':' @expr > ')' '=>' @expr | ~( variable '=>' @expr )
data_pointer_object = @name | data_ref '%' @name | ~variable
pointer_stmt = POINTER ['::'] < @name [ '(' < ':' > ')' ] >
print_stmt = PRINT format [ ',' < output_item > ]
format = @expr | '*'
binding_private_stmt = PRIVATE
private_components_stmt = PRIVATE
private_or_sequence = PRIVATE | SEQUENCE
sequence_stmt = SEQUENCE
proc_component_def_stmt = PROCEDURE '(' [ proc_interface ] ')' ',' < proc_component_attr_spec > '::' < proc_decl >
proc_interface = @name | declaration_type_spec
proc_component_attr_spec = access_spec | NOPASS | PASS [ '(' @name ')' ] | POINTER
proc_decl = @name [ '=>' proc_pointer_init ]
proc_pointer_init = @name | NULL '(' ')' | ~function_reference
procedure_declaration_stmt = PROCEDURE '(' [ proc_interface ] ')' [ { ',' proc_attr_spec } '::' ] < proc_decl >
proc_attr_spec = access_spec | language_binding_spec | INTENT '(' intent_spec ')' | OPTIONAL | POINTER | PROTECTED | SAVE
procedure_stmt = [ MODULE ] PROCEDURE ['::'] < @name >
program_stmt = PROGRAM @name
protected_stmt = PROTECTED ['::'] < @name >
read_stmt = READ io_list [ < input_item > ] | READ format [ ',' < input_item > ]
return_stmt = RETURN [ @expr ]
rewind_stmt = REWIND unit_or_list
save_stmt = SAVE [ ['::'] < saved_entity > ]
saved_entity = @name | '/' @name '/'
select_case_stmt = [ @name ':' ] SELECT CASE '(' @expr ')'
select_rank_stmt = [ @name ':' ] SELECT RANK '(' [ @name '=>' ] @expr ')'
select_rank_case_stmt = RANK ( '(' @expr ')' | '(' '*' ')' | DEFAULT ) [ @name ]
select_type_stmt = [ @name ':' ] SELECT TYPE '(' [ @name '=>' ] @expr ')'
stop_stmt = STOP [ @expr ] [ ',' QUIET '=' @expr ]
submodule_stmt = SUBMODULE '(' @name [ ':' @name ] ')' @name
subroutine_stmt = [ prefix ] SUBROUTINE @name ( [ '(' [ < dummy_arg > ] ')' [ language_binding_spec ] ] | ~language_binding_spec )
sync_all_stmt = SYNC ALL [ '(' [ < sync_stat > ] ')' ]
sync_images_stmt = SYNC IMAGES '(' ( @expr | '*' ) [ ',' < sync_stat > ] ')'
sync_memory_stmt = SYNC MEMORY [ '(' [ < sync_stat > ] ')' ]
sync_team_stmt = SYNC TEAM '(' @expr [ ',' < sync_stat > ] ')'
target_stmt = TARGET ['::'] < target_decl >
target_decl = @name [ '(' array_spec ')' ] [ '[' coarray_spec ']' ]
type_bound_generic_stmt = GENERIC [ ',' access_spec ] '::' generic_spec '=>' < @name >
type_bound_proc_binding = type_bound_procedure_stmt | type_bound_generic_stmt | final_procedure_stmt
type_bound_procedure_stmt = PROCEDURE [ [ ',' < binding_attr > ] '::' ] < type_bound_proc_decl > | PROCEDURE '(' @name ')' ',' < binding_attr > '::' < @name >
type_bound_proc_decl = @name [ '=>' @name ]
binding_attr = access_spec | DEFERRED | NON_OVERRIDABLE | NOPASS | PASS [ '(' @name ')' ]
type_declaration_stmt = declaration_type_spec [ { ',' attr_spec } '::' ] < entity_decl > | CHARACTER '*' char_length ',' < entity_decl >
attr_spec = access_spec | ALLOCATABLE | ASYNCHRONOUS | CODIMENSION '[' coarray_spec ']' | CONTIGUOUS | DIMENSION '(' array_spec ')' | EXTERNAL | INTENT '(' intent_spec ')' | INTRINSIC | language_binding_spec | OPTIONAL | PARAMETER | POINTER | PROTECTED | SAVE | TARGET | VALUE | VOLATILE
entity_decl = @name [ '(' array_spec ')' ] [ '[' coarray_spec ']' ] [ '*' char_length ] [ initialization ]
initialization = '=' @expr | '=>' @expr
declaration_type_spec = intrinsic_type_spec | TYPE '(' derived_type_spec ')' | TYPE '(' intrinsic_type_spec ')' | CLASS '(' derived_type_spec ')' | CLASS '(' '*' ')' | TYPE '(' '*' ')'
intrinsic_type_spec = INTEGER [ kind_selector ] | REAL [ kind_selector ] | DOUBLE PRECISION | COMPLEX [ kind_selector ] | LOGICAL [ kind_selector ] | CHARACTER [ char_selector ] | DOUBLEPRECISION
integer_type_spec = INTEGER [ kind_selector ]
kind_selector = '(' [ KIND '=' ] @expr ')' | '*' @int
char_selector = length_selector | '(' LEN '=' type_param_value ',' KIND '=' @expr ')' | '(' type_param_value ',' [ KIND '=' ] @expr ')' | '(' KIND '=' @expr [ ',' LEN '=' type_param_value ] ')'
length_selector = '(' [ LEN '=' ] type_param_value ')' | '*' char_length ~[ ',' ]
derived_type_spec = @tname [ '(' < type_param_spec > ')' ]
type_param_spec = [ @name '=' ] type_param_value
type_spec = intrinsic_type_spec | derived_type_spec
type_guard_stmt = TYPE IS '(' type_spec ')' [ @name ] | CLASS IS '(' derived_type_spec ')' [ @name ] | CLASS DEFAULT [ @name ]
type_param_def_stmt = integer_type_spec ',' ( KIND | LEN ) '::' < type_param_decl >
type_param_decl = @name [ '=' @expr ]
unlock_stmt = UNLOCK '(' variable [ ',' < sync_stat > ] ')'
use_stmt = USE [ [ ',' module_nature ] '::' ] @name [ ',' < rename > ] | USE [ [ ',' module_nature ] '::' ] @name ',' ONLY ':' [ < only > ]
module_nature = INTRINSIC | NON_INTRINSIC
rename = @name '=>' @name | OPERATOR '(' @defop ')' '=>' OPERATOR '(' @defop ')'
only = @name | rename | generic_spec
value_stmt = VALUE ['::'] < @name >
volatile_stmt = VOLATILE ['::'] < @name >
wait_stmt = WAIT '(' < wait_spec > ')'
wait_spec = @expr | UNIT '=' @expr | END '=' label | EOR '=' label | ERR '=' label | ID '=' @expr | IOMSG '=' variable | IOSTAT '=' variable
where_construct_stmt = [ @name ':' ] WHERE '(' @expr ')'
where_stmt = WHERE '(' @expr ')' assignment_stmt
write_stmt = WRITE io_list [ < output_item > ]
xexpr = xterm { xbin xterm }
xterm = [ '-' | '+' | '.not.' | @defop ] xprim
xbin = '+' | '-' | '*' | '/' | '**' | '//' | '==' | '/=' | '<' | '<=' | '>' | '>=' | '.and.' | '.or.' | '.eqv.' | '.neqv.' | @defop
xprim = @int | @real | @str | @boz | '.true.' | '.false.' | xref | '(' xexpr ')' | '(' xexpr ',' xexpr ')' | '[' < xexpr > ']' | '(' '/' < xexpr > '/' ')'
xref = @name { '(' [ < xarg > ] ')' } { '%' @name { '(' [ < xarg > ] ')' } }
xarg = [ @name '=' ] xexpr | [ xexpr ] ':' [ xexpr ] [ ':' xexpr ] | [ xexpr ] '::' xexpr
)";
enum Slot { NONE, NAME, LETTER, INT, STR, EXPR, DEFOP, PNAME, REAL, BOZ, SOUP, TNAME };
struct Tok { std::string text; Slot slot; };
using Toks = std::vector<Tok>;
using Sent = std::vector<std::string>;
inline bool isname(std::string const &s) { return !s.empty() && isalpha((unsigned char)s[0]) && s.find('\'') == std::string::npos && s.find('"') == std::string::npos; }
inline bool isint(std::string const &s) { return !s.empty() && isdigit((unsigned char)s[0]) && s.find_first_of(".eEdD'\"") == std::string::npos; }
inline bool isreal(std::string const &s) { return !s.empty() && (isdigit((unsigned char)s[0]) || (s[0] == '.' && s.size() > 1 && isdigit((unsigned char)s[1]))) && !isint(s) && s.find_first_of("'\"") == std::string::npos; }
inline bool isboz(std::string const &s) { return s.size() > 2 && std::string("bozBOZ").find(s[0]) != std::string::npos && (s[1] == '\'' || s[1] == '"'); }
inline bool isstr(std::string const &s) { return !s.empty() && (s.back() == '\'' || s.back() == '"') && !isboz(s); }
inline bool isdefop(std::string const &s) {
  if (s.size() < 3 || s[0] != '.' || s.back() != '.' || !isalpha((unsigned char)s[1])) return false;
  static char const *const no[] = {".eq.", ".ne.", ".lt.", ".le.", ".gt.", ".ge.", ".not.", ".and.", ".or.", ".eqv.", ".neqv.", ".true.", ".false."};
  for (auto n : no) if (s == n) return false;
  return true;
}
inline bool intrinsic_type(std::string const &s) { return s == "integer" || s == "real" || s == "complex" || s == "logical" || s == "character" || s == "doubleprecision"; }
class Grammar {
public:
  enum T { SEQ, ALT, OPT, STAR, LIST, TOK, REF, TERM };
  struct N { T t; std::vector<int> kids; std::string text; bool len = false; Slot slot = NONE; };
  std::vector<N> n; std::map<std::string, int> rule; std::vector<std::string> order;
  Grammar() {
    std::string line; for (char const *p = grammar_text;; ++p) { if (*p == '\n' || !*p) { if (!line.empty()) parse(line); line.clear(); if (!*p) break; } else line += *p; }
    for (auto &x : n) if (x.t == REF && !rule.count(x.text)) { std::cerr << "no rule " << x.text << std::endl; abort(); }
    for (auto &x : n) if (x.t == REF) x.kids = {rule[x.text]};
    xexpr = rule["xexpr"];
  }
  //! every derivation with at most `budget` deviations
  void derive(std::string const &r, int budget, std::function<void(Toks const &)> const &f) const { Toks out; gen(rule.at(r), budget, out, [&](int) { f(out); }); }
  int xexpr;
private:
  std::vector<std::string> w; size_t p = 0;
  int mk(T t) { n.push_back({}); n.back().t = t; return (int)n.size() - 1; }
  void parse(std::string const &line) {
    w.clear(); p = 0; std::string cur;
    for (size_t i = 0; i <= line.size(); ++i) {
      char c = i < line.size() ? line[i] : ' ';
      if (c == '\'') { size_t e = line.find('\'', i + 1); w.push_back(line.substr(i, e - i)); i = e; continue; }
      if (c == ' ' || std::string("[]{}<>()|~").find(c) != std::string::npos) { if (!cur.empty()) w.push_back(cur); cur.clear(); if (c != ' ') w.push_back(std::string(1, c)); continue; }
      cur += c;
    }
    std::string name = w[0]; p = 2; int e = alt(); if (p != w.size()) { std::cerr << "grammar: " << line << std::endl; abort(); }
    if (rule.count(name)) { std::cerr << "twice: " << name << std::endl; abort(); }
    rule[name] = e; order.push_back(name);
  }
  int alt() { std::vector<int> k{sequence()}; while (p < w.size() && w[p] == "|") { ++p; k.push_back(sequence()); } if (k.size() == 1) return k[0]; int a = mk(ALT); n[a].kids = k; return a; }
  int sequence() { std::vector<int> k; while (p < w.size() && w[p] != "|" && w[p] != "]" && w[p] != "}" && w[p] != ">" && w[p] != ")") k.push_back(item()); if (k.size() == 1) return k[0]; int a = mk(SEQ); n[a].kids = k; return a; }
  int item() {
    std::string s = w[p++];
    if (s == "~") { int x = item(); int a = mk(SEQ); n[a].kids = {x}; n[a].len = true; return a; }
    char c = s[0]; auto wrap = [&](T t) { int x = alt(); ++p; int a = mk(t); n[a].kids = {x}; return a; };
    if (c == '[') return wrap(OPT);
    if (c == '{') return wrap(STAR);
    if (c == '<') return wrap(LIST);
    if (c == '(') { int x = alt(); ++p; return x; }
    if (c == '\'') { int a = mk(TOK); n[a].text = s.substr(1); return a; }
    if (c == '@') {
      static std::map<std::string, Slot> m{{"@name", NAME}, {"@letter", LETTER}, {"@int", INT}, {"@str", STR}, {"@expr", EXPR}, {"@defop", DEFOP}, {"@pname", PNAME}, {"@real", REAL}, {"@boz", BOZ}, {"@soup", SOUP}, {"@tname", TNAME}};
      int a = mk(TERM); n[a].text = s; n[a].slot = m.at(s); return a;
    }
    if (isupper((unsigned char)c)) { int a = mk(TOK); for (char &x : s) x = (char)tolower(x); n[a].text = s; return a; }
    int a = mk(REF); n[a].text = s; return a;
  }
  void gen(int i, int b, Toks &out, std::function<void(int)> const &k) const {
    N const &x = n[i]; if (x.len) return;
    switch (x.t) {
    case SEQ: { std::function<void(size_t, int)> go = [&](size_t j, int bb) { if (j == x.kids.size()) k(bb); else gen(x.kids[j], bb, out, [&go, j](int r) { go(j + 1, r); }); }; go(0, b); break; }
    case ALT: for (size_t j = 0; j < x.kids.size(); ++j) if (!j || b) gen(x.kids[j], b - (j ? 1 : 0), out, k); break;
    case OPT: k(b); if (b) gen(x.kids[0], b - 1, out, k); break;
    case STAR: { std::function<void(int)> go = [&](int bb) { k(bb); if (bb) gen(x.kids[0], bb - 1, out, go); }; go(b); break; }
    case LIST: { std::function<void(int)> go = [&](int bb) { k(bb); if (bb) { out.push_back({",", NONE}); gen(x.kids[0], bb - 1, out, go); out.pop_back(); } }; gen(x.kids[0], b, out, go); break; }
    case TOK: out.push_back({x.text, NONE}); k(b); out.pop_back(); break;
    case REF: gen(x.kids[0], b, out, k); break;
    case TERM: {
      static char const *const names[] = {"a", "b", "cc", "d_1", "e2", "f", "g", "h"};
      std::string t; size_t q = out.size() % 8;
      switch (x.slot) { case NAME: case PNAME: case TNAME: t = names[q]; break; case EXPR: t = "x"; break; case LETTER: t = "l"; break; case INT: t = "10"; break; case STR: t = "'s'"; break; case DEFOP: t = ".op."; break; case REAL: t = "1.5"; break; case BOZ: t = "z'ff'"; break; default: return; }
      out.push_back({t, x.slot}); k(b); out.pop_back(); break; }
    }
  }
};
//! which token positions a rule can end at, for every start
class Recogniser {
public:
  Recogniser(Grammar const &g, bool lenient) : g{g}, lenient{lenient}, memo(g.n.size() * 64), done(g.n.size() * 64, 0) {}
  void set(Sent const &s) { t = &s; ++stamp; }
  bool whole(std::string const &r) { return ends(g.rule.at(r), 0) >> t->size() & 1; }
  bool whole(int id) { return ends(id, 0) >> t->size() & 1; }
  bool span(int id, size_t b, size_t e) { return ends(id, b) >> e & 1; }
private:
  Grammar const &g; bool lenient; Sent const *t = nullptr; unsigned stamp = 0;
  std::vector<uint64_t> memo; std::vector<unsigned> done;
  std::string const *at(size_t p) const { return p < t->size() ? &(*t)[p] : nullptr; }
  uint64_t soup(size_t p, bool is_expr) const {
    uint64_t r = 0; std::string open;
    for (size_t q = p; q < t->size(); ++q) {
      std::string const &s = (*t)[q];
      if (is_expr && q == p && (s == "*" || s == "/")) break;
      if (open.empty() && is_expr && (s == "," || s == ":" || s == "=")) break;
      if (s == "(" || s == "[") open += s[0];
      else if (s == ")" || s == "]") { if (open.empty() || (open.back() == '(') != (s == ")")) break; open.pop_back(); }
      if (open.empty()) r |= 1ull << (q + 1);
    }
    return r;
  }
  uint64_t from(int i, uint64_t m) { uint64_t r = 0; for (size_t p = 0; m; ++p, m >>= 1) if (m & 1) r |= ends(i, p); return r; }
  uint64_t tokens(char const *lit, uint64_t m) const { uint64_t r = 0; for (size_t p = 0; m; ++p, m >>= 1) if (m & 1) if (auto s = at(p)) if (*s == lit) r |= 1ull << (p + 1); return r; }
  uint64_t ends(int i, size_t p) {
    if (p > t->size()) return 0;
    size_t ix = (size_t)i * 64 + p; if (done[ix] == stamp) return memo[ix];
    done[ix] = stamp; memo[ix] = 0; uint64_t r = 0; auto const &x = g.n[i];
    if (!x.len || lenient) switch (x.t) {
    case Grammar::SEQ: r = 1ull << p; for (int k : x.kids) r = r ? from(k, r) : 0; break;
    case Grammar::ALT: for (int k : x.kids) r |= ends(k, p); break;
    case Grammar::OPT: r = (1ull << p) | ends(x.kids[0], p); break;
    case Grammar::STAR: { r = 1ull << p; uint64_t f = r; while (f) { uint64_t nx = from(x.kids[0], f) & ~r; r |= nx; f = nx; } break; }
    case Grammar::LIST: { r = ends(x.kids[0], p); uint64_t f = r; while (f) { uint64_t nx = from(x.kids[0], tokens(",", f)) & ~r; r |= nx; f = nx; } break; }
    case Grammar::TOK: if (auto s = at(p)) if (*s == x.text) r = 1ull << (p + 1); break;
    case Grammar::REF: r = ends(x.kids[0], p); break;
    case Grammar::TERM:
      if (x.slot == EXPR) { r = lenient ? soup(p, true) : ends(g.xexpr, p); break; }
      if (x.slot == SOUP) { r = soup(p, false); break; }
      if (auto s = at(p)) { bool ok = false; switch (x.slot) {
        case NAME: ok = isname(*s) && !isboz(*s); break; case TNAME: ok = isname(*s) && !isboz(*s) && (lenient || !intrinsic_type(*s)); break; case PNAME: ok = isname(*s) && s->size() == 1; break; case LETTER: ok = s->size() == 1 && isalpha((unsigned char)(*s)[0]); break;
        case INT: ok = isint(*s); break; case STR: ok = isstr(*s); break; case DEFOP: ok = isdefop(*s); break; case REAL: ok = isreal(*s) || (isint(*s)); break; case BOZ: ok = isboz(*s); break; default: break; }
        if (ok) r = 1ull << (p + 1); }
      break;
    }
    memo[ix] = r; return r;
  }
};
inline Sent plain(Toks const &t) { Sent s; for (auto const &x : t) s.push_back(x.text); return s; }
} // namespace refs
#endif
