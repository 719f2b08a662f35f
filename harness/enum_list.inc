// every enumeration of the public headers
#ifdef ENUM_INCLUDES
#include <mizugaki/analyzer/sql_analyzer_code.h>
#include <mizugaki/analyzer/sql_analyzer_result_kind.h>
#include <mizugaki/ast/common/null_ordering_specification.h>
#include <mizugaki/ast/common/ordering_specification.h>
#include <mizugaki/ast/literal/boolean_kind.h>
#include <mizugaki/ast/literal/kind.h>
#include <mizugaki/ast/literal/sign.h>
#include <mizugaki/ast/name/identifier_kind.h>
#include <mizugaki/ast/name/kind.h>
#include <mizugaki/ast/query/binary_operator.h>
#include <mizugaki/ast/query/grouping_element_kind.h>
#include <mizugaki/ast/query/kind.h>
#include <mizugaki/ast/query/select_element_kind.h>
#include <mizugaki/ast/scalar/between_operator.h>
#include <mizugaki/ast/scalar/binary_operator.h>
#include <mizugaki/ast/scalar/builtin_function_kind.h>
#include <mizugaki/ast/scalar/builtin_set_function_kind.h>
#include <mizugaki/ast/scalar/cast_operator.h>
#include <mizugaki/ast/scalar/comparison_operator.h>
#include <mizugaki/ast/scalar/expression_context_kind.h>
#include <mizugaki/ast/scalar/extract_field_kind.h>
#include <mizugaki/ast/scalar/kind.h>
#include <mizugaki/ast/scalar/pattern_match_operator.h>
#include <mizugaki/ast/scalar/quantifier.h>
#include <mizugaki/ast/scalar/reference_operator.h>
#include <mizugaki/ast/scalar/set_quantifier.h>
#include <mizugaki/ast/scalar/table_operator.h>
#include <mizugaki/ast/scalar/trim_specification.h>
#include <mizugaki/ast/scalar/unary_operator.h>
#include <mizugaki/ast/scalar/value_constructor_kind.h>
#include <mizugaki/ast/statement/alter_index_action_kind.h>
#include <mizugaki/ast/statement/alter_table_action_kind.h>
#include <mizugaki/ast/statement/constraint_kind.h>
#include <mizugaki/ast/statement/drop_statement_option.h>
#include <mizugaki/ast/statement/identity_column_restart_option.h>
#include <mizugaki/ast/statement/identity_generation_type.h>
#include <mizugaki/ast/statement/index_definition_option.h>
#include <mizugaki/ast/statement/insert_statement_option.h>
#include <mizugaki/ast/statement/kind.h>
#include <mizugaki/ast/statement/privilege_action_kind.h>
#include <mizugaki/ast/statement/privilege_object_kind.h>
#include <mizugaki/ast/statement/privilege_user_kind.h>
#include <mizugaki/ast/statement/referential_action.h>
#include <mizugaki/ast/statement/schema_definition_option.h>
#include <mizugaki/ast/statement/sequence_definition_option.h>
#include <mizugaki/ast/statement/table_definition_option.h>
#include <mizugaki/ast/statement/table_element_kind.h>
#include <mizugaki/ast/statement/view_definition_option.h>
#include <mizugaki/ast/table/apply_type.h>
#include <mizugaki/ast/table/join_specification_kind.h>
#include <mizugaki/ast/table/join_type.h>
#include <mizugaki/ast/table/kind.h>
#include <mizugaki/ast/type/kind.h>
#include <mizugaki/parser/sql_parser_code.h>
#include <mizugaki/parser/sql_parser_element_kind.h>
#else
ENUM(mizugaki::analyzer::sql_analyzer_code)
ENUM(mizugaki::analyzer::sql_analyzer_result_kind)
ENUM(mizugaki::ast::common::null_ordering_specification)
ENUM(mizugaki::ast::common::ordering_specification)
ENUM(mizugaki::ast::literal::boolean_kind)
ENUM(mizugaki::ast::literal::kind)
ENUM(mizugaki::ast::literal::sign)
ENUM(mizugaki::ast::name::identifier_kind)
ENUM(mizugaki::ast::name::kind)
ENUM(mizugaki::ast::query::binary_operator)
ENUM(mizugaki::ast::query::grouping_element_kind)
ENUM(mizugaki::ast::query::kind)
ENUM(mizugaki::ast::query::select_element_kind)
ENUM(mizugaki::ast::scalar::between_operator)
ENUM(mizugaki::ast::scalar::binary_operator)
ENUM(mizugaki::ast::scalar::builtin_function_kind)
ENUM(mizugaki::ast::scalar::builtin_set_function_kind)
ENUM(mizugaki::ast::scalar::cast_operator)
ENUM(mizugaki::ast::scalar::comparison_operator)
ENUM(mizugaki::ast::scalar::expression_context_kind)
ENUM(mizugaki::ast::scalar::extract_field_kind)
ENUM(mizugaki::ast::scalar::kind)
ENUM(mizugaki::ast::scalar::pattern_match_operator)
ENUM(mizugaki::ast::scalar::quantifier)
ENUM(mizugaki::ast::scalar::reference_operator)
ENUM(mizugaki::ast::scalar::set_quantifier)
ENUM(mizugaki::ast::scalar::table_operator)
ENUM(mizugaki::ast::scalar::trim_specification)
ENUM(mizugaki::ast::scalar::unary_operator)
ENUM(mizugaki::ast::scalar::value_constructor_kind)
ENUM(mizugaki::ast::statement::alter_index_action_kind)
ENUM(mizugaki::ast::statement::alter_table_action_kind)
ENUM(mizugaki::ast::statement::constraint_kind)
ENUM(mizugaki::ast::statement::drop_statement_option)
ENUM(mizugaki::ast::statement::identity_column_restart_option)
ENUM(mizugaki::ast::statement::identity_generation_type)
ENUM(mizugaki::ast::statement::index_definition_option)
ENUM(mizugaki::ast::statement::insert_statement_option)
ENUM(mizugaki::ast::statement::kind)
ENUM(mizugaki::ast::statement::privilege_action_kind)
ENUM(mizugaki::ast::statement::privilege_object_kind)
ENUM(mizugaki::ast::statement::privilege_user_kind)
ENUM(mizugaki::ast::statement::referential_action)
ENUM(mizugaki::ast::statement::schema_definition_option)
ENUM(mizugaki::ast::statement::sequence_definition_option)
ENUM(mizugaki::ast::statement::table_definition_option)
ENUM(mizugaki::ast::statement::table_element_kind)
ENUM(mizugaki::ast::statement::view_definition_option)
ENUM(mizugaki::ast::table::apply_type)
ENUM(mizugaki::ast::table::join_specification_kind)
ENUM(mizugaki::ast::table::join_type)
ENUM(mizugaki::ast::table::kind)
ENUM(mizugaki::ast::type::kind)
ENUM(mizugaki::parser::sql_parser_code)
ENUM(mizugaki::parser::sql_parser_element_kind)
#endif
