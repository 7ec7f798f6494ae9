#include <mizugaki/analyzer/sql_analyzer_code.h>
#include <mizugaki/analyzer/sql_analyzer_result_kind.h>
#include <mizugaki/ast/common/null_ordering_specification.h>
#include <mizugaki/ast/common/ordering_specification.h>
#include <mizugaki/ast/literal/boolean_kind.h>
#include <mizugaki/ast/literal/kind.h>
#include <mizugaki/ast/literal/sign.h>
#include <mizugaki/ast/name/identifier_kind.h>
#include <mizugaki/ast/name/kind.h>
#include <mizugaki/ast/query/binary_operator.h>
#include <mizugaki/ast/query/grouping_element_kind.h>
#include <mizugaki/ast/query/kind.h>
#include <mizugaki/ast/query/select_element_kind.h>
#include <mizugaki/ast/scalar/between_operator.h>
#include <mizugaki/ast/scalar/binary_operator.h>
#include <mizugaki/ast/scalar/builtin_function_kind.h>
#include <mizugaki/ast/scalar/builtin_set_function_kind.h>
#include <mizugaki/ast/scalar/cast_operator.h>
#include <mizugaki/ast/scalar/comparison_operator.h>
#include <mizugaki/ast/scalar/expression_context_kind.h>
#include <mizugaki/ast/scalar/extract_field_kind.h>
#include <mizugaki/ast/scalar/kind.h>
#include <mizugaki/ast/scalar/pattern_match_operator.h>
#include <mizugaki/ast/scalar/quantifier.h>
#include <mizugaki/ast/scalar/reference_operator.h>
#include <mizugaki/ast/scalar/set_quantifier.h>
#include <mizugaki/ast/scalar/table_operator.h>
#include <mizugaki/ast/scalar/trim_specification.h>
#include <mizugaki/ast/scalar/unary_operator.h>
#include <mizugaki/ast/scalar/value_constructor_kind.h>
#include <mizugaki/ast/statement/alter_index_action_kind.h>
#include <mizugaki/ast/statement/alter_table_action_kind.h>
#include <mizugaki/ast/statement/constraint_kind.h>
#include <mizugaki/ast/statement/drop_statement_option.h>
#include <mizugaki/ast/statement/identity_column_restart_option.h>
#include <mizugaki/ast/statement/identity_generation_type.h>
#include <mizugaki/ast/statement/index_definition_option.h>
#include <mizugaki/ast/statement/insert_statement_option.h>
#include <mizugaki/ast/statement/kind.h>
#include <mizugaki/ast/statement/privilege_action_kind.h>
#include <mizugaki/ast/statement/privilege_object_kind.h>
#include <mizugaki/ast/statement/privilege_user_kind.h>
#include <mizugaki/ast/statement/referential_action.h>
#include <mizugaki/ast/statement/schema_definition_option.h>
#include <mizugaki/ast/statement/sequence_definition_option.h>
#include <mizugaki/ast/statement/table_definition_option.h>
#include <mizugaki/ast/statement/table_element_kind.h>
#include <mizugaki/ast/statement/view_definition_option.h>
#include <mizugaki/ast/table/apply_type.h>
#include <mizugaki/ast/table/join_specification_kind.h>
#include <mizugaki/ast/table/join_type.h>
#include <mizugaki/ast/table/kind.h>
#include <mizugaki/ast/type/kind.h>
#include <mizugaki/parser/sql_parser_code.h>
#include <mizugaki/parser/sql_parser_element_kind.h>
