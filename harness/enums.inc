// Names of the enumerators of the public enums (they are a part of the interface).
// name, enumerators, whether the enum has a set type
ENUM(mizugaki::analyzer::sql_analyzer_code, void,
  E(unknown)
  E(unsupported_feature)
  E(malformed_syntax)
  E(missing_context_of_default_value)
  E(missing_context_of_null)
  E(unsupported_decimal_value)
  E(malformed_approximate_number)
  E(unsupported_approximate_number)
  E(malformed_quoted_string)
  E(unsupported_string_value)
  E(flexible_length_is_not_supported)
  E(invalid_type_length)
  E(invalid_numeric_scale)
  E(catalog_not_found)
  E(schema_not_found)
  E(table_not_found)
  E(index_not_found)
  E(view_not_found)
  E(sequence_not_found)
  E(column_not_found)
  E(variable_not_found)
  E(function_not_found)
  E(symbol_not_found)
  E(schema_already_exists)
  E(table_already_exists)
  E(index_already_exists)
  E(view_already_exists)
  E(sequence_already_exists)
  E(column_already_exists)
  E(variable_already_exists)
  E(function_already_exists)
  E(symbol_already_exists)
  E(primary_index_not_found)
  E(primary_index_already_exists)
  E(invalid_constraint)
  E(invalid_sequence_value)
  E(relation_ambiguous)
  E(variable_ambiguous)
  E(column_ambiguous)
  E(function_ambiguous)
  E(invalid_unsigned_integer)
  E(inconsistent_table)
  E(inconsistent_columns)
  E(invalid_aggregation_column)
  E(ambiguous_type)
  E(inconsistent_type)
  E(unresolved_variable)
  E(inconsistent_elements)
  E(inconsistent_function_type)
)
ENUM(mizugaki::analyzer::sql_analyzer_result_kind, void,
  E(diagnostics)
  E(execution_plan)
  E(statement)
)
ENUM(mizugaki::ast::common::null_ordering_specification, void,
  E(first)
  E(last)
)
ENUM(mizugaki::ast::common::ordering_specification, ::mizugaki::ast::common::ordering_specification_set,
  E(asc)
  E(desc)
)
ENUM(mizugaki::ast::literal::boolean_kind, ::mizugaki::ast::literal::boolean_kind_set,
  E(true_)
  E(false_)
  E(unknown)
)
ENUM(mizugaki::ast::literal::kind, ::mizugaki::ast::literal::kind_set,
  E(boolean)
  E(exact_numeric)
  E(approximate_numeric)
  E(character_string)
  E(bit_string)
  E(hex_string)
  E(date)
  E(time)
  E(time_with_time_zone)
  E(timestamp)
  E(timestamp_with_time_zone)
  E(interval)
  E(null)
  E(empty)
  E(default_)
)
ENUM(mizugaki::ast::literal::sign, void,
  E(plus)
  E(minus)
)
ENUM(mizugaki::ast::name::identifier_kind, void,
  E(regular)
  E(delimited)
)
ENUM(mizugaki::ast::name::kind, void,
  E(simple)
  E(qualified)
)
ENUM(mizugaki::ast::query::binary_operator, ::mizugaki::ast::query::binary_operator_set,
  E(union_)
  E(outer_union)
  E(except)
  E(intersect)
)
ENUM(mizugaki::ast::query::grouping_element_kind, ::mizugaki::ast::query::grouping_element_kind_set,
  E(column)
)
ENUM(mizugaki::ast::query::kind, ::mizugaki::ast::query::kind_set,
  E(query)
  E(table_reference)
  E(table_value_constructor)
  E(binary_expression)
  E(with_expression)
)
ENUM(mizugaki::ast::query::select_element_kind, ::mizugaki::ast::query::select_element_kind_set,
  E(column)
  E(asterisk)
)
ENUM(mizugaki::ast::scalar::between_operator, ::mizugaki::ast::scalar::between_operator_set,
  E(asymmetric)
  E(symmetric)
)
ENUM(mizugaki::ast::scalar::binary_operator, ::mizugaki::ast::scalar::binary_operator_set,
  E(plus)
  E(minus)
  E(asterisk)
  E(solidus)
  E(percent)
  E(concatenation)
  E(element_reference)
  E(at_time_zone)
  E(and_)
  E(or_)
  E(is)
  E(is_not)
  E(overlaps)
  E(is_distinct_from)
  E(contains)
  E(is_contained_by)
  E(have_elements_in_common)
)
ENUM(mizugaki::ast::scalar::builtin_function_kind, ::mizugaki::ast::scalar::builtin_function_kind_set,
  E(position)
  E(length)
  E(character_length)
  E(octet_length)
  E(bit_length)
  E(cardinality)
  E(abs)
  E(ceil)
  E(floor)
  E(mod)
  E(substring)
  E(upper)
  E(lower)
  E(convert)
  E(translate)
  E(overlay)
  E(current_date)
  E(current_time)
  E(localtime)
  E(current_timestamp)
  E(localtimestamp)
  E(nullif)
  E(coalesce)
  E(next_value_for)
  E(user)
  E(current_user)
  E(current_role)
  E(system_user)
  E(current_path)
)
ENUM(mizugaki::ast::scalar::builtin_set_function_kind, ::mizugaki::ast::scalar::builtin_set_function_kind_set,
  E(avg)
  E(max)
  E(min)
  E(sum)
  E(every)
  E(any)
  E(some)
  E(count)
  E(bit_and)
  E(bit_or)
  E(bool_and)
  E(bool_or)
)
ENUM(mizugaki::ast::scalar::cast_operator, ::mizugaki::ast::scalar::cast_operator_set,
  E(cast)
  E(treat)
  E(generalize)
)
ENUM(mizugaki::ast::scalar::comparison_operator, ::mizugaki::ast::scalar::comparison_operator_set,
  E(equals)
  E(not_equals)
  E(not_equals_alternative)
  E(less_than)
  E(greater_than)
  E(less_than_or_equals)
  E(greater_than_or_equals)
)
ENUM(mizugaki::ast::scalar::expression_context_kind, void,
  E(scalar)
  E(row)
)
ENUM(mizugaki::ast::scalar::extract_field_kind, ::mizugaki::ast::scalar::extract_field_kind_set,
  E(year)
  E(month)
  E(day)
  E(hour)
  E(minute)
  E(second)
  E(timezone_hour)
  E(timezone_minute)
  E(date)
  E(year_to_month)
  E(year_to_day)
  E(year_to_hour)
  E(year_to_minute)
  E(year_to_second)
)
ENUM(mizugaki::ast::scalar::kind, ::mizugaki::ast::scalar::kind_set,
  E(literal_expression)
  E(variable_reference)
  E(host_parameter_reference)
  E(field_reference)
  E(case_expression)
  E(cast_expression)
  E(unary_expression)
  E(binary_expression)
  E(extract_expression)
  E(trim_expression)
  E(value_constructor)
  E(subquery)
  E(comparison_predicate)
  E(quantified_comparison_predicate)
  E(between_predicate)
  E(in_predicate)
  E(pattern_match_predicate)
  E(table_predicate)
  E(function_invocation)
  E(builtin_function_invocation)
  E(builtin_set_function_invocation)
  E(new_invocation)
  E(method_invocation)
  E(static_method_invocation)
  E(current_of_cursor)
  E(placeholder_reference)
)
ENUM(mizugaki::ast::scalar::pattern_match_operator, ::mizugaki::ast::scalar::pattern_match_operator_set,
  E(like)
  E(similar_to)
)
ENUM(mizugaki::ast::scalar::quantifier, ::mizugaki::ast::scalar::quantifier_set,
  E(all)
  E(some)
  E(any)
)
ENUM(mizugaki::ast::scalar::reference_operator, ::mizugaki::ast::scalar::reference_operator_set,
  E(period)
  E(arrow)
)
ENUM(mizugaki::ast::scalar::set_quantifier, ::mizugaki::ast::scalar::set_quantifier_set,
  E(distinct)
  E(all)
)
ENUM(mizugaki::ast::scalar::table_operator, ::mizugaki::ast::scalar::table_operator_set,
  E(exists)
  E(unique)
)
ENUM(mizugaki::ast::scalar::trim_specification, ::mizugaki::ast::scalar::trim_specification_set,
  E(leading)
  E(trailing)
  E(both)
)
ENUM(mizugaki::ast::scalar::unary_operator, ::mizugaki::ast::scalar::unary_operator_set,
  E(plus)
  E(minus)
  E(not_)
  E(at_local)
  E(reference_resolution)
)
ENUM(mizugaki::ast::scalar::value_constructor_kind, ::mizugaki::ast::scalar::value_constructor_kind_set,
  E(array)
  E(row)
)
ENUM(mizugaki::ast::statement::alter_index_action_kind, void,
  E(rename_index)
)
ENUM(mizugaki::ast::statement::alter_table_action_kind, void,
  E(rename_table)
  E(rename_column)
)
ENUM(mizugaki::ast::statement::constraint_kind, ::mizugaki::ast::statement::constraint_kind_set,
  E(check)
  E(unique)
  E(primary_key)
  E(referential)
  E(null)
  E(not_null)
  E(default_clause)
  E(generation_clause)
  E(identity_column)
)
ENUM(mizugaki::ast::statement::drop_statement_option, void,
  E(if_exists)
  E(restrict)
  E(cascade)
)
ENUM(mizugaki::ast::statement::identity_column_restart_option, void,
  E(continue_identity)
  E(restart_identity)
)
ENUM(mizugaki::ast::statement::identity_generation_type, void,
  E(always)
  E(by_default)
)
ENUM(mizugaki::ast::statement::index_definition_option, void,
  E(unique)
  E(if_not_exists)
)
ENUM(mizugaki::ast::statement::insert_statement_option, ::mizugaki::ast::statement::insert_statement_option_set,
  E(or_replace)
  E(or_ignore)
)
ENUM(mizugaki::ast::statement::kind, ::mizugaki::ast::statement::kind_set,
  E(select_statement)
  E(insert_statement)
  E(update_statement)
  E(delete_statement)
  E(table_definition)
  E(index_definition)
  E(view_definition)
  E(sequence_definition)
  E(schema_definition)
  E(alter_table_statement)
  E(alter_index_statement)
  E(drop_table_statement)
  E(drop_index_statement)
  E(drop_view_statement)
  E(drop_sequence_statement)
  E(drop_schema_statement)
  E(truncate_table_statement)
  E(grant_privilege_statement)
  E(revoke_privilege_statement)
  E(empty_statement)
)
ENUM(mizugaki::ast::statement::privilege_action_kind, void,
  E(all_privileges)
  E(select)
  E(insert)
  E(update)
  E(delete_)
)
ENUM(mizugaki::ast::statement::privilege_object_kind, void,
  E(table)
  E(schema)
)
ENUM(mizugaki::ast::statement::privilege_user_kind, void,
  E(identifier)
  E(all_users)
  E(current_user)
  E(public_)
)
ENUM(mizugaki::ast::statement::referential_action, void,
  E(cascade)
  E(set_null)
  E(set_default)
  E(restrict)
  E(no_action)
)
ENUM(mizugaki::ast::statement::schema_definition_option, void,
  E(if_not_exists)
)
ENUM(mizugaki::ast::statement::sequence_definition_option, void,
  E(cycle)
  E(no_cycle)
  E(temporary)
  E(if_not_exists)
)
ENUM(mizugaki::ast::statement::table_definition_option, void,
  E(temporary)
  E(if_not_exists)
)
ENUM(mizugaki::ast::statement::table_element_kind, ::mizugaki::ast::statement::table_element_kind_set,
  E(column_definition)
  E(constraint_definition)
)
ENUM(mizugaki::ast::statement::view_definition_option, void,
  E(or_replace)
  E(temporary)
  E(recursive)
  E(if_not_exists)
)
ENUM(mizugaki::ast::table::apply_type, void,
  E(cross)
  E(outer)
)
ENUM(mizugaki::ast::table::join_specification_kind, ::mizugaki::ast::table::join_specification_kind_set,
  E(condition)
  E(columns)
)
ENUM(mizugaki::ast::table::join_type, void,
  E(cross)
  E(inner)
  E(left_outer)
  E(right_outer)
  E(full_outer)
  E(natural_inner)
  E(natural_left_outer)
  E(natural_right_outer)
  E(natural_full_outer)
  E(union_)
)
ENUM(mizugaki::ast::table::kind, ::mizugaki::ast::table::kind_set,
  E(table_reference)
  E(unnest)
  E(join)
  E(subquery)
  E(apply)
)
ENUM(mizugaki::ast::type::kind, ::mizugaki::ast::type::kind_set,
  E(unknown)
  E(character)
  E(character_varying)
  E(character_large_object)
  E(bit)
  E(bit_varying)
  E(octet)
  E(octet_varying)
  E(binary_large_object)
  E(numeric)
  E(decimal)
  E(tiny_integer)
  E(small_integer)
  E(integer)
  E(big_integer)
  E(float_)
  E(real)
  E(double_precision)
  E(binary_integer)
  E(binary_float)
  E(boolean)
  E(date)
  E(time)
  E(timestamp)
  E(interval)
  E(row)
  E(user_defined)
  E(collection)
)
ENUM(mizugaki::parser::sql_parser_code, void,
  E(unknown)
  E(system)
  E(syntax_error)
  E(unsupported_feature)
  E(invalid_character)
  E(invalid_token)
  E(unexpected_token)
  E(unexpected_eof)
  E(exceed_number_of_elements)
)
ENUM(mizugaki::parser::sql_parser_element_kind, void,
  E(statement)
  E(schema_element_definition)
  E(table_element_definition)
  E(column_constraint_definition)
  E(column_reference)
  E(storage_parameter)
  E(set_clause)
  E(with_element)
  E(select_element)
  E(table_reference)
  E(grouping_element)
  E(ordering_element)
  E(field_definition)
  E(row_expression)
  E(scalar_expression)
  E(when_clause)
  E(string_literal_concatenation)
  E(privilege_action)
  E(privilege_object)
  E(privilege_user)
)
