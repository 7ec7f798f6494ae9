// { class.accessor=value, the ways it may be written (as in the SQL text; empty if it is implied) }
{ "common::sort_element.direction=asc", { "ASC" } },
{ "common::sort_element.direction=desc", { "DESC" } },
{ "common::sort_element.null_location=first", { "NULLS FIRST" } },
{ "common::sort_element.null_location=last", { "NULLS LAST" } },
{ "literal::datetime.value_kind=date", { "DATE" } },
{ "literal::datetime.value_kind=time", { "TIME", "TIME WITHOUT TIME ZONE" } },
{ "literal::datetime.value_kind=time_with_time_zone", { "TIME WITH TIME ZONE" } },
{ "literal::datetime.value_kind=timestamp", { "TIMESTAMP", "TIMESTAMP WITHOUT TIME ZONE" } },
{ "literal::datetime.value_kind=timestamp_with_time_zone", { "TIMESTAMP WITH TIME ZONE" } },
{ "literal::interval.sign=minus", { "-" } },
{ "literal::interval.sign=plus", { "+" } },
{ "literal::numeric.sign=minus", { "-" } },
{ "literal::numeric.sign=plus", { "+" } },
{ "literal::string.value_kind=character_string", { "" } },
{ "query::binary_expression.operator_kind=except", { "EXCEPT" } },
{ "query::binary_expression.operator_kind=intersect", { "INTERSECT" } },
{ "query::binary_expression.operator_kind=outer_union", { "OUTER UNION" } },
{ "query::binary_expression.operator_kind=union", { "UNION" } },
{ "query::binary_expression.quantifier=all", { "ALL" } },
{ "query::binary_expression.quantifier=distinct", { "DISTINCT" } },
{ "query::query.quantifier=all", { "ALL" } },
{ "query::query.quantifier=distinct", { "DISTINCT" } },
{ "query::with_expression.is_recursive=false", { "" } },
{ "query::with_expression.is_recursive=true", { "RECURSIVE" } },
{ "scalar::between_predicate.is_not=false", { "" } },
{ "scalar::between_predicate.is_not=true", { "NOT" } },
{ "scalar::between_predicate.operator_kind=asymmetric", { "ASYMMETRIC" } },
{ "scalar::between_predicate.operator_kind=symmetric", { "SYMMETRIC" } },
{ "scalar::binary_expression.operator_kind=and", { "AND" } },
{ "scalar::binary_expression.operator_kind=asterisk", { "*" } },
{ "scalar::binary_expression.operator_kind=at_time_zone", { "AT TIME ZONE" } },
{ "scalar::binary_expression.operator_kind=concatenation", { "||" } },
{ "scalar::binary_expression.operator_kind=contains", { "<@" } },
{ "scalar::binary_expression.operator_kind=element_reference", { "[" } },
{ "scalar::binary_expression.operator_kind=have_elements_in_common", { "&&" } },
{ "scalar::binary_expression.operator_kind=is", { "IS" } },
{ "scalar::binary_expression.operator_kind=is_contained_by", { "@>" } },
{ "scalar::binary_expression.operator_kind=is_not", { "IS NOT" } },
{ "scalar::binary_expression.operator_kind=minus", { "-" } },
{ "scalar::binary_expression.operator_kind=or", { "OR" } },
{ "scalar::binary_expression.operator_kind=overlaps", { "OVERLAPS" } },
{ "scalar::binary_expression.operator_kind=percent", { "%" } },
{ "scalar::binary_expression.operator_kind=plus", { "+" } },
{ "scalar::binary_expression.operator_kind=solidus", { "/" } },
{ "scalar::builtin_function_invocation.function=abs", { "ABS" } },
{ "scalar::builtin_function_invocation.function=cardinality", { "CARDINALITY" } },
{ "scalar::builtin_function_invocation.function=ceil", { "CEIL" } },
{ "scalar::builtin_function_invocation.function=character_length", { "CHARACTER_LENGTH", "CHAR_LENGTH" } },
{ "scalar::builtin_function_invocation.function=coalesce", { "COALESCE" } },
{ "scalar::builtin_function_invocation.function=convert", { "CONVERT" } },
{ "scalar::builtin_function_invocation.function=current_date", { "CURRENT_DATE" } },
{ "scalar::builtin_function_invocation.function=current_time", { "CURRENT_TIME" } },
{ "scalar::builtin_function_invocation.function=current_timestamp", { "CURRENT_TIMESTAMP" } },
{ "scalar::builtin_function_invocation.function=floor", { "FLOOR" } },
{ "scalar::builtin_function_invocation.function=length", { "LENGTH" } },
{ "scalar::builtin_function_invocation.function=localtime", { "LOCALTIME" } },
{ "scalar::builtin_function_invocation.function=localtimestamp", { "LOCALTIMESTAMP" } },
{ "scalar::builtin_function_invocation.function=lower", { "LOWER" } },
{ "scalar::builtin_function_invocation.function=mod", { "MOD" } },
{ "scalar::builtin_function_invocation.function=next_value_for", { "NEXT VALUE FOR" } },
{ "scalar::builtin_function_invocation.function=nullif", { "NULLIF" } },
{ "scalar::builtin_function_invocation.function=octet_length", { "OCTET_LENGTH" } },
{ "scalar::builtin_function_invocation.function=overlay", { "OVERLAY" } },
{ "scalar::builtin_function_invocation.function=position", { "POSITION" } },
{ "scalar::builtin_function_invocation.function=substring", { "SUBSTRING" } },
{ "scalar::builtin_function_invocation.function=translate", { "TRANSLATE" } },
{ "scalar::builtin_function_invocation.function=upper", { "UPPER" } },
{ "scalar::builtin_set_function_invocation.function=avg", { "AVG" } },
{ "scalar::builtin_set_function_invocation.function=bit_and", { "BIT_AND" } },
{ "scalar::builtin_set_function_invocation.function=bit_or", { "BIT_OR" } },
{ "scalar::builtin_set_function_invocation.function=bool_and", { "BOOL_AND" } },
{ "scalar::builtin_set_function_invocation.function=bool_or", { "BOOL_OR" } },
{ "scalar::builtin_set_function_invocation.function=count", { "COUNT" } },
{ "scalar::builtin_set_function_invocation.function=every", { "EVERY" } },
{ "scalar::builtin_set_function_invocation.function=max", { "MAX" } },
{ "scalar::builtin_set_function_invocation.function=min", { "MIN" } },
{ "scalar::builtin_set_function_invocation.function=sum", { "SUM" } },
{ "scalar::builtin_set_function_invocation.quantifier=all", { "ALL" } },
{ "scalar::builtin_set_function_invocation.quantifier=distinct", { "DISTINCT" } },
{ "scalar::cast_expression.operator_kind=cast", { "CAST", "::" } },
{ "scalar::cast_expression.operator_kind=generalize", { "AS" } },
{ "scalar::cast_expression.operator_kind=treat", { "TREAT" } },
{ "scalar::comparison_predicate.operator_kind=equals", { "=" } },
{ "scalar::comparison_predicate.operator_kind=greater_than", { ">" } },
{ "scalar::comparison_predicate.operator_kind=greater_than_or_equals", { ">=" } },
{ "scalar::comparison_predicate.operator_kind=less_than", { "<" } },
{ "scalar::comparison_predicate.operator_kind=less_than_or_equals", { "<=" } },
{ "scalar::comparison_predicate.operator_kind=not_equals", { "<>" } },
{ "scalar::comparison_predicate.operator_kind=not_equals_alternative", { "!=" } },
{ "scalar::extract_expression.field=date", { "DATE" } },
{ "scalar::extract_expression.field=day", { "DAY" } },
{ "scalar::extract_expression.field=hour", { "HOUR" } },
{ "scalar::extract_expression.field=minute", { "MINUTE" } },
{ "scalar::extract_expression.field=month", { "MONTH" } },
{ "scalar::extract_expression.field=second", { "SECOND" } },
{ "scalar::extract_expression.field=timezone_hour", { "TIMEZONE_HOUR" } },
{ "scalar::extract_expression.field=timezone_minute", { "TIMEZONE_MINUTE" } },
{ "scalar::extract_expression.field=year", { "YEAR" } },
{ "scalar::extract_expression.field=year to day", { "YEAR TO DAY" } },
{ "scalar::extract_expression.field=year to hour", { "YEAR TO HOUR" } },
{ "scalar::extract_expression.field=year to minute", { "YEAR TO MINUTE" } },
{ "scalar::extract_expression.field=year to month", { "YEAR TO MONTH" } },
{ "scalar::extract_expression.field=year to second", { "YEAR TO SECOND" } },
{ "scalar::field_reference.operator_kind=arrow", { "->" } },
{ "scalar::field_reference.operator_kind=period", { "." } },
{ "scalar::in_predicate.is_not=false", { "" } },
{ "scalar::in_predicate.is_not=true", { "NOT" } },
{ "scalar::method_invocation.operator_kind=arrow", { "->" } },
{ "scalar::method_invocation.operator_kind=period", { "." } },
{ "scalar::pattern_match_predicate.is_not=false", { "" } },
{ "scalar::pattern_match_predicate.is_not=true", { "NOT" } },
{ "scalar::pattern_match_predicate.operator_kind=like", { "LIKE" } },
{ "scalar::pattern_match_predicate.operator_kind=similar_to", { "SIMILAR TO" } },
{ "scalar::quantified_comparison_predicate.operator_kind=equals", { "=" } },
{ "scalar::quantified_comparison_predicate.operator_kind=greater_than", { ">" } },
{ "scalar::quantified_comparison_predicate.operator_kind=greater_than_or_equals", { ">=" } },
{ "scalar::quantified_comparison_predicate.operator_kind=less_than", { "<" } },
{ "scalar::quantified_comparison_predicate.operator_kind=less_than_or_equals", { "<=" } },
{ "scalar::quantified_comparison_predicate.operator_kind=not_equals", { "<>" } },
{ "scalar::quantified_comparison_predicate.operator_kind=not_equals_alternative", { "!=" } },
{ "scalar::quantified_comparison_predicate.quantifier=all", { "ALL" } },
{ "scalar::quantified_comparison_predicate.quantifier=any", { "ANY" } },
{ "scalar::quantified_comparison_predicate.quantifier=some", { "SOME" } },
{ "scalar::table_predicate.operator_kind=exists", { "EXISTS" } },
{ "scalar::table_predicate.operator_kind=unique", { "UNIQUE" } },
{ "scalar::trim_expression.specification=both", { "BOTH" } },
{ "scalar::trim_expression.specification=leading", { "LEADING" } },
{ "scalar::trim_expression.specification=trailing", { "TRAILING" } },
{ "scalar::unary_expression.operator_kind=at_local", { "AT LOCAL" } },
{ "scalar::unary_expression.operator_kind=minus", { "-" } },
{ "scalar::unary_expression.operator_kind=not", { "NOT" } },
{ "scalar::unary_expression.operator_kind=plus", { "+" } },
{ "scalar::unary_expression.operator_kind=reference_resolution", { "DEREF" } },
{ "scalar::value_constructor.operator_kind=array", { "ARRAY" } },
{ "scalar::value_constructor.operator_kind=row", { "", "ROW" } },
{ "statement::alter_index_statement.if_exists=false", { "" } },
{ "statement::alter_index_statement.if_exists=true", { "IF EXISTS" } },
{ "statement::alter_table_statement.if_exists=false", { "" } },
{ "statement::alter_table_statement.if_exists=true", { "IF EXISTS" } },
{ "statement::drop_statement.options=cascade", { "CASCADE" } },
{ "statement::drop_statement.options=if_exists", { "IF EXISTS" } },
{ "statement::drop_statement.options=restrict", { "RESTRICT" } },
{ "statement::drop_statement.statement_kind=drop_index_statement", { "INDEX" } },
{ "statement::drop_statement.statement_kind=drop_schema_statement", { "SCHEMA" } },
{ "statement::drop_statement.statement_kind=drop_sequence_statement", { "SEQUENCE" } },
{ "statement::drop_statement.statement_kind=drop_table_statement", { "TABLE" } },
{ "statement::drop_statement.statement_kind=drop_view_statement", { "VIEW" } },
{ "statement::expression_constraint.constraint_kind=check", { "CHECK" } },
{ "statement::expression_constraint.constraint_kind=default_clause", { "DEFAULT" } },
{ "statement::expression_constraint.constraint_kind=generation_clause", { "GENERATED" } },
{ "statement::identity_constraint.cycle=false", { "CYCLE" } },
{ "statement::identity_constraint.cycle=true", { "CYCLE" } },
{ "statement::identity_constraint.generation=always", { "ALWAYS" } },
{ "statement::identity_constraint.generation=by_default", { "BY DEFAULT" } },
{ "statement::index_definition.options=if_not_exists", { "IF NOT EXISTS" } },
{ "statement::index_definition.options=unique", { "UNIQUE" } },
{ "statement::insert_statement.options=or_ignore", { "INSERT IF NOT EXISTS", "INSERT OR IGNORE" } },
{ "statement::insert_statement.options=or_replace", { "INSERT OR REPLACE", "UPDATE OR INSERT" } },
{ "statement::key_constraint.constraint_kind=primary_key", { "PRIMARY KEY" } },
{ "statement::key_constraint.constraint_kind=unique", { "UNIQUE" } },
{ "statement::privilege_action.action_kind=all_privileges", { "ALL PRIVILEGES" } },
{ "statement::privilege_action.action_kind=delete", { "DELETE" } },
{ "statement::privilege_action.action_kind=insert", { "INSERT" } },
{ "statement::privilege_action.action_kind=select", { "SELECT" } },
{ "statement::privilege_action.action_kind=update", { "UPDATE" } },
{ "statement::privilege_object.object_kind=table", { "TABLE" } },
{ "statement::referential_constraint.on_delete=cascade", { "CASCADE" } },
{ "statement::referential_constraint.on_delete=no_action", { "NO ACTION" } },
{ "statement::referential_constraint.on_delete=restrict", { "RESTRICT" } },
{ "statement::referential_constraint.on_delete=set_default", { "SET DEFAULT" } },
{ "statement::referential_constraint.on_delete=set_null", { "SET NULL" } },
{ "statement::referential_constraint.on_update=cascade", { "CASCADE" } },
{ "statement::referential_constraint.on_update=no_action", { "NO ACTION" } },
{ "statement::referential_constraint.on_update=restrict", { "RESTRICT" } },
{ "statement::referential_constraint.on_update=set_default", { "SET DEFAULT" } },
{ "statement::referential_constraint.on_update=set_null", { "SET NULL" } },
{ "statement::rename_column_action.if_exists=false", { "" } },
{ "statement::rename_column_action.if_exists=true", { "IF EXISTS" } },
{ "statement::schema_definition.options=if_not_exists", { "IF NOT EXISTS" } },
{ "statement::sequence_definition.options=cycle", { "CYCLE" } },
{ "statement::sequence_definition.options=if_not_exists", { "IF NOT EXISTS" } },
{ "statement::sequence_definition.options=no_cycle", { "CYCLE" } },
{ "statement::sequence_definition.options=temporary", { "TEMPORARY" } },
{ "statement::simple_constraint.constraint_kind=not_null", { "NOT NULL" } },
{ "statement::simple_constraint.constraint_kind=null", { "NULL" } },
{ "statement::table_definition.options=if_not_exists", { "IF NOT EXISTS" } },
{ "statement::table_definition.options=temporary", { "TEMPORARY" } },
{ "statement::truncate_table_statement.identity_column_option=continue_identity", { "CONTINUE IDENTITY" } },
{ "statement::truncate_table_statement.identity_column_option=restart_identity", { "RESTART IDENTITY" } },
{ "statement::view_definition.options=if_not_exists", { "IF NOT EXISTS" } },
{ "statement::view_definition.options=or_replace", { "REPLACE" } },
{ "statement::view_definition.options=recursive", { "RECURSIVE" } },
{ "statement::view_definition.options=temporary", { "TEMPORARY" } },
{ "table::apply.operator_kind=cross", { "CROSS" } },
{ "table::join.operator_kind=cross", { "CROSS JOIN" } },
{ "table::join.operator_kind=full_outer", { "FULL JOIN", "FULL OUTER JOIN" } },
{ "table::join.operator_kind=inner", { "INNER JOIN", "JOIN" } },
{ "table::join.operator_kind=left_outer", { "LEFT JOIN", "LEFT OUTER JOIN" } },
{ "table::join.operator_kind=natural_full_outer", { "NATURAL FULL JOIN", "NATURAL FULL OUTER JOIN" } },
{ "table::join.operator_kind=natural_inner", { "NATURAL INNER JOIN", "NATURAL JOIN" } },
{ "table::join.operator_kind=natural_left_outer", { "NATURAL LEFT JOIN", "NATURAL LEFT OUTER JOIN" } },
{ "table::join.operator_kind=natural_right_outer", { "NATURAL RIGHT JOIN", "NATURAL RIGHT OUTER JOIN" } },
{ "table::join.operator_kind=right_outer", { "RIGHT JOIN", "RIGHT OUTER JOIN" } },
{ "table::join.operator_kind=union", { "UNION JOIN" } },
{ "table::subquery.is_lateral=false", { "" } },
{ "table::subquery.is_lateral=true", { "LATERAL" } },
{ "table::table_reference.is_only=false", { "" } },
{ "table::table_reference.is_only=true", { "ONLY" } },
{ "table::unnest.with_ordinality=false", { "" } },
{ "table::unnest.with_ordinality=true", { "WITH ORDINALITY" } },
{ "type::binary_numeric.type_kind=binary_float", { "FLOAT" } },
{ "type::binary_numeric.type_kind=binary_integer", { "INT", "INTEGER" } },
{ "type::character_string.type_kind=character", { "CHAR", "CHARACTER" } },
{ "type::character_string.type_kind=character_varying", { "CHAR VARYING", "CHARACTER VARYING", "VARCHAR" } },
{ "type::datetime.has_time_zone=false", { "WITHOUT TIME ZONE" } },
{ "type::datetime.has_time_zone=true", { "WITH TIME ZONE" } },
{ "type::datetime.type_kind=time", { "TIME" } },
{ "type::datetime.type_kind=timestamp", { "TIMESTAMP" } },
{ "type::decimal.type_kind=decimal", { "DEC", "DECIMAL" } },
{ "type::decimal.type_kind=numeric", { "NUMERIC" } },
{ "type::octet_string.type_kind=octet", { "BINARY" } },
{ "type::octet_string.type_kind=octet_varying", { "BINARY VARYING", "VARBINARY" } },
