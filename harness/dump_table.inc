// class table of the AST: (qualified class, fields...)  N = polymorphic node, E = plain element
E(common::sort_element, sort_element, key, collation, direction, null_location)
E(common::target_element, target_element, target, indicator)
N(literal::boolean, boolean, value)
N(literal::datetime, datetime, value_kind, value)
N(literal::interval, interval, sign, value)
N(literal::numeric, numeric, value_kind, sign, unsigned_value)
N(literal::special<ast::literal::kind::null>, special)
N(literal::special<ast::literal::kind::empty>, special)
N(literal::special<ast::literal::kind::default_>, special)
N(literal::string, string, value_kind, value, concatenations)
N(name::qualified, qualified, qualifier, last)
N(name::simple, simple, identifier, identifier_kind)
N(query::binary_expression, binary_expression, operator_kind, left, right, quantifier, corresponding)
E(query::corresponding_clause, corresponding_clause, column_names)
E(query::group_by_clause, group_by_clause, elements)
N(query::grouping_column, grouping_column, column, collation)
N(query::query, query, elements, from, where, group_by, having, order_by, limit, quantifier)
N(query::select_asterisk, select_asterisk, qualifier)
N(query::select_column, select_column, value, name)
N(query::table_reference, table_reference, name)
N(query::table_value_constructor, table_value_constructor, elements)
E(query::with_element, with_element, name, expression, column_names)
N(query::with_expression, with_expression, elements, expression, is_recursive)
N(scalar::between_predicate, between_predicate, target, left, right, operator_kind, is_not)
N(scalar::binary_expression, binary_expression, operator_kind, left, right)
N(scalar::builtin_function_invocation, builtin_function_invocation, function, arguments)
N(scalar::builtin_set_function_invocation, builtin_set_function_invocation, function, quantifier, arguments)
N(scalar::case_expression, case_expression, operand, when_clauses, default_result)
E(scalar::case_when_clause, case_when_clause, when, result)
N(scalar::cast_expression, cast_expression, operator_kind, operand, type)
N(scalar::comparison_predicate, comparison_predicate, operator_kind, left, right)
N(scalar::current_of_cursor, current_of_cursor, name)
N(scalar::extract_expression, extract_expression, field, subsecond_digits, operand)
N(scalar::field_reference, field_reference, operator_kind, value, name)
N(scalar::function_invocation, function_invocation, name, arguments)
N(scalar::host_parameter_reference, host_parameter_reference, name)
N(scalar::in_predicate, in_predicate, left, right, is_not)
N(scalar::literal_expression, literal_expression, value)
N(scalar::method_invocation, method_invocation, operator_kind, value, name, arguments)
N(scalar::new_invocation, new_invocation, type, arguments)
N(scalar::pattern_match_predicate, pattern_match_predicate, operator_kind, match_value, pattern, escape, is_not)
N(scalar::placeholder_reference, placeholder_reference, index)
N(scalar::quantified_comparison_predicate, quantified_comparison_predicate, operator_kind, quantifier, left, right)
N(scalar::static_method_invocation, static_method_invocation, type, name, arguments)
N(scalar::subquery, subquery, query, context_kind)
N(scalar::table_predicate, table_predicate, operator_kind, operand)
N(scalar::trim_expression, trim_expression, specification, character, source)
N(scalar::unary_expression, unary_expression, operator_kind, operand)
N(scalar::value_constructor, value_constructor, operator_kind, elements)
N(scalar::variable_reference, variable_reference, name)
N(statement::alter_index_statement, alter_index_statement, if_exists, name, action)
N(statement::alter_table_statement, alter_table_statement, if_exists, name, action)
E(statement::column_constraint_definition, column_constraint_definition, name, body)
N(statement::column_definition, column_definition, name, type, constraints, description)
N(statement::delete_statement, delete_statement, table_name, alias_name, where)
N(statement::drop_statement, drop_statement, statement_kind, name, options)
N(statement::empty_statement, empty_statement)
N(statement::expression_constraint, expression_constraint, constraint_kind, expression)
N(statement::grant_privilege_statement, grant_privilege_statement, actions, objects, users)
N(statement::identity_constraint, identity_constraint, generation, initial_value, increment_value, min_value, max_value, cycle)
N(statement::index_definition, index_definition, name, table_name, keys, values, predicate, options, parameters, description)
N(statement::insert_statement, insert_statement, table_name, columns, expression, options)
N(statement::key_constraint, key_constraint, constraint_kind, key, values, parameters)
E(statement::privilege_action, privilege_action, action_kind)
E(statement::privilege_object, privilege_object, object_kind, object_name)
E(statement::privilege_user, privilege_user, user_kind, authorization_identifier)
N(statement::referential_constraint, referential_constraint, columns, target, target_columns, on_update, on_delete)
N(statement::rename_column_action, rename_column_action, if_exists, column_name, replacement)
N(statement::rename_index_action, rename_index_action, replacement)
N(statement::rename_table_action, rename_table_action, replacement)
N(statement::revoke_privilege_statement, revoke_privilege_statement, actions, objects, users)
N(statement::schema_definition, schema_definition, name, user_name, elements, options, description)
N(statement::select_statement, select_statement, expression, targets)
N(statement::sequence_definition, sequence_definition, name, type, initial_value, increment_value, min_value, max_value, options, description, owner)
E(statement::set_element, set_element, target, value)
N(statement::simple_constraint, simple_constraint, constraint_kind)
E(statement::storage_parameter, storage_parameter, name, value)
N(statement::table_constraint_definition, table_constraint_definition, name, body)
N(statement::table_definition, table_definition, name, elements, options, parameters, description)
N(statement::truncate_table_statement, truncate_table_statement, name, identity_column_option)
N(statement::update_statement, update_statement, table_name, alias_name, elements, where)
N(statement::view_definition, view_definition, name, columns, query, options, parameters, description)
N(table::apply, apply, operand, operator_kind, name, arguments, correlation)
E(table::correlation_clause, correlation_clause, correlation_name, column_names)
N(table::join, join, operator_kind, left, right, specification)
N(table::join_columns, join_columns, columns)
N(table::join_condition, join_condition, expression)
N(table::subquery, subquery, expression, correlation, is_lateral)
N(table::table_reference, table_reference, name, correlation, is_only)
N(table::unnest, unnest, expression, with_ordinality, correlation)
N(type::binary_numeric, binary_numeric, type_kind, is_flexible_precision, precision)
N(type::bit_string, bit_string, type_kind, is_varying, is_flexible_length, length)
N(type::character_string, character_string, type_kind, is_varying, is_flexible_length, length)
N(type::collection, collection, element, is_flexible_length, length)
N(type::datetime, datetime, type_kind, has_time_zone)
N(type::decimal, decimal, type_kind, is_flexible_precision, is_flexible_scale, precision, scale)
E(type::field_definition, field_definition, name, type, collation)
N(type::interval, interval)
N(type::octet_string, octet_string, type_kind, is_varying, is_flexible_length, length)
N(type::row, row, elements)
N(type::simple, simple)
N(type::user_defined, user_defined, name)
