"common::sort_element.collation",
"common::sort_element.direction",
"common::sort_element.null_location",
"literal::interval.sign",
"literal::numeric.sign",
"query::binary_expression.corresponding",
"query::binary_expression.quantifier",
"query::grouping_column.collation",
"query::query.group_by",
"query::query.having",
"query::query.limit",
"query::query.quantifier",
"query::query.where",
"query::select_asterisk.qualifier",
"query::select_column.name",
"scalar::between_predicate.operator_kind",
"scalar::builtin_set_function_invocation.quantifier",
"scalar::case_expression.default_result",
"scalar::case_expression.operand",
"scalar::extract_expression.subsecond_digits",
"scalar::pattern_match_predicate.escape",
"scalar::trim_expression.character",
"scalar::trim_expression.specification",
"statement::column_constraint_definition.name",
"statement::delete_statement.alias_name",
"statement::delete_statement.where",
"statement::identity_constraint.cycle",
"statement::identity_constraint.increment_value",
"statement::identity_constraint.initial_value",
"statement::identity_constraint.max_value",
"statement::identity_constraint.min_value",
"statement::index_definition.name",
"statement::index_definition.predicate",
"statement::insert_statement.expression",
"statement::privilege_object.object_kind",
"statement::privilege_user.authorization_identifier",
"statement::referential_constraint.on_delete",
"statement::referential_constraint.on_update",
"statement::schema_definition.name",
"statement::schema_definition.user_name",
"statement::sequence_definition.increment_value",
"statement::sequence_definition.initial_value",
"statement::sequence_definition.max_value",
"statement::sequence_definition.min_value",
"statement::sequence_definition.owner",
"statement::sequence_definition.type",
"statement::storage_parameter.value",
"statement::table_constraint_definition.name",
"statement::truncate_table_statement.identity_column_option",
"statement::update_statement.alias_name",
"statement::update_statement.where",
"table::apply.operator_kind",
"table::join.specification",
"table::table_reference.correlation",
"type::character_string.length",
"type::collection.length",
"type::datetime.has_time_zone",
"type::decimal.precision",
"type::decimal.scale",
"type::field_definition.collation",
"type::octet_string.length",
