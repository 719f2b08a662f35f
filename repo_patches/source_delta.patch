From 41f106d54b3b55e3ac696dcc74fbd8cdd765d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 01/38] fix: AST node equality must be reflexive

operator== of 50 AST classes returned false when both operands were the same object.
---
 src/mizugaki/ast/common/sort_element.cpp                    | 2 +-
 src/mizugaki/ast/common/target_element.cpp                  | 2 +-
 src/mizugaki/ast/query/binary_expression.cpp                | 2 +-
 src/mizugaki/ast/query/corresponding_clause.cpp             | 2 +-
 src/mizugaki/ast/query/group_by_clause.cpp                  | 2 +-
 src/mizugaki/ast/query/grouping_column.cpp                  | 2 +-
 src/mizugaki/ast/query/query.cpp                            | 2 +-
 src/mizugaki/ast/query/select_asterisk.cpp                  | 2 +-
 src/mizugaki/ast/query/select_column.cpp                    | 2 +-
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/query/table_value_constructor.cpp          | 2 +-
 src/mizugaki/ast/query/with_element.cpp                     | 2 +-
 src/mizugaki/ast/query/with_expression.cpp                  | 2 +-
 src/mizugaki/ast/scalar/between_predicate.cpp               | 2 +-
 src/mizugaki/ast/scalar/binary_expression.cpp               | 2 +-
 src/mizugaki/ast/scalar/builtin_function_invocation.cpp     | 2 +-
 src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp | 2 +-
 src/mizugaki/ast/scalar/case_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/case_when_clause.cpp                | 2 +-
 src/mizugaki/ast/scalar/cast_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/comparison_predicate.cpp            | 2 +-
 src/mizugaki/ast/scalar/current_of_cursor.cpp               | 2 +-
 src/mizugaki/ast/scalar/extract_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/field_reference.cpp                 | 2 +-
 src/mizugaki/ast/scalar/function_invocation.cpp             | 2 +-
 src/mizugaki/ast/scalar/host_parameter_reference.cpp        | 2 +-
 src/mizugaki/ast/scalar/in_predicate.cpp                    | 2 +-
 src/mizugaki/ast/scalar/literal_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/method_invocation.cpp               | 2 +-
 src/mizugaki/ast/scalar/new_invocation.cpp                  | 2 +-
 src/mizugaki/ast/scalar/pattern_match_predicate.cpp         | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/static_method_invocation.cpp        | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/scalar/table_predicate.cpp                 | 2 +-
 src/mizugaki/ast/scalar/trim_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/unary_expression.cpp                | 2 +-
 src/mizugaki/ast/scalar/value_constructor.cpp               | 2 +-
 src/mizugaki/ast/scalar/variable_reference.cpp              | 2 +-
 src/mizugaki/ast/statement/column_constraint_definition.cpp | 2 +-
 src/mizugaki/ast/statement/privilege_action.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_object.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_user.cpp               | 2 +-
 src/mizugaki/ast/statement/set_element.cpp                  | 2 +-
 src/mizugaki/ast/statement/storage_parameter.cpp            | 2 +-
 src/mizugaki/ast/table/join_columns.cpp                     | 2 +-
 src/mizugaki/ast/table/join_condition.cpp                   | 2 +-
 src/mizugaki/ast/type/field_definition.cpp                  | 2 +-
 src/mizugaki/ast/type/row.cpp                               | 2 +-
 src/mizugaki/ast/type/user_defined.cpp                      | 2 +-
 50 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index 4c4a8fa..dd25228 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -140,7 +140,7 @@ std::optional<sort_element::null_location_type> const& sort_element::null_locati
 
 bool operator==(sort_element const& a, sort_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.key_, *b.key_)
         && eq(*a.collation_, *b.collation_)
diff --git a/src/mizugaki/ast/common/target_element.cpp b/src/mizugaki/ast/common/target_element.cpp
index 4e78f26..a9e387d 100644
--- a/src/mizugaki/ast/common/target_element.cpp
+++ b/src/mizugaki/ast/common/target_element.cpp
@@ -51,7 +51,7 @@ std::unique_ptr<name::simple> const& target_element::indicator() const noexcept
 
 bool operator==(target_element const& a, target_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.indicator_, *b.indicator_);
diff --git a/src/mizugaki/ast/query/binary_expression.cpp b/src/mizugaki/ast/query/binary_expression.cpp
index bb64049..e99ddec 100644
--- a/src/mizugaki/ast/query/binary_expression.cpp
+++ b/src/mizugaki/ast/query/binary_expression.cpp
@@ -147,7 +147,7 @@ std::optional<binary_expression::corresponding_type> const& binary_expression::c
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/query/corresponding_clause.cpp b/src/mizugaki/ast/query/corresponding_clause.cpp
index b951795..4d733a1 100644
--- a/src/mizugaki/ast/query/corresponding_clause.cpp
+++ b/src/mizugaki/ast/query/corresponding_clause.cpp
@@ -51,7 +51,7 @@ std::vector<std::unique_ptr<name::simple>> const& corresponding_clause::column_n
 
 bool operator==(corresponding_clause const& a, corresponding_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.column_names_, *b.column_names_);
 }
diff --git a/src/mizugaki/ast/query/group_by_clause.cpp b/src/mizugaki/ast/query/group_by_clause.cpp
index 8fba22e..b1f97fc 100644
--- a/src/mizugaki/ast/query/group_by_clause.cpp
+++ b/src/mizugaki/ast/query/group_by_clause.cpp
@@ -50,7 +50,7 @@ std::vector<std::unique_ptr<group_by_clause::element_type>> const& group_by_clau
 
 bool operator==(group_by_clause const& a, group_by_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.elements_, *b.elements_);
 }
diff --git a/src/mizugaki/ast/query/grouping_column.cpp b/src/mizugaki/ast/query/grouping_column.cpp
index 8022dce..d9148ee 100644
--- a/src/mizugaki/ast/query/grouping_column.cpp
+++ b/src/mizugaki/ast/query/grouping_column.cpp
@@ -94,7 +94,7 @@ std::unique_ptr<name::name> const& grouping_column::collation() const noexcept {
 
 bool operator==(grouping_column const& a, grouping_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.column_, b.column_)
             && eq(a.collation_, b.collation_);
diff --git a/src/mizugaki/ast/query/query.cpp b/src/mizugaki/ast/query/query.cpp
index 8a01ca6..2d978b9 100644
--- a/src/mizugaki/ast/query/query.cpp
+++ b/src/mizugaki/ast/query/query.cpp
@@ -186,7 +186,7 @@ std::optional<query::quantifier_type> const& query::quantifier() const noexcept
 
 bool operator==(query const& a, query const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.from_, b.from_)
diff --git a/src/mizugaki/ast/query/select_asterisk.cpp b/src/mizugaki/ast/query/select_asterisk.cpp
index d69e0b3..a5ce134 100644
--- a/src/mizugaki/ast/query/select_asterisk.cpp
+++ b/src/mizugaki/ast/query/select_asterisk.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& select_asterisk::qualifier() const no
 
 bool operator==(select_asterisk const& a, select_asterisk const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.qualifier_, b.qualifier_);
 }
diff --git a/src/mizugaki/ast/query/select_column.cpp b/src/mizugaki/ast/query/select_column.cpp
index 492ef8c..e5a5ca9 100644
--- a/src/mizugaki/ast/query/select_column.cpp
+++ b/src/mizugaki/ast/query/select_column.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::simple> const& select_column::name() const noexcept {
 
 bool operator==(select_column const& a, select_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_)
             && eq(a.name_, b.name_);
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 6046c39..7cbad8e 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<name::name> const& table_reference::name() const noexcept {
 
 bool operator==(table_reference const& a, table_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/query/table_value_constructor.cpp b/src/mizugaki/ast/query/table_value_constructor.cpp
index 42389fb..d7933db 100644
--- a/src/mizugaki/ast/query/table_value_constructor.cpp
+++ b/src/mizugaki/ast/query/table_value_constructor.cpp
@@ -62,7 +62,7 @@ std::vector<std::unique_ptr<scalar::expression>> const& table_value_constructor:
 
 bool operator==(table_value_constructor const& a, table_value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/query/with_element.cpp b/src/mizugaki/ast/query/with_element.cpp
index 70e8d86..bf1a26a 100644
--- a/src/mizugaki/ast/query/with_element.cpp
+++ b/src/mizugaki/ast/query/with_element.cpp
@@ -92,7 +92,7 @@ std::vector<std::unique_ptr<name::simple>> const& with_element::column_names() c
 
 bool operator==(with_element const& a, with_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.expression_, *b.expression_)
diff --git a/src/mizugaki/ast/query/with_expression.cpp b/src/mizugaki/ast/query/with_expression.cpp
index ac31a18..5aeb7a4 100644
--- a/src/mizugaki/ast/query/with_expression.cpp
+++ b/src/mizugaki/ast/query/with_expression.cpp
@@ -104,7 +104,7 @@ with_expression::bool_type const& with_expression::is_recursive() const noexcept
 
 bool operator==(with_expression const& a, with_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.expression_, b.expression_)
diff --git a/src/mizugaki/ast/scalar/between_predicate.cpp b/src/mizugaki/ast/scalar/between_predicate.cpp
index 9bac591..a53e283 100644
--- a/src/mizugaki/ast/scalar/between_predicate.cpp
+++ b/src/mizugaki/ast/scalar/between_predicate.cpp
@@ -120,7 +120,7 @@ between_predicate::bool_type const& between_predicate::is_not() const noexcept {
 
 bool operator==(between_predicate const& a, between_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.target_, b.target_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/binary_expression.cpp b/src/mizugaki/ast/scalar/binary_expression.cpp
index 55dc4f0..38061f2 100644
--- a/src/mizugaki/ast/scalar/binary_expression.cpp
+++ b/src/mizugaki/ast/scalar/binary_expression.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& binary_expression::right() const noexcept {
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
index c7c34a1..21a19ba 100644
--- a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
@@ -77,7 +77,7 @@ std::vector<expression::operand_type> const& builtin_function_invocation::argume
 
 bool operator==(builtin_function_invocation const& a, builtin_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
index 0af9940..b3ed382 100644
--- a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
@@ -90,7 +90,7 @@ std::vector<expression::operand_type> const& builtin_set_function_invocation::ar
 
 bool operator==(builtin_set_function_invocation const& a, builtin_set_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.quantifier_, b.quantifier_)
diff --git a/src/mizugaki/ast/scalar/case_expression.cpp b/src/mizugaki/ast/scalar/case_expression.cpp
index 0fa33f3..2f87a0f 100644
--- a/src/mizugaki/ast/scalar/case_expression.cpp
+++ b/src/mizugaki/ast/scalar/case_expression.cpp
@@ -107,7 +107,7 @@ expression::operand_type const& case_expression::default_result() const noexcept
 
 bool operator==(case_expression const& a, case_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operand_, b.operand_)
             && eq(a.when_clauses_, b.when_clauses_)
diff --git a/src/mizugaki/ast/scalar/case_when_clause.cpp b/src/mizugaki/ast/scalar/case_when_clause.cpp
index 50fe752..4bc9a5f 100644
--- a/src/mizugaki/ast/scalar/case_when_clause.cpp
+++ b/src/mizugaki/ast/scalar/case_when_clause.cpp
@@ -64,7 +64,7 @@ expression::operand_type const& case_when_clause::result() const noexcept {
 
 bool operator==(case_when_clause const& a, case_when_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.when_, *b.when_)
             && eq(*a.result_, *b.result_);
diff --git a/src/mizugaki/ast/scalar/cast_expression.cpp b/src/mizugaki/ast/scalar/cast_expression.cpp
index cadc5b0..36ec4fb 100644
--- a/src/mizugaki/ast/scalar/cast_expression.cpp
+++ b/src/mizugaki/ast/scalar/cast_expression.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<type::type> const& cast_expression::type() const noexcept {
 
 bool operator==(cast_expression const& a, cast_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_)
diff --git a/src/mizugaki/ast/scalar/comparison_predicate.cpp b/src/mizugaki/ast/scalar/comparison_predicate.cpp
index d86fb0e..6f82526 100644
--- a/src/mizugaki/ast/scalar/comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/comparison_predicate.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& comparison_predicate::right() const noexcept {
 
 bool operator==(comparison_predicate const& a, comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/current_of_cursor.cpp b/src/mizugaki/ast/scalar/current_of_cursor.cpp
index 7121cc1..297081a 100644
--- a/src/mizugaki/ast/scalar/current_of_cursor.cpp
+++ b/src/mizugaki/ast/scalar/current_of_cursor.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& current_of_cursor::name() const noexcept {
 
 bool operator==(current_of_cursor const& a, current_of_cursor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/extract_expression.cpp b/src/mizugaki/ast/scalar/extract_expression.cpp
index 75ee965..9df2687 100644
--- a/src/mizugaki/ast/scalar/extract_expression.cpp
+++ b/src/mizugaki/ast/scalar/extract_expression.cpp
@@ -114,7 +114,7 @@ expression::operand_type const& extract_expression::operand() const noexcept {
 
 bool operator==(extract_expression const& a, extract_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.field_, b.field_)
         && eq(a.subsecond_digits_, b.subsecond_digits_)
diff --git a/src/mizugaki/ast/scalar/field_reference.cpp b/src/mizugaki/ast/scalar/field_reference.cpp
index 44ec9a4..ae7e42f 100644
--- a/src/mizugaki/ast/scalar/field_reference.cpp
+++ b/src/mizugaki/ast/scalar/field_reference.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<name::simple> const& field_reference::name() const noexcept {
 
 bool operator==(field_reference const& a, field_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/function_invocation.cpp b/src/mizugaki/ast/scalar/function_invocation.cpp
index 0a244cc..d4ba50c 100644
--- a/src/mizugaki/ast/scalar/function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/function_invocation.cpp
@@ -80,7 +80,7 @@ std::vector<expression::operand_type> const& function_invocation::arguments() co
 
 bool operator==(function_invocation const& a, function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/host_parameter_reference.cpp b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
index 98cd768..0fa7e67 100644
--- a/src/mizugaki/ast/scalar/host_parameter_reference.cpp
+++ b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::simple> const& host_parameter_reference::name() const noex
 
 bool operator==(host_parameter_reference const& a, host_parameter_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/in_predicate.cpp b/src/mizugaki/ast/scalar/in_predicate.cpp
index 3c83697..4eea60f 100644
--- a/src/mizugaki/ast/scalar/in_predicate.cpp
+++ b/src/mizugaki/ast/scalar/in_predicate.cpp
@@ -90,7 +90,7 @@ in_predicate::bool_type const& in_predicate::is_not() const noexcept {
 
 bool operator==(in_predicate const& a, in_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.left_, b.left_)
             && eq(a.right_, b.right_)
diff --git a/src/mizugaki/ast/scalar/literal_expression.cpp b/src/mizugaki/ast/scalar/literal_expression.cpp
index af83788..60668b9 100644
--- a/src/mizugaki/ast/scalar/literal_expression.cpp
+++ b/src/mizugaki/ast/scalar/literal_expression.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<literal::literal> const& literal_expression::value() const noexc
 
 bool operator==(literal_expression const& a, literal_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_);
 }
diff --git a/src/mizugaki/ast/scalar/method_invocation.cpp b/src/mizugaki/ast/scalar/method_invocation.cpp
index 60203bd..3bc6eb9 100644
--- a/src/mizugaki/ast/scalar/method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/method_invocation.cpp
@@ -107,7 +107,7 @@ std::vector<expression::operand_type> const& method_invocation::arguments() cons
 
 bool operator==(method_invocation const& a, method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/new_invocation.cpp b/src/mizugaki/ast/scalar/new_invocation.cpp
index 951c379..36c12d6 100644
--- a/src/mizugaki/ast/scalar/new_invocation.cpp
+++ b/src/mizugaki/ast/scalar/new_invocation.cpp
@@ -79,7 +79,7 @@ std::vector<expression::operand_type> const& new_invocation::arguments() const n
 
 bool operator==(new_invocation const& a, new_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
index cf475c3..10d88b0 100644
--- a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
+++ b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
@@ -119,7 +119,7 @@ pattern_match_predicate::bool_type const& pattern_match_predicate::is_not() cons
 
 bool operator==(pattern_match_predicate const& a, pattern_match_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.match_value_, b.match_value_)
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 07dc504..65f4079 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -104,7 +104,7 @@ std::unique_ptr<query::expression> const& quantified_comparison_predicate::right
 
 bool operator==(quantified_comparison_predicate const& a, quantified_comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/static_method_invocation.cpp b/src/mizugaki/ast/scalar/static_method_invocation.cpp
index 88a89ac..3533f2b 100644
--- a/src/mizugaki/ast/scalar/static_method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/static_method_invocation.cpp
@@ -93,7 +93,7 @@ std::vector<expression::operand_type> const& static_method_invocation::arguments
 
 bool operator==(static_method_invocation const& a, static_method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.name_, b.name_)
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 7b17d24..31a443b 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -76,7 +76,7 @@ subquery::context_kind_type const& subquery::context_kind() const noexcept {
 
 bool operator==(subquery const& a, subquery const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.query_, b.query_) && a.context_kind_ == b.context_kind_;
 }
diff --git a/src/mizugaki/ast/scalar/table_predicate.cpp b/src/mizugaki/ast/scalar/table_predicate.cpp
index 02a3348..ab6c8f1 100644
--- a/src/mizugaki/ast/scalar/table_predicate.cpp
+++ b/src/mizugaki/ast/scalar/table_predicate.cpp
@@ -76,7 +76,7 @@ std::unique_ptr<query::expression> const& table_predicate::operand() const noexc
 
 bool operator==(table_predicate const& a, table_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/trim_expression.cpp b/src/mizugaki/ast/scalar/trim_expression.cpp
index f953adb..beda913 100644
--- a/src/mizugaki/ast/scalar/trim_expression.cpp
+++ b/src/mizugaki/ast/scalar/trim_expression.cpp
@@ -91,7 +91,7 @@ expression::operand_type const& trim_expression::source() const noexcept {
 
 bool operator==(trim_expression const& a, trim_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.specification_, b.specification_)
             && eq(a.character_, b.character_)
diff --git a/src/mizugaki/ast/scalar/unary_expression.cpp b/src/mizugaki/ast/scalar/unary_expression.cpp
index 79ffe1d..b0ffd6b 100644
--- a/src/mizugaki/ast/scalar/unary_expression.cpp
+++ b/src/mizugaki/ast/scalar/unary_expression.cpp
@@ -76,7 +76,7 @@ expression::operand_type const& unary_expression::operand() const noexcept {
 
 bool operator==(unary_expression const& a, unary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/value_constructor.cpp b/src/mizugaki/ast/scalar/value_constructor.cpp
index 240dde1..b747232 100644
--- a/src/mizugaki/ast/scalar/value_constructor.cpp
+++ b/src/mizugaki/ast/scalar/value_constructor.cpp
@@ -86,7 +86,7 @@ std::vector<expression::operand_type> const& value_constructor::elements() const
 
 bool operator==(value_constructor const& a, value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.elements_, b.elements_);
diff --git a/src/mizugaki/ast/scalar/variable_reference.cpp b/src/mizugaki/ast/scalar/variable_reference.cpp
index 6bac267..c2d715b 100644
--- a/src/mizugaki/ast/scalar/variable_reference.cpp
+++ b/src/mizugaki/ast/scalar/variable_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& variable_reference::name() const noexcept {
 
 bool operator==(variable_reference const& a, variable_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/statement/column_constraint_definition.cpp b/src/mizugaki/ast/statement/column_constraint_definition.cpp
index af808c1..5893394 100644
--- a/src/mizugaki/ast/statement/column_constraint_definition.cpp
+++ b/src/mizugaki/ast/statement/column_constraint_definition.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<constraint> const& column_constraint_definition::body() const no
 
 bool operator==(column_constraint_definition const& a, column_constraint_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.body_, *b.body_);
diff --git a/src/mizugaki/ast/statement/privilege_action.cpp b/src/mizugaki/ast/statement/privilege_action.cpp
index fd0bfd5..38aecb4 100644
--- a/src/mizugaki/ast/statement/privilege_action.cpp
+++ b/src/mizugaki/ast/statement/privilege_action.cpp
@@ -40,7 +40,7 @@ privilege_action::action_kind_type const& privilege_action::action_kind() const
 
 bool operator==(privilege_action const& a, privilege_action const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.action_kind_, *b.action_kind_);
 }
diff --git a/src/mizugaki/ast/statement/privilege_object.cpp b/src/mizugaki/ast/statement/privilege_object.cpp
index 9bcaeb6..53bd8fb 100644
--- a/src/mizugaki/ast/statement/privilege_object.cpp
+++ b/src/mizugaki/ast/statement/privilege_object.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::name> const& privilege_object::object_name() const noexcep
 
 bool operator==(privilege_object const& a, privilege_object const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.object_kind_, b.object_kind_)
             && eq(*a.object_name_, *b.object_name_);
diff --git a/src/mizugaki/ast/statement/privilege_user.cpp b/src/mizugaki/ast/statement/privilege_user.cpp
index 457afcc..6ad3b76 100644
--- a/src/mizugaki/ast/statement/privilege_user.cpp
+++ b/src/mizugaki/ast/statement/privilege_user.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::simple> const& privilege_user::authorization_identifier()
 
 bool operator==(privilege_user const& a, privilege_user const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     if (!eq(a.user_kind_, b.user_kind_)) {
         return false;
diff --git a/src/mizugaki/ast/statement/set_element.cpp b/src/mizugaki/ast/statement/set_element.cpp
index 2c6bea2..291f46a 100644
--- a/src/mizugaki/ast/statement/set_element.cpp
+++ b/src/mizugaki/ast/statement/set_element.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& set_element::value() const noexcept {
 
 bool operator==(set_element const& a, set_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/statement/storage_parameter.cpp b/src/mizugaki/ast/statement/storage_parameter.cpp
index 78c03aa..6daef82 100644
--- a/src/mizugaki/ast/statement/storage_parameter.cpp
+++ b/src/mizugaki/ast/statement/storage_parameter.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<scalar::expression> const& storage_parameter::value() const noex
 
 bool operator==(storage_parameter const& a, storage_parameter const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/table/join_columns.cpp b/src/mizugaki/ast/table/join_columns.cpp
index 83841ee..c10cc28 100644
--- a/src/mizugaki/ast/table/join_columns.cpp
+++ b/src/mizugaki/ast/table/join_columns.cpp
@@ -64,7 +64,7 @@ std::vector<std::unique_ptr<name::simple>> const& join_columns::columns() const
 
 bool operator==(join_columns const& a, join_columns const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.columns_, b.columns_);
 }
diff --git a/src/mizugaki/ast/table/join_condition.cpp b/src/mizugaki/ast/table/join_condition.cpp
index 8f508b6..883289f 100644
--- a/src/mizugaki/ast/table/join_condition.cpp
+++ b/src/mizugaki/ast/table/join_condition.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& join_condition::expression() const no
 
 bool operator==(join_condition const& a, join_condition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.expression_, b.expression_);
 }
diff --git a/src/mizugaki/ast/type/field_definition.cpp b/src/mizugaki/ast/type/field_definition.cpp
index 30cbd05..01a7b4c 100644
--- a/src/mizugaki/ast/type/field_definition.cpp
+++ b/src/mizugaki/ast/type/field_definition.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::name> const& field_definition::collation() const noexcept
 
 bool operator==(field_definition const& a, field_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
         && eq(*a.type_, *b.type_)
diff --git a/src/mizugaki/ast/type/row.cpp b/src/mizugaki/ast/type/row.cpp
index d29acd2..0e09e59 100644
--- a/src/mizugaki/ast/type/row.cpp
+++ b/src/mizugaki/ast/type/row.cpp
@@ -61,7 +61,7 @@ std::vector<field_definition> const& row::elements() const noexcept {
 
 bool operator==(row const& a, row const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/type/user_defined.cpp b/src/mizugaki/ast/type/user_defined.cpp
index 00dcd97..10ea1e0 100644
--- a/src/mizugaki/ast/type/user_defined.cpp
+++ b/src/mizugaki/ast/type/user_defined.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& user_defined::name() const noexcept {
 
 bool operator==(user_defined const& a, user_defined const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
-- 
2.43.0


From e072e2e4ff711d23fa2d7022018afe34f5cae1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 02/38] fix: scan BIT_AND and BIT_OR as their own tokens

They were scanned as BOOL_AND and BOOL_OR, so BIT_AND(x) was parsed as BOOL_AND(x).
---
 src/mizugaki/parser/sql_scanner.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index b8cdba6..5538327 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -453,8 +453,8 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 "PLACING" { TRACE_RETURN parser_type::make_PLACING(location()); }
 "TINYINT" { TRACE_RETURN parser_type::make_TINYINT(location()); }
 "BIGINT" { TRACE_RETURN parser_type::make_BIGINT(location()); }
-"BIT_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
-"BIT_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
+"BIT_AND" { TRACE_RETURN parser_type::make_BIT_AND(location()); }
+"BIT_OR" { TRACE_RETURN parser_type::make_BIT_OR(location()); }
 "BOOL_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
 "BOOL_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
 
-- 
2.43.0


From 8a03c12e11d17161a882f8ea2745ad9d5f9c1c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:39 +0000
Subject: [PATCH 03/38] fix: keep ONLY on table references

The ONLY (table) production built the same tree as a plain table reference.
---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 1052152..747cdb5 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2970,10 +2970,10 @@ table_primary
                     $c,
                     @$);
         }
-    | ONLY "(" table_name[n] ")" correlation_clause_opt[c]
+    | ONLY[q] "(" table_name[n] ")" correlation_clause_opt[c]
         {
             $$ = driver.node<ast::table::table_reference>(
-                    regioned { false },
+                    regioned { true, @q },
                     $n,
                     $c,
                     @$);
-- 
2.43.0


From 860b08df3d6ce911560f24d6d0e82eb56c52ea4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 04/38] fix: compare ONLY of both table references

table_reference equality compared is_only of the left operand with itself.
---
 src/mizugaki/ast/table/table_reference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/table_reference.cpp b/src/mizugaki/ast/table/table_reference.cpp
index 10aa4f6..4e75d83 100644
--- a/src/mizugaki/ast/table/table_reference.cpp
+++ b/src/mizugaki/ast/table/table_reference.cpp
@@ -97,7 +97,7 @@ bool operator==(table_reference const& a, table_reference const& b) noexcept {
     }
     return eq(a.name_, b.name_)
             && eq(a.correlation_, b.correlation_)
-            && eq(a.is_only_, a.is_only_);
+            && eq(a.is_only_, b.is_only_);
 }
 
 bool operator!=(table_reference const& a, table_reference const& b) noexcept {
-- 
2.43.0


From c8043a6a45209fcae61a8ebc5c31ada50615f606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 05/38] fix: compare and serialize the operand of APPLY

Two APPLY expressions over different tables were equal, and the left hand side was missing in the serialized form.
---
 src/mizugaki/ast/table/apply.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 3c644a6..64c1394 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -126,6 +126,7 @@ void apply::serialize(takatori::serializer::object_acceptor& acceptor) const {
     using namespace common::serializers;
     using namespace std::string_view_literals;
     auto obj = struct_block(acceptor, *this);
+    property(acceptor, "operand"sv, operand_);
     property(acceptor, "operator_kind"sv, operator_kind_);
     property(acceptor, "name"sv, name_);
     property(acceptor, "arguments"sv, arguments_);
@@ -137,7 +138,8 @@ bool operator==(apply const& a, apply const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
         return true;
     }
-    return eq(a.operator_kind_, b.operator_kind_)
+    return eq(a.operand_, b.operand_)
+            && eq(a.operator_kind_, b.operator_kind_)
             && eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_)
             && eq(a.correlation_, b.correlation_);
-- 
2.43.0


From e243993408cae946bc6be12780427c5bdcea87ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:07 +0000
Subject: [PATCH 06/38] fix: keep the region when cloning TRUNCATE TABLE
 statements

---
 src/mizugaki/ast/statement/truncate_table_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index b64e990..445538c 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -37,6 +37,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             clone_unique(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
@@ -44,6 +45,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             std::move(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
-- 
2.43.0


From a64928371b9cda0636c8eb56304713175b7dbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 07/38] fix: count every node in the syntax tree limits

The operand of APPLY, the name of function invocations, and the aliases of UPDATE and DELETE were not visited, so that they were missing in the node count and could exceed both limits.
---
 src/mizugaki/parser/sql_tree_validator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index c60d4ff..77ba579 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -273,6 +273,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::update_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         for (auto&& clause : element.elements()) { // NOLINT(*-use-anyofallof)
             ACCEPT(clause.target());
             ACCEPT(clause.value());
@@ -283,6 +284,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::delete_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         ACCEPT(element.where());
         return true;
     }
@@ -548,6 +550,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::table::apply const& element, std::size_t depth) {
+        ACCEPT(element.operand());
         ACCEPT(element.name());
         ACCEPT(element.arguments());
         ACCEPT(element.correlation().correlation_name());
@@ -672,6 +675,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::scalar::function_invocation const& element, std::size_t depth) {
+        ACCEPT(element.name());
         ACCEPT(element.arguments()); // NOLINT(*-simplify-boolean-expr)
         return true;
     }
-- 
2.43.0


From 5248bf01f3b21b4637d76e6b7e34d132e2bc3595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 08/38] fix: do not report invalid bytes as control characters

Bytes larger than 0x7f were compared as signed values, and reported as "U+FFFFFF80" etc.
---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 747cdb5..4ab4560 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -183,8 +183,8 @@
 
         // check erroneous token kind
         if (symbol == kind::S_ERROR) {
-            if (image.size() == 1 && image[0] < static_cast<char>(0x20)) {
-                auto c = static_cast<unsigned int>(image[0]);
+            if (image.size() == 1 && static_cast<unsigned char>(image[0]) < 0x20U) {
+                auto c = static_cast<unsigned int>(static_cast<unsigned char>(image[0]));
                 driver.error(
                         sql_parser_code::invalid_character,
                         location,
-- 
2.43.0


From 89e456530290811f48958463b9ac9812eb3de834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 09/38] fix: reject a leading comma in argument lists

f(, 1) was accepted as f(1).
---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 4ab4560..169cb10 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4182,7 +4182,7 @@ sql_argument_list_opt
     ;
 
 sql_argument_list
-    : sql_argument_list_opt[L] ","[s] sql_argument[e]
+    : sql_argument_list[L] ","[s] sql_argument[e]
         {
             $$ = $L;
             $$.emplace_back($e);
-- 
2.43.0


From 87eeeafe44066b2c015f78b7ba375cc8209e4352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 10/38] fix: return from copy assignment of vector
 clone_wrapper

The function flowed off the end without returning a value.
---
 include/mizugaki/ast/common/clone_wrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mizugaki/ast/common/clone_wrapper.h b/include/mizugaki/ast/common/clone_wrapper.h
index d3a4611..a34421f 100644
--- a/include/mizugaki/ast/common/clone_wrapper.h
+++ b/include/mizugaki/ast/common/clone_wrapper.h
@@ -146,6 +146,7 @@ public:
      */
     clone_wrapper& operator=(clone_wrapper const& other) {
         element_ = other.clone();
+        return *this;
     }
 
     /**
-- 
2.43.0


From 8bc7a70be46070d990cefa1b65d22f5d8b96392e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:51 +0000
Subject: [PATCH 11/38] fix: report sizes which are out of range

CHAR(99999999999999999999) was accepted as CHAR(0).
---
 src/mizugaki/parser/sql_driver.cpp | 10 +++++-----
 src/mizugaki/parser/sql_driver.h   |  4 +++-
 src/mizugaki/parser/sql_parser.yy  | 10 +++++++++-
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 647fa08..e0a365c 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -294,12 +294,12 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
     return {};
 }
 
-std::size_t sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
+std::optional<std::size_t> sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
-    auto result = std::strtoull(str.data(), nullptr, 10);
-    if (errno == ERANGE) {
-        // FIXME: error
-        return 0;
+    auto result = std::strtoull(str.c_str(), nullptr, 10);
+    // NOTE: the max value is reserved for flexible size
+    if (errno == ERANGE || result == static_cast<std::size_t>(-1)) {
+        return std::nullopt;
     }
     return result;
 }
diff --git a/src/mizugaki/parser/sql_driver.h b/src/mizugaki/parser/sql_driver.h
index b9bac13..366e777 100644
--- a/src/mizugaki/parser/sql_driver.h
+++ b/src/mizugaki/parser/sql_driver.h
@@ -2,6 +2,8 @@
 
 #include <cstddef>
 
+#include <optional>
+
 #include <mizugaki/ast/common/vector.h>
 #include <mizugaki/ast/name/name.h>
 #include <mizugaki/ast/name/simple.h>
@@ -94,7 +96,7 @@ public:
         return result;
     }
 
-    [[nodiscard]] std::size_t to_size(ast::common::chars const& str);
+    [[nodiscard]] std::optional<std::size_t> to_size(ast::common::chars const& str);
 
     [[nodiscard]] bool check_regular_identifier(ast::common::chars const& str);
 
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 169cb10..a50f29c 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4668,7 +4668,15 @@ size_maybe_flexible
 size
     : UNSIGNED_INTEGER[t]
         {
-            $$ = { driver.to_size($t), @t };
+            auto size = driver.to_size($t);
+            if (!size) {
+                driver.error(
+                        sql_parser_code::invalid_token,
+                        @t,
+                        "the size is out of range");
+                YYABORT;
+            }
+            $$ = { *size, @t };
         }
     ;
 
-- 
2.43.0


From fc15235da2ff8cb4e160e761ccfbce2ef7c0072d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 12/38] fix: no signed overflow on the literal
 -9223372036854775808

---
 src/mizugaki/analyzer/details/analyze_literal.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index 44a7463..e6fc9eb 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -265,10 +265,12 @@ private:
             if (triple.coefficient_high() == 0
                 && ((triple.coefficient_low() <= positive_max)
                     || (triple.sign() < 0 && triple.coefficient_low() <= negative_max))) {
-                integer = static_cast<std::int64_t>(triple.coefficient_low());
+                auto unsigned_value = triple.coefficient_low();
                 if (triple.sign() < 0) {
-                    integer = -*integer;
+                    // NOTE: negates in unsigned to avoid overflow at the minimum value of int8
+                    unsigned_value = std::uint64_t {} - unsigned_value;
                 }
+                integer = static_cast<std::int64_t>(unsigned_value);
             }
             if (integer) {
                 if (context_.options()->prefer_small_integer_literals()) {
-- 
2.43.0


From fbe9c141d9d3551ffcbb0966cb4b1ab03a766115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 13/38] fix: refuse a decimal literal which is reported as not
 normal

---
 src/mizugaki/analyzer/details/analyze_literal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index e6fc9eb..82cf055 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -255,6 +255,7 @@ private:
                             << "(" << v.number_class(context) << ")"
                             << string_builder::to_string,
                     value.region());
+            return {};
         }
         ::takatori::decimal::triple triple { v };
         if (triple.exponent() == 0) {
-- 
2.43.0


From feb1dfa90241eb04c842fab14794830b297d0de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 14/38] fix: refuse NULLS FIRST and NULLS LAST after reporting
 them

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b1307dd..e0f199e 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -253,6 +253,7 @@ public:
                             sql_analyzer_code::unsupported_feature,
                             "NULLS FIRST/LAST in ORDER BY is not yet supported",
                             spec.region());
+                    return {};
                 }
                 auto result = analyze_scalar_expression(context_, *spec.key(), scope);
                 if (!result) {
-- 
2.43.0


From 126b3c5cc0011802195993b10d4e84665698893f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 15/38] fix: refuse cast operators which are reported as not
 supported

---
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index c3d1980..e81df80 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -239,6 +239,7 @@ public:
                             << expr.operator_kind()
                             << string_builder::to_string,
                     expr.operator_kind().region());
+            return {};
         }
         auto operand = process(*expr.operand(), {});
         if (!operand) {
-- 
2.43.0


From f5c875be8bf517e334d13ecac1b4ac4ba154ba74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:49 +0000
Subject: [PATCH 16/38] fix: refuse multiple insert options after reporting
 them

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 902366d..5c3c626 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -409,6 +409,7 @@ public:
                                 sql_analyzer_code::malformed_syntax,
                                 "multiple insert options are not supported",
                                 option.region());
+                        return {};
                     }
                     saw = true;
                     result = to::insert_skip;
@@ -419,6 +420,7 @@ public:
                                 sql_analyzer_code::malformed_syntax,
                                 "multiple insert options are not supported",
                                 option.region());
+                        return {};
                     }
                     saw = true;
                     result = to::insert_overwrite;
-- 
2.43.0


From ed6f97989f5b12aa52c3454ae42d3b3a02d61e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:59 +0000
Subject: [PATCH 17/38] fix: refuse index parameters after reporting them

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 5c3c626..9fd8155 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1237,6 +1237,7 @@ public:
                     sql_analyzer_code::malformed_syntax,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
+            return {};
         }
 
         query_scope scope {};
@@ -1353,6 +1354,7 @@ public:
                     sql_analyzer_code::unsupported_feature,
                     "index parameters are not supported yet",
                     stmt.parameters().at(0).name()->region());
+            return {};
         }
 
         // check existing
-- 
2.43.0


From ec90ce9d9deb71a98493a4adec12e35babfe9b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 18/38] fix: ON, USING and APPLY arguments only see the
 relations of their own join

---
 src/mizugaki/analyzer/details/analyze_name.cpp   |  3 ++-
 .../details/analyze_query_expression.cpp         | 10 +++++++++-
 src/mizugaki/analyzer/details/query_scope.cpp    | 13 +++++++++++--
 src/mizugaki/analyzer/details/query_scope.h      | 16 ++++++++++++++++
 4 files changed, 38 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index f0aaab2..b7a47f0 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -824,7 +824,8 @@ private:
             ast::name::simple const& name) {
         ast::common::chars buffer;
         std::optional<descriptor::variable> found {};
-        for (auto&& r : scope.references()) {
+        for (auto i = scope.first_visible(), n = scope.references().size(); i < n; ++i) {
+            auto&& r = scope.references()[i];
             for (auto v = r.find(to_identifier(name, buffer, name_kind::variable)); !v.is_absent(); v = r.next(*v)) {
                 if (v.is_ambiguous()) {
                     report_column_ambiguous(name);
diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index e0f199e..7efc2a5 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1004,6 +1004,7 @@ public:
     [[nodiscard]] optional_ptr<output_port> operator()( // NOLINT(*-cognitive-complexity)
             ast::table::apply const& expr,
             query_scope& scope) {
+        auto first = scope.create_pivot();
         auto operand = dispatch(*expr.operand(), scope);
         if (!operand) {
             return {};
@@ -1018,7 +1019,10 @@ public:
         std::vector<std::shared_ptr<::takatori::type::data const>> argument_types {};
         argument_types.reserve(expr.arguments().size());
         for (auto&& arg : expr.arguments()) {
+            // NOTE: only the relations in the operand are available here
+            auto last_visible = scope.set_visible(first);
             auto value = analyze_scalar_expression(context_, *arg, scope);
+            scope.set_visible(last_visible);
             if (!value) {
                 return {};
             }
@@ -1337,7 +1341,7 @@ public:
             auto&& id = normalize_identifier(context_, *name, name_kind::variable);
             auto&& rels = scope.references();
             optional_ptr<tdescriptor::variable const> left {};
-            for (query_scope::position_type i = 0, n = pivot; i < n; ++i) {
+            for (query_scope::position_type i = scope.first_visible(), n = pivot; i < n; ++i) {
                 auto&& rel = rels[i];
                 for (auto&& column = rel.find(id); column; column = rel.next(*column)) {
                     // FIXME: check existing
@@ -1622,6 +1626,7 @@ private:
             ast::table::join const& expr,
             query_scope& scope,
             bool transpose = false) {
+        auto first = scope.create_pivot();
         auto left = dispatch(*expr.left(), scope);
         if (!left) {
             return {};
@@ -1649,7 +1654,10 @@ private:
                 return {};
             }
         } else if (expr.specification()) {
+            // NOTE: only the relations in this join are available here
+            auto last_visible = scope.set_visible(first);
             condition = ast::table::dispatch(*this, *expr.specification(), scope, pivot);
+            scope.set_visible(last_visible);
             if (!condition) {
                 return {};
             }
diff --git a/src/mizugaki/analyzer/details/query_scope.cpp b/src/mizugaki/analyzer/details/query_scope.cpp
index 381b61d..c8bf0ce 100644
--- a/src/mizugaki/analyzer/details/query_scope.cpp
+++ b/src/mizugaki/analyzer/details/query_scope.cpp
@@ -1,6 +1,7 @@
 #include <mizugaki/analyzer/details/query_scope.h>
 
 #include <algorithm>
+#include <utility>
 
 #include <takatori/util/fail.h>
 #include <takatori/util/print_support.h>
@@ -112,7 +113,7 @@ query_scope::const_result_type query_scope::find(::yugawara::storage::relation c
 
 std::optional<query_scope::position_type> query_scope::find_internal(std::string_view identifier) const {
     auto&& map = name_map_;
-    if (auto it = map.find(identifier); it != map.end()) {
+    if (auto it = map.find(identifier); it != map.end() && it.value() >= first_visible_) {
         return it.value();
     }
     return {};
@@ -120,7 +121,7 @@ std::optional<query_scope::position_type> query_scope::find_internal(std::string
 
 std::optional<query_scope::position_type> query_scope::find_internal(::yugawara::storage::relation const& relation) const {
     auto&& map = reference_map_;
-    if (auto it = map.find(std::addressof(relation)); it != map.end()) {
+    if (auto it = map.find(std::addressof(relation)); it != map.end() && it.value() >= first_visible_) {
         return it.value();
     }
     return {};
@@ -130,6 +131,14 @@ query_scope::position_type query_scope::create_pivot() const noexcept {
     return relations_.size();
 }
 
+query_scope::position_type query_scope::first_visible() const noexcept {
+    return first_visible_;
+}
+
+query_scope::position_type query_scope::set_visible(position_type position) noexcept {
+    return std::exchange(first_visible_, position);
+}
+
 bool query_scope::add(std::string name, std::shared_ptr<query_info const> query) { // NOLINT(performance-unnecessary-value-param)
     auto [it, added] = query_map_.try_emplace(std::move(name), std::move(query));
     (void) it;
diff --git a/src/mizugaki/analyzer/details/query_scope.h b/src/mizugaki/analyzer/details/query_scope.h
index 369fbbe..9d7e012 100644
--- a/src/mizugaki/analyzer/details/query_scope.h
+++ b/src/mizugaki/analyzer/details/query_scope.h
@@ -57,6 +57,21 @@ public:
 
     [[nodiscard]] position_type create_pivot() const noexcept;
 
+    /**
+     * @brief returns the position of the first visible relation in this scope.
+     * @return the position, individual relations before it are never found
+     */
+    [[nodiscard]] position_type first_visible() const noexcept;
+
+    /**
+     * @brief changes the first visible relation in this scope.
+     * @details the relations before the position become invisible, until the position is restored.
+     * @param position the position of the first visible relation
+     * @return the previous position
+     * @see create_pivot()
+     */
+    position_type set_visible(position_type position) noexcept;
+
     /**
      * @brief adds a query info with the given name.
      * @param name the query name
@@ -110,6 +125,7 @@ private:
 
     ::takatori::util::optional_ptr<query_scope> parent_ {};
     std::vector<relation_info> relations_ {};
+    position_type first_visible_ { 0 };
     ::tsl::hopscotch_map<std::string, position_type, std::hash<std::string_view>, std::equal_to<>> name_map_ {};
     ::tsl::hopscotch_map<yugawara::storage::relation const*, position_type> reference_map_ {};
     ::tsl::hopscotch_map<
-- 
2.43.0


From ccad25b7a81c0f3ad22495abae7810c27943e1fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 19/38] fix: refuse SELECT * of columns which are not grouping
 keys

---
 .../analyzer/details/analyze_query_expression.cpp   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 7efc2a5..8cc069c 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -336,6 +336,19 @@ public:
                     set_functions.add_aggregated(column.variable());
                 }
             }
+            // NOTE: columns from `SELECT *` are not in the select_columns
+            for (auto&& column : info.columns()) {
+                if (!set_functions.is_grouping(column.variable()) && !set_functions.is_aggregated(column.variable())) {
+                    context_.report(
+                            sql_analyzer_code::invalid_aggregation_column,
+                            string_builder {}
+                                    << "column must be aggregated: "
+                                    << column.identifier().value_or("")
+                                    << string_builder::to_string,
+                            expr.elements().front()->region() | expr.elements().back()->region());
+                    return {};
+                }
+            }
             if (auto project = sort_columns) {
                 for (auto&& column : project->columns()) {
                     if (!set_functions.process(column.ownership_value())) {
-- 
2.43.0


From 42a4b63f15600a2b32fa3109f6b335c1e77b33f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:11 +0000
Subject: [PATCH 20/38] fix: fold the letter case of the correlation name of
 APPLY

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 8cc069c..c64c7c6 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1116,7 +1116,10 @@ public:
             return {};
         }
 
-        relation_info info { {}, correlation.correlation_name()->identifier() };
+        relation_info info {
+                {},
+                normalize_identifier(context_, *correlation.correlation_name(), name_kind::relation),
+        };
         ::tsl::hopscotch_set<std::string> saw_column_names {};
         saw_column_names.reserve(table_type.columns().size());
         for (std::size_t index = 0; index < table_type.columns().size(); ++index) {
-- 
2.43.0


From b06c347542adedb36d0820fb19f5a61546088ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:59 +0000
Subject: [PATCH 21/38] fix: refuse set functions in VALUES, SET and APPLY
 arguments

---
 .../analyzer/details/analyze_query_expression.cpp  | 14 ++++++++++++++
 .../analyzer/details/analyze_statement.cpp         |  7 +++++++
 2 files changed, 21 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index c64c7c6..17c5640 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -471,6 +471,13 @@ public:
                         return {};
                     }
                     // FIXME: can appear agg func if this is in a sub-query
+                    if (elem.saw_aggregate()) {
+                        context_.report(
+                                sql_analyzer_code::unsupported_feature,
+                                "aggregated function in VALUES clause is not yet supported",
+                                elem_expr->region());
+                        return {};
+                    }
                     row.push_back(elem.release());
                     ++index;
                 }
@@ -1039,6 +1046,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in APPLY clause is not yet supported",
+                        arg->region());
+                return {};
+            }
             auto type = context_.resolve(*value);
             if (!type) {
                 return {};
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 9fd8155..d874361 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -527,6 +527,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in SET clause is not yet supported",
+                        element.value()->region());
+                return {};
+            }
 
             projections.emplace_back(variable, value.release());
 
-- 
2.43.0


From f38e5f6c8037d9bf22eab4e9a70958fa500737ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:42 +0000
Subject: [PATCH 22/38] fix: accept outer variables as parameters of subqueries
 in aggregated queries

---
 .../analyzer/details/set_function_processor.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 0d8ee67..822935c 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -76,12 +76,6 @@ public:
     }
 
     bool operator()(tscalar::variable_reference const& expr, std::size_t depth) {
-        // check only if it is stream variable
-        auto&& variable_info = ::yugawara::binding::unwrap(expr.variable());
-        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
-            return false;
-        }
-
         check_variable(expr.region(), expr.variable(), depth);
         return false;
     }
@@ -90,6 +84,12 @@ public:
             ::takatori::document::region const& region,
             tdescriptor::variable const& variable,
             std::size_t depth) {
+        // check only if it is stream variable
+        auto&& variable_info = ::yugawara::binding::unwrap(variable);
+        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
+            return;
+        }
+
         if (depth == 0) {
             // NOTE: in aggregation depth = 0, you can use grouping keys or aggregated values
             if (!processor_.is_grouping(variable) && !processor_.is_aggregated(variable)) {
-- 
2.43.0


From af8d7a1b0a3f5a1a3dddd7e2d5476c121aecd59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:45 +0000
Subject: [PATCH 23/38] fix: aggregate queries with HAVING or GROUP BY () but
 without set functions

---
 .../analyzer/details/set_function_processor.cpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 822935c..b474574 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -338,14 +338,14 @@ optional_ptr<output_port_type> set_function_processor::install(output_port_type&
         current = arguments_->output();
         arguments_.reset();
     }
-    if (aggregations_) {
-        if (!context_.resolve(*aggregations_)) {
-            return {};
-        }
-        aggregations_->input().connect_to(*current);
-        current = aggregations_->output();
-        aggregations_.reset();
+    // NOTE: aggregates rows into groups even if there are no set functions nor grouping keys
+    auto&& aggregations = aggregations_store();
+    if (!context_.resolve(aggregations)) {
+        return {};
     }
+    aggregations.input().connect_to(*current);
+    current = aggregations.output();
+    aggregations_.reset();
     if (next) {
         current->connect_to(*next);
     }
-- 
2.43.0


From 7b0f2ede52b55e2339e8af6812df40880e8cf575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 24/38] fix: find outer relations qualified by their schema
 from correlated subqueries

---
 src/mizugaki/analyzer/details/analyze_name.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index b7a47f0..f6f1ec0 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -791,13 +791,15 @@ private:
             schema_decl const& schema,
             ast::name::simple const& name) {
         if (auto decl = find_relation_decl_in_schema(schema, name); decl.found()) {
-            auto r = scope.find(*decl.found());
-            if (r.is_found()) {
-                return { scoped_relation_info { *r } };
-            }
-            if (r.is_ambiguous()) {
-                report_relation_ambiguous(name);
-                return find_symbol_result<scoped_relation_info>::error;
+            for (optional_ptr current { scope }; current; current = current->parent()) {
+                auto r = current->find(*decl.found());
+                if (r.is_found()) {
+                    return { scoped_relation_info { *r, *current } };
+                }
+                if (r.is_ambiguous()) {
+                    report_relation_ambiguous(name);
+                    return find_symbol_result<scoped_relation_info>::error;
+                }
             }
             // not found
         } else if (decl.is_error()) {
-- 
2.43.0


From 5ceb038f66a182310a1543fd1d666c8b653be621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:39 +0000
Subject: [PATCH 25/38] fix: keep the extent of the text of DATE literals

---
 src/mizugaki/parser/sql_parser.yy | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index a50f29c..e3d7f63 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4281,7 +4281,7 @@ literal
         {
             $$ = driver.node<ast::literal::datetime>(
                     regioned { ast::literal::kind::date, @k },
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | TIME[k] with_or_without_time_zone_opt[z] CHARACTER_STRING_LITERAL[t]
-- 
2.43.0


From aa3020b011cc9777cd20ee758c62b02f1c8df203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:22 +0000
Subject: [PATCH 26/38] fix: report unsupported casts where they stand

---
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index e81df80..9cd9315 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -238,7 +238,7 @@ public:
                             << "unsupported cast type: "
                             << expr.operator_kind()
                             << string_builder::to_string,
-                    expr.operator_kind().region());
+                    expr.region());
             return {};
         }
         auto operand = process(*expr.operand(), {});
-- 
2.43.0


From f2fd33b85afd7f4cfdea6eb76d2c363af614676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 27/38] fix: TABLE queries and correlation column names only
 count visible columns

---
 .../details/analyze_query_expression.cpp      | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 17c5640..bfd53dc 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -425,10 +425,10 @@ public:
                         expr.region());
                 return {};
             }
-            return process_relation_reference(*expr.name(), *parent);
+            return process_table_query(*expr.name(), *parent);
         }
         query_scope scope { parent };
-        return process_relation_reference(*expr.name(), scope);
+        return process_table_query(*expr.name(), scope);
     }
 
     [[nodiscard]] result_type operator()(
@@ -845,6 +845,17 @@ public:
         return result.output();
     }
 
+    [[nodiscard]] result_type process_table_query(
+            ast::name::name const& relation,
+            query_scope const& scope) {
+        auto result = process_relation_reference(relation, scope);
+        if (result) {
+            // NOTE: TABLE query only provides visible columns
+            remove_hidden_columns(result.relation());
+        }
+        return result;
+    }
+
     [[nodiscard]] result_type process_relation_reference(
             ast::name::name const& relation,
             query_scope const& scope) {
@@ -1518,7 +1529,20 @@ private:
         return result;
     }
 
+    static void remove_hidden_columns(relation_info& info) {
+        for (std::size_t position = info.columns().size(); position > 0; --position) {
+            if (!info.columns()[position - 1].exported()) {
+                info.erase(position - 1, position);
+            }
+        }
+        info.rebuild();
+    }
+
     [[nodiscard]] bool rebuild_relation_info(relation_info& info, ast::table::correlation_clause const& correlation) {
+        if (!correlation.column_names().empty()) {
+            // NOTE: correlation columns only name visible columns
+            remove_hidden_columns(info);
+        }
         if (correlation.column_names().size() > info.columns().size()) {
             context_.report(
                     sql_analyzer_code::inconsistent_columns,
-- 
2.43.0


From fc8477289e48d12d7a7432d892d97f039c13a21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 28/38] fix: refuse hidden columns as UPDATE targets

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index d874361..fca8e29 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -490,7 +490,7 @@ public:
 
             auto identifier = normalize_identifier(context_, element.target()->last_name(), name_kind::variable);
             auto column = info.find(identifier);
-            if (!column || !column->declaration()) {
+            if (!column || !column->declaration() || !column->exported()) {
                 context_.report(
                         sql_analyzer_code::column_not_found,
                         string_builder {}
-- 
2.43.0


From 1bb151e2b6c23341fd2655813e3fdbd67239dfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:44 +0000
Subject: [PATCH 29/38] fix: report a missing column of RENAME COLUMN at its
 own name

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index fca8e29..92eb4fb 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1544,7 +1544,7 @@ public:
                             << table->simple_name()
                             << "\""
                             << string_builder::to_string,
-                    action.replacement()->region());
+                    action.column_name()->region());
             return {};
         }
         if (find_column(*table, *action.replacement())) {
-- 
2.43.0


From 21b73dd5e2861344239674545ff28bfe9cbc399b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:27 +0000
Subject: [PATCH 30/38] fix: relations beside a derived table do not hide those
 of the enclosing queries

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index bfd53dc..9fe2491 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1020,7 +1020,11 @@ public:
             return {};
         }
         query_scope next { scope, {} };
+        // NOTE: w/o LATERAL, the relations beside this table reference are not available in the subquery,
+        //       and they never hide the ones in the enclosing queries
+        auto last_visible = scope.set_visible(scope.create_pivot());
         auto result = dispatch(*expr.expression(), next, {});
+        scope.set_visible(last_visible);
         if (!result) {
             return {};
         }
-- 
2.43.0


From 6c06f23941e75eeef2ae2ba653427187686b13ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:22 +0000
Subject: [PATCH 31/38] fix: do not require the precision of DECIMAL to be
 written when refusing it

---
 src/mizugaki/analyzer/details/analyze_type.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_type.cpp b/src/mizugaki/analyzer/details/analyze_type.cpp
index 7832d29..0ac4a28 100644
--- a/src/mizugaki/analyzer/details/analyze_type.cpp
+++ b/src/mizugaki/analyzer/details/analyze_type.cpp
@@ -212,7 +212,7 @@ public:
             context_.report(
                     sql_analyzer_code::invalid_type_length,
                     "decimal type precision must not be zero",
-                    type.precision().value().region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region(type));
             return {};
         }
         if (precision && precision > options().max_decimal_precision()) {
@@ -222,7 +222,7 @@ public:
                             << "too large decimal precision: " << precision.value()
                             << " (max precision is " << options().max_decimal_precision() << ")"
                             << string_builder::to_string,
-                    type.precision()->region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region(type));
             return {};
         }
         if (scale && scale.value() > precision.value_or(options().max_decimal_precision())) {
@@ -368,6 +368,14 @@ private:
         return *context_.options();
     }
     
+    [[nodiscard]] static ast::node_region precision_region(ast::type::decimal const& type) {
+        if (auto precision = type.precision()) {
+            return precision->region();
+        }
+        // NOTE: the precision may come from the default one
+        return type.region();
+    }
+
     template<class Type>
     [[nodiscard]] result_type build(ast::type::type const& source, Type&& type) {
         static_assert(std::is_rvalue_reference_v<decltype(type)>);
-- 
2.43.0


From 620f4ba6d6f83e42111e9ef6b351fdd09b26ea16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 32/38] fix: refuse TEMPORARY tables instead of creating
 permanent ones

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 92eb4fb..cd87834 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -697,6 +697,13 @@ public:
 
     [[nodiscard]] result_type operator()(ast::statement::table_definition const& stmt) { // NOLINT(*-function-cognitive-complexity)
         // check features
+        if (auto opt = find(stmt.options(), ast::statement::table_definition_option::temporary)) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "temporary tables are not supported yet",
+                    opt->region());
+            return {};
+        }
         if (!stmt.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
-- 
2.43.0


From f14a2ff5279dc15312dec31928beed1059e1d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:32 +0000
Subject: [PATCH 33/38] fix: refuse index values and parameters of column
 PRIMARY KEY constraints

---
 .../analyzer/details/analyze_statement.cpp    | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index cd87834..abfb47d 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -804,6 +804,10 @@ public:
                                     constraint.region());
                             return {};
                         }
+                        if (!validate_primary_key_features(
+                                unsafe_downcast<ast::statement::key_constraint>(constraint))) {
+                            return {};
+                        }
                         prototype->criteria().nullity(~::yugawara::variable::nullable);
                         primary_key_column.reset(prototype.get());
                         break;
@@ -1235,22 +1239,28 @@ public:
         return {};
     }
 
-    [[nodiscard]] std::shared_ptr<::yugawara::storage::index> process_primary_key(
-            ast::statement::key_constraint const& constraint,
-            std::shared_ptr<::yugawara::storage::table const> table) {
-        // check features
+    [[nodiscard]] bool validate_primary_key_features(ast::statement::key_constraint const& constraint) {
         if (!constraint.values().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
                     "index values are not supported yet",
                     constraint.values().at(0)->region());
-            return {};
+            return false;
         }
         if (!constraint.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::malformed_syntax,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
+            return false;
+        }
+        return true;
+    }
+
+    [[nodiscard]] std::shared_ptr<::yugawara::storage::index> process_primary_key(
+            ast::statement::key_constraint const& constraint,
+            std::shared_ptr<::yugawara::storage::table const> table) {
+        if (!validate_primary_key_features(constraint)) {
             return {};
         }
 
-- 
2.43.0


From 363de1265deaf3ff6aacbbb9b772745e99ffa6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:29 +0000
Subject: [PATCH 34/38] fix: refuse collations of grouping columns and index
 keys instead of ignoring them

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 7 +++++++
 src/mizugaki/analyzer/details/analyze_statement.cpp        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 9fe2491..380e324 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1333,6 +1333,13 @@ public:
             ast::query::grouping_column const& elem,
             set_function_processor& processor,
             query_scope& scope) {
+        if (elem.collation()) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "collation in GROUP BY is not yet supported",
+                    elem.region());
+            return false;
+        }
         auto r = analyze_scalar_expression(context_, *elem.column(), scope);
         if (!r) {
             return {};
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index abfb47d..eed8802 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1290,6 +1290,13 @@ public:
         ::tsl::hopscotch_set<::yugawara::storage::column const*> saw_columns { source_keys.size() };
         auto index_keys = create_vector<::yugawara::storage::index::key>(source_keys.size());
         for (auto&& key : source_keys) {
+            if (auto&& p = key.collation()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "index key element with collation is not supported",
+                        p->region());
+                return {};
+            }
             if (auto&& p = key.null_location()) {
                 // FIXME: impl NULLS FIRST/LAST for indices
                 context_.report(
-- 
2.43.0


From a2502a4dd1d86519cf8b9e78b557fd82ef9fee90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:39 +0000
Subject: [PATCH 35/38] fix: choose the most specific overload regardless of
 the order of declarations

---
 .../details/analyze_scalar_expression.cpp     | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index 9cd9315..a2bd1fd 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -1540,18 +1540,29 @@ public:
         return true;
     }
 
+    template<class TDecl>
+    [[nodiscard]] static bool is_more_specific(TDecl const& a, TDecl const& b) {
+        return is_applicable(a.shared_parameter_types(), b.shared_parameter_types())
+                && !is_applicable(b.shared_parameter_types(), a.shared_parameter_types());
+    }
+
     template<class TDecl>
     [[nodiscard]] static std::shared_ptr<TDecl> resolve_overload(
             analyzer_context& context,
             std::vector<std::shared_ptr<TDecl>> const& candidates,
             ast::node_region region) {
+        // find the candidate which may be the most specific one
         std::size_t left_idx = 0;
         for (std::size_t right_idx = 1, n = candidates.size(); right_idx < n; ++right_idx) {
+            if (is_more_specific(*candidates[right_idx], *candidates[left_idx])) {
+                left_idx = right_idx;
+            }
+        }
+        // it must be more specific than any others, regardless of their order
+        for (std::size_t right_idx = 0, n = candidates.size(); right_idx < n; ++right_idx) {
             auto const* left = candidates[left_idx].get();
             auto const* right = candidates[right_idx].get();
-            auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
-            auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
-            if (forward_applicable == reverse_applicable) {
+            if (right_idx != left_idx && !is_more_specific(*left, *right)) {
                 string_builder builder {};
                 builder << "ambiguous function overload: "
                         << left->name()
@@ -1565,9 +1576,6 @@ public:
                         region);
                 return {};
             }
-            if (reverse_applicable) {
-                left_idx = right_idx;
-            }
         }
         return candidates[left_idx];
     }
-- 
2.43.0


From 948cb36e741f3c011e7fdcd7a21576b336fac097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:00 +0000
Subject: [PATCH 36/38] fix: forget what is bound to the expressions of a
 common table before copying it

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 380e324..7d69c79 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -804,6 +804,9 @@ public:
             }
         }
 
+        // NOTE: the graph of the common table is only the source of copies, and is disposed with the scope
+        context_.clear_expression_resolution();
+
         auto subquery = std::make_shared<query_info>(
                 std::move(subgraph),
                 std::move(columns),
-- 
2.43.0


From 6af60ce286ce711a1a1dbdb8f84e33343ceffbf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:55 +0000
Subject: [PATCH 37/38] fix: names of invisible relations are not ambiguous

---
 src/mizugaki/analyzer/details/query_scope.cpp | 39 +++++++++++++++++--
 src/mizugaki/analyzer/details/query_scope.h   |  4 ++
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/query_scope.cpp b/src/mizugaki/analyzer/details/query_scope.cpp
index c8bf0ce..05a2ecf 100644
--- a/src/mizugaki/analyzer/details/query_scope.cpp
+++ b/src/mizugaki/analyzer/details/query_scope.cpp
@@ -111,18 +111,49 @@ query_scope::const_result_type query_scope::find(::yugawara::storage::relation c
     return {};
 }
 
+template<class Predicate>
+std::optional<query_scope::position_type> query_scope::find_visible(Predicate predicate) const {
+    std::optional<position_type> result {};
+    for (auto i = first_visible_, n = relations_.size(); i < n; ++i) {
+        if (predicate(relations_[i])) {
+            if (result) {
+                return ambiguous;
+            }
+            result = i;
+        }
+    }
+    return result;
+}
+
 std::optional<query_scope::position_type> query_scope::find_internal(std::string_view identifier) const {
     auto&& map = name_map_;
-    if (auto it = map.find(identifier); it != map.end() && it.value() >= first_visible_) {
-        return it.value();
+    if (auto it = map.find(identifier); it != map.end()) {
+        if (it.value() == ambiguous) {
+            return find_visible([&](relation_info const& r) {
+                if (!r.identifier().empty()) {
+                    return r.identifier() == identifier;
+                }
+                return r.declaration() && r.declaration()->simple_name() == identifier;
+            });
+        }
+        if (it.value() >= first_visible_) {
+            return it.value();
+        }
     }
     return {};
 }
 
 std::optional<query_scope::position_type> query_scope::find_internal(::yugawara::storage::relation const& relation) const {
     auto&& map = reference_map_;
-    if (auto it = map.find(std::addressof(relation)); it != map.end() && it.value() >= first_visible_) {
-        return it.value();
+    if (auto it = map.find(std::addressof(relation)); it != map.end()) {
+        if (it.value() == ambiguous) {
+            return find_visible([&](relation_info const& r) {
+                return r.identifier().empty() && r.declaration().get() == std::addressof(relation);
+            });
+        }
+        if (it.value() >= first_visible_) {
+            return it.value();
+        }
     }
     return {};
 }
diff --git a/src/mizugaki/analyzer/details/query_scope.h b/src/mizugaki/analyzer/details/query_scope.h
index 9d7e012..508442b 100644
--- a/src/mizugaki/analyzer/details/query_scope.h
+++ b/src/mizugaki/analyzer/details/query_scope.h
@@ -137,6 +137,10 @@ private:
     query_scope_feature_set features_ {};
     std::vector<std::tuple<::takatori::descriptor::variable, ::takatori::descriptor::variable>> parameters_ {};
 
+    // finds the only visible relation out of ones with the same name
+    template<class Predicate>
+    [[nodiscard]] std::optional<position_type> find_visible(Predicate predicate) const;
+
     [[nodiscard]] std::optional<position_type> find_internal(std::string_view identifier) const;
     [[nodiscard]] std::optional<position_type> find_internal(::yugawara::storage::relation const& relation) const;
 };
-- 
2.43.0


From d7ccbdd2f984179c64372517aa90be491105e281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:29:08 +0000
Subject: [PATCH 38/38] fix: refuse UPDATE and DELETE on a table whose primary
 index has no keys

The problem was reported, but a plan which writes without keys was returned all the same.
---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index eed8802..9998e32 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -474,6 +474,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error already reported
+        }
 
         ::tsl::hopscotch_set<::yugawara::storage::column const*> saw_columns { stmt.elements().size() };
         auto projections = create_vector<trelation::project::column>(stmt.elements().size());
@@ -584,6 +587,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error already reported
+        }
 
         auto&& op_write = graph->insert(context_.create<trelation::write>(
                 stmt.table_name()->region(),
-- 
2.43.0

