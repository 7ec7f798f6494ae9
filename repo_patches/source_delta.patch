From cc81607d3a1110deeda3da4cddd0de8e631c90b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 01/43] fix: AST equality operators return true when comparing
 an object with itself

---
 src/mizugaki/ast/common/sort_element.cpp                    | 2 +-
 src/mizugaki/ast/common/target_element.cpp                  | 2 +-
 src/mizugaki/ast/query/binary_expression.cpp                | 2 +-
 src/mizugaki/ast/query/corresponding_clause.cpp             | 2 +-
 src/mizugaki/ast/query/group_by_clause.cpp                  | 2 +-
 src/mizugaki/ast/query/grouping_column.cpp                  | 2 +-
 src/mizugaki/ast/query/query.cpp                            | 2 +-
 src/mizugaki/ast/query/select_asterisk.cpp                  | 2 +-
 src/mizugaki/ast/query/select_column.cpp                    | 2 +-
 src/mizugaki/ast/query/table_reference.cpp                  | 2 +-
 src/mizugaki/ast/query/table_value_constructor.cpp          | 2 +-
 src/mizugaki/ast/query/with_element.cpp                     | 2 +-
 src/mizugaki/ast/query/with_expression.cpp                  | 2 +-
 src/mizugaki/ast/scalar/between_predicate.cpp               | 2 +-
 src/mizugaki/ast/scalar/binary_expression.cpp               | 2 +-
 src/mizugaki/ast/scalar/builtin_function_invocation.cpp     | 2 +-
 src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp | 2 +-
 src/mizugaki/ast/scalar/case_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/case_when_clause.cpp                | 2 +-
 src/mizugaki/ast/scalar/cast_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/comparison_predicate.cpp            | 2 +-
 src/mizugaki/ast/scalar/current_of_cursor.cpp               | 2 +-
 src/mizugaki/ast/scalar/extract_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/field_reference.cpp                 | 2 +-
 src/mizugaki/ast/scalar/function_invocation.cpp             | 2 +-
 src/mizugaki/ast/scalar/host_parameter_reference.cpp        | 2 +-
 src/mizugaki/ast/scalar/in_predicate.cpp                    | 2 +-
 src/mizugaki/ast/scalar/literal_expression.cpp              | 2 +-
 src/mizugaki/ast/scalar/method_invocation.cpp               | 2 +-
 src/mizugaki/ast/scalar/new_invocation.cpp                  | 2 +-
 src/mizugaki/ast/scalar/pattern_match_predicate.cpp         | 2 +-
 src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp | 2 +-
 src/mizugaki/ast/scalar/static_method_invocation.cpp        | 2 +-
 src/mizugaki/ast/scalar/subquery.cpp                        | 2 +-
 src/mizugaki/ast/scalar/table_predicate.cpp                 | 2 +-
 src/mizugaki/ast/scalar/trim_expression.cpp                 | 2 +-
 src/mizugaki/ast/scalar/unary_expression.cpp                | 2 +-
 src/mizugaki/ast/scalar/value_constructor.cpp               | 2 +-
 src/mizugaki/ast/scalar/variable_reference.cpp              | 2 +-
 src/mizugaki/ast/statement/column_constraint_definition.cpp | 2 +-
 src/mizugaki/ast/statement/privilege_action.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_object.cpp             | 2 +-
 src/mizugaki/ast/statement/privilege_user.cpp               | 2 +-
 src/mizugaki/ast/statement/set_element.cpp                  | 2 +-
 src/mizugaki/ast/statement/storage_parameter.cpp            | 2 +-
 src/mizugaki/ast/table/join_columns.cpp                     | 2 +-
 src/mizugaki/ast/table/join_condition.cpp                   | 2 +-
 src/mizugaki/ast/type/field_definition.cpp                  | 2 +-
 src/mizugaki/ast/type/row.cpp                               | 2 +-
 src/mizugaki/ast/type/user_defined.cpp                      | 2 +-
 50 files changed, 50 insertions(+), 50 deletions(-)

diff --git a/src/mizugaki/ast/common/sort_element.cpp b/src/mizugaki/ast/common/sort_element.cpp
index 4c4a8fa..dd25228 100644
--- a/src/mizugaki/ast/common/sort_element.cpp
+++ b/src/mizugaki/ast/common/sort_element.cpp
@@ -140,7 +140,7 @@ std::optional<sort_element::null_location_type> const& sort_element::null_locati
 
 bool operator==(sort_element const& a, sort_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.key_, *b.key_)
         && eq(*a.collation_, *b.collation_)
diff --git a/src/mizugaki/ast/common/target_element.cpp b/src/mizugaki/ast/common/target_element.cpp
index 4e78f26..a9e387d 100644
--- a/src/mizugaki/ast/common/target_element.cpp
+++ b/src/mizugaki/ast/common/target_element.cpp
@@ -51,7 +51,7 @@ std::unique_ptr<name::simple> const& target_element::indicator() const noexcept
 
 bool operator==(target_element const& a, target_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.indicator_, *b.indicator_);
diff --git a/src/mizugaki/ast/query/binary_expression.cpp b/src/mizugaki/ast/query/binary_expression.cpp
index bb64049..e99ddec 100644
--- a/src/mizugaki/ast/query/binary_expression.cpp
+++ b/src/mizugaki/ast/query/binary_expression.cpp
@@ -147,7 +147,7 @@ std::optional<binary_expression::corresponding_type> const& binary_expression::c
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/query/corresponding_clause.cpp b/src/mizugaki/ast/query/corresponding_clause.cpp
index b951795..4d733a1 100644
--- a/src/mizugaki/ast/query/corresponding_clause.cpp
+++ b/src/mizugaki/ast/query/corresponding_clause.cpp
@@ -51,7 +51,7 @@ std::vector<std::unique_ptr<name::simple>> const& corresponding_clause::column_n
 
 bool operator==(corresponding_clause const& a, corresponding_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.column_names_, *b.column_names_);
 }
diff --git a/src/mizugaki/ast/query/group_by_clause.cpp b/src/mizugaki/ast/query/group_by_clause.cpp
index 8fba22e..b1f97fc 100644
--- a/src/mizugaki/ast/query/group_by_clause.cpp
+++ b/src/mizugaki/ast/query/group_by_clause.cpp
@@ -50,7 +50,7 @@ std::vector<std::unique_ptr<group_by_clause::element_type>> const& group_by_clau
 
 bool operator==(group_by_clause const& a, group_by_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.elements_, *b.elements_);
 }
diff --git a/src/mizugaki/ast/query/grouping_column.cpp b/src/mizugaki/ast/query/grouping_column.cpp
index 8022dce..d9148ee 100644
--- a/src/mizugaki/ast/query/grouping_column.cpp
+++ b/src/mizugaki/ast/query/grouping_column.cpp
@@ -94,7 +94,7 @@ std::unique_ptr<name::name> const& grouping_column::collation() const noexcept {
 
 bool operator==(grouping_column const& a, grouping_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.column_, b.column_)
             && eq(a.collation_, b.collation_);
diff --git a/src/mizugaki/ast/query/query.cpp b/src/mizugaki/ast/query/query.cpp
index 8a01ca6..2d978b9 100644
--- a/src/mizugaki/ast/query/query.cpp
+++ b/src/mizugaki/ast/query/query.cpp
@@ -186,7 +186,7 @@ std::optional<query::quantifier_type> const& query::quantifier() const noexcept
 
 bool operator==(query const& a, query const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.from_, b.from_)
diff --git a/src/mizugaki/ast/query/select_asterisk.cpp b/src/mizugaki/ast/query/select_asterisk.cpp
index d69e0b3..a5ce134 100644
--- a/src/mizugaki/ast/query/select_asterisk.cpp
+++ b/src/mizugaki/ast/query/select_asterisk.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& select_asterisk::qualifier() const no
 
 bool operator==(select_asterisk const& a, select_asterisk const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.qualifier_, b.qualifier_);
 }
diff --git a/src/mizugaki/ast/query/select_column.cpp b/src/mizugaki/ast/query/select_column.cpp
index 492ef8c..e5a5ca9 100644
--- a/src/mizugaki/ast/query/select_column.cpp
+++ b/src/mizugaki/ast/query/select_column.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::simple> const& select_column::name() const noexcept {
 
 bool operator==(select_column const& a, select_column const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_)
             && eq(a.name_, b.name_);
diff --git a/src/mizugaki/ast/query/table_reference.cpp b/src/mizugaki/ast/query/table_reference.cpp
index 6046c39..7cbad8e 100644
--- a/src/mizugaki/ast/query/table_reference.cpp
+++ b/src/mizugaki/ast/query/table_reference.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<name::name> const& table_reference::name() const noexcept {
 
 bool operator==(table_reference const& a, table_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/query/table_value_constructor.cpp b/src/mizugaki/ast/query/table_value_constructor.cpp
index 42389fb..d7933db 100644
--- a/src/mizugaki/ast/query/table_value_constructor.cpp
+++ b/src/mizugaki/ast/query/table_value_constructor.cpp
@@ -62,7 +62,7 @@ std::vector<std::unique_ptr<scalar::expression>> const& table_value_constructor:
 
 bool operator==(table_value_constructor const& a, table_value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/query/with_element.cpp b/src/mizugaki/ast/query/with_element.cpp
index 70e8d86..bf1a26a 100644
--- a/src/mizugaki/ast/query/with_element.cpp
+++ b/src/mizugaki/ast/query/with_element.cpp
@@ -92,7 +92,7 @@ std::vector<std::unique_ptr<name::simple>> const& with_element::column_names() c
 
 bool operator==(with_element const& a, with_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.expression_, *b.expression_)
diff --git a/src/mizugaki/ast/query/with_expression.cpp b/src/mizugaki/ast/query/with_expression.cpp
index ac31a18..5aeb7a4 100644
--- a/src/mizugaki/ast/query/with_expression.cpp
+++ b/src/mizugaki/ast/query/with_expression.cpp
@@ -104,7 +104,7 @@ with_expression::bool_type const& with_expression::is_recursive() const noexcept
 
 bool operator==(with_expression const& a, with_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_)
             && eq(a.expression_, b.expression_)
diff --git a/src/mizugaki/ast/scalar/between_predicate.cpp b/src/mizugaki/ast/scalar/between_predicate.cpp
index 9bac591..a53e283 100644
--- a/src/mizugaki/ast/scalar/between_predicate.cpp
+++ b/src/mizugaki/ast/scalar/between_predicate.cpp
@@ -120,7 +120,7 @@ between_predicate::bool_type const& between_predicate::is_not() const noexcept {
 
 bool operator==(between_predicate const& a, between_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.target_, b.target_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/binary_expression.cpp b/src/mizugaki/ast/scalar/binary_expression.cpp
index 55dc4f0..38061f2 100644
--- a/src/mizugaki/ast/scalar/binary_expression.cpp
+++ b/src/mizugaki/ast/scalar/binary_expression.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& binary_expression::right() const noexcept {
 
 bool operator==(binary_expression const& a, binary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
index c7c34a1..21a19ba 100644
--- a/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_function_invocation.cpp
@@ -77,7 +77,7 @@ std::vector<expression::operand_type> const& builtin_function_invocation::argume
 
 bool operator==(builtin_function_invocation const& a, builtin_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
index 0af9940..b3ed382 100644
--- a/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/builtin_set_function_invocation.cpp
@@ -90,7 +90,7 @@ std::vector<expression::operand_type> const& builtin_set_function_invocation::ar
 
 bool operator==(builtin_set_function_invocation const& a, builtin_set_function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.function_, b.function_)
             && eq(a.quantifier_, b.quantifier_)
diff --git a/src/mizugaki/ast/scalar/case_expression.cpp b/src/mizugaki/ast/scalar/case_expression.cpp
index 0fa33f3..2f87a0f 100644
--- a/src/mizugaki/ast/scalar/case_expression.cpp
+++ b/src/mizugaki/ast/scalar/case_expression.cpp
@@ -107,7 +107,7 @@ expression::operand_type const& case_expression::default_result() const noexcept
 
 bool operator==(case_expression const& a, case_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operand_, b.operand_)
             && eq(a.when_clauses_, b.when_clauses_)
diff --git a/src/mizugaki/ast/scalar/case_when_clause.cpp b/src/mizugaki/ast/scalar/case_when_clause.cpp
index 50fe752..4bc9a5f 100644
--- a/src/mizugaki/ast/scalar/case_when_clause.cpp
+++ b/src/mizugaki/ast/scalar/case_when_clause.cpp
@@ -64,7 +64,7 @@ expression::operand_type const& case_when_clause::result() const noexcept {
 
 bool operator==(case_when_clause const& a, case_when_clause const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.when_, *b.when_)
             && eq(*a.result_, *b.result_);
diff --git a/src/mizugaki/ast/scalar/cast_expression.cpp b/src/mizugaki/ast/scalar/cast_expression.cpp
index cadc5b0..36ec4fb 100644
--- a/src/mizugaki/ast/scalar/cast_expression.cpp
+++ b/src/mizugaki/ast/scalar/cast_expression.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<type::type> const& cast_expression::type() const noexcept {
 
 bool operator==(cast_expression const& a, cast_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_)
diff --git a/src/mizugaki/ast/scalar/comparison_predicate.cpp b/src/mizugaki/ast/scalar/comparison_predicate.cpp
index d86fb0e..6f82526 100644
--- a/src/mizugaki/ast/scalar/comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/comparison_predicate.cpp
@@ -90,7 +90,7 @@ expression::operand_type const& comparison_predicate::right() const noexcept {
 
 bool operator==(comparison_predicate const& a, comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/current_of_cursor.cpp b/src/mizugaki/ast/scalar/current_of_cursor.cpp
index 7121cc1..297081a 100644
--- a/src/mizugaki/ast/scalar/current_of_cursor.cpp
+++ b/src/mizugaki/ast/scalar/current_of_cursor.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& current_of_cursor::name() const noexcept {
 
 bool operator==(current_of_cursor const& a, current_of_cursor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/extract_expression.cpp b/src/mizugaki/ast/scalar/extract_expression.cpp
index 75ee965..9df2687 100644
--- a/src/mizugaki/ast/scalar/extract_expression.cpp
+++ b/src/mizugaki/ast/scalar/extract_expression.cpp
@@ -114,7 +114,7 @@ expression::operand_type const& extract_expression::operand() const noexcept {
 
 bool operator==(extract_expression const& a, extract_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.field_, b.field_)
         && eq(a.subsecond_digits_, b.subsecond_digits_)
diff --git a/src/mizugaki/ast/scalar/field_reference.cpp b/src/mizugaki/ast/scalar/field_reference.cpp
index 44ec9a4..ae7e42f 100644
--- a/src/mizugaki/ast/scalar/field_reference.cpp
+++ b/src/mizugaki/ast/scalar/field_reference.cpp
@@ -92,7 +92,7 @@ std::unique_ptr<name::simple> const& field_reference::name() const noexcept {
 
 bool operator==(field_reference const& a, field_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/function_invocation.cpp b/src/mizugaki/ast/scalar/function_invocation.cpp
index 0a244cc..d4ba50c 100644
--- a/src/mizugaki/ast/scalar/function_invocation.cpp
+++ b/src/mizugaki/ast/scalar/function_invocation.cpp
@@ -80,7 +80,7 @@ std::vector<expression::operand_type> const& function_invocation::arguments() co
 
 bool operator==(function_invocation const& a, function_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/host_parameter_reference.cpp b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
index 98cd768..0fa7e67 100644
--- a/src/mizugaki/ast/scalar/host_parameter_reference.cpp
+++ b/src/mizugaki/ast/scalar/host_parameter_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::simple> const& host_parameter_reference::name() const noex
 
 bool operator==(host_parameter_reference const& a, host_parameter_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/scalar/in_predicate.cpp b/src/mizugaki/ast/scalar/in_predicate.cpp
index 3c83697..4eea60f 100644
--- a/src/mizugaki/ast/scalar/in_predicate.cpp
+++ b/src/mizugaki/ast/scalar/in_predicate.cpp
@@ -90,7 +90,7 @@ in_predicate::bool_type const& in_predicate::is_not() const noexcept {
 
 bool operator==(in_predicate const& a, in_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.left_, b.left_)
             && eq(a.right_, b.right_)
diff --git a/src/mizugaki/ast/scalar/literal_expression.cpp b/src/mizugaki/ast/scalar/literal_expression.cpp
index af83788..60668b9 100644
--- a/src/mizugaki/ast/scalar/literal_expression.cpp
+++ b/src/mizugaki/ast/scalar/literal_expression.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<literal::literal> const& literal_expression::value() const noexc
 
 bool operator==(literal_expression const& a, literal_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.value_, b.value_);
 }
diff --git a/src/mizugaki/ast/scalar/method_invocation.cpp b/src/mizugaki/ast/scalar/method_invocation.cpp
index 60203bd..3bc6eb9 100644
--- a/src/mizugaki/ast/scalar/method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/method_invocation.cpp
@@ -107,7 +107,7 @@ std::vector<expression::operand_type> const& method_invocation::arguments() cons
 
 bool operator==(method_invocation const& a, method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.value_, b.value_)
diff --git a/src/mizugaki/ast/scalar/new_invocation.cpp b/src/mizugaki/ast/scalar/new_invocation.cpp
index 951c379..36c12d6 100644
--- a/src/mizugaki/ast/scalar/new_invocation.cpp
+++ b/src/mizugaki/ast/scalar/new_invocation.cpp
@@ -79,7 +79,7 @@ std::vector<expression::operand_type> const& new_invocation::arguments() const n
 
 bool operator==(new_invocation const& a, new_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.arguments_, b.arguments_);
diff --git a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
index cf475c3..10d88b0 100644
--- a/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
+++ b/src/mizugaki/ast/scalar/pattern_match_predicate.cpp
@@ -119,7 +119,7 @@ pattern_match_predicate::bool_type const& pattern_match_predicate::is_not() cons
 
 bool operator==(pattern_match_predicate const& a, pattern_match_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.match_value_, b.match_value_)
diff --git a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
index 07dc504..65f4079 100644
--- a/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
+++ b/src/mizugaki/ast/scalar/quantified_comparison_predicate.cpp
@@ -104,7 +104,7 @@ std::unique_ptr<query::expression> const& quantified_comparison_predicate::right
 
 bool operator==(quantified_comparison_predicate const& a, quantified_comparison_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.left_, b.left_)
diff --git a/src/mizugaki/ast/scalar/static_method_invocation.cpp b/src/mizugaki/ast/scalar/static_method_invocation.cpp
index 88a89ac..3533f2b 100644
--- a/src/mizugaki/ast/scalar/static_method_invocation.cpp
+++ b/src/mizugaki/ast/scalar/static_method_invocation.cpp
@@ -93,7 +93,7 @@ std::vector<expression::operand_type> const& static_method_invocation::arguments
 
 bool operator==(static_method_invocation const& a, static_method_invocation const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.type_, b.type_)
             && eq(a.name_, b.name_)
diff --git a/src/mizugaki/ast/scalar/subquery.cpp b/src/mizugaki/ast/scalar/subquery.cpp
index 7b17d24..31a443b 100644
--- a/src/mizugaki/ast/scalar/subquery.cpp
+++ b/src/mizugaki/ast/scalar/subquery.cpp
@@ -76,7 +76,7 @@ subquery::context_kind_type const& subquery::context_kind() const noexcept {
 
 bool operator==(subquery const& a, subquery const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.query_, b.query_) && a.context_kind_ == b.context_kind_;
 }
diff --git a/src/mizugaki/ast/scalar/table_predicate.cpp b/src/mizugaki/ast/scalar/table_predicate.cpp
index 02a3348..ab6c8f1 100644
--- a/src/mizugaki/ast/scalar/table_predicate.cpp
+++ b/src/mizugaki/ast/scalar/table_predicate.cpp
@@ -76,7 +76,7 @@ std::unique_ptr<query::expression> const& table_predicate::operand() const noexc
 
 bool operator==(table_predicate const& a, table_predicate const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/trim_expression.cpp b/src/mizugaki/ast/scalar/trim_expression.cpp
index f953adb..beda913 100644
--- a/src/mizugaki/ast/scalar/trim_expression.cpp
+++ b/src/mizugaki/ast/scalar/trim_expression.cpp
@@ -91,7 +91,7 @@ expression::operand_type const& trim_expression::source() const noexcept {
 
 bool operator==(trim_expression const& a, trim_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.specification_, b.specification_)
             && eq(a.character_, b.character_)
diff --git a/src/mizugaki/ast/scalar/unary_expression.cpp b/src/mizugaki/ast/scalar/unary_expression.cpp
index 79ffe1d..b0ffd6b 100644
--- a/src/mizugaki/ast/scalar/unary_expression.cpp
+++ b/src/mizugaki/ast/scalar/unary_expression.cpp
@@ -76,7 +76,7 @@ expression::operand_type const& unary_expression::operand() const noexcept {
 
 bool operator==(unary_expression const& a, unary_expression const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.operand_, b.operand_);
diff --git a/src/mizugaki/ast/scalar/value_constructor.cpp b/src/mizugaki/ast/scalar/value_constructor.cpp
index 240dde1..b747232 100644
--- a/src/mizugaki/ast/scalar/value_constructor.cpp
+++ b/src/mizugaki/ast/scalar/value_constructor.cpp
@@ -86,7 +86,7 @@ std::vector<expression::operand_type> const& value_constructor::elements() const
 
 bool operator==(value_constructor const& a, value_constructor const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.operator_kind_, b.operator_kind_)
             && eq(a.elements_, b.elements_);
diff --git a/src/mizugaki/ast/scalar/variable_reference.cpp b/src/mizugaki/ast/scalar/variable_reference.cpp
index 6bac267..c2d715b 100644
--- a/src/mizugaki/ast/scalar/variable_reference.cpp
+++ b/src/mizugaki/ast/scalar/variable_reference.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& variable_reference::name() const noexcept {
 
 bool operator==(variable_reference const& a, variable_reference const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
diff --git a/src/mizugaki/ast/statement/column_constraint_definition.cpp b/src/mizugaki/ast/statement/column_constraint_definition.cpp
index af808c1..5893394 100644
--- a/src/mizugaki/ast/statement/column_constraint_definition.cpp
+++ b/src/mizugaki/ast/statement/column_constraint_definition.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<constraint> const& column_constraint_definition::body() const no
 
 bool operator==(column_constraint_definition const& a, column_constraint_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.body_, *b.body_);
diff --git a/src/mizugaki/ast/statement/privilege_action.cpp b/src/mizugaki/ast/statement/privilege_action.cpp
index fd0bfd5..38aecb4 100644
--- a/src/mizugaki/ast/statement/privilege_action.cpp
+++ b/src/mizugaki/ast/statement/privilege_action.cpp
@@ -40,7 +40,7 @@ privilege_action::action_kind_type const& privilege_action::action_kind() const
 
 bool operator==(privilege_action const& a, privilege_action const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.action_kind_, *b.action_kind_);
 }
diff --git a/src/mizugaki/ast/statement/privilege_object.cpp b/src/mizugaki/ast/statement/privilege_object.cpp
index 9bcaeb6..53bd8fb 100644
--- a/src/mizugaki/ast/statement/privilege_object.cpp
+++ b/src/mizugaki/ast/statement/privilege_object.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::name> const& privilege_object::object_name() const noexcep
 
 bool operator==(privilege_object const& a, privilege_object const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.object_kind_, b.object_kind_)
             && eq(*a.object_name_, *b.object_name_);
diff --git a/src/mizugaki/ast/statement/privilege_user.cpp b/src/mizugaki/ast/statement/privilege_user.cpp
index 457afcc..6ad3b76 100644
--- a/src/mizugaki/ast/statement/privilege_user.cpp
+++ b/src/mizugaki/ast/statement/privilege_user.cpp
@@ -75,7 +75,7 @@ std::unique_ptr<name::simple> const& privilege_user::authorization_identifier()
 
 bool operator==(privilege_user const& a, privilege_user const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     if (!eq(a.user_kind_, b.user_kind_)) {
         return false;
diff --git a/src/mizugaki/ast/statement/set_element.cpp b/src/mizugaki/ast/statement/set_element.cpp
index 2c6bea2..291f46a 100644
--- a/src/mizugaki/ast/statement/set_element.cpp
+++ b/src/mizugaki/ast/statement/set_element.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& set_element::value() const noexcept {
 
 bool operator==(set_element const& a, set_element const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.target_, *b.target_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/statement/storage_parameter.cpp b/src/mizugaki/ast/statement/storage_parameter.cpp
index 78c03aa..6daef82 100644
--- a/src/mizugaki/ast/statement/storage_parameter.cpp
+++ b/src/mizugaki/ast/statement/storage_parameter.cpp
@@ -63,7 +63,7 @@ std::unique_ptr<scalar::expression> const& storage_parameter::value() const noex
 
 bool operator==(storage_parameter const& a, storage_parameter const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
             && eq(*a.value_, *b.value_);
diff --git a/src/mizugaki/ast/table/join_columns.cpp b/src/mizugaki/ast/table/join_columns.cpp
index 83841ee..c10cc28 100644
--- a/src/mizugaki/ast/table/join_columns.cpp
+++ b/src/mizugaki/ast/table/join_columns.cpp
@@ -64,7 +64,7 @@ std::vector<std::unique_ptr<name::simple>> const& join_columns::columns() const
 
 bool operator==(join_columns const& a, join_columns const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.columns_, b.columns_);
 }
diff --git a/src/mizugaki/ast/table/join_condition.cpp b/src/mizugaki/ast/table/join_condition.cpp
index 8f508b6..883289f 100644
--- a/src/mizugaki/ast/table/join_condition.cpp
+++ b/src/mizugaki/ast/table/join_condition.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<scalar::expression> const& join_condition::expression() const no
 
 bool operator==(join_condition const& a, join_condition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.expression_, b.expression_);
 }
diff --git a/src/mizugaki/ast/type/field_definition.cpp b/src/mizugaki/ast/type/field_definition.cpp
index 30cbd05..01a7b4c 100644
--- a/src/mizugaki/ast/type/field_definition.cpp
+++ b/src/mizugaki/ast/type/field_definition.cpp
@@ -77,7 +77,7 @@ std::unique_ptr<name::name> const& field_definition::collation() const noexcept
 
 bool operator==(field_definition const& a, field_definition const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(*a.name_, *b.name_)
         && eq(*a.type_, *b.type_)
diff --git a/src/mizugaki/ast/type/row.cpp b/src/mizugaki/ast/type/row.cpp
index d29acd2..0e09e59 100644
--- a/src/mizugaki/ast/type/row.cpp
+++ b/src/mizugaki/ast/type/row.cpp
@@ -61,7 +61,7 @@ std::vector<field_definition> const& row::elements() const noexcept {
 
 bool operator==(row const& a, row const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.elements_, b.elements_);
 }
diff --git a/src/mizugaki/ast/type/user_defined.cpp b/src/mizugaki/ast/type/user_defined.cpp
index 00dcd97..10ea1e0 100644
--- a/src/mizugaki/ast/type/user_defined.cpp
+++ b/src/mizugaki/ast/type/user_defined.cpp
@@ -62,7 +62,7 @@ std::unique_ptr<name::name> const& user_defined::name() const noexcept {
 
 bool operator==(user_defined const& a, user_defined const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
-        return false;
+        return true;
     }
     return eq(a.name_, b.name_);
 }
-- 
2.43.0


From 8de37e88cd854e01ee936a9f3e4a5b7c39b3ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 02/43] fix: table_reference equality compares ONLY of both
 operands

---
 src/mizugaki/ast/table/table_reference.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/table_reference.cpp b/src/mizugaki/ast/table/table_reference.cpp
index 10aa4f6..4e75d83 100644
--- a/src/mizugaki/ast/table/table_reference.cpp
+++ b/src/mizugaki/ast/table/table_reference.cpp
@@ -97,7 +97,7 @@ bool operator==(table_reference const& a, table_reference const& b) noexcept {
     }
     return eq(a.name_, b.name_)
             && eq(a.correlation_, b.correlation_)
-            && eq(a.is_only_, a.is_only_);
+            && eq(a.is_only_, b.is_only_);
 }
 
 bool operator!=(table_reference const& a, table_reference const& b) noexcept {
-- 
2.43.0


From 97a4f1835bd044faebcd50141a1facf0f99e7519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 03/43] fix: parser records ONLY of table references

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 1052152..747cdb5 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2970,10 +2970,10 @@ table_primary
                     $c,
                     @$);
         }
-    | ONLY "(" table_name[n] ")" correlation_clause_opt[c]
+    | ONLY[q] "(" table_name[n] ")" correlation_clause_opt[c]
         {
             $$ = driver.node<ast::table::table_reference>(
-                    regioned { false },
+                    regioned { true, @q },
                     $n,
                     $c,
                     @$);
-- 
2.43.0


From 6c61f51d4cf3abccd784ffc5da2fcd1dfc0f808e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 04/43] fix: scanner returns BIT_AND and BIT_OR tokens for
 BIT_AND and BIT_OR

---
 src/mizugaki/parser/sql_scanner.ll | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_scanner.ll b/src/mizugaki/parser/sql_scanner.ll
index b8cdba6..5538327 100644
--- a/src/mizugaki/parser/sql_scanner.ll
+++ b/src/mizugaki/parser/sql_scanner.ll
@@ -453,8 +453,8 @@ UTF8_CHAR {ASCII}|{UTF8_2}{U}|{UTF8_3}{U}{U}|{UTF8_4}{U}{U}{U}
 "PLACING" { TRACE_RETURN parser_type::make_PLACING(location()); }
 "TINYINT" { TRACE_RETURN parser_type::make_TINYINT(location()); }
 "BIGINT" { TRACE_RETURN parser_type::make_BIGINT(location()); }
-"BIT_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
-"BIT_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
+"BIT_AND" { TRACE_RETURN parser_type::make_BIT_AND(location()); }
+"BIT_OR" { TRACE_RETURN parser_type::make_BIT_OR(location()); }
 "BOOL_AND" { TRACE_RETURN parser_type::make_BOOL_AND(location()); }
 "BOOL_OR" { TRACE_RETURN parser_type::make_BOOL_OR(location()); }
 
-- 
2.43.0


From 7932aae63b80d180d37afd3ae1f0f830fc44bfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 05/43] fix: apply expression compares and serializes its
 operand

---
 src/mizugaki/ast/table/apply.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/ast/table/apply.cpp b/src/mizugaki/ast/table/apply.cpp
index 3c644a6..64c1394 100644
--- a/src/mizugaki/ast/table/apply.cpp
+++ b/src/mizugaki/ast/table/apply.cpp
@@ -126,6 +126,7 @@ void apply::serialize(takatori::serializer::object_acceptor& acceptor) const {
     using namespace common::serializers;
     using namespace std::string_view_literals;
     auto obj = struct_block(acceptor, *this);
+    property(acceptor, "operand"sv, operand_);
     property(acceptor, "operator_kind"sv, operator_kind_);
     property(acceptor, "name"sv, name_);
     property(acceptor, "arguments"sv, arguments_);
@@ -137,7 +138,8 @@ bool operator==(apply const& a, apply const& b) noexcept {
     if (std::addressof(a) == std::addressof(b)) {
         return true;
     }
-    return eq(a.operator_kind_, b.operator_kind_)
+    return eq(a.operand_, b.operand_)
+            && eq(a.operator_kind_, b.operator_kind_)
             && eq(a.name_, b.name_)
             && eq(a.arguments_, b.arguments_)
             && eq(a.correlation_, b.correlation_);
-- 
2.43.0


From 505215c1a855bd8649a9574537c1d910f338b261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 06/43] fix: clone_wrapper of vectors returns itself on copy
 assignment

---
 include/mizugaki/ast/common/clone_wrapper.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mizugaki/ast/common/clone_wrapper.h b/include/mizugaki/ast/common/clone_wrapper.h
index d3a4611..a34421f 100644
--- a/include/mizugaki/ast/common/clone_wrapper.h
+++ b/include/mizugaki/ast/common/clone_wrapper.h
@@ -146,6 +146,7 @@ public:
      */
     clone_wrapper& operator=(clone_wrapper const& other) {
         element_ = other.clone();
+        return *this;
     }
 
     /**
-- 
2.43.0


From 698a47556cdf9519f9e1815e71111df0962c44dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 07/43] fix: parser rejects out of range sizes instead of
 reading them as 0

---
 src/mizugaki/parser/sql_driver.cpp |  6 +++---
 src/mizugaki/parser/sql_driver.h   |  4 +++-
 src/mizugaki/parser/sql_parser.yy  | 10 +++++++++-
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 647fa08..7ec96be 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <iterator>
+#include <optional>
 #include <string_view>
 
 #include <takatori/util/assertion.h>
@@ -294,12 +295,11 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
     return {};
 }
 
-std::size_t sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
+std::optional<std::size_t> sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
     auto result = std::strtoull(str.data(), nullptr, 10);
     if (errno == ERANGE) {
-        // FIXME: error
-        return 0;
+        return std::nullopt;
     }
     return result;
 }
diff --git a/src/mizugaki/parser/sql_driver.h b/src/mizugaki/parser/sql_driver.h
index b9bac13..366e777 100644
--- a/src/mizugaki/parser/sql_driver.h
+++ b/src/mizugaki/parser/sql_driver.h
@@ -2,6 +2,8 @@
 
 #include <cstddef>
 
+#include <optional>
+
 #include <mizugaki/ast/common/vector.h>
 #include <mizugaki/ast/name/name.h>
 #include <mizugaki/ast/name/simple.h>
@@ -94,7 +96,7 @@ public:
         return result;
     }
 
-    [[nodiscard]] std::size_t to_size(ast::common::chars const& str);
+    [[nodiscard]] std::optional<std::size_t> to_size(ast::common::chars const& str);
 
     [[nodiscard]] bool check_regular_identifier(ast::common::chars const& str);
 
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 747cdb5..c9ce8d7 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -4668,7 +4668,15 @@ size_maybe_flexible
 size
     : UNSIGNED_INTEGER[t]
         {
-            $$ = { driver.to_size($t), @t };
+            auto value = driver.to_size($t);
+            if (!value) {
+                driver.error(
+                        sql_parser_code::syntax_error,
+                        @t,
+                        "the size is out of range");
+                YYABORT;
+            }
+            $$ = { *value, @t };
         }
     ;
 
-- 
2.43.0


From e3545f82cf6d56a93e4d36d9374b1036ea451db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 08/43] fix: parser does not report bytes over 0x7f as control
 characters

---
 src/mizugaki/parser/sql_parser.yy | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index c9ce8d7..51d4aa3 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -183,8 +183,8 @@
 
         // check erroneous token kind
         if (symbol == kind::S_ERROR) {
-            if (image.size() == 1 && image[0] < static_cast<char>(0x20)) {
-                auto c = static_cast<unsigned int>(image[0]);
+            if (image.size() == 1 && static_cast<unsigned char>(image[0]) < 0x20U) {
+                auto c = static_cast<unsigned int>(static_cast<unsigned char>(image[0]));
                 driver.error(
                         sql_parser_code::invalid_character,
                         location,
-- 
2.43.0


From 3a762ef847237c2e6e3eef3f531563deec70e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:46 +0000
Subject: [PATCH 09/43] fix: tree validator also visits function names, aliases
 of UPDATE/DELETE and operands of APPLY

---
 src/mizugaki/parser/sql_tree_validator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/parser/sql_tree_validator.cpp b/src/mizugaki/parser/sql_tree_validator.cpp
index c60d4ff..77ba579 100644
--- a/src/mizugaki/parser/sql_tree_validator.cpp
+++ b/src/mizugaki/parser/sql_tree_validator.cpp
@@ -273,6 +273,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::update_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         for (auto&& clause : element.elements()) { // NOLINT(*-use-anyofallof)
             ACCEPT(clause.target());
             ACCEPT(clause.value());
@@ -283,6 +284,7 @@ public:
 
     [[nodiscard]] bool operator()(ast::statement::delete_statement const& element, std::size_t depth) {
         ACCEPT(element.table_name());
+        ACCEPT(element.alias_name());
         ACCEPT(element.where());
         return true;
     }
@@ -548,6 +550,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::table::apply const& element, std::size_t depth) {
+        ACCEPT(element.operand());
         ACCEPT(element.name());
         ACCEPT(element.arguments());
         ACCEPT(element.correlation().correlation_name());
@@ -672,6 +675,7 @@ public:
     }
 
     [[nodiscard]] bool operator()(ast::scalar::function_invocation const& element, std::size_t depth) {
+        ACCEPT(element.name());
         ACCEPT(element.arguments()); // NOLINT(*-simplify-boolean-expr)
         return true;
     }
-- 
2.43.0


From f478e0aa673d13ca4b11dc906d0b31cc51081024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 10/43] fix: clone of truncate table statements keeps the
 region

---
 src/mizugaki/ast/statement/truncate_table_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/ast/statement/truncate_table_statement.cpp b/src/mizugaki/ast/statement/truncate_table_statement.cpp
index b64e990..445538c 100644
--- a/src/mizugaki/ast/statement/truncate_table_statement.cpp
+++ b/src/mizugaki/ast/statement/truncate_table_statement.cpp
@@ -37,6 +37,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             clone_unique(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
@@ -44,6 +45,7 @@ truncate_table_statement::truncate_table_statement(takatori::util::clone_tag_t,
     truncate_table_statement {
             std::move(other.name_),
             other.identity_column_option_,
+            other.region(),
     }
 {}
 
-- 
2.43.0


From a74b68b446d87378e16bfc424d3507871fd38378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 11/43] fix: parser does not read the max size value as a
 flexible size

---
 src/mizugaki/parser/sql_driver.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 7ec96be..3ca6042 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -298,7 +298,8 @@ sql_driver::node_ptr<ast::type::type> sql_driver::try_build_type(node_ptr<ast::s
 std::optional<std::size_t> sql_driver::to_size(ast::common::chars const& str) { // NOLINT: non-static for calling conv
     errno = 0;
     auto result = std::strtoull(str.data(), nullptr, 10);
-    if (errno == ERANGE) {
+    // NOTE: the max value is reserved for flexible sizes ("*")
+    if (errno == ERANGE || result == static_cast<std::size_t>(-1)) {
         return std::nullopt;
     }
     return result;
-- 
2.43.0


From b092067e31ca975d4ab17418e3fd4a8367c32889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:36 +0000
Subject: [PATCH 12/43] fix: resolve HAVING condition after aggregated columns
 are resolved

---
 .../analyzer/details/analyze_query_expression.cpp     | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b1307dd..59b7634 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -169,6 +169,7 @@ public:
         }
 
         // HAVING ...
+        optional_ptr<trelation::filter> having_filter {};
         if (expr.having()) {
             set_functions.activate();
             auto predicate = analyze_scalar_expression(context_, *expr.having(), scope);
@@ -181,11 +182,10 @@ public:
             if (!set_functions.process(filter.ownership_condition())) {
                 return {};
             }
-            if (!context_.resolve(filter)) {
-                return {};
-            }
+            // NOTE: the condition will be resolved after the aggregated columns have been resolved
             filter.input().connect_to(*output);
             output = filter.output();
+            having_filter = filter;
         }
 
         // SELECT ...
@@ -347,6 +347,11 @@ public:
             if (!aggregate_output) {
                 return {};
             }
+            if (having_filter) {
+                if (!context_.resolve(*having_filter)) {
+                    return {};
+                }
+            }
             if (auto project = select_columns) {
                 if (!context_.resolve(*project)) {
                     return {};
-- 
2.43.0


From dda58935504bc1c952e32c1178a6122c33533839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:26 +0000
Subject: [PATCH 13/43] fix: normalize correlation name of APPLY

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 59b7634..07a956c 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1103,7 +1103,10 @@ public:
             return {};
         }
 
-        relation_info info { {}, correlation.correlation_name()->identifier() };
+        relation_info info {
+                {},
+                normalize_identifier(context_, *correlation.correlation_name(), name_kind::relation),
+        };
         ::tsl::hopscotch_set<std::string> saw_column_names {};
         saw_column_names.reserve(table_type.columns().size());
         for (std::size_t index = 0; index < table_type.columns().size(); ++index) {
-- 
2.43.0


From c7d0c42ad9919cbc510d6b8c94dce156cfb8aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:17 +0000
Subject: [PATCH 14/43] fix: discard stale expression resolutions of common
 table expressions

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 07a956c..1fd3d41 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -788,6 +788,10 @@ public:
             }
         }
 
+        // NOTE: the common table may be disposed before the end of analysis, and always referred as its copies.
+        // We must not keep resolutions for the original expressions.
+        context_.clear_expression_resolution();
+
         auto subquery = std::make_shared<query_info>(
                 std::move(subgraph),
                 std::move(columns),
-- 
2.43.0


From bd89130245308b7d1ac658186ff6666795870be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 15/43] fix: hidden columns do not appear in TABLE query nor
 correlation columns

---
 .../details/analyze_query_expression.cpp      | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 1fd3d41..49070cf 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -416,10 +416,21 @@ public:
                         expr.region());
                 return {};
             }
-            return process_relation_reference(*expr.name(), *parent);
+            return process_table_query(expr, *parent);
         }
         query_scope scope { parent };
-        return process_relation_reference(*expr.name(), scope);
+        return process_table_query(expr, scope);
+    }
+
+    [[nodiscard]] result_type process_table_query(
+            ast::query::table_reference const& expr,
+            query_scope const& scope) {
+        auto result = process_relation_reference(*expr.name(), scope);
+        if (result) {
+            // NOTE: only exported columns appear in the query result
+            remove_hidden_columns(result.relation());
+        }
+        return result;
     }
 
     [[nodiscard]] result_type operator()(
@@ -1495,7 +1506,20 @@ private:
         return result;
     }
 
+    static void remove_hidden_columns(relation_info& info) {
+        for (std::size_t rest = info.columns().size(); rest > 0; --rest) {
+            if (!info.columns()[rest - 1].exported()) {
+                info.erase(rest - 1, rest);
+            }
+        }
+        info.rebuild();
+    }
+
     [[nodiscard]] bool rebuild_relation_info(relation_info& info, ast::table::correlation_clause const& correlation) {
+        if (!correlation.column_names().empty()) {
+            // NOTE: correlation columns only correspond to exported columns
+            remove_hidden_columns(info);
+        }
         if (correlation.column_names().size() > info.columns().size()) {
             context_.report(
                     sql_analyzer_code::inconsistent_columns,
-- 
2.43.0


From 870b57f2683d5b650683986f1cd3deed79fd8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 16/43] fix: HAVING without GROUP BY groups the whole input

---
 .../analyzer/details/set_function_processor.cpp    | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 0d8ee67..d032e28 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -338,14 +338,14 @@ optional_ptr<output_port_type> set_function_processor::install(output_port_type&
         current = arguments_->output();
         arguments_.reset();
     }
-    if (aggregations_) {
-        if (!context_.resolve(*aggregations_)) {
-            return {};
-        }
-        aggregations_->input().connect_to(*current);
-        current = aggregations_->output();
-        aggregations_.reset();
+    // NOTE: groups the input even if there are neither grouping columns nor set functions (e.g. only HAVING is present)
+    auto&& aggregations = aggregations_store();
+    if (!context_.resolve(aggregations)) {
+        return {};
     }
+    aggregations.input().connect_to(*current);
+    current = aggregations.output();
+    aggregations_.reset();
     if (next) {
         current->connect_to(*next);
     }
-- 
2.43.0


From 3ade3d8c360b81a96edbc4f194a12918d4d318c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 17/43] fix: aggregation checks of subqueries allow parameters
 of outer queries

---
 .../analyzer/details/set_function_processor.cpp      | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index d032e28..2f36f10 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -76,12 +76,6 @@ public:
     }
 
     bool operator()(tscalar::variable_reference const& expr, std::size_t depth) {
-        // check only if it is stream variable
-        auto&& variable_info = ::yugawara::binding::unwrap(expr.variable());
-        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
-            return false;
-        }
-
         check_variable(expr.region(), expr.variable(), depth);
         return false;
     }
@@ -90,6 +84,12 @@ public:
             ::takatori::document::region const& region,
             tdescriptor::variable const& variable,
             std::size_t depth) {
+        // check only if it is stream variable
+        auto&& variable_info = ::yugawara::binding::unwrap(variable);
+        if (variable_info.kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
+            return;
+        }
+
         if (depth == 0) {
             // NOTE: in aggregation depth = 0, you can use grouping keys or aggregated values
             if (!processor_.is_grouping(variable) && !processor_.is_aggregated(variable)) {
-- 
2.43.0


From fe719d1dbfb96b373a73db8246e7e57c7b48e570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 18/43] fix: UPDATE SET does not accept hidden columns

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 902366d..120958e 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -488,7 +488,7 @@ public:
 
             auto identifier = normalize_identifier(context_, element.target()->last_name(), name_kind::variable);
             auto column = info.find(identifier);
-            if (!column || !column->declaration()) {
+            if (!column || !column->declaration() || !column->exported()) {
                 context_.report(
                         sql_analyzer_code::column_not_found,
                         string_builder {}
-- 
2.43.0


From 9590e9d1becafd56277e0eb8237c1474cbf9aba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 19/43] fix: set functions in UPDATE SET, VALUES, and APPLY are
 diagnosed

---
 .../details/analyze_query_expression.cpp         | 16 +++++++++++++++-
 .../analyzer/details/analyze_statement.cpp       |  7 +++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 49070cf..b2404bf 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -472,7 +472,14 @@ public:
                     if (!elem) {
                         return {};
                     }
-                    // FIXME: can appear agg func if this is in a sub-query
+                    if (elem.saw_aggregate()) {
+                        // FIXME: can appear agg func if this is in a sub-query
+                        context_.report(
+                                sql_analyzer_code::unsupported_feature,
+                                "aggregated function in VALUES is not supported",
+                                elem_expr->region());
+                        return {};
+                    }
                     row.push_back(elem.release());
                     ++index;
                 }
@@ -1041,6 +1048,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in APPLY clause is not supported",
+                        arg->region());
+                return {};
+            }
             auto type = context_.resolve(*value);
             if (!type) {
                 return {};
diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 120958e..d77ef99 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -525,6 +525,13 @@ public:
             if (!value) {
                 return {};
             }
+            if (value.saw_aggregate()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "aggregated function in UPDATE SET clause is not supported",
+                        element.value()->region());
+                return {};
+            }
 
             projections.emplace_back(variable, value.release());
 
-- 
2.43.0


From f1982163d791a0ebf5bdcd5f07eeff05003f0cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:01 +0000
Subject: [PATCH 20/43] fix: UPDATE and DELETE of tables without primary keys
 are diagnosed

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index d77ef99..db052a1 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -472,6 +472,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error
+        }
 
         ::tsl::hopscotch_set<::yugawara::storage::column const*> saw_columns { stmt.elements().size() };
         auto projections = create_vector<trelation::project::column>(stmt.elements().size());
@@ -582,6 +585,9 @@ public:
         }
 
         auto write_keys = build_write_keys(info, stmt.table_name()->region());
+        if (write_keys.empty()) {
+            return {}; // error
+        }
 
         auto&& op_write = graph->insert(context_.create<trelation::write>(
                 stmt.table_name()->region(),
-- 
2.43.0


From a16bc1a26ad96eea99c64cb6ae3974d700328d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 21/43] fix: ORDER BY with NULLS FIRST/LAST is rejected instead
 of ignoring it

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index b2404bf..530b5e7 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -253,6 +253,7 @@ public:
                             sql_analyzer_code::unsupported_feature,
                             "NULLS FIRST/LAST in ORDER BY is not yet supported",
                             spec.region());
+                    return {};
                 }
                 auto result = analyze_scalar_expression(context_, *spec.key(), scope);
                 if (!result) {
-- 
2.43.0


From 710662a4f680de5551fde3bf23d81c1d88da1594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:13 +0000
Subject: [PATCH 22/43] fix: unsupported index parameters and insert options
 are rejected instead of ignoring them

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index db052a1..e7686ad 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -409,6 +409,7 @@ public:
                                 sql_analyzer_code::malformed_syntax,
                                 "multiple insert options are not supported",
                                 option.region());
+                        return {};
                     }
                     saw = true;
                     result = to::insert_skip;
@@ -419,6 +420,7 @@ public:
                                 sql_analyzer_code::malformed_syntax,
                                 "multiple insert options are not supported",
                                 option.region());
+                        return {};
                     }
                     saw = true;
                     result = to::insert_overwrite;
@@ -1248,6 +1250,7 @@ public:
                     sql_analyzer_code::malformed_syntax,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
+            return {};
         }
 
         query_scope scope {};
@@ -1364,6 +1367,7 @@ public:
                     sql_analyzer_code::unsupported_feature,
                     "index parameters are not supported yet",
                     stmt.parameters().at(0).name()->region());
+            return {};
         }
 
         // check existing
-- 
2.43.0


From 841b81d1a7f4952de593b9b7d219e2322a2833e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 23/43] fix: bare DECIMAL with an invalid default precision no
 longer dereferences an absent precision

---
 src/mizugaki/analyzer/details/analyze_type.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_type.cpp b/src/mizugaki/analyzer/details/analyze_type.cpp
index 7832d29..80c78bc 100644
--- a/src/mizugaki/analyzer/details/analyze_type.cpp
+++ b/src/mizugaki/analyzer/details/analyze_type.cpp
@@ -212,7 +212,7 @@ public:
             context_.report(
                     sql_analyzer_code::invalid_type_length,
                     "decimal type precision must not be zero",
-                    type.precision().value().region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region(type));
             return {};
         }
         if (precision && precision > options().max_decimal_precision()) {
@@ -222,7 +222,7 @@ public:
                             << "too large decimal precision: " << precision.value()
                             << " (max precision is " << options().max_decimal_precision() << ")"
                             << string_builder::to_string,
-                    type.precision()->region()); // NOLINT(bugprone-unchecked-optional-access) - checked because it is non-default value
+                    precision_region(type));
             return {};
         }
         if (scale && scale.value() > precision.value_or(options().max_decimal_precision())) {
@@ -368,6 +368,14 @@ private:
         return *context_.options();
     }
     
+    [[nodiscard]] static ast::node_region precision_region(ast::type::decimal const& type) {
+        // NOTE: the precision comes from the default value if it is absent
+        if (auto precision = type.precision()) {
+            return precision->region();
+        }
+        return type.region();
+    }
+
     template<class Type>
     [[nodiscard]] result_type build(ast::type::type const& source, Type&& type) {
         static_assert(std::is_rvalue_reference_v<decltype(type)>);
-- 
2.43.0


From 845890fb734526246e214e3f0de065284828189f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 24/43] fix: the smallest 64-bit integer literal no longer
 overflows while negated

---
 src/mizugaki/analyzer/details/analyze_literal.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_literal.cpp b/src/mizugaki/analyzer/details/analyze_literal.cpp
index 44a7463..d94565e 100644
--- a/src/mizugaki/analyzer/details/analyze_literal.cpp
+++ b/src/mizugaki/analyzer/details/analyze_literal.cpp
@@ -265,10 +265,10 @@ private:
             if (triple.coefficient_high() == 0
                 && ((triple.coefficient_low() <= positive_max)
                     || (triple.sign() < 0 && triple.coefficient_low() <= negative_max))) {
-                integer = static_cast<std::int64_t>(triple.coefficient_low());
-                if (triple.sign() < 0) {
-                    integer = -*integer;
-                }
+                // NOTE: negate it as unsigned value, to avoid overflow for the minimum value
+                integer = static_cast<std::int64_t>(triple.sign() < 0
+                        ? 0 - triple.coefficient_low()
+                        : triple.coefficient_low());
             }
             if (integer) {
                 if (context_.options()->prefer_small_integer_literals()) {
-- 
2.43.0


From 1f4bf8269231719ba1ff7a8bd30961a6aaced894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 25/43] fix: source ranges of literals, set elements and cast
 operators cover the right text

---
 src/mizugaki/parser/sql_driver.cpp |  1 +
 src/mizugaki/parser/sql_parser.yy  | 25 +++++++++++++------------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/mizugaki/parser/sql_driver.cpp b/src/mizugaki/parser/sql_driver.cpp
index 3ca6042..30e39c0 100644
--- a/src/mizugaki/parser/sql_driver.cpp
+++ b/src/mizugaki/parser/sql_driver.cpp
@@ -403,6 +403,7 @@ sql_driver::try_fold_literal(node_ptr<ast::scalar::expression> expression) {
     } else {
         value.sign() = { ast::literal::sign::minus, unary.operator_kind().region() };
     }
+    value.region() = expression->region();
     unary.operand()->region() = expression->region();
 
     return std::move(unary.operand());
diff --git a/src/mizugaki/parser/sql_parser.yy b/src/mizugaki/parser/sql_parser.yy
index 51d4aa3..a7b7da8 100644
--- a/src/mizugaki/parser/sql_parser.yy
+++ b/src/mizugaki/parser/sql_parser.yy
@@ -2038,6 +2038,7 @@ set_clause
             $$ = ast::statement::set_element {
                     $n,
                     $e,
+                    @$,
             };
         }
     ;
@@ -2242,10 +2243,10 @@ privilege_object
                     @$
             };
         }
-    | TABLE table_name[n]
+    | TABLE[k] table_name[n]
         {
             $$ = ast::statement::privilege_object {
-                    regioned { ast::statement::privilege_object_kind::table, @$ },
+                    regioned { ast::statement::privilege_object_kind::table, @k },
                     $n,
                     @$
             };
@@ -3452,10 +3453,10 @@ scalar_value_expression
                     @$);
         }
     // PostgreSQL style cast
-    | value_expression_primary[e] "::" data_type[t]
+    | value_expression_primary[e] "::"[o] data_type[t]
         {
             $$ = driver.node<ast::scalar::cast_expression>(
-                    regioned { ast::scalar::cast_operator::cast },
+                    regioned { ast::scalar::cast_operator::cast, @o },
                     $e,
                     $t,
                     @$);
@@ -3707,10 +3708,10 @@ value_expression_primary
                     @$);
         }
     // 6.11 <method invocation> - <generalized invocation>
-    | "(" value_expression[e] AS data_type[t] ")"
+    | "(" value_expression[e] AS[o] data_type[t] ")"
         {
             $$ = driver.node<ast::scalar::cast_expression>(
-                    regioned { ast::scalar::cast_operator::generalize },
+                    regioned { ast::scalar::cast_operator::generalize, @o },
                     $e,
                     $t,
                     @$);
@@ -4201,10 +4202,10 @@ sql_argument
         {
             $$ = $e;
         }
-    | value_expression[e] AS data_type[t]
+    | value_expression[e] AS[o] data_type[t]
         {
             $$ = driver.node<ast::scalar::cast_expression>(
-                    regioned { ast::scalar::cast_operator::generalize },
+                    regioned { ast::scalar::cast_operator::generalize, @o },
                     $e,
                     $t,
                     @$);
@@ -4250,7 +4251,7 @@ literal
             $$ = driver.node<ast::literal::numeric>(
                     ast::literal::kind::exact_numeric,
                     std::nullopt,
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | APPROXIMATE_NUMERIC_LITERAL[t]
@@ -4258,7 +4259,7 @@ literal
             $$ = driver.node<ast::literal::numeric>(
                     ast::literal::kind::approximate_numeric,
                     std::nullopt,
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | CHARACTER_STRING_LITERAL[t] concatenations_list_opt[c]
@@ -4281,7 +4282,7 @@ literal
         {
             $$ = driver.node<ast::literal::datetime>(
                     regioned { ast::literal::kind::date, @k },
-                    $t,
+                    regioned { $t, @t },
                     @$);
         }
     | TIME[k] with_or_without_time_zone_opt[z] CHARACTER_STRING_LITERAL[t]
@@ -4341,7 +4342,7 @@ unsigned_integer
              $$ = driver.node<ast::literal::numeric>(
                      ast::literal::kind::exact_numeric,
                      std::nullopt,
-                     $t,
+                     regioned { $t, @t },
                      @$);
          }
      ;
-- 
2.43.0


From 70a359c236f6772bf5a0b4af4bc3ac4e722dec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 26/43] fix: CREATE TEMPORARY TABLE is rejected instead of
 creating an ordinary table

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index e7686ad..069fd2a 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -703,6 +703,13 @@ public:
 
     [[nodiscard]] result_type operator()(ast::statement::table_definition const& stmt) { // NOLINT(*-function-cognitive-complexity)
         // check features
+        if (auto opt = find(stmt.options(), ast::statement::table_definition_option::temporary)) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "temporary tables are not supported yet",
+                    opt->region());
+            return {};
+        }
         if (!stmt.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
-- 
2.43.0


From f3c185f8e78ee341dfddcaf831ec238b3c19db5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 27/43] fix: unsupported options of column level PRIMARY KEY
 are rejected instead of ignored

---
 .../analyzer/details/analyze_statement.cpp     | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 069fd2a..2781ba4 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -810,6 +810,9 @@ public:
                                     constraint.region());
                             return {};
                         }
+                        if (!check_key_constraint(unsafe_downcast<ast::statement::key_constraint>(constraint))) {
+                            return {};
+                        }
                         prototype->criteria().nullity(~::yugawara::variable::nullable);
                         primary_key_column.reset(prototype.get());
                         break;
@@ -1241,22 +1244,29 @@ public:
         return {};
     }
 
-    [[nodiscard]] std::shared_ptr<::yugawara::storage::index> process_primary_key(
-            ast::statement::key_constraint const& constraint,
-            std::shared_ptr<::yugawara::storage::table const> table) {
+    [[nodiscard]] bool check_key_constraint(ast::statement::key_constraint const& constraint) {
         // check features
         if (!constraint.values().empty()) {
             context_.report(
                     sql_analyzer_code::unsupported_feature,
                     "index values are not supported yet",
                     constraint.values().at(0)->region());
-            return {};
+            return false;
         }
         if (!constraint.parameters().empty()) {
             context_.report(
                     sql_analyzer_code::malformed_syntax,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
+            return false;
+        }
+        return true;
+    }
+
+    [[nodiscard]] std::shared_ptr<::yugawara::storage::index> process_primary_key(
+            ast::statement::key_constraint const& constraint,
+            std::shared_ptr<::yugawara::storage::table const> table) {
+        if (!check_key_constraint(constraint)) {
             return {};
         }
 
-- 
2.43.0


From 41b8ada45b01b7a32e1e92360b7cfc08147fc124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 28/43] fix: COLLATE of index keys is rejected instead of
 ignored

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 2781ba4..7038ea3 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1305,6 +1305,14 @@ public:
                 return {};
             }
 
+            if (auto&& p = key.collation()) {
+                context_.report(
+                        sql_analyzer_code::unsupported_feature,
+                        "index key element with collation is not supported",
+                        p->region());
+                return {};
+            }
+
             auto result = analyze_scalar_expression(
                     context_,
                     *key.key(),
-- 
2.43.0


From 67b733a69f480d7ec307dee403d8dbc9300bd801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:35 +0000
Subject: [PATCH 29/43] fix: the diagnostic of a missing column in ALTER TABLE
 RENAME COLUMN points to the column

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 7038ea3..6d2765f 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1575,7 +1575,7 @@ public:
                             << table->simple_name()
                             << "\""
                             << string_builder::to_string,
-                    action.replacement()->region());
+                    action.column_name()->region());
             return {};
         }
         if (find_column(*table, *action.replacement())) {
-- 
2.43.0


From ba13840e8b4860e137785399f5d37c90394651e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 30/43] fix: sequence parameters of identity columns leave no
 type information behind

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 6d2765f..5c4f974 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1182,6 +1182,8 @@ public:
         if (!result) {
             return {};
         }
+        // NOTE: the expression is disposed after extracting its value
+        context_.clear_expression_resolution(result.value());
         if (result.value().kind() == ::takatori::scalar::expression_kind::immediate) {
             auto&& data = unsafe_downcast<::takatori::scalar::immediate>(result.value()).value();
             using ::takatori::value::value_kind;
-- 
2.43.0


From f1767d71429e37dd3fd54851c6a900054455155a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 31/43] fix: EXCEPT and INTERSECT resolve their column types
 like UNION does

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 530b5e7..e6c4863 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -693,6 +693,9 @@ public:
                 std::move(mappings)));
         result.left() << left.output();
         result.right() << right.output();
+        if (!context_.resolve(result)) {
+            return {};
+        }
         return { result.output(), std::move(output_info) };
     }
 
-- 
2.43.0


From d182aac80f7dffb9132af8e8773ccb866689aa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:43 +0000
Subject: [PATCH 32/43] fix: an upsert over a primary index without keys is
 reported as missing primary index

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 5c4f974..95dc93e 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -691,7 +691,7 @@ public:
         }
         if (write_keys.empty()) {
             context_.report(
-                    sql_analyzer_code::unknown,
+                    sql_analyzer_code::primary_index_not_found,
                     string_builder {}
                             << "primary index has no keys: " << index->table().simple_name()
                             << string_builder::to_string,
-- 
2.43.0


From 5299df3591048405d6b052f3a92994bdc0c59d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:33 +0000
Subject: [PATCH 33/43] fix: the columns of SELECT * must be grouping columns
 if the query is aggregated

---
 .../details/analyze_query_expression.cpp        | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index e6c4863..aef5b6b 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -191,6 +191,7 @@ public:
         // SELECT ...
         relation_info info;
         optional_ptr<trelation::project> select_columns {};
+        std::vector<std::pair<tdescriptor::variable, ast::node_region>> asterisk_columns {};
         {
             auto&& project = graph_.emplace<trelation::project>(std::vector<trelation::project::column> {});
             project.columns().reserve(std::min(expr.elements().size(), std::size_t { 8 }));
@@ -199,10 +200,16 @@ public:
                         expr.elements().front()->region() | expr.elements().back()->region());
             }
             for (auto&& e : expr.elements()) {
+                auto offset = info.columns().size();
                 auto select = dispatch(*e, scope, project, info);
                 if (!select.success) {
                     return {};
                 }
+                if (e->node_kind() == ast::query::select_asterisk::tag) {
+                    for (std::size_t i = offset, n = info.columns().size(); i < n; ++i) {
+                        asterisk_columns.emplace_back(info.columns()[i].variable(), e->region());
+                    }
+                }
                 if (select.saw_aggregate) {
                     set_functions.activate();
                 }
@@ -328,6 +335,16 @@ public:
             }
         }
         if (set_functions.active()) {
+            // NOTE: the columns of asterisks are not in the projection
+            for (auto&& [variable, region] : asterisk_columns) {
+                if (!set_functions.is_grouping(variable)) {
+                    context_.report(
+                            sql_analyzer_code::invalid_aggregation_column,
+                            "column must be aggregated",
+                            region);
+                    return {};
+                }
+            }
             if (auto project = select_columns) {
                 for (auto&& column : project->columns()) {
                     if (!set_functions.process(column.ownership_value())) {
-- 
2.43.0


From b326315232cebb54742f1d738363445a1ddf343f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:55 +0000
Subject: [PATCH 34/43] fix: GROUP BY accepts only the columns of the FROM
 clause

---
 .../analyzer/details/analyze_query_expression.cpp        | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index aef5b6b..73973e1 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -32,6 +32,7 @@
 #include <takatori/util/string_builder.h>
 
 #include <yugawara/binding/factory.h>
+#include <yugawara/binding/variable_info.h>
 
 #include <yugawara/extension/relation/subquery.h>
 
@@ -1360,6 +1361,14 @@ public:
                     elem.region());
             return false;
         }
+        if (::yugawara::binding::unwrap(*variable).kind() != ::yugawara::binding::variable_info_kind::stream_variable) {
+            // NOTE: neither outer references nor external variables can be a group key
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "column of the FROM clause is required in GROUP BY clause",
+                    elem.region());
+            return false;
+        }
         processor.add_group_key(*variable);
         return true;
     }
-- 
2.43.0


From 4bfa93efffda5a5da2c3f2ae3eabd8eee7217ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:38 +0000
Subject: [PATCH 35/43] fix: join conditions see only the columns of the joined
 operands

---
 .../details/analyze_query_expression.cpp      | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index 73973e1..d1be00e 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1656,7 +1656,7 @@ private:
 
         optional_ptr<output_port> output {};
         for (auto&& elem : elements) {
-            auto next = dispatch(*elem, scope);
+            auto next = output ? process_joined_operand(*elem, scope) : dispatch(*elem, scope);
             if (!next) {
                 return {};
             }
@@ -1676,6 +1676,21 @@ private:
         return output;
     }
 
+    [[nodiscard]] optional_ptr<output_port> process_joined_operand(
+            ast::table::expression const& expr,
+            query_scope& scope) {
+        // NOTE: the expressions in the operand must not refer the columns of its siblings
+        query_scope operand_scope { scope, {} };
+        auto result = dispatch(expr, operand_scope);
+        if (!result) {
+            return {};
+        }
+        for (auto&& relation : operand_scope.references()) {
+            scope.add(std::move(relation));
+        }
+        return result;
+    }
+
     [[nodiscard]] static optional_ptr<ast::scalar::value_constructor const> as_row_value_constructor(
             ast::scalar::expression const& expr) {
         if (expr.node_kind() == ast::scalar::value_constructor::tag) {
@@ -1706,7 +1721,7 @@ private:
             return {};
         }
         auto pivot = scope.create_pivot();
-        auto right = dispatch(*expr.right(), scope);
+        auto right = process_joined_operand(*expr.right(), scope);
         if (!right) {
             return {};
         }
-- 
2.43.0


From 5ea173dbec7a4ba1af0beac1d3d690d7077d6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:16 +0000
Subject: [PATCH 36/43] fix: references to set function results keep the
 location of the call

---
 src/mizugaki/analyzer/details/set_function_processor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/set_function_processor.cpp b/src/mizugaki/analyzer/details/set_function_processor.cpp
index 2f36f10..784091f 100644
--- a/src/mizugaki/analyzer/details/set_function_processor.cpp
+++ b/src/mizugaki/analyzer/details/set_function_processor.cpp
@@ -368,9 +368,12 @@ void set_function_processor::consume(ownership_reference<tscalar::expression> ex
         arguments.emplace_back(std::move(replacement));
     }
 
+    auto region = invocation.region();
     auto existing = find_aggregation(invocation.function(), arguments);
     if (existing) {
-        expression.set(std::make_unique<tscalar::variable_reference>(*existing));
+        auto reference = std::make_unique<tscalar::variable_reference>(*existing);
+        reference->region() = region;
+        expression.set(std::move(reference));
     } else {
         // FIXME: add debug string
         auto replacement = ::yugawara::binding::factory {}.stream_variable();
@@ -378,7 +381,9 @@ void set_function_processor::consume(ownership_reference<tscalar::expression> ex
                 std::move(invocation.function()),
                 std::move(arguments),
                 replacement);
-        expression.set(std::make_unique<tscalar::variable_reference>(replacement));
+        auto reference = std::make_unique<tscalar::variable_reference>(replacement);
+        reference->region() = region;
+        expression.set(std::move(reference));
         aggregated_columns_.insert(std::move(replacement));
     }
 }
-- 
2.43.0


From 5d31db47bf1c76db788eafc328f957e819651a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:19 +0000
Subject: [PATCH 37/43] fix: names in sibling relations hid variables of the
 enclosing queries and schemas

---
 .../analyzer/details/analyze_name.cpp         | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_name.cpp b/src/mizugaki/analyzer/details/analyze_name.cpp
index f0aaab2..cdc0e3a 100644
--- a/src/mizugaki/analyzer/details/analyze_name.cpp
+++ b/src/mizugaki/analyzer/details/analyze_name.cpp
@@ -843,12 +843,28 @@ private:
         if (found) {
             return { scoped_variable_info { std::move(*found), scope } };
         }
-        if (auto parent = scope.parent()) {
+        if (auto parent = find_exposed_parent(scope, false)) {
             return find_variable_in_query(*parent, name);
         }
         return {};
     }
 
+    // NOTE: names in not exposed scopes (e.g. of siblings in the same FROM clause) must not hide the others
+    [[nodiscard]] static optional_ptr<query_scope const> find_exposed_parent(
+            query_scope const& scope,
+            bool allow_independent) {
+        for (optional_ptr<query_scope const> current { scope }; current; current = current->parent()) {
+            if (!allow_independent && current->features().contains(query_scope_feature::independent)) {
+                return {};
+            }
+            auto parent = current->parent();
+            if (parent && parent->features().contains(query_scope_feature::expose)) {
+                return parent;
+            }
+        }
+        return {};
+    }
+
     void report_column_ambiguous(ast::name::name const& name) {
         context_.report(sql_analyzer_code::column_ambiguous,
                 string_builder {}
@@ -915,7 +931,7 @@ private:
         if (r) {
             return { scoped_relation_info { *r, query } };
         }
-        if (auto parent = query.parent()) {
+        if (auto parent = find_exposed_parent(query, true)) {
             return find_relation_info_in_query(*parent, name);
         }
         return {};
-- 
2.43.0


From da5f5933e5cf422e0b272ae69312d4865c980372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 38/43] fix: overload resolution depended on the order of
 candidates

---
 .../details/analyze_scalar_expression.cpp      | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index c3d1980..6a4de73 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -1544,13 +1544,26 @@ public:
             analyzer_context& context,
             std::vector<std::shared_ptr<TDecl>> const& candidates,
             ast::node_region region) {
+        // find for the most specific candidate, or just one of them if it does not exist
         std::size_t left_idx = 0;
         for (std::size_t right_idx = 1, n = candidates.size(); right_idx < n; ++right_idx) {
+            auto const* left = candidates[left_idx].get();
+            auto const* right = candidates[right_idx].get();
+            if (is_applicable(right->shared_parameter_types(), left->shared_parameter_types()) &&
+                    !is_applicable(left->shared_parameter_types(), right->shared_parameter_types())) {
+                left_idx = right_idx;
+            }
+        }
+        // then validate that it is more specific than any others
+        for (std::size_t right_idx = 0, n = candidates.size(); right_idx < n; ++right_idx) {
+            if (left_idx == right_idx) {
+                continue;
+            }
             auto const* left = candidates[left_idx].get();
             auto const* right = candidates[right_idx].get();
             auto forward_applicable = is_applicable(left->shared_parameter_types(), right->shared_parameter_types());
             auto reverse_applicable = is_applicable(right->shared_parameter_types(), left->shared_parameter_types());
-            if (forward_applicable == reverse_applicable) {
+            if (!forward_applicable || reverse_applicable) {
                 string_builder builder {};
                 builder << "ambiguous function overload: "
                         << left->name()
@@ -1564,9 +1577,6 @@ public:
                         region);
                 return {};
             }
-            if (reverse_applicable) {
-                left_idx = right_idx;
-            }
         }
         return candidates[left_idx];
     }
-- 
2.43.0


From 5a6890a52316ff79df76ec4002ca9fbcec7161ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:39 +0000
Subject: [PATCH 39/43] fix: ambiguous EXTRACT was reported without a location

---
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index 6a4de73..de16424 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -480,7 +480,10 @@ public:
             argument_types.emplace_back(std::move(operand_type));
         }
 
-        ast::name::simple function_name { extract_function_name(expr.field()) };
+        ast::name::simple function_name {
+                ast::name::simple::identifier_type { extract_function_name(expr.field()) },
+                expr.field().region(),
+        };
         auto function_list = analyze_function_name(context_, function_name, arguments.size());
         std::vector<std::shared_ptr<::yugawara::function::declaration const>> function_candidates {};
         function_candidates.reserve(function_list.size());
-- 
2.43.0


From 1dcc6ccca8865f30daa887f70c312409ca4ff1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:28 +0000
Subject: [PATCH 40/43] fix: TREAT and generalized casts were analyzed as
 ordinary casts

---
 src/mizugaki/analyzer/details/analyze_scalar_expression.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
index de16424..37a9c94 100644
--- a/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_scalar_expression.cpp
@@ -239,6 +239,7 @@ public:
                             << expr.operator_kind()
                             << string_builder::to_string,
                     expr.operator_kind().region());
+            return {};
         }
         auto operand = process(*expr.operand(), {});
         if (!operand) {
-- 
2.43.0


From faec9cedd202ea801a8872e10af98281647090c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:30 +0000
Subject: [PATCH 41/43] fix: collation of a GROUP BY column was silently
 ignored

---
 src/mizugaki/analyzer/details/analyze_query_expression.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/mizugaki/analyzer/details/analyze_query_expression.cpp b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
index d1be00e..6891ec8 100644
--- a/src/mizugaki/analyzer/details/analyze_query_expression.cpp
+++ b/src/mizugaki/analyzer/details/analyze_query_expression.cpp
@@ -1342,6 +1342,13 @@ public:
             ast::query::grouping_column const& elem,
             set_function_processor& processor,
             query_scope& scope) {
+        if (elem.collation()) {
+            context_.report(
+                    sql_analyzer_code::unsupported_feature,
+                    "collation in GROUP BY is not yet supported",
+                    elem.region());
+            return false;
+        }
         auto r = analyze_scalar_expression(context_, *elem.column(), scope);
         if (!r) {
             return {};
-- 
2.43.0


From 5562bcd5d6a2bbeea0ee04fc52600c4cedcb7aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:42 +0000
Subject: [PATCH 42/43] fix: index parameters of a primary key were reported as
 malformed syntax

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 95dc93e..01e3f77 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -1257,7 +1257,7 @@ public:
         }
         if (!constraint.parameters().empty()) {
             context_.report(
-                    sql_analyzer_code::malformed_syntax,
+                    sql_analyzer_code::unsupported_feature,
                     "index parameters are not supported yet",
                     constraint.parameters().at(0).name()->region());
             return false;
-- 
2.43.0


From 9229d0e791d2276191e9910f7fb69931bb7067af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:26 +0000
Subject: [PATCH 43/43] fix: do not access absent targets of SELECT statements
 without queries

---
 src/mizugaki/analyzer/details/analyze_statement.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mizugaki/analyzer/details/analyze_statement.cpp b/src/mizugaki/analyzer/details/analyze_statement.cpp
index 01e3f77..ff71bb2 100644
--- a/src/mizugaki/analyzer/details/analyze_statement.cpp
+++ b/src/mizugaki/analyzer/details/analyze_statement.cpp
@@ -143,7 +143,7 @@ public:
             context_.report(
                     sql_analyzer_code::malformed_syntax,
                     "SELECT statement must have a query expression",
-                    stmt.targets().at(0).region());
+                    stmt.region());
             return {};
         }
 
-- 
2.43.0

