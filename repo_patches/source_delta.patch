From b57e58f0be27b2f89e2ca4d93daa065e191bc89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:40 +0000
Subject: [PATCH 01/11] fix: replace whole operator token when it has an
 alternative spelling

A C++ operator may be spelled 'and', 'not', 'bitand', etc. The rewriter
replaced as many characters as the canonical spelling has, leaving the
rest of the alternative token behind in the mutated file.
---
 src/libdredd/src/mutation_replace_binary_operator.cc | 7 ++++---
 src/libdredd/src/mutation_replace_unary_operator.cc  | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 3373707..420b8a0 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -28,6 +28,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -656,9 +657,9 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   // Replace the operator symbol with ","
   rewriter.ReplaceText(
       binary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::BinaryOperator::getOpcodeStr(binary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(binary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       ",");
 
   // These record the text that should be inserted before and after the LHS and
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 5782279..bf3b79b 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -24,6 +24,7 @@
 #include "clang/AST/Type.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Lex/Lexer.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation_replace_expr.h"
@@ -411,9 +412,9 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   // Remove the operator symbol.
   rewriter.ReplaceText(
       unary_operator_->getOperatorLoc(),
-      static_cast<unsigned int>(
-          clang::UnaryOperator::getOpcodeStr(unary_operator_->getOpcode())
-              .size()),
+      clang::Lexer::MeasureTokenLength(unary_operator_->getOperatorLoc(),
+                                       ast_context.getSourceManager(),
+                                       ast_context.getLangOpts()),
       "");
 
   // These record the text that should be inserted before and after the operand.
-- 
2.43.0


From ce88fd0139fdf6467be8679c1b7fe04dd1f94ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:40 +0000
Subject: [PATCH 02/11] fix: do not mutate operators whose token comes from a
 macro

The operator token could not be replaced, but the operands were still
turned into call arguments, so the mutated file did not compile.
---
 src/libdredd/src/mutate_visitor.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index 604f7c9..aa1ab88 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -38,6 +38,7 @@
 #include "clang/Basic/Builtins.h"
 #include "clang/Basic/LangOptions.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/SourceManager.h"
 #include "clang/Basic/TypeTraits.h"
 #include "clang/Frontend/CompilerInstance.h"
 #include "libdredd/mutation.h"
@@ -443,6 +444,16 @@ void MutateVisitor::HandleBinaryOperator(
     return;
   }
 
+  // Mutating the operator requires its token to be replaced, which is not
+  // possible if the token comes from a macro expansion. The exception is a
+  // logical operator in C, which is left in place.
+  if ((compiler_instance_->getLangOpts().CPlusPlus ||
+       !binary_operator->isLogicalOp()) &&
+      !compiler_instance_->getSourceManager().isWrittenInMainFile(
+          binary_operator->getOperatorLoc())) {
+    return;
+  }
+
   // We only want to change operators for binary operations on basic types.
   // Check that the argument types are supported.
   if (!IsTypeSupported(binary_operator->getLHS()->getType())) {
-- 
2.43.0


From ef43ca0ab339423314421b52f7a9d83faab97933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:40 +0000
Subject: [PATCH 03/11] fix: do not mutate __extension__, __real and __imag
 expressions

Dredd crashed on these, as they are UnaryOperator nodes that are not
supported by MutationReplaceUnaryOperator.
---
 src/libdredd/src/mutate_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libdredd/src/mutate_visitor.cc b/src/libdredd/src/mutate_visitor.cc
index aa1ab88..d89a2fb 100644
--- a/src/libdredd/src/mutate_visitor.cc
+++ b/src/libdredd/src/mutate_visitor.cc
@@ -382,6 +382,14 @@ void MutateVisitor::HandleUnaryOperator(clang::UnaryOperator* unary_operator) {
     return;
   }
 
+  // The '__extension__', '__real' and '__imag' markers are represented as
+  // unary operators, but are not supported for mutation.
+  if (unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Extension ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Real ||
+      unary_operator->getOpcode() == clang::UnaryOperatorKind::UO_Imag) {
+    return;
+  }
+
   // Check that the argument type is supported
   if (!IsTypeSupported(unary_operator->getSubExpr()->getType())) {
     return;
-- 
2.43.0


From ee0bee32235b72b89c73e535e6f02b94e9191cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 04/11] fix: do not record coverage for mutator functions
 without mutants

When optimisations leave no mutants at a site, the local mutation id
passed to the mutator function is that of the next site with mutants (or
one past the end). Recording coverage of zero mutants marked that id as
already recorded, so that the coverage of the next site was lost.
---
 src/libdredd/src/mutation_replace_binary_operator.cc | 2 +-
 src/libdredd/src/mutation_replace_expr.cc            | 2 +-
 src/libdredd/src/mutation_replace_unary_operator.cc  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 420b8a0..1eac26f 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -502,7 +502,7 @@ std::string MutationReplaceBinaryOperator::GenerateMutatorFunction(
                               mutation_id, new_function, mutation_id_offset,
                               protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 7dec481..314c667 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -496,7 +496,7 @@ std::string MutationReplaceExpr::GenerateMutatorFunction(
       ast_context, optimise_mutations, only_track_mutant_coverage, mutation_id,
       new_function, mutation_id_offset, protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index bf3b79b..62289a9 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -230,7 +230,7 @@ std::string MutationReplaceUnaryOperator::GenerateMutatorFunction(
       only_track_mutant_coverage, mutation_id, new_function, mutation_id_offset,
       protobuf_message);
 
-  if (only_track_mutant_coverage) {
+  if (only_track_mutant_coverage && mutation_id_offset > 0) {
     new_function << "  __dredd_record_covered_mutants(local_mutation_id, " +
                         std::to_string(mutation_id_offset) + ");\n";
   }
-- 
2.43.0


From 63bc9c2c638e0812deb19a04526ecf3496ab39c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 05/11] fix: tolerate an unwritable tracking file in the C
 tracking prelude

The C++ prelude silently ignores a file that cannot be opened, but the C
prelude passed a null FILE* to fprintf, crashing the program.
---
 src/libdredd/src/mutate_ast_consumer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 568e5ea..8e46e01 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -456,6 +456,7 @@ std::string MutateAstConsumer::GetMutantTrackingDreddPreludeC(
             "getenv(\"DREDD_MUTANT_TRACKING_FILE\");\n";
   result << "  if (!dredd_tracking_environment_variable) return;\n";
   result << "  FILE* fp = fopen(dredd_tracking_environment_variable, \"a\");\n";
+  result << "  if (!fp) return;\n";
   result << "  for (int i = 0; i < num_mutations; i++) {\n";
   result << R"(    fprintf(fp, "%d\n", )" + std::to_string(initial_mutation_id)
          << " + local_mutation_id + i);\n";
-- 
2.43.0


From d8b66e15683948ed9d96c7627f2a07b755b7ebf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:42 +0000
Subject: [PATCH 06/11] fix: keep the value of negative and enumeration
 template arguments

A negative argument was rewritten to its unsigned 64-bit value, and an
enumerator to an integer literal, neither of which is a valid argument.
---
 .../include/libdredd/mutate_ast_consumer.h         |  3 ++-
 src/libdredd/src/mutate_ast_consumer.cc            | 14 +++++++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
index 0f06a8f..1344fe0 100644
--- a/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
+++ b/src/libdredd/include_private/include/libdredd/mutate_ast_consumer.h
@@ -66,7 +66,8 @@ class MutateAstConsumer : public clang::ASTConsumer {
   void RewriteExpressionsInMainFile();
 
   bool RewriteExpressionInMainFileToIntegerConstant(const clang::Expr* expr,
-                                                    uint64_t integer_constant);
+                                                    uint64_t integer_constant,
+                                                    bool is_negative = false);
 
   void ApplyMutations(
       const MutationTreeNode& dredd_mutation_tree_node, int initial_mutation_id,
diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 8e46e01..0a8540a 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -224,18 +224,26 @@ void MutateAstConsumer::RewriteExpressionsInMainFile() {
       continue;
     }
     already_rewritten.insert(constant_argument_expresion);
+    if (constant_argument_expresion->getType()->isEnumeralType()) {
+      // An integer literal cannot be used in place of an enumerator.
+      continue;
+    }
     if (const auto integer_const_expr =
             constant_argument_expresion->getIntegerConstantExpr(
                 compiler_instance_->getASTContext())) {
       // Argument is an integer constant
+      const bool is_negative = integer_const_expr->isNegative();
       RewriteExpressionInMainFileToIntegerConstant(
-          constant_argument_expresion, integer_const_expr->getLimitedValue());
+          constant_argument_expresion,
+          (is_negative ? -*integer_const_expr : *integer_const_expr)
+              .getLimitedValue(),
+          is_negative);
     }
   }
 }
 
 bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
-    const clang::Expr* expr, uint64_t integer_constant) {
+    const clang::Expr* expr, uint64_t integer_constant, bool is_negative) {
   auto source_range_in_main_file =
       GetSourceRangeInMainFile(compiler_instance_->getPreprocessor(), *expr);
 
@@ -243,7 +251,7 @@ bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
     std::stringstream stringstream;
-    stringstream << integer_constant;
+    stringstream << (is_negative ? "-" : "") << integer_constant;
     rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
     return true;
   }
-- 
2.43.0


From 1b6d3ffe4eab5165307b2e2f3b2afe36b685c779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:31 +0000
Subject: [PATCH 07/11] fix: separate mutator calls from a preceding identifier
 character

Operators that directly follow a keyword or macro, as in 'else++x;', led
to the mutator function's name being conjoined with it. Only
MutationReplaceExpr catered for this.
---
 src/libdredd/include/libdredd/util.h          |  8 +++++++
 .../src/mutation_replace_binary_operator.cc   | 18 +++++++++++++--
 src/libdredd/src/mutation_replace_expr.cc     | 23 +------------------
 .../src/mutation_replace_unary_operator.cc    |  8 +++++++
 src/libdredd/src/util.cc                      | 19 +++++++++++++++
 5 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/src/libdredd/include/libdredd/util.h b/src/libdredd/include/libdredd/util.h
index bfea16b..ebab47f 100644
--- a/src/libdredd/include/libdredd/util.h
+++ b/src/libdredd/include/libdredd/util.h
@@ -22,6 +22,7 @@
 #include "clang/AST/ParentMapContext.h"
 #include "clang/AST/Stmt.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/SourceManager.h"
 #include "clang/Lex/Preprocessor.h"
 #include "llvm/ADT/APFloat.h"
 
@@ -67,6 +68,13 @@ template <typename HasSourceRange>
 bool SourceRangeConsistencyCheck(clang::SourceRange source_range,
                                  const clang::ASTContext& ast_context);
 
+// Determines whether the character immediately before the start of the given
+// range could belong to an identifier, in which case an identifier must not be
+// inserted at the start of the range without preceding it with a space.
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::SourceManager& source_manager,
+    const clang::SourceRange& source_range);
+
 // Delegates to Expr::EvaluateAsBooleanCondition, but only if the expression is
 // not value-dependent.
 bool EvaluateAsBooleanCondition(const clang::Expr& expr,
diff --git a/src/libdredd/src/mutation_replace_binary_operator.cc b/src/libdredd/src/mutation_replace_binary_operator.cc
index 1eac26f..2cc3567 100644
--- a/src/libdredd/src/mutation_replace_binary_operator.cc
+++ b/src/libdredd/src/mutation_replace_binary_operator.cc
@@ -696,6 +696,13 @@ void MutationReplaceBinaryOperator::ReplaceOperator(
   }
   rhs_suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
+  // Insert a space before the function call if the preceding character could
+  // belong to an identifier, as in "else*p = 1;".
+  if (PrecedingCharacterIsIdentifierCharacter(ast_context.getSourceManager(),
+                                              lhs_source_range_in_main_file)) {
+    lhs_prefix = " " + lhs_prefix;
+  }
+
   // The prefixes and suffixes are ready, so make the relevant insertions.
   bool rewriter_result = rewriter.InsertTextBefore(
       lhs_source_range_in_main_file.getBegin(), lhs_prefix);
@@ -833,8 +840,15 @@ void MutationReplaceBinaryOperator::HandleCLogicalOperator(
     auto source_range_binary_operator =
         GetSourceRangeInMainFile(preprocessor, *binary_operator_);
     const std::string outer_function_name = new_function_prefix + "_outer";
-    rewriter.InsertTextBefore(source_range_binary_operator.getBegin(),
-                              outer_function_name + "(");
+    // As for other binary operators, a space is inserted before the function
+    // call if the preceding character could belong to an identifier.
+    rewriter.InsertTextBefore(
+        source_range_binary_operator.getBegin(),
+        (PrecedingCharacterIsIdentifierCharacter(
+             preprocessor.getSourceManager(), source_range_binary_operator)
+             ? " "
+             : "") +
+            outer_function_name + "(");
     rewriter.InsertTextAfterToken(
         source_range_binary_operator.getEnd(),
         ", " + std::to_string(mutation_id - first_mutation_id_in_file) + ")");
diff --git a/src/libdredd/src/mutation_replace_expr.cc b/src/libdredd/src/mutation_replace_expr.cc
index 314c667..a7d7140 100644
--- a/src/libdredd/src/mutation_replace_expr.cc
+++ b/src/libdredd/src/mutation_replace_expr.cc
@@ -15,7 +15,6 @@
 #include "libdredd/mutation_replace_expr.h"
 
 #include <cassert>
-#include <cctype>
 #include <sstream>
 
 #include "clang/AST/APValue.h"
@@ -37,26 +36,6 @@
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Casting.h"
 
-namespace {
-bool PrecedingCharacterIsIdentifierCharacter(
-    const clang::ASTContext& ast_context,
-    const clang::SourceRange& source_range) {
-  bool is_invalid = false;
-  const char* pointer_to_character_before_location =
-      ast_context.getSourceManager().getCharacterData(
-          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
-  if (is_invalid) {
-    return false;
-  }
-  // There is a previous character. Check whether it is alphanumeric, or an
-  // underscore.
-  const char character_before_location =
-      pointer_to_character_before_location[0];
-  return character_before_location == '_' ||
-         static_cast<bool>(std::isalnum(character_before_location));
-}
-}  // namespace
-
 namespace dredd {
 dredd::MutationReplaceExpr::MutationReplaceExpr(
     const clang::Expr& expr, const clang::Preprocessor& preprocessor,
@@ -624,7 +603,7 @@ void MutationReplaceExpr::ReplaceExprWithFunctionCall(
   // expression being mutated comes right after a macro. If this happens, then
   // unless a space is added, the function name gets conjoined onto the macro
   // name, leading to invalid code.
-  if (PrecedingCharacterIsIdentifierCharacter(ast_context,
+  if (PrecedingCharacterIsIdentifierCharacter(ast_context.getSourceManager(),
                                               expr_source_range_in_main_file)) {
     prefix = " " + prefix;
   }
diff --git a/src/libdredd/src/mutation_replace_unary_operator.cc b/src/libdredd/src/mutation_replace_unary_operator.cc
index 62289a9..fb56900 100644
--- a/src/libdredd/src/mutation_replace_unary_operator.cc
+++ b/src/libdredd/src/mutation_replace_unary_operator.cc
@@ -448,6 +448,14 @@ protobufs::MutationGroup MutationReplaceUnaryOperator::Apply(
   }
   suffix.append(", " + std::to_string(local_mutation_id) + ")");
 
+  // Insert a space before the function call if the preceding character could
+  // belong to an identifier, as in "else++x;".
+  if (PrecedingCharacterIsIdentifierCharacter(
+          ast_context.getSourceManager(),
+          unary_operator_source_range_in_main_file)) {
+    prefix = " " + prefix;
+  }
+
   // The prefix and suffix are ready, so make the relevant insertions.
   bool rewriter_result = rewriter.InsertTextBefore(
       unary_operator_source_range_in_main_file.getBegin(), prefix);
diff --git a/src/libdredd/src/util.cc b/src/libdredd/src/util.cc
index 2165a07..21c9298 100644
--- a/src/libdredd/src/util.cc
+++ b/src/libdredd/src/util.cc
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cctype>
 #include <utility>
 
 #include "clang/AST/ASTContext.h"
@@ -213,4 +214,22 @@ bool IsCxx11ConstantExpr(const clang::Expr& expr,
   return {begin_loc_in_main_file, end_loc_in_main_file};
 }
 
+bool PrecedingCharacterIsIdentifierCharacter(
+    const clang::SourceManager& source_manager,
+    const clang::SourceRange& source_range) {
+  bool is_invalid = false;
+  const char* pointer_to_character_before_location =
+      source_manager.getCharacterData(
+          source_range.getBegin().getLocWithOffset(-1), &is_invalid);
+  if (is_invalid) {
+    return false;
+  }
+  // There is a previous character. Check whether it is alphanumeric, or an
+  // underscore.
+  const char character_before_location =
+      pointer_to_character_before_location[0];
+  return character_before_location == '_' ||
+         static_cast<bool>(std::isalnum(character_before_location));
+}
+
 }  // namespace dredd
-- 
2.43.0


From 44c723fc95a61bf164079dd5115ee2bf0cf3e53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:26:31 +0000
Subject: [PATCH 08/11] fix: keep statement wrappers intact when the next
 statement follows without space

The closing brace of the wrapper was inserted at the offset at which the next
statement starts; text inserted before that statement then ended up in front of
the closing brace, so that removing a statement affected the wrong code, or the
mutated file did not compile (e.g. 'x = 1;y++;').
---
 src/libdredd/src/mutation_remove_stmt.cc | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 7a5be63..3339497 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -20,6 +20,7 @@
 #include <unordered_set>
 
 #include "clang/AST/ASTContext.h"
+#include "clang/AST/Expr.h"
 #include "clang/AST/Stmt.h"
 #include "clang/Basic/SourceLocation.h"
 #include "clang/Basic/TokenKinds.h"
@@ -30,6 +31,7 @@
 #include "clang/Tooling/Transformer/SourceCode.h"
 #include "libdredd/options.h"
 #include "libdredd/util.h"
+#include "llvm/Support/Casting.h"
 
 namespace dredd {
 
@@ -147,8 +149,25 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // line, but this would make mutated files harder to read.
       to_insert = "\n" + to_insert;
     }
-    rewriter_result =
-        rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    clang::Token last_token{};
+    if (is_extended_with_semi ||
+        (!llvm::isa<clang::Expr>(stmt_) && !llvm::isa<clang::ReturnStmt>(stmt_) &&
+         !clang::Lexer::getRawToken(source_range.getEnd(), last_token,
+                                    preprocessor.getSourceManager(),
+                                    preprocessor.getLangOpts()) &&
+         last_token.is(clang::tok::TokenKind::r_brace))) {
+      // Attach the closing text to the semicolon or brace that ends the
+      // statement, rather than inserting it afterwards: if the next statement
+      // follows without any white space, text that is inserted before that
+      // statement would otherwise end up before the closing text.
+      rewriter_result = rewriter.ReplaceText(
+          source_range.getEnd(),
+          is_extended_with_semi ? 1 : last_token.getLength(),
+          (is_extended_with_semi ? ";" : "}") + to_insert);
+    } else {
+      rewriter_result =
+          rewriter.InsertTextAfterToken(source_range.getEnd(), to_insert);
+    }
     assert(!rewriter_result && "Rewrite failed.\n");
     (void)rewriter_result;  // Keep release-mode compilers happy.
   }
-- 
2.43.0


From 475e418a5fc3d935b3f9e9f6334b672183a10977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:58:47 +0000
Subject: [PATCH 09/11] fix: recognise a repeated input file under a different
 path spelling

A file given as 'a.c' and '../dir/a.c' was processed twice in one run: the
second pass instrumented the already instrumented file.
---
 .../src/new_mutate_frontend_action_factory.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/libdredd/src/new_mutate_frontend_action_factory.cc b/src/libdredd/src/new_mutate_frontend_action_factory.cc
index dee7212..58c8df8 100644
--- a/src/libdredd/src/new_mutate_frontend_action_factory.cc
+++ b/src/libdredd/src/new_mutate_frontend_action_factory.cc
@@ -26,7 +26,10 @@
 #include "clang/Tooling/Tooling.h"
 #include "libdredd/mutate_ast_consumer.h"
 #include "libdredd/options.h"
+#include "llvm/ADT/SmallString.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/Support/FileSystem.h"
+#include "llvm/Support/Path.h"
 #include "llvm/Support/raw_ostream.h"
 
 namespace dredd {
@@ -54,8 +57,20 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
     (void)input_exists;  // Keep release-mode compilers happy.
     assert(input_exists && "No current file.");
 
+    // Identify the file by the canonical path of its directory, and its name, so
+    // that different spellings of the path to a file are recognised as denoting
+    // the same file.
+    llvm::SmallString<128> canonical_path;
+    if (llvm::sys::fs::real_path(
+            llvm::sys::path::parent_path(getCurrentFile()), canonical_path)) {
+      canonical_path = getCurrentFile();
+    } else {
+      llvm::sys::path::append(canonical_path,
+                              llvm::sys::path::filename(getCurrentFile()));
+    }
+
     // Check whether this file has already been processed.
-    if (processed_files_->contains(getCurrentFile().str())) {
+    if (processed_files_->contains(canonical_path.str().str())) {
       llvm::errs() << "Warning: already processed " << getCurrentFile()
                    << "; skipping repeat occurrence.\n";
       return false;
@@ -63,7 +78,7 @@ class MutateFrontendAction : public clang::ASTFrontendAction {
 
     // Record that this file has been processed so that duplicate processing
     // will be detected in the future.
-    processed_files_->insert(getCurrentFile().str());
+    processed_files_->insert(canonical_path.str().str());
     return true;
   }
 
-- 
2.43.0


From 8570ce83d6fc0e12b3b26ccdbb2bda6abb737212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:29 +0000
Subject: [PATCH 10/11] fix: keep the value of the smallest 64-bit integer when
 rewriting constants

---
 src/libdredd/src/mutate_ast_consumer.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/libdredd/src/mutate_ast_consumer.cc b/src/libdredd/src/mutate_ast_consumer.cc
index 0a8540a..4cad1cd 100644
--- a/src/libdredd/src/mutate_ast_consumer.cc
+++ b/src/libdredd/src/mutate_ast_consumer.cc
@@ -15,6 +15,7 @@
 #include "libdredd/mutate_ast_consumer.h"
 
 #include <cassert>
+#include <cstdint>
 #include <optional>
 #include <set>
 #include <sstream>
@@ -251,7 +252,14 @@ bool MutateAstConsumer::RewriteExpressionInMainFileToIntegerConstant(
   // expression is in the main source file.
   if (source_range_in_main_file.isValid()) {
     std::stringstream stringstream;
-    stringstream << (is_negative ? "-" : "") << integer_constant;
+    const uint64_t kMagnitudeOfSmallest64BitInteger = uint64_t{1} << 63U;
+    if (is_negative && integer_constant == kMagnitudeOfSmallest64BitInteger) {
+      // The magnitude of the smallest 64-bit integer is not itself a valid
+      // signed literal, so negating it does not yield the required value.
+      stringstream << "(-" << (integer_constant - 1U) << " - 1)";
+    } else {
+      stringstream << (is_negative ? "-" : "") << integer_constant;
+    }
     rewriter_.ReplaceText(source_range_in_main_file, stringstream.str());
     return true;
   }
-- 
2.43.0


From 0968338632a62e11b021505fff8962f4f0c23da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:20 +0000
Subject: [PATCH 11/11] fix: terminate a wrapped statement whose semicolon
 comes from a macro

---
 .../include/libdredd/mutation_remove_stmt.h   | 13 ++++---
 src/libdredd/src/mutation_remove_stmt.cc      | 36 ++++++++++++-------
 2 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/src/libdredd/include/libdredd/mutation_remove_stmt.h b/src/libdredd/include/libdredd/mutation_remove_stmt.h
index a9426dc..672280c 100644
--- a/src/libdredd/include/libdredd/mutation_remove_stmt.h
+++ b/src/libdredd/include/libdredd/mutation_remove_stmt.h
@@ -21,6 +21,7 @@
 #include "clang/AST/ASTContext.h"
 #include "clang/AST/Stmt.h"
 #include "clang/Basic/SourceLocation.h"
+#include "clang/Basic/TokenKinds.h"
 #include "clang/Lex/Preprocessor.h"
 #include "clang/Rewrite/Core/Rewriter.h"
 #include "libdredd/mutation.h"
@@ -44,12 +45,14 @@ class MutationRemoveStmt : public Mutation {
 
  private:
   // Helper method to determine whether the token immediately following the
-  // given source range is the '#' token. This is useful for working around
+  // given source range has the given kind. This is useful for working around
   // issues where the placement of semicolons at the end of a statement that is
-  // wrapped in a conditional is challenging, due to a preprocessor directive
-  // occurring between the end of a statement and its associated semicolon.
-  static bool IsNextTokenHash(const clang::CharSourceRange& source_range,
-                              const clang::Preprocessor& preprocessor);
+  // wrapped in a conditional is challenging, due to a preprocessor directive or
+  // macro occurring between the end of a statement and its associated
+  // semicolon.
+  static bool IsNextToken(clang::tok::TokenKind token_kind,
+                          const clang::CharSourceRange& source_range,
+                          const clang::Preprocessor& preprocessor);
 
   const clang::Stmt* stmt_;
   InfoForSourceRange info_for_source_range_;
diff --git a/src/libdredd/src/mutation_remove_stmt.cc b/src/libdredd/src/mutation_remove_stmt.cc
index 3339497..d502d5e 100644
--- a/src/libdredd/src/mutation_remove_stmt.cc
+++ b/src/libdredd/src/mutation_remove_stmt.cc
@@ -63,6 +63,17 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
   clang::CharSourceRange source_range = clang::CharSourceRange::getTokenRange(
       GetSourceRangeInMainFile(preprocessor, *stmt_));
 
+  // Determine whether the statement ends with a closing brace, in which case it
+  // does not need a semicolon. The brace that ends an initializer list is of no
+  // interest here.
+  clang::Token last_token{};
+  const bool ends_with_brace =
+      !llvm::isa<clang::Expr>(stmt_) && !llvm::isa<clang::ReturnStmt>(stmt_) &&
+      !clang::Lexer::getRawToken(source_range.getEnd(), last_token,
+                                 preprocessor.getSourceManager(),
+                                 preprocessor.getLangOpts()) &&
+      last_token.is(clang::tok::TokenKind::r_brace);
+
   // If the statement is followed immediately by a semicolon, possibly with
   // intervening comments, that semicolon should be part of the code that is
   // wrapped in an 'if'.
@@ -124,7 +135,10 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
             std::to_string(local_mutation_id) + ")) { ");
     assert(!rewriter_result && "Rewrite failed.\n");
     std::string to_insert = " }";
-    if (!is_extended_with_semi && IsNextTokenHash(source_range, preprocessor)) {
+    if (!is_extended_with_semi &&
+        (IsNextToken(clang::tok::TokenKind::hash, source_range, preprocessor) ||
+         (!ends_with_brace && IsNextToken(clang::tok::TokenKind::raw_identifier,
+                                          source_range, preprocessor)))) {
       // If we did not extend the range to capture an immediately-following
       // semicolon, then we could have a problem if the statement is separated
       // from its semicolon by a preprocessor directive. For example:
@@ -137,7 +151,9 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // If we find a hash token - indicative of a preprocessor directive -
       // having not extended the range with a semicolon, we conservatively add
       // a semicolon to ensure that the code in the conditional that is
-      // introduced is well-formed.
+      // introduced is well-formed. We do likewise if we find an identifier,
+      // since it may be a macro that provides the semicolon or separates the
+      // statement from it.
       to_insert = "; " + to_insert;
     }
     if (is_extended_with_comment && !is_extended_with_semi) {
@@ -149,13 +165,8 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
       // line, but this would make mutated files harder to read.
       to_insert = "\n" + to_insert;
     }
-    clang::Token last_token{};
     if (is_extended_with_semi ||
-        (!llvm::isa<clang::Expr>(stmt_) && !llvm::isa<clang::ReturnStmt>(stmt_) &&
-         !clang::Lexer::getRawToken(source_range.getEnd(), last_token,
-                                    preprocessor.getSourceManager(),
-                                    preprocessor.getLangOpts()) &&
-         last_token.is(clang::tok::TokenKind::r_brace))) {
+        (ends_with_brace && !is_extended_with_comment)) {
       // Attach the closing text to the semicolon or brace that ends the
       // statement, rather than inserting it afterwards: if the next statement
       // follows without any white space, text that is inserted before that
@@ -179,19 +190,20 @@ protobufs::MutationGroup MutationRemoveStmt::Apply(
   return result;
 }
 
-bool MutationRemoveStmt::IsNextTokenHash(
+bool MutationRemoveStmt::IsNextToken(
+    clang::tok::TokenKind token_kind,
     const clang::CharSourceRange& source_range,
     const clang::Preprocessor& preprocessor) {
   const clang::CharSourceRange source_range_as_char_range =
       clang::Lexer::getAsCharRange(source_range,
                                    preprocessor.getSourceManager(),
                                    preprocessor.getLangOpts());
-  clang::Token maybe_hash{};
+  clang::Token next_token{};
   return !clang::Lexer::getRawToken(source_range_as_char_range.getEnd(),
-                                    maybe_hash, preprocessor.getSourceManager(),
+                                    next_token, preprocessor.getSourceManager(),
                                     preprocessor.getLangOpts(),
                                     /*IgnoreWhiteSpace=*/true) &&
-         maybe_hash.is(clang::tok::TokenKind::hash);
+         next_token.is(token_kind);
 }
 
 }  // namespace dredd
-- 
2.43.0

