From 6405d63526df08ff186d1a79c9370c041e4cd59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:17 +0000
Subject: [PATCH 01/92] fix: escape double quotes in quoted identifiers

---
 treeno/builder/convert.py | 3 ++-
 treeno/util.py            | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f454929..ecf4b0c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -956,7 +956,8 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitQuotedIdentifier(
         self, ctx: SqlBaseParser.QuotedIdentifierContext
     ) -> str:
-        return ctx.getText().strip('"')
+        # Only drop the enclosing quotes, the quotes inside are written twice
+        return ctx.getText()[1:-1].replace('""', '"')
 
     @overrides
     def visitUnquotedIdentifier(
diff --git a/treeno/util.py b/treeno/util.py
index 3c67115..7bbc8b8 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -22,7 +22,9 @@ T = TypeVar("T")
 
 
 def quote_identifier(identifier: str) -> str:
-    return f'"{identifier}"'
+    # A double quote within a quoted identifier is written twice
+    escaped = identifier.replace('"', '""')
+    return f'"{escaped}"'
 
 
 def parenthesize(val: Any) -> str:
-- 
2.43.0


From 26d0a43b6ddd37363ccc15880a4aeecc3c159402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:26 +0000
Subject: [PATCH 02/92] fix: escape single quotes in string literals

---
 treeno/builder/convert.py | 7 ++++++-
 treeno/util.py            | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index ecf4b0c..ea6f66c 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -161,6 +161,11 @@ def table_from_qualifiers(qualifiers: List[str]) -> Table:
     return Table(name=name, schema=schema, catalog=catalog)
 
 
+def string_from_token(text: str) -> str:
+    """Drops the enclosing quotes of a string token and unescapes the quotes inside, which are written twice"""
+    return text[1:-1].replace("''", "'")
+
+
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
@@ -732,7 +737,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitBasicStringLiteral(
         self, ctx: SqlBaseParser.BasicStringLiteralContext
     ) -> str:
-        return ctx.getText().strip("'")
+        return string_from_token(ctx.STRING().getText())
 
     @overrides
     def visitUnicodeStringLiteral(
diff --git a/treeno/util.py b/treeno/util.py
index 7bbc8b8..8121a28 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -44,7 +44,9 @@ def chain_identifiers(*identifiers: Optional[str], join_string=".") -> str:
 
 
 def quote_literal(literal: str) -> str:
-    return f"'{literal}'"
+    # A single quote within a string literal is written twice
+    escaped = literal.replace("'", "''")
+    return f"'{escaped}'"
 
 
 def nth(
-- 
2.43.0


From a68972a27ed39f8c47a7d222f9de1ad6607acc18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:04 +0000
Subject: [PATCH 03/92] fix: decode unicode string literals

---
 treeno/builder/convert.py | 46 +++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index ea6f66c..4d8b44d 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1,6 +1,7 @@
 """
 Converts from our grammar into a buildable query tree.
 """
+import re
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
@@ -166,6 +167,34 @@ def string_from_token(text: str) -> str:
     return text[1:-1].replace("''", "'")
 
 
+def decode_unicode_escapes(text: str, escape: str) -> str:
+    """Decodes the content of a unicode string literal. The escape character is followed by either four hexadecimal
+    digits, a plus sign and six hexadecimal digits, or another escape character to stand for itself.
+    """
+    if len(escape) != 1 or re.match("[0-9a-fA-F+'\"\\s]", escape):
+        raise ValueError(f"Invalid unicode escape character {escape!r}")
+
+    def decode(match: "re.Match") -> str:
+        sequence = match.group(1)
+        if sequence == escape:
+            return escape
+        if not sequence:
+            raise ValueError(f"Invalid unicode escape sequence in {text!r}")
+        code_point = int(sequence.lstrip("+"), 16)
+        if 0xD800 <= code_point <= 0xDFFF:
+            raise ValueError(f"Invalid escaped character {sequence!r}")
+        return chr(code_point)
+
+    return re.sub(
+        re.escape(escape)
+        + r"(\+[0-9a-fA-F]{6}|[0-9a-fA-F]{4}|"
+        + re.escape(escape)
+        + r"|)",
+        decode,
+        text,
+    )
+
+
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
@@ -745,19 +774,12 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> str:
         if ctx.UESCAPE():
             assert ctx.STRING(), "Escape string must be supplied for unicode"
-            escape_seq = ctx.STRING().getText().strip("'")
+            escape = string_from_token(ctx.STRING().getText())
         else:
-            escape_seq = "\\"
-        s = (
-            ctx.UNICODE_STRING()
-            .getText()
-            .strip("U&")
-            .strip("'")
-            .replace(escape_seq, "\\u")
-            .encode("raw_unicode_escape")
-            .decode("unicode_escape")
-        )
-        return s
+            escape = "\\"
+        # Drop the U& prefix
+        text = string_from_token(ctx.UNICODE_STRING().getText()[2:])
+        return decode_unicode_escapes(text, escape)
 
     @overrides
     def visitBooleanLiteral(
-- 
2.43.0


From 2c60255d87d6cd1147483affc7d646be9d43af62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 04/92] fix: keep newlines inside of quoted text when padding

---
 treeno/printer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/treeno/printer.py b/treeno/printer.py
index 9eb88d5..a7d6cfd 100644
--- a/treeno/printer.py
+++ b/treeno/printer.py
@@ -4,6 +4,7 @@ StatementPrinter complies with sqlstyle.guide.
 Note that none of these printers are explicitly responsible for calling sql(). They should work only with the
 primitive str representation.
 """
+import re
 from typing import Dict, List
 
 import attr
@@ -13,11 +14,15 @@ from treeno.base import PrintMode, PrintOptions
 
 def pad(input: str, spaces: int) -> str:
     """Pads the input lines with spaces except for the first line.
-    We don't need opts here because the default mode will always be a single line so we'll never invoke this.
+    We don't need opts here because the default mode will always be a single line so there is nothing to pad.
     """
-    lines = input.splitlines()
     pad = " " * spaces
-    return f"\n{pad}".join(lines)
+    # Newlines inside of quoted strings and identifiers are content, not formatting
+    return re.sub(
+        r"""('[^']*'|"[^"]*")|\n""",
+        lambda match: match.group(1) or f"\n{pad}",
+        input,
+    )
 
 
 def join_stmts(
-- 
2.43.0


From 03cff2033fcc21b9ded16b8b1d18b44cb26b24e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:39 +0000
Subject: [PATCH 05/92] fix: parenthesize predicates nested in predicates

---
 treeno/expression.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 8e969a7..846e9eb 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -455,14 +455,15 @@ def pemdas_str(
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering.
     if current_precedence == val_precedence:
-        if is_left:
+        # Predicates take value expressions as operands, so they can't be chained, i.e. (1 = 2) IS NULL
+        if is_left and current_precedence != PREDICATE_PRECEDENCE:
             return val.sql(opts)
         else:
-            return parenthesize(val)
+            return parenthesize(val.sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val)
+        return parenthesize(val.sql(opts))
     return val.sql(opts)
 
 
@@ -629,7 +630,7 @@ class NotEqual(BinaryExpression):
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
         if negate:
-            return str(Equal(self.left, self.right))
+            return Equal(self.left, self.right).sql(opts)
         return builtin_binary_str(self, "{left} <> {right}", opts)
 
     def sql(self, opts: PrintOptions) -> str:
@@ -840,8 +841,7 @@ class Like(Expression):
             like_str += " NOT"
         like_str += f" LIKE {pemdas_str(type(self), self.pattern, opts)}"
         if self.escape:
-            # TODO: Should we pemdas this? I don't see it in the specs
-            like_str += f" ESCAPE {self.escape.sql(opts)}"
+            like_str += f" ESCAPE {pemdas_str(type(self), self.escape, opts)}"
         return like_str
 
     def sql(self, opts: PrintOptions) -> str:
@@ -1047,6 +1047,7 @@ class Case(Expression):
 # https://docs.oracle.com/cd/B19306_01/server.102/b14200/conditions001.htm#i1034834
 # Still waiting to hear back about Trino's custom precedence:
 # https://trinodb.slack.com/archives/CFLB9AMBN/p1637528834018300
+PREDICATE_PRECEDENCE = 4
 OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Positive: 8,
     Negative: 8,
@@ -1062,14 +1063,17 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     GreaterThanOrEqual: 4,
     LessThan: 4,
     LessThanOrEqual: 4,
-    IsNull: 3,
-    Like: 3,
-    Between: 3,
-    InList: 3,
-    InQuery: 3,
+    IsNull: 4,
+    DistinctFrom: 4,
+    Like: 4,
+    Between: 4,
+    InList: 4,
+    InQuery: 4,
     Not: 2,
     And: 1,
     Or: 0,
+    # The body of a lambda extends as far as possible
+    Lambda: -1,
 }
 
 # Use this instead of wrap_literal(None), which we explicitly disallow
-- 
2.43.0


From fc92d6bbbb4ff91ba47345f2e3fedd2be3ce0143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:48 +0000
Subject: [PATCH 06/92] fix: keep unary minus apart from numbers and other
 minuses

---
 treeno/expression.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index 846e9eb..06119cf 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -517,6 +517,12 @@ class Negative(UnaryExpression):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions) -> str:
+        # Two consecutive minuses are a comment, and a minus followed by a number is a negative literal
+        if isinstance(self.value, Negative) or (
+            isinstance(self.value, Literal)
+            and not isinstance(self.value.value, str)
+        ):
+            return f"-{parenthesize(self.value.sql(opts))}"
         return builtin_unary_str(self, "-{value}", opts)
 
 
-- 
2.43.0


From 8a0ef7891742f9d1097d0a1f16e34d429fa74816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:56 +0000
Subject: [PATCH 07/92] fix: parenthesize queries used as values

---
 treeno/expression.py          | 41 ++++++++++++++++++++---------------
 treeno/functions/aggregate.py |  6 ++---
 treeno/functions/base.py      |  2 +-
 treeno/groupby.py             |  8 +++----
 treeno/orderby.py             |  2 +-
 treeno/relation.py            | 17 +++++++++------
 treeno/window.py              |  4 ++--
 7 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 06119cf..56b705a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -150,6 +150,13 @@ class Value(Sql, ABC):
     def __or__(self, other):
         return Or(self, other)
 
+    def operand_sql(self, opts: PrintOptions) -> str:
+        """SQL string of the value as a part of another expression or clause.
+
+        This is the same as :func:`Sql.sql` except for queries, which have to be parenthesized to be used as values.
+        """
+        return self.sql(opts)
+
     def identifier(self) -> Optional[str]:
         """Identifier for the value.
 
@@ -285,7 +292,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.sql(opts)} "{self.alias}"'
+        return f'{self.value.operand_sql(opts)} "{self.alias}"'
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -403,7 +410,7 @@ class Lambda(Expression):
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
         if len(self.inputs) > 1:
             input_string = parenthesize(input_string)
-        return f"{input_string} -> {self.expr.sql(opts)}"
+        return f"{input_string} -> {self.expr.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.inputs:
@@ -450,21 +457,21 @@ def pemdas_str(
         current_type not in OPERATOR_PRECEDENCE
         or val_type not in OPERATOR_PRECEDENCE
     ):
-        return val.sql(opts)
+        return val.operand_sql(opts)
     current_precedence = OPERATOR_PRECEDENCE[current_type]
     val_precedence = OPERATOR_PRECEDENCE[val_type]
     # The expression's precedence is the same, so we must obey left-to-right ordering.
     if current_precedence == val_precedence:
         # Predicates take value expressions as operands, so they can't be chained, i.e. (1 = 2) IS NULL
         if is_left and current_precedence != PREDICATE_PRECEDENCE:
-            return val.sql(opts)
+            return val.operand_sql(opts)
         else:
-            return parenthesize(val.sql(opts))
+            return parenthesize(val.operand_sql(opts))
 
     # The underlying value's precedence is lower, BUT it's deeper in the tree, which means we need to parenthesize it.
     if val_precedence < current_precedence:
-        return parenthesize(val.sql(opts))
-    return val.sql(opts)
+        return parenthesize(val.operand_sql(opts))
+    return val.operand_sql(opts)
 
 
 @value_attr
@@ -522,7 +529,7 @@ class Negative(UnaryExpression):
             isinstance(self.value, Literal)
             and not isinstance(self.value.value, str)
         ):
-            return f"-{parenthesize(self.value.sql(opts))}"
+            return f"-{parenthesize(self.value.operand_sql(opts))}"
         return builtin_unary_str(self, "-{value}", opts)
 
 
@@ -774,7 +781,7 @@ class Array(Expression):
         return cls(vals)
 
     def sql(self, opts: PrintOptions) -> str:
-        values_str = join_stmts([val.sql(opts) for val in self.values], opts)
+        values_str = join_stmts([val.operand_sql(opts) for val in self.values], opts)
         return f"ARRAY[{values_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -814,7 +821,7 @@ class InList(Expression):
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        expr_list = join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+        expr_list = join_stmts([expr.operand_sql(opts) for expr in self.exprs], opts)
         in_list_string = pemdas_str(type(self), self.value, opts)
         if negate:
             in_list_string += " NOT"
@@ -902,7 +909,7 @@ class RowConstructor(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         values_string = join_stmts(
-            [value.sql(opts) for value in self.values], opts
+            [value.operand_sql(opts) for value in self.values], opts
         )
         return f"({values_string})"
 
@@ -947,7 +954,7 @@ class Cast(Expression):
         assert self.data_type != unknown(), "data_type must be defined for Cast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"CAST({self.expr.operand_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -963,7 +970,7 @@ class TryCast(Expression):
         ), "data_type must be defined for TryCast"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"TRY_CAST({self.expr.sql(opts)} AS {self.data_type.sql(opts)})"
+        return f"TRY_CAST({self.expr.operand_sql(opts)} AS {self.data_type.sql(opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.expr)
@@ -975,7 +982,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.sql(opts)}[{self.index.sql(opts)}]"
+        return f"{self.value.operand_sql(opts)}[{self.index.operand_sql(opts)}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -992,7 +999,7 @@ class When(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"WHEN {self.condition.sql(opts)} THEN {self.value.sql(opts)}"
+        return f"WHEN {self.condition.operand_sql(opts)} THEN {self.value.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.condition)
@@ -1007,7 +1014,7 @@ class Else(Sql):
         self.data_type = self.value.data_type
 
     def sql(self, opts: PrintOptions):
-        return f"ELSE {self.value.sql(opts)}"
+        return f"ELSE {self.value.operand_sql(opts)}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -1036,7 +1043,7 @@ class Case(Expression):
             spacing + spacing.join([cond.sql(opts) for cond in conds]), 4
         )
         end_string = spacing + "END"
-        value_string = self.value.sql(opts) if self.value is not None else ""
+        value_string = self.value.operand_sql(opts) if self.value is not None else ""
         return f"CASE {value_string}{branches_string}{end_string}"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 75720e6..526011a 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -46,7 +46,7 @@ class AggregateFunction(Function, ABC):
         constraint_builder = StatementPrinter()
         if self.filter_:
             constraint_builder.add_entry(
-                "FILTER", f"(WHERE {self.filter_.sql(opts)})"
+                "FILTER", f"(WHERE {self.filter_.operand_sql(opts)})"
             )
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
@@ -63,7 +63,7 @@ class AggregateFunction(Function, ABC):
         )
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.operand_sql(opts) for value in values], opts)
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -244,7 +244,7 @@ class ListAgg(AggregateFunction):
         self.data_type = varchar()
 
     def sql(self, opts: PrintOptions) -> str:
-        value_string = self.value.sql(opts)
+        value_string = self.value.operand_sql(opts)
         if self.separator != self.DEFAULT_SEPARATOR:
             value_string = join_stmts(
                 [value_string, quote_literal(self.separator)], opts
diff --git a/treeno/functions/base.py b/treeno/functions/base.py
index 76b8e12..4677d7b 100644
--- a/treeno/functions/base.py
+++ b/treeno/functions/base.py
@@ -56,7 +56,7 @@ class Function(Expression, ABC):
         return cls(*values, **kwargs)
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
-        arg_string = join_stmts([value.sql(opts) for value in values], opts)
+        arg_string = join_stmts([value.operand_sql(opts) for value in values], opts)
         return f"{FUNCTIONS_TO_NAMES[type(self)]}({arg_string})"
 
 
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6e46521..2f3f2e8 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -44,8 +44,8 @@ class GroupingSet(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         if len(self.values) == 1:
-            return self.values[0].sql(opts)
-        return f"({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            return self.values[0].operand_sql(opts)
+        return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
@@ -90,7 +90,7 @@ class Cube(Group):
 
     def sql(self, opts: PrintOptions) -> str:
         return (
-            f"CUBE ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+            f"CUBE ({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -113,7 +113,7 @@ class Rollup(Group):
         ), "GroupingSets must have at least one value to group by"
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"ROLLUP ({join_stmts([val.sql(opts) for val in self.values], opts)})"
+        return f"ROLLUP ({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
diff --git a/treeno/orderby.py b/treeno/orderby.py
index 58d9b88..b35bd0b 100644
--- a/treeno/orderby.py
+++ b/treeno/orderby.py
@@ -37,7 +37,7 @@ class OrderTerm(Sql):
     null_order: NullOrder = attr.ib(factory=NullOrder.default)
 
     def sql(self, opts: PrintOptions):
-        order_string = self.value.sql(opts)
+        order_string = self.value.operand_sql(opts)
         if self.order_type != OrderType.default():
             order_string += f" {self.order_type.name}"
         if self.null_order != NullOrder.default():
diff --git a/treeno/relation.py b/treeno/relation.py
index 8a491ab..8d40a89 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -194,6 +194,9 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
 
+    def operand_sql(self, opts: PrintOptions) -> str:
+        return parenthesize(self.sql(opts))
+
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
 
@@ -495,7 +498,7 @@ class SelectQuery(Query):
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
-        select_value = join_stmts([val.sql(opts) for val in self.select], opts)
+        select_value = join_stmts([val.operand_sql(opts) for val in self.select], opts)
         # All is the default, so we don't need to mention it
         if self.select_quantifier != SetQuantifier.default():
             select_value = self.select_quantifier.name + " " + select_value
@@ -509,11 +512,11 @@ class SelectQuery(Query):
                 relation_str = pad(parenthesize(relation_str), 1)
             builder.add_entry("FROM", relation_str)
         if self.where:
-            builder.add_entry("WHERE", self.where.sql(opts))
+            builder.add_entry("WHERE", self.where.operand_sql(opts))
         if self.groupby:
             builder.add_entry("GROUP", "BY " + self.groupby.sql(opts))
         if self.having:
-            builder.add_entry("HAVING", self.having.sql(opts))
+            builder.add_entry("HAVING", self.having.operand_sql(opts))
         if self.window:
             window_string = join_stmts(
                 [
@@ -699,7 +702,7 @@ class ValuesQuery(Query):
         builder = StatementPrinter()
         builder.update(self._with_query_string_builder(opts))
         builder.add_entry(
-            "VALUES", join_stmts([expr.sql(opts) for expr in self.exprs], opts)
+            "VALUES", join_stmts([expr.operand_sql(opts) for expr in self.exprs], opts)
         )
         builder.update(self._constraint_string_builder(opts))
         return builder.to_string(opts)
@@ -868,7 +871,7 @@ class JoinOnCriteria(JoinCriteria):
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         # For complex boolean expressions i.e. conjunctions and disjunctions we have a new line, so we have to
         # indent it here for readability
-        return {"ON": pad(self.constraint.sql(opts), opts.spaces)}
+        return {"ON": pad(self.constraint.operand_sql(opts), opts.spaces)}
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.constraint)
@@ -991,7 +994,7 @@ class Unnest(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         str_builder = [
-            f"UNNEST({join_stmts([arr.sql(opts) for arr in self.arrays], opts)})"
+            f"UNNEST({join_stmts([arr.operand_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
             str_builder += " WITH ORDINALITY"
@@ -1081,7 +1084,7 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.sql(opts)})"
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
diff --git a/treeno/window.py b/treeno/window.py
index bac3257..4bbafba 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -52,7 +52,7 @@ class BoundedFrameBound(FrameBound):
     offset: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.offset.sql(opts)} {self.bound_type.value}"
+        return f"{self.offset.operand_sql(opts)} {self.bound_type.value}"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.offset)
@@ -105,7 +105,7 @@ class Window(Sql):
             builder.add_entry(self.parent_window, "")
         if self.partitions:
             partition_value = join_stmts(
-                [partition.sql(opts) for partition in self.partitions], opts
+                [partition.operand_sql(opts) for partition in self.partitions], opts
             )
             builder.add_entry("PARTITION", "BY " + partition_value)
         if self.orderby:
-- 
2.43.0


From fa837a3a65afced9c29c6c1df47a7b80f1091176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:06 +0000
Subject: [PATCH 08/92] fix: parenthesize subscripted and dereferenced
 expressions

---
 treeno/expression.py | 34 +++++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 56b705a..b1d455d 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -66,6 +66,7 @@ from treeno.util import (
     is_dictlike,
     is_listlike,
     parenthesize,
+    quote_identifier,
     quote_literal,
 )
 
@@ -260,13 +261,9 @@ class Field(Value):
         return self.name
 
     def sql(self, opts: PrintOptions) -> str:
-        table_sql = None
-        if self.table:
-            if isinstance(self.table, str):
-                table_sql = self.table
-            else:
-                table_sql = self.table.sql(opts)
-        return chain_identifiers(table_sql, self.name)
+        if isinstance(self.table, Value):
+            return f"{primary_str(self.table, opts)}.{quote_identifier(self.name)}"
+        return chain_identifiers(self.table, self.name)
 
     def visit(self, visitor: GenericVisitor) -> None:
         if self.table is not None and isinstance(self.table, Value):
@@ -317,11 +314,11 @@ class Star(Value):
 
     def sql(self, opts: PrintOptions) -> str:
         star_string = ""
-        if self.table:
+        if self.table is not None:
             if isinstance(self.table, str):
-                table_sql = self.table
+                table_sql = quote_identifier(self.table)
             else:
-                table_sql = self.table.sql(opts)
+                table_sql = primary_str(self.table, opts)
             star_string = f"{table_sql}."
         star_string += "*"
         return star_string
@@ -474,6 +471,14 @@ def pemdas_str(
     return val.operand_sql(opts)
 
 
+def primary_str(val: Value, opts: PrintOptions) -> str:
+    """Apply parenthesization onto values which can't be subscripted or dereferenced as they are, i.e. (1 + x)[1]"""
+    val_str = val.operand_sql(opts)
+    if isinstance(val, Literal) or type(val) in OPERATOR_PRECEDENCE:
+        return parenthesize(val_str)
+    return val_str
+
+
 @value_attr
 class BinaryExpression(Expression, ABC):
     left: Value = attr.ib(converter=wrap_literal)
@@ -982,7 +987,14 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        return f"{self.value.operand_sql(opts)}[{self.index.operand_sql(opts)}]"
+        index_str = self.index.operand_sql(opts)
+        # The index is a value expression, so predicates need to be parenthesized
+        if (
+            OPERATOR_PRECEDENCE.get(type(self.index), PREDICATE_PRECEDENCE + 1)
+            <= PREDICATE_PRECEDENCE
+        ):
+            index_str = parenthesize(index_str)
+        return f"{primary_str(self.value, opts)}[{index_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
-- 
2.43.0


From 3daa4c48edda65e8e90fa05005d85f487cc5a753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:35 +0000
Subject: [PATCH 09/92] fix: quote all identifiers and print column aliases in
 parentheses

---
 treeno/expression.py | 10 ++++++----
 treeno/relation.py   | 14 ++++++++++----
 treeno/window.py     |  3 ++-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index b1d455d..494105e 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -289,7 +289,7 @@ class AliasedValue(Value):
         return self.alias
 
     def sql(self, opts: PrintOptions) -> str:
-        return f'{self.value.operand_sql(opts)} "{self.alias}"'
+        return f'{self.value.operand_sql(opts)} {quote_identifier(self.alias)}'
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
@@ -339,8 +339,10 @@ class AliasedStar(Value):
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-        alias_str = join_stmts(self.aliases, opts)
-        return f"{self.star.sql(opts)} ({alias_str})"
+        alias_str = join_stmts(
+            [quote_identifier(alias) for alias in self.aliases], opts
+        )
+        return f"{self.star.sql(opts)} AS ({alias_str})"
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.star)
@@ -357,7 +359,7 @@ class Lambda(Expression):
         name: str = attr.ib()
 
         def sql(self, opts: PrintOptions) -> str:
-            return self.name
+            return quote_identifier(self.name)
 
         def identifier(self) -> Optional[str]:
             return self.name
diff --git a/treeno/relation.py b/treeno/relation.py
index 8d40a89..78088fb 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -520,7 +520,7 @@ class SelectQuery(Query):
         if self.window:
             window_string = join_stmts(
                 [
-                    f"{window_name} AS {parenthesize(window.sql(opts))}"
+                    f"{quote_identifier(window_name)} AS {parenthesize(window.sql(opts))}"
                     for window_name, window in self.window.items()
                 ],
                 opts,
@@ -750,13 +750,13 @@ class AliasedRelation(Relation):
         # .. todo:: Keep the "AS"?
         alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
         if self.column_aliases:
-            alias_str += f" ({join_stmts(self.column_aliases, opts)})"
+            alias_str += f" ({join_identifiers(self.column_aliases, opts)})"
         return alias_str
 
     def _named_query_sql(self, opts: PrintOptions) -> str:
         alias_str = quote_identifier(self.alias)
         if self.column_aliases:
-            alias_str += f" {join_stmts(self.column_aliases, opts)}"
+            alias_str += f" ({join_identifiers(self.column_aliases, opts)})"
         alias_str += f" AS {relation_string(self.relation, opts)}"
         return alias_str
 
@@ -840,7 +840,7 @@ class JoinUsingCriteria(JoinCriteria):
     column_names: List[str] = attr.ib()
 
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
-        return {"USING": parenthesize(join_stmts(self.column_names, opts))}
+        return {"USING": parenthesize(join_identifiers(self.column_names, opts))}
 
     def visit(self, visitor: GenericVisitor) -> None:
         # Using only references the fields, so this should do nothing
@@ -1095,6 +1095,12 @@ class TableSample(Relation):
         visitor.visit(self.percentage)
 
 
+def join_identifiers(identifiers: List[str], opts: PrintOptions) -> str:
+    return join_stmts(
+        [quote_identifier(identifier) for identifier in identifiers], opts
+    )
+
+
 def relation_string(
     relation: Relation,
     opts: PrintOptions,
diff --git a/treeno/window.py b/treeno/window.py
index 4bbafba..8041fd4 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -14,6 +14,7 @@ from treeno.base import (
 from treeno.expression import Value, wrap_literal
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts
+from treeno.util import quote_identifier
 
 
 class NullTreatment(DefaultableEnum):
@@ -102,7 +103,7 @@ class Window(Sql):
         builder = StatementPrinter()
         if self.parent_window:
             # Empty string for no value on the right side of the river
-            builder.add_entry(self.parent_window, "")
+            builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
             partition_value = join_stmts(
                 [partition.operand_sql(opts) for partition in self.partitions], opts
-- 
2.43.0


From d25c3157444cc94bb9ff705f78562cdfb63474c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 10/92] fix: keep the frame of a referenced window

---
 treeno/functions/aggregate.py |  8 +++++---
 treeno/window.py              | 37 +++++++++++++++++++++++------------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 526011a..a7aa725 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -51,9 +51,11 @@ class AggregateFunction(Function, ABC):
         if self.null_treatment != NullTreatment.RESPECT:
             constraint_builder.add_entry(self.null_treatment.value, "NULLS")
         if self.window:
-            constraint_builder.add_entry(
-                "OVER", parenthesize(self.window.sql(opts))
-            )
+            window_string = self.window.sql(opts)
+            # References to named windows are not parenthesized
+            if not self.window.is_reference():
+                window_string = parenthesize(window_string)
+            constraint_builder.add_entry("OVER", window_string)
         return constraint_builder.to_string(opts)
 
     def get_orderby_string(self, opts: PrintOptions) -> str:
diff --git a/treeno/window.py b/treeno/window.py
index 8041fd4..0ed3b87 100644
--- a/treeno/window.py
+++ b/treeno/window.py
@@ -99,9 +99,20 @@ class Window(Sql):
     start_bound: FrameBound = attr.ib(factory=default_start_bound)
     end_bound: FrameBound = attr.ib(factory=default_end_bound)
 
+    def is_reference(self) -> bool:
+        """Whether this is the window named by parent_window without any further specification"""
+        return (
+            self.parent_window is not None
+            and not self.orderby
+            and not self.partitions
+            and self.frame_type == FrameType.default()
+            and self.start_bound == default_start_bound()
+            and self.end_bound == default_end_bound()
+        )
+
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
-        if self.parent_window:
+        if self.parent_window is not None:
             # Empty string for no value on the right side of the river
             builder.add_entry(quote_identifier(self.parent_window), "")
         if self.partitions:
@@ -114,17 +125,19 @@ class Window(Sql):
                 [order_term.sql(opts) for order_term in self.orderby], opts
             )
             builder.add_entry("ORDER", "BY " + order_value)
-        builder.add_entry(
-            self.frame_type.value,
-            " ".join(
-                [
-                    "BETWEEN",
-                    self.start_bound.sql(opts),
-                    "AND",
-                    self.end_bound.sql(opts),
-                ]
-            ),
-        )
+        # The frame of a plain reference belongs to the referenced window, so we can't specify it here
+        if not self.is_reference():
+            builder.add_entry(
+                self.frame_type.value,
+                " ".join(
+                    [
+                        "BETWEEN",
+                        self.start_bound.sql(opts),
+                        "AND",
+                        self.end_bound.sql(opts),
+                    ]
+                ),
+            )
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 22b00f989100e5e65a2b5879e784593879f49235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:25 +0000
Subject: [PATCH 11/92] fix: print LIMIT 0 and OFFSET 0

---
 treeno/relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 78088fb..ea2745a 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -248,9 +248,9 @@ class Query(Relation, Value, ABC):
             str_builder["ORDER"] = "BY " + join_stmts(
                 [order.sql(opts) for order in self.orderby], opts
             )
-        if self.offset:
+        if self.offset is not None:
             str_builder["OFFSET"] = str(self.offset)
-        if self.limit:
+        if self.limit is not None:
             str_builder["LIMIT"] = str(self.limit)
         return str_builder
 
-- 
2.43.0


From 068114e41265133d64ace00462bb76cb4a792584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 12/92] fix: print WITH, ORDER BY, OFFSET and LIMIT of set
 operations

---
 treeno/relation.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index ea2745a..43da869 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -321,7 +321,19 @@ class SetQuery(Query, ABC):
         query_string += f" {self.set_quantifier.name}"
         query_string += spacing
         query_string += relation_string(self.right_query, opts, newline=False)
-        return query_string
+        # The WITH clause and the output constraints apply to the result of the set operation
+        with_string, constraint_string = (
+            StatementPrinter(stmt_mapping=stmt_mapping).to_string(opts)
+            for stmt_mapping in (
+                self._with_query_string_builder(opts),
+                self._constraint_string_builder(opts),
+            )
+        )
+        return spacing.join(
+            string
+            for string in (with_string, query_string, constraint_string)
+            if string
+        )
 
     def resolve(self, existing_schema: Schema) -> Schema:
         left_schema = self.left_query.resolve(
-- 
2.43.0


From 5d3338bac9476023cb87f7ac09c97100ef8bdfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 13/92] fix: convert parenthesized queries

---
 treeno/builder/convert.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 4d8b44d..f40cbbb 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -259,11 +259,19 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitQueryNoWith(self, ctx: SqlBaseParser.QueryNoWithContext) -> Query:
         query = self.visit(ctx.queryTerm())
+        limit_clause = ctx.limitRowCount()
+        if (ctx.ORDER() or ctx.OFFSET() or ctx.LIMIT() or ctx.FETCH()) and (
+            query.orderby
+            or query.offset is not None
+            or query.limit is not None
+        ):
+            raise NotImplementedError(
+                "Constraining a parenthesized query with its own ORDER BY, OFFSET or LIMIT is not supported"
+            )
         if ctx.ORDER() and ctx.BY():
             query.orderby = [self.visit(item) for item in ctx.sortItem()]
         if ctx.offset:
             query.offset = self.visit(ctx.offset)
-        limit_clause = ctx.limitRowCount()
         if limit_clause:
             # TODO: Assign this to the query object
             query.limit = self.visit(limit_clause)
@@ -328,6 +336,10 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> SelectQuery:
         return self.visit(ctx.queryPrimary())
 
+    @overrides
+    def visitSubquery(self, ctx: SqlBaseParser.SubqueryContext) -> Query:
+        return self.visit(ctx.queryNoWith())
+
     @overrides
     def visitTable(self, ctx: SqlBaseParser.TableContext) -> TableQuery:
         return TableQuery(
-- 
2.43.0


From 27006864ed649425327b77dd131ae984fe3747cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 14/92] fix: convert FETCH FIRST instead of dropping it

---
 treeno/builder/convert.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f40cbbb..13bdae6 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -275,6 +275,11 @@ class ConvertVisitor(SqlBaseVisitor):
         if limit_clause:
             # TODO: Assign this to the query object
             query.limit = self.visit(limit_clause)
+        if ctx.FETCH():
+            if ctx.TIES():
+                raise NotImplementedError("WITH TIES is not supported")
+            # FETCH FIRST n ROWS ONLY is the same as LIMIT n, and n is 1 by default
+            query.limit = self.visit(ctx.fetchFirst) if ctx.fetchFirst else 1
         return query
 
     @overrides
-- 
2.43.0


From 7d89397e16b3bac061bf41afe3b18f20d4da3043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 15/92] fix: accept lower case keywords everywhere

---
 treeno/builder/convert.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 13bdae6..4a37098 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -326,7 +326,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitLimitRowCount(
         self, ctx: SqlBaseParser.LimitRowCountContext
     ) -> Optional[int]:
-        count = ctx.getText()
+        count = ctx.getText().upper()
         if count.isnumeric():
             return int(count)
         else:
@@ -374,7 +374,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSetQuantifier(
         self, ctx: SqlBaseParser.SetQuantifierContext
     ) -> SetQuantifier:
-        return SetQuantifier[ctx.getText()]
+        return SetQuantifier[ctx.getText().upper()]
 
     @overrides
     def visitAnd_(self, ctx: SqlBaseParser.And_Context) -> And:
@@ -593,7 +593,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitIntervalField(
         self, ctx: SqlBaseParser.IntervalFieldContext
     ) -> str:
-        return ctx.getText()
+        return ctx.getText().upper()
 
     @overrides
     def visitIntervalType(
@@ -608,7 +608,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitNormalForm(
         self, ctx: SqlBaseParser.NormalFormContext
     ) -> NormalForm:
-        return NormalForm[ctx.getText()]
+        return NormalForm[ctx.getText().upper()]
 
     @overrides
     def visitArrayType(self, ctx: SqlBaseParser.ArrayTypeContext) -> DataType:
@@ -1129,7 +1129,7 @@ class ConvertVisitor(SqlBaseVisitor):
     def visitSampleType(
         self, ctx: SqlBaseParser.SampleTypeContext
     ) -> SampleType:
-        return SampleType[ctx.getText()]
+        return SampleType[ctx.getText().upper()]
 
     @overrides
     def visitPatternRecognition(
-- 
2.43.0


From 80796e8ed3a8ff2dd1050d54c2b841ac5f927612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:14 +0000
Subject: [PATCH 16/92] fix: convert the != operator

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 4a37098..d8c8888 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -129,7 +129,7 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] < args[1]
     elif operator == "<=":
         return args[0] <= args[1]
-    elif operator == "<>":
+    elif operator in ("<>", "!="):
         return args[0] != args[1]
     elif operator == "+":
         if len(args) == 1:
-- 
2.43.0


From a3873485a1fa24a984b114e387c48681225ebafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:22 +0000
Subject: [PATCH 17/92] fix: refuse grammar rules which are not converted

---
 treeno/builder/convert.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index d8c8888..e7dd64f 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -5,6 +5,7 @@ import re
 from decimal import Decimal
 from typing import Any, Dict, List, Optional, Tuple, Union
 
+from antlr4 import ParserRuleContext
 from overrides import overrides
 
 from treeno.datatypes.builder import (
@@ -198,6 +199,18 @@ def decode_unicode_escapes(text: str, escape: str) -> str:
 class ConvertVisitor(SqlBaseVisitor):
     """Converts the tree into a builder tree in python"""
 
+    @overrides
+    def visitChildren(self, node: ParserRuleContext) -> Any:
+        # This is called for all of the rules without their own visit function. We can only pass through rules which
+        # consist of nothing but another rule, otherwise we'd silently drop a part of the SQL.
+        if node.getChildCount() != 1 or not isinstance(
+            node.getChild(0), ParserRuleContext
+        ):
+            raise NotImplementedError(
+                f"{type(node).__name__} is not supported: {node.getText()}"
+            )
+        return self.visit(node.getChild(0))
+
     @overrides
     def visitSingleStatement(
         self, ctx: SqlBaseParser.SingleStatementContext
-- 
2.43.0


From 51008b698ce82360cbe030efd5bafdc086d122f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:55 +0000
Subject: [PATCH 18/92] fix: raise syntax errors instead of converting the
 recovered tree

---
 treeno/grammar/parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index fab0f67..21066cb 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -2,6 +2,7 @@ from io import StringIO
 
 import nltk
 from antlr4 import CommonTokenStream
+from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
 from antlr4.tree.Trees import Trees
@@ -17,6 +18,17 @@ except ImportError:
     raise
 
 
+class SqlSyntaxError(ValueError):
+    """Raised for text which doesn't belong to the grammar"""
+
+
+class RaisingErrorListener(ErrorListener):
+    """By default antlr only prints syntax errors and makes up a tree for whatever is left of the text"""
+
+    def syntaxError(self, recognizer, offendingSymbol, line, column, msg, e):
+        raise SqlSyntaxError(f"line {line}:{column} {msg}")
+
+
 class AST:
     """Basic building block for SQL parse tree. This is not meant to be used directly, but is rather an intermediate
     layer to operate on to create a pypika interface."""
@@ -27,7 +39,11 @@ class AST:
     def parser(self) -> SqlBaseParser:
         lexer = SqlBaseLexer(InputStream(data=self._sql))
         stream = CommonTokenStream(lexer)
-        return SqlBaseParser(stream)
+        parser = SqlBaseParser(stream)
+        for recognizer in (lexer, parser):
+            recognizer.removeErrorListeners()
+            recognizer.addErrorListener(RaisingErrorListener())
+        return parser
 
     @property
     def text(self):
-- 
2.43.0


From 524b1dc2eda6aca282e06fc8650767cd67c9f0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 19/92] fix: refuse trailing text after a query

---
 treeno/grammar/parse.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index 21066cb..c24947e 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,7 +1,7 @@
 from io import StringIO
 
 import nltk
-from antlr4 import CommonTokenStream
+from antlr4 import CommonTokenStream, Token
 from antlr4.error.ErrorListener import ErrorListener
 from antlr4.InputStream import InputStream
 from antlr4.ParserRuleContext import ParserRuleContext
@@ -50,7 +50,18 @@ class AST:
         return self._sql
 
     def query(self):
-        return self.parser().query()
+        parser = self.parser()
+        query = parser.query()
+        # The rule doesn't include the end of the text, so it ignores everything it can't match. Only allow a delimiter.
+        stream = parser.getTokenStream()
+        if stream.LT(1).text == ";":
+            stream.consume()
+        token = stream.LT(1)
+        if token.type != Token.EOF:
+            raise SqlSyntaxError(
+                f"line {token.line}:{token.column} unexpected input {token.text!r} after the query"
+            )
+        return query
 
     def expression(self):
         return self.parser().standaloneExpression()
-- 
2.43.0


From e05ef6fc0d94f664bc0b092c91e6f60bbec61197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 20/92] fix: register all functions on import

---
 treeno/functions/__init__.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treeno/functions/__init__.py b/treeno/functions/__init__.py
index de45647..adeaa1e 100644
--- a/treeno/functions/__init__.py
+++ b/treeno/functions/__init__.py
@@ -1 +1,10 @@
 # Eagerly load all the functions in order to register them in `Function`'s map
+from treeno.functions import (  # noqa: F401
+    aggregate,
+    common,
+    conditional,
+    datetime,
+    math,
+    session,
+    string,
+)
-- 
2.43.0


From 23303fd4304c6f6c467b3d8e23fb25a2a313bf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:35 +0000
Subject: [PATCH 21/92] fix: print the arguments of APPROX_PERCENTILE in order

---
 treeno/functions/aggregate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index a7aa725..5c2147e 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -511,7 +511,8 @@ class ApproxPercentile(AggregateFunction):
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.percentage]
         if self.weight:
-            values.append(self.weight)
+            # The weight comes before the percentage if it is specified
+            values.insert(1, self.weight)
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 452665c61828cf46da5c5ee0b977030292ed0c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:42 +0000
Subject: [PATCH 22/92] fix: visit the value of QDIGEST_AGG

---
 treeno/functions/aggregate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 5c2147e..6d3f90f 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -592,7 +592,7 @@ class QDigestAgg(AggregateFunction):
         return self.to_string(values, opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.buckets)
+        visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
         if self.accuracy:
-- 
2.43.0


From 26b02f488dfd32e32d8d839c803e0106baf3f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:51 +0000
Subject: [PATCH 23/92] fix: set the data type of unary statistical functions

---
 treeno/functions/aggregate.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 6d3f90f..26f6f36 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -94,6 +94,12 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
         visitor.visit(self.value)
 
 
+@value_attr
+class UnaryStatsFunction(UnaryAggregateFunction, ABC):
+    def __attrs_post_init__(self) -> None:
+        self.data_type = double()
+
+
 @value_attr
 class BinaryStatsFunction(AggregateFunction, ABC):
     y: Value = attr.ib(converter=wrap_literal)
@@ -653,37 +659,37 @@ class RegrSlope(BinaryStatsFunction):
 
 
 @value_attr
-class Skewness(UnaryAggregateFunction):
+class Skewness(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "SKEWNESS"
 
 
 @value_attr
-class StdDev(UnaryAggregateFunction):
+class StdDev(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV"
 
 
 @value_attr
-class StdDevPop(UnaryAggregateFunction):
+class StdDevPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_POP"
 
 
 @value_attr
-class StdDevSamp(UnaryAggregateFunction):
+class StdDevSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "STDDEV_SAMP"
 
 
 @value_attr
-class Variance(UnaryAggregateFunction):
+class Variance(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VARIANCE"
 
 
 @value_attr
-class VarPop(UnaryAggregateFunction):
+class VarPop(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_POP"
 
 
 @value_attr
-class VarSamp(UnaryAggregateFunction):
+class VarSamp(UnaryStatsFunction):
     FN_NAME: ClassVar[str] = "VAR_SAMP"
 
 
-- 
2.43.0


From dc05581e9d2f180e424a327e7199ad419c375c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 24/92] fix: use the empty default separator of LISTAGG

---
 treeno/functions/aggregate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 26f6f36..5fe31ce 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -230,10 +230,10 @@ class OverflowFiller(Sql):
 
 @value_attr
 class ListAgg(AggregateFunction):
-    DEFAULT_SEPARATOR: ClassVar[str] = " "
+    DEFAULT_SEPARATOR: ClassVar[str] = ""
     FN_NAME: ClassVar[str] = "LISTAGG"
     value: Value = attr.ib(converter=wrap_literal)
-    separator: str = attr.ib(default=" ")
+    separator: str = attr.ib(default="")
     # If overflow filler is None, then raise an error. Otherwise truncate
     # with the appropriate filler string.
     overflow_filler: Optional[OverflowFiller] = attr.ib(default=None)
-- 
2.43.0


From 866117c249536c116cd51bdac88baef68f1138b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 25/92] fix: keep DISTINCT of aggregate functions

---
 treeno/builder/convert.py     | 8 ++++++++
 treeno/functions/aggregate.py | 6 ++++++
 2 files changed, 14 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index e7dd64f..fb97986 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -877,6 +877,10 @@ class ConvertVisitor(SqlBaseVisitor):
         if null_treatment:
             kwargs["null_treatment"] = self.visit(null_treatment)
 
+        quantifier = ctx.setQuantifier()
+        if quantifier and self.visit(quantifier) == SetQuantifier.DISTINCT:
+            kwargs["distinct"] = True
+
         expressions: List[Value]
         if ctx.ASTERISK():
             star: Star
@@ -940,6 +944,10 @@ class ConvertVisitor(SqlBaseVisitor):
         sort_items = ctx.sortItem()
         if sort_items:
             kwargs["orderby"] = [self.visit(item) for item in sort_items]
+
+        quantifier = ctx.setQuantifier()
+        if quantifier and self.visit(quantifier) == SetQuantifier.DISTINCT:
+            kwargs["distinct"] = True
         return ListAgg(self.visit(ctx.expression()), **kwargs)
 
     @overrides
diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 5fe31ce..b98bae7 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -41,6 +41,8 @@ class AggregateFunction(Function, ABC):
     null_treatment: NullTreatment = attr.ib(
         factory=NullTreatment.default, kw_only=True
     )
+    # Whether to aggregate distinct arguments only
+    distinct: bool = attr.ib(default=False, kw_only=True)
 
     def get_constraint_string(self, opts: PrintOptions) -> str:
         constraint_builder = StatementPrinter()
@@ -66,6 +68,8 @@ class AggregateFunction(Function, ABC):
 
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
         arg_string = join_stmts([value.operand_sql(opts) for value in values], opts)
+        if self.distinct:
+            arg_string = f"DISTINCT {arg_string}"
         # TODO: We currently pretty print orderby and constraint stringss on the same indentation level.
         # Although sqlstyle.guide doesn't specify what happens when a line gets too long, I think an extra
         # indentation level would be good for visibility.
@@ -264,6 +268,8 @@ class ListAgg(AggregateFunction):
                 opts,
                 delimiter=" ",
             )
+        if self.distinct:
+            value_string = f"DISTINCT {value_string}"
         constraint_string = f"WITHIN GROUP ({self.get_orderby_string(opts)})"
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
         constraint_string = pad(spacing + constraint_string, opts.spaces)
-- 
2.43.0


From 738309f8fb2150c52c1b6f63bda931f0185ae7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:52 +0000
Subject: [PATCH 26/92] fix: print NORMALIZE

---
 treeno/expression.py       | 17 ++++++++++-------
 treeno/functions/string.py |  9 +++++++--
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 494105e..91177ce 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -473,6 +473,15 @@ def pemdas_str(
     return val.operand_sql(opts)
 
 
+def value_expression_str(val: Value, opts: PrintOptions) -> str:
+    """Apply parenthesization onto values where the grammar allows for value expressions but no predicates"""
+    val_str = val.operand_sql(opts)
+    precedence = OPERATOR_PRECEDENCE.get(type(val))
+    if precedence is not None and precedence <= PREDICATE_PRECEDENCE:
+        return parenthesize(val_str)
+    return val_str
+
+
 def primary_str(val: Value, opts: PrintOptions) -> str:
     """Apply parenthesization onto values which can't be subscripted or dereferenced as they are, i.e. (1 + x)[1]"""
     val_str = val.operand_sql(opts)
@@ -989,13 +998,7 @@ class Subscript(Expression):
     index: Value = attr.ib(converter=wrap_literal)
 
     def sql(self, opts: PrintOptions) -> str:
-        index_str = self.index.operand_sql(opts)
-        # The index is a value expression, so predicates need to be parenthesized
-        if (
-            OPERATOR_PRECEDENCE.get(type(self.index), PREDICATE_PRECEDENCE + 1)
-            <= PREDICATE_PRECEDENCE
-        ):
-            index_str = parenthesize(index_str)
+        index_str = value_expression_str(self.index, opts)
         return f"{primary_str(self.value, opts)}[{index_str}]"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/functions/string.py b/treeno/functions/string.py
index aadcf0a..b27aa40 100644
--- a/treeno/functions/string.py
+++ b/treeno/functions/string.py
@@ -11,7 +11,12 @@ from treeno.datatypes.builder import (
     varbinary,
     varchar,
 )
-from treeno.expression import Value, value_attr, wrap_literal
+from treeno.expression import (
+    Value,
+    value_attr,
+    value_expression_str,
+    wrap_literal,
+)
 from treeno.functions.base import Function
 from treeno.printer import join_stmts
 
@@ -268,7 +273,7 @@ class Normalize(Function):
         # Note: The reason we don't use self.to_string here is because
         # normal_form is not an arbitrary Sql construct here but rather
         # an enum.
-        components = [self.string.to_sql(opts)]
+        components = [value_expression_str(self.string, opts)]
         if self.normal_form:
             components.append(self.normal_form.value)
         arg_string = join_stmts(components, opts)
-- 
2.43.0


From e5b685d54a2a015ea8ab9f686ea47bb9bfd08dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 27/92] fix: quote the value of intervals

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 91177ce..40ee817 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -954,7 +954,7 @@ class Interval(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-        return f"INTERVAL {self.value} {self.from_interval}" + to_interval_str
+        return f"INTERVAL {quote_literal(self.value)} {self.from_interval}" + to_interval_str
 
     def visit(self, visitor: GenericVisitor) -> None:
         pass
-- 
2.43.0


From de005da00e63b125bff86355e049af118cfef380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 28/92] fix: accept FROM_UNIXTIME with one argument

---
 treeno/functions/datetime.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 554d5aa..32a2657 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -187,6 +187,8 @@ class FromUnixtime(Function):
         assert (
             not kwargs
         ), "No keyword arguments allowed for FromUnixTime.from_args"
+        if len(args) == 1:
+            return FromUnixtime(args[0])
         if len(args) == 2:
             return FromUnixtime(args[0], zone=args[1])
         if len(args) == 3:
-- 
2.43.0


From 02d8b53d999de6de45d6814fcd070ea1e2cb2c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:18 +0000
Subject: [PATCH 29/92] fix: keep the precision of timestamp constructors

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 40ee817..30d358a 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -894,7 +894,7 @@ class TypeConstructor(Expression):
             self.data_type = timestamp(
                 precision=infer_timelike_precision(self.value)
             )
-        if self.type_name == type_consts.TIME:
+        elif self.type_name == type_consts.TIME:
             self.data_type = time(
                 precision=infer_timelike_precision(self.value)
             )
-- 
2.43.0


From f1bd8057843421c01e4591dbca316b602450067b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 30/92] fix: don't count time zone offsets as fractional digits

---
 treeno/datatypes/inference.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 39e7c59..af491b5 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -2,6 +2,7 @@
 
 Should not be used in datatypes.types to prevent circular imports
 """
+import re
 from decimal import Decimal
 from typing import Any
 
@@ -65,8 +66,6 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
 
 def infer_timelike_precision(value: str) -> int:
     # TODO: Use a datetime util for this at some point. Currently datetime in python only supports microseconds :(
-    # Number of digits past the dot is its precision
-    if "." not in value:
-        return 0
-    # In case we have timezone
-    return len(value.rsplit(".")[-1].split(" ")[0])
+    # Number of digits past the dot is its precision, which may be followed by a timezone
+    match = re.search(r"\.(\d*)", value)
+    return len(match.group(1)) if match else 0
-- 
2.43.0


From 50cf752cbe7e43f865cfa65bfb426995a363b526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:35 +0000
Subject: [PATCH 31/92] fix: keep decimals apart from integers and doubles

---
 treeno/datatypes/inference.py | 3 ++-
 treeno/expression.py          | 7 +++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index af491b5..cd7a4de 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -52,7 +52,8 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
-    str_val = str(decimal_value)
+    # The sign and exponent are not part of the digits
+    str_val = format(abs(decimal_value), "f")
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
diff --git a/treeno/expression.py b/treeno/expression.py
index 30d358a..3d15784 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -221,13 +221,16 @@ class Literal(Value):
             ), "Please use wrap_literal to construct a Literal value so the data types are detected"
 
     def sql(self, opts: PrintOptions) -> str:
-        # NOTE: Literal decimals can be directly convertible
-        # through string representation, i.e. 3.14 is DECIMAL(3,2), so we don't need to do anything.
         s = str(self.value)
         if self.value is None:
             s = "NULL"
         if isinstance(self.value, bool):
             s = s.upper()
+        if isinstance(self.value, Decimal):
+            # Numbers without a point are integers, and numbers with an exponent are doubles
+            s = format(self.value, "f")
+            if "." not in s:
+                s += "."
         if isinstance(self.value, str):
             # Single quotes to mean literal string
             s = quote_literal(self.value)
-- 
2.43.0


From d7e13a9ff1133e7168f9f952964ba2c91e46a60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:12 +0000
Subject: [PATCH 32/92] fix: keep all digits of negative decimals

---
 treeno/builder/convert.py     | 7 +++----
 treeno/datatypes/inference.py | 2 +-
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index fb97986..a85afd5 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -760,7 +760,9 @@ class ConvertVisitor(SqlBaseVisitor):
         self, ctx: SqlBaseParser.DecimalLiteralContext
     ) -> Literal:
         text = ctx.DECIMAL_VALUE().getText()
-        negative = ctx.MINUS() is not None
+        # NOTE: Negating the value itself would round it to the precision of the decimal context
+        if ctx.MINUS() is not None:
+            text = ctx.MINUS().getText() + text
 
         dtype: DataType
         value: Union[int, Decimal]
@@ -771,9 +773,6 @@ class ConvertVisitor(SqlBaseVisitor):
             value = int(text)
             dtype = integer()
 
-        if negative:
-            value = -value
-
         return Literal(value, data_type=dtype)
 
     @overrides
diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index cd7a4de..b789fc0 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -53,7 +53,7 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     actual scale is due to floats being imprecise.
     """
     # The sign and exponent are not part of the digits
-    str_val = format(abs(decimal_value), "f")
+    str_val = format(decimal_value.copy_abs(), "f")
     if "." not in str_val:
         return decimal(precision=len(str_val), scale=0)
     else:
-- 
2.43.0


From d66527c0866f5bacb30324d62acb2e8109f656ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 33/92] fix: print doubles with an exponent

---
 treeno/expression.py |  5 +++++
 treeno/relation.py   | 10 ++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 3d15784..6ca0d68 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -226,6 +226,11 @@ class Literal(Value):
             s = "NULL"
         if isinstance(self.value, bool):
             s = s.upper()
+        if isinstance(self.value, float):
+            # Numbers without an exponent are decimals, and the exponent has to be in upper case
+            s = repr(self.value).upper()
+            if "E" not in s:
+                s += "E0"
         if isinstance(self.value, Decimal):
             # Numbers without a point are integers, and numbers with an exponent are doubles
             s = format(self.value, "f")
diff --git a/treeno/relation.py b/treeno/relation.py
index 43da869..88c9466 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -59,7 +59,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Value, value_attr
+from treeno.expression import Literal, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -1096,7 +1096,13 @@ class TableSample(Relation):
             newline=False,
             special_parenthesize_relations=[Join],
         )
-        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({self.percentage.operand_sql(opts)})"
+        percentage_sql = self.percentage.operand_sql(opts)
+        # The type of the percentage is irrelevant, so spell numbers like 0.3 in the usual way
+        if isinstance(
+            self.percentage, Literal
+        ) and percentage_sql.endswith("E0"):
+            percentage_sql = percentage_sql[: -len("E0")]
+        return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage_sql})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
-- 
2.43.0


From c0493247982b16aa73042580d519e4202b354778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:47 +0000
Subject: [PATCH 34/92] fix: refuse numbers without a literal in SQL

---
 treeno/datatypes/inference.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index b789fc0..3b845d4 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -2,6 +2,7 @@
 
 Should not be used in datatypes.types to prevent circular imports
 """
+import math
 import re
 from decimal import Decimal
 from typing import Any
@@ -26,6 +27,8 @@ def infer_type(value: Any) -> DataType:
     if isinstance(value, int):
         return infer_integral(value)
     if isinstance(value, float):
+        if not math.isfinite(value):
+            raise ValueError(f"Value {value} has no literal in SQL")
         return double()
     if isinstance(value, Decimal):
         # NOTE: This is best-effort inference, since the precision of
@@ -45,6 +48,8 @@ def infer_char(value: str) -> DataType:
 
 
 def infer_integral(value: int) -> DataType:
+    if not -(0x7FFFFFFFFFFFFFFF + 1) <= value <= 0x7FFFFFFFFFFFFFFF:
+        raise ValueError(f"Value {value} is out of range for BIGINT")
     return integer() if -(0x7FFFFFFF + 1) <= value <= 0x7FFFFFFF else bigint()
 
 
-- 
2.43.0


From b2fd917180bdd10c3fefa1d93467b3f0bd1ff6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:23 +0000
Subject: [PATCH 35/92] fix: find the common supertype of types of the same
 name and of NULL

---
 treeno/datatypes/conversions.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index d6f2004..260fbc0 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -40,6 +40,7 @@ from treeno.datatypes.types import (
     TIME,
     TIMESTAMP,
     TINYINT,
+    UNKNOWN,
     VARCHAR,
     DataType,
 )
@@ -63,7 +64,7 @@ def get_arithmetic_type(dtype1: DataType, dtype2: DataType) -> DataType:
     if dtype1 == dtype2:
         return dtype1
     name1, name2 = dtype1.type_name, dtype2.type_name
-    if name1 == name2:
+    if name1 == name2 and name1 in COMMON_CONVERSION_MAP:
         return common_same_type(dtype1, dtype2)
     elif {name1, name2}.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
@@ -77,15 +78,21 @@ def common_supertype(dtype1: DataType, dtype2: DataType) -> DataType:
         if dtype1 == dtype2:
             return dtype1
         if dtype1.type_name in COMMON_CONVERSION_MAP:
-            common_same_type(dtype1, dtype2)
+            return common_same_type(dtype1, dtype2)
         return unknown()
-    elif dtype1.type_name in NUMERIC_TYPES:
+    # NULL can be coerced to any type
+    if dtype1.type_name == UNKNOWN:
+        return dtype2
+    if dtype2.type_name == UNKNOWN:
+        return dtype1
+    type_names = {dtype1.type_name, dtype2.type_name}
+    if type_names.issubset(NUMERIC_TYPES):
         return common_numeric(dtype1, dtype2)
-    elif dtype1.type_name in STRING_TYPES:
+    elif type_names.issubset(STRING_TYPES):
         return common_string(dtype1, dtype2)
-    elif dtype1.type_name in HLL_TYPES:
+    elif type_names.issubset(HLL_TYPES):
         return common_hll(dtype1, dtype2)
-    elif dtype1.type_name in DATETIME_TYPES:
+    elif type_names.issubset(DATETIME_TYPES):
         return common_datetime(dtype1, dtype2)
     raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
 
-- 
2.43.0


From f291ce233963101eb771ba7e7bcfa0ef542de825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:31 +0000
Subject: [PATCH 36/92] fix: find the common supertype of times and timestamps

---
 treeno/datatypes/conversions.py | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 260fbc0..4742a77 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -10,6 +10,8 @@ Note that this module is very much in flux, as I operate under an assumption:
 The supertype of the input types under typical binary operators will be the output type (with exceptions, such as
 timestamp - timestamp = interval)
 """
+from typing import Any, Dict
+
 from treeno.datatypes.builder import (
     array,
     char,
@@ -288,26 +290,33 @@ def common_array(dtype1: DataType, dtype2: DataType) -> DataType:
     return array(dtype=common_supertype(t1, t2))
 
 
+def common_timelike_parameters(
+    dtype1: DataType, dtype2: DataType
+) -> Dict[str, Any]:
+    parameters: Dict[str, Any] = {
+        "timezone": dtype1.parameters["timezone"]
+        or dtype2.parameters["timezone"]
+    }
+    precision1 = dtype1.parameters.get("precision", None)
+    precision2 = dtype2.parameters.get("precision", None)
+    # The default precision isn't known, so neither is the larger one
+    if precision1 is not None and precision2 is not None:
+        parameters["precision"] = max(precision1, precision2)
+    return parameters
+
+
 def common_timestamp(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIMESTAMP
     ), "common_timestamp must be called with TIMESTAMPtype only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return timestamp(timezoned=timezoned, precision=precision)
+    return timestamp(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_time(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == TIME
     ), "common_time must be called with TIME type only"
-    timezoned = dtype1.parameters["timezone"] or dtype2.parameters["timezone"]
-    precision = max(
-        dtype1.parameters["precision"], dtype2.parameters["precision"]
-    )
-    return time(timezoned=timezoned, precision=precision)
+    return time(**common_timelike_parameters(dtype1, dtype2))
 
 
 def common_interval(dtype1: DataType, dtype2: DataType) -> DataType:
-- 
2.43.0


From 22b4fb4b5fbdf93d782181146622d098df2fc550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:38 +0000
Subject: [PATCH 37/92] fix: limit the precision of common decimals

---
 treeno/datatypes/conversions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 4742a77..ae51fa1 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -48,6 +48,7 @@ from treeno.datatypes.types import (
 )
 
 INTEGRAL_TYPES = {INTEGER, BIGINT, SMALLINT, TINYINT}
+MAX_DECIMAL_PRECISION = 38
 INTEGRAL_DECIMAL_PRECISION = {TINYINT: 3, SMALLINT: 5, INTEGER: 10, BIGINT: 19}
 FLOAT_TYPES = {REAL, DOUBLE}
 # Decimal can be either a float or an integral, and we treat it fairly differently so it's a special case
@@ -232,7 +233,8 @@ def common_decimal(dtype1: DataType, dtype2: DataType) -> DataType:
     s1, s2 = dtype1.parameters["scale"], dtype2.parameters["scale"]
     p1, p2 = dtype1.parameters["precision"], dtype2.parameters["precision"]
     scale = max([s1, s2])
-    return decimal(precision=max([p1 - s1, p2 - s2]) + scale, scale=scale)
+    precision = max([p1 - s1, p2 - s2]) + scale
+    return decimal(precision=min(MAX_DECIMAL_PRECISION, precision), scale=scale)
 
 
 def common_varchar(dtype1: DataType, dtype2: DataType) -> DataType:
-- 
2.43.0


From 9d2f173c8fbb88a282937cb7a1a898acd77ae896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:45 +0000
Subject: [PATCH 38/92] fix: promote unbounded VARCHAR to the longest CHAR

---
 treeno/datatypes/conversions.py | 3 ++-
 treeno/functions/common.py      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index ae51fa1..f2c2df0 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -193,7 +193,8 @@ def common_numeric(dtype1: DataType, dtype2: DataType) -> DataType:
 def promote_varchar_to_char(varchar_dtype: DataType) -> DataType:
     chars = varchar_dtype.parameters.get("max_chars", None)
     if chars is None:
-        return char()
+        # An unbounded VARCHAR doesn't fit in the default CHAR(1)
+        return char(max_chars=MAX_CHAR_LENGTH)
     # VARCHAR can be way bigger than char, so we have to be careful to cap it
     return char(max_chars=min(MAX_CHAR_LENGTH, chars))
 
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index 47934c1..b672bea 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -10,6 +10,7 @@ from treeno.base import GenericVisitor, PrintOptions
 from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import array, char, unknown, varbinary, varchar
 from treeno.datatypes.conversions import (
+    MAX_CHAR_LENGTH,
     STRING_TYPES,
     common_supertype,
     promote_varchar_to_char,
@@ -68,7 +69,7 @@ def _get_string_concat_type(
             if dtype.type_name != type_consts.CHAR:
                 dtype = promote_varchar_to_char(dtype)
             max_chars += dtype.parameters["max_chars"]
-        return char(max_chars=max_chars)
+        return char(max_chars=min(MAX_CHAR_LENGTH, max_chars))
 
 
 @value_attr
-- 
2.43.0


From 54c59b4093eabdcd30cf7f58b3146527a25dade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:53 +0000
Subject: [PATCH 39/92] fix: refuse to find the common supertype of rows with
 different lengths

---
 treeno/datatypes/conversions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index f2c2df0..26546fb 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -268,6 +268,8 @@ def common_row(dtype1: DataType, dtype2: DataType) -> DataType:
     assert (
         dtype1.type_name == dtype2.type_name == ROW
     ), "common_row must be called with ROW type only"
+    if len(dtype1.parameters["dtypes"]) != len(dtype2.parameters["dtypes"]):
+        raise TypeError(f"No common supertypes between {dtype1} and {dtype2}")
     dtypes = []
     for t1, t2 in zip(dtype1.parameters["dtypes"], dtype2.parameters["dtypes"]):
         dtypes.append(common_supertype(t1, t2))
-- 
2.43.0


From 4fcdcc014ddcec0f99e5dadfbef3aee87fe51b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:26 +0000
Subject: [PATCH 40/92] fix: accept COALESCE of values with unknown types

---
 treeno/functions/conditional.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index 204d0ae..fd6a76e 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -46,11 +46,8 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
-        dtypes = [
-            val.data_type for val in self.values if val.data_type != unknown()
-        ]
         self.data_type = functools.reduce(
-            lambda t1, t2: common_supertype(t1, t2), dtypes
+            common_supertype, [val.data_type for val in self.values], unknown()
         )
 
     @classmethod
-- 
2.43.0


From a4409d149fc60ed237818e0098156f039b77bb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:34 +0000
Subject: [PATCH 41/92] fix: set the data type of INTERSECT and EXCEPT

---
 treeno/relation.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 88c9466..1ed1da2 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -304,10 +304,15 @@ class SetQuery(Query, ABC):
         assert (
             left_row_like and right_row_like
         ), "Input data types for query set operations must be ROW"
+        left_types, right_types = (
+            left_type.parameters["dtypes"],
+            right_type.parameters["dtypes"],
+        )
+        # The number of columns isn't known before all stars are resolved
+        if len(left_types) != len(right_types):
+            return unknown()
         dtypes = []
-        for t1, t2 in zip(
-            left_type.parameters["dtypes"], right_type.parameters["dtypes"]
-        ):
+        for t1, t2 in zip(left_types, right_types):
             dtypes.append(common_supertype(t1, t2))
         return row(dtypes=dtypes)
 
@@ -377,6 +382,7 @@ class IntersectQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"INTERSECT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("INTERSECT", opts)
@@ -403,6 +409,7 @@ class ExceptQuery(SetQuery):
         assert (
             self.set_quantifier == SetQuantifier.DISTINCT
         ), f"EXCEPT does not support {self.set_quantifier.name}"
+        super().__attrs_post_init__()
 
     def sql(self, opts: PrintOptions) -> str:
         return self._to_string("EXCEPT", opts)
-- 
2.43.0


From 1fb1ba2f8a1e7fe192085a0658b23fa1b246f94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:44 +0000
Subject: [PATCH 42/92] fix: consider all values of ARRAY and CASE for their
 data type

---
 treeno/expression.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 6ca0d68..963ecaf 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -50,7 +50,7 @@ from treeno.datatypes.builder import (
     timestamp,
     unknown,
 )
-from treeno.datatypes.conversions import get_arithmetic_type
+from treeno.datatypes.conversions import common_supertype, get_arithmetic_type
 from treeno.datatypes.inference import (
     infer_char,
     infer_decimal,
@@ -796,9 +796,13 @@ class Array(Expression):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.values), "values must be a non-empty list for Array"
-        # TODO: This is currently incorrect. We have to widen the data type depending on the largest precision we have
+        # We have to widen the data type depending on the largest precision we have
         # i.e. TYPEOF(ARRAY[CHAR '3'] || '345') yields array(char(3))
-        self.data_type = array(dtype=self.values[0].data_type)
+        self.data_type = array(
+            dtype=functools.reduce(
+                common_supertype, [value.data_type for value in self.values]
+            )
+        )
 
     @classmethod
     def from_values(cls, *vals: Any) -> "Array":
@@ -1057,7 +1061,10 @@ class Case(Expression):
         assert len(
             self.branches
         ), "There must be at least one WHEN condition in a CASE"
-        self.data_type = self.branches[0].data_type
+        dtypes = [branch.data_type for branch in self.branches]
+        if self.else_ is not None:
+            dtypes.append(self.else_.data_type)
+        self.data_type = functools.reduce(common_supertype, dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
         spacing = "\n" if opts.mode == PrintMode.PRETTY else " "
-- 
2.43.0


From 974156545d3cfe830314d3db7b967e9978d58838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 43/92] fix: convert DOUBLE PRECISION constructors

---
 treeno/builder/convert.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index a85afd5..f8f502d 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -826,7 +826,7 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> TypeConstructor:
         value = self.visit(ctx.string())
         if ctx.DOUBLE() and ctx.PRECISION():
-            return TypeConstructor(value, data_type=double())
+            return TypeConstructor(value=value, type_name="DOUBLE")
         # It appears the type constructor is fairly primitive in that it doesn't allow parametrized types, like
         # SELECT DECIMAL(30) '3'
         # which means we can assume it's a generic(but inferred) nonparametrized data type.
-- 
2.43.0


From 0449d524472bc7a8c07539141cc35fbae3a25e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 44/92] fix: refuse double literals out of range

---
 treeno/builder/convert.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index f8f502d..51e6bfc 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -46,6 +46,7 @@ from treeno.expression import (
     TypeConstructor,
     Value,
     When,
+    wrap_literal,
 )
 from treeno.functions.aggregate import (
     AggregateFunction,
@@ -789,7 +790,7 @@ class ConvertVisitor(SqlBaseVisitor):
         number_string = ctx.DOUBLE_VALUE().getText()
         if ctx.MINUS() is not None:
             number_string = ctx.MINUS().getText() + number_string
-        return Literal(float(number_string), data_type=double())
+        return wrap_literal(float(number_string))
 
     @overrides
     def visitBasicStringLiteral(
-- 
2.43.0


From a54eed0b42e5ded4ed0738d93ae8b33db5ac588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:23 +0000
Subject: [PATCH 45/92] fix: refuse table names with too many parts

---
 treeno/builder/convert.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 51e6bfc..da3106d 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -156,6 +156,8 @@ def apply_operator(operator: str, *args: Value) -> Value:
 
 
 def table_from_qualifiers(qualifiers: List[str]) -> Table:
+    if len(qualifiers) > 3:
+        raise ValueError(f"Too many parts in table name: {qualifiers}")
     qualifiers = list(reversed(qualifiers))
     name: str = qualifiers[0]
     schema: Optional[str] = nth(qualifiers, 1)
-- 
2.43.0


From 3d013c08c862dafb6922258dd9acca247439bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:33 +0000
Subject: [PATCH 46/92] fix: refuse stars with too many qualifiers

---
 treeno/builder/convert.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index da3106d..24466c2 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1073,7 +1073,13 @@ class ConvertVisitor(SqlBaseVisitor):
         table: Optional[Union[str, Value]] = None
         if primary_expr:
             expr = self.visit(primary_expr)
-            table = expr.name if isinstance(expr, Field) else expr
+            if isinstance(expr, Field):
+                assert (
+                    not expr.table
+                ), "Treeno currently only supports stars in the form * or x.*"
+                table = expr.name
+            else:
+                table = expr
 
         # TODO: This is a bit hacky right now, but the table reference is derived from a ColumnReference which is a field
         # here we just interpret a Field to mean a table reference.
-- 
2.43.0


From 28ca45f46263d1aba83562036d864bfd97a01a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:42 +0000
Subject: [PATCH 47/92] fix: refuse types with too many parameters

---
 treeno/builder/convert.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 24466c2..07ecf5b 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -562,10 +562,12 @@ class ConvertVisitor(SqlBaseVisitor):
     ) -> DataType:
         param_values = [self.visit(param) for param in ctx.typeParameter()]
         type_name = self.visit(ctx.identifier()).upper()
+        params = FIELDS[type_name]
+        if len(param_values) > len(params):
+            raise ValueError(f"Too many parameters for type {type_name}")
         # We assume the parameters will be passed into here.
         parameters = {
-            param.name: val
-            for val, param in zip(param_values, FIELDS[type_name])
+            param.name: val for val, param in zip(param_values, params)
         }
         return DataType(type_name, parameters=parameters)
 
-- 
2.43.0


From 98a11681f4294403765eacc77ce363aa4818cc9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:15 +0000
Subject: [PATCH 48/92] fix: refuse duplicate window names

---
 treeno/builder/convert.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 07ecf5b..24a94f7 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -1374,7 +1374,10 @@ class ConvertVisitor(SqlBaseVisitor):
         if groupby:
             query_builder.groupby = self.visit(groupby)
         if ctx.WINDOW():
-            query_builder.window = dict(
-                self.visit(window_def) for window_def in ctx.windowDefinition()
-            )
+            query_builder.window = {}
+            for window_def in ctx.windowDefinition():
+                name, window = self.visit(window_def)
+                if name in query_builder.window:
+                    raise ValueError(f"Duplicate window name {name}")
+                query_builder.window[name] = window
         return query_builder
-- 
2.43.0


From cdb81a8f81ace85db2d5e7b34dc0311d69f734ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:25 +0000
Subject: [PATCH 49/92] fix: print lambdas without parameters

---
 treeno/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 963ecaf..490b5a4 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -415,7 +415,7 @@ class Lambda(Expression):
 
     def sql(self, opts: PrintOptions) -> str:
         input_string = join_stmts([var.sql(opts) for var in self.inputs], opts)
-        if len(self.inputs) > 1:
+        if len(self.inputs) != 1:
             input_string = parenthesize(input_string)
         return f"{input_string} -> {self.expr.operand_sql(opts)}"
 
-- 
2.43.0


From 1d72b3de1ea31cb0de197fae64d68910da4cf45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:34 +0000
Subject: [PATCH 50/92] fix: print rows with one value and grouping sets of
 rows

---
 treeno/expression.py | 3 +++
 treeno/groupby.py    | 7 +++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 490b5a4..e9a9ab1 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -939,6 +939,9 @@ class RowConstructor(Expression):
         values_string = join_stmts(
             [value.operand_sql(opts) for value in self.values], opts
         )
+        # A single parenthesized value is the value itself
+        if len(self.values) == 1:
+            return f"ROW({values_string})"
         return f"({values_string})"
 
     def visit(self, visitor: GenericVisitor) -> None:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 2f3f2e8..6028ae4 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -4,7 +4,7 @@ from typing import List
 import attr
 
 from treeno.base import GenericVisitor, PrintOptions, SetQuantifier, Sql
-from treeno.expression import Value
+from treeno.expression import RowConstructor, Value
 from treeno.printer import join_stmts
 
 
@@ -43,7 +43,10 @@ class GroupingSet(Group):
     values: List[Value] = attr.ib()
 
     def sql(self, opts: PrintOptions) -> str:
-        if len(self.values) == 1:
+        # A parenthesized list of values is the grouping set itself, so a single row has to be parenthesized twice
+        if len(self.values) == 1 and not isinstance(
+            self.values[0], RowConstructor
+        ):
             return self.values[0].operand_sql(opts)
         return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
 
-- 
2.43.0


From 479db8d2d3ee9b08519e41feefbca478bd9e347d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:04 +0000
Subject: [PATCH 51/92] fix: print WITH ORDINALITY

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 1ed1da2..e2150a6 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1016,7 +1016,7 @@ class Unnest(Relation):
             f"UNNEST({join_stmts([arr.operand_sql(opts) for arr in self.arrays], opts)})"
         ]
         if self.with_ordinality:
-            str_builder += " WITH ORDINALITY"
+            str_builder.append("WITH ORDINALITY")
         return " ".join(str_builder)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-- 
2.43.0


From 5c4fa6f3d798223eb5b30af553f8047237cc3395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:13 +0000
Subject: [PATCH 52/92] fix: parenthesize relations nested in joins, aliases
 and samples

---
 treeno/relation.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index e2150a6..1062b75 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -767,7 +767,12 @@ class AliasedRelation(Relation):
 
     def sql(self, opts: PrintOptions) -> str:
         # .. todo:: Keep the "AS"?
-        alias_str = f"{relation_string(self.relation, opts)} {quote_identifier(self.alias)}"
+        relation_str = relation_string(
+            self.relation,
+            opts,
+            special_parenthesize_relations=[Join, TableSample, AliasedRelation],
+        )
+        alias_str = f"{relation_str} {quote_identifier(self.alias)}"
         if self.column_aliases:
             alias_str += f" ({join_identifiers(self.column_aliases, opts)})"
         return alias_str
@@ -952,7 +957,11 @@ class Join(Relation):
         if self.config.natural:
             join_type += "NATURAL "
         join_type += f"{self.config.join_type.value} JOIN"
-        builder.add_entry(join_type, relation_string(self.right_relation, opts))
+        # Joins are left associative
+        right_relation_str = relation_string(
+            self.right_relation, opts, special_parenthesize_relations=[Join]
+        )
+        builder.add_entry(join_type, right_relation_str)
         if self.config.criteria is not None:
             builder.update(self.config.criteria.build_sql(opts))
         return builder.to_string(opts)
@@ -1101,7 +1110,7 @@ class TableSample(Relation):
             self.relation,
             opts,
             newline=False,
-            special_parenthesize_relations=[Join],
+            special_parenthesize_relations=[Join, TableSample],
         )
         percentage_sql = self.percentage.operand_sql(opts)
         # The type of the percentage is irrelevant, so spell numbers like 0.3 in the usual way
-- 
2.43.0


From 3f7835420dbf5e6e469908f3955c58648ee0928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:39 +0000
Subject: [PATCH 53/92] fix: don't modify the parameters given to data types

---
 treeno/datatypes/types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index d3f610d..5d6bdd2 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -77,6 +77,8 @@ class DataType(Sql):
 
     def __attrs_post_init__(self):
         self.type_name = self.type_name.upper()
+        # We may have to impute defaults, so don't touch the caller's parameters
+        self.parameters = dict(self.parameters)
         assert (
             self.type_name in ALLOWED_TYPES
         ), f"Type {self.type_name} is not a recognized Trino type."
-- 
2.43.0


From 53de7edc20188b0c70ccadbe815a2b122577db4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:48 +0000
Subject: [PATCH 54/92] fix: use a list of common table expressions by default

---
 treeno/relation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 1062b75..5aedd26 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -192,7 +192,7 @@ class Query(Relation, Value, ABC):
     offset: Optional[int] = attr.ib(default=None, kw_only=True)
     limit: Optional[int] = attr.ib(default=None, kw_only=True)
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
-    with_: List["AliasedRelation"] = attr.ib(factory=dict, kw_only=True)
+    with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
     def operand_sql(self, opts: PrintOptions) -> str:
         return parenthesize(self.sql(opts))
-- 
2.43.0


From 58767b956a2f926b088e3c0d04d4bbc8a94198a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:56 +0000
Subject: [PATCH 55/92] fix: compare the types of nested nodes in equals

---
 treeno/base.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/treeno/base.py b/treeno/base.py
index 0a2bb02..7b5acde 100644
--- a/treeno/base.py
+++ b/treeno/base.py
@@ -17,7 +17,7 @@ from typing import TYPE_CHECKING, Any, ClassVar, Set, TypeVar
 
 import attr
 
-from treeno.util import is_abstract
+from treeno.util import is_abstract, is_dictlike, is_listlike
 
 if TYPE_CHECKING:
     from treeno.visitor import TreenoVisitor
@@ -141,9 +141,27 @@ class Sql(ABC):
         """
         if not isinstance(other, Sql) or type(self) is not type(other):
             return False
-        self_dict = attr.asdict(self)
-        other_dict = attr.asdict(other)
-        return self_dict == other_dict
+
+        def equal_content(left: Any, right: Any) -> bool:
+            # The nested nodes have to be of the same type as well, not only have the same attributes
+            if isinstance(left, Sql):
+                return left.equals(right)
+            if is_listlike(left) and is_listlike(right):
+                return len(left) == len(right) and all(
+                    equal_content(*pair) for pair in zip(left, right)
+                )
+            if is_dictlike(left) and is_dictlike(right):
+                return left.keys() == right.keys() and all(
+                    equal_content(left[key], right[key]) for key in left
+                )
+            return not isinstance(right, Sql) and left == right
+
+        # Private attributes are not a part of the SQL, i.e. the schema that a table remembers
+        return all(
+            equal_content(getattr(self, field.name), getattr(other, field.name))
+            for field in attr.fields(type(self))
+            if not field.name.startswith("_")
+        )
 
     def assert_equals(self, other: Any) -> None:
         """Assert whether two :class:`Sql` nodes are the same.
-- 
2.43.0


From 092fc132696e3081a0494062a9eb60bcf3e65dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:40 +0000
Subject: [PATCH 56/92] fix: resolve expressions with subqueries

---
 treeno/datatypes/resolve.py | 4 ++--
 treeno/util.py              | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 5419d9a..a2e7262 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -71,8 +71,8 @@ def resolve_fields(node: Any, schema: Schema) -> Any:
     # (see JoinConfig for example)
     if not isinstance(node, Sql):
         return copy.deepcopy(node)
-    # We don't want to modify data types
-    if isinstance(node, DataType):
+    # We don't want to modify data types, and the fields of a subquery don't belong to this schema
+    if isinstance(node, (DataType, Query)):
         return copy.deepcopy(node)
     if isinstance(node, Field):
         return _make_field(node, schema)
diff --git a/treeno/util.py b/treeno/util.py
index 8121a28..78b72a2 100644
--- a/treeno/util.py
+++ b/treeno/util.py
@@ -69,8 +69,12 @@ def construct_container(var: Iterable[T], it: Iterator[T]) -> Iterable[T]:
 
 
 def children(sql: "Sql") -> Dict[str, Any]:
-    fields_dict = attr.fields_dict(type(sql))
-    return {field_name: getattr(sql, field_name) for field_name in fields_dict}
+    # Private attributes, i.e. the schema that a table remembers, are not a part of the SQL
+    return {
+        field_name: getattr(sql, field_name)
+        for field_name in attr.fields_dict(type(sql))
+        if not field_name.startswith("_")
+    }
 
 
 def is_abstract(cls: Type[T]) -> bool:
-- 
2.43.0


From d954980468db8339a8eb222e1bc3f6fa630feed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:47 +0000
Subject: [PATCH 57/92] fix: resolve fields by both their name and table

---
 treeno/datatypes/resolve.py | 39 ++++++++++++++-----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index a2e7262..3b91c6f 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -6,7 +6,7 @@ import attr
 from treeno.base import Sql
 from treeno.datatypes.builder import row
 from treeno.datatypes.types import DataType
-from treeno.expression import Field, Star
+from treeno.expression import Field, Star, Value
 from treeno.relation import Query, Schema
 from treeno.util import children, is_dictlike, is_listlike
 
@@ -17,35 +17,26 @@ def _make_field(field: Field, schema: Schema) -> Field:
     if isinstance(field.table, Query):
         raise NotImplementedError("Subqueries are not yet supported")
 
-    matching_fields = []
-    for f in schema.fields:
-        if (
-            f.name == field.name
-            and field.table is None
-            or field.table in schema.relation_ids
-        ):
-            matching_fields.append(f)
+    # A field of a complex expression doesn't belong to the schema, but the expression may refer to it
+    if isinstance(field.table, Value):
+        return attr.evolve(field, table=resolve_fields(field.table, schema))
+
+    matching_fields = [
+        f
+        for f in schema.fields
+        if f.name == field.name
+        and (field.table is None or f.source.identifier() == field.table)
+    ]
 
     # If the schema didn't include the field, it should have an unknown type
     if not len(matching_fields):
         return copy.deepcopy(field)
 
     # In the case of there being two identical names, we need there to be only 1 unique field for it.
-    if field.table is None:
-        assert (
-            len(matching_fields) == 1
-        ), f"Expected 1 global field matching name {field.name}, got {len(matching_fields)}"
-        dtype = matching_fields[0].data_type
-    else:
-        # Find the right table by filtering 1 more time
-        filtered_fields = [
-            f for f in matching_fields if f.source.identifier() == field.table
-        ]
-        assert (
-            len(filtered_fields) == 1
-        ), f"Two ambiguous fields with same name and table found {schema}"
-        dtype = filtered_fields[0].data_type
-    return Field(name=field.name, table=field.table, data_type=dtype)
+    assert (
+        len(matching_fields) == 1
+    ), f"Expected 1 field matching {field}, got {len(matching_fields)}"
+    return attr.evolve(field, data_type=matching_fields[0].data_type)
 
 
 def _make_star(star: Star, schema: Schema) -> Star:
-- 
2.43.0


From 066ab7f96a66075a6e9b77e747240c440a6d0926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:55 +0000
Subject: [PATCH 58/92] fix: keep all fields when merging schemas

---
 treeno/relation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 5aedd26..5a77a98 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -173,9 +173,10 @@ class Schema:
         # .. todo:: Should this be deep copies? I don't see a point in trying to deepcopy relations since they're expensive.
         fields = copy.copy(self.fields)
         relation_ids = copy.copy(self.relation_ids)
-        # .. todo:: This is also pretty slow, O(N^2)
+        # Fields may be alike, i.e. unnamed fields of the same type, but we don't want the same field twice
+        field_ids = {id(f) for f in fields}
         for f in another_schema.fields:
-            if f not in fields:
+            if id(f) not in field_ids:
                 fields.append(f)
         relation_ids |= another_schema.relation_ids
         return Schema(fields, relation_ids)
-- 
2.43.0


From ccc3043d3d67922c640a8fae89d6fc0b5f561d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:02 +0000
Subject: [PATCH 59/92] fix: set the data type of TABLE queries

---
 treeno/relation.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 5a77a98..825f1ee 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -649,9 +649,13 @@ class TableQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-        if self.table._column_schema == Schema.empty_schema():
-            return row(dtypes=[f.data_type for f in self.table._column_schema])
-        return unknown()
+        fields = self.table._column_schema.fields
+        if not fields:
+            return unknown()
+        # Special case: If there's only one column, it's not a row.
+        if len(fields) == 1:
+            return fields[0].data_type
+        return row(dtypes=[f.data_type for f in fields])
 
     def sql(self, opts: PrintOptions) -> str:
         builder = StatementPrinter()
-- 
2.43.0


From b454f3185349c777fc288f2feb4723a048164c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:08 +0000
Subject: [PATCH 60/92] fix: resolve the columns of VALUES

---
 treeno/relation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 825f1ee..1d527d7 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -733,8 +733,14 @@ class ValuesQuery(Query):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         # ..todo:: Does ValuesQuery dereference anything by itself?
+        # The values are the rows of the table
+        if self.data_type.type_name == type_consts.ROW:
+            dtypes = self.data_type.parameters["dtypes"]
+        else:
+            dtypes = [self.data_type]
         return Schema(
-            [SchemaField(None, self, val.data_type) for val in self.exprs]
+            [SchemaField(None, self, dtype) for dtype in dtypes],
+            relation_ids=set(),
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-- 
2.43.0


From 73a35904705276d3cde89f88ed72b823587e01b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:50 +0000
Subject: [PATCH 61/92] fix: resolve relations in the namespace they are in

---
 treeno/relation.py | 94 ++++++++++++++++++++++------------------------
 1 file changed, 44 insertions(+), 50 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 1d527d7..9b9cdf5 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -182,6 +182,22 @@ class Schema:
         return Schema(fields, relation_ids)
 
 
+    def shadow(self, another_schema: "Schema") -> "Schema":
+        """Merge two schemas together, where the relations in the other schema hide the relations with the same name
+
+        Args:
+            another_schema: The other schema to merge with, which takes precedence over this one.
+        Returns:
+            A new :class:`Schema` object with both schemas' fields and relations in the same namespace.
+        """
+        fields = [
+            f
+            for f in self.fields
+            if f.source.identifier() not in another_schema.relation_ids
+        ]
+        return Schema(fields, self.relation_ids).merge(another_schema)
+
+
 @value_attr
 class Query(Relation, Value, ABC):
     """Represents a query with filtered outputs.
@@ -214,7 +230,7 @@ class Query(Relation, Value, ABC):
             )
         }
 
-    def _resolve_with(self) -> Schema:
+    def _resolve_with(self, existing_schema: Schema) -> Schema:
         """Resolves the queries in WITH statement with context that carries over.
 
         It's important to note that CTE's can actually refer to previously defined CTE's using FROM:
@@ -228,12 +244,15 @@ class Query(Relation, Value, ABC):
             (1 row)
 
         In the above example, ``b`` is able to refer to ``a`` because it's defined before in the WITH sequence.
+
+        Args:
+            existing_schema: The schema outside of the query, which both the CTE's and the query can refer to
+        Returns:
+            The existing schema along with the CTE's
         """
-        merging_schema = Schema.empty_schema()
         for w in self.with_:
-            new_schema = w.resolve(merging_schema)
-            merging_schema = merging_schema.merge(new_schema)
-        return merging_schema
+            existing_schema = existing_schema.shadow(w.resolve(existing_schema))
+        return existing_schema
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of a couple output-filtering constraints to the query.
@@ -342,12 +361,9 @@ class SetQuery(Query, ABC):
         )
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        left_schema = self.left_query.resolve(
-            maybe_prune_schema(self.left_query, existing_schema)
-        )
-        self.right_query.resolve(
-            maybe_prune_schema(self.right_query, existing_schema)
-        )
+        existing_schema = self._resolve_with(existing_schema)
+        left_schema = self.left_query.resolve(existing_schema)
+        self.right_query.resolve(existing_schema)
         # The column names and such are always taken from the left schema.
         schema_fields = []
         for schema_field in left_schema.fields:
@@ -494,12 +510,10 @@ class SelectQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         from treeno.datatypes.resolve import resolve_fields
 
-        # Pass in existing relations from CTE into from_ as long as from_ is not in its own namespace i.e. a subquery.
+        # Pass in existing relations from CTE into from_
+        existing_schema = self._resolve_with(existing_schema)
         if self.from_ is not None:
-            existing_schema = existing_schema.merge(self._resolve_with())
-            schema = self.from_.resolve(
-                maybe_prune_schema(self.from_, existing_schema)
-            )
+            schema = self.from_.resolve(existing_schema)
             self.select = [resolve_fields(val, schema) for val in self.select]
             self.data_type = self._compute_data_type()
 
@@ -667,8 +681,7 @@ class TableQuery(Query):
     def resolve(self, existing_schema: Schema) -> Schema:
         # We not only need to take the existing schema, but we also need to shadow some fields with the
         # local WITH clause
-        with_schema = self._resolve_with()
-        table_schema = self.table.resolve(with_schema)
+        table_schema = self.table.resolve(self._resolve_with(existing_schema))
         self.data_type = self._compute_data_type()
         return table_schema
 
@@ -796,9 +809,7 @@ class AliasedRelation(Relation):
         return alias_str
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        relation_schema = self.relation.resolve(
-            maybe_prune_schema(self.relation, existing_schema)
-        )
+        relation_schema = self.relation.resolve(existing_schema)
         new_schema_fields = []
         for idx, schema_field in enumerate(relation_schema.fields):
             field_name = (
@@ -978,17 +989,18 @@ class Join(Relation):
         return builder.to_string(opts)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        pruned_left_arg = maybe_prune_schema(
-            self.left_relation, existing_schema
-        )
-        left_schema = self.left_relation.resolve(pruned_left_arg)
-        existing_schema = existing_schema.merge(left_schema)
+        left_schema = self.left_relation.resolve(existing_schema)
         # Pass in the namespace of the first relation to the second. This is important for sql statemnts like
-        # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first
-        pruned_right_arg = maybe_prune_schema(
-            self.right_relation, existing_schema
-        )
-        right_schema = self.right_relation.resolve(pruned_right_arg)
+        # SELECT x FROM a CROSS JOIN UNNEST(a.foo), where UNNEST requires a to be selected first. All other relations
+        # are not aware of it.
+        right_relation = self.right_relation
+        while isinstance(right_relation, (AliasedRelation, TableSample)):
+            right_relation = right_relation.relation
+        if isinstance(right_relation, Unnest):
+            existing_schema = left_schema
+        elif isinstance(right_relation, Lateral):
+            existing_schema = existing_schema.shadow(left_schema)
+        right_schema = self.right_relation.resolve(existing_schema)
         return left_schema.merge(right_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1074,7 +1086,6 @@ class Lateral(Relation):
         return f"LATERAL({self.subquery.sql(opts)})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We explicitly don't maybe_prune_schema here, since lateral needs to explicitly pass it down
         return self.subquery.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1132,7 +1143,7 @@ class TableSample(Relation):
         return f"{relation_sql} TABLESAMPLE {self.sample_type.value}({percentage_sql})"
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        # NOTE: We don't maybe_prune_schema here, because table sample should not affect the namespace scope
+        # NOTE: Table sample should not affect the namespace scope
         return self.relation.resolve(existing_schema)
 
     def visit(self, visitor: GenericVisitor) -> None:
@@ -1162,20 +1173,3 @@ def relation_string(
         return parenthesize(relation_str)
     else:
         return relation_str
-
-
-def maybe_prune_schema(relation: Relation, existing_schema: Schema) -> Schema:
-    """Prune the schema depending on whether the relation will enter a new namespace
-
-    Some relations don't want extra schema information to be passed through because it's in its own parenthesized
-    expression which is not aware of the outer namespace.
-
-    Args:
-        relation: The relation to enter into with the given schema
-        existing_schema: The schema to pass into the relation
-    Returns:
-        Either an empty :class:`Schema` or the original :class:`Schema`.
-    """
-    if isinstance(relation, Query):
-        return Schema.empty_schema()
-    return existing_schema
-- 
2.43.0


From e97369e07cb530deb771c9d3233b04679880c16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:37 +0000
Subject: [PATCH 62/92] fix: don't mix up tables of different schemas

---
 treeno/relation.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 9b9cdf5..028e000 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -627,15 +627,30 @@ class Table(Relation):
             return self._column_schema
         # Otherwise, the schema IS defined e.g. by a previous CTE
         schema_fields = [
-            f
-            for f in existing_schema.fields
-            if f.source.identifier() == self.identifier()
+            f for f in existing_schema.fields if self._refers_to(f.source)
         ]
+        # The relation of the same name is another one
+        if not schema_fields:
+            return self._column_schema
         self._column_schema = Schema(
             schema_fields, relation_ids={self.identifier()}
         )
         return self._column_schema
 
+    def _refers_to(self, relation: Relation) -> bool:
+        if relation.identifier() != self.identifier():
+            return False
+        # Qualified names can't refer to a CTE
+        if not isinstance(relation, Table):
+            return self.schema is None
+        return all(
+            ours is None or theirs is None or ours == theirs
+            for ours, theirs in (
+                (self.schema, relation.schema),
+                (self.catalog, relation.catalog),
+            )
+        )
+
     def identifier(self) -> Optional[str]:
         return self.name
 
-- 
2.43.0


From 8bab848578e9a5375bf51087a4dd1d2630abfc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:46 +0000
Subject: [PATCH 63/92] fix: reassign the fields of TABLE queries

---
 treeno/relation.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 028e000..f7d3e21 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -698,7 +698,13 @@ class TableQuery(Query):
         # local WITH clause
         table_schema = self.table.resolve(self._resolve_with(existing_schema))
         self.data_type = self._compute_data_type()
-        return table_schema
+        # The fields belong to the query, so they can't be qualified by the name of the table anymore
+        fields = [
+            SchemaField(f.name, self, f.data_type) for f in table_schema.fields
+        ]
+        return Schema(
+            fields or [SchemaField(None, self, unknown())], relation_ids=set()
+        )
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.table)
-- 
2.43.0


From 875edcb345cf46637969ea04856fc3cb50388c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:55 +0000
Subject: [PATCH 64/92] fix: resolve column aliases of relations with unknown
 columns

---
 treeno/relation.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index f7d3e21..1c238b5 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -831,16 +831,16 @@ class AliasedRelation(Relation):
 
     def resolve(self, existing_schema: Schema) -> Schema:
         relation_schema = self.relation.resolve(existing_schema)
-        new_schema_fields = []
-        for idx, schema_field in enumerate(relation_schema.fields):
-            field_name = (
-                self.column_aliases[idx]
-                if self.column_aliases
-                else schema_field.name
-            )
-            new_schema_fields.append(
-                SchemaField(field_name, self, schema_field.data_type)
-            )
+        names = [f.name for f in relation_schema.fields]
+        dtypes = [f.data_type for f in relation_schema.fields]
+        if self.column_aliases:
+            # The relation may have columns we don't know of
+            if len(dtypes) != len(self.column_aliases):
+                dtypes = [unknown()] * len(self.column_aliases)
+            names = self.column_aliases
+        new_schema_fields = [
+            SchemaField(name, self, dtype) for name, dtype in zip(names, dtypes)
+        ]
         return Schema(new_schema_fields, relation_ids={self.identifier()})
 
     def identifier(self) -> Optional[str]:
-- 
2.43.0


From e78b09e53ad00ee05281129527d2557f6fad8ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:03 +0000
Subject: [PATCH 65/92] fix: resolve all columns of UNNEST

---
 treeno/relation.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 1c238b5..a316887 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -56,7 +56,7 @@ from treeno.base import (
     Sql,
 )
 from treeno.datatypes import types as type_consts
-from treeno.datatypes.builder import row, unknown
+from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
 from treeno.expression import Literal, Value, value_attr
@@ -1045,7 +1045,9 @@ class Unnest(Relation):
              2
 
     Attributes:
-        arrays: The array(s) to use in an unnest. The i-th array in the list corresponds to the i-th output column.
+        arrays: The array(s) to use in an unnest. The i-th array in the list corresponds to the i-th output column, unless
+            there are maps, which have a column for their keys and values each, or arrays of rows, which have a column
+            for each value of the row.
         with_ordinality: Whether there should be an ordinality column appended at the end of the UNNEST.
     """
 
@@ -1058,10 +1060,17 @@ class Unnest(Relation):
     def _compute_data_type(self) -> DataType:
         dtypes = []
         for val in self.arrays:
-            if val.data_type.type_name != type_consts.ARRAY:
+            parameters = val.data_type.parameters
+            if val.data_type.type_name == type_consts.MAP:
+                dtypes += [parameters["from_dtype"], parameters["to_dtype"]]
+            elif val.data_type.type_name != type_consts.ARRAY:
                 dtypes.append(unknown())
+            elif parameters["dtype"].type_name == type_consts.ROW:
+                dtypes += parameters["dtype"].parameters["dtypes"]
             else:
-                dtypes.append(val.data_type.parameters["dtype"])
+                dtypes.append(parameters["dtype"])
+        if self.with_ordinality:
+            dtypes.append(bigint())
         return row(dtypes=dtypes)
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 9b56ab4011b3011121b94fc2db83227ce87e1b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 66/92] fix: don't resolve stars of unknown relations

---
 treeno/datatypes/resolve.py | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/treeno/datatypes/resolve.py b/treeno/datatypes/resolve.py
index 3b91c6f..693e72e 100644
--- a/treeno/datatypes/resolve.py
+++ b/treeno/datatypes/resolve.py
@@ -1,5 +1,5 @@
 import copy
-from typing import Any, Dict
+from typing import Any, Dict, List
 
 import attr
 
@@ -7,7 +7,7 @@ from treeno.base import Sql
 from treeno.datatypes.builder import row
 from treeno.datatypes.types import DataType
 from treeno.expression import Field, Star, Value
-from treeno.relation import Query, Schema
+from treeno.relation import Query, Schema, SchemaField
 from treeno.util import children, is_dictlike, is_listlike
 
 
@@ -39,16 +39,29 @@ def _make_field(field: Field, schema: Schema) -> Field:
     return attr.evolve(field, data_type=matching_fields[0].data_type)
 
 
+def star_fields(star: Star, schema: Schema) -> List[SchemaField]:
+    """The fields that a star stands for, which is an empty list if they're not known"""
+    if star.table is not None:
+        return [
+            f
+            for f in schema.fields
+            if isinstance(star.table, str)
+            and f.source.identifier() == star.table
+        ]
+    # All of the relations have to be known
+    known_ids = {f.source.identifier() for f in schema.fields}
+    return schema.fields if schema.relation_ids.issubset(known_ids) else []
+
+
 def _make_star(star: Star, schema: Schema) -> Star:
     if isinstance(star.table, Query):
         raise NotImplementedError("Subqueries are not yet supported")
-    matching_fields = schema.fields
-    if star.table is not None:
-        matching_fields = [
-            f for f in matching_fields if f.source.identifier() == star.table
-        ]
+    matching_fields = star_fields(star, schema)
+    # If the schema didn't include the fields, the star should have an unknown type
+    if not matching_fields:
+        return copy.deepcopy(star)
     dtype = row(dtypes=[f.data_type for f in matching_fields])
-    return Star(table=star.table, data_type=dtype)
+    return attr.evolve(star, data_type=dtype)
 
 
 def resolve_fields(node: Any, schema: Schema) -> Any:
-- 
2.43.0


From 435b97899319a622f7a6a3f7152d3e033ec3aa3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 67/92] fix: resolve stars to their columns

---
 treeno/relation.py | 48 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index a316887..577f0cf 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -59,7 +59,7 @@ from treeno.datatypes import types as type_consts
 from treeno.datatypes.builder import bigint, row, unknown
 from treeno.datatypes.conversions import common_supertype
 from treeno.datatypes.types import DataType
-from treeno.expression import Literal, Value, value_attr
+from treeno.expression import AliasedStar, Literal, Star, Value, value_attr
 from treeno.groupby import GroupBy
 from treeno.orderby import OrderTerm
 from treeno.printer import StatementPrinter, join_stmts, pad
@@ -502,31 +502,51 @@ class SelectQuery(Query):
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
+        dtypes = []
+        for val in self.select:
+            # Resolved stars stand for all of the columns in their row
+            if (
+                isinstance(val, (Star, AliasedStar))
+                and val.data_type.type_name == type_consts.ROW
+            ):
+                dtypes += val.data_type.parameters["dtypes"]
+            else:
+                dtypes.append(val.data_type)
         # Special case: If the select clause only has one output element, it's not a row.
-        if len(self.select) == 1:
-            return self.select[0].data_type
-        return row(dtypes=[val.data_type for val in self.select])
+        if len(dtypes) == 1:
+            return dtypes[0]
+        return row(dtypes=dtypes)
 
     def resolve(self, existing_schema: Schema) -> Schema:
-        from treeno.datatypes.resolve import resolve_fields
+        from treeno.datatypes.resolve import resolve_fields, star_fields
 
         # Pass in existing relations from CTE into from_
         existing_schema = self._resolve_with(existing_schema)
+        schema = Schema.empty_schema()
         if self.from_ is not None:
             schema = self.from_.resolve(existing_schema)
             self.select = [resolve_fields(val, schema) for val in self.select]
             self.data_type = self._compute_data_type()
 
-        schema_fields = []
+        columns = []
         for value in self.select:
-            # All schema fields have the source to the current object
-            schema_fields.append(
-                SchemaField(
-                    name=value.identifier(),
-                    source=self,
-                    data_type=value.data_type,
-                )
-            )
+            star_columns = []
+            if isinstance(value, (Star, AliasedStar)):
+                star = value.star if isinstance(value, AliasedStar) else value
+                star_columns = [
+                    (f.name, f.data_type) for f in star_fields(star, schema)
+                ]
+            if isinstance(value, AliasedStar):
+                dtypes = [dtype for _, dtype in star_columns]
+                if len(dtypes) != len(value.aliases):
+                    dtypes = [unknown()] * len(value.aliases)
+                star_columns = list(zip(value.aliases, dtypes))
+            columns += star_columns or [(value.identifier(), value.data_type)]
+        # All schema fields have the source to the current object
+        schema_fields = [
+            SchemaField(name=name, source=self, data_type=dtype)
+            for name, dtype in columns
+        ]
         return Schema(schema_fields, relation_ids=set())
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From ee081a9ca668b753a7e90fb2447ce14591c85837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 68/92] fix: resolve set operations to the types of both
 queries

---
 treeno/relation.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 577f0cf..d26fbf5 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -363,15 +363,21 @@ class SetQuery(Query, ABC):
     def resolve(self, existing_schema: Schema) -> Schema:
         existing_schema = self._resolve_with(existing_schema)
         left_schema = self.left_query.resolve(existing_schema)
-        self.right_query.resolve(existing_schema)
+        right_schema = self.right_query.resolve(existing_schema)
+        self.data_type = self._compute_data_type()
+        # The number of columns isn't known before all stars are resolved
+        comparable = len(left_schema.fields) == len(right_schema.fields)
         # The column names and such are always taken from the left schema.
         schema_fields = []
-        for schema_field in left_schema.fields:
+        for idx, left_field in enumerate(left_schema.fields):
+            dtype = unknown()
+            if comparable:
+                dtype = common_supertype(
+                    left_field.data_type, right_schema.fields[idx].data_type
+                )
             # Basically take the schema that belonged to left schema and re-assign it to this set query
-            schema_fields.append(
-                SchemaField(schema_field.name, self, schema_field.data_type)
-            )
-        return Schema(schema_fields, relation_ids=left_schema.relation_ids)
+            schema_fields.append(SchemaField(left_field.name, self, dtype))
+        return Schema(schema_fields, relation_ids=set())
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_query)
-- 
2.43.0


From f2ad43d2ae9d737ddc8f6d5ed623b6fba6ec8fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:06 +0000
Subject: [PATCH 69/92] fix: don't set the data type of queries with unresolved
 stars

---
 treeno/relation.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index d26fbf5..77755fd 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -510,14 +510,14 @@ class SelectQuery(Query):
     def _compute_data_type(self) -> DataType:
         dtypes = []
         for val in self.select:
+            if not isinstance(val, (Star, AliasedStar)):
+                dtypes.append(val.data_type)
             # Resolved stars stand for all of the columns in their row
-            if (
-                isinstance(val, (Star, AliasedStar))
-                and val.data_type.type_name == type_consts.ROW
-            ):
+            elif val.data_type.type_name == type_consts.ROW:
                 dtypes += val.data_type.parameters["dtypes"]
+            # We don't know how many columns there are
             else:
-                dtypes.append(val.data_type)
+                return unknown()
         # Special case: If the select clause only has one output element, it's not a row.
         if len(dtypes) == 1:
             return dtypes[0]
-- 
2.43.0


From 9be9b120d80fd81cd1bacc9f8ccfe047bc843547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:17 +0000
Subject: [PATCH 70/92] fix: resolve the columns of USING and NATURAL joins

---
 treeno/relation.py | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 77755fd..a9448c6 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -42,6 +42,7 @@ schemas. More information can be found in :class:`Relation`.
 """
 
 import copy
+import functools
 from abc import ABC, abstractmethod
 from enum import Enum
 from typing import Dict, List, Optional, Set, Type
@@ -1048,7 +1049,43 @@ class Join(Relation):
         elif isinstance(right_relation, Lateral):
             existing_schema = existing_schema.shadow(left_schema)
         right_schema = self.right_relation.resolve(existing_schema)
-        return left_schema.merge(right_schema)
+        return self._join_columns(left_schema, right_schema)
+
+    def _join_columns(self, left_schema: Schema, right_schema: Schema) -> Schema:
+        left_names, right_names = (
+            [f.name for f in schema.fields if f.name is not None]
+            for schema in (left_schema, right_schema)
+        )
+        if isinstance(self.config.criteria, JoinUsingCriteria):
+            names = self.config.criteria.column_names
+        elif self.config.natural:
+            names = [name for name in left_names if name in right_names]
+        else:
+            names = []
+
+        # The columns to join on are only in the output once, and they belong to neither of the relations
+        joined_fields = []
+        for name in names:
+            assert (
+                left_names.count(name) <= 1 and right_names.count(name) <= 1
+            ), f"Ambiguous column {name} to join on"
+            dtypes = [
+                f.data_type
+                for f in left_schema.fields + right_schema.fields
+                if f.name == name
+            ]
+            dtype = functools.reduce(common_supertype, dtypes, unknown())
+            joined_fields.append(SchemaField(name, self, dtype))
+
+        schema = left_schema.merge(right_schema)
+        known_ids = {f.source.identifier() for f in schema.fields}
+        fields = [f for f in schema.fields if f.name not in names]
+        # Relations without any other columns are still known
+        relation_ids = schema.relation_ids - known_ids
+        relation_ids |= schema.relation_ids & {
+            f.source.identifier() for f in fields
+        }
+        return Schema(joined_fields + fields, relation_ids=relation_ids)
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.left_relation)
-- 
2.43.0


From 0e9cd93e6344240d1d8c25e2cc83dd2b5772e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 71/92] fix: let visitors reach every part of a query and an
 aggregate

---
 treeno/functions/aggregate.py | 24 ++++++++++++++++++++++++
 treeno/relation.py            | 22 ++++++++++++++++++++--
 treeno/visitor.py             |  3 +++
 3 files changed, 47 insertions(+), 2 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index b98bae7..add9715 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -66,6 +66,15 @@ class AggregateFunction(Function, ABC):
             [order.sql(opts) for order in self.orderby], opts
         )
 
+    def visit_modifiers(self, visitor: GenericVisitor) -> None:
+        """Visits everything that isn't an argument, which comes after the arguments"""
+        for order in self.orderby or []:
+            visitor.visit(order)
+        if self.filter_:
+            visitor.visit(self.filter_)
+        if self.window:
+            visitor.visit(self.window)
+
     def to_string(self, values: List[Value], opts: PrintOptions) -> str:
         arg_string = join_stmts([value.operand_sql(opts) for value in values], opts)
         if self.distinct:
@@ -96,6 +105,7 @@ class UnaryAggregateFunction(AggregateFunction, ABC):
 
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.value)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -118,6 +128,7 @@ class BinaryStatsFunction(AggregateFunction, ABC):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.x)
         visitor.visit(self.y)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -279,6 +290,7 @@ class ListAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.overflow_filler:
             visitor.visit(self.overflow_filler)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -302,6 +314,7 @@ class Max(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -327,6 +340,7 @@ class MaxBy(AggregateFunction):
         visitor.visit(self.max_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -350,6 +364,7 @@ class Min(AggregateFunction):
         visitor.visit(self.value)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -375,6 +390,7 @@ class MinBy(AggregateFunction):
         visitor.visit(self.min_by)
         if self.num_values:
             visitor.visit(self.num_values)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -420,6 +436,7 @@ class MapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -448,6 +465,7 @@ class MultiMapAgg(AggregateFunction):
     def visit(self, visitor: GenericVisitor) -> None:
         visitor.visit(self.key)
         visitor.visit(self.value)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -471,6 +489,7 @@ class ApproxDistinct(AggregateFunction):
         visitor.visit(self.key)
         if self.epsilon:
             visitor.visit(self.epsilon)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -492,6 +511,7 @@ class ApproxMostFrequent(AggregateFunction):
         visitor.visit(self.buckets)
         visitor.visit(self.value)
         visitor.visit(self.capacity)
+        self.visit_modifiers(visitor)
 
 
 @value_attr(init=False)
@@ -532,6 +552,7 @@ class ApproxPercentile(AggregateFunction):
         visitor.visit(self.percentage)
         if self.weight:
             visitor.visit(self.weight)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -579,6 +600,7 @@ class NumericHistogram(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -609,6 +631,7 @@ class QDigestAgg(AggregateFunction):
             visitor.visit(self.weight)
         if self.accuracy:
             visitor.visit(self.accuracy)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
@@ -632,6 +655,7 @@ class TDigestAgg(AggregateFunction):
         visitor.visit(self.value)
         if self.weight:
             visitor.visit(self.weight)
+        self.visit_modifiers(visitor)
 
 
 @value_attr
diff --git a/treeno/relation.py b/treeno/relation.py
index a9448c6..746a442 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -215,6 +215,14 @@ class Query(Relation, Value, ABC):
     def operand_sql(self, opts: PrintOptions) -> str:
         return parenthesize(self.sql(opts))
 
+    def visit_with(self, visitor: GenericVisitor) -> None:
+        for query in self.with_:
+            visitor.visit(query)
+
+    def visit_orderby(self, visitor: GenericVisitor) -> None:
+        for order in self.orderby or []:
+            visitor.visit(order)
+
     def _with_query_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
         """Creates a dictionary mapping of the WITH clause to the queries.
 
@@ -381,8 +389,10 @@ class SetQuery(Query, ABC):
         return Schema(schema_fields, relation_ids=set())
 
     def visit(self, visitor: GenericVisitor) -> None:
+        self.visit_with(visitor)
         visitor.visit(self.left_query)
         visitor.visit(self.right_query)
+        self.visit_orderby(visitor)
 
 
 @value_attr
@@ -591,7 +601,9 @@ class SelectQuery(Query):
         return builder.to_string(opts)
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.select)
+        self.visit_with(visitor)
+        for val in self.select:
+            visitor.visit(val)
         if self.from_:
             visitor.visit(self.from_)
         if self.where:
@@ -603,6 +615,7 @@ class SelectQuery(Query):
         if self.window:
             for window in self.window.values():
                 visitor.visit(window)
+        self.visit_orderby(visitor)
 
 
 @attr.s
@@ -734,7 +747,9 @@ class TableQuery(Query):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
+        self.visit_with(visitor)
         visitor.visit(self.table)
+        self.visit_orderby(visitor)
 
 
 @value_attr
@@ -805,8 +820,10 @@ class ValuesQuery(Query):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
+        self.visit_with(visitor)
         for expr in self.exprs:
             visitor.visit(expr)
+        self.visit_orderby(visitor)
 
 
 @attr.s
@@ -1002,7 +1019,8 @@ class JoinConfig(Sql):
         )
 
     def visit(self, visitor: GenericVisitor) -> None:
-        visitor.visit(self.criteria)
+        if self.criteria:
+            visitor.visit(self.criteria)
 
 
 @attr.s
diff --git a/treeno/visitor.py b/treeno/visitor.py
index b526505..b233812 100644
--- a/treeno/visitor.py
+++ b/treeno/visitor.py
@@ -253,6 +253,9 @@ class TreenoVisitor(Generic[T]):
     def visit_CurrentTimestamp(self, node: "CurrentTimestamp") -> T:
         ...
 
+    def visit_Variable(self, node: "Lambda.Variable") -> T:
+        ...
+
     def visit_Between(self, node: "Between") -> T:
         ...
 
-- 
2.43.0


From 992b43b455d6dd41be973305641ef6a98340b183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:42 +0000
Subject: [PATCH 72/92] fix: types of MAX/MIN with a number of values and of
 timestamps without a precision at a time zone

---
 treeno/functions/aggregate.py | 28 ++++++++++++++++++++++++----
 treeno/functions/datetime.py  |  9 ++++++---
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index add9715..b624e7f 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -302,7 +302,12 @@ class Max(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # With a number of values the result is an array of the values
+        self.data_type = (
+            array(dtype=self.value.data_type)
+            if self.num_values
+            else self.value.data_type
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -327,7 +332,12 @@ class MaxBy(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # With a number of values the result is an array of the values
+        self.data_type = (
+            array(dtype=self.value.data_type)
+            if self.num_values
+            else self.value.data_type
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.max_by]
@@ -352,7 +362,12 @@ class Min(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # With a number of values the result is an array of the values
+        self.data_type = (
+            array(dtype=self.value.data_type)
+            if self.num_values
+            else self.value.data_type
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value]
@@ -377,7 +392,12 @@ class MinBy(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
-        self.data_type = self.value.data_type
+        # With a number of values the result is an array of the values
+        self.data_type = (
+            array(dtype=self.value.data_type)
+            if self.num_values
+            else self.value.data_type
+        )
 
     def sql(self, opts: PrintOptions) -> str:
         values = [self.value, self.min_by]
diff --git a/treeno/functions/datetime.py b/treeno/functions/datetime.py
index 32a2657..35f57f9 100644
--- a/treeno/functions/datetime.py
+++ b/treeno/functions/datetime.py
@@ -135,8 +135,9 @@ class AtTimezone(Function):
         # If it's something else like unknown, then we just keep the data type unknown
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision is not always given
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -156,8 +157,9 @@ class WithTimezone(Function):
     def __attrs_post_init__(self) -> None:
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision is not always given
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
     def sql(self, opts: PrintOptions) -> str:
@@ -198,8 +200,9 @@ class FromUnixtime(Function):
     def __attrs_post_init__(self) -> None:
         dtype = self.value.data_type
         if dtype.type_name == type_consts.TIMESTAMP:
+            # The precision is not always given
             self.data_type = timestamp(
-                precision=dtype.parameters["precision"], timezone=True
+                **{**dtype.parameters, "timezone": True}
             )
 
         if self.zone:
-- 
2.43.0


From a69f6b872e4a3ff030fce6f839ce39ce6c037f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:52 +0000
Subject: [PATCH 73/92] fix: command line trees of texts with parentheses and
 of nodes with dictionaries, and unnamed columns in schemas

---
 treeno/cli.py           |  4 ++--
 treeno/grammar/parse.py | 15 +++++++++++----
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/treeno/cli.py b/treeno/cli.py
index 7071640..e98effe 100644
--- a/treeno/cli.py
+++ b/treeno/cli.py
@@ -83,7 +83,7 @@ def treeify(node: Any) -> Any:
     if is_dictlike(node):
         return Tree(
             f"<{type(node).__name__}>",
-            [Tree(k, treeify(v)) for k, v in node.items()],
+            [Tree(k, [treeify(v)]) for k, v in node.items()],
         )
     if not isinstance(node, Sql):
         return str(node)
@@ -123,7 +123,7 @@ def schema(sql: str) -> None:
     for idx, field in enumerate(schema.fields):
         field_string = (
             typer.style("<none>", fg=typer.colors.RED, bold=True)
-            if field is None
+            if field.name is None
             else field.name
         )
         dtype_string = (
diff --git a/treeno/grammar/parse.py b/treeno/grammar/parse.py
index c24947e..7c6ff9d 100644
--- a/treeno/grammar/parse.py
+++ b/treeno/grammar/parse.py
@@ -1,4 +1,5 @@
 from io import StringIO
+from typing import Union
 
 import nltk
 from antlr4 import CommonTokenStream, Token
@@ -71,9 +72,15 @@ class AST:
 
 
 def tree(ast: AST, node: ParserRuleContext) -> str:
-    parenthetical_tree = nltk.Tree.fromstring(
-        Trees.toStringTree(node, None, ast.parser())
-    )
+    rule_names = ast.parser().ruleNames
+
+    def to_nltk(child) -> Union[nltk.Tree, str]:
+        # The text of a token can be anything, i.e. parentheses, so this can't go through a string
+        text = Trees.getNodeText(child, rule_names)
+        if not child.getChildCount():
+            return text
+        return nltk.Tree(text, [to_nltk(part) for part in child.getChildren()])
+
     sio = StringIO()
-    parenthetical_tree.pretty_print(stream=sio)
+    to_nltk(node).pretty_print(stream=sio)
     return sio.getvalue()
-- 
2.43.0


From dcdd7792854c2150239fb1839b4d77345217e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:55 +0000
Subject: [PATCH 74/92] fix: print NOT over = and <> as such, so that it reads
 back as the same tree

---
 treeno/expression.py | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index e9a9ab1..0621395 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -626,8 +626,6 @@ class Not(UnaryExpression):
                 InList,
                 InQuery,
                 Between,
-                Equal,
-                NotEqual,
             ),
         ):
             return self.value.to_string(opts, negate=True)
@@ -651,13 +649,8 @@ class Equal(BinaryExpression):
     def __attrs_post_init__(self) -> None:
         self.data_type = boolean()
 
-    def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        if negate:
-            return NotEqual(self.left, self.right).sql(opts)
-        return builtin_binary_str(self, "{left} = {right}", opts)
-
     def sql(self, opts: PrintOptions) -> str:
-        return self.to_string(opts, negate=False)
+        return builtin_binary_str(self, "{left} = {right}", opts)
 
 
 @value_attr
@@ -665,13 +658,8 @@ class NotEqual(BinaryExpression):
     def __attrs_post_init__(self) -> None:
         self.data_type = boolean()
 
-    def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
-        if negate:
-            return Equal(self.left, self.right).sql(opts)
-        return builtin_binary_str(self, "{left} <> {right}", opts)
-
     def sql(self, opts: PrintOptions) -> str:
-        return self.to_string(opts, negate=False)
+        return builtin_binary_str(self, "{left} <> {right}", opts)
 
 
 @value_attr
-- 
2.43.0


From 82aa95a89d93247c94346e236993a6116c8a6750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 75/92] fix: keep the plus sign inside of the value of an
 interval

---
 treeno/builder/convert.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 24a94f7..10eb1e3 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -586,17 +586,15 @@ class ConvertVisitor(SqlBaseVisitor):
     @overrides
     def visitInterval(self, ctx: SqlBaseParser.IntervalContext) -> Interval:
         string_value = self.visit(ctx.string())
-        # Unary plus is essentially a no-op.
-        if string_value.startswith("+"):
-            string_value = string_value.lstrip("+")
-
         # There's a pesky sign that can appear outside of the string. We do some inference on the string
         # and push the negation inside the string. I've verified that -"3-100" YEAR TO MONTH is equivalent to "-3-100".
         if ctx.sign and ctx.sign.text == "-":
             # I've tested this and the unary operator +/- can only be applied once to the values inside the string.
             # This means the string can either be +value, -value, or value.
             if string_value.startswith("-"):
-                string_value = string_value.lstrip("-")
+                string_value = string_value[1:]
+            elif string_value.startswith("+"):
+                string_value = "-" + string_value[1:]
             else:
                 string_value = "-" + string_value
         parameters = {
-- 
2.43.0


From b729637b92965c1163a0b98238484382cfe15247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:20 +0000
Subject: [PATCH 76/92] fix: refuse scales of decimals and lengths of
 characters which are out of range

---
 treeno/datatypes/types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/treeno/datatypes/types.py b/treeno/datatypes/types.py
index 5d6bdd2..e6f30f4 100644
--- a/treeno/datatypes/types.py
+++ b/treeno/datatypes/types.py
@@ -208,9 +208,18 @@ def validate_row(row: DataType) -> None:
 
 
 def validate_decimal(decimal: DataType) -> None:
-    # TODO: Should we validate the scale as well?
     precision = decimal.parameters["precision"]
     assert 0 <= precision <= 38, f"Precision {precision} is not supported"
+    scale = decimal.parameters["scale"]
+    assert (
+        0 <= scale <= precision
+    ), f"Scale {scale} is not supported with precision {precision}"
+
+
+def validate_characters(characters: DataType) -> None:
+    max_chars = characters.parameters.get("max_chars", None)
+    if max_chars is not None:
+        assert max_chars >= 0, f"Length {max_chars} is not supported"
 
 
 def validate_nonparametric(nonparametric: DataType) -> None:
@@ -303,4 +312,6 @@ VALIDATORS: Dict[str, Callable[[DataType], None]] = {
     ROW: validate_row,
     INTERVAL: validate_interval,
     DECIMAL: validate_decimal,
+    VARCHAR: validate_characters,
+    CHAR: validate_characters,
 }
-- 
2.43.0


From 094427c1fd4d7eeb60165eba43e2301e73fe46b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:15 +0000
Subject: [PATCH 77/92] fix: keep the precision and time zone of times promoted
 to timestamps

---
 treeno/datatypes/conversions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/datatypes/conversions.py b/treeno/datatypes/conversions.py
index 26546fb..00f04cc 100644
--- a/treeno/datatypes/conversions.py
+++ b/treeno/datatypes/conversions.py
@@ -118,6 +118,8 @@ def common_datetime(dtype1: DataType, dtype2: DataType) -> DataType:
     if {dtype1.type_name, dtype2.type_name} == {DATE, TIME}:
         return unknown()
     # Currently there's either TIMESTAMP, TIME or TIMESTAMP, DATE, both of which get promoted to timestamp
+    if TIME in {dtype1.type_name, dtype2.type_name}:
+        return timestamp(**common_timelike_parameters(dtype1, dtype2))
     return dtype1 if dtype1.type_name == TIMESTAMP else dtype2
 
 
-- 
2.43.0


From ec278eddc630c314cc6dc55488e766f8c561ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:44 +0000
Subject: [PATCH 78/92] fix: refuse decimals which have no literal in SQL

---
 treeno/datatypes/inference.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treeno/datatypes/inference.py b/treeno/datatypes/inference.py
index 3b845d4..2db5759 100644
--- a/treeno/datatypes/inference.py
+++ b/treeno/datatypes/inference.py
@@ -57,6 +57,8 @@ def infer_decimal(decimal_value: Decimal) -> DataType:
     """We must infer a decimal from str and not float because we'll never be sure what the
     actual scale is due to floats being imprecise.
     """
+    if not decimal_value.is_finite():
+        raise ValueError(f"Value {decimal_value} has no literal in SQL")
     # The sign and exponent are not part of the digits
     str_val = format(decimal_value.copy_abs(), "f")
     if "." not in str_val:
-- 
2.43.0


From 8d672db2751d4a0258797d00f51c0234870e8dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:44 +0000
Subject: [PATCH 79/92] fix: keep the columns of a table joined with itself
 apart

---
 treeno/relation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index 746a442..cddbbab 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -666,8 +666,11 @@ class Table(Relation):
         if self.name not in existing_schema.relation_ids:
             return self._column_schema
         # Otherwise, the schema IS defined e.g. by a previous CTE
+        # Every reference to the table has its own fields, so that they stay apart when it's joined with itself
         schema_fields = [
-            f for f in existing_schema.fields if self._refers_to(f.source)
+            attr.evolve(f)
+            for f in existing_schema.fields
+            if self._refers_to(f.source)
         ]
         # The relation of the same name is another one
         if not schema_fields:
-- 
2.43.0


From f1d288a4337153f000072ad5dc66b2e7108a7bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:38 +0000
Subject: [PATCH 80/92] fix: let qualified names refer to tables with the name
 of a CTE

---
 treeno/relation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index cddbbab..c434c45 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -183,11 +183,14 @@ class Schema:
         return Schema(fields, relation_ids)
 
 
-    def shadow(self, another_schema: "Schema") -> "Schema":
+    def shadow(
+        self, another_schema: "Schema", keep_tables: bool = False
+    ) -> "Schema":
         """Merge two schemas together, where the relations in the other schema hide the relations with the same name
 
         Args:
             another_schema: The other schema to merge with, which takes precedence over this one.
+            keep_tables: Whether to keep the fields of tables, which qualified names can still refer to.
         Returns:
             A new :class:`Schema` object with both schemas' fields and relations in the same namespace.
         """
@@ -195,6 +198,7 @@ class Schema:
             f
             for f in self.fields
             if f.source.identifier() not in another_schema.relation_ids
+            or (keep_tables and isinstance(f.source, Table))
         ]
         return Schema(fields, self.relation_ids).merge(another_schema)
 
@@ -260,7 +264,9 @@ class Query(Relation, Value, ABC):
             The existing schema along with the CTE's
         """
         for w in self.with_:
-            existing_schema = existing_schema.shadow(w.resolve(existing_schema))
+            existing_schema = existing_schema.shadow(
+                w.resolve(existing_schema), keep_tables=True
+            )
         return existing_schema
 
     def _constraint_string_builder(self, opts: PrintOptions) -> Dict[str, str]:
@@ -672,6 +678,11 @@ class Table(Relation):
             for f in existing_schema.fields
             if self._refers_to(f.source)
         ]
+        # CTE's hide the tables with the same name
+        cte_fields = [
+            f for f in schema_fields if not isinstance(f.source, Table)
+        ]
+        schema_fields = cte_fields or schema_fields
         # The relation of the same name is another one
         if not schema_fields:
             return self._column_schema
-- 
2.43.0


From e411d63d8b416b6bc0ecc12a84c62b6c103157b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:28 +0000
Subject: [PATCH 81/92] fix: refuse IGNORE NULLS on an aggregate without a
 window, which has no SQL

---
 treeno/functions/aggregate.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index b624e7f..9efb7c1 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -44,6 +44,14 @@ class AggregateFunction(Function, ABC):
     # Whether to aggregate distinct arguments only
     distinct: bool = attr.ib(default=False, kw_only=True)
 
+    @null_treatment.validator
+    def _check_null_treatment(
+        self, attribute: attr.Attribute, value: NullTreatment
+    ) -> None:
+        assert (
+            value == NullTreatment.default() or self.window
+        ), "Null treatment can only be specified along with a window"
+
     def get_constraint_string(self, opts: PrintOptions) -> str:
         constraint_builder = StatementPrinter()
         if self.filter_:
-- 
2.43.0


From cc577369d9746a65a90feec99763bbda2d98b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:53 +0000
Subject: [PATCH 82/92] fix: refuse a negative OFFSET or LIMIT, which has no
 SQL

---
 treeno/relation.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index c434c45..778169d 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -216,6 +216,15 @@ class Query(Relation, Value, ABC):
     orderby: Optional[List[OrderTerm]] = attr.ib(default=None, kw_only=True)
     with_: List["AliasedRelation"] = attr.ib(factory=list, kw_only=True)
 
+    @offset.validator
+    @limit.validator
+    def _check_row_count(
+        self, attribute: attr.Attribute, value: Optional[int]
+    ) -> None:
+        assert (
+            value is None or value >= 0
+        ), f"Negative {attribute.name} {value} is not supported"
+
     def operand_sql(self, opts: PrintOptions) -> str:
         return parenthesize(self.sql(opts))
 
-- 
2.43.0


From 1563d05d0063d1d35a5d0b64c3012d76e3194a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:24 +0000
Subject: [PATCH 83/92] fix: refuse empty lists in places where SQL needs at
 least one element

---
 treeno/expression.py | 3 +++
 treeno/groupby.py    | 5 +++++
 treeno/relation.py   | 7 +++++++
 3 files changed, 15 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index 0621395..a68f7e5 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -344,6 +344,7 @@ class AliasedStar(Value):
     aliases: List[str] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.aliases), "There must be at least one alias of a star"
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
@@ -834,6 +835,7 @@ class InList(Expression):
     exprs: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "There must be at least one value in an IN list"
         self.data_type = boolean()
 
     def to_string(self, opts: PrintOptions, negate: bool = False) -> str:
@@ -921,6 +923,7 @@ class RowConstructor(Expression):
     values: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.values), "There must be at least one value in a row"
         self.data_type = row(dtypes=[value.data_type for value in self.values])
 
     def sql(self, opts: PrintOptions) -> str:
diff --git a/treeno/groupby.py b/treeno/groupby.py
index 6028ae4..7300eed 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -19,6 +19,11 @@ class GroupBy(Sql):
     groups: List[Group] = attr.ib()
     groupby_quantifier: SetQuantifier = attr.ib(factory=SetQuantifier.default)
 
+    def __attrs_post_init__(self) -> None:
+        assert (
+            len(self.groups) > 0
+        ), "There must be at least one group in a GROUP BY"
+
     def sql(self, opts: PrintOptions) -> str:
         groupby_string = join_stmts(
             [group.sql(opts) for group in self.groups], opts
diff --git a/treeno/relation.py b/treeno/relation.py
index 778169d..4850f6a 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -815,6 +815,7 @@ class ValuesQuery(Query):
     exprs: List[Value] = attr.ib()
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.exprs), "There must be at least one row in VALUES"
         for val in self.exprs:
             if self.data_type == unknown():
                 self.data_type = val.data_type
@@ -973,6 +974,11 @@ class JoinUsingCriteria(JoinCriteria):
     # both the left and right relations of the join.
     column_names: List[str] = attr.ib()
 
+    def __attrs_post_init__(self) -> None:
+        assert len(
+            self.column_names
+        ), "There must be at least one column name to join on"
+
     def build_sql(self, opts: PrintOptions) -> Dict[str, str]:
         return {"USING": parenthesize(join_identifiers(self.column_names, opts))}
 
@@ -1159,6 +1165,7 @@ class Unnest(Relation):
     with_ordinality: bool = attr.ib(default=False, kw_only=True)
 
     def __attrs_post_init__(self) -> None:
+        assert len(self.arrays), "There must be at least one array to unnest"
         self.data_type = self._compute_data_type()
 
     def _compute_data_type(self) -> DataType:
-- 
2.43.0


From 07e6918df0c6cf3843ff248e50e04da3f579923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 84/92] fix: refuse joins without criteria and natural cross
 joins, which have no SQL

---
 treeno/relation.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/treeno/relation.py b/treeno/relation.py
index 4850f6a..be1cb03 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -1036,6 +1036,11 @@ class JoinConfig(Sql):
     def __attrs_post_init__(self):
         if self.join_type == JoinType.CROSS:
             assert not self.criteria, "Cross joins cannot specify join criteria"
+            assert not self.natural, "Cross joins cannot be natural"
+        elif not self.criteria:
+            assert (
+                self.natural
+            ), "Joins must specify join criteria unless they're natural or cross joins"
 
         if self.criteria:
             assert (
-- 
2.43.0


From aa5b6bf08af9bcc123ba6422066de2488775da13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:51 +0000
Subject: [PATCH 85/92] fix: refuse the accuracy of QDIGEST_AGG without a
 weight, which would become the weight

---
 treeno/functions/aggregate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/functions/aggregate.py b/treeno/functions/aggregate.py
index 9efb7c1..fa1b05e 100644
--- a/treeno/functions/aggregate.py
+++ b/treeno/functions/aggregate.py
@@ -643,6 +643,9 @@ class QDigestAgg(AggregateFunction):
     )
 
     def __attrs_post_init__(self) -> None:
+        assert (
+            not self.accuracy or self.weight
+        ), "QDIGEST_AGG requires a weight in order to specify the accuracy"
         self.data_type = qdigest(dtype=self.value.data_type)
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From 7eb2f5087d78c40f957620095c4d871480ff4f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:00 +0000
Subject: [PATCH 86/92] fix: refuse a table with an empty catalog and no schema

---
 treeno/relation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treeno/relation.py b/treeno/relation.py
index be1cb03..231304e 100644
--- a/treeno/relation.py
+++ b/treeno/relation.py
@@ -666,9 +666,9 @@ class Table(Relation):
     _column_schema: Schema = attr.ib(factory=Schema.empty_schema)
 
     def __attrs_post_init__(self) -> None:
-        if self.catalog:
+        if self.catalog is not None:
             assert (
-                self.schema
+                self.schema is not None
             ), "If a catalog is specified, a schema must be specified as well"
         if self.name not in self._column_schema.relation_ids:
             self._column_schema.relation_ids.add(self.name)
-- 
2.43.0


From 8a8d36facfa73bef544bda485c217980d3474d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:27 +0000
Subject: [PATCH 87/92] fix: refuse unknown units at the end of an interval

---
 treeno/expression.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index a68f7e5..15ad59d 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -957,6 +957,14 @@ class Interval(Expression):
                 "SECOND",
             ), f"Unknown interval type {self.from_interval}"
             self.data_type = interval(from_interval="DAY", to_interval="SECOND")
+        assert self.to_interval is None or self.to_interval in (
+            "YEAR",
+            "MONTH",
+            "DAY",
+            "HOUR",
+            "MINUTE",
+            "SECOND",
+        ), f"Unknown interval type {self.to_interval}"
 
     def sql(self, opts: PrintOptions) -> str:
         to_interval_str = f" TO {self.to_interval}" if self.to_interval else ""
-- 
2.43.0


From 1155840f5d0476ef233a4ce42f0e4fcbc204fc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:08 +0000
Subject: [PATCH 88/92] fix: refuse COALESCE without values, like the parser
 does

---
 treeno/functions/conditional.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/treeno/functions/conditional.py b/treeno/functions/conditional.py
index fd6a76e..67d1e9e 100644
--- a/treeno/functions/conditional.py
+++ b/treeno/functions/conditional.py
@@ -46,6 +46,7 @@ class Coalesce(Function):
     values: List[Value] = attr.ib(converter=wrap_literal_list)
 
     def __attrs_post_init__(self) -> None:
+        assert self.values, "COALESCE requires at least one value"
         self.data_type = functools.reduce(
             common_supertype, [val.data_type for val in self.values], unknown()
         )
-- 
2.43.0


From 9a58c4b4abebd1b89a16c948bb8ee347de424835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:59 +0000
Subject: [PATCH 89/92] fix: refuse aliases of a star without a table, which
 has no spelling

---
 treeno/expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/treeno/expression.py b/treeno/expression.py
index 15ad59d..894fb33 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -345,6 +345,9 @@ class AliasedStar(Value):
 
     def __attrs_post_init__(self) -> None:
         assert len(self.aliases), "There must be at least one alias of a star"
+        assert (
+            self.star.table is not None
+        ), "Only the star of a table can have aliases"
         self.data_type = self.star.data_type
 
     def sql(self, opts: PrintOptions) -> str:
-- 
2.43.0


From e565d4552f4036e6a63754e876e54285f9a09f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:02 +0000
Subject: [PATCH 90/92] fix: keep the order of compared operands whose classes
 derive from each other

---
 treeno/builder/convert.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/treeno/builder/convert.py b/treeno/builder/convert.py
index 10eb1e3..5263011 100644
--- a/treeno/builder/convert.py
+++ b/treeno/builder/convert.py
@@ -30,14 +30,20 @@ from treeno.expression import (
     Cast,
     DistinctFrom,
     Else,
+    Equal,
     Field,
+    GreaterThan,
+    GreaterThanOrEqual,
     InList,
     InQuery,
     Interval,
     IsNull,
     Lambda,
+    LessThan,
+    LessThanOrEqual,
     Like,
     Literal,
+    NotEqual,
     Or,
     RowConstructor,
     Star,
@@ -121,18 +127,20 @@ def apply_operator(operator: str, *args: Value) -> Value:
         return args[0] & args[1]
     elif operator == "OR":
         return args[0] | args[1]
+    # Python calls the reflected comparison first if the right operand's class is derived from the left one's, so the
+    # comparisons are constructed explicitly to keep the order of the operands.
     elif operator == "=":
-        return args[0] == args[1]
+        return Equal(args[0], args[1])
     elif operator == ">":
-        return args[0] > args[1]
+        return GreaterThan(args[0], args[1])
     elif operator == ">=":
-        return args[0] >= args[1]
+        return GreaterThanOrEqual(args[0], args[1])
     elif operator == "<":
-        return args[0] < args[1]
+        return LessThan(args[0], args[1])
     elif operator == "<=":
-        return args[0] <= args[1]
+        return LessThanOrEqual(args[0], args[1])
     elif operator in ("<>", "!="):
-        return args[0] != args[1]
+        return NotEqual(args[0], args[1])
     elif operator == "+":
         if len(args) == 1:
             return +args[0]
-- 
2.43.0


From a01f784c168c54ae8b6695ecc26ee6857be9a172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:08 +0000
Subject: [PATCH 91/92] fix: don't parenthesize CONCAT calls, which are printed
 as functions

---
 treeno/expression.py       |  1 -
 treeno/functions/common.py | 11 +----------
 2 files changed, 1 insertion(+), 11 deletions(-)

diff --git a/treeno/expression.py b/treeno/expression.py
index 894fb33..ebe0ef2 100644
--- a/treeno/expression.py
+++ b/treeno/expression.py
@@ -1106,7 +1106,6 @@ OPERATOR_PRECEDENCE: Dict[Type[Value], int] = {
     Modulus: 7,
     Add: 6,
     Minus: 6,
-    # TODO: Currently we run into an import loop trying to add Concatenate here, so we add it at the end in functions.common
     Equal: 4,
     NotEqual: 4,
     GreaterThan: 4,
diff --git a/treeno/functions/common.py b/treeno/functions/common.py
index b672bea..d746315 100644
--- a/treeno/functions/common.py
+++ b/treeno/functions/common.py
@@ -15,12 +15,7 @@ from treeno.datatypes.conversions import (
     common_supertype,
     promote_varchar_to_char,
 )
-from treeno.expression import (
-    OPERATOR_PRECEDENCE,
-    Value,
-    value_attr,
-    wrap_literal_list,
-)
+from treeno.expression import Value, value_attr, wrap_literal_list
 from treeno.functions.base import Function, GenericFunction
 
 
@@ -103,7 +98,3 @@ class Concatenate(Function):
     def visit(self, visitor: GenericVisitor) -> None:
         for val in self.values:
             visitor.visit(val)
-
-
-# TODO: See expressions.py
-OPERATOR_PRECEDENCE[Concatenate] = 5
-- 
2.43.0


From 32fff81491acf67c3849ae9c4d60e16d67ba7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:15 +0000
Subject: [PATCH 92/92] fix: don't parenthesize a grouping set of a row of one
 value twice

---
 treeno/groupby.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/treeno/groupby.py b/treeno/groupby.py
index 7300eed..0ffa8af 100644
--- a/treeno/groupby.py
+++ b/treeno/groupby.py
@@ -48,9 +48,11 @@ class GroupingSet(Group):
     values: List[Value] = attr.ib()
 
     def sql(self, opts: PrintOptions) -> str:
-        # A parenthesized list of values is the grouping set itself, so a single row has to be parenthesized twice
-        if len(self.values) == 1 and not isinstance(
-            self.values[0], RowConstructor
+        # A parenthesized list of values is the grouping set itself, so a single row has to be parenthesized twice,
+        # except for a row of one value, which is spelled ROW(1)
+        if len(self.values) == 1 and not (
+            isinstance(self.values[0], RowConstructor)
+            and len(self.values[0].values) > 1
         ):
             return self.values[0].operand_sql(opts)
         return f"({join_stmts([val.operand_sql(opts) for val in self.values], opts)})"
-- 
2.43.0

