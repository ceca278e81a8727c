"""Writes /verif/properties.jsonl (kept as a script only so the lines stay readable in review)."""
import json, os

P = []
def prop(id, title, statement, over, qtext, why, files, mech, **kw):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    a.update(kw)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

E = "treeno/expression.py"; C = "treeno/builder/convert.py"; R = "treeno/relation.py"
A = "treeno/functions/aggregate.py"; PR = "treeno/printer.py"; U = "treeno/util.py"

prop("C01", "Printed SQL parses back to the same tree",
 "For every query, expression or data type tree that SQL can spell, printing it gives SQL that the library itself parses, and the parsed tree has the same structure, names, literal values and options as the original. Printing that parsed tree again gives exactly the same text.",
 ["inputs", "programs"], "every tree of supported nodes, nested to any depth, with any identifiers, literals and combination of clauses",
 "The integration files and unit tests sample a few dozen fixed trees; nesting, names and clause combinations multiply without bound and every pair of (printer, parser) rules must agree.",
 [E, R, C, PR, "treeno/window.py", "treeno/groupby.py", "treeno/orderby.py", A],
 [("printing of each node", "sql() methods in " + E + ", " + R), ("conversion of parse trees", C + " ConvertVisitor")])
prop("C02", "Pretty printing changes layout only",
 "For every tree and every indentation width, the pretty form and the compact form consist of the same sequence of SQL tokens, differing only in white space between tokens. Both therefore parse to the same tree, and text inside quotes is never altered by indentation or line wrapping.",
 ["inputs", "configurations"], "every tree x {default, pretty} x every spaces value the printer accepts",
 "Pretty output is tested against one fixed file with one width; wrapping and padding depend on the lengths and contents of every nested fragment.",
 [PR, E, R, A, "treeno/window.py"],
 [("wrapping and padding", PR + " JoinPrinter, StatementPrinter, pad"), ("option propagation", "sql(opts) calls in every node")])
prop("C03", "Parsing keeps every clause, operand and option",
 "Parsing any SELECT, TABLE, VALUES or set query of the supported grammar gives a tree in which each clause, operand, name, literal and option that the text spells is present once, in its own place and in source order, and nothing the text does not spell is added except documented defaults.",
 ["inputs"], "every text of the supported grammar, in all combinations of clauses",
 "Unit tests check one rule at a time on short fixed texts; interactions of optional clauses and orders of operands are unbounded.",
 [C], [("parse tree conversion", C + " ConvertVisitor")])
prop("C04", "Operator grouping survives printing and parsing",
 "Printing an operator expression adds the parentheses needed so that reading it with the SQL precedence and left-to-right rules gives the same grouping of operands; parsing text gives the grouping those rules and the written parentheses dictate. This holds for arithmetic, sign, concatenation, comparison, BETWEEN, LIKE, IN, IS NULL, IS DISTINCT FROM, NOT, AND, OR, subscript and field access, in any nesting.",
 ["inputs"], "all operator trees of any shape and depth",
 "Tests contain a handful of two-operator expressions; grouping must be right for every ordered pair and chain of operators on both sides.",
 [E, C, "treeno/functions/common.py"],
 [("precedence-driven parenthesising", E + " pemdas_str, OPERATOR_PRECEDENCE, builtin_binary_str"), ("operator construction", C + " apply_operator, visitPredicated")])
prop("C05", "Unsupported or invalid text is refused, never silently changed",
 "Text that is not a complete statement, expression or type of the grammar is refused with an exception, apart from an optional trailing semicolon after a query. Text that uses a construct the library cannot represent is refused too; it is never accepted with part of it dropped or replaced.",
 ["inputs"], "all texts: grammatical ones with unsupported constructs, and arbitrary mutations of valid text",
 "A few assertRaises examples exist; the set of malformed or unsupported texts is infinite and silence is only visible by comparing with an independent reading.",
 [C, "treeno/grammar/parse.py"],
 [("entry points", "treeno/grammar/parse.py AST, " + C + " query_from_sql / expression_from_sql / type_from_sql"), ("refusals", C + " assert / NotImplementedError in visit methods")])
prop("C06", "Identifiers keep their exact spelling",
 "Every identifier (column, table, schema, catalog, alias, column alias, window, CTE, lambda variable, USING column) may contain any characters, including quotes, dots, spaces, keywords and non-ASCII text, and keeps exactly that name through printing and parsing. Two different names never print the same, and parsing a quoted identifier gives the text between the quotes with doubled quotes undone.",
 ["inputs"], "all non-empty strings as names, in every position that takes a name",
 "Tests use short ASCII letters only; quoting must be right for every string in every position.",
 [U, E, R, C, "treeno/window.py"],
 [("quoting", U + " quote_identifier, chain_identifiers"), ("unquoting", C + " visitQuotedIdentifier / visitUnquotedIdentifier")])
prop("C07", "String literals keep their exact contents",
 "Any Python string used as a string literal, a separator, a filler, a type constructor or interval value prints as SQL that reads back to the same characters, including quotes, newlines, backslashes and non-ASCII text. Parsing 'text' and U&'text' (with or without UESCAPE) gives exactly the characters the SQL rules define.",
 ["inputs"], "all strings, in every literal position, in both print modes",
 "Tests use plain ASCII words; escaping errors show only for particular characters and positions.",
 [U, E, C, PR], [("quoting", U + " quote_literal"), ("unquoting", C + " visitBasicStringLiteral / visitUnicodeStringLiteral")])
prop("C08", "Number literals keep value and type",
 "Parsing a number gives exactly its value and its SQL type: whole numbers are integer or bigint by size, numbers with a point are decimals with the written digits as precision and scale, numbers with an exponent are doubles, and a sign changes only the value. Printing any number literal gives text that reads back to the same value and type.",
 ["inputs"], "all spellings of numbers, all Python int, float and Decimal values that fit the SQL types",
 "Tests check a handful of numbers; boundaries, signs, leading and trailing zeros, tiny and huge magnitudes are unbounded.",
 [C, E, "treeno/datatypes/inference.py"],
 [("number conversion", C + " visitIntegerLiteral / visitDecimalLiteral / visitDoubleLiteral"), ("type inference", "treeno/datatypes/inference.py"), ("printing", E + " Literal.sql")])
prop("C09", "Spelling choices do not change the tree",
 "Letter case of keywords and function names, white space, comments, redundant parentheses, optional noise words, quoting of plain identifiers and synonymous spellings (such as != and <>, or spelled-out defaults) do not change the parsed tree.",
 ["inputs"], "all texts x all combinations of spelling variations",
 "Tests write each construct in one spelling, upper case, with single spaces.",
 [C, "treeno/grammar/SqlBase.g4"],
 [("text-dependent conversion", C + " visit methods reading getText()")])
prop("C10", "Data types round trip and are validated",
 "Every data type, including nested arrays, maps and rows, prints as text that parses back to an equal type, and parsing a type text gives the type and parameters it spells, with documented defaults. Types with unknown names, missing or surplus parameters, or parameters out of range are refused.",
 ["inputs"], "all type trees and all type texts, including every synonym spelling",
 "Tests list a few types each; parameters and nesting are unbounded and bad parameters infinite.",
 ["treeno/datatypes/types.py", "treeno/datatypes/builder.py", C],
 [("validation", "treeno/datatypes/types.py DataType.__attrs_post_init__, VALIDATORS"), ("printing", "treeno/datatypes/types.py DataType.sql, emit_*"), ("parsing", C + " visitGenericType, visitDateTimeType, visitRowType, visitArrayType, visitIntervalType")])
prop("C11", "Common supertype obeys its laws",
 "The common supertype of two types does not depend on their order (including whether they are refused), a type with itself gives itself, the unknown type yields to the other one, and the result can hold every value of both (digits before and after the point, lengths, precision, time zone), never exceeding the maximal decimal precision. Nested types combine member by member, and incompatible types give a type error or the unknown type, never a crash.",
 ["inputs"], "all pairs and triples of data types, nested to any depth",
 "Tests cover a dozen fixed pairs, mostly in one order.",
 ["treeno/datatypes/conversions.py"],
 [("lattice", "treeno/datatypes/conversions.py common_supertype and the common_* functions")])
prop("C12", "Expression types follow their operands",
 "The data type an expression reports is the one its operator or function defines for the operand types: arithmetic gives the common numeric type, predicates give boolean, date subtraction an interval, casts their target, constructors the composed type, and each function its declared result type. Whether built from SQL or from Python, a given expression reports the same type.",
 ["inputs"], "all expressions over operands of all data types",
 "Tests check types of a few expressions; operand types combine without bound.",
 [E, A, "treeno/functions/common.py", "treeno/functions/conditional.py", "treeno/functions/datetime.py", "treeno/functions/string.py", "treeno/datatypes/conversions.py"],
 [("inference", "__attrs_post_init__ of the expression and function classes"), ("arithmetic", "treeno/datatypes/conversions.py get_arithmetic_type")])
prop("C13", "Every registered function round trips by name and arguments",
 "For every function the library registers and every number of arguments it accepts, calling it by name in SQL (any letter case) gives that function with each argument in its own role, and printing gives the call back with the same name, arguments and order. Unknown names and unsupported argument counts are refused.",
 ["inputs"], "all registered functions x all accepted arities x all argument expressions",
 "Tests call each function with one or two fixed argument lists, most built in Python only.",
 ["treeno/functions/base.py", A, "treeno/functions/string.py", "treeno/functions/datetime.py", "treeno/functions/common.py", "treeno/functions/conditional.py", "treeno/functions/math.py", "treeno/functions/session.py"],
 [("registry", "treeno/functions/base.py Function.__init_subclass__, from_args"), ("call conversion", C + " visitFunctionCall")])
prop("C14", "Aggregate modifiers are kept",
 "DISTINCT, ORDER BY, FILTER, IGNORE or RESPECT NULLS, OVER and the LISTAGG options of an aggregate call are all represented after parsing and all printed again, in any combination the grammar allows, or the call is refused. None of them is lost, added, or moved to another call.",
 ["inputs"], "all aggregate calls x all combinations of modifiers x all modifier expressions",
 "Tests check modifiers one at a time on one function.",
 [A, C], [("printing", A + " AggregateFunction.get_constraint_string, to_string; ListAgg.sql"), ("parsing", C + " visitFunctionCall, visitListagg")])
prop("C15", "Window specifications are kept",
 "A window's parent name, partition, ordering, frame unit and both frame bounds survive parsing and printing in every combination, both inline and in the WINDOW clause, and a reference to a named window stays that reference. Where the text leaves the frame out, the standard default frame is used.",
 ["inputs"], "all window specifications, inline, named and inherited",
 "Tests cover four fixed windows.",
 ["treeno/window.py", C, R], [("printing", "treeno/window.py Window.sql"), ("parsing", C + " visitWindowSpecification, visitFrameExtent, visitOver, visitWindowDefinition")])
prop("C16", "Schema resolution gives each output column its name and type",
 "Resolving a query reports its output columns in order, with the names and types that follow from its FROM relations, aliases, CTEs, joins, unnests, subqueries and the schemas supplied by the user. A column reference gets the type of exactly the column it names in scope, an unknown one stays unknown, and an ambiguous one is refused.",
 ["inputs", "configurations"], "all queries x all supplied table schemas",
 "Tests resolve a few one-table queries; scoping depends on arbitrary nesting of relations.",
 [R, "treeno/datatypes/resolve.py"],
 [("schemas", R + " resolve methods, Schema.merge"), ("field typing", "treeno/datatypes/resolve.py resolve_fields, _make_field, _make_star")])
prop("C17", "Resolving never changes the query itself",
 "Resolving a query adds type information only: the SQL it prints before and after is identical, resolving again gives the same schema, and the supplied schema object is left as it was.",
 ["histories", "inputs"], "all queries, resolved any number of times, with any supplied schema",
 "Tests resolve once and look at types only.",
 [R, "treeno/datatypes/resolve.py"],
 [("rebuild of resolved values", "treeno/datatypes/resolve.py resolve_fields"), ("in-place updates", R + " SelectQuery.resolve, Unnest.resolve, Table.resolve")])
prop("C18", "Traversal reaches every part of a tree",
 "Walking any tree with a visitor calls the visitor's method for each node's own type and reaches every node the tree contains, exactly once per occurrence, in all clauses and optional parts. Every concrete node type has its visitor method.",
 ["programs", "inputs"], "all trees and all node types",
 "No test walks a tree; whether an optional part is skipped depends on which parts are present.",
 ["treeno/visitor.py", "treeno/base.py", E, R, A, "treeno/window.py", "treeno/groupby.py", "treeno/orderby.py"],
 [("dispatch", "treeno/visitor.py TreenoVisitor"), ("child traversal", "visit() methods of all nodes")])
prop("C19", "Structural equality is exact",
 "Two trees compare equal exactly when they have the same node types, names, literals, options and children in the same order: a copy is equal to its original, any single change at any depth makes trees unequal, and the comparison is symmetric and never changes its arguments.",
 ["inputs"], "all trees and all single-point edits of them",
 "Tests use equality as their oracle but never test that it tells different trees apart.",
 ["treeno/base.py", E], [("comparison", "treeno/base.py Sql.equals, assert_equals")])
prop("C20", "The command line agrees with the library",
 "For every valid query, expression or type, the format command prints the library's pretty form of it, the tree commands show every node, and the schema command lists each output column with its name and type, marking those it cannot know. Invalid input makes the command fail with a non-zero status.",
 ["inputs"], "all valid and invalid texts x all commands and construct kinds",
 "The command line has no tests at all.",
 ["treeno/cli.py", "treeno/grammar/parse.py"],
 [("commands", "treeno/cli.py format, tree, antlr_tree, schema"), ("parse tree printing", "treeno/grammar/parse.py tree")])
prop("C21", "Grouping, ordering and row limits are kept",
 "GROUP BY elements (simple sets, ROLLUP, CUBE, GROUPING SETS, the empty set, ALL or DISTINCT), ORDER BY items with direction and null order, OFFSET and LIMIT (including zero and ALL) survive parsing and printing on every kind of query, in source order and with their exact values.",
 ["inputs"], "all combinations of these clauses on all kinds of query",
 "Tests cover isolated clauses with one or two values each.",
 ["treeno/groupby.py", "treeno/orderby.py", R, C],
 [("printing", R + " Query._constraint_string_builder; treeno/groupby.py; treeno/orderby.py"), ("parsing", C + " visitQueryNoWith, visitGroupBy, visitSortItem, visitLimitRowCount")])
prop("C22", "Lambda variables are scoped correctly",
 "Inside a lambda body exactly the unqualified references to its own parameters become lambda variables, at every depth; references to other names, qualified references, and references outside the body stay column references, and an inner lambda's parameter of the same name hides the outer one. Lambdas survive printing and parsing.",
 ["inputs"], "all lambda bodies of any depth, with nested and shadowing lambdas",
 "Tests have two flat lambdas.",
 [E, C], [("substitution", E + " Lambda.from_generic_expr"), ("parsing", C + " visitLambda_")])
prop("C23", "Parsing and printing are pure and deterministic",
 "Parsing the same text or printing the same tree gives the same result every time, whatever ran before, in any process and in any thread, and depends on nothing but the text or the current content of the tree. Neither printing, comparing, walking nor building an expression changes any tree involved, and trees built separately share no mutable state.",
 ["histories", "schedules"], "all sequences of operations over a set of trees, and all interleavings of threads that each work on their own trees",
 "Each test makes one fresh tree; interference needs a history.",
 [E, R, C, "treeno/datatypes/types.py", PR],
 [("mutable defaults", "attr.ib(factory=...) in all nodes"), ("in-place construction", C + " visitQuery, visitQueryNoWith, visitWindowSpecification")])
prop("C24", "Python operators build the SQL they look like",
 "Combining values with Python operators, and plain Python numbers, strings and booleans with values on the right of an operator or as parts of predicates, functions and other expressions, builds the same tree as parsing the corresponding SQL text, with operands in the written order. Plain values are wrapped into literals of the matching SQL type, and None or containers are refused.",
 ["programs"], "all Python expressions over values using the overloaded operators",
 "Tests try a few operators on fixed operands.",
 [E], [("operator overloading", E + " Value dunder methods"), ("literal wrapping", E + " wrap_literal; treeno/datatypes/inference.py infer_type")])
prop("C25", "FROM clauses keep their structure",
 "Joins keep their kind, operands, nesting and criteria; aliases, column aliases, TABLESAMPLE, UNNEST with ordinality, LATERAL and subqueries stay attached to the relation they were written on, through parsing and printing, in any nesting.",
 ["inputs"], "all relation trees of any shape and depth",
 "Tests cover single joins and single aliases; nesting on either side needs different parenthesising.",
 [R, C], [("printing", R + " Join.sql, AliasedRelation.sql, TableSample.sql, relation_string"), ("parsing", C + " visitJoinRelation, visitAliasedRelation, visitSampledRelation")])
prop("C26", "Set operations, subqueries and CTEs keep their structure",
 "UNION, INTERSECT and EXCEPT with their quantifiers group by their precedence and the written parentheses, each ORDER BY, OFFSET, LIMIT and WITH stays on the query it was written on, and subqueries in FROM, IN and scalar positions stay subqueries, through parsing and printing, in any nesting.",
 ["inputs"], "all nestings of set operations, subqueries and CTEs",
 "Tests cover one set operation and one CTE at a time.",
 [R, C], [("printing", R + " SetQuery._to_string, AliasedRelation._named_query_sql, Query._with_query_string_builder"), ("parsing", C + " visitSetOperation, visitQuery, visitQueryNoWith")])
prop("C27", "What SQL cannot spell is refused, what it can is built",
 "Building a node or printing it is refused with an exception when its arguments, each of the annotated type, have no SQL spelling (such as a cross join with criteria, an ALL quantifier on INTERSECT, a list that must not be empty, a negative LIMIT, a literal without a SQL type). No tree that prints without an exception gives text that fails to parse or means something else, and no arguments that do have a spelling are refused.",
 ["inputs", "programs"], "all combinations of arguments of all node types, alone and inside larger trees",
 "Tests build valid nodes; which combinations of optional arguments must be refused is a question about every pair and triple of them.",
 [E, R, A, "treeno/functions/base.py", "treeno/functions/datetime.py", "treeno/functions/common.py", "treeno/window.py", "treeno/groupby.py", "treeno/datatypes/inference.py"],
 [("assertions in constructors", "__attrs_post_init__ and validators of the nodes in " + R + ", " + E + ", " + A), ("assertions in printers", "sql() of the same classes"), ("refused literals", "treeno/datatypes/inference.py infer_type; " + E + " wrap_literal")])
prop("C28", "Work grows with the size of the input, not exponentially with nesting",
 "Parsing, building, printing (compact and pretty), comparing, walking and resolving take work, and give text, that grows at most with a small power of the size of the text or tree. Nesting any construct in itself or in others a few levels deeper, or making any list longer, never multiplies the work for each further level or element.",
 ["inputs"], "all constructs nested in themselves and in each other to any depth, and all lists of any length",
 "Tests use one or two levels of nesting, where doing the work twice per level goes unnoticed.",
 [E, R, C, PR, "treeno/base.py", "treeno/window.py", A],
 [("recursion over children", "sql(), equals(), visit(), resolve() of all nodes"), ("layout", PR + " pad, JoinPrinter, StatementPrinter"), ("conversion", C + " ConvertVisitor")])
prop("C29", "User-defined functions work like built-in ones",
 "A function class that a user defines (plain, unary, aggregate or variadic, directly or through abstract classes of their own) is reached by calls of its name in SQL in any letter case, with its arguments and modifiers in place, and prints, reads back, compares and is walked like a built-in one wherever it is nested. Classes without a name, abstract classes, wrong numbers of arguments and modifiers on plain functions are refused, and other functions are not affected.",
 ["programs", "inputs"], "all definitions of function classes x all calls of them in all trees",
 "No test defines a function; the built-in ones cover only some shapes of classes.",
 ["treeno/functions/base.py", A, "treeno/util.py", C, "treeno/base.py"],
 [("registration", "treeno/functions/base.py Function.__init_subclass__; treeno/util.py is_abstract"), ("calls", "treeno/functions/base.py from_args, to_string; " + A + " AggregateFunction; " + C + " visitFunctionCall")])
prop("C30", "The pretty form is laid out by clauses; the compact form is one line",
"In the pretty form every clause of a query, every join, every branch of a CASE, every AND or OR and every set operator begins its own line; the clause keywords of one query end in one column (the river), and whatever belongs to a clause, nested queries included, stands to the right of it. Long lists are wrapped after commas and filled up to the width, short ones stay on one line, and text within quotes is left as it is. The compact form has no line breaks of its own, and in both forms every word outside of quotes is in upper case.",
["inputs"], "all trees x all values of spaces x all lengths of lists",
"Tests compare the layout of a few queries; it must hold at any depth of nesting, width and length.",
[PR, R, E, "treeno/base.py", "treeno/window.py"],
[("river and padding", PR + " StatementPrinter, pad"), ("lists", PR + " JoinPrinter, join_stmts"), ("clauses", R + " SelectQuery.to_string, Join.to_string; " + E + " Case, And, Or")])
prop("C31", "No parentheses are printed that could be left out",
 "The text a tree prints has parentheses only where they are needed: leaving out any pair gives a text that is refused or reads as another tree. Set operations, joins on the right of a join, a sign after a minus and literals under operators may have them anyway.",
 ["inputs"], "all operators as operands of all operators, in all places that hold an expression, at any depth",
 "Tests compare the text of a few operators; superfluous parentheses keep every round trip intact.",
 [E, "treeno/groupby.py", R, "treeno/printer.py", "treeno/functions/base.py"],
 [("precedences", E + " OPERATOR_PRECEDENCE, pemdas_str, value_expression_str, primary_str"), ("subqueries", R + " relation_string, Query.operand_sql"), ("grouping sets", "treeno/groupby.py GroupingSet.sql")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
