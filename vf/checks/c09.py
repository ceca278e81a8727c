"""C09: spelling choices do not change the tree."""
from ..common import *

PROPERTY = "C09"
RULE = "the two spellings differ in their tokens, not only in white space, or one of them contains comments; distinct by the pair of texts"
ASSUMPTIONS = [GRAMMAR, TYPED]
COUNTS = {"quick": 1400, "thorough": 100000}

SAME_EXPR = [
    ("a <> b", "a != b"), ("NOT a IN (1)", "a NOT IN (1)"), ("NOT a IS NULL", "a IS NOT NULL"), ("NOT a LIKE 'x'", "a NOT LIKE 'x'"),
    ("NOT a BETWEEN 1 AND 2", "a NOT BETWEEN 1 AND 2"), ("NOT a IS DISTINCT FROM b", "a IS NOT DISTINCT FROM b"), ("a || b", "CONCAT(a, b)"),
    ("a", '"a"'), ("((a))", "a"), ("(a + b) + c", "a + b + c"), ("a + (b * c)", "a + b * c"), ("sum(a)", "SUM(a)"), ("Sum(a)", "SUM(a)"),
    ('"sum"(a)', "SUM(a)"), ("COUNT(*)", "count(*)"), ("SUM(ALL a)", "SUM(a)"), ("NULL", "null"), ("TRUE", "true"),
    ("INTERVAL '1' DAY", "interval +'1' day"), ("INTERVAL -'1' DAY", "INTERVAL '-1' DAY"), ("INTERVAL -'-1' DAY", "INTERVAL '1' DAY"),
    ("CURRENT_TIMESTAMP", "current_timestamp"), ("CAST(a AS DOUBLE PRECISION)", "CAST(a AS DOUBLE)"), ("CAST(a AS DECIMAL)", "CAST(a AS DECIMAL(38,0))"),
    ("CAST(a AS DECIMAL(10))", "CAST(a AS DECIMAL(10, 0))"), ("CAST(a AS BIGINT ARRAY)", "CAST(a AS ARRAY(BIGINT))"), ("CAST(a AS CHAR)", "CAST(a AS CHAR(1))"),
    ("CAST(a AS TIMESTAMP WITHOUT TIME ZONE)", "CAST(a AS TIMESTAMP)"), ("CAST(a AS varchar)", "CAST(a AS VARCHAR)"), ("CAST(a AS \"varchar\")", "CAST(a AS VARCHAR)"),
    ("CASE WHEN a THEN b END", "case when a then b end"), ("x -> x + 1", "(x) -> x + 1"), ("x->x", "( x ) -> ( x )"), ("ROW(a, b)", "(a, b)"), ("row(a)", "ROW(a)"),
    ("a /* c */ + b", "a + b"), ("a -- c\n + b", "a+b"), ("a\t\r\n+\nb", "a + b"), ("U&'\\0041'", "'A'"), ("U&'!0041' UESCAPE '!'", "'A'"),
    ("LISTAGG(a) WITHIN GROUP (ORDER BY b)", "LISTAGG(a, '') WITHIN GROUP (ORDER BY b)"), ("NORMALIZE(a)", "normalize ( a )"),
    ("SUM(a) OVER ()", "SUM(a) OVER (RANGE UNBOUNDED PRECEDING)"), ("SUM(a) OVER ()", "SUM(a) OVER (RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)"),
    ("SUM(a) OVER (ROWS 1 PRECEDING)", "SUM(a) OVER (ROWS BETWEEN 1 PRECEDING AND CURRENT ROW)"), ("SUM(a) OVER (ORDER BY b)", "SUM(a) OVER (ORDER BY b ASC NULLS LAST)"),
    ("SUM(a ORDER BY b)", "SUM(a ORDER BY b ASC NULLS LAST)"), ("MAX(a) RESPECT NULLS OVER ()", "MAX(a) OVER ()"), ("SUM(a) OVER w", "sum(a) over w"),
    ("'it''s'", "U&'it\\0027s'"), ("1.50", "01.50"), ("7", "007"), ("1E5", "1.0E5"), ("1E5", "1E+05"), ("-1", "- 1"), ("a-1", "a - 1"), ("a IN(1,2)", "a IN ( 1 , 2 )"),
    ("DATE '2020-01-01'", "date '2020-01-01'"), ("TRY_CAST(a AS bigint)", "try_cast(a as BIGINT)"), ("a.b", '"a"."b"'), ("a . b", "a.b"),
]
SAME_QUERY = [
    ("SELECT a", "SELECT ALL a"), ("SELECT a AS b", "SELECT a b"), ("SELECT a FROM t AS u", "SELECT a FROM t u"), ("SELECT a FROM t AS u(b)", "SELECT a FROM t u (b)"),
    ("SELECT a FROM t JOIN u ON a", "SELECT a FROM t INNER JOIN u ON a"), ("SELECT a FROM t LEFT JOIN u ON a", "SELECT a FROM t LEFT OUTER JOIN u ON a"),
    ("SELECT a FROM t RIGHT JOIN u ON a", "SELECT a FROM t RIGHT OUTER JOIN u ON a"), ("SELECT a FROM t FULL JOIN u ON a", "SELECT a FROM t FULL OUTER JOIN u ON a"),
    ("SELECT a UNION SELECT b", "SELECT a UNION DISTINCT SELECT b"), ("SELECT a INTERSECT SELECT b", "(SELECT a) INTERSECT DISTINCT (SELECT b)"),
    ("SELECT a EXCEPT SELECT b", "(SELECT a) EXCEPT DISTINCT SELECT b"), ("SELECT a UNION SELECT b INTERSECT SELECT c", "SELECT a UNION (SELECT b INTERSECT SELECT c)"),
    ("SELECT a UNION SELECT b EXCEPT SELECT c", "(SELECT a UNION SELECT b) EXCEPT SELECT c"), ("SELECT a FROM t;", "SELECT a FROM t"), ("SELECT a FROM t ;", "select a from t"),
    ("SELECT a LIMIT ALL", "SELECT a"), ("SELECT a OFFSET 2", "SELECT a OFFSET 2 ROWS"), ("SELECT a OFFSET 2 ROW", "SELECT a OFFSET 2 ROWS"),
    ("SELECT a LIMIT 5", "SELECT a FETCH FIRST 5 ROWS ONLY"), ("SELECT a LIMIT 5", "SELECT a FETCH NEXT 5 ROW ONLY"), ("SELECT a LIMIT 1", "SELECT a FETCH FIRST ROW ONLY"),
    ("SELECT a ORDER BY a", "SELECT a ORDER BY a ASC"), ("SELECT a ORDER BY a DESC", "SELECT a ORDER BY a DESC NULLS LAST"), ("(SELECT a)", "SELECT a"),
    ("((SELECT a))", "SELECT a"), ("SELECT a FROM (t)", "SELECT a FROM t"), ("SELECT a FROM ((t JOIN u ON a))", "SELECT a FROM t JOIN u ON a"),
    ("SELECT a FROM t GROUP BY a", "SELECT a FROM t GROUP BY ALL a"), ("SELECT a FROM t GROUP BY (a)", "SELECT a FROM t GROUP BY a"),
    ("SELECT a FROM t GROUP BY GROUPING SETS (a, ())", "SELECT a FROM t GROUP BY GROUPING SETS ((a), ())"), ("SELECT t.* FROM t", 'SELECT "t".* FROM "t"'),
    ("WITH x AS (SELECT a) SELECT b FROM x", "with x as (select a) select b from x"), ("SELECT a -- comment", "SELECT a"), ("/* c */ SELECT a", "SELECT a"),
    ("TABLE t", 'table "t"'), ("VALUES 1, 2", "VALUES (1), (2)"), ("SELECT a FROM t TABLESAMPLE BERNOULLI (10)", "SELECT a FROM t tablesample bernoulli(10)"),
    ("SELECT * FROM UNNEST(a) WITH ORDINALITY", "select * from unnest ( a ) with ordinality"), ("SELECT a FROM a.b.c", 'SELECT a FROM "a"."b" . c'),
]
SAME_TYPE = [("DECIMAL", "DECIMAL(38,0)"), ("decimal(5)", "DECIMAL(5,0)"), ("double precision", "DOUBLE"), ("BIGINT ARRAY", "ARRAY(BIGINT)"),
             ("timestamp", "TIMESTAMP WITHOUT TIME ZONE"), ("time(3)", "TIME(3) WITHOUT TIME ZONE"), ("CHAR", "CHAR(1)"),
             ("BIGINT ARRAY ARRAY", "ARRAY(ARRAY(BIGINT))"), ("ROW(BIGINT)", "row( bigint )"), ('"bigint"', "BIGINT"), ("interval year to month", "INTERVAL YEAR TO MONTH")]


def same(kind, a, b):
    x, y = sut.PARSERS[kind](a), sut.PARSERS[kind](b)
    d = S.diff(L.canon_of(x, kind), L.canon_of(y, kind))
    require(d is None, lambda: f"{a!r} and {b!r} mean the same but are parsed differently: {d}")
    eq = (x == y) if kind == "type" else sut.guard("equals", x.equals, y)
    require(eq is True, lambda: f"the trees of {a!r} and {b!r} do not compare equal")
    require(sut.show(x) == sut.show(y), lambda: f"{a!r} and {b!r} print differently: {sut.show(x)!r} and {sut.show(y)!r}")
    return Out(sample=f"{a}   ~   {b}", nontrivial=words(a) != words(b) or "--" in a + b or "/*" in a + b)


def words(t):
    return [x for _, x in L.lex(t)]


def enumerated(tier):
    out = []
    for kind, pairs in (("expr", SAME_EXPR), ("query", SAME_QUERY), ("type", SAME_TYPE)):
        for a, b in pairs:
            out.append((f"{a} ~ {b}", lambda kind=kind, a=a, b=b: same(kind, a, b)))
    def two(spec, kind):
        # the plainest spelling against one with every alternative taken
        a, _ = L.text_of(spec, kind)
        b, _ = L.text_of(spec, kind, Loud())
        return same(kind, a, b).sample
    return out + tree_cases(two, every_pair=8, extended=3)


class Loud:
    """A choice source that never takes the plainest spelling."""
    def __init__(self):
        self.k = 0

    def choose(self, n):
        self.k += 1
        return 0 if n <= 1 else (1 + self.k % (n - 1) if n > 2 else 1)


def case(src):
    g = Gen(src, size=src.pick([6, 12, 20, 40]))
    spec, kind = g.any_tree()
    a, _ = L.text_of(spec, kind, src)
    b, _ = L.text_of(spec, kind, src)
    out = same(kind, a, b)
    d = S.diff(spec, L.parse(a, kind))
    require(d is None, lambda: f"parsing {a!r} gives another tree than it spells: {d}")
    out.labels = [kind]
    return out
