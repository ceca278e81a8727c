"""C05: text that is no statement of the grammar, or says something a tree cannot hold, is refused; nothing is dropped silently."""
from collections import Counter
from decimal import Decimal
from itertools import product

from .. import grammar
from ..common import *
from ..gen import settle
from ..spec import mk
from ..render import KEYWORDS, Renderer
from ..runner import HarnessError

PROPERTY = "C05"
RULE = ("(a) every text of a list of unsupported or invalid texts, alone and inside other texts, or of templates of them around generated operands; (b) valid generated texts with 1-3 token "
        "edits; non-trivial: (a) all, (b) the edit changed the token sequence; distinct by text")
ASSUMPTIONS = [GRAMMAR, "'invalid' means: not accepted, up to its end, by the committed SqlBase grammar (a vendored copy of the generated parser decides)",
               "for an edited text that is accepted, kept content is compared as a multiset of names, strings, numbers and significant keywords"]
COUNTS = {"quick": 3000, "thorough": 100000}

# primary expressions that the grammar has and the trees cannot hold
EXPRS = ["EXISTS (SELECT a FROM t)", "EXTRACT(YEAR FROM a)", "SUBSTRING(a FROM 2)", "SUBSTRING(a FROM 2 FOR 3)", "POSITION('x' IN a)", "GROUPING(a)", "GROUPING(a, b)",
         "?", "X'00ff'", "TRIM(a)", "TRIM(BOTH FROM a)", "TRIM(LEADING 'x' FROM a)", "TRIM(a, 'x')", "CURRENT_ROLE",
         "JSON_EXISTS(a, 'lax $.x')", "JSON_VALUE(a, 'lax $.x')", "JSON_VALUE(a, 'lax $' RETURNING BIGINT NULL ON EMPTY)", "JSON_QUERY(a, 'lax $.x')", "JSON_OBJECT('k' : a)",
         "JSON_OBJECT(KEY 'k' VALUE a)", "JSON_ARRAY(a, b)", "JSON_ARRAY()", "RUNNING COUNT(a)", "FINAL COUNT(a)", "m OVER w", "m OVER (PARTITION BY a)",
         "s.fn(a)", "a.SUM(b)", "a.b.LOWER(c)", "s.COUNT(*)", "c.s.COUNT()", "a.COALESCE(b, c)", "s.IF(a, b)", "x.NOW()", "s.CONCAT(a, b)", "sum.sum(a)", "\"s\".max(a) OVER ()", "s.MAX(DISTINCT a)", "s.COUNT(DISTINCT a) FILTER (WHERE b)", "system.lower(a)", "m.TRY(x -> x)", "SUM.a(b)", "MAX(DISTINCT *)", "COUNT(*, a)", "COALESCE(DISTINCT a, b)", "CONCAT(a, b) OVER ()", "IF(a, b) FILTER (WHERE c)", "NOW() OVER ()", "NULLIF(a, b ORDER BY c)", "TRY(DISTINCT a)", "LISTAGG()", "NULLIF(*)", "COUNT(DISTINCT *)", "COUNT(* ORDER BY a)", "no_such_function(a)", "SUM()", "SUM(a, b, c)", "LOWER(a, b)", "LOWER()", "NOW(1)", "LOWER(DISTINCT a)", "LOWER(a) FILTER (WHERE b)", "LOWER(a) OVER ()", "LOWER(a ORDER BY b)",
         "CAST(a AS ROW(x BIGINT))", "CAST(a AS ARRAY<BIGINT>)", "CAST(a AS MAP<BIGINT, DATE>)", "CAST(a AS BIGINT ARRAY[5])", "CAST(a AS nosuchtype)", "CAST(a AS DECIMAL(1, 2, 3))",
         "TRY_CAST(a AS DECIMAL(10, 11))", "CAST(a AS DECIMAL(39))", "CAST(a AS BIGINT(3))", "CAST(a AS ARRAY)", "CAST(a AS MAP(BIGINT))", "CAST(a AS ARRAY(3))", "`a`", "t.`a`", "1a", "0x10", "1e5", "1E", "a.1b", "a.b.c",
         "SUM(a) OVER (ROWS BETWEEN 1 PRECEDING AND CURRENT ROW AFTER MATCH SKIP TO NEXT ROW)", "SUM(a) OVER (ROWS CURRENT ROW INITIAL)", "SUM(a) OVER (ROWS CURRENT ROW SEEK)",
         "SUM(a) OVER (MEASURES b AS c ROWS CURRENT ROW)", "SUM(a) OVER (ROWS CURRENT ROW PATTERN (x y) DEFINE x AS a)", "SUM(a) OVER (ROWS CURRENT ROW DEFINE x AS a)",
         "SUM(a) OVER (ROWS CURRENT ROW SUBSET x = (y))", "COUNT()", "IF(a)", "IF(a, b, c, d)", "NULLIF(a)", "TRY()", "DATE_ADD('day', 1)", "U&'\\00'", "U&'\\D800'", "U&'x' UESCAPE 'ab'", "1E400",
         "(a AT TIME ZONE 'UTC')", "(a AT TIME ZONE INTERVAL '1' HOUR)", "(a = ALL (SELECT b FROM t))", "(a < ANY (SELECT b FROM t))", "(a <> SOME (SELECT b FROM t))", "ARRAY[]",
         "(SELECT a FROM t FETCH FIRST 3 ROWS WITH TIES)", "(SELECT a FROM t, u)", "(WITH RECURSIVE w AS (SELECT 1) SELECT a FROM w)", "(SELECT a LIMIT ?)", "(SELECT a FROM t OFFSET ? ROWS)"]
# (grammatical?) the rest of the grammar around a relation, a query, a type
RELATIONS = ["t FOR TIMESTAMP AS OF b", "t FOR VERSION AS OF 3", "TABLE(fn(a))", "TABLE(fn(x => a))", "TABLE(fn(TABLE(t)))", "a.b.c.d", "`t`", "t AS `x`", "t AS x(`y`)", "1t",
             "t MATCH_RECOGNIZE (PATTERN (x) DEFINE x AS a)", "t AS u MATCH_RECOGNIZE (PARTITION BY a ORDER BY b MEASURES c AS d ONE ROW PER MATCH PATTERN (x+) DEFINE x AS a) AS m",
             "(t, u)", "LATERAL (SELECT a FROM t, u)", "(SELECT a FROM t FETCH NEXT ROW WITH TIES)", "UNNEST(a) WITH ORDINALITY MATCH_RECOGNIZE (PATTERN (x) DEFINE x AS a)"]
QUERIES = ["SELECT a FROM t, u", "SELECT a FROM t, u, v WHERE a", "SELECT a FROM t FETCH FIRST 5 ROWS WITH TIES", "SELECT a FETCH FIRST ROW WITH TIES", "WITH RECURSIVE w AS (SELECT 1) SELECT a FROM w", "WITH RECURSIVE w(x) AS (SELECT 1 UNION ALL SELECT x FROM w) SELECT x FROM w",
           "SELECT a LIMIT ?", "SELECT a OFFSET ?", "SELECT a FETCH FIRST ? ROWS ONLY", "SELECT a.b.* FROM t", "TABLE a.b.c.d", "SELECT a FROM a.b.c.d",
           "SELECT a FROM t GROUP BY CUBE ()", "SELECT a FROM t GROUP BY ROLLUP ()", "SELECT SUM(a) OVER w FROM t WINDOW w AS (), w AS (PARTITION BY a)",
           "(SELECT a ORDER BY a) ORDER BY b", "(SELECT a LIMIT 1) LIMIT 2", "(SELECT a LIMIT 3) OFFSET 1", "((SELECT a OFFSET 1)) LIMIT 2", "(SELECT a LIMIT 1) ORDER BY b", "(VALUES 1 LIMIT 1) LIMIT 2",
           "(TABLE t LIMIT 1) OFFSET 2", "(SELECT a UNION SELECT b LIMIT 1) FETCH FIRST ROW ONLY"]
STATEMENTS = ["USE s", "USE c.s", "CREATE SCHEMA s", "DROP TABLE t", "INSERT INTO t SELECT a", "INSERT INTO t (a) VALUES 1", "DELETE FROM t", "DELETE FROM t WHERE a", "CREATE TABLE t AS SELECT a", "CREATE TABLE t (a BIGINT)",
           "CREATE VIEW v AS SELECT a", "EXPLAIN SELECT a", "EXPLAIN ANALYZE SELECT a", "SHOW TABLES", "SHOW COLUMNS FROM t", "DESCRIBE t", "SET SESSION a = 1", "UPDATE t SET a = 1", "TRUNCATE TABLE t", "CALL p(1)", "PREPARE p FROM SELECT a",
           "EXECUTE p", "START TRANSACTION", "COMMIT", "ROLLBACK", "GRANT SELECT ON t TO u", "MERGE INTO t USING u ON a = b WHEN MATCHED THEN DELETE", "SHOW CATALOGS", "ALTER TABLE t RENAME TO u", "ANALYZE t", "SET TIME ZONE LOCAL",
           "RESET SESSION a", "REFRESH MATERIALIZED VIEW v", "COMMENT ON TABLE t IS 'x'"]
TYPES = ["ARRAY<BIGINT>", "MAP<BIGINT, DATE>", "BIGINT ARRAY[5]", "ROW(x BIGINT)", "ROW(x BIGINT, DATE)", "nosuch", "nosuch(3)", "DECIMAL(39)", "DECIMAL(10, 11)", "DECIMAL(1, 2, 3)", "BIGINT(1)", "DATE(3)", "ARRAY", "MAP", "MAP(BIGINT)", "MAP(BIGINT, DATE, DATE)",
         "ARRAY(BIGINT, BIGINT)", "ARRAY(1)", "MAP(1, 2)", "DECIMAL(BIGINT)", "VARCHAR(BIGINT)", "CHAR(DATE)", "QDIGEST", "QDIGEST(3)", "TIME(BIGINT)", "TIMESTAMP(DATE) WITH TIME ZONE", "`bigint`", "1x", "JSON(1)", "VARCHAR(1, 2)", "TIME(BIGINT) WITH TIME ZONE", "BOOLEAN(1)", "UUID(1)", "ROW(1)"]
# texts outside of the grammar
INVALID = {
    "query": ["", " ", ";", ";;", "SELECT", "SELECT ;", "SELECT a;;", "SELECT a; SELECT b", "SELECT a SELECT b", "SELECT a FROM", "SELECT a,", "SELECT , a", "SELECT a FROM t WHERE", "SELECT a FROM t u v", "SELECT a b c", "SELECT a FROM t WHERE a WHERE b",
              "SELECT a FROM t GROUP BY a HAVING b WHERE c", "SELECT a LIMIT 1 LIMIT 2", "SELECT a LIMIT 1 OFFSET 2", "SELECT a LIMIT -1", "SELECT a LIMIT 1.5", "SELECT a ORDER a", "SELECT a ORDER BY", "SELECT a FROM t JOIN u", "SELECT a FROM t NATURAL JOIN",
              "SELECT a FROM t CROSS JOIN u ON a", "SELECT a FROM t NATURAL JOIN u ON a", "SELECT a FROM t JOIN u USING ()", "SELECT a FROM t JOIN u USING a", "(SELECT a", "SELECT a)", "SELECT (a", "SELECT a FROM (t", "SELECT 'x", 'SELECT "x', "SELECT a FROM t AS", "WITH SELECT a",
              "WITH w AS SELECT a SELECT b", "WITH w AS (SELECT a)", "WITH w AS (SELECT a), SELECT b", "VALUES", "TABLE", "TABLE t u", "VALUES (1", "SELECT a UNION", "UNION SELECT a", "SELECT a UNION ALL DISTINCT SELECT b", "Select a", "SELECT a From t", "SELECT a FROM t TABLESAMPLE (1)",
              "SELECT a FROM t TABLESAMPLE BERNOULLI 1", "SELECT a FETCH FIRST 5", "SELECT a FETCH 5 ROWS ONLY", "a", "1", "SELECT a FROM t WINDOW w", "SELECT a FROM t GROUP BY", "SELECT a FROM t GROUP BY GROUPING SETS ()", "SELECT a FROM t GROUP BY GROUPING SETS a", "SELECT a FROM UNNEST()", 
              "SELECT a FROM UNNEST(a) WITH", "SELECT * AS a", "SELECT t.* AS a FROM t", "SELECT a WITH w AS (SELECT b)", "SELECT a FROM t ORDER BY a NULLS", "SELECT a FROM t ORDER BY a ASC DESC", "SELECT a\\", "SELECT a @ b", "SELECT a FROM t; --x\n;", "SELECT a /* c", "SELECT #", "SELECT a FROM t WHERE a; b",
              "SELECT a UNION ORDER BY a", "(SELECT a) b", "SELECT a AS", "SELECT a AS 'b'", "SELECT a AS 1", "SELECT a FROM 't'", "SELECT a FROM t.'u'", "SELECT a FROM t.", "SELECT a FROM .t", "SELECT a FROM t AS u()", "SELECT a FROM t JOIN u ON", "SELECT a FROM t LEFT u ON a", "SELECT a FROM t INNER LEFT JOIN u ON a", "SELECT DISTINCT *)"],
    "expr": ["", " ", "a b", "a +", "+ ", "* a", "a * ", "(a", "a)", "()", "(a,)", "a,b", "a;", "1 2", "'x' y", "'x", '"x', "a = ", "= a", "a = b = c", "a < b < c", "a IN ()", "a IN b", "a IN", "a BETWEEN 1", "a BETWEEN 1 AND", "a BETWEEN 1 OR 2", "a LIKE", "a LIKE 'x' ESCAPE", "a IS", "a IS 1", "a IS NOT", "a IS DISTINCT b", "NOT", "a NOT b",
             "a AND", "OR a", "a NOT = b", "CASE END", "CASE a END", "CASE WHEN a END", "CASE WHEN a THEN b", "CASE WHEN a THEN b ELSE END", "CASE ELSE b END", "CAST(a)", "CAST(a AS)", "CAST(AS BIGINT)", "CAST a AS BIGINT", "a::bigint", "a[", "a[]", "a[1", "a[1, 2]", "a.", ".a", "a..b", "f(", "SUM(a", "SUM(a,)", "SUM(, a)", "SUM(a b)", "SUM(DISTINCT)",
             "SUM(a) FILTER (a)", "SUM(a) FILTER WHERE a", "SUM(a) OVER", "SUM(a) OVER (ROWS BETWEEN CURRENT ROW)", "SUM(a) OVER (ORDER BY)", "SUM(a) OVER (PARTITION a)", "SUM(a) OVER (ROWS CURRENT)", "SUM(a) IGNORE NULLS", "SUM(a) RESPECT OVER ()", "SUM(a) OVER () FILTER (WHERE a)", "INTERVAL 1 DAY", 
             "INTERVAL '1' WEEK", "INTERVAL '1' DAY TO", "INTERVAL - - '1' DAY", "->", "x ->", "-> x", "(1) -> x", "(x, ) -> x", "a -> b -> ", "LISTAGG(a)", "LISTAGG(a, b) WITHIN GROUP (ORDER BY c)", "LISTAGG(a) WITHIN GROUP ()", "LISTAGG(a ON OVERFLOW TRUNCATE) WITHIN GROUP (ORDER BY b)", "NORMALIZE(a, NFX)", "NORMALIZE()", "CURRENT_DATE()", "CURRENT_TIMESTAMP()", "CURRENT_USER()",
             "SELECT a", "TABLE t", "a || ", "|| a", "a | b", "a && b", "a ! b", "!a", "a ^ b", "a == b", "DATE(", "DATE ''x", "ROW(", "ARRAY[", "ARRAY(1)(", "ARRAY[1,]", "1.2.3", "1E+", "$1", "@a", "#", "a\\b", "{a}", "a:b", "U&'x' UESCAPE", "U&'x' UESCAPE 1", "Null x", "a ASC", "a AS b", "DISTINCT a", "SUM(*, a)", "SUM(a, *)", "*", "t.*", "a IS NULL NULL",
             "a NOT NULL", "TRY_CAST(a BIGINT)", "EXISTS", "a IN (SELECT)", "(SELECT a", "(SELECT a;)", "(a;)", "/* x", "a -- \n b"],
    "type": ["", " ", "BIGINT BIGINT", "BIGINT;", "DECIMAL(", "DECIMAL()", "DECIMAL(,)", "DECIMAL(1", "DECIMAL(1,)", "DECIMAL(-1)", "DECIMAL(1.5)", "DECIMAL('1')", "ARRAY(", "ARRAY()", "ARRAY(BIGINT", "MAP(,)", "ROW()", "ROW(", "ROW(BIGINT,)", "INTERVAL DAY TO", "INTERVAL WEEK", "TIMESTAMP WITH", "TIMESTAMP WITH ZONE", "TIMESTAMP TIME ZONE", "TIMESTAMP WITHOUT ZONE", "TIMESTAMP()",
             "DOUBLE PRECISION PRECISION", "'x'", "1", "BIGINT ARRAY ROW", "ARRAY BIGINT", "BIGINT, DATE", "BIGINT)", "(BIGINT)", "BIGINT NOT NULL", "TIME(3)(4)", "TIME WITH TIME ZONE (3)", "BIGINT ARRAY(3)", "BIGINT ARRAY[]", "BIGINT[]", "a.b", "\"x", "CHAR VARYING", "-", ";", "VARCHAR(*)", "VARCHAR(?)", "ROW(a b c)"],
}
EXPR_HOSTS = ["{}", "NOT {}", "a + {}", "{} * 2", "a = {}", "a BETWEEN {} AND 2", "a IN (1, {})", "({}, b)", "CASE WHEN a THEN {} ELSE b END", "CASE {} WHEN a THEN b END", "LOWER({})", "MAX(a ORDER BY {})",
              "SUM(a) FILTER (WHERE {})", "SUM(a) OVER (PARTITION BY {})", "SUM(a) OVER (ORDER BY a, {} DESC)", "CAST({} AS BIGINT)", "x -> {}", "ARRAY[{}]", "a[{}]", "a LIKE 'x' ESCAPE {}", "{} IS NULL", "a || {}", "COALESCE(a, {})"]
QUERY_HOSTS = ["SELECT {}", "SELECT a, {} AS b FROM t", "SELECT a FROM t WHERE {}", "SELECT a FROM t GROUP BY {}", "SELECT a FROM t GROUP BY GROUPING SETS ((a, {}), ())", "SELECT a FROM t GROUP BY a HAVING {}", "SELECT a FROM t ORDER BY {} DESC",
               "SELECT a FROM t JOIN u ON {}", "VALUES 1, {}", "SELECT a FROM t WINDOW w AS (PARTITION BY {})", "SELECT a FROM UNNEST({})", "SELECT a FROM t TABLESAMPLE SYSTEM ({})", "SELECT a UNION SELECT {}", "SELECT a FROM (SELECT {})", "WITH w AS (SELECT {}) SELECT a FROM w",
               "SELECT a FROM t WHERE a IN (SELECT {} FROM u)"]
RELATION_HOSTS = ["SELECT a FROM {}", "SELECT a FROM x CROSS JOIN {}", "SELECT a FROM {} JOIN x ON a", "SELECT a FROM x WHERE b IN (SELECT c FROM {})", "SELECT 1 UNION SELECT a FROM {}", "WITH w AS (SELECT a FROM {}) SELECT b FROM w", "SELECT a FROM (SELECT a FROM {})", "SELECT a FROM LATERAL (SELECT a FROM {})"]
SUBQUERY_HOSTS = ["{}", "SELECT a FROM ({})", "WITH w AS ({}) SELECT a FROM w", "SELECT a FROM t WHERE b IN ({})", "SELECT ({})", "SELECT a FROM LATERAL ({})"]
TYPE_HOSTS = [("type", "{}"), ("type", "ARRAY({})"), ("type", "MAP(BIGINT, {})"), ("type", "ROW(DATE, {})"), ("type", "{} ARRAY"), ("expr", "CAST(a AS {})"), ("expr", "TRY_CAST(a AS ROW({}))")]


def refused(text, kind, grammatical=None):
    if grammatical is not None and grammar.accepts(text, kind) != grammatical:
        raise HarnessError(f"the list of texts is wrong about {text!r}")
    try:
        tree = sut.PARSERS[kind](text)
    except sut.SutError as e:
        require(not isinstance(e.exc, (RecursionError, MemoryError)), f"{text!r}: {e}")
        return Out(sample=f"refused: {text}")
    why = "cannot be represented" if grammatical is not False else "is outside of the grammar"
    fail(f"{text!r} {why}, yet it is accepted and means {sut.show(tree)!r}")


def enumerated(tier):
    out = []
    def add(text, kind, grammatical):
        out.append((f"{kind}: {text}", lambda: refused(text, kind, grammatical)))
    for kind, texts in INVALID.items():
        for t in texts:
            add(t, kind, False)
            if t.strip() and kind == "query" and not t.rstrip().endswith(";") and "/*" not in t and "'" not in t and '"' not in t:
                add(t + " ;", kind, False)
    for e in EXPRS:
        for h in EXPR_HOSTS:
            add(h.format(e), "expr", None)
        for h in QUERY_HOSTS:
            add(h.format(e), "query", None)
    for r in RELATIONS:
        for h in RELATION_HOSTS:
            add(h.format(r), "query", None)
    for q in QUERIES:
        for h in SUBQUERY_HOSTS:
            add(h.format(q), "query", None)
    for q in STATEMENTS:
        add(q, "query", False)
    for t in TYPES:
        for k, h in TYPE_HOSTS:
            add(h.format(t), k, None)
    for text in combined():
        add(text, "expr", None)
    for parts in product(["", "a DESC"], ["MEASURES b AS c"], ["", "ONE ROW PER MATCH", "ALL ROWS PER MATCH OMIT EMPTY MATCHES"], FRAME[1][:3], FRAME[2][:2], FRAME[4][:2], ["", " AS m", " m(x, y)"]):
        order, measures, rows, skip, seek, subset, alias = parts
        body = " ".join(filter(None, [order and "ORDER BY " + order, measures, rows, skip, seek, "PATTERN (x y)", subset, "DEFINE x AS a"]))
        add(f"SELECT a FROM t MATCH_RECOGNIZE ({body}){alias}", "query", None)
    return out


# the optional parts of a window frame that no tree holds, in the order of the grammar
FRAME = [["", "MEASURES b AS c"], ["", "AFTER MATCH SKIP TO NEXT ROW", "AFTER MATCH SKIP PAST LAST ROW", "AFTER MATCH SKIP TO FIRST x", "AFTER MATCH SKIP TO LAST x", "AFTER MATCH SKIP TO x"],
         ["", "INITIAL", "SEEK"], ["", "PATTERN (x y)"], ["", "SUBSET u = (x, y)"], ["", "DEFINE x AS a"]]


def combined():
    """Every combination of the parts that are refused one by one: none of them excuses another."""
    for k, (measures, *rest) in enumerate(product(*FRAME)):
        if not (measures or any(rest)):
            continue
        extents = ["ROWS CURRENT ROW", "RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW", "GROUPS BETWEEN 1 PRECEDING AND 2 FOLLOWING"]
        head = ["", "PARTITION BY c", "ORDER BY d", "PARTITION BY c ORDER BY d"][k // 3 % 4]
        yield "SUM(a) OVER (" + " ".join(filter(None, [head, measures, extents[k % 3], *rest])) + ")"
    for mode, name, dist, order, filt, null, over in product(["", "RUNNING ", "FINAL "], ["LOWER", "SUM", "s.SUM", "NTILE", "COALESCE", "FIRST_VALUE"], ["", "DISTINCT "], ["", " ORDER BY a"], ["", " FILTER (WHERE a)"],
                                                             ["", " IGNORE NULLS"], ["", " OVER (PARTITION BY a)"]):
        if null and not over:
            continue
        if mode or name == "s.SUM" or (name in ("LOWER", "COALESCE") and (dist or order or filt or null or over)):
            yield f"{mode}{name}({dist}a{order}){filt}{null}{over}"
    for mode, label, filt, over in product(["", "RUNNING ", "FINAL "], ["", "t."], ["", " FILTER (WHERE a)"], ["", " OVER (PARTITION BY a)"]):
        for name in ("COUNT", "SUM", "LOWER", "s.COUNT"):
            if mode or name == "s.COUNT" or (name == "LOWER" and (filt or over)):
                yield f"{mode}{name}({label}*){filt}{over}"


# ---- content ---------------------------------------------------------------------------------------------------
SIGNIFICANT = set("""DESC IGNORE FILTER ORDINALITY NATURAL LATERAL ROLLUP CUBE SETS PARTITION LIKE IN ESCAPE UNNEST TABLESAMPLE BERNOULLI SYSTEM
CROSS LEFT RIGHT FULL USING WHERE HAVING UNION INTERSECT EXCEPT WHEN THEN ELSE CASE CAST TRY_CAST NULL TRUE FALSE IS INTERVAL VALUES TABLE NOT
OR WITHIN OVERFLOW TRUNCATE TO ORDER GROUP JOIN""".split())
SYMBOLS = {"+": "+", "-": "-", "*": "*", "/": "/", "%": "%", "<": "<", ">": ">", "<=": "<=", ">=": ">=", "=": "=", "<>": "<>", "!=": "<>", "->": "->", "[": "["}


def content(text):
    """Multiset of what a text says, without noise; None when it has pieces this comparison does not read."""
    toks = L.lex(text)
    out = Counter()
    for i, (c, t) in enumerate(toks):
        if c in ("ustr", "bin", "bqid", "digitid", "bad"):
            return None
        if c == "str":
            v = t[1:-1].replace("''", "'")
            prev = toks[i - 1][1] if i else ""
            if prev in ("+", "-") and i > 1 and toks[i - 2][1].upper() == "INTERVAL":
                out["sym", prev] -= 1
                v = v.lstrip("+-")
            elif prev.upper() == "INTERVAL":
                v = v.lstrip("+-")
            out["str", v] += 1
        elif c == "int" and t.lstrip("0") == "3" and i > 1 and toks[i - 2][1].upper() in ("CURRENT_TIME", "CURRENT_TIMESTAMP", "LOCALTIME", "LOCALTIMESTAMP"):
            continue            # the default
        elif c in ("int", "dec", "dbl"):
            out["num", str(Decimal(t).normalize())] += 1
        elif c == "qid":
            name = t[1:-1].replace('""', '"')
            out["word", name.upper()] += 1
        elif c == "word":
            if t.upper() == "OVERFLOW" and i + 1 < len(toks) and toks[i + 1][1].upper() == "ERROR":
                continue        # the default
            out["word", t.upper()] += 1
        elif c == "sym" and t in SYMBOLS:
            out["sym", SYMBOLS[t]] += 1
    return +out


def kept(text, shown):
    a, b = content(text), content(shown)
    if a is None or b is None:
        return None
    missing = []
    for (c, t), n in a.items():
        if c == "word" and t in KEYWORDS and t not in SIGNIFICANT:
            continue
        if (c, t) in (("word", "CONCAT"), ("str", "")):      # the empty string is the default separator
            continue
        if (c, t) == ("sym", "=") or (c, t) == ("sym", "<>"):
            continue
        if b[c, t] < n:
            missing.append(t)
    if a["sym", "="] + a["sym", "<>"] > b["sym", "="] + b["sym", "<>"]:
        missing.append("=")
    added = []
    for (c, t), n in b.items():
        if c == "word" and t in KEYWORDS and t not in SIGNIFICANT - {"ORDER", "NULL", "NOT"}:
            continue
        if c == "num" and t in ("38", "3.8E+1", "0", "1", "3") or c == "str" and t in ("", "..."):
            continue
        if (c, t) == ("word", "CONCAT") or c == "sym":
            continue
        if a[c, t] < n:
            added.append(t)
    return missing, added


def judge(text, kind):
    """The verdict of one arbitrary text: (label, sample)."""
    ok = grammar.accepts(text, kind)
    try:
        tree = sut.PARSERS[kind](text)
    except sut.SutError as e:
        require(not isinstance(e.exc, (RecursionError, MemoryError)), f"{text!r}: {e}")
        return "refused, " + ("grammatical" if ok else "ungrammatical")
    require(ok, lambda: f"{text!r} is outside of the grammar, yet it is accepted and means {sut.show(tree)!r}")
    shown = sut.show(tree)
    spec = L.canon_of(tree, kind)
    back = L.real_kind(spec, kind)
    d = S.diff(spec, L.canon_of(sut.PARSERS[back](shown), back))
    require(d is None, lambda: f"{text!r} is accepted and prints {shown!r}, which means something else: {d}")
    k = kept(text, shown)
    if k is not None and (k[0] or k[1]):
        fail(f"{text!r} is accepted as {shown!r}: lost {k[0]}, added {k[1]}")
    return "accepted"


EXTRA = ["(", ")", ",", ".", ";", "+", "-", "*", "=", "<", "->", "[", "]", "||", "?", "'s'", "1", "2.5", "3E1", '"q"', "a", "b", "t", "AND", "OR", "NOT", "AS", "FROM", "SELECT", "WHERE", "IN", "NULL", "ALL",
         "DISTINCT", "ORDER", "BY", "LIMIT", "OFFSET", "ROW", "ROWS", "ON", "JOIN", "WITH", "UNION", "OVER", "FILTER", "CASE", "WHEN", "END", "IS", "BETWEEN", "LIKE", "ESCAPE", "ARRAY", "INTERVAL", "GROUP", "HAVING",
         "TIES", "RECURSIVE", "EXISTS", "ANY", "SOME", "AT", "TIME", "ZONE", "FINAL", "RUNNING", "LATERAL", "UNNEST", "TABLE", "VALUES", "WINDOW", "DESC", "NULLS", "FIRST", "LAST", "FETCH", "ONLY", "IGNORE", "RESPECT",
         "NATURAL", "CROSS", "USING", "TABLESAMPLE", "MATCH_RECOGNIZE", "FOR", "UESCAPE", "CAST", "TRUE", "DATE", "CUBE", "ROLLUP", "GROUPING", "SETS", "ORDINALITY", "WITHIN", "PRECEDING", "RANGE", "`x`", "1x", "X'00'", "U&'x'", "$", "{", ":", "|", "@", "#", "\\", "'", '"', "EXTRACT", "TRIM", "CURRENT_ROLE", "COUNT", "SUM"]


def edit(src, toks):
    toks = list(toks)
    for _ in range(1 + src.choose(3)):
        n = len(toks)
        op = src.choose(7)
        i = src.choose(n) if n else 0
        if op == 0 and n:
            del toks[i]
        elif op == 1:
            toks.insert(i, src.pick(EXTRA))
        elif op == 2 and n:
            toks[i] = src.pick(EXTRA)
        elif op == 3 and n:
            toks.insert(src.choose(n + 1), toks[i])
        elif op == 4 and n > 1:
            j = src.choose(n)
            toks[i], toks[j] = toks[j], toks[i]
        elif op == 5 and n:
            toks = toks[:i] if src.choose(2) else toks[i:]
        else:
            toks.append(src.pick(EXTRA))
    return toks


# unsupported constructs around parts of every kind: {e} operands, {q} queries, {r} relations, {t} types, {n} names, {i} integers
TEMPLATES = {
    "expr": ["EXISTS ({q})", "EXTRACT(YEAR FROM {e})", "SUBSTRING({e} FROM {e})", "SUBSTRING({e} FROM {e} FOR {e})", "POSITION(({e}) IN ({e}))", "GROUPING({n}, {n})", "TRIM({e})", "TRIM(BOTH FROM {e})",
             "TRIM(TRAILING {e} FROM {e})", "TRIM({e}, {e})", "JSON_EXISTS({e}, 'lax $.x')", "JSON_ARRAY({e}, {e})", "JSON_OBJECT({e} : {e})", "({e}) = ALL ({q})", "({e}) <> SOME ({q})", "({e}) >= ANY ({q})",
             "({e}) AT TIME ZONE 'UTC'", "({e}) AT TIME ZONE INTERVAL '1' HOUR", "CAST({e} AS {t} ARRAY[{i}])", "TRY_CAST({e} AS ROW({n} {t}))", "CAST({e} AS ROW({t}, {n} {t}))", "CAST({e} AS ARRAY<{t}>)",
             "CAST({e} AS MAP<{t}, {t}>)", "{n}.{n}({e})", "{n}.SUM({e})", "{n}.COUNT(*)", "{n}.{n}.COALESCE({e}, {e})", "{n}.LOWER({e})", "{n}.MAX(DISTINCT {e}) OVER (PARTITION BY {e})", "{n}.NOW()", "COALESCE(DISTINCT {e}, {e})", "CONCAT({e}, {e}) OVER (ORDER BY {e})", "IF({e}, {e}) FILTER (WHERE {e})", "COUNT(DISTINCT {e}, {e})", "no_such_function({e}, {e})", "SUM({e}, {e}, {e})", "LOWER({e}, {e})", "LOWER(DISTINCT {e})", "LOWER({e}) OVER ()", "LOWER({e}) FILTER (WHERE {e})",
             "LOWER({e} ORDER BY {e})", "RUNNING SUM({e})", "FINAL SUM({e})", "SUM({e}) OVER (PARTITION BY {e} ROWS CURRENT ROW SEEK)", "SUM({e}) OVER (MEASURES {e} AS {n} ROWS CURRENT ROW)",
             "SUM({e}) OVER (ROWS CURRENT ROW PATTERN (x y) DEFINE x AS {e})", "{n} OVER (PARTITION BY {e})", "ARRAY[{e}, ?]", "COALESCE(?, {e})", "({e}) + X'00'", "IF({e})", "IF({e}, {e}, {e}, {e})", "NULLIF({e})",
             "({e}) IN ({e}, ?)", "CASE WHEN {e} THEN EXISTS ({q}) END"],
    "type": ["{t} ARRAY[{i}]", "ROW({n} {t})", "ROW({t}, {n} {t})", "ROW({n} {t}, {t})", "ARRAY<{t}>", "MAP<{t}, {t}>", "MAP({t})", "MAP({t}, {t}, {t})", "ARRAY({t}, {t})", "ARRAY({i})", "MAP({i}, {t})", "DECIMAL({t})",
             "VARCHAR({t})", "TIME({t})", "QDIGEST({i})", "BIGINT({t})", "DATE({i})", "nosuch({t})", "ARRAY({t}) ARRAY[{i}]"],
    "relation": ["{r}, {r}", "{n} FOR VERSION AS OF {e}", "{n} FOR TIMESTAMP AS OF {e}", "TABLE(fn({e}))", "TABLE(fn(x => {e}))", "{n}.{n}.{n}.{n}", "{n} MATCH_RECOGNIZE (PATTERN (x) DEFINE x AS {e})", "({r}, {r})",
                 "({q}) AS {n} MATCH_RECOGNIZE (ORDER BY {e} PATTERN (x) DEFINE x AS {e})"],
    "query": ["({q}) FETCH FIRST {i} ROWS WITH TIES", "SELECT {e} FROM {r} FETCH NEXT ROW WITH TIES", "WITH RECURSIVE {n} AS ({q}) SELECT {e}", "WITH RECURSIVE {n} AS ({q}), {n} AS ({q}) {q}", "SELECT {e} FROM {r}, {r}",
              "({q}) LIMIT ?", "SELECT {e} OFFSET ?", "TABLE {n}.{n}.{n}.{n}", "SELECT {e} UNION SELECT {e} FROM {r}, {r}", "SELECT {e} INTERSECT ALL SELECT {e}", "SELECT {e} EXCEPT ALL SELECT {e}", "SELECT {n}.{n}.* FROM {r}"],
}


def templated(src, g):
    """An unsupported construct around generated parts, alone or inside a generated host."""
    kind = src.pick(["expr", "expr", "query", "type", "relation"])
    t = src.pick(TEMPLATES[kind])
    out = []
    for i, part in enumerate(t.split("{")):
        if i == 0:
            out.append(part)
            continue
        k, rest = part[0], part[2:]
        g.budget = src.pick([2, 5, 9])
        if k == "i":
            v = str(src.choose(12))
        elif k == "n":
            v = L.text_of(atoms.F(g.name()), "expr", layout=False)[0]
        elif k == "t":
            v = L.text_of(g.type(2), "type", layout=False)[0]
        elif k == "e":
            v = L.text_of(settle(g.expr(d=3)), "expr", layout=False)[0]
        elif k == "q":
            v = L.text_of(settle(g.query(2, with_ok=False, tail_ok=False)), "query", layout=False)[0]
        else:
            v = L.text_of(settle(mk("SelectQuery", [mk("Star")], from_=g.relation(2))), "query", layout=False)[0].split("FROM", 1)[1]
        out.append(v + rest)
    text = "".join(out)
    hosts = {"expr": EXPR_HOSTS + QUERY_HOSTS + ["{}"] * 20, "query": SUBQUERY_HOSTS, "type": [h for _, h in TYPE_HOSTS], "relation": RELATION_HOSTS}[kind]
    h = src.pick(hosts)
    if kind == "type":
        pk = dict((h_, k_) for k_, h_ in TYPE_HOSTS)[h]
    elif kind == "expr":
        pk = "expr" if h in EXPR_HOSTS else "query"
        if h in EXPR_HOSTS and h != "{}":
            text = f"({text})"
    else:
        pk = "query"
    out = refused(h.replace("{}", text), pk)
    out.labels = ["template " + kind]
    return out


def case(src):
    mode = src.choose(6)
    g = Gen(src, size=src.pick([5, 8, 14, 24]))
    if mode == 4:
        return planted(src, g)
    if mode == 5:
        return templated(src, g)
    spec, kind = g.any_tree()
    r = Renderer(src, layout=False)
    {"query": r.query, "expr": r.expr, "type": r.type}[kind](spec)
    toks = [t for _, t in r.out]
    before = " ".join(toks)
    if mode == 0:
        text = before
        label = judge(text, kind)
        require(label == "accepted", f"the valid text {text!r} is {label}")
        return Out(sample=text, labels=["unedited"])
    if src.chance(1, 10):
        kind = src.pick(["query", "expr", "type"])
    text = " ".join(edit(src, toks))
    label = judge(text, kind)
    return Out(sample=f"{label}: {text}", key=kind + text, nontrivial=text != before, labels=[label])


def planted(src, g):
    """A valid text in which one expression is replaced by an unsupported one."""
    spec, kind = g.any_tree()
    if kind == "type":
        return refused(src.pick(TYPES), "type")
    spots = [n for n in S.walk(spec) if n.t == "Field" and n.table is None]
    if not spots:
        return Out(discard=True)
    k = src.choose(len(spots))
    seen = [0]
    def swap(n):
        if n.t == "Field" and n.table is None:
            seen[0] += 1
            if seen[0] == k + 1:
                return S.mk("Field", "zz9marker")
        return n
    # rewrite walks bottom-up in the same left-to-right order of leaves
    spec = S.rewrite(spec, swap)
    r = Renderer(src, layout=False)
    {"query": r.query, "expr": r.expr}[kind](spec)
    toks = [t for _, t in r.out]
    hit = [i for i, t in enumerate(toks) if t.strip('"') == "zz9marker"]
    if len(hit) != 1:
        return Out(discard=True)
    e = src.pick(EXPRS)
    toks[hit[0]] = e
    text = " ".join(toks)
    out = refused(text, kind)
    out.labels = ["planted"]
    return out
