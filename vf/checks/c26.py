"""C26: set operations group by precedence and parentheses; clauses and WITH stay on their query; subqueries stay subqueries."""
import itertools

from ..common import *
from ..spec import lit, mk

PROPERTY = "C26"
RULE = "the tree holds a set operation, a WITH or a query inside of another one; distinct by text"
ASSUMPTIONS = [GRAMMAR, TYPED, "INTERSECT binds tighter than UNION and EXCEPT, which group from left to right", "an operand of a set operation cannot have a WITH of its own: the grammar has no text for it",
               "x IN ((SELECT ...)) is a list of one scalar subquery, x IN (SELECT ...) a subquery"]
COUNTS = {"quick": 1100, "thorough": 150000}
F = atoms.F
TAB = lambda n: mk("Table", n)
SEL = lambda n, t=None, **kw: mk("SelectQuery", [F(n)], from_=TAB(t) if t else None, **kw)
# (text as an operand, tree)
OPERANDS = [("SELECT a", SEL("a")), ("SELECT b FROM t", SEL("b", "t")), ("TABLE t", mk("TableQuery", TAB("t"))), ("SELECT c WHERE d", SEL("c", where=F("d"))), ("SELECT DISTINCT e FROM t GROUP BY e", mk("SelectQuery", [F("e")], from_=TAB("t"), select_quantifier="DISTINCT", groupby=mk("GroupBy", [mk("GroupingSet", [F("e")])]))),
            ("(SELECT f ORDER BY g LIMIT 2)", SEL("f", orderby=[mk("OrderTerm", F("g"))], limit=2)), ("(TABLE u OFFSET 1)", mk("TableQuery", TAB("u"), offset=1)), ("(SELECT h)", SEL("h")), ("((SELECT i LIMIT 0))", SEL("i", limit=0))]
ROW = lambda *xs: mk("RowConstructor", list(xs))
# rows may stand there more than once
VALUES = [("VALUES 1, 2", mk("ValuesQuery", [lit(1), lit(2)])), ("VALUES 1, 1", mk("ValuesQuery", [lit(1), lit(1)])), ("VALUES (2, a), (1, a), (2, a)", mk("ValuesQuery", [ROW(lit(2), F("a")), ROW(lit(1), F("a")), ROW(lit(2), F("a"))])), ("VALUES a, b, b, a", mk("ValuesQuery", [F("a"), F("b"), F("b"), F("a")]))]
OPS = [("UNION", "UnionQuery", "DISTINCT"), ("UNION ALL", "UnionQuery", "ALL"), ("INTERSECT", "IntersectQuery", "DISTINCT"), ("EXCEPT", "ExceptQuery", "DISTINCT"), ("UNION DISTINCT", "UnionQuery", "DISTINCT"), ("INTERSECT DISTINCT", "IntersectQuery", "DISTINCT"), ("EXCEPT DISTINCT", "ExceptQuery", "DISTINCT")]
TAILS = [("", {}), ("ORDER BY o", dict(orderby=(mk("OrderTerm", F("o")),))), ("OFFSET 7", dict(offset=7)), ("LIMIT 8", dict(limit=8)), ("ORDER BY o DESC OFFSET 7 ROWS FETCH NEXT 9 ROWS ONLY", dict(orderby=(mk("OrderTerm", F("o"), "DESC"),), offset=7, limit=9))]
WITHS = [("", {}), ("WITH w AS (SELECT a)", dict(with_=(atoms.named(SEL("a")),))), ("WITH w (m, n) AS (TABLE t LIMIT 3), v AS (SELECT b)", dict(with_=(mk("AliasedRelation", mk("TableQuery", TAB("t"), limit=3), "w", ("m", "n")), mk("AliasedRelation", SEL("b"), "v")))),
         ('WITH "W w" AS (WITH x AS (SELECT a) TABLE x)', dict(with_=(mk("AliasedRelation", mk("TableQuery", TAB("x"), with_=(mk("AliasedRelation", SEL("a"), "x"),)), "W w"),)))]


def chain(operands, ops):
    """The grouping of a flat chain by precedence."""
    xs, os_ = [t for _, t in operands], list(ops)
    for level in (("IntersectQuery",), ("UnionQuery", "ExceptQuery")):
        i = 0
        while i < len(os_):
            if os_[i][1] in level:
                xs[i:i + 2] = [mk(os_[i][1], xs[i], xs[i + 1], os_[i][2])]
                del os_[i]
            else:
                i += 1
    return xs[0]


def flat(operands, ops):
    out = operands[0][0]
    for (w, _, _), (t, _) in zip(ops, operands[1:]):
        out += f" {w} {t}"
    return out


def shapes(n):
    if n == 1:
        yield None
    for i in range(1, n):
        for l, r in itertools.product(shapes(i), shapes(n - i)):
            yield l, r


def grouped(shape, ops, operands, tails):
    """Every operation in parentheses, each with a tail of its own: (text, tree)."""
    if shape is None:
        return operands.pop(0)
    lt, l = grouped(shape[0], ops, operands, tails)
    w, cls, q = ops.pop(0)
    rt, r = grouped(shape[1], ops, operands, tails)
    tt, kw = tails.pop(0)
    return f"({lt} {w} {rt}{' ' if tt else ''}{tt})", mk(cls, l, r, q, **kw)


PLACES = 9


def wrapped(text):
    """Is the whole text one pair of parentheses?"""
    depth = 0
    for i, c in enumerate(text):
        depth += (c == "(") - (c == ")")
        if not depth:
            return i == len(text) - 1 and text[0] == "("
    return False


def within(text, q):
    """x IN (...): with doubled parentheses a list of one scalar subquery."""
    return mk("InList", F("x"), [q]) if wrapped(text) else mk("InQuery", F("x"), q)


def embed(text, q, k):
    if k == 0:
        return text, q, "query"
    if k == 1:
        return f"SELECT x FROM ({text}) s (y) LIMIT 70", mk("SelectQuery", [F("x")], from_=mk("AliasedRelation", q, "s", ("y",)), limit=70), "query"
    if k == 2:
        return f"x IN ({text})", within(text, q), "expr"
    if k == 3:
        return f"x NOT IN ({text}) AND y", mk("And", mk("Not", within(text, q)), F("y")), "expr"
    if k == 4:
        return f"SELECT ({text}) z, y FROM t ORDER BY ({text})", mk("SelectQuery", [mk("AliasedValue", q, "z"), F("y")], from_=TAB("t"), orderby=[mk("OrderTerm", q)]), "query"
    if k == 5:
        return f"WITH k AS ({text}), j AS (SELECT x) TABLE k UNION TABLE j", mk("UnionQuery", mk("TableQuery", TAB("k")), mk("TableQuery", TAB("j")), with_=[mk("AliasedRelation", q, "k"), mk("AliasedRelation", SEL("x"), "j")]), "query"
    if k == 6:
        return f"SELECT x FROM t CROSS JOIN LATERAL ({text}) WHERE y < ({text})", mk("SelectQuery", [F("x")], from_=mk("Join", TAB("t"), mk("Lateral", q), mk("JoinConfig", "CROSS")), where=mk("LessThan", F("y"), q)), "query"
    if k == 7:
        return f"SELECT x FROM (SELECT y FROM ({text}) LIMIT 71) ORDER BY z", mk("SelectQuery", [F("x")], from_=mk("SelectQuery", [F("y")], from_=q, limit=71), orderby=[mk("OrderTerm", F("z"))]), "query"
    return f"CASE WHEN x = ({text}) THEN y END", mk("Case", [mk("When", mk("Equal", F("x"), q), F("y"))]), "expr"


def interesting(tree):
    qs = [n for n in S.walk(tree) if n.t in L.QUERIES]
    return len(qs) > 1 or any(n.with_ for n in qs)


def labels_of(tree, kind="query"):
    out = set()
    for n in S.walk(tree):
        if n.t in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
            out.add(n.t[:-5].lower() + (" all" if n.set_quantifier == "ALL" else ""))
            if n.right_query.t in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
                out.add("set operation on the right")
            if any(x.d[f] is not None and x.d[f] != () for x in (n.left_query, n.right_query) for f in ("orderby", "offset", "limit")):
                out.add("operand with a tail")
        if n.t in L.QUERIES:
            if n.with_:
                out.add("with")
            if any(w.relation.t in L.QUERIES and w.relation.with_ for w in n.with_ or ()):
                out.add("with in with")
        if n.t == "InQuery":
            out.add("in subquery")
    return sorted(out)


def exact(text, q, k):
    text, tree, kind = embed(text, q, k)
    got = L.parse(text, kind)
    d = S.diff(tree, got)
    require(d is None, lambda: f"{text!r} is parsed as another tree: {d} (expected vs parsed)")
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown)
    L.pretty_parse_leg(tree, kind, obj, 2)
    return Out(sample=text, nontrivial=interesting(tree), labels=labels_of(tree))


def texts(tier):
    n = 0
    for size in (2, 3, 4, 5):
        for ops in itertools.product(OPS if size == 2 else OPS[:4], repeat=size - 1):
            n += 1
            if tier == "quick" and size == 5 and n % 3:
                continue
            operands = [OPERANDS[(n * 5 + i * 2) % len(OPERANDS)] for i in range(size)]
            wt, wk = WITHS[n % 4 if n % 3 == 0 else 0]
            tt, tk = TAILS[n % 5]
            yield " ".join(x for x in (wt, flat(operands, ops), tt) if x), chain(operands, ops).put(**wk, **tk)
    for size in (3, 4):
        for shape in shapes(size):
            for ops in itertools.product(OPS[:4] if size == 3 else OPS[1:4], repeat=size - 1):
                n += 1
                if tier == "quick" and size == 4 and n % 2:
                    continue
                t, q = grouped(shape, list(ops), [OPERANDS[(n + i) % len(OPERANDS)] for i in range(size)], [TAILS[(n + i * 3) % 5] for i in range(size - 1)])
                yield t, q
    for (x, p), (y, q) in itertools.product(OPERANDS, OPERANDS):
        w, cls, qn = OPS[(len(x) + len(y)) % 4]
        yield f"{x} {w} {y}", mk(cls, p, q, qn)
    for (wt, wk), (t, q), (tt, tk) in itertools.product(WITHS, OPERANDS[:5] + VALUES, TAILS):
        yield " ".join(x for x in (wt, t, tt) if x), q.put(**wk, **tk)
    for (t, q), (u, r) in itertools.chain(itertools.product([VALUES[0], VALUES[1], VALUES[3]], repeat=2), [(VALUES[2], VALUES[2])]):
        for w, cls, qn in OPS[:4]:
            yield f"{t} {w} {u}", mk(cls, q, r, qn)
    for (wt, wk), (t, q) in itertools.product(WITHS, OPERANDS[5:]):
        yield " ".join(x for x in (wt, t) if x), q.put(**wk)


REFUSE = ["SELECT a UNION", "UNION SELECT a", "SELECT a UNION ALL DISTINCT SELECT b", "SELECT a ORDER BY c UNION SELECT b", "SELECT a LIMIT 1 UNION SELECT b", "SELECT a UNION (SELECT b", "SELECT a UNION SELECT b)", "SELECT a INTERSECT ALL SELECT b", "SELECT a EXCEPT ALL SELECT b", "SELECT a MINUS SELECT b FROM",
          "WITH w AS (SELECT a)", "WITH w AS SELECT a SELECT b", "WITH w (SELECT a) SELECT b", "WITH w AS (SELECT a), SELECT b", "WITH w AS (SELECT a) v AS (SELECT b) SELECT c", "WITH AS (SELECT a) SELECT b FROM", "WITH w () AS (SELECT a) SELECT b", "WITH RECURSIVE w AS (SELECT a) SELECT b", "WITH w AS () SELECT b",
          "SELECT a UNION WITH w AS (SELECT a) SELECT b", "SELECT a UNION (WITH w AS (SELECT a) SELECT b)", "(WITH w AS (SELECT a) SELECT b)", "SELECT a IN SELECT b", "SELECT a IN (SELECT b, (SELECT c)", "SELECT EXISTS (SELECT a)", "SELECT a = ALL (SELECT b)", "SELECT a > ANY (SELECT b)", "SELECT a < SOME (SELECT b)", "SELECT a FROM SELECT b",
          "SELECT a UNION UNION SELECT b", "SELECT a SELECT b", "SELECT a; SELECT b", "TABLE t TABLE u", "TABLE (SELECT a)", "VALUES", "VALUES 1,", "VALUES ()", "TABLE", "TABLE t u", "SELECT", "SELECT a, FROM t", "((SELECT a)", "()", "(TABLE t) UNION", "(SELECT a LIMIT 1) LIMIT 2", "(SELECT a ORDER BY b) ORDER BY c", "SELECT a UNION SELECT b WITH w AS (SELECT c)"]


def enumerated(tier):
    out = []
    full = tier == "thorough"
    i = 0
    for text, q in texts(tier):
        i += 1
        for k in range(PLACES) if full else [i % PLACES]:
            out.append((f"{text} in {k}", lambda text=text, q=q, k=k: exact(text, q, k)))
    for text in REFUSE:
        def refused(text=text):
            try:
                got = sut.parse_query(text)
            except sut.SutError:
                return Out(sample="refused: " + text)
            fail(f"{text!r} must be refused, yet it is accepted as {sut.show(got)!r}")
        out.append((text, refused))
    pairs = [("SELECT x IN (SELECT a)", "SELECT x IN ((SELECT a))"), ("SELECT a UNION SELECT b UNION ALL SELECT c", "SELECT a UNION (SELECT b UNION ALL SELECT c)"), ("SELECT a UNION SELECT b", "SELECT b UNION SELECT a"), ("SELECT a UNION SELECT b LIMIT 1", "SELECT a UNION (SELECT b LIMIT 1)"),
             ("(SELECT a LIMIT 1) UNION SELECT b", "SELECT a UNION SELECT b LIMIT 1"), ("SELECT a FROM (SELECT b LIMIT 1)", "SELECT a FROM (SELECT b) LIMIT 1"), ("WITH w AS (SELECT a LIMIT 1) TABLE w", "WITH w AS (SELECT a) TABLE w LIMIT 1"), ("SELECT a EXCEPT SELECT b INTERSECT SELECT c", "(SELECT a EXCEPT SELECT b) INTERSECT SELECT c"),
             ("WITH w AS (SELECT a), v AS (SELECT b) TABLE w", "WITH v AS (SELECT b), w AS (SELECT a) TABLE w"), ("WITH w AS (SELECT a) SELECT x FROM (SELECT b)", "SELECT x FROM (WITH w AS (SELECT a) SELECT b)"), ("SELECT a FROM t", "TABLE t"), ("VALUES 1, 2", "VALUES (1, 2)"), ("SELECT a UNION SELECT b EXCEPT SELECT c", "SELECT a UNION (SELECT b EXCEPT SELECT c)")]
    for x, y in pairs:
        def different(x=x, y=y):
            p, q = sut.parse_query(x), sut.parse_query(y)
            require(sut.canon(p) != sut.canon(q) and sut.show(p) != sut.show(q), lambda: f"{x!r} and {y!r} became the same: {sut.show(p)!r} and {sut.show(q)!r}")
            return Out(sample=f"{x} is not {y}")
        out.append((x, different))
    return out


def dense(g, d, operand=False):
    s = g.s
    k = s.weighted([(2, "select"), (1, "table"), (5, "set"), (1, "values")]) if d > 0 else s.weighted([(6, "select"), (2, "table"), (1, "values")])
    if k == "values":
        rows = [lit(s.choose(3)) if s.chance(1, 2) else lit(None) for _ in range(1 + s.choose(4))]
        q = mk("ValuesQuery", rows)
    elif k == "table":
        q = mk("TableQuery", g.table())
    elif k == "select":
        q = g.select(0, {})
        j = s.choose(5)
        if d > 0 and j == 0:
            q = q.put(from_=dense(g, d - 1))
        elif d > 0 and j == 1:
            q = q.put(where=mk("InQuery", g.expr("any", 1), dense(g, d - 1)))
        elif d > 0 and j == 2:
            q = q.put(select=q.select + (s.pick([lambda x: x, lambda x: mk("AliasedValue", x, "z"), lambda x: mk("Negative", x), lambda x: mk("RowConstructor", [lit(1), x])])(dense(g, d - 1)),))
    else:
        t = s.pick(["UnionQuery", "IntersectQuery", "ExceptQuery"])
        q = mk(t, dense(g, d - 1, True), dense(g, d - 1, True), "ALL" if t == "UnionQuery" and s.choose(2) else "DISTINCT")
        try:
            T.typeof(q)
        except T.NoType:
            q = q.put(left_query=mk("SelectQuery", [mk("Star")], from_=g.table()), right_query=mk("SelectQuery", [mk("Star")], from_=g.table(), limit=2))
    kw = {}
    if s.chance(1, 3):
        kw["orderby"] = tuple(g.order_terms(1, 2))
    if s.chance(1, 5):
        kw["offset"] = s.choose(4)
    if s.chance(1, 3):
        kw["limit"] = s.choose(4)
    if not operand and s.chance(1, 3):
        kw["with_"] = tuple(mk("AliasedRelation", dense(g, max(d - 1, 0)), g.name(), **({"column_aliases": g.names(1, 2)} if s.choose(3) == 0 else {})) for _ in range(1 + s.choose(2)))
    return q.put(**kw)


def case(src):
    from ..gen import settle
    g = Gen(src, size=src.pick([3, 6, 10]), subqueries=src.chance(1, 3), lambdas=False)
    q = settle(dense(g, src.pick([1, 2, 2, 3])))
    tree, kind = q, "query"
    if src.chance(1, 3):
        _, tree, kind = embed("", q, 1 + src.choose(PLACES - 1))
        try:
            T.typeof(tree)
        except T.NoType:
            tree, kind = q, "query"
    text = L.parse_leg(tree, kind, src)
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown, src.pick([0, 1, 2, 4, 8]))
    if src.chance(1, 4):
        L.pretty_parse_leg(tree, kind, obj, 4)
    return Out(sample=text, nontrivial=interesting(tree), labels=labels_of(tree))
