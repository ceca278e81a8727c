"""C21: GROUP BY elements, ORDER BY items, OFFSET and LIMIT survive on every kind of query, in order and with exact values."""
import itertools

from ..common import *
from ..spec import lit, mk

PROPERTY = "C21"
RULE = "some query of the tree groups, orders or limits its rows; distinct by text"
ASSUMPTIONS = [GRAMMAR, TYPED, "LIMIT ALL is no limit; FETCH FIRST|NEXT [n] ROWS ONLY is LIMIT n, with n left out meaning 1; GROUP BY ALL is GROUP BY; GROUP BY a and GROUP BY (a) are the same set",
               "a query in parentheses which has its own ORDER BY, OFFSET or LIMIT and gets a second one outside has no tree and may be refused"]
COUNTS = {"quick": 1000, "thorough": 150000}
F = atoms.F
GS = lambda *xs: mk("GroupingSet", list(xs))
ROW = lambda *xs: mk("RowConstructor", list(xs))
a, b, c, d = (F(x) for x in "abcd")
PLUS = mk("Add", a, lit(1))

SETS = [("a", GS(a)), ("(a)", GS(a)), ("(a, b)", GS(a, b)), ("()", GS()), ("a + 1", GS(PLUS)), ("(a + 1, b)", GS(PLUS, b)), ("((a, b))", GS(ROW(a, b))), ("(c, b, a)", GS(c, b, a)), ("2", GS(lit(2))),
        ("ROW(a, b)", GS(ROW(a, b))), ("((a), b)", GS(a, b)), ("t.a", GS(F("a", "t"))), ("LOWER(a)", GS(mk("Lower", a))), ("(a, a)", GS(a, a)), ("(a) + 1", GS(PLUS)), ("(SELECT a FROM t)", GS(atoms.Q))]
LISTS = [("a", [a]), ("a, b", [a, b]), ("(a, b), c", [ROW(a, b), c]), ("b, a, b", [b, a, b]), ("(a)", [a]), ("a + 1, 2", [PLUS, lit(2)]), ("c, (a, b)", [c, ROW(a, b)])]
GROUPS = SETS + [(f"{w} ({t})", mk(cls, xs)) for w, cls in (("ROLLUP", "Rollup"), ("CUBE", "Cube")) for t, xs in LISTS] + \
    [(f"GROUPING SETS ({', '.join(t for t, _ in ss)})", mk("GroupingSetList", [g for _, g in ss])) for n in (1, 2) for ss in itertools.product(SETS[:9], repeat=n)] + \
    [("GROUPING SETS (a, (b), (c, d), (), a)", mk("GroupingSetList", [GS(a), GS(b), GS(c, d), GS(), GS(a)]))]
QUANTS = [("", "ALL"), ("ALL ", "ALL"), ("DISTINCT ", "DISTINCT"), ("distinct ", "DISTINCT"), ("all ", "ALL")]

DIRS = [("", "ASC"), (" ASC", "ASC"), (" DESC", "DESC"), (" desc", "DESC")]
NULLS = [("", "LAST"), (" NULLS LAST", "LAST"), (" NULLS FIRST", "FIRST"), (" nulls first", "FIRST")]
KEYS = [("a", a), ("1", lit(1)), ("t.a", F("a", "t")), ("a + 1", PLUS), ("LOWER(a)", mk("Lower", a)), ("(a, b)", ROW(a, b)), ('"desc"', F("desc")), ("SUM(a) OVER (ORDER BY b DESC)", mk("Sum", a, window=mk("Window", orderby=[mk("OrderTerm", b, "DESC")]))),
        ("ARRAY_AGG(a ORDER BY b DESC NULLS FIRST)", mk("ArrayAgg", a, orderby=[mk("OrderTerm", b, "DESC", "FIRST")])), ("(SELECT a FROM t)", atoms.Q)]
TERMS = [(k + x + y, mk("OrderTerm", v, o, n)) for (k, v), (x, o), (y, n) in itertools.product(KEYS, DIRS, NULLS)]
NUMBERS = ["0", "1", "2", "7", "10", "007", "99", "100", "1000", "2147483647", "2147483648", "9223372036854775807", "9223372036854775808", "123456789012345678901234567890"]
OFFSETS = [("", None)] + [(f"OFFSET {n}{r}", int(n)) for n in NUMBERS for r in ("", " ROW", " ROWS")]
LIMITS = [("", None), ("LIMIT ALL", None), ("limit all", None)] + [(f"LIMIT {n}", int(n)) for n in NUMBERS] + \
    [(f"FETCH {f}{n} {r} ONLY", int(n) if n else 1) for f in ("FIRST", "NEXT") for n in ("", " 0", " 3", " 010", " 9223372036854775808") for r in ("ROW", "ROWS")]

S1 = mk("SelectQuery", [a], from_=mk("Table", "t"))
S2 = mk("SelectQuery", [b], from_=mk("Table", "u"))
HOSTS = [("SELECT a FROM t", S1), ("SELECT a", mk("SelectQuery", [a])), ("TABLE t", mk("TableQuery", mk("Table", "t"))), ("VALUES 1, 2", mk("ValuesQuery", [lit(1), lit(2)])),
         ("SELECT a FROM t UNION ALL SELECT b FROM u", mk("UnionQuery", S1, S2, "ALL")), ("SELECT a FROM t EXCEPT SELECT b FROM u", mk("ExceptQuery", S1, S2)), ("SELECT a FROM t INTERSECT TABLE u", mk("IntersectQuery", S1, mk("TableQuery", mk("Table", "u")))),
         ("SELECT a FROM t WHERE b GROUP BY a HAVING c", S1.put(where=b, groupby=mk("GroupBy", [GS(a)]), having=c)), ("(SELECT a FROM t)", S1), ("WITH w AS (SELECT a FROM t) SELECT a FROM t", S1.put(with_=(atoms.named(),))),
         ("SELECT a FROM t WINDOW w AS (ORDER BY b)", S1.put(window=(("w", mk("Window", orderby=[mk("OrderTerm", b)])),))), ("(TABLE t)", mk("TableQuery", mk("Table", "t"))), ("SELECT DISTINCT a FROM t JOIN u ON b", S1.put(select_quantifier="DISTINCT", from_=mk("Join", mk("Table", "t"), mk("Table", "u"), mk("JoinConfig", "INNER", criteria=mk("JoinOnCriteria", b)))))]


def embed(text, q, k):
    """Places where a query with its own ORDER BY, OFFSET and LIMIT may stand next to other ones."""
    if q.d.get("with_") and k in (2, 5):
        k = 1  # the grammar has no WITH for an operand
    if k == 0:
        return text, q, "query"
    if k == 1:
        return f"SELECT x FROM ({text}) ORDER BY x DESC LIMIT 77", mk("SelectQuery", [F("x")], from_=q, orderby=[mk("OrderTerm", F("x"), "DESC")], limit=77), "query"
    if k == 2:
        return f"({text}) UNION (SELECT y ORDER BY y OFFSET 3) LIMIT 78", mk("UnionQuery", q, mk("SelectQuery", [F("y")], orderby=[mk("OrderTerm", F("y"))], offset=3), limit=78), "query"
    if k == 3:
        return f"WITH w AS ({text}), v AS (SELECT x LIMIT 5) SELECT y FROM w GROUP BY y", mk("SelectQuery", [F("y")], from_=mk("Table", "w"), groupby=mk("GroupBy", [GS(F("y"))]), with_=[mk("AliasedRelation", q, "w"), mk("AliasedRelation", mk("SelectQuery", [F("x")], limit=5), "v")]), "query"
    if k == 4:
        return f"x IN ({text})", mk("InQuery", F("x"), q), "expr"
    return f"(SELECT y ORDER BY y LIMIT 4) EXCEPT ({text}) ORDER BY 1 OFFSET 9", mk("ExceptQuery", mk("SelectQuery", [F("y")], orderby=[mk("OrderTerm", F("y"))], limit=4), q, orderby=[mk("OrderTerm", lit(1))], offset=9), "query"


def parts(tree):
    out = set()
    for n in S.walk(tree):
        out |= {n.t} & {"GroupingSet", "GroupingSetList", "Cube", "Rollup"}
        if n.t in L.QUERIES:
            out |= {f for f in ("orderby", "offset", "limit") if n.d[f] is not None and n.d[f] != ()}
            if any(n.d[f] is not None for f in ("orderby", "offset", "limit")):
                out.add("tail of " + n.t)
    return sorted(out)


def exact(text, tree, k, whole=True):
    text, tree, kind = embed(text, tree, k)
    got = L.parse(text, kind)
    dd = S.diff(tree, got)
    require(dd is None, lambda: f"{text!r} is parsed as another tree: {dd} (expected vs parsed)")
    if whole:
        obj, shown = L.print_leg(tree, kind)
        L.pretty_leg(obj, shown)
        L.pretty_parse_leg(tree, kind, obj, 2)
    return Out(sample=text, nontrivial=bool(parts(tree)), labels=parts(tree))


def groupbys(tier):
    for i, (t, g) in enumerate(GROUPS):
        for j, (w, qn) in enumerate(QUANTS):
            if j == i % 3 or j == 3 + i % 2 or tier == "thorough":
                yield w + t, mk("GroupBy", [g], qn)
    few = SETS[:4] + [SETS[6]] + GROUPS[len(SETS):len(SETS) + 3] + [("CUBE (a)", mk("Cube", [a])), ("GROUPING SETS (a, (), (b, c))", mk("GroupingSetList", [GS(a), GS(), GS(b, c)]))]
    for n in (2, 3) if tier == "thorough" else (2,):
        for xs in itertools.product(few, repeat=n):
            yield ", ".join(t for t, _ in xs), mk("GroupBy", [g for _, g in xs])
    for k in range(4):
        yield "DISTINCT a, ROLLUP (b, c), CUBE (d), GROUPING SETS ((), a), ()"[: [None, 10, 26, 36][k]].rstrip(", "), mk("GroupBy", [GS(a), mk("Rollup", [b, c]), mk("Cube", [d]), mk("GroupingSetList", [GS(), GS(a)]), GS()][: [5, 1, 2, 3][k]], "DISTINCT")


REFUSE = ["SELECT a LIMIT 1.5", "SELECT a LIMIT -1", "SELECT a LIMIT ?", "SELECT a LIMIT 1, 2", "SELECT a LIMIT 1 LIMIT 2", "SELECT a LIMIT 1 OFFSET 2", "SELECT a OFFSET ALL", "SELECT a OFFSET 1 OFFSET 2",
          "SELECT a LIMIT 1 FETCH FIRST ROW ONLY", "SELECT a FETCH FIRST ROW", "SELECT a FETCH FIRST 2 ONLY", "SELECT a FETCH ROW ONLY", "SELECT a FETCH FIRST 2 ROWS WITH TIES", "SELECT a FETCH NEXT ROW WITH TIES", "SELECT a FETCH FIRST ALL ROWS ONLY", "SELECT a ORDER BY", "SELECT a ORDER a", "SELECT a ORDER BY a,",
          "SELECT a ORDER BY a ASC DESC", "SELECT a ORDER BY a NULLS", "SELECT a ORDER BY a NULLS FIRST ASC", "SELECT a ORDER BY a FIRST", "SELECT a ORDER BY a ORDER BY b", "SELECT a LIMIT 1 ORDER BY a", "SELECT a OFFSET 1 ORDER BY a", "SELECT a ORDER BY DISTINCT a",
          "SELECT a GROUP BY", "SELECT a GROUP a", "SELECT a GROUP BY a,", "SELECT a GROUP BY CUBE", "SELECT a GROUP BY GROUPING SETS", "SELECT a GROUP BY GROUPING SETS ()", "SELECT a GROUP BY GROUPING SETS (ROLLUP (a))", "SELECT a GROUP BY GROUPING SETS (CUBE (a), b)",
          "SELECT a GROUP BY GROUPING SETS a", "SELECT a GROUP BY (a, ())", "SELECT a GROUP BY ROLLUP a", "SELECT a GROUP BY DISTINCT", "SELECT a GROUP BY ALL DISTINCT a", "SELECT a GROUP BY a GROUP BY b", "SELECT a HAVING b GROUP BY a", "SELECT a GROUP BY a WHERE b", "SELECT a ORDER BY a GROUP BY a",
          "SELECT a GROUP BY a WITH ROLLUP", "TABLE t GROUP BY a", "VALUES 1 GROUP BY 1", "SELECT a OFFSET 1.0", "SELECT a OFFSET -1", "SELECT a OFFSET x", "SELECT a LIMIT 'x'", "SELECT a LIMIT (1)", "SELECT a LIMIT 1 + 1", "SELECT a FETCH FIRST 1.5 ROWS ONLY", "SELECT a FETCH FIRST -2 ROWS ONLY"]
DIFFERENT = [("SELECT a LIMIT 0", "SELECT a LIMIT ALL"), ("SELECT a LIMIT 0", "SELECT a"), ("SELECT a OFFSET 0", "SELECT a OFFSET 1"), ("SELECT a LIMIT 1", "SELECT a OFFSET 1"), ("SELECT a ORDER BY a, b", "SELECT a ORDER BY b, a"), ("SELECT a ORDER BY a DESC, b", "SELECT a ORDER BY a, b DESC"),
             ("SELECT a GROUP BY a, b", "SELECT a GROUP BY (a, b)"), ("SELECT a GROUP BY (a, b)", "SELECT a GROUP BY ((a, b))"), ("SELECT a GROUP BY ()", "SELECT a"), ("SELECT a GROUP BY CUBE (a)", "SELECT a GROUP BY ROLLUP (a)"), ("SELECT a GROUP BY a, b", "SELECT a GROUP BY b, a"),
             ("SELECT a GROUP BY GROUPING SETS (a, b)", "SELECT a GROUP BY a, b"), ("SELECT a GROUP BY GROUPING SETS ((a, b))", "SELECT a GROUP BY GROUPING SETS (a, b)"), ("SELECT a GROUP BY DISTINCT a", "SELECT a GROUP BY a"), ("SELECT a GROUP BY GROUPING SETS (a)", "SELECT a GROUP BY a"),
             ("SELECT a GROUP BY a, a", "SELECT a GROUP BY a"), ("SELECT a GROUP BY a, ()", "SELECT a GROUP BY a"), ("SELECT a GROUP BY a", "SELECT DISTINCT a"), ("SELECT a ORDER BY a, a", "SELECT a ORDER BY a")]


def enumerated(tier):
    out = []
    full = tier == "thorough"
    def add(text, tree, i):
        ks = range(6) if full else ([0, 1 + i % 5] if i % 3 == 0 else [i % 6])
        for k in ks:
            out.append((f"{text} in {k}", lambda k=k: exact(text, tree, k)))
    i = 0
    for text, g in groupbys(tier):
        i += 1
        add(f"SELECT a FROM t GROUP BY {text}", S1.put(groupby=g), i)
        if i % 4 == 0 or full:
            add(f"SELECT a FROM t WHERE b GROUP BY {text} HAVING c ORDER BY d LIMIT 3", S1.put(where=b, groupby=g, having=c, orderby=(mk("OrderTerm", d),), limit=3), i + 1)
    for j, (t, o) in enumerate(TERMS):
        ht, h = HOSTS[j % len(HOSTS)]
        add(f"{ht} ORDER BY {t}", h.put(orderby=(o,)), j)
        t2, o2 = TERMS[(j * 37 + 11) % len(TERMS)]
        ht, h = HOSTS[(j + 5) % len(HOSTS)]
        add(f"{ht} ORDER BY {t}, {t2}, a", h.put(orderby=(o, o2, mk("OrderTerm", a))), j + 2)
    for j, ((x, off), (y, lim)) in enumerate(itertools.product(OFFSETS, LIMITS)):
        if not full and off is not None and lim is not None and j % 7:
            continue
        ht, h = HOSTS[j % len(HOSTS)]
        o = j % 3 == 0
        add(" ".join(p for p in (ht, "ORDER BY a" if o else "", x, y) if p), h.put(offset=off, limit=lim, **({"orderby": (mk("OrderTerm", a),)} if o else {})), j)
    for (ht, h), (x, off), (y, lim), o in itertools.product(HOSTS, (OFFSETS[0], OFFSETS[1], OFFSETS[8]), (LIMITS[0], LIMITS[3], LIMITS[6], LIMITS[-4]), (0, 1)):
        add(" ".join(p for p in (ht, "ORDER BY a DESC" if o else "", x, y) if p), h.put(offset=off, limit=lim, **({"orderby": (mk("OrderTerm", a, "DESC"),)} if o else {})), 1 + (off or 0) + (lim or 0) + o)
    for x, y in DIFFERENT:
        def different(x=x, y=y):
            p, q = sut.parse_query(x), sut.parse_query(y)
            require(sut.canon(p) != sut.canon(q) and sut.show(p) != sut.show(q), lambda: f"{x!r} and {y!r} became the same: {sut.show(p)!r} and {sut.show(q)!r}")
            return Out(sample=f"{x} is not {y}")
        out.append((x, different))
    for text in REFUSE:
        def refused(text=text):
            try:
                got = sut.parse_query(text)
            except sut.SutError:
                return Out(sample="refused: " + text)
            fail(f"{text!r} must be refused, yet it is accepted as {sut.show(got)!r}")
        out.append((text, refused))
    return out


def number(s):
    k = s.choose(5)
    return [lambda: s.choose(3), lambda: s.choose(1000), lambda: 2 ** s.choose(70), lambda: 10 ** s.choose(30), lambda: s.choose(2 ** 40)][k]()


def tail(g, q, d):
    s = g.s
    kw = {}
    if s.choose(2):
        kw["orderby"] = tuple(g.order_terms(d, 4))
    if s.choose(2):
        kw["offset"] = number(s)
    if s.choose(2):
        kw["limit"] = number(s)
    return q.put(**kw)


def dense(g, d):
    """A query in which most queries group, order or limit."""
    s = g.s
    k = s.weighted([(5, "select"), (1, "table"), (1, "values"), (3, "set")] if d > 0 else [(3, "select"), (1, "table"), (1, "values")])
    if k == "select":
        q = g.select(1, {})
        if d > 0 and s.choose(2):
            q = q.put(from_=dense(g, d - 1) if s.choose(2) else mk("AliasedRelation", dense(g, d - 1), g.name()))
        if s.chance(2, 3):
            q = q.put(groupby=groupby(g, d))
        if d > 0 and s.chance(1, 4):
            q = q.put(where=mk("InQuery", g.expr("num", 1), dense(g, d - 1)))
    elif k == "table":
        q = mk("TableQuery", g.table())
    elif k == "values":
        q = mk("ValuesQuery", [lit(s.choose(100)) for _ in range(1 + s.choose(3))])
    else:
        t = s.pick(["UnionQuery", "IntersectQuery", "ExceptQuery"])
        star = lambda: mk("SelectQuery", [mk("Star")], from_=g.table())
        l, r = dense(g, d - 1), dense(g, d - 1)
        q = mk(t, l, r, "ALL" if t == "UnionQuery" and s.choose(2) else "DISTINCT")
        try:
            T.typeof(q)
        except T.NoType:
            q = q.put(right_query=tail(g, star(), 1))
    return tail(g, q, min(d, 2))


def groupby(g, d):
    s = g.s
    def simple():
        return mk("GroupingSet", [g.expr("any", 1) for _ in range(s.pick([1, 1, 2, 3, 0]))])
    def row():
        return mk("RowConstructor", [g.expr("any", 1) for _ in range(2 + s.choose(2))]) if s.chance(1, 3) else g.expr("any", 1)
    groups = []
    for _ in range(1 + s.choose(4)):
        k = s.choose(5)
        groups.append(simple() if k < 2 else mk("Cube", [row() for _ in range(1 + s.choose(3))]) if k == 2 else mk("Rollup", [row() for _ in range(1 + s.choose(3))]) if k == 3 else mk("GroupingSetList", [simple() for _ in range(1 + s.choose(4))]))
    return mk("GroupBy", groups, s.pick(["ALL", "DISTINCT"]))


def case(src):
    from ..gen import settle
    g = Gen(src, size=src.pick([3, 6, 10]), subqueries=src.chance(1, 3), lambdas=False)
    tree = settle(dense(g, src.pick([0, 1, 2, 2])))
    text = L.parse_leg(tree, "query", src)
    obj, shown = L.print_leg(tree, "query")
    L.pretty_leg(obj, shown, src.pick([0, 1, 2, 4, 8]))
    if src.chance(1, 4):
        L.pretty_parse_leg(tree, "query", obj, 4)
    return Out(sample=text, nontrivial=bool(parts(tree)), labels=parts(tree))
