"""C25: joins keep kind, operands, nesting and criteria; aliases, samples, UNNEST, LATERAL and subqueries stay on their relation."""
import itertools

from ..common import *
from ..spec import lit, mk

PROPERTY = "C25"
RULE = "the FROM clauses of the tree hold something other than a single plain table; distinct by text"
ASSUMPTIONS = [GRAMMAR, TYPED, "joins group from left to right; the right operand of a join with ON or USING reaches up to its own criterion; TABLESAMPLE applies to the aliased relation before it, an alias to the primary before it"]
COUNTS = {"quick": 2500, "thorough": 150000}
F = atoms.F
TAB = lambda n, *a: mk("Table", n, *a)
ON = lambda e: mk("JoinOnCriteria", e)
USING = lambda *n: mk("JoinUsingCriteria", n)
COND = mk("Equal", F("x", "a"), F("y", "b"))
# (words before JOIN, config, words after)
KINDS = [("CROSS JOIN", mk("JoinConfig", "CROSS"), ""), ("JOIN", mk("JoinConfig", "INNER", criteria=ON(COND)), "ON a.x = b.y"), ("LEFT JOIN", mk("JoinConfig", "LEFT", criteria=USING("k")), "USING (k)"),
         ("NATURAL JOIN", mk("JoinConfig", "INNER", natural=True), ""), ("RIGHT OUTER JOIN", mk("JoinConfig", "RIGHT", criteria=ON(mk("Or", F("p"), F("q")))), "ON p OR q"), ("FULL OUTER JOIN", mk("JoinConfig", "OUTER", criteria=USING("k", "K2")), 'USING (k, "K2")'),
         ("NATURAL LEFT OUTER JOIN", mk("JoinConfig", "LEFT", natural=True), ""), ("INNER JOIN", mk("JoinConfig", "INNER", criteria=USING("k")), "USING (k)"), ("LEFT OUTER JOIN", mk("JoinConfig", "LEFT", criteria=ON(F("p"))), "ON p"),
         ("RIGHT JOIN", mk("JoinConfig", "RIGHT", criteria=ON(COND)), "ON (a.x = b.y)"), ("FULL JOIN", mk("JoinConfig", "OUTER", criteria=ON(lit(True))), "ON TRUE"), ("NATURAL RIGHT JOIN", mk("JoinConfig", "RIGHT", natural=True), ""),
         ("NATURAL FULL JOIN", mk("JoinConfig", "OUTER", natural=True), ""), ("NATURAL INNER JOIN", mk("JoinConfig", "INNER", natural=True), ""), ("join", mk("JoinConfig", "INNER", criteria=ON(mk("Not", F("p")))), "on not p"),
         ("NATURAL LEFT JOIN", mk("JoinConfig", "LEFT", natural=True), ""), ("NATURAL RIGHT OUTER JOIN", mk("JoinConfig", "RIGHT", natural=True), ""), ("NATURAL FULL OUTER JOIN", mk("JoinConfig", "OUTER", natural=True), "")]
Q = mk("SelectQuery", [F("a")], from_=TAB("u"))
ARR = mk("Array", [lit(1), lit(2)])
PRIMARY = [("t", TAB("t")), ("s.t", TAB("t", "s")), ("c.s.t", TAB("t", "s", "c")), ('"T t".u', TAB("u", "T t")), ("(SELECT a FROM u)", Q), ("(VALUES 1, 2)", mk("ValuesQuery", [lit(1), lit(2)])), ("(TABLE u)", mk("TableQuery", TAB("u"))),
           ("(SELECT a FROM u UNION SELECT a FROM u)", mk("UnionQuery", Q, Q)), ("(SELECT a FROM u ORDER BY a LIMIT 3)", Q.put(orderby=(mk("OrderTerm", F("a")),), limit=3)), ("(WITH w AS (SELECT a FROM u) SELECT a FROM u)", Q.put(with_=(atoms.named(Q),))),
           ("UNNEST(p)", mk("Unnest", [F("p")], False)), ("UNNEST(p, ARRAY[1, 2])", mk("Unnest", [F("p"), ARR], False)), ("UNNEST (p) WITH ORDINALITY", mk("Unnest", [F("p")], True)), ("unnest(ARRAY[1, 2], p, q) with ordinality", mk("Unnest", [ARR, F("p"), F("q")], True)),
           ("LATERAL (SELECT a FROM u)", mk("Lateral", Q)), ("lateral (VALUES 1, 2)", mk("Lateral", mk("ValuesQuery", [lit(1), lit(2)]))), ("LATERAL (WITH w AS (SELECT a FROM u) SELECT a FROM u)", mk("Lateral", Q.put(with_=(atoms.named(Q),))))]
ALIASES = [("", None), (" x", ("x", None)), (" AS x", ("x", None)), (" AS x (m)", ("x", ("m",))), (' "X y" (m, "n N", k)', ("X y", ("m", "n N", "k"))), (' as "x" ("m")', ("x", ("m",)))]
SAMPLES = [("", None), (" TABLESAMPLE BERNOULLI (10)", ("BERNOULLI", lit(10))), (" TABLESAMPLE SYSTEM (n + 1)", ("SYSTEM", mk("Add", F("n"), lit(1)))), (" tablesample system (?)".replace("?", "0"), ("SYSTEM", lit(0)))]


def aliased(r, x):
    return r if x is None else mk("AliasedRelation", r, *x)


def sampled(r, x):
    return r if x is None else mk("TableSample", r, *x)


def sources():
    """(text, tree) of relations without joins."""
    for (p, r), (x, al), (y, sm) in itertools.product(PRIMARY, ALIASES, SAMPLES):
        yield p + x + y, sampled(aliased(r, al), sm)
    for p, r in PRIMARY[:5] + PRIMARY[10:11] + PRIMARY[12:13] + PRIMARY[14:15]:
        yield f"({p})", r
        yield f"(({p} x)) AS y", aliased(aliased(r, ("x", None)), ("y", None))
        yield f"({p} TABLESAMPLE SYSTEM (1)) y (m)", aliased(sampled(r, ("SYSTEM", lit(1))), ("y", ("m",)))
        yield f"({p} TABLESAMPLE SYSTEM (1)) TABLESAMPLE BERNOULLI (2)", sampled(sampled(r, ("SYSTEM", lit(1))), ("BERNOULLI", lit(2)))
        yield f"(({p} x (m)) y (n) TABLESAMPLE SYSTEM (1)) z", aliased(sampled(aliased(aliased(r, ("x", ("m",))), ("y", ("n",))), ("SYSTEM", lit(1))), ("z", None))


def shapes(n):
    if n == 1:
        yield None
    for i in range(1, n):
        for l, r in itertools.product(shapes(i), shapes(n - i)):
            yield l, r


def joins(shape, kinds, names):
    """Tree of one shape; kinds and names are used up from left to right."""
    if shape is None:
        return names.pop(0)
    l = joins(shape[0], kinds, names)
    k = kinds.pop(0)
    return (l, k, joins(shape[1], kinds, names))


def tree_of(j):
    return j if not isinstance(j, tuple) else mk("Join", tree_of(j[0]), tree_of(j[2]), j[1][1])


def text_of(j, words, mode):
    """mode 0: needed parentheses only; 1: around each right operand which is a join; 2: around every join."""
    if not isinstance(j, tuple):
        return words[j]
    l, (w, c, after), r = j
    left, right = text_of(l, words, mode), text_of(r, words, mode)
    if mode == 2 and isinstance(l, tuple):
        left = f"({left})"
    if isinstance(r, tuple) and (mode or not after):
        right = f"({right})"
    return " ".join(x for x in (left, w, right, after) if x)


def join_cases(tier):
    words = {TAB("a"): "a", aliased(TAB("b"), ("x", None)): "b x", Q: "(SELECT a FROM u)", sampled(TAB("d"), ("SYSTEM", lit(5))): "d TABLESAMPLE SYSTEM (5)", mk("Unnest", [F("p")], False): "UNNEST(p)"}
    leaves = list(words)
    n = 0
    for size in (2, 3, 4):
        kinds = KINDS if size == 2 else KINDS[:6]
        for shape in shapes(size):
            for ks in itertools.product(kinds, repeat=size - 1):
                n += 1
                if tier == "quick" and size == 4 and n % 9:
                    continue
                j = joins(shape, list(ks), [leaves[(n + i) % 5] for i in range(size)])
                for mode in range(3) if size < 4 or tier == "thorough" else [n // 9 % 3]:
                    yield text_of(j, words, mode), tree_of(j)
    for (t, r), m in itertools.product(list(sources())[::3], (0, 1)):
        w, c, after = KINDS[len(t) % 6]
        x, y = ((t, r), ("a", TAB("a")))[:: -1 if m else 1]
        yield " ".join(p for p in (x[0], w, y[0], after) if p), mk("Join", x[1], y[1], c)
    for w, c, after in KINDS[:6]:
        for x, al in ALIASES[1:4]:
            for y, sm in SAMPLES[:3]:
                yield f"(a {w} b {after}){x}{y}", sampled(aliased(mk("Join", TAB("a"), TAB("b"), c), al), sm)
        yield f"(a {w} b {after})", mk("Join", TAB("a"), TAB("b"), c)
        yield f"(a {w} b {after}) TABLESAMPLE SYSTEM (3)", sampled(mk("Join", TAB("a"), TAB("b"), c), ("SYSTEM", lit(3)))


def embed(text, r, k):
    if k == 0:
        return f"SELECT 1 FROM {text}", mk("SelectQuery", [lit(1)], from_=r), "query"
    if k == 1:
        return f"SELECT * FROM {text} WHERE z GROUP BY z", mk("SelectQuery", [mk("Star")], from_=r, where=F("z"), groupby=mk("GroupBy", [mk("GroupingSet", [F("z")])])), "query"
    if k == 2:
        return f"SELECT z FROM (SELECT z FROM {text}) q JOIN r ON z", mk("SelectQuery", [F("z")], from_=mk("Join", aliased(mk("SelectQuery", [F("z")], from_=r), ("q", None)), TAB("r"), mk("JoinConfig", "INNER", criteria=ON(F("z"))))), "query"
    if k == 3:
        return f"z IN (SELECT z FROM {text} LIMIT 1)", mk("InQuery", F("z"), mk("SelectQuery", [F("z")], from_=r, limit=1)), "expr"
    if k == 4:
        return f"WITH w AS (SELECT z FROM {text} ORDER BY z) TABLE w", mk("TableQuery", TAB("w"), with_=[mk("AliasedRelation", mk("SelectQuery", [F("z")], from_=r, orderby=[mk("OrderTerm", F("z"))]), "w")]), "query"
    return f"SELECT z FROM {text} UNION ALL SELECT z FROM {text}", mk("UnionQuery", *[mk("SelectQuery", [F("z")], from_=r)] * 2, "ALL"), "query"


def interesting(tree):
    return any(n.t in ("Join", "AliasedRelation", "TableSample", "Unnest", "Lateral") or n.t == "SelectQuery" and n.from_ is not None and n.from_.t != "Table" for n in S.walk(tree))


def labels_of(tree):
    out = set()
    for n in S.walk(tree):
        if n.t == "Join":
            c = n.config
            out.add(("natural " if c.natural else "") + c.join_type.lower() + (" on" if c.criteria is not None and c.criteria.t == "JoinOnCriteria" else " using" if c.criteria is not None else ""))
            if n.right_relation.t == "Join":
                out.add("join on the right")
        elif n.t in ("AliasedRelation", "TableSample", "Unnest", "Lateral"):
            out.add(n.t + (" of join" if n.t in ("AliasedRelation", "TableSample") and n.relation.t == "Join" else ""))
    return sorted(out)


def exact(text, r, k):
    text, tree, kind = embed(text, r, k)
    got = L.parse(text, kind)
    d = S.diff(tree, got)
    require(d is None, lambda: f"{text!r} is parsed as another tree: {d} (expected vs parsed)")
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown)
    L.pretty_parse_leg(tree, kind, obj, 3)
    return Out(sample=text, nontrivial=interesting(tree), labels=labels_of(tree))


REFUSE = ["a JOIN b", "a LEFT JOIN b", "a CROSS JOIN b ON c", "a CROSS JOIN b USING (c)", "a NATURAL JOIN b ON c", "a NATURAL CROSS JOIN b", "a JOIN b ON", "a JOIN b USING c", "a JOIN b USING ()", "a JOIN b USING (c.d)", "a JOIN b ON c USING (d)", "a JOIN b ON c ON d", "a OUTER JOIN b ON c x y",
          "a FULL b", "a LEFT INNER JOIN b ON c", "a JOIN b JOIN c ON d", "a, b", "a AS", "a x ()", "a x (b c)", "a (b)", "a TABLESAMPLE (10)", "a TABLESAMPLE BERNOULLI", "a TABLESAMPLE BERNOULLI 10", "a TABLESAMPLE BERNOULLI ()", "a TABLESAMPLE BERNOULLI (1, 2)", "a TABLESAMPLE SYSTEM (1) TABLESAMPLE SYSTEM (2)",
          "a TABLESAMPLE SYSTEM (1) AS x", "a TABLESAMPLE POISSON (1)", "UNNEST()", "UNNEST a", "UNNEST(a) WITH", "UNNEST(a) x WITH ORDINALITY", "LATERAL SELECT 1", "LATERAL (a)", "SELECT 1", "a.b.c.d", "()", "(a", "(a) b c", "LATERAL (UNNEST(a))", "TABLE a", "(a, b)", "a x y", "a.*",
          "a MATCH_RECOGNIZE (PATTERN (x) DEFINE x AS b)", "a FOR VERSION AS OF 1", "TABLE(f(a))", "1", "'a'", "a JOIN b ON c = ", "a NATURAL b"]


def enumerated(tier):
    out = []
    full = tier == "thorough"
    i = 0
    for text, r in itertools.chain(sources(), join_cases(tier)):
        i += 1
        for k in range(6) if full else [i % 6]:
            out.append((f"{text} in {k}", lambda text=text, r=r, k=k: exact(text, r, k)))
    for text in REFUSE:
        def refused(text=text):
            try:
                got = sut.parse_query("SELECT z FROM " + text)
            except (sut.SutError):
                return Out(sample="refused: " + text)
            fail(f"SELECT z FROM {text!r} must be refused, yet it is accepted as {sut.show(got)!r}")
        out.append((text, refused))
    return out


def relation(g, d):
    s = g.s
    k = s.weighted([(2, "plain"), (5, "join"), (3, "alias"), (2, "sample"), (2, "other")]) if d > 0 else s.weighted([(4, "plain"), (1, "other")])
    if k == "plain":
        return g.table()
    if k == "join":
        return mk("Join", relation(g, d - 1), relation(g, d - 1), join_config(g))
    if k == "alias":
        kw = {"column_aliases": g.names(1, 3)} if s.choose(2) else {}
        return mk("AliasedRelation", relation(g, d - 1), g.name(), **kw)
    if k == "sample":
        return mk("TableSample", relation(g, d - 1), s.pick(["BERNOULLI", "SYSTEM"]), g.expr("num", 1))
    k = s.choose(4)
    if k == 0:
        return mk("Unnest", [g.expr("arr", 1) for _ in range(1 + s.choose(3))], bool(s.choose(2)))
    sub = g.select(0, {"limit": 4} if s.choose(3) == 0 else {})
    if d > 0:
        sub = sub.put(from_=relation(g, d - 1))
    return mk("Lateral", sub) if k == 1 else sub if k == 2 else s.pick([mk("TableQuery", g.table()), mk("ValuesQuery", [lit(s.choose(9))])])


def join_config(g):
    s = g.s
    k = s.choose(5)
    if k == 0:
        return mk("JoinConfig", "CROSS")
    jt = s.pick(["INNER", "LEFT", "RIGHT", "OUTER"])
    if k == 1:
        return mk("JoinConfig", jt, natural=True)
    if k < 4:
        return mk("JoinConfig", jt, criteria=ON(g.expr("bool", 1 + s.choose(2))))
    return mk("JoinConfig", jt, criteria=USING(*g.names(1, 3)))


def case(src):
    from ..gen import settle
    g = Gen(src, size=src.pick([3, 6, 10]), subqueries=src.chance(1, 3), lambdas=False)
    r = relation(g, src.pick([1, 2, 3, 4]))
    tree = settle(mk("SelectQuery", [g.select_item(1)], from_=r))
    if src.chance(1, 4):
        tree = mk("SelectQuery", [lit(1)], from_=mk("Table", "t"), where=mk("InQuery", F("a"), tree))
    text = L.parse_leg(tree, "query", src)
    obj, shown = L.print_leg(tree, "query")
    L.pretty_leg(obj, shown, src.pick([0, 1, 2, 4, 8]))
    if src.chance(1, 4):
        L.pretty_parse_leg(tree, "query", obj, 4)
    return Out(sample=text, nontrivial=interesting(tree), labels=labels_of(tree))
