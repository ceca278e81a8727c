"""C15: every part of a window specification survives, inline and in the WINDOW clause; the default frame is the standard one."""
import itertools

from ..common import *
from ..spec import UB_PRECEDING, CURRENT, lit, mk

PROPERTY = "C15"
RULE = "some window of the tree has a parent, a partition, an order or a frame other than the default; distinct by text"
ASSUMPTIONS = [GRAMMAR, TYPED, "the standard default frame is RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW; spelling it out is the same as leaving it out",
               "OVER w and OVER (w) both mean a reference to the window w"]
COUNTS = {"quick": 1200, "thorough": 80000}
F = atoms.F
OT = lambda n, *a: mk("OrderTerm", F(n), *a)

BOUNDS = [("UNBOUNDED PRECEDING", UB_PRECEDING), ("UNBOUNDED FOLLOWING", mk("UnboundedFrameBound", "FOLLOWING")), ("CURRENT ROW", CURRENT), ("2 PRECEDING", mk("BoundedFrameBound", "PRECEDING", lit(2))),
          ("0 FOLLOWING", mk("BoundedFrameBound", "FOLLOWING", lit(0))), ("k + 1 FOLLOWING", mk("BoundedFrameBound", "FOLLOWING", mk("Add", F("k"), lit(1)))),
          ("INTERVAL '1' DAY PRECEDING", mk("BoundedFrameBound", "PRECEDING", mk("Interval", "1", "DAY"))), ("LENGTH(k) PRECEDING", mk("BoundedFrameBound", "PRECEDING", mk("Length", F("k"))))]
PARENTS = [("", None), ("w", "w"), ('"a b"', "a b")]
PARTS = [("", None), ("PARTITION BY p", [F("p")]), ("PARTITION BY p, q + 1", [F("p"), mk("Add", F("q"), lit(1))])]
ORDERS = [("", None), ("ORDER BY o", [OT("o")]), ("ORDER BY o DESC NULLS FIRST, r", [OT("o", "DESC", "FIRST"), OT("r")])]


def frames():
    yield "", {}
    for unit in ("RANGE", "ROWS", "GROUPS"):
        for t, b in BOUNDS:
            yield f"{unit} {t}", dict(frame_type=unit, start_bound=b)
            for u, c in BOUNDS:
                yield f"{unit} BETWEEN {t} AND {u}", dict(frame_type=unit, start_bound=b, end_bound=c)


def texts(tier):
    fs = list(frames())
    n = 0
    for (a, pa), (b, pb), (c, pc) in itertools.product(PARENTS, PARTS, ORDERS):
        for i, (f, kw) in enumerate(fs):
            n += 1
            if tier == "quick" and (a or b or c) and (n * 7) % 5 > 1 and i:
                continue
            yield " ".join(x for x in (a, b, c, f) if x), mk("Window", parent_window=pa, partitions=pb, orderby=pc, **kw)


def interesting(tree):
    return any(n.t == "Window" and n != mk("Window") for n in S.walk(tree))


def labels_of(tree):
    out = set()
    for n in S.walk(tree):
        if n.t == "Window":
            if n.parent_window is not None:
                out.add("reference" if n == mk("Window", n.parent_window) else "parent with more")
            out |= {x for x in ("partitions", "orderby") if n.d[x]}
            out.add(n.frame_type.lower())
            out |= {b.t for b in (n.start_bound, n.end_bound)}
    return sorted(out)


def place(w, k):
    if k == 0:
        return mk("Sum", F("a"), window=w), "expr"
    if k == 1:
        return mk("SelectQuery", [mk("Sum", F("a"), window=mk("Window", "v"))], from_=mk("Table", "t"), window=(("v", w),)), "query"
    if k == 2:
        return mk("SelectQuery", [mk("Count", mk("Star"), window=w), mk("Sum", F("a"))], from_=mk("Table", "t"), window=(("z", mk("Window", partitions=[F("zz")])), ("v", w), ("a", mk("Window", "v")))), "query"
    return mk("Max", F("a"), filter_=F("f"), null_treatment="IGNORE", window=w), "expr"


TEMPLATES = ["SUM(a) OVER (%s)", "SELECT SUM(a) OVER v FROM t WINDOW v AS (%s)", "SELECT COUNT(*) OVER (%s), SUM(a) FROM t WINDOW z AS (PARTITION BY zz), v AS (%s), a AS (v)", "MAX(a) FILTER (WHERE f) IGNORE NULLS OVER (%s)"]


def exact(text, w, k):
    tree, kind = place(w, k)
    sql = TEMPLATES[k].replace("%s", text)
    got = L.parse(sql, kind)
    d = S.diff(tree, got)
    require(d is None, lambda: f"{sql!r} is parsed as another window: {d} (expected vs parsed)")
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown)
    return Out(sample=sql, nontrivial=interesting(tree), labels=labels_of(tree))


SAME = [("SUM(a) OVER w", "SUM(a) OVER (w)"), ("SUM(a) OVER ()", "SUM(a) OVER (RANGE UNBOUNDED PRECEDING)"), ("SUM(a) OVER ()", "SUM(a) OVER (RANGE BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW)"),
        ("SUM(a) OVER (ROWS 2 PRECEDING)", "SUM(a) OVER (ROWS BETWEEN 2 PRECEDING AND CURRENT ROW)"), ("SUM(a) over (partition by b rows current row)", "SUM(a) OVER (PARTITION BY b ROWS BETWEEN CURRENT ROW AND CURRENT ROW)"),
        ("SUM(a) OVER (ORDER BY b)", "SUM(a) OVER (ORDER BY b ASC NULLS LAST RANGE UNBOUNDED PRECEDING)"), ('SUM(a) OVER "w"', "SUM(a) OVER w")]
DIFFERENT = [("SUM(a) OVER w", "SUM(a) OVER W2"), ("SUM(a) OVER w", "SUM(a) OVER ()"), ("SUM(a) OVER w", "SUM(a) OVER (w ROWS UNBOUNDED PRECEDING)"), ("SUM(a) OVER (ROWS UNBOUNDED PRECEDING)", "SUM(a) OVER ()"),
             ("SUM(a) OVER (GROUPS UNBOUNDED PRECEDING)", "SUM(a) OVER (ROWS UNBOUNDED PRECEDING)"), ("SUM(a) OVER (ORDER BY a, b)", "SUM(a) OVER (ORDER BY b, a)"),
             ("SUM(a) OVER (PARTITION BY a, b)", "SUM(a) OVER (PARTITION BY b, a)"), ("SUM(a) OVER (PARTITION BY a)", "SUM(a) OVER (ORDER BY a)"), ("SUM(a)", "SUM(a) OVER ()")]
REFUSE = ["SUM(a) OVER (ROWS 2)", "SUM(a) OVER (ROWS BETWEEN 2 PRECEDING)", "SUM(a) OVER (BETWEEN 2 PRECEDING AND CURRENT ROW)", "SUM(a) OVER (ROWS BETWEEN 2 PRECEDING AND)", "SUM(a) OVER (ORDER BY b PARTITION BY a)",
          "SUM(a) OVER (ROWS CURRENT ROW ORDER BY b)", "SUM(a) OVER (ROWS CURRENT)", "SUM(a) OVER (ROWS UNBOUNDED)", "SUM(a) OVER (w w)", "SUM(a) OVER (PARTITION BY)", "SUM(a) OVER (PARTITION a)",
          "SUM(a) OVER (ROWS 2 PRECEDING GROUPS 3 PRECEDING)", "SUM(a) OVER (ROWS BETWEEN 1 PRECEDING AND 1 FOLLOWING EXCLUDE TIES)", "SUM(a) OVER (ROWS CURRENT ROW INITIAL)", "SUM(a) OVER (ROWS CURRENT ROW PATTERN (x) DEFINE x AS a)"]


def enumerated(tier):
    out = []
    for i, (text, w) in enumerate(texts(tier)):
        for k in (0, 1, 2, 3) if tier == "thorough" else ([0, 1] if i % 4 == 0 else [i % 4]):
            out.append((f"{text} in {k}", lambda text=text, w=w, k=k: exact(text, w, k)))
    for a, b in SAME:
        def same(a=a, b=b):
            x, y = sut.canon(sut.parse_expr(a)), sut.canon(sut.parse_expr(b))
            require(x == y, lambda: f"{a!r} and {b!r} mean different windows: {S.diff(x, y)}")
            return Out(sample=f"{a} is {b}")
        out.append((a, same))
    for a, b in DIFFERENT:
        def different(a=a, b=b):
            x, y = sut.parse_expr(a), sut.parse_expr(b)
            require(sut.canon(x) != sut.canon(y) and sut.show(x) != sut.show(y), lambda: f"{a!r} and {b!r} became the same: {sut.show(x)!r}, {sut.show(y)!r}")
            return Out(sample=f"{a} is not {b}")
        out.append((a, different))
    for text in REFUSE:
        def refused(text=text):
            try:
                got = sut.parse_expr(text)
            except sut.SutError:
                return Out(sample="refused: " + text)
            fail(f"{text!r} must be refused, yet it is accepted as {sut.show(got)!r}")
        out.append((text, refused))
    return out


def window(g, d):
    s = g.s
    kw = {}
    if s.choose(2):
        kw["parent_window"] = g.name()
        if s.chance(1, 4):
            return mk("Window", **kw)
    if s.choose(2):
        kw["partitions"] = [g.expr("any", d) for _ in range(g.count(1, 3))]
    if s.choose(2):
        kw["orderby"] = g.order_terms(d, 3)
    if s.chance(2, 3):
        kw["frame_type"] = s.pick(["RANGE", "ROWS", "GROUPS"])
        kw["start_bound"] = bound(g, d)
        if s.chance(2, 3):
            kw["end_bound"] = bound(g, d)
    return mk("Window", **kw)


def bound(g, d):
    return g.bound(d) if g.s.choose(2) else g.s.pick(BOUNDS)[1]


def case(src):
    from ..gen import settle
    g = Gen(src, size=src.pick([4, 8, 12]), subqueries=src.chance(1, 4))
    n = 1 + src.choose(3)
    k = src.choose(4)
    if k == 0:
        tree, kind = mk(src.pick(["Sum", "ArrayAgg", "Count"]), g.expr("any", 2), window=window(g, 2)), "expr"
    elif k == 1:
        tree, kind = mk("Add", mk("Sum", F("a"), window=window(g, 2)), mk("Max", mk("Sum", g.expr("num", 1), window=window(g, 1)), window=window(g, 2))), "expr"
    else:
        names = list(dict.fromkeys(g.name() for _ in range(n)))
        select = [mk("Sum", F(c), window=window(g, 2) if src.choose(2) else mk("Window", src.pick(names))) for c in "ab"[:1 + src.choose(2)]]
        q = mk("SelectQuery", select, from_=mk("Table", "t"), window=tuple((x, window(g, 2)) for x in names), orderby=[mk("OrderTerm", select[0])] if src.choose(2) else None)
        tree, kind = (q, "query") if k == 2 else (mk("SelectQuery", [mk("AliasedValue", mk("Sum", F("x"), window=mk("Window", names[0])), "y")], from_=mk("AliasedRelation", q, "q"), window=((names[0], window(g, 1)),)), "query")
    tree = settle(tree)
    text = L.parse_leg(tree, kind, src)
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown)
    return Out(sample=text, nontrivial=interesting(tree), labels=labels_of(tree))
