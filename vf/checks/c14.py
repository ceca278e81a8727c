"""C14: DISTINCT, ORDER BY, FILTER, null treatment, OVER and the LISTAGG options stay on their call, in any combination."""
import itertools

from ..common import *
from ..spec import lit, mk

PROPERTY = "C14"
RULE = "some aggregate call of the tree has a modifier; distinct by text"
ASSUMPTIONS = [GRAMMAR, TYPED, "IGNORE NULLS stands only before OVER, as the grammar demands; RESPECT NULLS is the default and need not be printed"]
COUNTS = {"quick": 1800, "thorough": 150000}
F = atoms.F
OT = lambda n, *a: mk("OrderTerm", F(n), *a)
WINDOWS = [None, mk("Window", "w"), mk("Window"), mk("Window", partitions=[F("p")]), mk("Window", "w", orderby=[OT("o", "DESC", "FIRST")], frame_type="ROWS",
           start_bound=mk("BoundedFrameBound", "PRECEDING", lit(2)), end_bound=mk("BoundedFrameBound", "FOLLOWING", lit(1)))]
ORDERS = [None, [OT("o")], [OT("o", "DESC"), OT("q", "ASC", "FIRST")]]
FILTERS = [None, atoms.COND, mk("Or", atoms.COND, mk("IsNull", F("b"))), F("f")]


def modifiers(full):
    for d, o, f, w, n in itertools.product((False, True), ORDERS if full else ORDERS[:2], FILTERS[:3] if full else FILTERS[:2], WINDOWS if full else WINDOWS[:3:2], ("RESPECT", "IGNORE")):
        if n == "IGNORE" and w is None:
            continue
        yield dict(distinct=d, orderby=o, filter_=f, window=w, null_treatment=n)


def listaggs():
    for sep, d, o, over in itertools.product(("", ",", "it's", "\n"), (False, True), ORDERS[1:],
                                             (None, mk("OverflowFiller", "WITH_COUNT"), mk("OverflowFiller", "WITHOUT_COUNT"), mk("OverflowFiller", "WITH_COUNT", ""), mk("OverflowFiller", "WITHOUT_COUNT", "it's"))):
        yield mk("ListAgg", F("a"), sep, over, orderby=o, distinct=d)


def host(n, k):
    """Places in which a call may stand, next to plain calls that must stay plain."""
    plain = mk("Sum", F("z"))
    if k == 0:
        return n, "expr"
    if k == 1:
        return mk("Add", mk("Negative", n), plain), "expr"
    if k == 2:
        return mk("SelectQuery", [plain, mk("AliasedValue", n, "x"), mk("Max", F("z"))], from_=mk("Table", "t"), having=mk("GreaterThan", n, lit(1)), orderby=[mk("OrderTerm", n, "DESC")]), "query"
    if k == 3:
        return mk("Max", n, filter_=F("g"), window=mk("Window", partitions=[plain])), "expr"
    if k == 4:
        return mk("SelectQuery", [mk("Coalesce", [n, n])], from_=mk("Table", "t"), window=(("w", mk("Window", partitions=[n])),)), "query"
    return mk("Case", [mk("When", mk("Equal", n, lit(1)), lit(1))], mk("Else", lit(2))), "expr"


def legs(tree, kind, src=None, pretty=True):
    text = L.parse_leg(tree, kind, src)
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown)
    if pretty:
        L.pretty_parse_leg(tree, kind, obj, 4)
    return text


def modified(tree):
    for n in S.walk(tree):
        if n.t in S.AGGREGATE_CLASSES and (n.distinct or n.orderby or n.filter_ or n.window or n.null_treatment != "RESPECT"):
            return True
    return False


def census14(tree):
    out = set()
    for n in S.walk(tree):
        if n.t in S.AGGREGATE_CLASSES:
            out |= {m for m in ("distinct", "orderby", "filter_", "window") if n.d[m]}
            if n.null_treatment == "IGNORE":
                out.add("ignore nulls")
            if n.t == "ListAgg":
                out.add("listagg")
    return sorted(out)


REFUSE = ["SUM(a) IGNORE NULLS", "SUM(a) RESPECT NULLS", "SUM(a) OVER () FILTER (WHERE b)", "SUM(a) OVER () IGNORE NULLS", "SUM(a) FILTER (b)", "SUM(a) FILTER (WHERE)", "SUM(DISTINCT)", "SUM(ORDER BY a)",
          "SUM(a ORDER BY)", "SUM(DISTINCT ALL a)", "SUM(a DISTINCT)", "SUM(a) OVER", "SUM(a) OVER (w) w", "SUM(a) WITHIN GROUP (ORDER BY b)", "SUM(a) OVER () OVER ()", "SUM(a) FILTER (WHERE b) FILTER (WHERE c)",
          "COUNT(DISTINCT *)", "COUNT(* ORDER BY a)", "COUNT(*) IGNORE NULLS OVER ()", "LISTAGG(a, ',')", "LISTAGG(a) WITHIN GROUP ()", "LISTAGG(a) WITHIN GROUP (ORDER BY b) OVER ()",
          "LISTAGG(a) WITHIN GROUP (ORDER BY b) FILTER (WHERE c)", "LISTAGG(a) FILTER (WHERE c) WITHIN GROUP (ORDER BY b)", "LISTAGG(a ORDER BY b) WITHIN GROUP (ORDER BY b)", "LISTAGG(a, b) WITHIN GROUP (ORDER BY c)",
          "LISTAGG(a ON OVERFLOW) WITHIN GROUP (ORDER BY b)", "LISTAGG(a ON OVERFLOW TRUNCATE) WITHIN GROUP (ORDER BY b)", "LISTAGG(a ON OVERFLOW TRUNCATE 'x') WITHIN GROUP (ORDER BY b)",
          "LISTAGG(a ON OVERFLOW ERROR WITH COUNT) WITHIN GROUP (ORDER BY b)", "LISTAGG(a ON OVERFLOW TRUNCATE WITH) WITHIN GROUP (ORDER BY b)", "LISTAGG(a) IGNORE NULLS WITHIN GROUP (ORDER BY b)",
          "LISTAGG(a) WITHIN GROUP (ORDER BY b) WITHIN GROUP (ORDER BY c)", "LOWER(DISTINCT a)", "LOWER(a ORDER BY a)", "LOWER(a) FILTER (WHERE b)", "LOWER(a) OVER ()", "LOWER(a) IGNORE NULLS OVER ()", "COALESCE(DISTINCT a, b)",
          "IF(DISTINCT a, b)", "CONCAT(DISTINCT a, b)", "NOW(ORDER BY a)", "NULLIF(a, b ORDER BY a)"]
SAME = [("SUM(ALL a)", "SUM(a)"), ("SUM(a) RESPECT NULLS OVER ()", "SUM(a) OVER ()"), ("SUM(a ORDER BY b ASC NULLS LAST)", "SUM(a ORDER BY b)"), ("sum(distinct a)", "SUM(DISTINCT a)"),
        ("LISTAGG(ALL a, ',' ON OVERFLOW ERROR) WITHIN GROUP (ORDER BY b)", "LISTAGG(a, ',') WITHIN GROUP (ORDER BY b)"), ("LISTAGG(a, '') WITHIN GROUP (ORDER BY b)", "LISTAGG(a) WITHIN GROUP (ORDER BY b)"),
        ("LISTAGG(a ON OVERFLOW TRUNCATE WITH COUNT) WITHIN GROUP (ORDER BY b)", "LISTAGG(a ON OVERFLOW TRUNCATE '...' WITH COUNT) WITHIN GROUP (ORDER BY b)"),
        ("SUM(a) OVER (w)", "SUM(a) OVER w"), ("COUNT(*) FILTER (WHERE b) OVER w", "COUNT ( * ) filter (where b) over (w)")]


def refused(text):
    try:
        got = sut.parse_expr(text)
    except sut.SutError:
        return Out(sample="refused: " + text, labels=["refused"])
    fail(f"{text!r} must be refused, yet it is accepted as {sut.show(got)!r}")


def listagg_texts():
    """Texts the tree description leaves no freedom in."""
    for sep, sv in (("", ""), (", ','", ","), (", U&'\\0041'", "A")):
        for over, filler in (("", None), (" ON OVERFLOW ERROR", None), (" ON OVERFLOW TRUNCATE WITH COUNT", ("WITH_COUNT", "...")), (" ON OVERFLOW TRUNCATE WITHOUT COUNT", ("WITHOUT_COUNT", "...")),
                             (" ON OVERFLOW TRUNCATE '~' WITH COUNT", ("WITH_COUNT", "~")), (" ON OVERFLOW TRUNCATE '' WITHOUT COUNT", ("WITHOUT_COUNT", ""))):
            for q in ("", "DISTINCT ", "ALL "):
                text = f"LISTAGG({q}a{sep}{over}) WITHIN GROUP (ORDER BY o DESC, p NULLS FIRST)"
                yield text, mk("ListAgg", F("a"), sv, filler and mk("OverflowFiller", *filler), orderby=[OT("o", "DESC"), OT("p", "ASC", "FIRST")], distinct=q == "DISTINCT ")


def enumerated(tier):
    out = []
    def add(label, n, ks):
        for k in ks:
            tree, kind = host(n, k)
            if k and n.t in ("ListAgg",) and k in (1,):
                pass
            out.append((f"{label} in host {k}", lambda tree=tree, kind=kind: Out(sample=legs(tree, kind), nontrivial=modified(tree), labels=census14(tree))))
    for name in sorted(S.AGGREGATES):
        cls, _, roles = S.FUNCS[name]
        full = name in ("SUM", "COUNT", "MAX_BY", "ARRAY_AGG")
        for r in roles:
            args = {x: F("abcd"[i]) for i, x in enumerate(r)}
            for i, m in enumerate(modifiers(full)):
                add(f"{name}/{len(r)} {i}", mk(cls, **args, **m), [0, 1 + i % 5] if full and tier == "quick" else range(6) if full else [i % 6])
    for i, m in enumerate(modifiers(True)):
        if not m["distinct"] and m["orderby"] is None and m["null_treatment"] == "RESPECT":
            for star in (mk("Star"), mk("Star", "t")):
                add(f"COUNT(*) {i}", mk("Count", star, **m), range(6))
    for i, n in enumerate(listaggs()):
        add(f"listagg {i}", n, [0, 2, 3, 4, 5] if tier == "thorough" else [0, (2, 3, 4, 5)[i % 4]])
    for text in REFUSE:
        out.append((text, lambda text=text: refused(text)))
    for a, b in SAME:
        def same(a=a, b=b):
            x, y = sut.canon(sut.parse_expr(a)), sut.canon(sut.parse_expr(b))
            require(x == y, lambda: f"{a!r} and {b!r} mean different calls: {S.diff(x, y)}")
            return Out(sample=a)
        out.append((a, same))
    for text, want in listagg_texts():
        def exact(text=text, want=want):
            got = sut.canon(sut.parse_expr(text))
            require(got == want, lambda: f"{text!r} is parsed as another call: {S.diff(want, got)} (expected vs parsed)")
            return Out(sample=text)
        out.append((text, exact))
    return out


def aggregate(g, d, left):
    """A call with many modifiers, whose parts may hold calls themselves."""
    s = g.s
    def sub(kind="any"):
        if left > 0 and s.chance(1, 5):
            return aggregate(g, d - 1, left - 1)
        return g.expr(kind, d - 2)
    if s.chance(1, 5):
        kw = {"value": sub("str"), "orderby": [mk("OrderTerm", sub(), s.pick(["ASC", "DESC"]), s.pick(["LAST", "FIRST"])) for _ in range(1 + s.choose(2))], "distinct": bool(s.choose(2)), "separator": g.string() if s.choose(3) else ""}
        if s.choose(2):
            kw["overflow_filler"] = mk("OverflowFiller", s.pick(["WITH_COUNT", "WITHOUT_COUNT"]), "..." if s.choose(2) else g.string())
        return mk("ListAgg", **kw)
    name = s.pick(sorted(S.AGGREGATES))
    cls, _, roles = S.FUNCS[name]
    kw = {r: sub() for r in s.pick(roles)}
    star = name == "COUNT" and s.choose(2)
    if star:
        kw = {"value": mk("Star", g.name() if s.choose(2) else None)}
    if not star and s.choose(2):
        kw["distinct"] = True
    if not star and s.choose(2):
        kw["orderby"] = [mk("OrderTerm", sub(), s.pick(["ASC", "DESC"]), s.pick(["LAST", "FIRST"])) for _ in range(g.count(1, 2))]
    if s.choose(2):
        kw["filter_"] = sub("bool")
    if s.choose(2):
        w = g.window(d - 1)
        if left > 0 and s.chance(1, 4):
            w = w.put(partitions=(aggregate(g, d - 1, left - 1),)) if w.parent_window is None else w
        kw["window"] = w
        if not star and s.choose(2):
            kw["null_treatment"] = "IGNORE"
    return mk(cls, **kw)


def case(src):
    from ..gen import settle
    g = Gen(src, size=src.pick([3, 5, 10]), subqueries=bool(src.choose(2)))
    n = aggregate(g, 4, 2)
    tree, kind = host(n, src.choose(6))
    if kind == "query" and src.choose(2):
        tree = tree.put(select=tree.select + (aggregate(g, 3, 1), g.expr("any", 2)))
    tree = settle(tree)
    text = legs(tree, kind, src, pretty=src.chance(1, 4))
    return Out(sample=text, nontrivial=modified(tree), labels=census14(tree))
