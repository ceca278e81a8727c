"""C27: what can be built has a spelling; what has none is refused."""
from decimal import Decimal

from ..common import *
from ..spec import lit, mk, dt, N
from .. import mutate as M

PROPERTY = "C27"
RULE = "the combination of arguments is outside of what the grammar can spell, or differs from a plain tree in two or more arguments; distinct by tree"
ASSUMPTIONS = ["arguments have the Python types that the annotations ask for", GRAMMAR]
COUNTS = {"quick": 9000, "thorough": 200000}
REFUSALS = (AssertionError, ValueError, TypeError, NotImplementedError, ArithmeticError)


def judge(tree, kind):
    try:
        o = sut._build(tree)
    except REFUSALS as e:
        return f"refused by the constructor ({type(e).__name__})"
    try:
        text = sut.show(o)
    except sut.SutError as e:
        require(isinstance(e.exc, REFUSALS), lambda: f"printing {S.short(tree, 800)}: {e}")
        return f"refused by the printer ({type(e.exc).__name__})"
    kind = L.real_kind(tree, kind)
    try:
        back = sut.PARSERS[kind](text)
    except sut.SutError as e:
        fail(f"{S.short(tree, 800)} can be built, but prints {text!r}, which does not parse: {e}")
    d = S.diff(sut.canon(o), L.canon_of(back, kind))
    require(d is None, lambda: f"{S.short(tree, 800)} can be built and prints {text!r}, which means something else: {d}")
    return "accepted"


def one(label, tree, kind, fine=None):
    verdict = judge(tree, kind)
    if fine is None:
        fine = spellable(tree) and all(atoms.valid(n) for n in S.walk(tree) if n.t not in ("Literal", "DataType")) and atoms.typed(tree)
    require(verdict == "accepted" or not fine, lambda: f"{S.short(tree, 800)} has a spelling, but is {verdict}")
    return Out(sample=f"{verdict}: {S.short(tree, 300)}", key=repr(tree), nontrivial=verdict != "accepted" or label.count("+") > 0, labels=[verdict])


NEEDED = {("AliasedStar", "aliases"), ("GroupBy", "groups"), ("InList", "exprs"), ("Unnest", "arrays"), ("ValuesQuery", "exprs"), ("RowConstructor", "values"), ("JoinUsingCriteria", "column_names"), ("SelectQuery", "select"),
          ("Array", "values"), ("Case", "branches"), ("GroupingSetList", "groups"), ("Cube", "values"), ("Rollup", "values")}


def spellable(tree):
    """What atoms.valid leaves out: lists that must not be empty, names, units and numbers out of range."""
    for n in S.walk(tree):
        for f in [f for t, f in NEEDED if t == n.t]:
            if not n.d[f]:
                return False
        if n.t == "Interval" and (n.from_interval not in UNITS or n.to_interval not in UNITS + (None,)):
            return False
        if n.t == "TypeConstructor" and (n.type_name not in ("VARCHAR", "CHAR", "DATE", "JSON")):
            return False
        if n.t in ("Field", "Star") and isinstance(n.table, N) and n.table.t == "Field":
            return False
        if any(isinstance(n.d.get(f), int) and n.d[f] < 0 for f in ("limit", "offset")):
            return False
        if n.t in S.CLASS_TO_FUNC and isinstance(n.d.get("precision"), int) and not 0 <= n.precision <= 12:
            return False
        if any(v == "" for v in n.d.values()):       # whether a name may be empty is left open
            return False
        if n.t == "Concatenate" and len(n.values) < 2 or n.t == "Count" and n.value.t == "Star" and (n.orderby or n.null_treatment != "RESPECT"):
            return False
        if n.t == "AliasedValue" and n.value.t == "Star":
            return False
    return True


UNITS = ("YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND")


def odd(t, f, kind):
    """Values of a field that no text spells, together with some that texts do spell."""
    if kind in ("nodes", "nodes?"):
        return [()] + ([None] if kind == "nodes?" else [])
    if kind in ("strs", "strs?"):
        return [()] + ([None] if kind == "strs?" else [])
    if kind == "str":
        return ["", "x y", "WEEK", "DAY", "a.b", "1"]
    if kind == "str?":
        return [None, "", "x y", "WEEK", "DAY"]
    if kind in ("int", "int?"):
        return [-1, 0, 10 ** 30] + ([None] if kind == "int?" else [])
    if kind == "bool":
        return [True, False]
    if kind.startswith("enum"):
        return S.ENUMS[kind.split(":")[1]][1]
    if kind in ("node?",):
        return [None]
    if kind == "tbl":
        return [mk("Field", "x"), mk("Field", "x", "t"), "", None]
    if kind == "wins":
        return [()]
    return []


def choices(t):
    b = atoms.start(t)
    out = {}
    for f, kind in S.FIELDS[t]:
        vs = [v for v in odd(t, f, kind)] + [n.d[f] for n in atoms.variations(t)]
        vs = list(dict.fromkeys(v for v in vs if v != b.d[f]))
        if kind in ("node", "node?"):
            vs = vs[:4]
        out[f] = vs
    return b, out


def enumerated(tier):
    out, seen = [], set()
    def add(label, n):
        if n in seen:
            return
        seen.add(n)
        try:
            tree, kind = atoms.host(n)
        except Exception:
            return
        out.append((label, lambda: one(label, tree, kind)))
    for label, fn in explicit():
        out.append((label, lambda label=label, fn=fn: refused(label, fn)))
    for t in sorted(S.FIELDS):
        b, vs = choices(t)
        for f in vs:
            for v in vs[f]:
                add(f"{t}.{f}", b.put(**{f: v}))
        fs = list(vs)
        for i, f in enumerate(fs):
            for g in fs[i + 1:]:
                for x in vs[f][:8]:
                    for y in vs[g][:8]:
                        add(f"{t}.{f}+{g}", b.put(**{f: x, g: y}))
    return out


def explicit():
    """Further arguments that have no spelling: (label, function that must not give a tree that prints)."""
    import datetime
    c, E = sut.cls, sut.mod("treeno.expression")
    a, b, star = (lambda: E.Field("a")), (lambda: E.Field("b")), (lambda: E.Star())
    t, u = (lambda: c("Table")("t")), (lambda: c("Table")("u"))
    for v in (None, [], [1], (), (1, 2), {}, {"a": 1}, set(), frozenset([1]), b"x", object(), float("nan"), float("inf"), -float("inf"), Decimal("NaN"), Decimal("Infinity"), 2 ** 63, -2 ** 63 - 1, 10 ** 40, 1j,
              datetime.date(2020, 1, 1), datetime.datetime(2020, 1, 1), datetime.timedelta(1), int, len):
        yield f"literal {v!r}"[:40], lambda v=v: E.wrap_literal(v)
        yield f"a + {v!r}"[:40], lambda v=v: a() + v
        yield f"a = {v!r}"[:40], lambda v=v: a() == v
        yield f"a IN {v!r}"[:40], lambda v=v: c("InList")(a(), [1, v])
        yield f"sum {v!r}"[:40], lambda v=v: c("Sum")(v)
    for v in (1, "x", True, 1.5):
        yield f"untyped literal {v!r}", lambda v=v: E.Literal(v)
    yield "cast without a type", lambda: c("Cast")(a())
    yield "try_cast without a type", lambda: c("TryCast")(a())
    for name, st in (("*", star), ("t.*", lambda: E.Star("t")), ("row.*", lambda: E.Star(E.Subscript(a(), b())))):
        yield f"{name} with an alias", lambda st=st: c("AliasedValue")(st(), "x")
        yield f"{name} with an alias, selected", lambda st=st: c("SelectQuery")([a(), c("AliasedValue")(st(), "x")])
    yield "field of a field", lambda: E.Field("a", E.Field("t"))
    for name, x in (("field", lambda: E.Field("t")), ("qualified field", lambda: E.Field("t", "s")), ("field of a row", lambda: E.Field("t", E.Subscript(a(), b())))):
        yield f"star of a {name}", lambda x=x: c("SelectQuery")([E.Star(x())])
        yield f"aliased star of a {name}", lambda x=x: c("SelectQuery")([c("AliasedStar")(["p"], E.Star(x()))])
    for k in (2, 3, 4, 5):
        for i in range(k):
            for j in range(i):
                names = ["x" if m in (i, j) else "abcde"[m] for m in range(k)]
                yield f"inputs of the same name {names}", lambda names=names: c("Lambda")([c("Variable")(x) for x in names], E.Field("y"))
    for kw in (dict(hours=1), dict(minutes=1), dict(zone="UTC", hours=1), dict(zone="UTC", minutes=1), dict(zone="UTC", hours=1, minutes=1)):
        yield f"from_unixtime {kw}", lambda kw=kw: c("FromUnixtime")(a(), **{k: E.wrap_literal(v) for k, v in kw.items()})
    w = lambda: c("Window")()
    o = lambda: [c("OrderTerm")(a())]
    N_ = sut.enum("NullTreatment", "IGNORE")
    for name, kw in (("window", dict(window=w)), ("filter", dict(filter_=lambda: a() > 1)), ("nulls", dict(null_treatment=lambda: N_)), ("nulls and window", dict(null_treatment=lambda: N_, window=w))):
        yield f"listagg with {name}", lambda kw=kw: c("ListAgg")(a(), orderby=o(), **{k: v() for k, v in kw.items()})
    yield "listagg without order", lambda: c("ListAgg")(a())
    for name, st in (("*", star), ("t.*", lambda: E.Star("t")), ("row.*", lambda: E.Star(E.Subscript(a(), b())))):
        for d in (False, True):
            yield f"count({name}) ordered", lambda st=st, d=d: c("Count")(st(), distinct=d, orderby=o())
            yield f"count({name}) ordered, filtered", lambda st=st, d=d: c("Count")(st(), distinct=d, orderby=o(), filter_=a() > 1, window=w())
            yield f"count({name}) with nulls", lambda st=st, d=d: c("Count")(st(), distinct=d, null_treatment=N_, window=w())
            yield f"count({name}) ordered, with nulls", lambda st=st, d=d: c("Count")(st(), distinct=d, orderby=o(), null_treatment=N_, window=w())
    for fn in ("Sum", "Max", "Avg", "Arbitrary", "Count", "CountIf"):
        yield f"{fn} with nulls and no window", lambda fn=fn: c(fn)(a(), null_treatment=N_)
    J, X = (lambda n: sut.enum("JoinType", n)), (lambda: c("JoinOnCriteria")(a() == b()))
    for kw in (dict(join_type="CROSS", criteria=1), dict(join_type="CROSS", natural=True), dict(join_type="INNER"), dict(join_type="LEFT"), dict(join_type="OUTER", natural=True, criteria=1), dict(join_type="CROSS", natural=True, criteria=1)):
        yield f"join {kw}", lambda kw=kw: c("Join")(t(), u(), c("JoinConfig")(**{**kw, "join_type": J(kw["join_type"]), **({"criteria": X()} if "criteria" in kw else {})}))
    q = lambda: c("SelectQuery")([a()])
    for k in ("IntersectQuery", "ExceptQuery"):
        yield f"{k} ALL", lambda k=k: c(k)(q(), q(), set_quantifier=sut.enum("SetQuantifier", "ALL"))
    yield "catalog without schema", lambda: c("Table")("t", catalog="c")
    for k in ("SelectQuery", "ValuesQuery", "RowConstructor", "Array", "GroupBy", "GroupingSetList", "Cube", "Rollup", "Unnest", "Coalesce"):
        yield f"empty {k}", lambda k=k: c(k)([])
    yield "empty in", lambda: c("InList")(a(), [])
    yield "empty case", lambda: c("Case")([])
    yield "empty using", lambda: c("JoinUsingCriteria")([])
    for k in ("limit", "offset"):
        for mk_ in (lambda **kw: c("SelectQuery")([a()], **kw), lambda **kw: c("ValuesQuery")([a()], **kw), lambda **kw: c("TableQuery")(t(), **kw), lambda **kw: c("UnionQuery")(q(), q(), **kw)):
            yield f"negative {k}", lambda mk_=mk_, k=k: mk_(**{k: -1})
    for x in ("WEEK", "", "day", "YEARS", "MILLISECOND"):
        yield f"interval {x}", lambda x=x: c("Interval")("1", x)
        yield f"interval to {x}", lambda x=x: c("Interval")("1", "DAY", x)
    for k in ("Sum", "Lower", "Power", "Now", "Coalesce", "Concatenate"):
        yield f"{k} with an unknown keyword", lambda k=k: c(k).from_args(*[a()] * {"Power": 2, "Now": 0}.get(k, 1), no_such_argument=1)
    for k in ("Lower", "Power", "Coalesce"):
        yield f"{k} distinct", lambda k=k: c(k).from_args(*[a()] * {"Power": 2}.get(k, 1), distinct=True)


def refused(label, fn):
    try:
        o = fn()
        text = o.sql(sut.opts())
    except RecursionError:
        raise
    except Exception as e:
        return Out(sample=f"{label}: refused with {type(e).__name__}", labels=["explicit"])
    fail(f"{label}: has no spelling, but can be built and prints {text!r}")


def inside_lambda(tree, path):
    for step in path:
        if tree.t == "Lambda":
            return True
        tree = dict(tree.d[step[0]])[list(dict(tree.d[step[0]]))[step[1]]] if isinstance(step, tuple) and S.KIND[tree.t][step[0]] == "wins" else tree.d[step[0]][step[1]] if isinstance(step, tuple) else tree.d[step]
    return tree.t == "Lambda"


def case(src):
    if src.choose(3):
        t = src.pick(sorted(S.FIELDS))
        b, vs = choices(t)
        for f in vs:
            if vs[f] and src.chance(1, 2):
                b = b.put(**{f: src.pick(vs[f])})
        tree, kind = atoms.host(b)
        return one(t + "+", tree, kind)
    # an odd argument somewhere in a generated tree
    g = Gen(src, size=src.pick([4, 10, 20]))
    tree, kind = g.any_tree()
    if kind == "type":
        return Out(discard=True)
    where = [(p, n) for p, n in M.positions(tree) if n.t not in ("Literal", "DataType", "Variable") and not inside_lambda(tree, p)]
    if not where:
        return Out(discard=True)
    p, n = src.pick(where)
    fs = [(f, v) for f, k in S.FIELDS[n.t] for v in odd(n.t, f, k) if v != n.d[f]]
    if not fs:
        return Out(discard=True)
    f, v = src.pick(fs)
    return one(n.t + "." + f + "+", M.replace(tree, p, n.put(**{f: v})), kind, False)
