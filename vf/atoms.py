"""Small systematic specs: every node type, with each field varied on its own; and every (parent slot, child kind) pair."""
from decimal import Decimal

from . import reftypes as T
from . import spec as S
from .spec import N, mk, lit, dt

F = lambda n, t=None: mk("Field", n, t)
ONE = lit(1)
COND = mk("GreaterThan", F("a"), ONE)
Q = mk("SelectQuery", [F("a")], from_=mk("Table", "t"))
Q1 = mk("SelectQuery", [ONE])
RELATIONS = {"Table", "AliasedRelation", "Join", "Unnest", "Lateral", "TableSample"}
QUERIES = {"SelectQuery", "TableQuery", "ValuesQuery", "UnionQuery", "IntersectQuery", "ExceptQuery"}
GROUPS = {"GroupingSet", "GroupingSetList", "Cube", "Rollup"}
BOUNDS = {"BoundedFrameBound", "UnboundedFrameBound", "CurrentFrameBound"}
NOT_EXPR = RELATIONS | QUERIES | GROUPS | BOUNDS | {
    "JoinConfig", "JoinUsingCriteria", "JoinOnCriteria", "GroupBy", "OrderTerm", "Window", "OverflowFiller", "When", "Else",
    "AliasedValue", "AliasedStar", "Star", "Variable"}


def named(q=Q, a="w", cols=None):
    return mk("AliasedRelation", q, a, cols)


def base(t, f=None, kind=None):
    """A plain value for one required field of a node type."""
    if kind == "str":
        if t == "TypeConstructor":
            return "abc" if f == "value" else "VARCHAR"
        if t == "Interval":
            return "1" if f == "value" else "YEAR"
        return {"separator": ",", "filler": "..."}.get(f, "n")
    if kind == "strs":
        return ("x", "y")
    if kind == "dtype":
        return dt("BIGINT")
    if kind.startswith("enum"):
        d = S.ENUM_DEFAULTS.get((t, f))
        return d or S.ENUMS[kind.split(":")[1]][1][0]
    if kind == "bool":
        return False
    if kind == "int":
        return 3
    node = node_for(t, f)
    return node[0] if kind in ("node", "node?") else node[:1]


def node_for(t, f):
    """Example nodes that may stand in that field (or in the list of that field)."""
    e = [F("a"), ONE, F("b", "t")]
    special = {
        ("AliasedStar", "star"): [mk("Star", "t")],
        ("Lambda", "inputs"): [mk("Variable", "x"), mk("Variable", "y")],
        ("InQuery", "query"): [Q],
        ("Like", "value"): [F("a")], ("Like", "pattern"): [lit("a%")], ("Like", "escape"): [lit("#")],
        ("Case", "branches"): [mk("When", COND, ONE), mk("When", F("b"), lit(2)), mk("When", F("c"), F("d"))],
        ("Case", "else_"): [mk("Else", ONE)],
        ("SelectQuery", "select"): e + [mk("AliasedValue", F("c"), "d"), mk("Star")],
        ("TableQuery", "table"): [mk("Table", "t")],
        ("JoinConfig", "criteria"): [mk("JoinOnCriteria", COND), mk("JoinUsingCriteria", ["a"])],
        ("Join", "config"): [mk("JoinConfig", "CROSS")],
        ("GroupBy", "groups"): [mk("GroupingSet", [F("a")]), mk("Cube", [F("b")]), mk("Rollup", [F("c")])],
        ("GroupingSetList", "groups"): [mk("GroupingSet", [F("a")]), mk("GroupingSet", []), mk("GroupingSet", [F("b"), F("c")])],
        ("BoundedFrameBound", "offset"): [ONE],
        ("Window", "start_bound"): [S.UB_PRECEDING], ("Window", "end_bound"): [S.CURRENT],
        ("ListAgg", "overflow_filler"): [mk("OverflowFiller", "WITH_COUNT")],
        ("Lateral", "subquery"): [Q],
        ("TableSample", "percentage"): [lit(10)],
        ("Field", "table"): [mk("RowConstructor", [ONE, F("b")])],
    }
    if (t, f) in special:
        return special[t, f]
    if f in ("left_query", "right_query"):
        return [Q if f == "left_query" else mk("SelectQuery", [F("b")], from_=mk("Table", "u"))]
    if f in ("left_relation", "right_relation", "relation", "from_"):
        return [mk("Table", "u" if f == "right_relation" else "t")]
    if f == "with_":
        return [named(), named(Q1, "v", ("c1",))]
    if f == "orderby":
        return [mk("OrderTerm", F("o")), mk("OrderTerm", F("p"), "DESC", "FIRST")]
    if f == "window" and t != "SelectQuery":
        return [mk("Window", partitions=[F("p")])]
    if f == "groupby":
        return [mk("GroupBy", [mk("GroupingSet", [F("a")])])]
    if f in ("filter_", "where", "having", "condition", "constraint"):
        return [COND]
    if f in ("arrays",):
        return [F("arr"), mk("Array", [ONE])]
    if f == "exprs" and t == "ValuesQuery":
        return [ONE, lit(2), lit(3)]
    return e + [lit("s")]


def plain(t, **kw):
    """The plainest node of a type, some fields given."""
    d = {}
    for f, kind in S.FIELDS[t]:
        if f in kw:
            d[f] = kw[f]
        elif S.default_of(t, f) is S._NODEF:
            v = base(t, f, kind)
            d[f] = tuple(v) if isinstance(v, list) else v
    if t == "Between":
        d.setdefault("lower", ONE)
    for f in ("left", "right", "upper"):
        if f == "right" and f in d and "right" not in kw and t in S.KIND and S.KIND[t].get("left"):
            d[f] = F("b")
        if f == "upper" and "upper" not in kw and f in d:
            d[f] = lit(9)
    n = 0
    for f, kind in S.FIELDS[t]:      # keep arguments apart
        if kind == "node" and f not in kw and d.get(f) == F("a"):
            d[f] = F("abcdefgh"[n])
            n += 1
    return mk(t, **d)


def valid(n):
    """The combination of fields is one the documentation allows."""
    t = n.t
    if t == "Join" or t == "JoinConfig":
        c = n.config if t == "Join" else n
        if c.join_type == "CROSS":
            return c.criteria is None and not c.natural
        return (c.criteria is None) == c.natural
    if t in ("IntersectQuery", "ExceptQuery") and n.set_quantifier == "ALL":
        return False
    if t == "Interval":
        order = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]
        return n.to_interval is None or order.index(n.from_interval) < order.index(n.to_interval)
    if t == "Window":
        return n.frame_type is not None
    if t in S.AGGREGATE_CLASSES and t != "ListAgg":
        roles = S.FUNCS[S.CLASS_TO_FUNC[t]][2]
        given = {f for f, k in S.FIELDS[t][:-5] if n.d[f] is not None}
        if not any(given == set(r) for r in roles):
            return False
        return n.null_treatment == "RESPECT" or n.window is not None
    if t == "ListAgg":
        return n.filter_ is None and n.window is None and n.null_treatment == "RESPECT" and bool(n.orderby)
    if t in S.CLASS_TO_FUNC and S.CLASS_TO_FUNC[t] in S.FUNCS:
        roles = S.FUNCS[S.CLASS_TO_FUNC[t]][2]
        if roles[0] and roles[0][0].startswith("*"):
            return len(n.d[roles[0][0][1:]]) >= (2 if t == "Concatenate" else 1)
        given = {f for f, k in S.FIELDS[t] if n.d[f] is not None}
        return any(given == set(r) for r in roles)
    if t == "Lambda":
        return len({v.name for v in n.inputs}) == len(n.inputs)
    if t == "Table":
        return n.catalog is None or n.schema is not None
    return True


def start(t):
    """The starting point for variations of a node type."""
    if t == "ListAgg":
        return plain(t, orderby=(mk("OrderTerm", F("o")),))
    if t == "Join":
        return plain(t, config=mk("JoinConfig", "INNER", criteria=mk("JoinOnCriteria", COND)))
    if t == "JoinConfig":
        return plain(t, join_type="INNER", criteria=mk("JoinOnCriteria", COND))
    if t == "Concatenate":
        return mk(t, [F("a"), F("b")])
    if t in S.CLASS_TO_FUNC and S.CLASS_TO_FUNC[t] in S.FUNCS:
        role = S.FUNCS[S.CLASS_TO_FUNC[t]][2][0]
        if role and not role[0].startswith("*"):
            return mk(t, **{r: F("abcdefgh"[i]) for i, r in enumerate(role)})
    return plain(t)


def variations(t):
    """The plain node and every single-field variation of it, for one node type."""
    b = start(t)
    out = [b] if valid(b) else []
    def add(**kw):
        n = b.put(**kw)
        if valid(n) and n not in out:
            out.append(n)
    for f, kind in S.FIELDS[t]:
        if kind in ("node", "node?"):
            for x in node_for(t, f):
                add(**{f: x})
            if kind == "node?":
                add(**{f: None})
        elif kind in ("nodes", "nodes?"):
            xs = node_for(t, f)
            for k in (1, 2, 3):
                add(**{f: tuple((xs * 3)[:k])})
            if len(xs) > 1:
                add(**{f: tuple(reversed(xs))})
            for x in xs:
                add(**{f: (x,)})
            if t == "GroupingSet":
                add(**{f: ()})
            if t == "Lambda" and f == "inputs":
                add(**{f: ()})
            if kind == "nodes?":
                add(**{f: None})
        elif kind == "str":
            if t == "TypeConstructor":
                for v, n in [("1.50", "DECIMAL"), ("2020-01-02", "DATE"), ("03:04:05", "TIME"), ("it's", "CHAR"),
                             ("2020-01-02 03:04:05.123", "TIMESTAMP"), ("", "VARCHAR"), ("5", "DOUBLE"), ("5", "REAL"),
                             ("5", "BIGINT"), ("{}", "JSON"), ("true", "BOOLEAN"), ("127.0.0.1", "IPADDRESS")]:
                    add(value=v, type_name=n)
            elif t == "Interval" and f == "from_interval":
                for a in ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
                    for c in [None, "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
                        add(from_interval=a, to_interval=c)
            elif t == "Interval":
                for v in ["0", "-1", "1-2", "it's", "1 02:03:04.5", ""]:
                    add(value=v)
            elif t == "ListAgg":
                for v in ["", ",", "it's", " "]:
                    add(separator=v)
            else:
                for v in ["n", "Upper", 'q"t', "a.b", "select", "a b", "é"]:
                    add(**{f: v})
        elif kind == "str?" and t != "Interval":
            for v in ["s", 'q"t', "a.b", None]:
                add(**{f: v})
            if t == "Table":
                add(schema="s", catalog="c")
                add(schema="a.b", catalog='c"d')
        elif kind in ("strs", "strs?"):
            for v in [("x",), ("x", "y"), ("y", "x"), ("x", 'q"t', "a b")]:
                add(**{f: v})
        elif kind == "int?":
            for v in [0, 1, 10, 10 ** 12, None]:
                add(**{f: v})
        elif kind == "int":
            for v in range(0, 13):
                add(**{f: v})
        elif kind == "bool":
            add(**{f: True})
            add(**{f: False})
        elif kind.startswith("enum"):
            for v in S.ENUMS[kind.split(":")[1]][1]:
                add(**{f: v})
                if f == "null_treatment":
                    add(null_treatment=v, window=mk("Window", orderby=[mk("OrderTerm", F("o"))]))
            if kind.startswith("enum?"):
                add(**{f: None})
        elif kind == "tbl":
            for v in [None, "t", 'q"t', "a.b"]:
                add(**{f: v})
            if t in ("Field", "Star"):
                add(**{f: mk("RowConstructor", [ONE, F("b")])})
        elif kind == "dtype":
            for v in TYPES:
                add(**{f: v})
        elif kind == "wins":
            for v in [(("w", mk("Window")),), (("w", mk("Window", partitions=[F("p")])), ("v", mk("Window", "w"))),
                      (('q"t', mk("Window", orderby=[mk("OrderTerm", F("o"))])),)]:
                add(**{f: v})
    if t in ("Join", "JoinConfig"):
        for jt in S.ENUMS["JoinType"][1]:
            for nat in (False, True):
                for c in (None, mk("JoinOnCriteria", COND), mk("JoinUsingCriteria", ["a"]), mk("JoinUsingCriteria", ["b", "a"])):
                    cfg = dict(join_type=jt, natural=nat, criteria=c)
                    if t == "Join":
                        add(config=mk("JoinConfig", **cfg))
                    else:
                        add(**cfg)
    if t in S.CLASS_TO_FUNC and S.CLASS_TO_FUNC[t] in S.FUNCS:
        for role in S.FUNCS[S.CLASS_TO_FUNC[t]][2]:
            if not role or role[0].startswith("*"):
                continue
            n = mk(t, **{r: F("abcdefgh"[i]) for i, r in enumerate(role)})
            if n not in out:
                out.append(n)
    if t == "Window":
        bs = bounds()
        for ft in S.ENUMS["FrameType"][1]:
            for s_ in bs:
                for e_ in bs:
                    n = mk(t, frame_type=ft, start_bound=s_, end_bound=e_)
                    if n not in out:
                        out.append(n)
        for parent in (None, "w"):
            for part in (None, (F("p"),), (F("p"), F("q"))):
                for ob in (None, (mk("OrderTerm", F("o")),)):
                    n = mk(t, parent_window=parent, partitions=part, orderby=ob)
                    if n not in out:
                        out.append(n)
    if t == "OrderTerm":
        for a in ("ASC", "DESC"):
            for c in ("FIRST", "LAST"):
                n = mk(t, F("o"), a, c)
                if n not in out:
                    out.append(n)
    return out


def varied(t):
    """field -> values other than the one in the starting point, at most three of them"""
    b = start(t)
    out = {}
    for n in variations(t):
        ch = [f for f, _ in S.FIELDS[t] if n.d[f] != b.d[f]]
        if len(ch) == 1 and len(out.setdefault(ch[0], [])) < 3:
            out[ch[0]].append(n.d[ch[0]])
    return out


def pairwise(t):
    """Variations of two fields at once."""
    b = start(t)
    v = varied(t)
    fs = list(v)
    for i, f in enumerate(fs):
        for g in fs[i + 1:]:
            for x in v[f][:3]:
                for y in v[g][:3]:
                    n = b.put(**{f: x, g: y})
                    if valid(n):
                        yield n


def full(t):
    """A node with as many optional fields set as go together."""
    b = start(t)
    for f, vs in varied(t).items():
        kind = S.KIND[t][f]
        if b.d[f] not in (None, (), False) and not kind.startswith("enum"):
            continue
        for v in reversed(vs):
            n = b.put(**{f: v})
            if v not in (None, ()) and valid(n) and typed_node(n):
                b = n
                break
    return b


def typed_node(n):
    return n.t in NOT_EXPR or typed(n)


def all_pairwise():
    for t in sorted(S.FIELDS):
        for i, n in enumerate(pairwise(t)):
            if t == "Lambda":
                n = bind(n)
            tree, kind = host(n)
            if typed(tree):
                yield f"{t} two fields #{i}", tree, kind


def bounds():
    return [S.UB_PRECEDING, mk("UnboundedFrameBound", "FOLLOWING"), S.CURRENT, mk("BoundedFrameBound", "PRECEDING", lit(2)),
            mk("BoundedFrameBound", "FOLLOWING", lit(3)), mk("BoundedFrameBound", "FOLLOWING", mk("Add", F("k"), ONE))]


def _types():
    out = [dt(n) for n in S.SIMPLE_TYPES]
    out += [dt("DECIMAL"), dt("DECIMAL", precision=10, scale=0), dt("DECIMAL", precision=10, scale=10),
            dt("DECIMAL", precision=38, scale=5), dt("DECIMAL", precision=1, scale=0), dt("VARCHAR"), dt("VARCHAR", max_chars=1),
            dt("VARCHAR", max_chars=0), dt("VARCHAR", max_chars=2147483646), dt("CHAR"), dt("CHAR", max_chars=1), dt("CHAR", max_chars=65536)]
    for n in ("TIME", "TIMESTAMP"):
        for p in (None, 0, 3, 6, 12):
            for z in (False, True):
                kw = {} if p is None else {"precision": p}
                out.append(dt(n, timezone=z, **kw))
    out += [dt("INTERVAL", from_interval="DAY", to_interval="SECOND"), dt("INTERVAL", from_interval="YEAR", to_interval="MONTH"),
            dt("ARRAY", dtype=dt("BIGINT")), dt("ARRAY", dtype=dt("ARRAY", dtype=dt("VARCHAR", max_chars=3))),
            dt("MAP", from_dtype=dt("VARCHAR"), to_dtype=dt("ARRAY", dtype=dt("DOUBLE"))),
            dt("MAP", from_dtype=dt("BIGINT"), to_dtype=dt("VARCHAR")),
            dt("ROW", dtypes=[dt("BIGINT")]), dt("ROW", dtypes=[dt("BIGINT"), dt("VARCHAR"), dt("DECIMAL", precision=5, scale=2)]),
            dt("ROW", dtypes=[dt("ROW", dtypes=[dt("DATE"), dt("TIME", precision=3, timezone=True)]), dt("JSON")]),
            dt("QDIGEST", dtype=dt("DOUBLE")), dt("ARRAY", dtype=dt("MAP", from_dtype=dt("UUID"), to_dtype=dt("ROW", dtypes=[dt("CHAR")])))]
    return [t for t in out if t.name != "UNKNOWN"]


TYPES = _types()


def host(n):
    """(whole tree, parse kind) that contains the node: an expression or a query."""
    t = n.t
    if t in QUERIES:
        return n, "query"
    if t in RELATIONS:
        return mk("SelectQuery", [F("z")], from_=n), "query"
    if t in GROUPS:
        return mk("SelectQuery", [F("z")], from_=mk("Table", "t"), groupby=mk("GroupBy", [n])), "query"
    if t == "GroupBy":
        return mk("SelectQuery", [F("z")], from_=mk("Table", "t"), groupby=n), "query"
    if t == "OrderTerm":
        return Q.put(orderby=(n,)), "query"
    if t == "JoinConfig":
        return host(mk("Join", mk("Table", "t"), mk("Table", "u"), n))
    if t in ("JoinUsingCriteria", "JoinOnCriteria"):
        return host(mk("JoinConfig", "LEFT", criteria=n))
    if t == "Window":
        return mk("Sum", F("v"), window=n), "expr"
    if t in BOUNDS:
        return host(mk("Window", frame_type="ROWS", start_bound=n))
    if t == "OverflowFiller":
        return host(plain("ListAgg", orderby=(mk("OrderTerm", F("o")),), overflow_filler=n))
    if t == "When":
        return mk("Case", [n]), "expr"
    if t == "Else":
        return mk("Case", [mk("When", COND, ONE)], n), "expr"
    if t in ("AliasedValue", "AliasedStar", "Star"):
        return mk("SelectQuery", [n], from_=mk("Table", "t")), "query"
    if t == "Variable":
        return mk("Try", mk("Lambda", [n], n)), "expr"
    if t == "Lambda":
        return mk("Try", n), "expr"
    return n, "expr"


def typed(n):
    try:
        T.check(n)
        return True
    except T.NoType:
        return False


def all_variations():
    """(label, tree, kind) for every node type and field."""
    for t in sorted(S.FIELDS):
        for i, n in enumerate(variations(t)):
            if t == "Lambda":
                n = bind(n)
            tree, kind = host(n)
            if typed(tree):
                yield f"{t}#{i}", tree, kind


def bind(lam):
    """References to the lambda's own parameters are variables."""
    names = {v.name for v in lam.inputs}
    return lam.put(expr=S.rewrite(lam.expr, lambda x: mk("Variable", x.name)
                                  if x.t == "Field" and x.table is None and x.name in names else x))


CHILDREN = {
    "or": mk("Or", F("p"), F("q")), "and": mk("And", F("p"), F("q")), "not": mk("Not", F("p")),
    "eq": mk("Equal", F("p"), F("q")), "lt": mk("LessThan", F("p"), F("q")), "between": mk("Between", F("p"), ONE, lit(2)),
    "like": mk("Like", F("p"), lit("x"), lit("#")), "in": mk("InList", F("p"), [ONE, lit(2)]), "inq": mk("InQuery", F("p"), Q),
    "isnull": mk("IsNull", F("p")), "distinct": mk("DistinctFrom", F("p"), F("q")),
    "notin": mk("Not", mk("InList", F("p"), [ONE])), "notnull": mk("Not", mk("IsNull", F("p"))),
    "concat": mk("Concatenate", [F("p"), F("q")]), "add": mk("Add", F("p"), F("q")), "minus": mk("Minus", F("p"), F("q")),
    "mul": mk("Multiply", F("p"), F("q")), "mod": mk("Modulus", F("p"), F("q")), "neg": mk("Negative", F("p")),
    "pos": mk("Positive", ONE), "negneg": mk("Negative", mk("Negative", ONE)), "minus1": lit(-1), "negminus": mk("Negative", lit(-1)),
    "dec": lit(Decimal("1.50")), "dbl": lit(1.5e20), "str": lit("it's"), "null": lit(None), "true": lit(True),
    "field": F("p", "t"), "sub": mk("Subscript", F("p"), ONE), "deref": mk("Field", "f", mk("Cast", F("p"), dt("ROW", dtypes=[dt("BIGINT")]))),
    "cast": mk("Cast", F("p"), dt("DECIMAL", precision=5, scale=2)), "case": mk("Case", [mk("When", F("p"), ONE)], mk("Else", lit(2))),
    "query": Q, "values": mk("ValuesQuery", [ONE, lit(2)]), "union": mk("UnionQuery", Q, Q1.put(select=(F("z"),)), "ALL"),
    "row": mk("RowConstructor", [F("p"), ONE]), "row1": mk("RowConstructor", [F("p")]), "array": mk("Array", [ONE, lit(2)]),
    "interval": mk("Interval", "-1", "DAY", "SECOND"), "tc": mk("TypeConstructor", "2020-01-01", "DATE"),
    "agg": mk("Sum", F("p"), window=mk("Window", partitions=[F("q")]), filter_=F("r")), "count*": mk("Count", mk("Star")),
    "fn": mk("Power", F("p"), F("q")), "kw": mk("CurrentTimestamp", precision=6), "kw0": mk("CurrentDate"), "now": mk("Now"),
    "listagg": mk("ListAgg", F("p"), ",", orderby=[mk("OrderTerm", F("q"))]), "norm": mk("Normalize", F("p"), "NFC"),
    "if": mk("If", F("p"), F("q")),
    "empty": lit(""), "zero": lit(0), "false": lit(False), "zero.0": lit(Decimal("0.0")), "zeroE0": lit(0.0), "space": lit(" "),
    "same a": F("a"), "same b": F("b"), "same z": F("z"), "emptyarray-like": mk("Cast", lit(None), dt("VARCHAR", max_chars=0)),
}


def case_slots():
    """Every place in a CASE: with and without a value, with one and several branches, with and without ELSE."""
    W = lambda *a: mk("When", *a)
    for v in (None, F("v")):
        k = "Case" if v is None else "Case v"
        other, els = W(mk("IsNull", F("q")), F("b")), mk("Else", F("c"))
        for e in (None, els):
            j = k + (" else" if e else "")
            yield j + ".when", lambda c, v=v, e=e: mk("Case", [W(c, F("r"))], e, v)
            yield j + ".when[1]", lambda c, v=v, e=e: mk("Case", [other, W(c, F("r"))], e, v)
            yield j + ".then", lambda c, v=v, e=e: mk("Case", [W(COND, c)], e, v)
            yield j + ".then[1]", lambda c, v=v, e=e: mk("Case", [other, W(COND, c)], e, v)
        yield k + ".else", lambda c, v=v: mk("Case", [W(COND, F("r"))], mk("Else", c), v)
        yield k + ".else[1]", lambda c, v=v: mk("Case", [other, W(COND, F("r"))], mk("Else", c), v)
    yield "Case else.value", lambda c: mk("Case", [W(COND, F("r"))], None, c)


SPECIAL = ["null", "true", "false", "zero", "empty", "str", "same a", "same b", "same z", "query", "count*", "negminus", "minus1", "or"]


def slots(filled=False):
    """(label, function child -> node) for every place of every node type where an expression stands; filled: all optional fields are set."""
    if not filled:
        yield from case_slots()
    for t in sorted(S.FIELDS):
        if t == "Variable":
            continue
        starts = [start(t)]
        if t in S.CLASS_TO_FUNC and S.CLASS_TO_FUNC[t] in S.FUNCS:
            for role in S.FUNCS[S.CLASS_TO_FUNC[t]][2][1:]:
                if role and not role[0].startswith("*"):
                    starts.append(mk(t, **{r: F("abcdefgh"[i]) for i, r in enumerate(role)}))
        if t == "Case":
            starts = [mk(t, [mk("When", COND, F("b"))], mk("Else", F("c")), F("v"))]
        if filled:
            starts = [full(t)]
            if starts[0] == start(t):
                continue
        if t in S.AGGREGATE_CLASSES and t != "Sum":
            fields = [f for f, k in S.FIELDS[t] if f not in ("orderby", "filter_", "window")]
        else:
            fields = [f for f, _ in S.FIELDS[t]]
        seen = set()
        for b in starts:
            for f in fields:
                kind = S.KIND[t][f]
                if f in ("query", "subquery", "table", "left_query", "right_query", "relation", "left_relation", "right_relation",
                         "from_", "config", "criteria", "with_", "branches", "else_", "inputs", "groups", "groupby",
                         "window", "start_bound", "end_bound", "star", "overflow_filler", "orderby"):
                    continue
                if kind == "node" or (kind == "node?" and (b.d[f] is not None or f in ("where", "having", "filter_", "escape"))):
                    if (f, None) in seen and len(starts) == 1:
                        continue
                    yield f"{t}.{f}", (lambda c, b=b, f=f: b.put(**{f: c}))
                elif kind == "nodes":
                    if t in ("ValuesQuery",):
                        yield f"{t}.{f}", (lambda c, b=b, f=f: b.put(**{f: (c,)}))
                        continue
                    yield f"{t}.{f}[0]", (lambda c, b=b, f=f: b.put(**{f: (c, F("z"))}))
                    yield f"{t}.{f}[1]", (lambda c, b=b, f=f: b.put(**{f: (F("z"), c)}))
                    if t != "Concatenate":
                        yield f"{t}.{f}[only]", (lambda c, b=b, f=f: b.put(**{f: (c,)}))
                elif kind == "nodes?" and f == "partitions":
                    yield f"{t}.{f}[0]", (lambda c, b=b, f=f: b.put(**{f: (c, F("z"))}))
                    yield f"{t}.{f}[1]", (lambda c, b=b, f=f: b.put(**{f: (F("z"), c)}))


def pairs(children=None):
    """(label, tree, kind) for every expression slot and every kind of child."""
    both = [(sl, make, CHILDREN) for sl, make in slots()] + [("full " + sl, make, SPECIAL) for sl, make in slots(True)]
    for sl, make, cs in both:
        for cl in cs:
            c = CHILDREN[cl]
            if children is not None and cl not in children:
                continue
            n = make(c)
            if "TableSample" in sl and cl == "zeroE0":
                continue        # the known finding about TABLESAMPLE, which C01 looks at by itself
            if not valid(n):
                continue
            tree, kind = host(n)
            if typed(tree):
                yield f"{sl} <- {cl}", tree, kind


# ---- long lists and deep nesting ------------------------------------------------------------------------------
LENGTHS = (7, 12, 26, 65)
DEPTHS = (3, 6, 11)


def numbered(n, i):
    """The i-th of many alike items: its names and numbers tell it from the others."""
    def change(x):
        if x.t == "Literal" and x.kind == "int":
            return lit(int(x.text) + 100 * (i + 1))
        ch = {f: f"{x.d[f]}_{i}" for f in ("name", "alias") if isinstance(x.d.get(f), str)}
        return x.put(**ch) if ch else x
    return S.rewrite(n, change)


def longer(t, f, length, same=False):
    """A node whose list f has that many items."""
    b = start(t)
    v = b.d[f]
    kind = S.KIND[t][f]
    if not v:
        for n in variations(t):
            if n.d[f]:
                b, v = n, n.d[f]
                break
        else:
            return None
    if kind == "wins":
        items = tuple((f"w{i}", numbered(v[0][1], i)) for i in range(length))
    elif kind.startswith("strs"):
        items = tuple(f"{v[0]}{i}" for i in range(length))
    elif same:
        items = (v[0],) * length
    else:
        items = tuple(numbered(v[i % len(v)], i) for i in range(length))
    return b.put(**{f: items})


def lists():
    for t in sorted(S.FIELDS):
        for f, kind in S.FIELDS[t]:
            if kind.startswith(("nodes", "strs")) or kind == "wins":
                if t in S.AGGREGATE_CLASSES and t not in ("Sum", "ListAgg", "ArrayAgg", "MaxBy"):
                    continue
                yield t, f


def long_lists():
    """Every list of every node type with many items, all different or all the same."""
    for t, f in lists():
        for length, same in [(k, False) for k in LENGTHS] + [(3, True), (8, True)]:
            if same and (t == "Lambda" or f == "with_" or S.KIND[t][f].startswith(("strs", "wins"))):
                continue
            n = longer(t, f, length, same)
            if n is None or not valid(n):
                continue
            if t == "Lambda":
                n = bind(n)
            tree, kind = host(n)
            if typed(tree):
                yield f"{t}.{f} of {length}{' the same' if same else ''}", tree, kind


def deep():
    """Every slot of every expression node, nested in itself, with other names at each level."""
    for sl, make in slots():
        if sl.split(".")[0].split()[0] in S.CLASS_TO_FUNC and sl.split(".")[0] not in ("Sum", "Coalesce", "Lower", "If", "Power", "ApproxPercentile", "Concatenate", "Try", "NullIf", "DateAdd", "ListAgg"):
            continue
        for depth in DEPTHS:
            n = F("deep")
            for i in range(depth):
                n = numbered(make(F("HOLE")), i)
                n = S.rewrite(n, lambda x, inner=(inner if i else F("deep")): inner if x.t == "Field" and x.name == f"HOLE_{i}" else x)
                inner = n
                if n.t in NOT_EXPR or not valid(n):
                    break
            if n.t in NOT_EXPR or not valid(n) or not typed(n):
                continue
            tree, kind = host(n)
            if typed(tree):
                yield f"{sl} {depth} deep", tree, kind


def relations_deep():
    """Relations and queries nested in themselves."""
    T = lambda i: mk("Table", f"t{i}")
    cross = mk("JoinConfig", "CROSS")
    makes = {
        "alias": lambda r, i: mk("AliasedRelation", mk("SelectQuery", [F(f"c{i}")], from_=r), f"a{i}"),
        "alias columns": lambda r, i: mk("AliasedRelation", mk("SelectQuery", [F(f"c{i}"), F(f"d{i}")], from_=r), f"a{i}", [f"x{i}", f"y{i}"]),
        "join left": lambda r, i: mk("Join", r, T(i), mk("JoinConfig", "LEFT", criteria=mk("JoinUsingCriteria", [f"k{i}"]))),
        "join right": lambda r, i: mk("Join", T(i), r, mk("JoinConfig", "RIGHT", criteria=mk("JoinOnCriteria", mk("Equal", F(f"k{i}"), F("k"))))),
        "join on": lambda r, i: mk("Join", r, T(i), mk("JoinConfig", "INNER", criteria=mk("JoinOnCriteria", mk("Equal", F(f"k{i}"), F("k"))))),
        "join cross": lambda r, i: mk("Join", r, T(i), cross),
        "join natural": lambda r, i: mk("Join", r, T(i), mk("JoinConfig", "OUTER", natural=True)),
        "lateral": lambda r, i: mk("Lateral", mk("SelectQuery", [F(f"c{i}")], from_=r)),
        "sample": lambda r, i: mk("TableSample", mk("AliasedRelation", mk("SelectQuery", [F(f"c{i}")], from_=r), f"a{i}"), "BERNOULLI", lit(i)),
        "query": lambda r, i: mk("SelectQuery", [F(f"c{i}")], from_=r, where=mk("Equal", F(f"c{i}"), lit(i)), limit=i),
        "with": lambda r, i: mk("SelectQuery", [F(f"c{i}")], from_=r, with_=[mk("AliasedRelation", mk("SelectQuery", [lit(i)]), f"w{i}")]),
        "union": lambda r, i: mk("AliasedRelation", mk("UnionQuery", mk("SelectQuery", [F("c")], from_=r), mk("TableQuery", T(i)), "ALL" if i % 2 else "DISTINCT"), f"a{i}"),
    }
    for name, make in makes.items():
        for depth in DEPTHS:
            r = T("")
            for i in range(1, depth + 1):
                r = make(r, i)
            yield f"{name} {depth} deep", mk("SelectQuery", [mk("Star")], from_=r), "query"
    for name in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
        for side in ("left", "right"):
            for depth in DEPTHS:
                q = mk("TableQuery", T(""))
                for i in range(1, depth + 1):
                    o = mk("SelectQuery", [lit(i)])
                    q = mk(name, q, o) if side == "left" else mk(name, o, q)
                yield f"{name} {side} {depth} deep", q, "query"
    for depth in DEPTHS:
        q = mk("SelectQuery", [F("a")])
        c = mk("SelectQuery", [F("a")])
        s = F("a")
        for i in range(1, depth + 1):
            q = mk("SelectQuery", [F(f"a{i}")], from_=mk("Table", "t"), where=mk("InQuery", F(f"b{i}"), q))
            c = mk("SelectQuery", [F(f"a{i}")], from_=mk("Table", f"w{i}"), with_=[mk("AliasedRelation", c, f"w{i}")])
            s = mk("Add", F(f"a{i}"), mk("SelectQuery", [s]))
        yield f"in query {depth} deep", q, "query"
        yield f"with {depth} deep inside", c, "query"
        yield f"scalar query {depth} deep", s, "expr"


T2, CROSS = mk("Table", "u"), mk("JoinConfig", "CROSS")
PLACES = {
    "from": lambda q: mk("SelectQuery", [F("z")], from_=q),
    "alias": lambda q: mk("SelectQuery", [F("z")], from_=named(q, "w", ["x"])),
    "lateral": lambda q: mk("SelectQuery", [F("z")], from_=mk("Lateral", q)),
    "join lateral": lambda q: mk("SelectQuery", [F("z")], from_=mk("Join", T2, mk("Lateral", q), CROSS)),
    "aliased lateral": lambda q: mk("SelectQuery", [F("z")], from_=mk("Join", T2, named(mk("Lateral", q), "l"), mk("JoinConfig", "LEFT", criteria=mk("JoinOnCriteria", COND)))),
    "join left": lambda q: mk("SelectQuery", [F("z")], from_=mk("Join", q, T2, CROSS)),
    "join right": lambda q: mk("SelectQuery", [F("z")], from_=mk("Join", T2, q, mk("JoinConfig", "INNER", natural=True))),
    "sample": lambda q: mk("SelectQuery", [F("z")], from_=mk("TableSample", named(q), "SYSTEM", lit(5))),
    "with": lambda q: mk("SelectQuery", [F("z")], from_=mk("Table", "w"), with_=[named(q)]),
    "second with": lambda q: mk("TableQuery", mk("Table", "v"), with_=[named(), named(q, "v", ["y"])]),
    "in": lambda q: mk("SelectQuery", [F("z")], from_=T2, where=mk("InQuery", F("z"), q)),
    "not in": lambda q: mk("Not", mk("InQuery", F("z"), q)),
    "item": lambda q: mk("SelectQuery", [q, mk("AliasedValue", q, "x")]),
    "operand": lambda q: mk("Add", q, ONE),
    "compared": lambda q: mk("SelectQuery", [F("z")], from_=T2, having=mk("Equal", F("z"), q)),
    "argument": lambda q: mk("Coalesce", [F("z"), q]),
    "element": lambda q: mk("Array", [q]),
    "row": lambda q: mk("ValuesQuery", [q]),
    "sorted by": lambda q: mk("SelectQuery", [F("z")], from_=T2, orderby=[mk("OrderTerm", q)]),
    "union left": lambda q: mk("UnionQuery", q, Q),
    "union right": lambda q: mk("UnionQuery", Q, q, "ALL"),
    "intersect": lambda q: mk("IntersectQuery", q, q),
    "except right": lambda q: mk("ExceptQuery", Q, q, limit=9),
}


def queries_everywhere():
    """Every combination of ORDER BY, OFFSET and LIMIT, and every variation of a query, in every place where a query stands."""
    heads = [Q, mk("UnionQuery", Q, mk("TableQuery", T2)), mk("TableQuery", T2), mk("ValuesQuery", [ONE])]
    kids = [(f"{'sorted ' if o else ''}offset {x} limit {y}", heads, dict(orderby=(mk("OrderTerm", ONE),) if o else None, offset=x, limit=y))
            for o in (0, 1) for x in (None, 0, 1) for y in (None, 0, 1)]
    whole = [(f"{t}#{i}", n) for t in sorted(QUERIES) for i, n in enumerate(variations(t))]
    for k, (pl, place) in enumerate(PLACES.items()):
        some = [(label, hs[(i + k) % len(hs)].put(**kw)) for i, (label, hs, kw) in enumerate(kids)] + whole[k % 4::4]
        for label, q in some:
            if q.d.get("with_") and ("union" in pl or pl in ("intersect", "except right")):
                continue    # no SQL spelling
            n = place(q)
            tree, kind = host(n)
            if valid(q) and typed(tree):
                yield f"{pl} <- {label}", tree, kind


def extended():
    yield from long_lists()
    yield from queries_everywhere()
    yield from deep()
    yield from relations_deep()
