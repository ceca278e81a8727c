"""C12: every expression reports the data type that its operator or function defines for the types of its operands."""
from ..common import *
from ..spec import N, dt, lit, mk, tparam

PROPERTY = "C12"
RULE = "some node of the tree has a known type other than that of a literal or cast; distinct by text"
ASSUMPTIONS = [TYPED, "the defined types are those treeno declares for its functions (see vf/reftypes.py); columns, subscripts, lambdas and stars are unknown before resolution"]
COUNTS = {"quick": 3500, "thorough": 150000}
F = atoms.F
VALUES = {"Table", "AliasedRelation", "Join", "JoinConfig", "JoinUsingCriteria", "JoinOnCriteria", "Unnest", "Lateral", "TableSample", "Window"}


def compare(spec, obj, how):
    for n, o in sut.paired(spec, obj):
        if n.t in T.NOT_VALUES or n.t == "DataType":
            continue
        want = T.typeof(n)
        got = sut.canon_type(sut.guard("data_type", lambda: o.data_type))
        require(got == want, lambda: f"{how}, {show(n)} reports the type {got} instead of {want}")


def show(n):
    try:
        return L.text_of(n, "query" if n.t in L.QUERIES else "expr", parens="full")[0] if n.t not in ("When", "Else", "AliasedValue", "Star", "AliasedStar") else S.short(n, 400)
    except Exception:
        return S.short(n, 400)


def types(tree, kind, src=None, parsed=True):
    """Check a tree built from Python and one parsed from text."""
    try:
        T.check(tree)
        ok = True
    except T.NoType:
        ok = False
    text = L.text_of(tree, kind, src)[0] if parsed else None
    for how in ("built from Python", "parsed") if parsed else ("built from Python",):
        try:
            obj = sut.build(tree) if how != "parsed" else sut.PARSERS[kind](text)
        except sut.SutError as e:
            require(not ok, lambda: f"{how}, {text or tree} is refused: {e}")
            require(isinstance(e.exc, (TypeError, AssertionError, ValueError)), lambda: str(e))
            continue
        require(ok, lambda: f"{how}, {text or tree} is accepted although its parts have no common type: it reports {obj.data_type}")
        if how == "parsed" and kind != "query":
            d = S.diff(tree, sut.canon(obj))
            require(d is None, lambda: f"{text!r} gives another tree: {d}")
        compare(tree, obj, how)
    return text or S.short(tree, 300), ok


def known(tree):
    for n in S.walk(tree):
        if n.t in T.NOT_VALUES or n.t in ("Literal", "Cast", "TryCast"):
            continue
        try:
            if T.typeof(n).name != "UNKNOWN":
                return True
        except T.NoType:
            return True
    return False


LEAVES = [dt("BOOLEAN"), dt("INTEGER"), dt("TINYINT"), dt("BIGINT"), dt("REAL"), dt("DOUBLE"), dt("DECIMAL", precision=10, scale=2), dt("DECIMAL", precision=20, scale=15), dt("DECIMAL"),
          dt("VARCHAR"), dt("VARCHAR", max_chars=5), dt("CHAR", max_chars=3), dt("VARBINARY"), dt("JSON"), dt("DATE"), dt("TIME"), dt("TIME", precision=6, timezone=True),
          dt("TIMESTAMP"), dt("TIMESTAMP", precision=3), dt("TIMESTAMP", precision=9, timezone=True), dt("INTERVAL", from_interval="DAY", to_interval="SECOND"),
          dt("INTERVAL", from_interval="YEAR", to_interval="MONTH"), dt("ARRAY", dtype=dt("INTEGER")), dt("ARRAY", dtype=dt("DOUBLE")), dt("ARRAY", dtype=dt("ARRAY", dtype=dt("BIGINT"))),
          dt("MAP", from_dtype=dt("BIGINT"), to_dtype=dt("VARCHAR")), dt("ROW", dtypes=[dt("INTEGER"), dt("DATE")]), dt("UUID"), dt("IPADDRESS"), dt("HYPERLOGLOG"), dt("P4HYPERLOGLOG"),
          dt("TDIGEST"), dt("QDIGEST", dtype=dt("BIGINT"))]
OPERANDS = LEAVES + [None]      # None: a column of which nothing is known


def col(t, n="a"):
    """A column whose type is given from Python."""
    return F(n).put(_dtype=t) if t else F(n)


def cast(t, n="a"):
    return mk("Cast", F(n), t) if t else F(n)


def one(tree, kind="expr"):
    text, ok = types(tree, kind)
    return Out(sample=text, nontrivial=known(tree), labels=["typed" if ok else "refused"])


def from_python(make, ts):
    """The same with columns of given types, from Python only."""
    tree = make([col(t, n) for t, n in zip(ts, "abcd")])
    text, ok = types(tree, "expr", parsed=False)


def operators():
    """(label, number of operands, function of the operands)"""
    for op in ("Add", "Minus", "Multiply", "Divide", "Modulus", "Equal", "LessThan", "DistinctFrom"):
        yield op, 2, lambda v, op=op: mk(op, v[0], v[1])
    for op in ("Positive", "Negative", "Not", "IsNull"):
        yield op, 1, lambda v, op=op: mk(op, v[0])
    yield "Between", 2, lambda v: mk("Between", v[0], v[1], v[0])
    yield "InList", 2, lambda v: mk("InList", v[0], [v[1]])
    yield "InQuery", 1, lambda v: mk("InQuery", v[0], mk("SelectQuery", [v[0]]))
    yield "Like", 2, lambda v: mk("Like", v[0], v[1])
    yield "Array", 2, lambda v: mk("Array", v)
    yield "Array1", 1, lambda v: mk("Array", v[:1])
    yield "Array3", 2, lambda v: mk("Array", [v[0], v[0], v[1]])
    yield "Array null", 1, lambda v: mk("Array", [lit(None), v[0]])
    yield "Row", 2, lambda v: mk("RowConstructor", v)
    yield "Concatenate", 2, lambda v: mk("Concatenate", v)
    yield "Concatenate3", 2, lambda v: mk("Concatenate", [v[0], v[1], v[0]])
    yield "Coalesce", 2, lambda v: mk("Coalesce", v)
    yield "Coalesce3", 2, lambda v: mk("Coalesce", [v[0], v[0], v[1]])
    yield "Coalesce null", 1, lambda v: mk("Coalesce", [lit(None), v[0]])
    yield "If", 2, lambda v: mk("If", atoms.COND, v[0], v[1])
    yield "If1", 1, lambda v: mk("If", v[0], v[0])
    yield "Case", 2, lambda v: mk("Case", [mk("When", atoms.COND, v[0])], mk("Else", v[1]))
    yield "Case when", 2, lambda v: mk("Case", [mk("When", atoms.COND, v[0]), mk("When", atoms.COND, v[1])])
    yield "Case value", 2, lambda v: mk("Case", [mk("When", v[1], v[0])], mk("Else", v[0]), v[1])
    yield "Subscript", 1, lambda v: mk("Subscript", v[0], lit(1))
    yield "scalar query", 1, lambda v: mk("Add", mk("SelectQuery", [v[0]]), v[0])
    yield "union", 2, lambda v: mk("UnionQuery", mk("SelectQuery", [v[0]]), mk("SelectQuery", [v[1]]), "ALL")
    yield "except rows", 2, lambda v: mk("ExceptQuery", mk("SelectQuery", [v[0], v[1]]), mk("SelectQuery", [v[1], v[1]]))
    yield "intersect widths", 2, lambda v: mk("IntersectQuery", mk("SelectQuery", [v[0], v[1]]), mk("SelectQuery", [v[1]]))
    yield "values", 2, lambda v: mk("ValuesQuery", v)
    yield "values rows", 2, lambda v: mk("ValuesQuery", [mk("RowConstructor", [v[0], v[1]]), mk("RowConstructor", [v[1], v[1]])])
    yield "select", 2, lambda v: mk("SelectQuery", [mk("AliasedValue", v[0], "x"), v[1]])
    for name, (c, _, roles) in sorted(S.FUNCS.items()):
        for role in roles:
            if role and not role[0].startswith("*"):
                yield f"{name}/{len(role)}", min(2, len(role)), lambda v, c=c, role=role: mk(c, **{r: v[i % len(v)] for i, r in enumerate(role)})
    yield "LISTAGG", 1, lambda v: mk("ListAgg", v[0], ",", orderby=[mk("OrderTerm", v[0])])
    yield "NORMALIZE", 1, lambda v: mk("Normalize", v[0])
    yield "SUM OVER", 1, lambda v: mk("Sum", v[0], window=mk("Window", partitions=[v[0]]), filter_=v[0])


def operator_cases(tier):
    out = []
    for label, n, make in operators():
        many = n == 2 and "/" not in label
        for i, t in enumerate(OPERANDS):
            others = OPERANDS if many else [LEAVES[(i * 7 + k * 11) % len(LEAVES)] for k in range(3)] + [None]
            if n == 1:
                others = [t]
            for j, u in enumerate(others):
                if tier == "quick" and many and i != j and t and u and (i * 3 + j * 5 + len(label)) % 3:
                    continue
                ts = [t, u]
                def f(make=make, ts=ts):
                    tree = make([cast(x, c) for x, c in zip(ts, "ab")])
                    from_python(make, ts)
                    return one(tree, "query" if tree.t in L.QUERIES else "expr")
                out.append((f"{label} {ts}", f))
    return out


TEXTS = [("1", "INTEGER"), ("2147483647", "INTEGER"), ("2147483648", "BIGINT"), ("-2147483648", "INTEGER"), ("-2147483649", "BIGINT"), ("1.5", "DECIMAL(2,1)"), ("-0.25", "DECIMAL(3,2)"), ("1E0", "DOUBLE"),
         ("'abc'", "VARCHAR(3)"), ("''", "VARCHAR(0)"), ("NULL", "UNKNOWN"), ("TRUE", "BOOLEAN"), ("DATE '2020-01-01'", "DATE"), ("TIME '01:02:03'", "TIME(0)"),
         ("TIMESTAMP '2020-01-01 01:02:03.123'", "TIMESTAMP(3)"), ("DECIMAL '12.345'", "DECIMAL(5,3)"), ("CHAR 'abc'", "CHAR(3)"), ("BIGINT '5'", "BIGINT"), ("DOUBLE PRECISION '5'", "DOUBLE"),
         ("INTERVAL '1' DAY", "INTERVAL DAY TO SECOND"), ("INTERVAL '1' HOUR TO SECOND", "INTERVAL DAY TO SECOND"), ("INTERVAL '1' MONTH", "INTERVAL YEAR TO MONTH"), ("1 + 1", "INTEGER"),
         ("1 + 2147483648", "BIGINT"), ("1 + 1.5", "DECIMAL(11,1)"), ("1.5 * 10.25", "DECIMAL(4,2)"), ("1 / 2E0", "DOUBLE"), ("1 = 1", "BOOLEAN"), ("NOT a", "BOOLEAN"), ("a IS NULL", "BOOLEAN"),
         ("a BETWEEN 1 AND 2", "BOOLEAN"), ("a IN (1)", "BOOLEAN"), ("a LIKE 'x'", "BOOLEAN"), ("a AND b", "BOOLEAN"), ("DATE '2020-01-01' - DATE '2020-01-02'", "INTERVAL DAY TO SECOND"),
         ("CURRENT_DATE - TIMESTAMP '2020-01-01 00:00:00'", "INTERVAL DAY TO SECOND"), ("CURRENT_TIME - CURRENT_TIME(6)", "INTERVAL DAY TO SECOND"), ("CURRENT_TIME", "TIME(3)"),
         ("CURRENT_TIMESTAMP(6)", "TIMESTAMP(6)"), ("CAST(a AS ARRAY(DATE))", "ARRAY(DATE)"), ("TRY_CAST(a AS DECIMAL(5,2))", "DECIMAL(5,2)"), ("ARRAY[1, 2.5]", "ARRAY(DECIMAL(11,1))"), ("ROW(1, 'a')", "ROW(INTEGER, VARCHAR(1))"),
         ("'a' || 'bc'", "VARCHAR"), ("ARRAY[1] || 2147483648", "ARRAY(BIGINT)"), ("COUNT(*)", "BIGINT"), ("SUM(1.5)", "DECIMAL(2,1)"), ("AVG(1)", "DOUBLE"), ("ARRAY_AGG('ab')", "ARRAY(VARCHAR(2))"),
         ("MAP_AGG(1, 'ab')", "MAP(INTEGER, VARCHAR(2))"), ("HISTOGRAM(1)", "MAP(INTEGER, BIGINT)"), ("MAX(1)", "INTEGER"), ("MAX(1, 2)", "ARRAY(INTEGER)"), ("MIN_BY('a', b)", "VARCHAR(1)"), ("MIN_BY('a', b, 2)", "ARRAY(VARCHAR(1))"),
         ("COALESCE(NULL, 1, 2.5)", "DECIMAL(11,1)"), ("IF(a, 1, 2147483648)", "BIGINT"), ("CASE WHEN a THEN 1 ELSE 1E0 END", "DOUBLE"), ("NULLIF(1, 2.5)", "INTEGER"), ("TRY(1)", "INTEGER"), ("LENGTH(a)", "BIGINT"),
         ("LOWER(a)", "VARCHAR"), ("NOW()", "TIMESTAMP(3) WITH TIME ZONE"), ("DATE_TRUNC('day', DATE '2020-01-01')", "DATE"), ("DATE_ADD('day', 1, TIMESTAMP '2020-01-01 00:00:00')", "TIMESTAMP(0)"), ("DATE_DIFF('day', a, b)", "BIGINT"),
         ("POWER(1, 2)", "DOUBLE"), ("TO_UTF8('a')", "VARBINARY"), ("LISTAGG(a, ',') WITHIN GROUP (ORDER BY b)", "VARCHAR"), ("(SELECT 1)", "INTEGER"), ("(SELECT 1, 2.5)", "ROW(INTEGER, DECIMAL(2,1))"),
         ("(VALUES 1, 2.5)", "DECIMAL(11,1)"), ("(SELECT 1 UNION SELECT 2.5)", "DECIMAL(11,1)"), ("-1.50", "DECIMAL(3,2)"), ("- a", "UNKNOWN"), ("a", "UNKNOWN"), ("a[1]", "UNKNOWN")]


def enumerated(tier):
    out = []
    for text, t in TEXTS:
        def f(text=text, t=t):
            got, want = sut.canon_type(sut.parse_expr(text).data_type), sut.canon_type(sut.parse_type(t))
            require(got == want, lambda: f"{text!r} has the type {got} instead of {want}")
            return Out(sample=f"{text} : {t}")
        out.append((text, f))
    out += tree_cases(lambda t, k: types(t, k)[0], every_pair=1 if tier == "thorough" else 5, extended=1 if tier == "thorough" else 3, keep=lambda t: t.t != "DataType")
    return out + operator_cases(tier)


def retyped(src, tree):
    """Some columns get a type: as a cast, so that text can say it."""
    def fn(n):
        if n.t == "Field" and n.table is None and src.chance(1, 3):
            return mk("Cast", n, src.pick(LEAVES))
        return n
    return S.rewrite(tree, fn)


def ok_tree(tree):
    try:
        T.check(tree)
        return True
    except T.NoType:
        return False


def case(src):
    g = Gen(src, size=src.pick([3, 6, 12, 24]))
    if src.chance(1, 3):
        tree, kind = g.whole_query(src.pick([1, 2, 3])), "query"
    else:
        tree, kind = g.whole_expr(), "expr"
    if src.choose(2):
        t = retyped(src, tree)
        if t != tree:
            from ..gen import settle
            tree = settle(t)
    text, ok = types(tree, kind, src)
    return Out(sample=text, nontrivial=known(tree), labels=["typed" if ok else "refused"])
