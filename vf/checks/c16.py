"""C16: resolving a query or relation gives each output column its name and type."""
from ..common import *
from ..gen import settle
from ..spec import lit, mk
from .. import refresolve as R
from .c22 import bind

PROPERTY = "C16"
RULE = "the query has a FROM clause and at least one output column, and at least one column or reference has a known type; distinct by query and supplied schema"
ASSUMPTIONS = [TYPED, "subqueries used as values are not resolved: they keep the type they have on their own, and neither do WHERE, GROUP BY, HAVING, ORDER BY and ON get types",
               "a reference in UNNEST is to a relation to its left; a table name in a LATERAL subquery is not also the name of a relation to the left of it", "an unqualified table name belongs to one supplied table"]
COUNTS = {"quick": 20000, "thorough": 300000}
F = atoms.F
dt = S.dt
COLS = ["a", "b", "c", "d", "A", "x y"]
RELS = ["t", "u", "v", "w", "T"]
TYPES = [dt("BIGINT"), dt("INTEGER"), dt("SMALLINT"), dt("VARCHAR"), dt("VARCHAR", max_chars=5), dt("CHAR", max_chars=3), dt("DECIMAL", precision=10, scale=2), dt("DOUBLE"), dt("BOOLEAN"), dt("DATE"), dt("TIMESTAMP", precision=3),
         dt("TIMESTAMP", precision=6, timezone=True), dt("TIME"), dt("VARBINARY"), dt("JSON"), dt("UNKNOWN"), dt("ARRAY", dtype=dt("BIGINT")), dt("ARRAY", dtype=dt("ROW", dtypes=[dt("BIGINT"), dt("VARCHAR")])), dt("MAP", from_dtype=dt("VARCHAR"), to_dtype=dt("DOUBLE")),
         dt("ROW", dtypes=[dt("INTEGER"), dt("DATE")]), dt("ARRAY", dtype=dt("ARRAY", dtype=dt("VARCHAR"))), dt("ARRAY", dtype=dt("MAP", from_dtype=dt("BIGINT"), to_dtype=dt("DATE")))]


# ---- the library's side ---------------------------------------------------------------------------------------
def supply(tables, known=()):
    """A Schema object for table specs (name, schema, catalog, columns)."""
    m = sut.mod("treeno.relation")
    fields, ids = [], set(known)
    for name, schema, catalog, cols in tables:
        t = m.Table(name, schema=schema, catalog=catalog)
        ids.add(name)
        fields += [m.SchemaField(c, t, sut.build_type(ty)) for c, ty in cols]
    return m.Schema(fields, ids)


def columns(schema):
    return [(f.name, sut.canon_type(f.data_type)) for f in schema.fields]


def text_type(t):
    r = L.text_of(t, "type", None)[0]
    return r if len(r) < 200 else r[:200] + "…"


def show_cols(cols):
    return "[" + ", ".join(f"{c[0]}: {text_type(c[1])}" for c in cols) + "]"


def describe(obj, tables):
    return f"{sut.show(obj)!r} with {[(t[0] if t[1] is None else t[:3], show_cols(t[3])) for t in tables]}"


def check_query(spec, tables, obj=None, known=()):
    if obj is None:
        obj = sut.build(spec)
    what = describe(obj, tables)
    env = R.Env(tuple(tables))
    try:
        want, whole, select = R.query_full(spec, env)
    except R.Refused as e:
        refused(obj, tables, what, e, known)
        return Out(sample="refused: " + what, nontrivial=True, key=what, labels=["refused"])
    except R.Unclear:
        return Out(discard=True)
    schema = sut.guard(f"resolving {what}", obj.resolve, supply(tables, known))
    got = columns(schema)
    require([n for n, _ in got] == [n for n, _ in want], lambda: f"the columns of {what} are {[n for n, _ in got]}, should be {[n for n, _ in want]}")
    for (n, g), (_, w) in zip(got, want):
        require(g == w, lambda: f"column {n} of {what} has type {text_type(g)}, should be {text_type(w)}\n  resolved: {show_cols(got)}\n  expected: {show_cols(want)}")
    require(all(f.source is obj for f in schema.fields), lambda: f"a column of {what} has another source than the query")
    require(not schema.relation_ids, lambda: f"the columns of {what} can be qualified by {schema.relation_ids}")
    g = sut.canon_type(obj.data_type)
    require(g == whole, lambda: f"{what} has type {text_type(g)}, should be {text_type(whole)}")
    if select is not None:
        for v, o in zip(select, obj.select):
            check_values(v, o, what)
    known_types = sum(w.name != "UNKNOWN" for _, w in want)
    labels = census(spec) + [f"columns {min(len(want), 6)}", f"known types {min(known_types, 4)}", f"supplied {min(len(tables), 4)}"]
    return Out(sample=what + " -> " + show_cols(want), nontrivial=known_types > 0 and (S.size(spec) > 2), key=what, labels=labels)


def check_values(v, o, what):
    """Every value of the select list, at every depth."""
    for n, x in sut.paired(v, o):
        if n.t in T.NOT_VALUES or n.t == "DataType" or not hasattr(x, "data_type"):
            continue
        if n.t in R.S_QUERIES or any(c is n for q in subqueries(v) for c in S.walk(q)):
            continue
        w, g = T.typeof(n), sut.canon_type(x.data_type)
        require(g == w, lambda: f"in {what}, {S.short(n, 120)} has type {text_type(g)}, should be {text_type(w)}")


def subqueries(v):
    return [n for n in S.walk(v) if n.t in R.S_QUERIES]


def check_relation(spec, tables):
    """A relation on its own: also where its columns come from."""
    obj = sut.build(spec)
    what = describe(obj, tables)
    try:
        want = R.relation(spec, R.Env(tuple(tables)))
    except R.Refused as e:
        refused(obj, tables, what, e)
        return Out(sample="refused: " + what, nontrivial=True, key=what, labels=["refused"])
    except R.Unclear:
        return Out(discard=True)
    schema = sut.guard(f"resolving {what}", obj.resolve, supply(tables))
    got = [(f.name, sut.canon_type(f.data_type), f.source.identifier()) for f in schema.fields]
    exp = [(c.name, c.type, c.rel) for c in want.cols]
    require(got == exp, lambda: f"the columns of {what} are\n  {[(a, text_type(b), c) for a, b, c in got]}, should be\n  {[(a, text_type(b), c) for a, b, c in exp]}")
    require(schema.relation_ids == set(want.ids), lambda: f"the relations in {what} are {schema.relation_ids}, should be {set(want.ids)}")
    return Out(sample=what + " -> " + show_cols([(c.name, c.type) for c in want.cols]), nontrivial=any(c.type.name != "UNKNOWN" for c in want.cols), key=what, labels=census(spec) + ["relation"])


def refused(obj, tables, what, why, known=()):
    try:
        schema = obj.resolve(supply(tables, known))
    except Exception:
        return
    fail(f"{what} is resolved to {show_cols(columns(schema))}, although it should be refused: {why}")


# ---- systematic queries ---------------------------------------------------------------------------------------
T1 = ("t", None, None, (("a", dt("BIGINT")), ("b", dt("VARCHAR"))))
U1 = ("u", None, None, (("a", dt("DOUBLE")), ("c", dt("DATE"))))
ST = ("t", "s", None, (("a", dt("DATE")),))
CST = ("t", "s", "c", (("a", dt("BOOLEAN")), ("e", dt("JSON"))))
ARR = ("w", None, None, (("arr", dt("ARRAY", dtype=dt("BIGINT"))), ("rows", dt("ARRAY", dtype=dt("ROW", dtypes=[dt("DATE"), dt("JSON")]))), ("m", dt("MAP", from_dtype=dt("VARCHAR"), to_dtype=dt("DOUBLE"))), ("n", dt("BIGINT"))))
tab = lambda n, s=None, c=None: mk("Table", n, s, c)
STAR = mk("Star")


def sel(*vals, **kw):
    return mk("SelectQuery", list(vals), **kw)


def join(l, r, kind="INNER", on=None, using=None, natural=False):
    if kind == "CROSS":
        return mk("Join", l, r, mk("JoinConfig", "CROSS"))
    crit = None if natural else mk("JoinUsingCriteria", using) if using else mk("JoinOnCriteria", on if on is not None else mk("Equal", F("a", "t"), F("a", "u")))
    return mk("Join", l, r, mk("JoinConfig", kind, natural, crit))


def al(r, name, cols=None):
    return mk("AliasedRelation", r, name, cols)


def relations():
    t, u, x = tab("t"), tab("u"), tab("zz")
    ints = mk("Array", [lit(1)])
    vals = mk("ValuesQuery", [mk("RowConstructor", [lit(1), lit("x")]), mk("RowConstructor", [lit(99999999999), lit("xyz")])])
    yield from [t, u, x, tab("t", "s"), tab("t", "r"), tab("t", "s", "c"), tab("t", "s", "k"), al(t, "p"), al(t, "p", ["q", "r"]), al(t, "p", ["q"]), al(t, "p", ["q", "r", "s"]), al(x, "p"), al(x, "p", ["q", "r"]), al(al(t, "p"), "q"), al(t, "u"), al(u, "t")]
    for kind in ("INNER", "LEFT", "RIGHT", "OUTER"):
        yield from [join(t, u, kind), join(t, u, kind, using=["a"]), join(t, u, kind, natural=True), join(t, x, kind, using=["a"]), join(x, t, kind, using=["a", "zz"])]
    yield from [join(t, t, "CROSS"), join(t, t, using=["a"]), join(t, t, natural=True), join(t, al(t, "p"), "CROSS"), join(al(t, "p"), al(t, "q"), using=["b"]), join(al(t, "p"), al(t, "q"), using=["b", "a"]), join(t, u, "CROSS"), join(t, x, "CROSS"), join(x, t, "CROSS"),
                join(join(t, u, "CROSS"), al(t, "p"), using=["c"]), join(join(t, u, "CROSS"), al(t, "p"), using=["a"]), join(join(t, u, using=["a"]), al(u, "p"), using=["a"]), join(join(t, u, using=["a"]), al(u, "p"), using=["c"]), join(t, join(u, al(t, "p"), using=["a"]), using=["a"]),
                join(join(t, u, "CROSS"), al(t, "p"), natural=True), join(x, tab("yy"), natural=True), join(x, tab("yy"), using=["k"]), al(join(t, u, using=["a"]), "j"), al(join(t, u, "CROSS"), "j", ["k", "l", "m", "n"]), al(join(t, x, "CROSS"), "j", ["k", "l", "m"]),
                join(tab("t", "s"), u, using=["a"])]
    for arrs in ([ints], [ints, mk("Array", [lit("x")])], [mk("Array", [mk("RowConstructor", [lit(1), lit("x")])])], [mk("Array", [mk("RowConstructor", [lit(1)])]), ints], [mk("MapAgg", lit("k"), lit(1.5))], [lit(None)], [mk("Array", [mk("Array", [lit(1)])])], [lit(1)]):
        for o in (False, True):
            un = mk("Unnest", arrs, with_ordinality=o)
            yield from [un, al(un, "n"), al(un, "n", ["p"]), al(un, "n", ["p", "q"]), al(un, "n", ["p", "q", "r"]), join(t, un, "CROSS")]
    w = tab("w")
    for arrs in ([F("arr")], [F("arr", "w")], [F("rows")], [F("m")], [F("arr"), F("rows"), F("m")], [F("n")], [F("arr", "t")], [F("zz")], [mk("Concatenate", [F("arr"), ints])], [mk("Subscript", F("rows"), lit(1))]):
        for o in (False, True):
            un = mk("Unnest", arrs, with_ordinality=o)
            yield from [join(w, un, "CROSS"), join(w, al(un, "n"), "CROSS"), join(join(t, w, "CROSS"), un, "CROSS"), join(join(w, al(un, "n", ["p", "q"]), "CROSS"), mk("Unnest", [F("p", "n"), F("arr", "w")]), "CROSS"), join(w, mk("TableSample", al(un, "n"), "SYSTEM", lit(5)), "CROSS")]
    for r in (t, al(t, "p"), join(t, u, "CROSS"), sel(STAR, from_=t), vals):
        yield mk("TableSample", r, "BERNOULLI", lit(10))
    for q in (sel(STAR, from_=t), sel(F("a"), F("b"), from_=t), sel(lit(1)), vals, mk("TableQuery", t), mk("TableQuery", x), sel(STAR, from_=x)):
        yield from [mk("Lateral", q), al(mk("Lateral", q), "p"), join(u, mk("Lateral", q), "CROSS"), join(u, al(mk("Lateral", q), "p", ["k", "l"]), "CROSS"), q, al(q, "p"), al(q, "p", ["k"]), al(q, "p", ["k", "l"]), join(u, q, "CROSS"), join(u, al(q, "p"), using=["a"]), join(q, u, natural=True)]
    # lateral: UNNEST of a column of the relation to the left
    yield from [join(w, mk("Lateral", sel(STAR, from_=mk("Unnest", [F("arr", "w")]))), "CROSS"), join(al(w, "p"), mk("Lateral", sel(STAR, from_=mk("Unnest", [F("rows", "p"), F("m", "p")], with_ordinality=True))), "CROSS"),
                join(w, mk("Lateral", sel(STAR, from_=mk("Unnest", [F("arr", "t")]))), "CROSS") if False else join(w, mk("Lateral", sel(F("b"), from_=t)), "CROSS")]


def queries():
    t, u, x = tab("t"), tab("u"), tab("zz")
    lists = [[STAR], [mk("Star", "t")], [mk("Star", "u")], [mk("Star", "t"), mk("Star", "u")], [F("a")], [F("a", "t")], [F("a", "u")], [F("b"), F("c")], [F("b", "u")], [F("zz")], [F("A")], [mk("AliasedValue", F("b"), "a"), F("b")], [mk("Add", F("a", "t"), lit(1))], [mk("AliasedValue", mk("Sum", F("a", "t")), "s")],
             [STAR, F("b")], [mk("AliasedStar", mk("Star", "t"), ["k", "l"])], [mk("AliasedStar", mk("Star", "t"), ["k"])], [mk("AliasedStar", mk("Star", "p"), ["k", "l", "m"])], [mk("Star", "p")], [F("a", "p")], [mk("Coalesce", [F("b"), lit("x")])], [mk("RowConstructor", [F("a", "t"), F("b")])],
             [mk("Case", [mk("When", F("z"), F("a", "t"))], mk("Else", F("a", "u")))], [mk("Array", [F("a", "t"), F("a", "u")])], [mk("Cast", F("b"), dt("DATE")), F("b")], [sel(F("a"), from_=t)], [mk("Field", "f", mk("Subscript", F("b"), lit(1)))], [lit(1), lit("x")], [mk("Max", F("c"), lit(2))],
             [mk("Count", STAR)], [mk("Try", mk("Lambda", [mk("Variable", "q")], mk("Add", F("a", "t"), mk("Variable", "q"))))], [mk("InQuery", F("a", "t"), sel(F("a"), from_=u))]]
    froms = [None, t, u, x, join(t, u), join(t, u, using=["a"]), join(t, u, natural=True), join(t, x), join(al(t, "p"), u, "CROSS"), al(t, "p", ["k", "l"]), al(t, "u"), join(al(u, "t"), al(t, "u"), "CROSS"), sel(STAR, from_=t), al(sel(STAR, from_=join(t, u, "CROSS")), "p"), al(sel(F("b"), mk("AliasedValue", F("a"), "c"), from_=t), "t"),
             join(t, t, "CROSS"), mk("TableSample", t, "SYSTEM", lit(5)), tab("t", "s"), join(tab("t", "s"), u)]
    for f in froms:
        for l in lists:
            if f is None and any(v.t in ("Star", "AliasedStar") for v in l):
                continue
            yield sel(*l, from_=f)
    for r in relations():
        yield sel(STAR, from_=r)
    # WITH
    c = lambda q, n, cols=None: al(q, n, cols)
    one = sel(mk("AliasedValue", lit(1), "k"), mk("AliasedValue", lit("x"), "l"))
    for ws in ([c(one, "t")], [c(one, "c")], [c(one, "c", ["m", "n"])], [c(one, "c", ["m"])], [c(one, "c"), c(sel(STAR, from_=tab("c")), "t")], [c(sel(STAR, from_=t), "t")], [c(mk("TableQuery", t), "c")], [c(sel(F("b"), from_=t), "t"), c(sel(STAR, from_=tab("t")), "u")], [c(sel(STAR, from_=tab("u")), "t"), c(one, "u")],
               [c(sel(STAR, from_=x), "c")], [c(sel(STAR, from_=tab("c"), with_=[c(one, "c")]), "t")], [c(one, "t"), c(mk("TableQuery", t), "t")]):
        for main in (sel(STAR, from_=t), sel(STAR, from_=tab("c")), sel(STAR, from_=tab("t", "s")), mk("TableQuery", t), mk("TableQuery", tab("c")), sel(F("k"), F("l", "t"), F("a"), from_=t), sel(STAR, from_=join(t, tab("c"), "CROSS")), sel(STAR, from_=al(t, "c")), sel(mk("Star", "t"), from_=join(u, t, "CROSS")),
                     sel(STAR, from_=sel(STAR, from_=t)), sel(STAR, from_=sel(STAR, from_=t, with_=[c(sel(lit(1.5), from_=u), "t")])), mk("UnionQuery", sel(STAR, from_=t), sel(STAR, from_=t)), sel(STAR, from_=mk("Lateral", sel(STAR, from_=t))), mk("ValuesQuery", [lit(1)]), mk("TableQuery", tab("t", "s")), sel(sel(F("k"), from_=t), from_=t),
                     sel(STAR, from_=join(u, mk("Lateral", sel(STAR, from_=t)), "CROSS"))):
            yield main.put(with_=tuple(ws))
    # set operations
    sides = [sel(F("a"), from_=t), sel(F("a"), from_=u), sel(STAR, from_=t), sel(STAR, from_=u), sel(STAR, from_=x), sel(lit(1)), sel(mk("AliasedValue", lit(1.5), "z")), sel(lit(None)), sel(lit(1), lit("x")), mk("ValuesQuery", [lit(1)]), mk("ValuesQuery", [mk("RowConstructor", [lit(1), lit("yy")])]), mk("TableQuery", t), mk("TableQuery", x), sel(F("b"), F("a"), from_=t),
             sel(mk("AliasedStar", mk("Star", "t"), ["k", "l"]), from_=t), mk("UnionQuery", sel(F("a"), from_=t), sel(lit(1)))]
    for i, a in enumerate(sides):
        for j, b in enumerate(sides):
            q = mk(["UnionQuery", "IntersectQuery", "ExceptQuery"][(i + j) % 3], a, b)
            yield q
            if (i + j) % 3 == 0:
                yield sel(STAR, from_=al(q, "p"))


CATALOGS = [[], [T1], [T1, U1], [T1, U1, ARR], [ST, U1, ARR], [CST, U1], [("t", None, None, ()), U1]]


def buildable(spec):
    try:
        T.check(spec)
        return True
    except T.NoType:
        return False


def retype(spec, pick):
    """The query, some of whose columns are made with a type of their own."""
    def one(n):
        t = pick(n) if n.t == "Field" and not isinstance(n.table, S.N) and "_dtype" not in n.d else None
        return n.put(_dtype=t) if t else n
    return S.rewrite(spec, one)


def enumerated(tier):
    out = []
    for i, q in enumerate(queries()):
        if not buildable(q):
            continue
        cats = range(len(CATALOGS)) if tier == "thorough" else sorted({3, i % len(CATALOGS)})
        for k in cats:
            out.append((f"query {i} catalog {k}", lambda q=q, k=k: check_query(q, CATALOGS[k])))
        ty = TYPES[i % len(TYPES)]
        given = retype(q, lambda n: ty)
        if given != q and buildable(given):
            out.append((f"query {i} with types", lambda q=given, k=i % len(CATALOGS): check_query(q, CATALOGS[k])))
        if i % 7 == 0:
            out.append((f"query {i} parsed", lambda q=q: check_query(q, CATALOGS[3], sut.parse_query(L.text_of(q, "query", None)[0]))))
    for i, r in enumerate(relations()):
        for k in (range(len(CATALOGS)) if tier == "thorough" else sorted({3, i % len(CATALOGS)})):
            out.append((f"relation {i} catalog {k}", lambda r=r, k=k: check_relation(r, CATALOGS[k])))
    for i, ty in enumerate(list(atoms.TYPES)):
        for k, (v, f) in enumerate([(F("k"), tab("t")), (F("k", "t"), tab("t")), (F("l"), al(tab("t"), "p", ["l"])), (STAR, sel(STAR, from_=tab("t"))), (mk("RowConstructor", [F("k")]), tab("t")), (mk("ArrayAgg", F("k")), tab("t"))]):
            out.append((f"type {i} {k}", lambda ty=ty, v=v, f=f: check_query(sel(v, from_=f), [("t", None, None, (("k", ty),))])))
        out.append((f"type {i} unnest", lambda ty=ty: check_query(sel(STAR, from_=join(tab("t"), mk("Unnest", [F("k")], with_ordinality=True), "CROSS")), [("t", None, None, (("k", ty),))])))
        out.append((f"type {i} unnest of array", lambda ty=ty: check_query(sel(STAR, from_=join(tab("t"), mk("Unnest", [F("k")]), "CROSS")), [("t", None, None, (("k", dt("ARRAY", dtype=ty)),))])))
    return out


# ---- generated queries ----------------------------------------------------------------------------------------
class Queries(Gen):
    """References are drawn from what the reference model says is in scope."""

    cols = ()

    def name(self):
        return self.s.pick(COLS)

    def field(self):
        s = self.s
        named = [c for c in self.cols if c.name is not None]
        if named and not s.chance(1, 8):
            c = s.pick(named)
            same = [k for k in named if k.name == c.name]
            if c.rel is not None and (len(same) > 1 and not s.chance(1, 12) or s.chance(1, 2)):
                return mk("Field", c.name, c.rel)
            return mk("Field", c.name)
        return mk("Field", self.name(), s.pick(RELS) if s.chance(1, 2) else None)

    def subquery(self, d):
        return sel(self.field(), from_=tab(self.s.pick(RELS)))

    def scope_of(self, rel, env, left=R.EMPTY):
        try:
            return R.relation(rel, env, left)
        except (R.Refused, R.Unclear, T.NoType):
            return R.EMPTY

    def value(self, scope, d=2):
        old, self.cols = self.cols, scope.cols
        try:
            v = self.expr("any", self.s.choose(d + 1)) if self.s.chance(2, 3) else self.field()
        finally:
            self.cols = old
        return v

    def table_ref(self, env):
        s = self.s
        if s.chance(3, 5) and (env.tables or env.ctes):
            names = [tab(t[0], t[1], t[2]) for t in env.tables] + [tab(n) for n in env.ctes] * 2
            r = s.pick(names)
            return r if s.chance(1, 2) else tab(r.name)
        return tab(s.pick(RELS), s.pick([None, None, None, "s", "r"]))

    def rel_name(self):
        return self.s.pick(RELS + ["p", "q"])

    def rel(self, env, d, left=R.EMPTY):
        s = self.s
        k = s.choose(14) if d > 0 else s.choose(5)
        if k <= 2:
            return self.table_ref(env)
        if k <= 4:
            return self.aliased(self.table_ref(env), env, left)
        if k <= 8:
            return self.joined(env, d, left)
        if k == 9:
            return mk("Unnest", [s.pick([mk("Array", [lit(1), lit(2)]), mk("Array", [mk("RowConstructor", [lit(1), lit("x")])]), mk("MapAgg", lit("k"), lit(1)), lit(None)]) for _ in range(1 + s.choose(2))], with_ordinality=s.chance(1, 3))
        if k == 10:
            r = self.rel(env, d - 1, left)
            return mk("TableSample", r, s.pick(["BERNOULLI", "SYSTEM"]), lit(10))
        q = self.q(env, d - 1)
        return self.aliased(q, env, left) if s.chance(3, 5) else q

    def aliased(self, r, env, left):
        s = self.s
        cols = None
        if s.chance(2, 5):
            n = len(self.scope_of(r, env, left).cols) or 1 + s.choose(3)
            n = n if s.chance(5, 6) else 1 + s.choose(4)
            cols = [s.pick(COLS + ["k", "l", "m"]) + (str(i) if s.chance(3, 4) else "") for i in range(n)]
        return al(r, self.rel_name(), cols)

    def joined(self, env, d, left):
        s = self.s
        l = self.rel(env, d - 1, left)
        ls = self.scope_of(l, env, left)
        k = s.choose(8)
        if k == 0 and ls.cols:      # UNNEST of what stands to the left
            arrs = [c for c in ls.cols if c.name is not None and c.type.name in ("ARRAY", "MAP")] or [c for c in ls.cols if c.name is not None]
            vals = [self.ref(s.pick(arrs), ls) for _ in range(1 + s.choose(2))] if arrs else [self.value(ls)]
            r = mk("Unnest", vals, with_ordinality=s.chance(1, 3))
            if s.chance(1, 2):
                r = al(r, self.rel_name(), [f"n{i}" for i in range(1 + s.choose(3))] if s.chance(1, 2) else None)
            if s.chance(1, 8):
                r = mk("TableSample", r, "SYSTEM", lit(3))
            return mk("Join", l, r, mk("JoinConfig", "CROSS"))
        if k == 1:
            r = mk("Lateral", self.q(env.beside(ls.ids), d - 1))
            if s.chance(1, 2):
                r = al(r, self.rel_name())
        elif k == 2:
            arrs = [c for c in ls.cols if c.name is not None and c.rel in ls.ids and c.type.name in ("ARRAY", "MAP")]
            r = mk("Lateral", sel(STAR, from_=mk("Unnest", [F(c.name, c.rel) for c in arrs[:2]]))) if arrs else self.rel(env, d - 1, left)
        else:
            r = self.rel(env, d - 1, left)
        rs = self.scope_of(r, env, left)
        kind = s.pick(["INNER", "LEFT", "RIGHT", "OUTER"])
        k = s.choose(6)
        if k <= 1:
            return join(l, r, "CROSS")
        common = [c.name for c in ls.cols if c.name is not None and any(x.name == c.name for x in rs.cols)]
        if k == 2:
            return join(l, r, kind, natural=True)
        if k <= 4 and (common or s.chance(1, 3)):
            pool = list(dict.fromkeys(common)) or [self.name()]
            if s.chance(1, 8):
                pool.append("zz")
            names = list(dict.fromkeys(s.pick(pool) for _ in range(1 + s.choose(2))))
            return join(l, r, kind, using=names)
        return join(l, r, kind, on=lit(True))

    def ref(self, c, scope):
        return F(c.name, c.rel if c.rel is not None and self.s.chance(1, 2) else None)

    def q(self, env, d):
        s = self.s
        ws = []
        if d > 0 and s.chance(1, 3):
            for _ in range(1 + s.choose(2)):
                w = self.q(env, d - 1)
                n = None
                cols = R.EMPTY.cols
                w = self.aliased(w, env, R.EMPTY).put(alias=s.pick(RELS + ["c"]))
                cols = self.scope_of(w, env).cols
                env = env.with_cte(w.alias, tuple((c.name, c.type) for c in cols))
                ws.append(w)
        k = s.choose(12)
        if k == 0:
            q = mk("TableQuery", self.table_ref(env))
        elif k == 1:
            q = self.values()
        elif k <= 3 and d > 0:
            q = self.setop(env, d)
        else:
            q = self.select_(env, d)
        if ws:
            q = q.put(with_=tuple(ws) + tuple(q.with_ or ()))
        if s.chance(1, 10):
            q = q.put(limit=3)
        return q

    def values(self):
        s = self.s
        makers = [s.pick([lambda: lit(s.choose(9)), lambda: lit("x" * s.choose(4)), lambda: lit(s.pick([1, 99999999999])), lambda: lit(None), lambda: mk("Array", [lit(1)])]) for _ in range(1 + s.choose(3))]
        rows = [[m() for m in makers] for _ in range(1 + s.choose(3))]
        if len(makers) == 1 and s.chance(1, 2):
            return mk("ValuesQuery", [r[0] for r in rows])
        return mk("ValuesQuery", [mk("RowConstructor", r) for r in rows])

    def setop(self, env, d):
        s = self.s
        a = self.q(env, d - 1).put(with_=None)
        try:
            cols = R.query(a, env)
        except (R.Refused, R.Unclear, T.NoType):
            cols = []
        k = s.choose(4)
        if k == 0 or not cols:
            b = self.q(env, d - 1).put(with_=None)
        elif k == 1:
            b = a
        else:
            b = sel(*[lit(None) if s.chance(1, 4) or not castable(t) else mk("Cast", lit(None), t) for _, t in cols])
        return mk(s.pick(["UnionQuery", "IntersectQuery", "ExceptQuery"]), a, b)

    def select_(self, env, d):
        s = self.s
        f = self.rel(env, d) if not s.chance(1, 12) else None
        scope = self.scope_of(f, env) if f is not None else R.EMPTY
        vals = []
        for _ in range(1 + s.choose(3)):
            k = s.choose(8)
            if k == 0 and f is not None:
                vals.append(STAR)
            elif k == 1 and f is not None:
                vals.append(mk("Star", s.pick(sorted(scope.ids)) if scope.ids and not s.chance(1, 8) else s.pick(RELS)))
            elif k == 2 and f is not None and scope.ids:
                i = s.pick(sorted(scope.ids))
                n = sum(c.rel == i for c in scope.cols) or 1 + s.choose(2)
                vals.append(mk("AliasedStar", mk("Star", i), [f"s{j}" for j in range(n if s.chance(5, 6) else 1 + s.choose(3))]))
            elif k <= 4:
                vals.append(mk("AliasedValue", self.value(scope), s.pick(COLS + ["k"])))
            else:
                vals.append(self.value(scope))
        q = sel(*vals, from_=f)
        if s.chance(1, 8):
            q = q.put(where=self.value(scope))
        if s.chance(1, 8):
            q = q.put(select_quantifier="DISTINCT")
        return q


def castable(t):
    from ..gen import castable as c
    return c(t)


def catalog(s):
    out = []
    for name in RELS + ["t"]:
        if s.chance(1, 2):
            out.append((name, *s.pick([(None, None), (None, None), ("s", None), ("s", "c")]), tuple((c, s.pick(TYPES)) for c in dict.fromkeys(s.pick(COLS) for _ in range(s.choose(5))))))
    return out


def bound(spec):
    return S.rewrite(spec, lambda n: bind(n) if n.t == "Lambda" else n)


def case(src):
    tables = catalog(src)
    g = Queries(src, size=src.pick([4, 8, 16, 30]), odd=False, subqueries=src.chance(1, 4))
    env = R.Env(tuple(tables))
    if src.chance(1, 6):
        spec = bound(settle(g.rel(env, 3)))
        return check_relation(spec, tables)
    spec = bound(settle(g.q(env, 3)))
    if src.chance(1, 5):
        given = retype(spec, lambda n: src.pick(TYPES) if src.chance(1, 3) else None)
        if buildable(given):
            return check_query(given, tables)
    if src.chance(1, 6):
        return check_query(spec, tables, sut.parse_query(L.text_of(spec, "query", src)[0]))
    return check_query(spec, tables)
