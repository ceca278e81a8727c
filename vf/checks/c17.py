"""C17: resolving a query adds types to it and changes nothing else, neither in the query nor in the supplied schema."""
from ..common import *
from ..gen import settle
from ..spec import lit, mk
from . import c16

PROPERTY = "C17"
RULE = "the query has a FROM clause, or more than one query in it; distinct by query and supplied schema"
ASSUMPTIONS = [TYPED, "a query is resolved again with the same supplied schema; a table remembers the columns it was last resolved to, so other schemas may add to what is known, and an object shared between places holds no table"]
COUNTS = {"quick": 14000, "thorough": 300000}
dt = S.dt
F = atoms.F


def snapshot(schema):
    """Everything in a supplied schema, down to the objects in it."""
    return ([(id(f), f.name, id(f.source), sut.show(f.source), repr(sut.canon_type(f.data_type)), own(f.source)) for f in schema.fields], sorted(schema.relation_ids, key=str), id(schema.fields), id(schema.relation_ids))


def own(table):
    s = getattr(table, "_column_schema", None)
    if s is None:
        return None
    return [(id(f), f.name, repr(sut.canon_type(f.data_type))) for f in s.fields], sorted(s.relation_ids)


def texts(obj):
    return sut.show(obj), sut.show(obj, True, 4)


def outcome(obj, schema):
    """Columns, relations and type, or the kind of refusal."""
    try:
        s = obj.resolve(schema)
    except Exception as e:
        return "refused", type(e).__name__
    return [(f.name, f.source.identifier(), repr(sut.canon_type(f.data_type))) for f in s.fields], sorted(s.relation_ids), repr(sut.canon_type(obj.data_type)) if hasattr(obj, "data_type") else None


def nodes(obj, spec):
    return [(n, o) for n, o in sut.paired(spec, obj)]


def check(spec, tables, obj=None, steps=("first", "again", "third"), others=()):
    if obj is None:
        obj = sut.build(spec)
    before, tree = texts(obj), sut.canon(obj)
    what = c16.describe(obj, tables)
    schema = c16.supply(tables)
    frozen = snapshot(schema)
    parts = [(o, sut.show(o)) for n, o in nodes(obj, tree) if n.t in VALUES_WITH_TEXT][:60]
    results = []
    for i, step in enumerate(steps):
        if step == "print":
            sut.show(obj, True, 3)
            continue
        results.append(outcome(obj, schema if step != "fresh" else c16.supply(tables)))
        after = texts(obj)
        require(after == before, lambda: f"resolving {what} ({step} time) changes its SQL from\n  {before[0]}\nto\n  {after[0]}\n{before[1]}\n{after[1]}" if after[0] == before[0] else f"resolving {what} ({step} time) changes its SQL from\n  {before[0]}\nto\n  {after[0]}")
        now = sut.canon(obj)
        d = S.diff(tree, now)
        require(d is None, lambda: f"resolving {what} ({step} time) changes the tree: {d} (before vs after)")
        require(snapshot(schema) == frozen, lambda: f"resolving {what} ({step} time) changes the supplied schema:\n  {frozen}\n  {snapshot(schema)}")
        for o, text in parts:
            require(sut.show(o) == text, lambda: f"resolving {what} ({step} time) changes the part {text!r} to {sut.show(o)!r}")
        require(results[-1] == results[0], lambda: f"resolving {what} again gives another result:\n  {results[0]}\n  {results[-1]}")
    other = sut.build(spec)
    fresh = outcome(other, schema)
    require(fresh == results[0], lambda: f"the same tree built again resolves differently:\n  {results[0]}\n  {fresh}")
    one = outcome(sut.build_shared(spec, ("Table",)), schema)
    require(one == results[0], lambda: f"the same tree, its equal parts being one object, resolves differently:\n  {results[0]}\n  {one}")
    n = sum(1 for x in S.walk(spec) if x.t in atoms.QUERIES)
    return Out(sample=what, nontrivial=n > 1 or getattr(spec, "from_", None) is not None if spec.t == "SelectQuery" else S.size(spec) > 1, key=what, labels=census(spec) + ["refused" if results[0][0] == "refused" else "resolved"])


VALUES_WITH_TEXT = {"Field", "Star", "AliasedStar", "AliasedValue", "Literal", "Table", "Add", "Sum", "Coalesce", "Cast", "Case", "Unnest", "AliasedRelation", "SelectQuery", "Lambda", "Window", "OrderTerm"}
TABLES = [("t", None, None, (("a", dt("BIGINT")), ("b", dt("VARCHAR")), ("p", dt("BOOLEAN")), ("x", dt("DOUBLE")), ("z", dt("ARRAY", dtype=dt("BIGINT"))))), ("u", None, None, (("a", dt("DATE")), ("c", dt("JSON"))))]


def shared():
    """One supplied schema for several queries, and one value or relation in several queries."""
    m = sut.mod("treeno.relation")
    schema = c16.supply(TABLES)
    frozen = snapshot(schema)
    qs = [sut.build(q) for q in list(c16.queries())[::11] if c16.buildable(q)]
    before = [texts(q) for q in qs]
    firsts = [outcome(q, schema) for q in qs]
    require(snapshot(schema) == frozen, "resolving many queries with one schema changes it")
    for q, b, f in zip(reversed(qs), reversed(before), reversed(firsts)):
        require(outcome(q, schema) == f, lambda: f"{b[0]!r} resolves differently after others were resolved with the same schema")
        require(texts(q) == b, lambda: f"{b[0]!r} became {texts(q)[0]!r}")
    # one Table object and one value in two queries
    for v in (F("a"), mk("Star"), mk("Add", F("a"), lit(1)), mk("AliasedValue", mk("Sum", F("a")), "s")):
        value, table = sut.build(v), sut.build(mk("Table", "t"))
        a, b = m.SelectQuery([value, value], from_=table), m.SelectQuery([value], from_=m.Join(table, m.AliasedRelation(table, "k", ["l", "m", "n", "o", "q"]), sut.build(mk("JoinConfig", "CROSS"))))
        ta, tb, tv = texts(a), texts(b), sut.show(value)
        ra = outcome(a, schema)
        rb = outcome(b, schema)
        require((texts(a), texts(b), sut.show(value), sut.show(table)) == (ta, tb, tv, '"t"'), lambda: f"resolving one of {ta[0]!r}, {tb[0]!r}, which share parts, changes the other to {texts(a)[0]!r}, {texts(b)[0]!r}")
        require(outcome(a, schema) == ra and outcome(b, schema) == rb, lambda: f"{ta[0]!r} resolves differently after {tb[0]!r}")
    return Out(sample=f"{len(qs)} queries with one schema", nontrivial=True)


def enumerated(tier):
    out = [("shared", shared)]
    for i, q in enumerate(c16.queries()):
        if c16.buildable(q):
            k = i % len(c16.CATALOGS)
            for j in {3, k} if tier == "quick" else range(len(c16.CATALOGS)):
                out.append((f"query {i} catalog {j}", lambda q=q, j=j: check(q, c16.CATALOGS[j], steps=("first", "again", "print", "fresh"))))
    for i, r in enumerate(c16.relations()):
        out.append((f"relation {i}", lambda r=r: check(r, c16.CATALOGS[3])))
    # every kind of value in the select list: resolving builds them anew
    for label, tree, kind in list(atoms.all_variations()) + every(atoms.all_pairwise(), 1 if tier == "thorough" else 3) + every(atoms.pairs(), 1 if tier == "thorough" else 2) + every(atoms.extended(), 1 if tier == "thorough" else 3):
        if kind == "query":
            out.append((label, lambda tree=tree: check(tree, TABLES, steps=("first", "again"))))
        elif kind == "expr":
            q = mk("SelectQuery", [tree], from_=mk("Table", "t"))
            if c16.buildable(q):
                out.append((label, lambda q=q: check(q, TABLES, steps=("first", "again"))))
    return out


class Anything(Gen):
    """Queries of all kinds over few names."""

    def name(self):
        return self.s.pick(["a", "b", "p", "x", "z", "t", "u", "c"])


def case(src):
    k = src.choose(3)
    steps = tuple(src.pick(["first", "again", "print", "fresh"]) for _ in range(1 + src.choose(3))) + ("last",)
    if k == 0:
        g = Anything(src, size=src.pick([6, 15, 40]), odd=False)
        spec, tables = settle(g.query(3)), TABLES + c16.catalog(src)[:2]
    else:
        tables = c16.catalog(src)
        g = c16.Queries(src, size=src.pick([4, 8, 16, 30]), odd=False, subqueries=src.chance(1, 3))
        env = c16.R.Env(tuple(tables))
        spec = settle(g.rel(env, 3) if src.chance(1, 8) else g.q(env, 3))
    return check(spec, tables, steps=steps)
