"""Single changes of a spec: every one gives a tree that differs from the original in exactly one place."""
from . import atoms
from . import spec as S
from .spec import N, lit, mk, dt

SHAPES = {}
for _t, _fs in S.FIELDS.items():
    SHAPES.setdefault(tuple(_fs), []).append(_t)
OTHER = mk("Field", "zz")
REFERENCE = {"tbl"}


def literal_mutants(n):
    k, v = n.kind, S.lit_value(n)
    if k == "null":
        return [lit(0), lit("NULL"), lit(False)]
    if k == "bool":
        return [lit(not v), lit(int(v)), lit(str(v).lower())]
    if k == "int":
        return [lit(v + 1), lit(-v if v else 2), lit(str(v)), lit(float(v)) if abs(v) < 10 ** 15 else lit("x"), lit(None)]
    if k == "dbl":
        out = [lit(v * 2 if v and abs(v) < 1e300 else 1.5), lit(repr(v))]
        return out + ([lit(int(v))] if v == int(v) else [])
    if k == "dec":
        return [N("Literal", {"kind": "dec", "text": n.text + "0"}), N("Literal", {"kind": "dec", "text": n.text[:-1] + ("1" if n.text[-1] != "1" else "2")}), lit(n.text)]
    return [lit(v + " "), lit(v.swapcase()) if v.swapcase() != v else lit(v + "x"), lit(v[1:]) if v else lit("'"), lit(1), lit(None)]


def type_mutants(t):
    """Types with one parameter changed, at any depth."""
    name, ps = t.name, dict(t.params)
    same = {"DECIMAL": [dict(precision=38, scale=1), dict(precision=37, scale=ps.get("scale", 0) if ps.get("scale", 0) <= 37 else 3)], "VARCHAR": [{}, dict(max_chars=77), dict(max_chars=78)], "CHAR": [dict(max_chars=77), dict(max_chars=78)],
            "TIME": [dict(ps, timezone=not ps.get("timezone")), dict(timezone=ps.get("timezone", False), precision=5), dict(timezone=ps.get("timezone", False))],
            "INTERVAL": [dict(from_interval="YEAR", to_interval="MONTH"), dict(from_interval="DAY", to_interval="SECOND")]}
    same["TIMESTAMP"] = same["TIME"]
    for kw in same.get(name, []):
        yield dt(name, **kw)
    if name in ("TIME", "TIMESTAMP"):
        yield dt({"TIME": "TIMESTAMP", "TIMESTAMP": "TIME"}[name], **ps)
    if name == "CHAR":
        yield dt("VARCHAR", **ps)
    for k, v in ps.items():
        if isinstance(v, N):
            for x in type_mutants(v):
                yield dt(name, **{**ps, k: x})
        elif isinstance(v, tuple):
            for i, y in enumerate(v):
                for x in type_mutants(y):
                    yield dt(name, **{**ps, k: v[:i] + (x,) + v[i + 1:]})
                if len(v) > 1:
                    yield dt(name, **{**ps, k: v[:i] + v[i + 1:]})
                yield dt(name, **{**ps, k: v[:i] + (y, y) + v[i + 1:]})
            for i in range(len(v) - 1):
                yield dt(name, **{**ps, k: v[:i] + (v[i + 1], v[i]) + v[i + 2:]})
    if name == "ARRAY":
        yield dt("QDIGEST", **ps)
        yield dt("ROW", dtypes=(ps["dtype"],))
    if name == "MAP":
        yield dt("MAP", from_dtype=ps["to_dtype"], to_dtype=ps["from_dtype"])
    yield dt("BOOLEAN") if name != "BOOLEAN" else dt("DATE")
    yield dt("ARRAY", dtype=t)


def fixed(t, f):
    """Names out of a fixed list (in which letter case says nothing)."""
    if t == "TypeConstructor" and f == "type_name":
        return ["VARCHAR", "CHAR", "JSON", "DATE"]
    if t == "Interval" and f != "value":
        return ["YEAR", "MONTH", "DAY", "HOUR", "SECOND"]


def texts(v):
    out = [v + "x", v.swapcase(), v[:-1], v + '"', " " + v, v.replace(".", "_")]
    return [x for x in dict.fromkeys(out) if x != v and x]


def shallow(n):
    """Specs that differ from n in one field of n itself (children replaced as a whole count)."""
    if n.t == "DataType":
        for t in type_mutants(n):
            if t != n:
                yield t
        return
    if n.t == "Literal":
        for x in literal_mutants(n):
            if x != n:
                yield x
        return
    t = n.t
    for other in SHAPES[tuple(S.FIELDS[t])]:
        if other != t:
            yield N(other, dict(n.d))
    for f, kind in S.FIELDS[t]:
        v = n.d[f]
        if kind in ("node", "node?"):
            if v is not None:
                for x in swaps(t, f, v):
                    yield n.put(**{f: x})
                if kind == "node?":
                    yield n.put(**{f: None})
            else:
                for x in atoms.node_for(t, f)[:1]:
                    yield n.put(**{f: x})
        elif kind in ("nodes", "nodes?"):
            v = v or ()
            for i, x in enumerate(v):
                yield n.put(**{f: (v[:i] + v[i + 1:]) or (None if kind == "nodes?" else ())})
                yield n.put(**{f: v[:i] + (x, x) + v[i + 1:]})
                if i + 1 < len(v) and v[i] != v[i + 1]:
                    yield n.put(**{f: v[:i] + (v[i + 1], v[i]) + v[i + 2:]})
                for y in swaps(t, f, x):
                    yield n.put(**{f: v[:i] + (y,) + v[i + 1:]})
            for x in atoms.node_for(t, f)[:1]:
                yield n.put(**{f: v + (x,)})
        elif kind == "str":
            for x in fixed(t, f) or texts(v):
                if x != v:
                    yield n.put(**{f: x})
        elif kind == "str?" and v is None:
            yield n.put(**{f: "MONTH" if t == "Interval" else "zz"})
        elif kind == "str?":
            yield n.put(**{f: None})
            for x in fixed(t, f) or texts(v):
                if x != v:
                    yield n.put(**{f: x})
        elif kind in ("strs", "strs?"):
            v = v or ()
            for i, x in enumerate(v):
                yield n.put(**{f: (v[:i] + v[i + 1:]) or (None if kind == "strs?" else ())})
                if i + 1 < len(v) and v[i] != v[i + 1]:
                    yield n.put(**{f: v[:i] + (v[i + 1], v[i]) + v[i + 2:]})
                for y in texts(x)[:3]:
                    yield n.put(**{f: v[:i] + (y,) + v[i + 1:]})
            yield n.put(**{f: v + ("zz",)})
        elif kind in ("int", "int?"):
            for x in (None, 0, 1, 2, 3, (v or 0) + 1):
                if x != v and (x is not None or kind == "int?"):
                    yield n.put(**{f: x})
        elif kind == "bool":
            yield n.put(**{f: not v})
        elif kind.startswith("enum"):
            for x in S.ENUMS[kind.split(":")[1]][1] + ([None] if kind.startswith("enum?") else []):
                if x != v:
                    yield n.put(**{f: x})
        elif kind == "tbl":
            for x in ((None, "zz") if v is not None else ("zz",)):
                if x != v:
                    yield n.put(**{f: x})
            if isinstance(v, str):
                for x in texts(v)[:2]:
                    yield n.put(**{f: x})
        elif kind == "dtype":
            for x in type_mutants(v):
                if x != v:
                    yield n.put(**{f: x})
        elif kind == "wins":
            v = v or ()
            for i, (a, w) in enumerate(v):
                yield n.put(**{f: (v[:i] + v[i + 1:]) or None})
                yield n.put(**{f: v[:i] + ((a + "x", w),) + v[i + 1:]})
                yield n.put(**{f: v[:i] + ((a, w.put(parent_window="zz")),) + v[i + 1:]})
            yield n.put(**{f: v + (("zz_w", mk("Window")),)})


def swaps(t, f, v):
    """Another child for that place."""
    for x in atoms.node_for(t, f):
        if x != v:
            yield x
            break
    if v.t not in atoms.NOT_EXPR and t not in ("AliasedStar", "Lambda") and v.t != "Lambda":
        if v != OTHER:
            yield OTHER
        yield mk("Negative", v)


def positions(n, path=()):
    """Paths of all nodes and of the data types in them."""
    yield path, n
    if n.t in ("Literal", "DataType"):
        return
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if v is None:
            continue
        if kind in ("node", "node?") or kind == "tbl" and isinstance(v, N):
            yield from positions(v, path + (f,))
        elif kind in ("nodes", "nodes?"):
            for i, x in enumerate(v):
                yield from positions(x, path + ((f, i),))
        elif kind == "wins":
            for i, (a, w) in enumerate(v):
                yield from positions(w, path + ((f, i),))


def replace(n, path, new):
    if not path:
        return new
    p = path[0]
    if isinstance(p, tuple):
        f, i = p
        v = n.d[f]
        if S.KIND[n.t][f] == "wins":
            item = (v[i][0], replace(v[i][1], path[1:], new))
        else:
            item = replace(v[i], path[1:], new)
        return n.put(**{f: v[:i] + (item,) + v[i + 1:]})
    return n.put(**{p: replace(n.d[p], path[1:], new)})
