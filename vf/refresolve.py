"""Reference model of schema resolution, over specs.  Shares no code with the library.

A scope is a list of columns and the set of the relation names in it.  The names of the relations are kept apart from the
columns because a relation may be there whose columns nobody knows.
"""
from collections import namedtuple

from . import reftypes as T
from . import spec as S
from .spec import N, dt, tparam, UNKNOWN_T

# name: of the column, or None; rel: the name that can qualify it, or None; table: (name, schema, catalog) when it comes straight from a table; type
Col = namedtuple("Col", "name rel table type")
Scope = namedtuple("Scope", "cols ids")
EMPTY = Scope((), frozenset())


class Refused(Exception):
    """The query can't be resolved: an ambiguous reference, or types which don't go together."""


class Unclear(Exception):
    """What the query means isn't settled by the property."""


class Env:
    """What relation names mean: supplied tables, and the queries of WITH clauses in scope."""

    def __init__(self, tables, ctes=(), unclear=frozenset(), fresh=frozenset()):
        self.tables = tables            # tuple of (name, schema, catalog, ((column, type), …))
        self.ctes = dict(ctes)          # name -> tuple of (column, type)
        self.unclear = unclear          # names of relations to the left of a LATERAL
        self.fresh = fresh              # queries of WITH clauses inside that LATERAL

    def with_cte(self, name, cols):
        return Env(self.tables, {**self.ctes, name: cols}, self.unclear, self.fresh | {name})

    def beside(self, ids):
        return Env(self.tables, self.ctes, self.unclear | ids)

    def lookup(self, n):
        """Columns of a table reference, or None."""
        if n.name in self.unclear and not (n.schema is None and n.name in self.fresh):
            raise Unclear(f"{n.name} in a LATERAL is also a relation to the left of it")
        if n.schema is None and n.name in self.ctes:
            return [Col(c, n.name, None, t) for c, t in self.ctes[n.name]]
        found = [t for t in self.tables if t[0] == n.name and (n.schema is None or t[1] is None or n.schema == t[1]) and (n.catalog is None or t[2] is None or n.catalog == t[2]) and t[3]]
        if len(found) > 1:
            raise Unclear(f"{n.name} is several tables")
        if not found:
            return None
        return [Col(c, n.name, found[0][:3], t) for c, t in found[0][3]]


def row_or_one(types):
    return types[0] if len(types) == 1 else dt("ROW", dtypes=types)


def super_(a, b):
    try:
        return T.supertype(a, b)
    except T.NoType as e:
        raise Refused(str(e))


# ---- values ---------------------------------------------------------------------------------------------------
def star_cols(star, scope):
    """The columns that a star stands for; none when they aren't known."""
    if star.table is not None:
        return [c for c in scope.cols if c.rel == star.table] if isinstance(star.table, str) else []
    known = {c.rel for c in scope.cols}
    return list(scope.cols) if all(i in known for i in scope.ids) else []


def typed(n, scope):
    """The value with the types of the columns it refers to (specs carry them as _dtype)."""
    if n.t in S_QUERIES or n.t in ("Literal", "DataType"):
        return n
    if n.t == "Field":
        if isinstance(n.table, N):
            if n.table.t in S_QUERIES:
                raise Refused("field of a subquery")
            return n.put(table=typed(n.table, scope))
        found = [c for c in scope.cols if c.name == n.name and (n.table is None or c.rel == n.table)]
        if len(found) > 1:
            raise Refused(f"{n.name} is ambiguous")
        return n.put(_dtype=found[0].type) if found else n
    if n.t == "Star":
        if isinstance(n.table, N) and n.table.t in S_QUERIES:
            raise Refused("star of a subquery")
        cols = star_cols(n, scope)
        return n.put(_dtype=dt("ROW", dtypes=[c.type for c in cols])) if cols else n
    d = {}
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if isinstance(v, N):
            v = typed(v, scope)
        elif isinstance(v, tuple) and kind == "wins":
            v = tuple((a, typed(b, scope)) for a, b in v)
        elif isinstance(v, tuple):
            v = tuple(typed(x, scope) if isinstance(x, N) else x for x in v)
        d[f] = v
    out = N(n.t, d)
    if "_dtype" in n.d:
        out = out.put(_dtype=n.d["_dtype"])
    return out


S_QUERIES = {"SelectQuery", "TableQuery", "ValuesQuery", "UnionQuery", "IntersectQuery", "ExceptQuery"}


def type_of(n):
    try:
        T.check(n)
        return T.typeof(n)
    except T.NoType as e:
        raise Refused(str(e))


def name_of(n):
    """The name of an output column without an alias is the one of the column it refers to."""
    if n.t in ("Field", "Variable"):
        return n.name
    if n.t == "AliasedValue":
        return n.alias
    return None


# ---- relations ------------------------------------------------------------------------------------------------
def relation(n, env, left=EMPTY):
    """Scope of a relation; left: what stands to the left of it in its joins, for UNNEST and LATERAL."""
    t = n.t
    if t == "Table":
        cols = env.lookup(n)
        return Scope(tuple(cols or ()), frozenset([n.name]))
    if t == "AliasedRelation":
        inner = relation(n.relation, env, left).cols
        names, types = [c.name for c in inner], [c.type for c in inner]
        if n.column_aliases:
            names = list(n.column_aliases)
            if len(types) != len(names):
                types = [UNKNOWN_T] * len(names)
        return Scope(tuple(Col(a, n.alias, None, b) for a, b in zip(names, types)), frozenset([n.alias]))
    if t == "TableSample":
        return relation(n.relation, env, left)
    if t == "Lateral":
        return relation(n.subquery, env, left)
    if t == "Unnest":
        types = []
        for a in n.arrays:
            ty = type_of(typed(a, left))
            if ty.name == "MAP":
                types += [tparam(ty, "from_dtype"), tparam(ty, "to_dtype")]
            elif ty.name == "ARRAY" and tparam(ty, "dtype").name == "ROW":
                types += list(tparam(tparam(ty, "dtype"), "dtypes"))
            elif ty.name == "ARRAY":
                types.append(tparam(ty, "dtype"))
            else:
                types.append(UNKNOWN_T)
        if n.with_ordinality:
            types.append(dt("BIGINT"))
        return Scope(tuple(Col(None, None, None, x) for x in types), frozenset())
    if t == "Join":
        return join(n, env, left)
    if t in S_QUERIES:
        return Scope(tuple(Col(a, None, None, b) for a, b in query(n, env, left)), frozenset())
    raise AssertionError(t)


def join(n, env, outer):
    l = relation(n.left_relation, env, outer)
    right = n.right_relation
    while right.t in ("AliasedRelation", "TableSample"):
        right = right.relation
    if right.t == "Unnest":
        r = relation(n.right_relation, env, l)
    elif right.t == "Lateral":
        # other relations to the left hide those of outer queries
        seen = Scope(tuple(c for c in outer.cols if c.rel not in l.ids) + l.cols, outer.ids | l.ids)
        r = relation(n.right_relation, env.beside(l.ids), seen)
    else:
        r = relation(n.right_relation, env, outer)
    names = []
    if n.config.criteria is not None and n.config.criteria.t == "JoinUsingCriteria":
        names = list(n.config.criteria.column_names)
    elif n.config.natural:
        theirs = {c.name for c in r.cols if c.name is not None}
        names = [c.name for c in l.cols if c.name in theirs]
    merged = []
    for x in names:
        a, b = ([c for c in s.cols if c.name == x] for s in (l, r))
        if len(a) > 1 or len(b) > 1:
            raise Refused(f"{x} is ambiguous in a join")
        ty = UNKNOWN_T
        for c in a + b:
            ty = super_(ty, c.type)
        merged.append(Col(x, None, None, ty))
    rest = [c for c in l.cols + r.cols if c.name is None or c.name not in names]
    left_over = {c.rel for c in rest}
    had = {c.rel for c in l.cols + r.cols}
    ids = frozenset(i for i in l.ids | r.ids if i in left_over or i not in had)
    return Scope(tuple(merged + rest), ids)


def query(n, env, outer=EMPTY):
    """(name, type) of each output column."""
    return query_full(n, env, outer)[0]


def query_full(n, env, outer=EMPTY):
    """The output columns, the type of the query as a value, and the select list with its types (None for other queries)."""
    t = n.t
    for w in n.with_ or ():
        try:
            env = env.with_cte(w.alias, tuple((c.name, c.type) for c in relation(w, env, outer).cols))
        except Refused:
            if t == "ValuesQuery":
                raise Unclear("a query which can't be resolved, but isn't referred to")
            raise
    if t == "TableQuery":
        cols = env.lookup(n.table)
        if not cols:
            return [(None, UNKNOWN_T)], UNKNOWN_T, None
        return [(c.name, c.type) for c in cols], row_or_one([c.type for c in cols]), None
    if t == "ValuesQuery":
        ty = type_of(n)
        return [(None, x) for x in (tparam(ty, "dtypes") if ty.name == "ROW" else [ty])], ty, None
    if t == "SelectQuery":
        select = n.select
        scope = EMPTY
        if n.from_ is not None:
            scope = relation(n.from_, env, outer)
            select = tuple(typed(v, scope) for v in select)
        out, types, known = [], [], True
        for v in select:
            ty = type_of(v)
            if v.t == "Star":
                cols = star_cols(v, scope)
                out += [(c.name, c.type) for c in cols] or [(None, UNKNOWN_T)]
                types += [c.type for c in cols]
                known = known and bool(cols)
            elif v.t == "AliasedStar":
                cols = star_cols(v.star, scope)
                known = known and bool(cols)
                types += [c.type for c in cols]
                ok = len(cols) == len(v.aliases)
                out += [(a, cols[i].type if ok else UNKNOWN_T) for i, a in enumerate(v.aliases)]
            else:
                out.append((name_of(v), ty))
                types.append(ty)
        return out, row_or_one(types) if known else UNKNOWN_T, select
    # set operations: the names of the left side
    l, lt, _ = query_full(n.left_query, env, outer)
    r, rt, _ = query_full(n.right_query, env, outer)
    same = len(l) == len(r)
    cols = [(a, super_(x, r[i][1]) if same else UNKNOWN_T) for i, (a, x) in enumerate(l)]
    if "UNKNOWN" in (lt.name, rt.name):
        return cols, UNKNOWN_T, None
    if (lt.name == "ROW") != (rt.name == "ROW"):
        raise Refused("numbers of columns differ")
    if lt.name != "ROW":
        return cols, super_(lt, rt), None
    p, q = tparam(lt, "dtypes"), tparam(rt, "dtypes")
    return cols, dt("ROW", dtypes=[super_(x, y) for x, y in zip(p, q)]) if len(p) == len(q) else UNKNOWN_T, None
