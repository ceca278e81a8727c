"""Reference model of data types: common supertypes and the declared type of every expression, over specs.

Written from the documentation of treeno.datatypes.conversions (Trino's coercion rules) and of the functions; works on
specs only and shares no code with the library.
"""
from decimal import Decimal
import re

from . import spec as S
from .spec import N, dt, tparam, UNKNOWN_T

INTS = {"TINYINT": 3, "SMALLINT": 5, "INTEGER": 10, "BIGINT": 19}
FLOATS = ["REAL", "DOUBLE"]
NUMERIC = set(INTS) | set(FLOATS) | {"DECIMAL"}
MAXCHAR = 65536


class NoType(Exception):
    """The values have no common supertype (treeno refuses them)."""


def supertype(a, b):
    if a == b:
        return a
    x, y = a.name, b.name
    if x == y:
        return same(a, b)
    if x == "UNKNOWN":
        return b
    if y == "UNKNOWN":
        return a
    if {x, y} <= NUMERIC:
        return numeric(a, b)
    if {x, y} == {"CHAR", "VARCHAR"}:
        n = [min(MAXCHAR, tparam(t, "max_chars") if tparam(t, "max_chars") is not None else MAXCHAR) for t in (a, b)]
        return dt("CHAR", max_chars=max(n))
    if {x, y} == {"HYPERLOGLOG", "P4HYPERLOGLOG"}:
        return dt("HYPERLOGLOG")
    if {x, y} == {"DATE", "TIME"}:
        return UNKNOWN_T
    if {x, y} == {"TIME", "TIMESTAMP"}:
        return timelike("TIMESTAMP", a, b)
    if {x, y} == {"DATE", "TIMESTAMP"}:
        return a if x == "TIMESTAMP" else b
    raise NoType(f"{a} / {b}")


def same(a, b):
    """Two different types of one name."""
    x = a.name
    if x == "DECIMAL":
        return dec(a, b)
    if x == "VARCHAR":
        m, n = tparam(a, "max_chars"), tparam(b, "max_chars")
        return dt("VARCHAR") if m is None or n is None else dt("VARCHAR", max_chars=max(m, n))
    if x == "CHAR":
        return dt("CHAR", max_chars=max(tparam(a, "max_chars"), tparam(b, "max_chars")))
    if x in ("TIME", "TIMESTAMP"):
        return timelike(x, a, b)
    if x == "ARRAY":
        return dt("ARRAY", dtype=supertype(tparam(a, "dtype"), tparam(b, "dtype")))
    if x == "MAP":
        return dt("MAP", from_dtype=supertype(tparam(a, "from_dtype"), tparam(b, "from_dtype")),
                  to_dtype=supertype(tparam(a, "to_dtype"), tparam(b, "to_dtype")))
    if x == "ROW":
        p, q = tparam(a, "dtypes"), tparam(b, "dtypes")
        if len(p) != len(q):
            raise NoType("rows of different lengths")
        return dt("ROW", dtypes=[supertype(m, n) for m, n in zip(p, q)])
    return UNKNOWN_T      # intervals of different fields, digests of different values


def timelike(name, a, b):
    kw = {"timezone": tparam(a, "timezone") or tparam(b, "timezone")}
    p, q = tparam(a, "precision"), tparam(b, "precision")
    if p is not None and q is not None:
        kw["precision"] = max(p, q)
    return dt(name, **kw)


def dec(a, b):
    s = max(tparam(a, "scale"), tparam(b, "scale"))
    i = max(tparam(a, "precision") - tparam(a, "scale"), tparam(b, "precision") - tparam(b, "scale"))
    return dt("DECIMAL", precision=min(38, i + s), scale=s)


def numeric(a, b):
    x, y = a.name, b.name
    if x in FLOATS or y in FLOATS:
        return dt("DOUBLE" if "DOUBLE" in (x, y) else "REAL")
    if x in INTS and y in INTS:
        return a if INTS[x] > INTS[y] else b
    a, b = [dt("DECIMAL", precision=INTS[t.name], scale=0) if t.name in INTS else t for t in (a, b)]
    return dec(a, b)


def fold(ts):
    ts = list(ts)
    acc = ts[0]
    for t in ts[1:]:
        acc = supertype(acc, t)
    return acc


def arith(a, b):
    if a == b:
        return a
    if a.name == b.name and a.name in ("DECIMAL", "VARCHAR", "CHAR", "ROW", "ARRAY", "MAP", "TIME", "TIMESTAMP",
                                       "INTERVAL"):
        return same(a, b)
    if a.name in NUMERIC and b.name in NUMERIC:
        return numeric(a, b)
    return UNKNOWN_T


def literal(n):
    k, s = n.kind, n.text
    if k == "null":
        return UNKNOWN_T
    if k == "bool":
        return dt("BOOLEAN")
    if k == "int":
        return dt("INTEGER") if -2 ** 31 <= int(s) < 2 ** 31 else dt("BIGINT")
    if k == "dbl":
        return dt("DOUBLE")
    if k == "str":
        return dt("VARCHAR", max_chars=len(s))
    return decimal_of(s)


def decimal_of(s):
    s = format(Decimal(s).copy_abs(), "f")
    a, _, b = s.partition(".")
    return dt("DECIMAL", precision=len(a) + len(b), scale=len(b))


BOOL = set("Not Equal NotEqual GreaterThan GreaterThanOrEqual LessThan LessThanOrEqual And Or IsNull DistinctFrom Between "
           "InQuery InList Like BoolAnd BoolOr Every LuhnCheck".split())
FIXED = {}
for _t in BOOL:
    FIXED[_t] = dt("BOOLEAN")
for _t in ("GeometricMean Avg Skewness StdDev StdDevPop StdDevSamp Variance VarPop VarSamp Corr CovarPop CovarSamp Kurtosis "
           "RegrIntercept RegrSlope Power ToUnixtime").split():
    FIXED[_t] = dt("DOUBLE")
for _t in ("Count CountIf BitwiseAndAgg BitwiseOrAgg ApproxDistinct HammingDistance Length LevenshteinDistance "
           "ToMilliseconds DateDiff").split():
    FIXED[_t] = dt("BIGINT")
for _t in ("Chr Lower LPad LTrim Replace Reverse RPad RTrim Soundex Normalize FromUTF8 ToISO8601 HumanReadableSeconds "
           "CurrentUser CurrentCatalog CurrentSchema CurrentPath ListAgg").split():
    FIXED[_t] = dt("VARCHAR")
FIXED["CodePoint"] = dt("INTEGER")
FIXED["Checksum"] = FIXED["ToUTF8"] = dt("VARBINARY")
FIXED["ApproxSet"] = dt("HYPERLOGLOG")
FIXED["TDigestAgg"] = dt("TDIGEST")
FIXED["NumericHistogram"] = dt("MAP", from_dtype=dt("DOUBLE"), to_dtype=dt("DOUBLE"))
for _t in "CurrentDate Date LastDayOfMonth FromISO8601Date".split():
    FIXED[_t] = dt("DATE")
FIXED["FromISO8601Timestamp"] = FIXED["Now"] = dt("TIMESTAMP", precision=3, timezone=True)
FIXED["FromISO8601TimestampNanos"] = FIXED["FromUnixtimeNanos"] = dt("TIMESTAMP", precision=9, timezone=True)
FIXED["ParseDuration"] = dt("INTERVAL", from_interval="DAY", to_interval="SECOND")

SAME_AS = {"Positive": "value", "Negative": "value", "AliasedValue": "value", "AliasedStar": "star", "Sum": "value",
           "Arbitrary": "value", "MapUnion": "value", "NullIf": "value1", "Try": "expr", "DateTrunc": "value",
           "DateAdd": "timestamp", "When": "value", "Else": "value"}


_cache = {}


def _cached(n):
    e = _cache.get(id(n))
    return e[1] if e is not None and e[0] is n else None


def typeof(n):
    """Declared type of an expression or query spec (before resolution); NoType when treeno must refuse it."""
    c = _cached(n)
    if c is None:
        try:
            c = _typeof(n)
        except NoType as e:
            c = e
        if len(_cache) > 20000:
            _cache.clear()
        _cache[id(n)] = (n, c)
    if isinstance(c, NoType):
        raise c
    return c


def check(n):
    """Raises NoType when any part of the tree has no type."""
    if n.t not in NOT_VALUES and n.t != "DataType":
        typeof(n)
    for _, c in S.child_nodes(n):
        check(c)


NOT_VALUES = set("Table AliasedRelation Join JoinConfig JoinUsingCriteria JoinOnCriteria Unnest Lateral TableSample GroupBy "
                 "GroupingSet GroupingSetList Cube Rollup OrderTerm Window BoundedFrameBound UnboundedFrameBound "
                 "CurrentFrameBound OverflowFiller".split())


def depth_of(t):
    return 1 + depth_of(tparam(t, "dtype")) if t.name == "ARRAY" else 0


def _typeof(n):
    t = n.t
    f = FIXED.get(t)
    if f is not None:
        return f
    if t in SAME_AS:
        return typeof(n.d[SAME_AS[t]])
    if t == "Literal":
        return literal(n)
    if t in ("Field", "Variable", "Star", "Lambda", "Subscript"):
        return n.d.get("_dtype", UNKNOWN_T)
    if t in ("Add", "Minus", "Multiply", "Divide", "Modulus"):
        a, b = typeof(n.left), typeof(n.right)
        if t == "Minus" and ({a.name, b.name} <= {"DATE", "TIMESTAMP"} or a.name == b.name == "TIME"):
            return dt("INTERVAL", from_interval="DAY", to_interval="SECOND")
        return arith(a, b)
    if t == "Array":
        return dt("ARRAY", dtype=fold(typeof(v) for v in n.values))
    if t == "RowConstructor":
        return dt("ROW", dtypes=[typeof(v) for v in n.values])
    if t == "Case":
        return fold([typeof(b) for b in n.branches] + ([typeof(n.else_)] if n.else_ is not None else []))
    if t == "Coalesce":
        return fold(typeof(v) for v in n.values)
    if t == "If":
        return typeof(n.true_value) if n.false_value is None else supertype(typeof(n.true_value), typeof(n.false_value))
    if t in ("Cast", "TryCast"):
        return n.data_type
    if t == "Interval":
        if n.from_interval in ("YEAR", "MONTH"):
            return dt("INTERVAL", from_interval="YEAR", to_interval="MONTH")
        return dt("INTERVAL", from_interval="DAY", to_interval="SECOND")
    if t == "TypeConstructor":
        name = n.type_name.upper()
        if name in ("TIME", "TIMESTAMP"):
            m = re.search(r"\.([0-9]*)", n.value)
            return dt(name, precision=len(m.group(1)) if m else 0)
        if name == "DECIMAL":
            return decimal_of(n.value)
        if name == "CHAR":
            return dt("CHAR", max_chars=len(n.value))
        return dt(name)
    if t == "ArrayAgg":
        return dt("ARRAY", dtype=typeof(n.value))
    if t in ("Max", "Min", "MaxBy", "MinBy"):
        return typeof(n.value) if n.num_values is None else dt("ARRAY", dtype=typeof(n.value))
    if t in ("Histogram", "ApproxMostFrequent"):
        return dt("MAP", from_dtype=typeof(n.value), to_dtype=dt("BIGINT"))
    if t == "MapAgg":
        return dt("MAP", from_dtype=typeof(n.key), to_dtype=typeof(n.value))
    if t == "MultiMapAgg":
        return dt("MAP", from_dtype=typeof(n.key), to_dtype=dt("ARRAY", dtype=typeof(n.value)))
    if t == "ApproxPercentile":
        p = typeof(n.percentage)
        if p.name == "UNKNOWN":
            return UNKNOWN_T
        return dt("ARRAY", dtype=typeof(n.value)) if p.name == "ARRAY" else typeof(n.value)
    if t == "Merge":
        v = typeof(n.value)
        return v if v.name in ("TDIGEST", "QDIGEST") else dt("HYPERLOGLOG")
    if t == "QDigestAgg":
        return dt("QDIGEST", dtype=typeof(n.value))
    if t in ("AtTimezone", "WithTimezone", "FromUnixtime"):
        v = typeof(n.value)
        if v.name != "TIMESTAMP":
            return UNKNOWN_T
        return dt("TIMESTAMP", **dict(v.params, timezone=True))
    if t in ("CurrentTime", "LocalTime"):
        return dt("TIME", precision=n.precision)
    if t in ("CurrentTimestamp", "LocalTimestamp"):
        return dt("TIMESTAMP", precision=n.precision)
    if t == "Concatenate":
        ts = [typeof(v) for v in n.values]
        names = {x.name for x in ts}
        if "UNKNOWN" in names:
            return UNKNOWN_T
        if "ARRAY" in names:
            ds = [depth_of(x) for x in ts]
            if max(ds) - min(ds) > 1:
                raise NoType("array layers")
            return dt("ARRAY", dtype=fold(tparam(x, "dtype") if d == max(ds) else x for x, d in zip(ts, ds)))
        if names == {"VARCHAR"}:
            return dt("VARCHAR")
        if names <= {"CHAR", "VARCHAR"}:
            n_ = 0
            for x in ts:
                m = tparam(x, "max_chars")
                n_ += MAXCHAR if m is None else min(m, MAXCHAR)
            return dt("CHAR", max_chars=min(MAXCHAR, n_))
        if names == {"VARBINARY"}:
            return dt("VARBINARY")
        return UNKNOWN_T
    if t == "SelectQuery":
        if any(v.t in ("Star", "AliasedStar") for v in n.select):
            return UNKNOWN_T
        ts = [typeof(v) for v in n.select]
        return ts[0] if len(ts) == 1 else dt("ROW", dtypes=ts)
    if t == "TableQuery":
        return UNKNOWN_T
    if t == "ValuesQuery":
        return fold(typeof(v) for v in n.exprs)
    if t in ("UnionQuery", "IntersectQuery", "ExceptQuery"):
        a, b = typeof(n.left_query), typeof(n.right_query)
        if a.name == "UNKNOWN" or b.name == "UNKNOWN":
            return UNKNOWN_T
        if (a.name == "ROW") != (b.name == "ROW"):
            raise NoType("numbers of columns differ")
        if a.name != "ROW":
            return supertype(a, b)
        p, q = tparam(a, "dtypes"), tparam(b, "dtypes")
        if len(p) != len(q):
            return UNKNOWN_T
        return dt("ROW", dtypes=[supertype(x, y) for x, y in zip(p, q)])
    if S.MODULES.get(t) == "(user)":
        return UNKNOWN_T
    raise AssertionError(f"no type rule for {t}")
