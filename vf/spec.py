"""Plain, immutable descriptions ("specs") of treeno trees, and the table of node types.

The table is written from treeno's documentation (class names and public attributes); nothing is derived from the code
under test at run time.
"""
from decimal import Decimal

# ---- kinds of field --------------------------------------------------------------------------------------------
# node   a child node               node?  optional child
# nodes  list of children           nodes? optional list (None and empty mean the same)
# str str? strs strs? int int? bool       plain data
# tbl    None, a name, or a node     enum:X   member of enum X      dtype  a data type     wins  named windows

U = [("value", "node")]
B = [("left", "node"), ("right", "node")]
QC = [("offset", "int?"), ("limit", "int?"), ("orderby", "nodes?"), ("with_", "nodes?")]
AG = [("orderby", "nodes?"), ("filter_", "node?"), ("window", "node?"), ("null_treatment", "enum:NullTreatment"),
      ("distinct", "bool")]

FIELDS = {
    "Field": [("name", "str"), ("table", "tbl")],
    "AliasedValue": [("value", "node"), ("alias", "str")],
    "Star": [("table", "tbl")],
    "AliasedStar": [("star", "node"), ("aliases", "strs")],
    "Variable": [("name", "str")],
    "Lambda": [("inputs", "nodes"), ("expr", "node")],
    "Positive": U, "Negative": U, "Not": U, "IsNull": U,
    "Add": B, "Minus": B, "Multiply": B, "Divide": B, "Modulus": B,
    "Equal": B, "NotEqual": B, "GreaterThan": B, "GreaterThanOrEqual": B, "LessThan": B, "LessThanOrEqual": B,
    "And": B, "Or": B, "DistinctFrom": B,
    "Between": [("value", "node"), ("lower", "node"), ("upper", "node")],
    "Array": [("values", "nodes")],
    "InQuery": [("value", "node"), ("query", "node")],
    "InList": [("value", "node"), ("exprs", "nodes")],
    "Like": [("value", "node"), ("pattern", "node"), ("escape", "node?")],
    "TypeConstructor": [("value", "str"), ("type_name", "str")],
    "RowConstructor": [("values", "nodes")],
    "Interval": [("value", "str"), ("from_interval", "str"), ("to_interval", "str?")],
    "Cast": [("expr", "node"), ("data_type", "dtype")],
    "TryCast": [("expr", "node"), ("data_type", "dtype")],
    "Subscript": [("value", "node"), ("index", "node")],
    "When": [("condition", "node"), ("value", "node")],
    "Else": [("value", "node")],
    "Case": [("branches", "nodes"), ("else_", "node?"), ("value", "node?")],
    "SelectQuery": [("select", "nodes"), ("from_", "node?"), ("where", "node?"), ("groupby", "node?"),
                    ("having", "node?"), ("select_quantifier", "enum:SetQuantifier"), ("window", "wins")] + QC,
    "TableQuery": [("table", "node")] + QC,
    "ValuesQuery": [("exprs", "nodes")] + QC,
    "UnionQuery": [("left_query", "node"), ("right_query", "node"), ("set_quantifier", "enum:SetQuantifier")] + QC,
    "IntersectQuery": [("left_query", "node"), ("right_query", "node"), ("set_quantifier", "enum:SetQuantifier")] + QC,
    "ExceptQuery": [("left_query", "node"), ("right_query", "node"), ("set_quantifier", "enum:SetQuantifier")] + QC,
    "Table": [("name", "str"), ("schema", "str?"), ("catalog", "str?")],
    "AliasedRelation": [("relation", "node"), ("alias", "str"), ("column_aliases", "strs?")],
    "Join": [("left_relation", "node"), ("right_relation", "node"), ("config", "node")],
    "JoinConfig": [("join_type", "enum:JoinType"), ("natural", "bool"), ("criteria", "node?")],
    "JoinUsingCriteria": [("column_names", "strs")],
    "JoinOnCriteria": [("constraint", "node")],
    "Unnest": [("arrays", "nodes"), ("with_ordinality", "bool")],
    "Lateral": [("subquery", "node")],
    "TableSample": [("relation", "node"), ("sample_type", "enum:SampleType"), ("percentage", "node")],
    "GroupBy": [("groups", "nodes"), ("groupby_quantifier", "enum:SetQuantifier")],
    "GroupingSet": [("values", "nodes")],
    "GroupingSetList": [("groups", "nodes")],
    "Cube": [("values", "nodes")],
    "Rollup": [("values", "nodes")],
    "OrderTerm": [("value", "node"), ("order_type", "enum:OrderType"), ("null_order", "enum:NullOrder")],
    "Window": [("parent_window", "str?"), ("orderby", "nodes?"), ("partitions", "nodes?"),
               ("frame_type", "enum:FrameType"), ("start_bound", "node"), ("end_bound", "node")],
    "BoundedFrameBound": [("bound_type", "enum:BoundType"), ("offset", "node")],
    "UnboundedFrameBound": [("bound_type", "enum:BoundType")],
    "CurrentFrameBound": [],
    "OverflowFiller": [("count_indication", "enum:CountIndication"), ("filler", "str")],
    "ListAgg": [("value", "node"), ("separator", "str"), ("overflow_filler", "node?")] + AG,
    "Normalize": [("string", "node"), ("normal_form", "enum?:NormalForm")],
}

ENUM_DEFAULTS = {
    ("SelectQuery", "select_quantifier"): "ALL",
    ("UnionQuery", "set_quantifier"): "DISTINCT",
    ("IntersectQuery", "set_quantifier"): "DISTINCT",
    ("ExceptQuery", "set_quantifier"): "DISTINCT",
    ("GroupBy", "groupby_quantifier"): "ALL",
    ("OrderTerm", "order_type"): "ASC",
    ("OrderTerm", "null_order"): "LAST",
    ("Window", "frame_type"): "RANGE",
}

MODULES = {}
for _n in FIELDS:
    MODULES[_n] = "treeno.expression"
for _n in ("SelectQuery TableQuery ValuesQuery UnionQuery IntersectQuery ExceptQuery Table AliasedRelation Join "
           "JoinConfig JoinUsingCriteria JoinOnCriteria Unnest Lateral TableSample").split():
    MODULES[_n] = "treeno.relation"
for _n in "GroupBy GroupingSet GroupingSetList Cube Rollup".split():
    MODULES[_n] = "treeno.groupby"
MODULES["OrderTerm"] = "treeno.orderby"
for _n in "Window BoundedFrameBound UnboundedFrameBound CurrentFrameBound".split():
    MODULES[_n] = "treeno.window"
for _n in "OverflowFiller ListAgg".split():
    MODULES[_n] = "treeno.functions.aggregate"
MODULES["Normalize"] = "treeno.functions.string"
MODULES["Literal"] = "treeno.expression"

ENUMS = {
    "SetQuantifier": ("treeno.base", ["DISTINCT", "ALL"]),
    "JoinType": ("treeno.relation", ["INNER", "LEFT", "RIGHT", "OUTER", "CROSS"]),
    "SampleType": ("treeno.relation", ["BERNOULLI", "SYSTEM"]),
    "OrderType": ("treeno.orderby", ["ASC", "DESC"]),
    "NullOrder": ("treeno.orderby", ["FIRST", "LAST"]),
    "FrameType": ("treeno.window", ["RANGE", "ROWS", "GROUPS"]),
    "BoundType": ("treeno.window", ["PRECEDING", "FOLLOWING"]),
    "NullTreatment": ("treeno.window", ["IGNORE", "RESPECT"]),
    "CountIndication": ("treeno.functions.aggregate", ["WITH_COUNT", "WITHOUT_COUNT"]),
    "NormalForm": ("treeno.functions.string", ["NFD", "NFC", "NFKD", "NFKC"]),
}

# ---- functions -----------------------------------------------------------------------------------------------
# SQL name -> (class name, module, list of accepted role lists).  "*" marks the one variadic field.
AGG = "treeno.functions.aggregate"
FUNCS = {}


def _f(mod, cls, name, *roles):
    FUNCS[name] = (cls, mod, [r.split() if r else [] for r in roles])


for _c, _n in [("Sum", "SUM"), ("Arbitrary", "ARBITRARY"), ("ArrayAgg", "ARRAY_AGG"), ("Avg", "AVG"),
               ("BoolAnd", "BOOL_AND"), ("BoolOr", "BOOL_OR"), ("Checksum", "CHECKSUM"), ("Count", "COUNT"),
               ("CountIf", "COUNT_IF"), ("Every", "EVERY"), ("GeometricMean", "GEOMETRIC_MEAN"),
               ("BitwiseAndAgg", "BITWISE_AND_AGG"), ("BitwiseOrAgg", "BITWISE_OR_AGG"), ("Histogram", "HISTOGRAM"),
               ("MapUnion", "MAP_UNION"), ("ApproxSet", "APPROX_SET"), ("Merge", "MERGE"), ("Skewness", "SKEWNESS"),
               ("StdDev", "STDDEV"), ("StdDevPop", "STDDEV_POP"), ("StdDevSamp", "STDDEV_SAMP"),
               ("Variance", "VARIANCE"), ("VarPop", "VAR_POP"), ("VarSamp", "VAR_SAMP")]:
    _f(AGG, _c, _n, "value")
for _c, _n in [("Corr", "CORR"), ("CovarPop", "COVAR_POP"), ("CovarSamp", "COVAR_SAMP"), ("Kurtosis", "KURTOSIS"),
               ("RegrIntercept", "REGR_INTERCEPT"), ("RegrSlope", "REGR_SLOPE")]:
    _f(AGG, _c, _n, "y x")
_f(AGG, "Max", "MAX", "value", "value num_values")
_f(AGG, "Min", "MIN", "value", "value num_values")
_f(AGG, "MaxBy", "MAX_BY", "value max_by", "value max_by num_values")
_f(AGG, "MinBy", "MIN_BY", "value min_by", "value min_by num_values")
_f(AGG, "MapAgg", "MAP_AGG", "key value")
_f(AGG, "MultiMapAgg", "MULTIMAP_AGG", "key value")
_f(AGG, "ApproxDistinct", "APPROX_DISTINCT", "key", "key epsilon")
_f(AGG, "ApproxMostFrequent", "APPROX_MOST_FREQUENT", "buckets value capacity")
_f(AGG, "ApproxPercentile", "APPROX_PERCENTILE", "value percentage", "value weight percentage")
_f(AGG, "NumericHistogram", "NUMERIC_HISTOGRAM", "buckets value", "buckets value weight")
_f(AGG, "QDigestAgg", "QDIGEST_AGG", "value", "value weight", "value weight accuracy")
_f(AGG, "TDigestAgg", "TDIGEST_AGG", "value", "value weight")
AGGREGATES = set(FUNCS)

_S = "treeno.functions.string"
for _c, _n in [("Chr", "CHR", ), ]:
    _f(_S, _c, _n, "number")
for _c, _n in [("CodePoint", "CODEPOINT"), ("Length", "LENGTH"), ("Lower", "LOWER"), ("LTrim", "LTRIM"),
               ("LuhnCheck", "LUHN_CHECK"), ("Reverse", "REVERSE"), ("RTrim", "RTRIM"), ("Soundex", "SOUNDEX"),
               ("ToUTF8", "TO_UTF8")]:
    _f(_S, _c, _n, "string")
_f(_S, "HammingDistance", "HAMMING_DISTANCE", "string1 string2")
_f(_S, "LevenshteinDistance", "LEVENSHTEIN_DISTANCE", "string1 string2")
_f(_S, "LPad", "LPAD", "string size pad_string")
_f(_S, "RPad", "RPAD", "string size pad_string")
_f(_S, "Replace", "REPLACE", "string search", "string search replace")
_f(_S, "FromUTF8", "FROM_UTF8", "binary", "binary replace")
_D = "treeno.functions.datetime"
for _c, _n in [("Date", "DATE"), ("LastDayOfMonth", "LAST_DAY_OF_MONTH"),
               ("FromISO8601Timestamp", "FROM_ISO8601_TIMESTAMP"),
               ("FromISO8601TimestampNanos", "FROM_ISO8601_TIMESTAMP_NANOS"),
               ("FromISO8601Date", "FROM_ISO8601_DATE"), ("FromUnixtimeNanos", "FROM_UNIXTIME_NANOS"),
               ("ToISO8601", "TO_ISO8601"), ("ToMilliseconds", "TO_MILLISECONDS"), ("ToUnixtime", "TO_UNIXTIME"),
               ("ParseDuration", "PARSE_DURATION"), ("HumanReadableSeconds", "HUMAN_READABLE_SECONDS")]:
    _f(_D, _c, _n, "value")
_f(_D, "AtTimezone", "AT_TIMEZONE", "value zone")
_f(_D, "WithTimezone", "WITH_TIMEZONE", "value zone")
_f(_D, "FromUnixtime", "FROM_UNIXTIME", "value", "value zone", "value hours minutes")
_f(_D, "Now", "NOW", "")
_f(_D, "DateTrunc", "DATE_TRUNC", "unit value")
_f(_D, "DateAdd", "DATE_ADD", "unit value timestamp")
_f(_D, "DateDiff", "DATE_DIFF", "unit timestamp1 timestamp2")
_f("treeno.functions.math", "Power", "POWER", "x p")
_f("treeno.functions.conditional", "If", "IF", "condition true_value", "condition true_value false_value")
_f("treeno.functions.conditional", "NullIf", "NULLIF", "value1 value2")
_f("treeno.functions.conditional", "Try", "TRY", "expr")
_f("treeno.functions.conditional", "Coalesce", "COALESCE", "*values")
_f("treeno.functions.common", "Concatenate", "CONCAT", "*values")

# functions without parentheses, with an optional precision for four of them
KEYWORD_FUNCS = {
    "CURRENT_DATE": ("CurrentDate", _D, False), "CURRENT_TIME": ("CurrentTime", _D, True),
    "CURRENT_TIMESTAMP": ("CurrentTimestamp", _D, True), "LOCALTIME": ("LocalTime", _D, True),
    "LOCALTIMESTAMP": ("LocalTimestamp", _D, True),
    "CURRENT_USER": ("CurrentUser", "treeno.functions.session", False),
    "CURRENT_CATALOG": ("CurrentCatalog", "treeno.functions.session", False),
    "CURRENT_SCHEMA": ("CurrentSchema", "treeno.functions.session", False),
    "CURRENT_PATH": ("CurrentPath", "treeno.functions.session", False),
}
CLASS_TO_FUNC = {}
for _n, (_c, _m, _roles) in FUNCS.items():
    CLASS_TO_FUNC[_c] = _n
    MODULES[_c] = _m
    if _roles[0] and _roles[0][0].startswith("*"):
        FIELDS[_c] = [(_roles[0][0][1:], "nodes")]
    else:
        _names = []
        for _r in _roles:
            for _x in _r:
                if _x not in _names:
                    _names.append(_x)
        _all = set(_roles[0])
        for _r in _roles:
            _all &= set(_r)
        FIELDS[_c] = [(x, "node" if x in _all else "node?") for x in _names]
    if _n in AGGREGATES:
        FIELDS[_c] = FIELDS[_c] + AG
for _n, (_c, _m, _p) in KEYWORD_FUNCS.items():
    MODULES[_c] = _m
    FIELDS[_c] = [("precision", "int")] if _p else []
    CLASS_TO_FUNC[_c] = _n
CLASS_TO_FUNC["ListAgg"] = "LISTAGG"
CLASS_TO_FUNC["Normalize"] = "NORMALIZE"
AGGREGATE_CLASSES = {FUNCS[n][0] for n in AGGREGATES} | {"ListAgg"}
for _c in list(FIELDS):
    if ("null_treatment", "enum:NullTreatment") in FIELDS[_c]:
        ENUM_DEFAULTS[(_c, "null_treatment")] = "RESPECT"

KIND = {t: dict(fs) for t, fs in FIELDS.items()}
ORDER = {t: [f for f, _ in fs] for t, fs in FIELDS.items()}


class N:
    """An immutable node description."""
    __slots__ = ("t", "d", "_h")

    def __init__(self, t, d):
        object.__setattr__(self, "t", t)
        object.__setattr__(self, "d", d)
        object.__setattr__(self, "_h", None)

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, "d")[k]
        except KeyError:
            raise AttributeError(k)

    def __eq__(self, o):
        return isinstance(o, N) and self.t == o.t and self.d == o.d

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        if self._h is None:
            object.__setattr__(self, "_h", hash((self.t, tuple(sorted((k, _hk(v)) for k, v in self.d.items())))))
        return self._h

    def __repr__(self):
        if self.t == "Literal":
            return f"{self.d['kind']}:{self.d['text']}"
        if self.t == "DataType":
            return f"<{self.d['name']} {dict(self.d['params'])}>"
        parts = []
        for k, v in self.d.items():
            if v is None or v == () or v == default_of(self.t, k):
                continue
            parts.append(f"{k}={v!r}")
        return f"{self.t}({', '.join(parts)})"

    def put(self, **kw):
        d = dict(self.d)
        d.update(kw)
        return N(self.t, d)


def _hk(v):
    return repr(v)


_NODEF = object()


def default_of(t, f):
    if t == "OverflowFiller" and f == "filler":
        return "..."
    if t == "ListAgg" and f == "separator":
        return ""
    kind = KIND.get(t, {}).get(f)
    if kind is None:
        return _NODEF
    if kind.endswith("?") or kind.startswith("enum?") or kind in ("tbl", "wins"):
        return None
    if kind == "bool":
        return False
    if kind == "int":
        return 3  # the datetime functions' precision is the only plain integer
    if kind.startswith("enum:"):
        return ENUM_DEFAULTS.get((t, f), _NODEF)
    if t == "Window":
        return {"start_bound": UB_PRECEDING, "end_bound": CURRENT}[f]
    return _NODEF


def mk(t, *args, **kw):
    """Make a spec; fields not given take their documented default."""
    names = ORDER[t]
    d = {}
    for n, a in zip(names, args):
        d[n] = a
    assert len(args) <= len(names), (t, args)
    for k, v in kw.items():
        assert k in KIND[t] and k not in d, (t, k)
        d[k] = v
    out = {}
    for n in names:
        if n in d:
            v = d[n]
            if isinstance(v, list):
                v = tuple(v)
            if v == () and KIND[t][n] in ("nodes?", "strs?", "wins"):
                v = None
        else:
            v = default_of(t, n)
            assert v is not _NODEF, f"{t}.{n} needed"
        out[n] = v
    return N(t, out)


UB_PRECEDING = N("UnboundedFrameBound", {"bound_type": "PRECEDING"})
CURRENT = N("CurrentFrameBound", {})


def lit(v):
    """Literal spec for a Python value; kinds keep 1, 1.0, Decimal('1'), True and '1' apart."""
    if v is None:
        return N("Literal", {"kind": "null", "text": ""})
    if isinstance(v, bool):
        return N("Literal", {"kind": "bool", "text": str(v)})
    if isinstance(v, int):
        return N("Literal", {"kind": "int", "text": str(v)})
    if isinstance(v, float):
        return N("Literal", {"kind": "dbl", "text": repr(v)})
    if isinstance(v, Decimal):
        return N("Literal", {"kind": "dec", "text": format(v, "f")})
    if isinstance(v, str):
        return N("Literal", {"kind": "str", "text": v})
    return N("Literal", {"kind": "other", "text": f"{type(v).__name__}:{v!r}"})


NULL = lit(None)


def lit_value(n):
    k, s = n.kind, n.text
    if k == "null":
        return None
    if k == "bool":
        return s == "True"
    if k == "int":
        return int(s)
    if k == "dbl":
        return float(s)
    if k == "dec":
        return Decimal(s)
    return s


# ---- data types -----------------------------------------------------------------------------------------------
SIMPLE_TYPES = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE",
                "IPADDRESS", "UUID", "HYPERLOGLOG", "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN"]
PARAM_TYPES = ["DECIMAL", "VARCHAR", "CHAR", "TIME", "TIMESTAMP", "INTERVAL", "ARRAY", "MAP", "ROW", "QDIGEST"]


def dt(name, **params):
    """Data type spec with the documented defaults filled in."""
    name = name.upper()
    if name == "DECIMAL":
        params.setdefault("precision", 38)
        params.setdefault("scale", 0)
    elif name == "CHAR":
        params.setdefault("max_chars", 1)
    elif name in ("TIME", "TIMESTAMP"):
        params.setdefault("timezone", False)
    if name == "ROW":
        params["dtypes"] = tuple(params["dtypes"])
    return N("DataType", {"name": name, "params": tuple(sorted(params.items()))})


def tparam(t, k, default=None):
    for a, b in t.params:
        if a == k:
            return b
    return default


UNKNOWN_T = dt("UNKNOWN")


# ---- generic walking ------------------------------------------------------------------------------------------
def child_nodes(n):
    """(path element, node) for the child nodes of a spec, data types excluded."""
    if n.t in ("Literal", "DataType"):
        return
    for f, kind in FIELDS[n.t]:
        v = n.d[f]
        if v is None:
            continue
        if kind in ("node", "node?"):
            yield f, v
        elif kind in ("nodes", "nodes?"):
            for i, x in enumerate(v):
                yield f"{f}[{i}]", x
        elif kind == "tbl":
            if isinstance(v, N):
                yield f, v
        elif kind == "wins":
            for name, w in v:
                yield f"{f}[{name!r}]", w


def walk(n):
    yield n
    for _, c in child_nodes(n):
        yield from walk(c)


def size(n):
    return sum(1 for _ in walk(n))


def depth(n):
    return 1 + max((depth(c) for _, c in child_nodes(n)), default=0)


def rewrite(n, fn):
    """Bottom-up rewrite of a spec."""
    if n.t in ("Literal", "DataType"):
        return fn(n)
    d = {}
    for f, kind in FIELDS[n.t]:
        v = n.d[f]
        if v is None:
            d[f] = v
        elif kind in ("node", "node?"):
            d[f] = rewrite(v, fn) if isinstance(v, N) else v
        elif kind in ("nodes", "nodes?"):
            d[f] = tuple(rewrite(x, fn) if isinstance(x, N) else x for x in v) if isinstance(v, tuple) else v
        elif kind == "tbl":
            d[f] = rewrite(v, fn) if isinstance(v, N) else v
        elif kind == "wins":
            d[f] = tuple((a, rewrite(b, fn)) for a, b in v) if isinstance(v, tuple) else v
        else:
            d[f] = v
    return fn(N(n.t, d))


def diff(a, b, path="$"):
    """Human-readable first difference between two specs, or None."""
    if isinstance(a, N) and isinstance(b, N):
        if a.t != b.t:
            return f"{path}: {short(a)} vs {short(b)}"
        for k in a.d:
            r = diff(a.d[k], b.d.get(k), f"{path}.{k}")
            if r:
                return r
        return None
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return f"{path}: {len(a)} items {short(a)} vs {len(b)} items {short(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None
    if type(a) is not type(b) or a != b:
        return f"{path}: {short(a)} vs {short(b)}"
    return None


def short(x, n=160):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."
