"""The only module that touches treeno: builds trees from specs, observes trees as specs, and wraps the entry points."""
import importlib
import os
import sys
from decimal import Decimal
from enum import Enum

REPO = os.environ.get("VF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

from . import spec as S
from .spec import N

_mods = {}


def mod(name):
    if name not in _mods:
        _mods[name] = importlib.import_module(name)
    return _mods[name]


_cls = {}


def cls(name):
    if name not in _cls:
        if name == "Variable":
            _cls[name] = mod("treeno.expression").Lambda.Variable
        else:
            _cls[name] = getattr(mod(S.MODULES[name]), name)
    return _cls[name]


def enum(ename, member):
    return mod(S.ENUMS[ename][0]).__dict__[ename][member]


class SutError(Exception):
    """The code under test raised; carries the original."""
    def __init__(self, what, exc):
        super().__init__(f"{what} raised {type(exc).__name__}: {str(exc)[:300]}")
        self.exc = exc


def guard(what, fn, *a, **k):
    try:
        return fn(*a, **k)
    except RecursionError as e:
        raise SutError(what, e)
    except Exception as e:  # noqa: the point is to observe any failure of the code under test
        raise SutError(what, e)


# ---- entry points ---------------------------------------------------------------------------------------------
def parse_query(sql):
    return guard(f"query_from_sql({sql!r})", mod("treeno.builder.convert").query_from_sql, sql)


def parse_expr(sql):
    return guard(f"expression_from_sql({sql!r})", mod("treeno.builder.convert").expression_from_sql, sql)


def parse_type(sql):
    return guard(f"type_from_sql({sql!r})", mod("treeno.builder.convert").type_from_sql, sql)


PARSERS = {"query": parse_query, "expr": parse_expr, "type": parse_type}


def opts(pretty=False, spaces=None):
    b = mod("treeno.base")
    mode = b.PrintMode.PRETTY if pretty else b.PrintMode.DEFAULT
    if spaces is None:
        return b.PrintOptions(mode=mode)
    return b.PrintOptions(mode=mode, spaces=spaces)


def show(obj, pretty=False, spaces=None):
    r = guard("printing", obj.sql, opts(pretty, spaces))
    if not isinstance(r, str):
        raise SutError("printing", TypeError(f"sql() gave {type(r).__name__}"))
    return r


# ---- building -------------------------------------------------------------------------------------------------
def build_type(t):
    D = mod("treeno.datatypes.types").DataType
    params = {}
    for k, v in t.params:
        if isinstance(v, N):
            params[k] = build_type(v)
        elif isinstance(v, tuple):
            params[k] = [build_type(x) for x in v]
        else:
            params[k] = v
    return D(t.name, parameters=params)


SEQ = list      # the container that holds the parts of a list of nodes


def _build(n):
    if _memo is None or n is None or any(x.t in _apart for x in S.walk(n)):
        return _build_new(n)
    if n not in _memo:
        _memo[n] = _build_new(n)
    return _memo[n]


def _build_new(n):
    if n is None:
        return None
    if n.t == "Literal":
        E = mod("treeno.expression")
        if n.kind == "null":
            return E.Literal(None, data_type=mod("treeno.datatypes.builder").unknown())
        return E.wrap_literal(S.lit_value(n))
    if n.t == "DataType":
        return build_type(n)
    kw = {}
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if kind in ("node", "node?"):
            v = _build(v)
        elif kind in ("nodes", "nodes?"):
            if v is None and kind == "nodes?":
                if f == "with_":
                    continue
            else:
                v = (list if n.t == "Case" else SEQ)(_build(x) for x in v)
        elif kind == "tbl":
            v = _build(v) if isinstance(v, N) else v
        elif kind in ("strs", "strs?"):
            v = None if v is None else SEQ(v)
        elif kind.startswith("enum"):
            v = None if v is None else enum(kind.split(":")[1], v)
        elif kind == "dtype":
            v = build_type(v)
        elif kind == "wins":
            v = None if v is None else {a: _build(b) for a, b in v}
        if f == "distinct" and not v:
            continue
        kw[f] = v
    if "_dtype" in n.d:       # a column whose type is given
        kw["data_type"] = build_type(n.d["_dtype"])
    if n.t == "ApproxPercentile":
        # this class takes its overloads positionally: (value, percentage) or (value, weight, percentage)
        args = [kw.pop("value")]
        p, w = kw.pop("percentage"), kw.pop("weight")
        args += [p] if w is None else [w, p]
        return cls(n.t)(*args, **kw)
    return cls(n.t)(**kw)


def build_tuples(n):
    """The same tree, its lists of parts given as tuples."""
    global SEQ
    SEQ = tuple
    try:
        return build(n)
    finally:
        SEQ = list


def build(n):
    return guard(f"building {S.short(n, 400)}", _build, n)


_memo, _apart = None, ()


def build_shared(n, apart=()):
    """Equal parts of the tree are one and the same object, which the library allows, but for those with such nodes."""
    global _memo, _apart
    _memo, _apart = {}, apart
    try:
        return build(n)
    finally:
        _memo = None


# ---- observing ------------------------------------------------------------------------------------------------
_names = None


def _class_names():
    global _names
    if _names is None:
        _names = {}
        for name in list(S.FIELDS) + ["Literal"]:
            try:
                _names[cls(name)] = name
            except (AttributeError, ImportError):
                pass
    return _names


def canon_type(d):
    if type(d) is not mod("treeno.datatypes.types").DataType:
        return N("Odd", {"text": f"{type(d).__name__}:{d!r}"[:200]})
    params = {}
    for k, v in d.parameters.items():
        if v is None:
            continue
        if isinstance(v, (list, tuple)):
            params[k] = tuple(canon_type(x) for x in v)
        elif isinstance(v, (int, str, bool)):
            params[k] = v
        else:
            params[k] = canon_type(v)
    try:
        return S.dt(d.type_name, **params)
    except Exception:
        return N("Odd", {"text": repr(d)[:200]})


def _canon(o):
    if o is None:
        return None
    name = _class_names().get(type(o))
    if name is None:
        return N("Odd", {"text": f"{type(o).__name__}:{str(o)[:100]}"})
    if name == "Literal":
        v = o.value
        if isinstance(v, Enum):
            return N("Odd", {"text": repr(v)})
        return S.lit(v)
    out = {}
    for f, kind in S.FIELDS[name]:
        if f == "distinct":
            out[f] = bool(getattr(o, "distinct", False))
            continue
        v = getattr(o, f)
        if kind in ("node", "node?"):
            v = _canon(v)
        elif kind in ("nodes", "nodes?"):
            if v is None or (kind == "nodes?" and len(v) == 0):
                v = None
            elif isinstance(v, (list, tuple)):
                v = tuple(_canon(x) for x in v)
            else:
                v = N("Odd", {"text": repr(v)[:200]})
        elif kind == "tbl":
            v = v if v is None or isinstance(v, str) else _canon(v)
        elif kind in ("strs", "strs?"):
            if v is None or (kind == "strs?" and len(v) == 0):
                v = None
            elif isinstance(v, (list, tuple)):
                v = tuple(v)
            else:
                v = N("Odd", {"text": repr(v)[:200]})
        elif kind.startswith("enum"):
            v = v.name if isinstance(v, Enum) else (None if v is None else N("Odd", {"text": repr(v)}))
        elif kind == "dtype":
            v = canon_type(v)
        elif kind == "wins":
            v = tuple((a, _canon(b)) for a, b in v.items()) if v else None
        elif kind == "bool":
            v = bool(v) if v in (True, False, None) else N("Odd", {"text": repr(v)})
        out[f] = v
    return N(name, out)


def canon(o):
    """The spec of a tree, observed through its public attributes only."""
    try:
        return _canon(o)
    except RecursionError:
        raise
    except Exception as e:
        raise SutError("reading the attributes of the tree", e)


def paired(n, o):
    """(spec node, object) for every node of a tree that was built from, or parsed into, that spec."""
    yield n, o
    if n.t in ("Literal", "DataType"):
        return
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if v is None or f == "distinct":
            continue
        w = getattr(o, f)
        if kind in ("node", "node?") or kind == "tbl" and isinstance(v, N):
            yield from paired(v, w)
        elif kind in ("nodes", "nodes?"):
            for x, y in zip(v, w):
                yield from paired(x, y)
        elif kind == "wins":
            for name, x in v:
                yield from paired(x, w[name])


def available(name):
    try:
        cls(name)
        return True
    except (AttributeError, ImportError):
        return False
