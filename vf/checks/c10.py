"""C10: data types round trip, take their documented defaults, and unknown or ill-parametrized ones are refused."""
import copy

from ..common import *
from ..spec import N, dt, mk, tparam

PROPERTY = "C10"
RULE = ("round trips: the type has a parameter; refusals and raw texts: all; distinct by the text, or by the name and the parameters given")
ASSUMPTIONS = ["ranges: DECIMAL precision 0..38 and scale 0..precision, TIME/TIMESTAMP precision 0..12, lengths of characters at least 0 (no upper "
               "limit is documented), intervals YEAR TO MONTH and DAY TO SECOND", "rows have at least one member (a row without one has no spelling)",
               "numbers given from Python as parameters are ints and not bools"]
COUNTS = {"quick": 15000, "thorough": 250000}

LEAVES = ["BOOLEAN", "INTEGER", "TINYINT", "SMALLINT", "BIGINT", "REAL", "DOUBLE", "VARBINARY", "JSON", "DATE", "IPADDRESS", "UUID", "HYPERLOGLOG",
          "P4HYPERLOGLOG", "TDIGEST", "UNKNOWN"]
UNKNOWN_NAMES = ["INT", "STRING", "TEXT", "FLOAT", "NUMERIC", "DATETIME", "BOOL", "BYTEA", "BIGINTEGER", "BIGIN", "VARCHAR2", "ARRAYS", "DEC", "HLL", "IP",
                 "TIMESTAMPTZ", "BIG INT", "", " BIGINT", "BIGINT ", "DOUBLE PRECISION", "COLOR", "GEOMETRY", "INTERVAL DAY TO SECOND", "VARCHAR(3)", "QDIGESTS",
                 "SETDIGEST", "FUNCTION", "NULL", "ANY", "RECORD", "STRUCT", "LIST", "T", "ROWS", "MAPS", "CHARACTER", "BLOB"]

# ---- what a name with parameters means (the reference rule) ------------------------------------------------------------
INT = "int"
TYPE = "type"


def is_int(v):
    return isinstance(v, int) and not isinstance(v, bool)


def is_type(v):
    return isinstance(v, N) and v.t == "DataType"


def meaning(name, params):
    """The data type of a name and a dictionary of parameters; None when it has to be refused."""
    p = dict(params)
    def take(k, test, required=False):
        if k not in p:
            return not required
        return test(p[k])
    if name in LEAVES:
        return dt(name) if not p else None
    keys = {"DECIMAL": {"precision", "scale"}, "VARCHAR": {"max_chars"}, "CHAR": {"max_chars"}, "TIME": {"precision", "timezone"},
            "TIMESTAMP": {"precision", "timezone"}, "ARRAY": {"dtype"}, "MAP": {"from_dtype", "to_dtype"}, "ROW": {"dtypes"},
            "INTERVAL": {"from_interval", "to_interval"}, "QDIGEST": {"dtype"}}.get(name)
    if keys is None or not set(p) <= keys:
        return None
    if name == "DECIMAL":
        if not (take("precision", is_int) and take("scale", is_int)):
            return None
        prec, scale = p.get("precision", 38), p.get("scale", 0)
        return dt(name, precision=prec, scale=scale) if 0 <= scale <= prec <= 38 else None
    if name in ("VARCHAR", "CHAR"):
        if not take("max_chars", is_int) or p.get("max_chars", 0) < 0:
            return None
        return dt(name, **p)
    if name in ("TIME", "TIMESTAMP"):
        if not (take("precision", is_int) and take("timezone", lambda v: isinstance(v, bool))):
            return None
        return dt(name, **p) if 0 <= p.get("precision", 0) <= 12 else None
    if name in ("ARRAY", "QDIGEST"):
        return dt(name, **p) if take("dtype", is_type, True) else None
    if name == "MAP":
        return dt(name, **p) if take("from_dtype", is_type, True) and take("to_dtype", is_type, True) else None
    if name == "ROW":
        return dt(name, **p) if take("dtypes", lambda v: isinstance(v, tuple) and all(is_type(x) for x in v), True) else None
    if (p.get("from_interval"), p.get("to_interval")) in (("YEAR", "MONTH"), ("DAY", "SECOND")):
        return dt(name, **p)
    return None


def real(v):
    if is_type(v):
        return sut.build_type(v)
    if isinstance(v, tuple):
        return [real(x) for x in v]
    return v


def built(name, params, spelled=None):
    """Build from Python: accepted with exactly that meaning, or refused; the caller's parameters stay as they are."""
    want = meaning(name, params)
    args = {k: real(v) for k, v in params.items()}
    before = copy.deepcopy(args)
    D = sut.mod("treeno.datatypes.types").DataType
    try:
        got = sut.guard("DataType", D, spelled or name, parameters=args)
    except sut.SutError:
        require(want is None, lambda: f"the type {name} with {params} is refused")
        require(args == before, lambda: f"refusing {name} changed its parameters {before} to {args}")
        return "refused"
    require(want is not None, lambda: f"the type {name} with the parameters {params} must be refused, yet it is accepted as {sut.show(got)!r}")
    c = sut.canon_type(got)
    require(c == want, lambda: f"the type {name} with {params} became {c} instead of {want}")
    require(args == before and list(args) == list(before), lambda: f"building {name} changed the caller's parameters {before} to {args}")
    if name == "ROW" and params["dtypes"] == ():
        return "accepted"
    text = sut.show(got)
    require(args == before, lambda: f"printing {text!r} changed the caller's parameters to {args}")
    back = sut.canon_type(sut.parse_type(text))
    require(back == want, lambda: f"the type {name} with {params} prints as {text!r} which means {back}")
    again = sut.guard("DataType", D, name, parameters=args)
    require(got == again and not (got != again), lambda: f"two types {text!r} are not equal")
    return "accepted"


def round_trip(t, src=None):
    obj, text = L.print_leg(t, "type")
    L.pretty_leg(obj, text)
    spelled = L.parse_leg(t, "type", src)
    if castable(t):
        e = mk("Cast", F, t)
        L.print_leg(e, "expr")
        L.parse_leg(e, "expr", src)
    return spelled


F = atoms.F("a")


def castable(t):
    """A cast to UNKNOWN itself is refused by treeno: it says nothing."""
    return t.name != "UNKNOWN"


# ---- texts ----------------------------------------------------------------------------------------------------------
# A raw type is (name, args): args None or a list of ints and raw types; or ("#time", base, precision or None, zone) or ("#array", raw)
def raw_text(r, src=None):
    sp = (lambda: src.pick(["", "", " ", "\n", " /*c*/ "])) if src is not None else (lambda: "")
    case = (lambda w: src.pick([w, w, w.lower(), w.capitalize() if w.isalpha() else w])) if src is not None else (lambda w: w)
    kw = (lambda w: src.pick([w, w.lower()])) if src is not None else (lambda w: w)
    gap = " "
    if r[0] == "#time":
        _, base, prec, zone = r
        t = kw(base) + ("" if prec is None else f"{sp()}({sp()}{prec if isinstance(prec, int) else raw_text(prec, src)}{sp()})")
        if zone == "with":
            t += gap + kw("WITH") + gap + kw("TIME") + gap + kw("ZONE")
        elif zone == "without":
            t += gap + kw("WITHOUT") + gap + kw("TIME") + gap + kw("ZONE")
        return t
    if r[0] == "#array":
        return raw_text(r[1], src) + gap + kw("ARRAY")
    if r[0] == "#double":
        return kw("DOUBLE") + gap + kw("PRECISION")
    if r[0] == "#interval":
        return f"{kw('INTERVAL')} {kw(r[1])}" + (f" {kw('TO')} {kw(r[2])}" if r[2] else "")
    name, args = r
    word = kw(name) if name in ("ARRAY", "MAP", "ROW", "TIME", "TIMESTAMP", "INTERVAL", "DATE") else case(name)
    if src is not None and src.chance(1, 8) and name not in ("ROW", "INTERVAL"):
        word = '"' + word + '"'
    if args is None:
        return word
    return word + sp() + "(" + sp() + (sp() + "," + sp()).join(str(a) if isinstance(a, int) else raw_text(a, src) for a in args) + sp() + ")"


ROLES = {"DECIMAL": ["precision", "scale"], "VARCHAR": ["max_chars"], "CHAR": ["max_chars"], "TIME": ["precision", "timezone"],
         "TIMESTAMP": ["precision", "timezone"], "ARRAY": ["dtype"], "MAP": ["from_dtype", "to_dtype"], "QDIGEST": ["dtype"]}


def raw_meaning(r):
    if r[0] == "#time":
        _, base, prec, zone = r
        p = {"timezone": zone == "with"}
        if prec is not None:
            if not isinstance(prec, int):
                return None
            p["precision"] = prec
        return meaning(base, p)
    if r[0] == "#array":
        m = raw_meaning(r[1])
        return None if m is None else dt("ARRAY", dtype=m)
    if r[0] == "#double":
        return dt("DOUBLE")
    if r[0] == "#interval":
        return meaning("INTERVAL", {"from_interval": r[1], "to_interval": r[2]})
    name, args = r
    vals = []
    for a in args or []:
        v = a if isinstance(a, int) else raw_meaning(a)
        if v is None:
            return None
        vals.append(v)
    if name == "ROW":
        return dt("ROW", dtypes=vals) if vals and all(is_type(v) for v in vals) else None
    if len(vals) > len(ROLES.get(name, [])):
        return None
    return meaning(name, dict(zip(ROLES.get(name, []), vals)))


def raw_case(r, src=None):
    want = raw_meaning(r)
    text = raw_text(r, src)
    for form, parse in (("%s", sut.parse_type), ("CAST(a AS %s)", lambda t: sut.parse_expr(t).data_type)):
        if form != "%s" and (want is not None and not castable(want) or src is not None and src.choose(2)):
            continue
        t = form % text
        try:
            got = sut.canon_type(parse(t))
        except sut.SutError as e:
            require(want is None, lambda: f"the type in {t!r} is refused: {e}")
            require(not isinstance(e.exc, RecursionError), lambda: str(e))
            continue
        require(want is not None, lambda: f"the type in {t!r} must be refused, yet it is accepted as {got}")
        require(got == want, lambda: f"the type in {t!r} is parsed as {got} instead of {want}")
    return Out(sample=text, labels=["text accepted" if want is not None else "text refused"])


def raw(src, d):
    """A type text with any parameters, good or bad."""
    k = src.weighted([(8, "name"), (3, "#time"), (2, "#array"), (1, "#double"), (1, "#interval"), (1, "unknown")])
    if k == "#time":
        prec = src.pick([None, None, 3, 0, 6, 12, 13, 1, 9, 99]) if not (d > 0 and src.chance(1, 12)) else raw(src, d - 1)
        return ("#time", src.pick(["TIME", "TIMESTAMP"]), prec, src.pick(["", "with", "without"]))
    if k == "#array" and d > 0:
        return ("#array", raw(src, d - 1))
    if k == "#double":
        return ("#double",)
    if k == "#interval":
        f = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]
        if src.choose(2):
            return src.pick([("#interval", "YEAR", "MONTH"), ("#interval", "DAY", "SECOND")])
        return ("#interval", src.pick(f), src.pick(f + [None]))
    if k == "unknown":
        return (src.pick([n for n in UNKNOWN_NAMES if n.isalnum() and n not in ("NULL", "ANY")]), src.pick([None, None, [3]]))
    name = src.pick(LEAVES + sorted(ROLES) * 2 + ["ROW", "ROW"])
    n = src.pick([0, 0, 0, 1]) if name in LEAVES else src.weighted([(6, None), (1, 0), (1, 1), (1, 2), (1, 3)])
    if n is None:
        n = 1 + src.choose(3) if name == "ROW" else {"ARRAY": 1, "QDIGEST": 1, "MAP": 2, "DECIMAL": 1 + src.choose(2)}.get(name, src.choose(2))
    good = name if src.chance(9, 10) else None
    args = []
    for i in range(n):
        want_type = good in ("ARRAY", "MAP", "ROW", "QDIGEST") or (good is None and src.choose(2))
        if want_type and d > 0:
            args.append(raw(src, d - 1))
        elif name == "DECIMAL":
            args.append(src.pick([0, 1, 2, 5, 10, 18, 37, 38, 39, 40, 100] if i == 0 else [0, 1, 2, 5, 10, 37, 38, 39]))
        else:
            args.append(src.pick([0, 1, 3, 6, 12, 13, 255, 65536, 2147483646]))
    if args and name in ("TIME", "TIMESTAMP") and len(args) == 1:
        return ("#time", name, args[0], "")
    return (name, args or None)


TEXTS = [("double precision", dt("DOUBLE")), ("DOUBLE  PRECISION", dt("DOUBLE")), ("BIGINT ARRAY", dt("ARRAY", dtype=dt("BIGINT"))),
         ("BIGINT ARRAY ARRAY", dt("ARRAY", dtype=dt("ARRAY", dtype=dt("BIGINT")))), ("DECIMAL(010,02)", dt("DECIMAL", precision=10, scale=2)),
         ("DECIMAL(5) ARRAY", dt("ARRAY", dtype=dt("DECIMAL", precision=5))), ("Decimal", dt("DECIMAL", precision=38, scale=0)),
         ("char", dt("CHAR", max_chars=1)), ("varchar", dt("VARCHAR")), ("TIME WITHOUT TIME ZONE", dt("TIME")), ("timestamp", dt("TIMESTAMP")),
         ("TIMESTAMP(3) WITHOUT TIME ZONE", dt("TIMESTAMP", precision=3)), ("TIME WITH TIME ZONE ARRAY", dt("ARRAY", dtype=dt("TIME", timezone=True))),
         ('"bigint"', dt("BIGINT")), ('"Map"(date, "json")', dt("MAP", from_dtype=dt("DATE"), to_dtype=dt("JSON"))),
         ("interval year to month", dt("INTERVAL", from_interval="YEAR", to_interval="MONTH")),
         ("ROW(BIGINT, ROW(DATE)) ARRAY", dt("ARRAY", dtype=dt("ROW", dtypes=[dt("BIGINT"), dt("ROW", dtypes=[dt("DATE")])])))]
BAD_TEXTS = ["", "()", "BIGINT()", "BIGINT(", "BIGINT)", "DECIMAL(,)", "DECIMAL(5,)", "DECIMAL(-5)", "DECIMAL(5,-1)", "DECIMAL(5.0)", "DECIMAL('5')", "DECIMAL(5 2)",
             "DECIMAL 5", "VARCHAR(-1)", "VARCHAR(3.5)", "VARCHAR(1E1)", "CHAR(-1)", "TIME(-1)", "TIME(3) WITH ZONE", "TIME WITH TIME", "TIME ZONE", "DATE WITH TIME ZONE",
             "BIGINT WITH TIME ZONE", "WITH TIME ZONE", "TIMESTAMP(3,4)", "ROW", "ROW()", "ROW(3)", "ROW(a BIGINT)", "ROW(a BIGINT, b DATE)", "MAP", "MAP()", "MAP(BIGINT)",
             "MAP(BIGINT, DATE, JSON)", "ARRAY", "ARRAY(3)", "ARRAY(BIGINT, DATE)", "ARRAY<BIGINT>", "MAP<BIGINT, DATE>", "BIGINT ARRAY[3]", "INTERVAL", "INTERVAL DAY",
             "INTERVAL MONTH TO YEAR", "INTERVAL YEAR TO DAY", "INTERVAL DAY TO HOUR", "INTERVAL SECOND TO DAY", "INTERVAL HOUR TO SECOND", "BIGINT BIGINT", "BIGINT;",
             "BIGINT, DATE", "1", "'BIGINT'", "NULL", "a.BIGINT", "QDIGEST", "QDIGEST(3)", "QDIGEST(BIGINT, DATE)", "JSON(3)", "DATE(3)", "UUID(1)", "DOUBLE PRECISION(3)",
             "DOUBLE(3)", "REAL(3)", "UNKNOWN(3)", "BOOLEAN(BIGINT)", "`BIGINT`", "SELECT 1", "ARRAY(BIGINT", "ARRAY(DECIMAL(39))", "ROW(BIGINT, DECIMAL(3,4))",
             "MAP(TIME(13), DATE)", "ARRAY(nope)", "ROW(ROW(ROW(nope)))", "DECIMAL(38,39)", "DECIMAL(0,1)", "DECIMAL(39,0)"]
# what callers may give from Python
POOL = [0, 1, 3, 12, 13, 38, 39, -1, 10 ** 12, "3", "YEAR", None, 3.0, {}, "BIGINT", ("x",), b"3", dt("BIGINT"), dt("ARRAY", dtype=dt("DATE"))]
KEYS = ["precision", "scale", "max_chars", "timezone", "dtype", "from_dtype", "to_dtype", "dtypes", "from_interval", "to_interval", "size", ""]


def enumerated(tier):
    out = []
    for t in atoms.TYPES:
        out.append((f"type {t}", lambda t=t: Out(sample=round_trip(t), nontrivial=bool(t.params))))
    for p in range(0, 39):
        for s in range(0, p + 1):
            if tier == "quick" and (p * 7 + s * 3) % 4 and s not in (0, p) and p != 38:
                continue
            t = dt("DECIMAL", precision=p, scale=s)
            out.append((f"type {t}", lambda t=t: Out(sample=round_trip(t))))
    for name in ("TIME", "TIMESTAMP"):
        for p in [None] + list(range(0, 13)):
            for z in (False, True):
                t = dt(name, timezone=z, **({} if p is None else {"precision": p}))
                out.append((f"type {t}", lambda t=t: Out(sample=round_trip(t))))
    for n in ("VARCHAR", "CHAR"):
        for m in [0, 1, 2, 9, 10, 99, 255, 65535, 65536, 2147483646]:
            t = dt(n, max_chars=m)
            out.append((f"type {t}", lambda t=t: Out(sample=round_trip(t))))
    for a in atoms.TYPES:
        for t in (dt("ARRAY", dtype=a), dt("QDIGEST", dtype=a), dt("MAP", from_dtype=a, to_dtype=dt("BIGINT")), dt("MAP", from_dtype=dt("DATE"), to_dtype=a),
                  dt("ROW", dtypes=[a]), dt("ROW", dtypes=[a, dt("DATE")]), dt("ROW", dtypes=[dt("CHAR", max_chars=3), a, a])):
            out.append((f"nested {t}", lambda t=t: Out(sample=round_trip(t))))
    for text, want in TEXTS:
        def f(text=text, want=want):
            got = sut.canon_type(sut.parse_type(text))
            require(got == want, lambda: f"{text!r} is parsed as {got} instead of {want}")
            return Out(sample=text)
        out.append((f"text {text}", f))
    for text in BAD_TEXTS:
        out.append((f"refuse {text!r}", lambda text=text: refused(text)))
    for name in UNKNOWN_NAMES:
        for p in ({}, {"precision": 3}, {"dtype": dt("BIGINT")}):
            out.append((f"unknown {name!r}", lambda name=name, p=p: Out(sample=f"{name!r} {p} {built(name, p)}")))
    every_name = LEAVES + sorted(ROLES) + ["ROW", "INTERVAL"]
    for name in every_name:
        for spelled in (name, name.lower(), name.capitalize()):
            out.append((f"bare {spelled}", lambda name=name, s=spelled: Out(sample=f"{s} {built(name, {}, s)}")))
        for k in KEYS:
            for v in POOL + [True, (dt("DATE"),), (dt("DATE"), 3)]:
                if isinstance(v, bool) and k != "timezone":
                    continue
                base = {"ARRAY": {"dtype": dt("DATE")}, "QDIGEST": {"dtype": dt("DATE")}, "MAP": {"from_dtype": dt("DATE"), "to_dtype": dt("JSON")},
                        "ROW": {"dtypes": (dt("DATE"),)}, "INTERVAL": {"from_interval": "DAY", "to_interval": "SECOND"}}.get(name, {})
                p = dict(base)
                p[k] = v
                out.append((f"{name} {k}={v!r}", lambda name=name, p=p: Out(sample=f"{name} {p} {built(name, p)}")))
        if name in ("ARRAY", "QDIGEST", "MAP", "INTERVAL"):
            for k in list(base):
                p = {a: b for a, b in base.items() if a != k}
                out.append((f"{name} without {k}", lambda name=name, p=p: Out(sample=f"{name} {p} {built(name, p)}")))
    # rows of several members, one of which may be no type
    for n in (1, 2, 3, 5, 9, 17, 40):
        for i in [None] + sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
            for v in (3, "BIGINT", ("x",), {}):
                q = {"dtypes": tuple(v if j == i else dt(["DATE", "BIGINT"][j % 2]) for j in range(n))}
                out.append((f"ROW of {n}, {i} is {v!r}", lambda q=q: Out(sample=f"ROW {q} {built('ROW', q)}")))
                if i is None:
                    break
    for p in range(-1, 41):
        for s in (-1, 0, 1, p - 1, p, p + 1, 38, 39):
            q = {"scale": s, "precision": p}
            out.append((f"DECIMAL {q}", lambda q=q: Out(sample=f"DECIMAL {q} {built('DECIMAL', q)}")))
        for name in ("TIME", "TIMESTAMP"):
            for z in (False, True):
                q = {"timezone": z, "precision": p}
                out.append((f"{name} {q}", lambda name=name, q=q: Out(sample=f"{name} {q} {built(name, q)}")))
    for name in sorted(ROLES) + ["BIGINT", "DATE"]:
        for n in range(0, 4):
            for kind in range(2 ** n):
                args = [("DATE", None) if kind >> i & 1 else 3 - i for i in range(n)]
                if name in ("TIME", "TIMESTAMP") and n == 1:
                    r = ("#time", name, args[0], "")
                else:
                    r = (name, args or None)
                out.append((f"raw {raw_text(r)}", lambda r=r: raw_case(r)))
    for a in ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
        for b in [None, "YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]:
            out.append((f"interval {a} {b}", lambda a=a, b=b: raw_case(("#interval", a, b))))
            if b is not None:
                q = {"from_interval": a, "to_interval": b}
                out.append((f"INTERVAL {q}", lambda q=q: Out(sample=f"INTERVAL {q} {built('INTERVAL', q)}")))
    return out


def refused(text):
    for form, parse in (("%s", sut.parse_type), ("CAST(a AS %s)", sut.parse_expr)):
        t = form % text
        try:
            got = parse(t)
        except sut.SutError:
            continue
        fail(f"{t!r} holds no valid type, yet it is accepted as {sut.show(got)!r}")
    return Out(sample=text)


def case(src):
    k = src.choose(3)
    if k == 0:
        t = Gen(src, size=20).type(src.pick([0, 1, 2, 3, 4, 5]), unknown=True)
        return Out(sample=round_trip(t, src), nontrivial=bool(t.params), labels=["round trip"])
    if k == 1:
        return raw_case(raw(src, src.pick([0, 1, 2, 3])), src)
    t = Gen(src, size=12).type(src.pick([0, 1, 2]), unknown=True)
    p = dict(t.params)
    for _ in range(src.choose(3)):
        j = src.choose(3)
        if j == 0 and isinstance(p.get("dtypes"), tuple) and src.chance(1, 3):
            members = list(p["dtypes"]) + [dt("DATE")] * src.choose(12)
            members.insert(src.choose(len(members) + 1), src.pick(POOL))
            p["dtypes"] = tuple(members)
        elif j == 0:
            key = src.pick(sorted(p) or KEYS) if src.choose(3) else src.pick(KEYS)
            v = src.pick(POOL + [(dt("DATE"),)])
            p[key] = v
        elif j == 1 and p:
            del p[src.pick(sorted(p))]
        elif p:
            key = src.pick(sorted(p))
            if is_int(p[key]):
                p[key] = p[key] + src.pick([1, -1, 30, -30])
    label = built(t.name, p, src.pick([t.name, t.name.lower(), t.name.capitalize()]))
    return Out(sample=f"{t.name} {p} {label}", labels=["from Python, " + label])
