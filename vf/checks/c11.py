"""C11: the laws of the common supertype, and agreement with a lattice of our own."""
import copy

from ..common import *
from ..spec import N, dt, mk, tparam

PROPERTY = "C11"
RULE = "the types differ; distinct by the types (a pair with every third type counts once)"
ASSUMPTIONS = ["associativity is claimed except where DATE meets TIME (their supertype is documented as unknown, which then yields to a third type)",
               "'can hold' is about ranges: a REAL is taken to hold every number and decimals are capped at 38 digits, the digits after the point being kept; "
               "CHAR and VARCHAR give a CHAR of at most 65536 characters, as documented"]
COUNTS = {"quick": 25000, "thorough": 400000}
A = lambda t: dt("ARRAY", dtype=t)


def universe():
    out = [dt(n) for n in S.SIMPLE_TYPES]
    out += [dt("DECIMAL", precision=p, scale=s) for p, s in [(38, 0), (38, 38), (38, 10), (10, 0), (10, 10), (5, 2), (19, 0), (20, 19), (3, 1), (1, 0), (30, 5), (0, 0)]]
    out += [dt("VARCHAR"), dt("VARCHAR", max_chars=3), dt("VARCHAR", max_chars=0), dt("VARCHAR", max_chars=100000), dt("CHAR"), dt("CHAR", max_chars=5), dt("CHAR", max_chars=65536)]
    for n in ("TIME", "TIMESTAMP"):
        for p in (None, 0, 3, 12):
            for z in (False, True):
                out.append(dt(n, timezone=z, **({} if p is None else {"precision": p})))
    out += [dt("INTERVAL", from_interval="DAY", to_interval="SECOND"), dt("INTERVAL", from_interval="YEAR", to_interval="MONTH")]
    out += [A(dt("BIGINT")), A(dt("UNKNOWN")), A(dt("DECIMAL", precision=5, scale=2)), A(dt("VARCHAR")), A(A(dt("INTEGER"))), A(dt("DATE"))]
    out += [dt("MAP", from_dtype=dt("BIGINT"), to_dtype=dt("VARCHAR")), dt("MAP", from_dtype=dt("DOUBLE"), to_dtype=dt("UNKNOWN")), dt("MAP", from_dtype=dt("VARCHAR"), to_dtype=dt("BIGINT")),
            dt("MAP", from_dtype=dt("TINYINT"), to_dtype=dt("CHAR", max_chars=7))]
    out += [dt("ROW", dtypes=x) for x in ([dt("BIGINT")], [dt("REAL")], [dt("BIGINT"), dt("VARCHAR", max_chars=2)], [dt("DECIMAL", precision=4, scale=1), dt("UNKNOWN")], [dt("DATE"), dt("TIME", precision=3)],
                                          [A(dt("SMALLINT")), dt("CHAR", max_chars=3)])]
    out += [dt("QDIGEST", dtype=dt("BIGINT")), dt("QDIGEST", dtype=dt("DOUBLE"))]
    return out


REFUSED = "refused"


def sup(a, b):
    """common_supertype of two specs: a spec, or REFUSED for a TypeError; anything else is a crash."""
    x, y = sut.build_type(a), sut.build_type(b)
    f = sut.mod("treeno.datatypes.conversions").common_supertype
    try:
        got = sut.guard(f"common_supertype({x}, {y})", f, x, y)
    except sut.SutError as e:
        require(isinstance(e.exc, TypeError), lambda: f"the supertype of {x} and {y} crashes: {e}")
        got = None
    require(sut.canon_type(x) == a and sut.canon_type(y) == b, lambda: f"common_supertype changed its arguments {a}, {b} to {x}, {y}")
    return REFUSED if got is None else sut.canon_type(got)


def holds(t, a):
    """Can a value of type a be kept in type t?  (None: t says nothing)"""
    if t == a or a.name == "UNKNOWN":
        return True
    if t.name == "UNKNOWN":
        return None
    digits = T.INTS
    if a.name in digits:
        if t.name in digits:
            return digits[t.name] >= digits[a.name]
        if t.name == "DECIMAL":
            return tparam(t, "precision") == 38 or tparam(t, "precision") - tparam(t, "scale") >= digits[a.name]
        return t.name in T.FLOATS
    if a.name == "DECIMAL":
        if t.name == "DECIMAL":
            ip = tparam(t, "precision") - tparam(t, "scale") >= tparam(a, "precision") - tparam(a, "scale")
            return tparam(t, "scale") >= tparam(a, "scale") and (ip or tparam(t, "precision") == 38) and tparam(t, "precision") <= 38
        return t.name in T.FLOATS
    if a.name == "REAL":
        return t.name == "DOUBLE"
    if a.name in ("VARCHAR", "CHAR"):
        n, m = tparam(t, "max_chars"), tparam(a, "max_chars")
        if t.name == "VARCHAR":
            return a.name == "VARCHAR" and (n is None or (m is not None and n >= m))
        return t.name == "CHAR" and n <= 65536 and (n == 65536 or (m is not None and n >= m))
    if a.name in ("TIME", "TIMESTAMP"):
        if t.name != a.name and (t.name, a.name) != ("TIMESTAMP", "TIME"):
            return False
        n, m = tparam(t, "precision"), tparam(a, "precision")
        return (n is None or (m is not None and n >= m)) and (tparam(t, "timezone") or not tparam(a, "timezone"))
    if a.name == "DATE":
        return t.name == "TIMESTAMP"
    if a.name == "P4HYPERLOGLOG":
        return t.name == "HYPERLOGLOG"
    if a.name != t.name:
        return False
    if a.name in ("ARRAY", "QDIGEST"):
        return holds(tparam(t, "dtype"), tparam(a, "dtype"))
    if a.name == "MAP":
        return both(holds(tparam(t, k), tparam(a, k)) for k in ("from_dtype", "to_dtype"))
    if a.name == "ROW":
        return len(tparam(t, "dtypes")) == len(tparam(a, "dtypes")) and both(holds(x, y) for x, y in zip(tparam(t, "dtypes"), tparam(a, "dtypes")))
    return False


def both(xs):
    xs = list(xs)
    return False if False in xs else None if None in xs else True


def expected(a, b):
    try:
        return T.supertype(a, b)
    except T.NoType:
        return REFUSED


def pair(a, b):
    ab, ba = sup(a, b), sup(b, a)
    require(ab == ba, lambda: f"the supertype of {a} and {b} is {ab}, in the other order {ba}")
    if a == b:
        require(ab == a, lambda: f"the supertype of {a} with itself is {ab}")
    if a.name == "UNKNOWN":
        require(ab == b, lambda: f"the supertype of the unknown type and {b} is {ab}")
    if ab != REFUSED:
        for x in (a, b):
            require(holds(ab, x) is not False, lambda: f"the supertype {ab} of {a} and {b} cannot hold every {x}")
    want = expected(a, b)
    require(ab == want, lambda: f"the supertype of {a} and {b} is {ab} instead of {want}")
    return ab


def date_and_time(ts):
    """DATE meets TIME somewhere in these types."""
    names = set()
    def walk(t):
        names.add(t.name)
        for _, v in t.params:
            for x in v if isinstance(v, tuple) else (v,):
                if isinstance(x, N):
                    walk(x)
    for t in ts:
        walk(t)
    return {"DATE", "TIME"} <= names


def vague(t):
    return t.name == "UNKNOWN" or any(vague(x) for _, v in t.params for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, N))


def triple(a, b, c, ab=None):
    ab = sup(a, b) if ab is None else ab
    bc = sup(b, c)
    if REFUSED in (ab, bc):
        return
    left, right = sup(ab, c), sup(a, bc)
    # different intervals or digests have the unknown supertype, which yields to anything else
    if left != right and not (date_and_time([a, b, c]) or lost(a, b, ab) or lost(b, c, bc)):
        fail(f"grouping matters: ({a}, {b}), {c} gives {left}, but {a}, ({b}, {c}) gives {right}")


def lost(a, b, t):
    """The supertype gave up somewhere: unknown although both sides are known there."""
    if t.name == "UNKNOWN":
        return a.name != "UNKNOWN" and b.name != "UNKNOWN"
    if a.name == b.name == t.name:
        for (k, x), (_, y), (_, z) in zip(a.params, b.params, t.params):
            if isinstance(x, N) and lost(x, y, z):
                return True
            if isinstance(x, tuple) and any(lost(p, q, r) for p, q, r in zip(x, y, z)):
                return True
    return False


def enumerated(tier):
    us = universe()
    out = []
    for i, a in enumerate(us):
        for j, b in enumerate(us):
            def f(a=a, b=b, i=i, j=j):
                ab = pair(a, b)
                n = 0
                if ab != REFUSED:
                    for k, c in enumerate(us):
                        if tier == "thorough" or (i * 5 + j * 3 + k) % 4 == 0:
                            triple(a, b, c, ab)
                            n += 1
                return Out(sample=f"{type_text(a)} / {type_text(b)} -> {ab if ab == REFUSED else type_text(ab)}", nontrivial=a != b,
                           labels=["refused" if ab == REFUSED else "unknown" if ab.name == "UNKNOWN" else "common", f"third types {n // 10 * 10}+"])
            out.append((f"{a} / {b}", f))
    decs = [(p, s) for p in (0, 1, 2, 5, 9, 10, 11, 18, 19, 20, 30, 37, 38) for s in range(0, p + 1) if s in (0, 1, 2, p - 1, p, p // 2)]
    for p, s in decs:
        def g(p=p, s=s):
            a = dt("DECIMAL", precision=p, scale=s)
            for q, r in decs:
                pair(a, dt("DECIMAL", precision=q, scale=r))
            for t in (dt(n) for n in list(T.INTS) + T.FLOATS):
                pair(a, t)
                pair(t, a)
            return Out(sample=f"{type_text(a)} with {len(decs)} decimals")
        out.append((f"DECIMAL({p},{s})", g))
    return out


def type_text(t):
    return L.text_of(t, "type")[0]


def vary(src, t):
    """A type near t: some member or parameter replaced."""
    k = src.choose(6)
    if k == 0:
        return Gen(src, size=8).type(1, unknown=True)
    if t.name == "ARRAY":
        return A(vary(src, tparam(t, "dtype")))
    if t.name == "MAP":
        return dt("MAP", from_dtype=vary(src, tparam(t, "from_dtype")), to_dtype=vary(src, tparam(t, "to_dtype")))
    if t.name == "ROW":
        ts = [vary(src, x) for x in tparam(t, "dtypes")]
        if src.chance(1, 12):
            ts.append(dt("BIGINT"))
        return dt("ROW", dtypes=ts)
    if t.name == "DECIMAL" or t.name in T.NUMERIC:
        if src.choose(2):
            return dt(src.pick(sorted(T.NUMERIC)))
        p = src.choose(39)
        return dt("DECIMAL", precision=p, scale=src.choose(p + 1))
    if t.name in ("VARCHAR", "CHAR"):
        n = src.pick([0, 1, 5, 70, 65535, 65536, 65537, 10 ** 9])
        return src.pick([dt("VARCHAR"), dt("VARCHAR", max_chars=n), dt("CHAR", max_chars=min(n, 65536))])
    if t.name in ("TIME", "TIMESTAMP"):
        kw = {"precision": src.choose(13)} if src.choose(3) else {}
        return dt(src.pick(["TIME", "TIMESTAMP"]), timezone=bool(src.choose(2)), **kw)
    return t if src.choose(3) else dt("UNKNOWN")


def holders(a, b, c, src):
    """Expressions whose values share a type report that type."""
    F = lambda t, n: mk("Cast", atoms.F(n), t)
    t3 = [a, b, c]
    vs = [F(t, n) for t, n in zip(t3, "xyz")]
    k = src.choose(5)
    if k == 0:
        e, want = mk("Coalesce", vs), lambda t: t
    elif k == 1:
        e, want = mk("Array", vs), lambda t: dt("ARRAY", dtype=t)
    elif k == 2:
        e, want = mk("Case", [mk("When", atoms.COND, vs[0]), mk("When", atoms.COND, vs[1])], mk("Else", vs[2])), lambda t: t
    elif k == 3:
        e, want, t3 = mk("If", atoms.COND, vs[0], vs[1]), lambda t: t, t3[:2]
    else:
        e, want, t3 = mk("UnionQuery", mk("SelectQuery", [vs[0], vs[1]]), mk("SelectQuery", [vs[1], vs[0]])), lambda t: dt("ROW", dtypes=[t, t]), t3[:2]
    try:
        wanted = want(T.fold(t3))
    except T.NoType:
        wanted = REFUSED
    try:
        got = sut.canon_type(sut.build(e).data_type)
    except sut.SutError as err:
        require(isinstance(err.exc, TypeError), str(err))
        got = REFUSED
    require(got == wanted, lambda: f"{e.t} of values of the types {t3} has the type {got} instead of {wanted}")
    return e.t


def case(src):
    g = Gen(src, size=16)
    a = g.type(src.pick([0, 1, 1, 2, 3]), unknown=True)
    b = vary(src, a)
    c = vary(src, src.pick([a, b]))
    ab = pair(a, b)
    pair(b, c)
    if ab != REFUSED:
        triple(a, b, c, ab)
        triple(b, a, c)
        triple(a, c, b)
    labels = ["refused" if ab == REFUSED else "unknown" if ab.name == "UNKNOWN" else "common"]
    castable = all(t.name != "UNKNOWN" for t in (a, b, c))
    if castable and src.choose(2):
        labels.append("in " + holders(a, b, c, src))
    return Out(sample=f"{type_text(a)} / {type_text(b)} / {type_text(c)} -> {ab if ab == REFUSED else type_text(ab)}", nontrivial=a != b, labels=labels)
