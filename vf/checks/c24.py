"""C24: Python operators, with values or plain Python values on the right, build the tree of the SQL they look like."""
import datetime
import operator
from decimal import Decimal

from ..common import *
from ..spec import lit, mk

PROPERTY = "C24"
RULE = "the program applies at least one operator; distinct by the SQL text it stands for"
ASSUMPTIONS = [TYPED, "the left operand is a treeno value; a plain value on the left, and Python's not, and, or, in and chained comparisons, do not reach the library as they are written",
               "** is POWER(left, right), ~ is NOT, & is AND, | is OR, == and != are = and <>", "floats are doubles, Decimals are decimals with the digits they are written with; numbers which are not finite, or out of range for BIGINT or DECIMAL, have no literal and are refused"]
COUNTS = {"quick": 9000, "thorough": 250000}
F = atoms.F
BINARY = [("+", operator.add, "Add"), ("-", operator.sub, "Minus"), ("*", operator.mul, "Multiply"), ("/", operator.truediv, "Divide"), ("%", operator.mod, "Modulus"), ("**", operator.pow, "Power"),
          ("==", operator.eq, "Equal"), ("!=", operator.ne, "NotEqual"), (">", operator.gt, "GreaterThan"), (">=", operator.ge, "GreaterThanOrEqual"), ("<", operator.lt, "LessThan"), ("<=", operator.le, "LessThanOrEqual"),
          ("&", operator.and_, "And"), ("|", operator.or_, "Or")]
INPLACE = {"+": operator.iadd, "-": operator.isub, "*": operator.imul, "/": operator.itruediv, "%": operator.imod, "**": operator.ipow, "&": operator.iand, "|": operator.ior}
UNARY = [("~", operator.invert, "Not"), ("+", operator.pos, "Positive"), ("-", operator.neg, "Negative")]
PLAIN = [0, 1, -1, 7, 2147483647, 2147483648, -2147483648, -2147483649, 9223372036854775807, -9223372036854775808, True, False, "", "a", "it's", 'say "x"', "1", "true", "é", "\n", 0.5, 1.0, -2.5, 1e300, 5e-324, 0.1,
         Decimal("1.5"), Decimal("-1.50"), Decimal("0.05"), Decimal("1E+3"), Decimal("12345678901234567890.123456789"), Decimal("100")]
NO_LITERAL = [None, [], [1], (), (1, 2), set(), {1}, frozenset([1]), {}, {"a": 1}, object(), b"a", bytearray(b"a"), 1j, range(3), datetime.date(2020, 1, 2), datetime.timedelta(1), float("nan"), float("inf"), float("-inf"), Decimal("NaN"), Decimal("Infinity"),
              9223372036854775808, -9223372036854775809, 10 ** 30, Decimal("1" * 39), len]


def spec_plain(v):
    return lit(v)


def args_of(cls):
    return ("x", "p") if cls == "Power" else ("left", "right")


def binary(cls, l, r):
    return mk(cls, l, r)


def same(obj, spec, what):
    """The result of a program is the tree of that spec, and the tree of its SQL."""
    got = sut.canon(obj)
    d = S.diff(spec, got)
    require(d is None, lambda: f"{what} builds another tree than it looks like: {d} (expected vs built)")
    text, _ = L.text_of(spec, "expr", None)
    p = sut.PARSERS["expr"](text)
    require(obj.equals(p) is True and p.equals(obj) is True, lambda: f"{what} is not equal to the result of parsing {text!r}: {S.diff(got, sut.canon(p)) or types(spec, obj, p)}")
    t, u = sut.show(obj), sut.show(p)
    require(t == u, lambda: f"{what} prints as {t!r}, the parsed SQL as {u!r}")
    return t


def types(spec, a, b):
    for (n, x), (_, y) in zip(sut.paired(spec, a), sut.paired(spec, b)):
        if hasattr(x, "data_type") and x.data_type != y.data_type:
            return f"{S.short(n, 80)} has type {x.data_type} built, {y.data_type} parsed"


OPERANDS = [F("a"), F("b", "t"), lit(1), lit("s"), lit(True), mk("Add", F("a"), lit(1)), mk("And", F("a"), F("b")), mk("Equal", F("a"), F("b")), mk("Not", F("a")), mk("Negative", F("a")), mk("Lower", F("a")), mk("IsNull", F("a")), mk("Between", F("a"), lit(1), lit(2)),
            mk("Case", [mk("When", F("a"), lit(1))]), mk("Cast", F("a"), S.dt("DATE")), mk("Interval", "1", "DAY"), mk("TypeConstructor", "2020-01-02", "DATE"), atoms.Q1, mk("Sum", F("a")), mk("Power", F("a"), lit(2)), mk("Subscript", F("a"), lit(1)), mk("Or", F("a"), F("b")), mk("Multiply", F("a"), F("b")),
            mk("InList", F("a"), [lit(1)]), mk("Like", F("a"), lit("x")), mk("DistinctFrom", F("a"), F("b")), S.N("Literal", {"kind": "dec", "text": "1.50"}), mk("RowConstructor", [F("a"), lit(1)]), mk("Array", [lit(1)]), lit(None)]


def pair(sym, fn, cls, l, r):
    a = sut.build(l)
    before = (sut.show(a), repr(a))
    b = sut.build(r) if isinstance(r, S.N) else r
    what = f"{before[0]} {sym} {sut.show(b) if isinstance(r, S.N) else repr(r)}"
    o = sut.guard(what, fn, a, b)
    text = same(o, binary(cls, l, r if isinstance(r, S.N) else spec_plain(r)), what)
    left, right = (getattr(o, f) for f in args_of(cls))
    require(left is a, lambda: f"the left operand of {what} is not the value that was given")
    require(not isinstance(r, S.N) or right is b, lambda: f"the right operand of {what} is not the value that was given")
    require((sut.show(a), repr(a)) == before, lambda: f"{what} changed its operand to {sut.show(a)!r}")
    if sym in INPLACE:
        c = a
        c = INPLACE[sym](c, b)
        require(sut.show(c) == text and (sut.show(a), repr(a)) == before, lambda: f"{sym}= gives {sut.show(c)!r}, leaving {sut.show(a)!r}")
    return Out(sample=f"{what} is {text}", nontrivial=True, key=text, labels=[sym, "plain value" if not isinstance(r, S.N) else "value"])


def refused(sym, fn, l, v):
    a = sut.build(l)
    before = (sut.show(a), repr(a))
    try:
        o = fn(a, v)
    except Exception:
        require((sut.show(a), repr(a)) == before, "a refused operand changed the other one")
        return Out(sample=f"refused: {before[0]} {sym} {v!r}"[:200], nontrivial=True, key=f"{sym} {v!r} {before[0]}" if not callable(v) and type(v) is not object else f"{sym} {type(v)} {before[0]}", labels=["refused"])
    fail(f"{before[0]} {sym} {v!r} must be refused, yet it builds {sut.show(o) if hasattr(o, 'sql') else o!r}")


def wrapped(name, cls, role, values):
    """Plain values as arguments of functions."""
    C = sut.cls(cls)
    E = sut.mod("treeno.expression")
    if role and role[0].startswith("*"):
        kws = {role[0][1:]: list(values)}
        kww = {role[0][1:]: [E.wrap_literal(v) for v in values]}
    else:
        kws = dict(zip(role, values))
        kww = {k: E.wrap_literal(v) for k, v in kws.items()}
    try:
        want = C(**kww)
    except TypeError:
        return Out(discard=True)
    got = sut.guard(f"{cls}({kws})", lambda: C(**kws))
    require(got.equals(want) is True and sut.canon(got) == sut.canon(want) and sut.show(got) == sut.show(want), lambda: f"{cls}({kws}) builds {sut.canon(got)}, with wrapped values {sut.canon(want)}")
    return Out(sample=sut.show(got), nontrivial=True, labels=["function"])


# parts of nodes other than operators and functions which take plain values
TAKES_PLAIN = {"Between": ("value", "lower", "upper"), "Array": ("values",), "InQuery": ("value",), "InList": ("value", "exprs"), "Like": ("value", "pattern", "escape"), "Cast": ("expr",), "TryCast": ("expr",), "Subscript": ("index",),
               "When": ("condition", "value"), "Else": ("value",), "Case": ("value",), "BoundedFrameBound": ("offset",), "IsNull": ("value",), "Not": ("value",), "Negative": ("value",), "Positive": ("value",), "DistinctFrom": ("left", "right"),
               **{cls: ("left", "right") for _, _, cls in BINARY if cls != "Power"}}


def part(base, f, v, ok=True):
    """A plain value as a part of a node."""
    kw = {}
    for g, kind in S.FIELDS[base.t]:
        x = base.d[g]
        if isinstance(x, S.N):
            kw[g] = sut.build_type(x) if kind == "dtype" else sut.build(x)
        elif kind in ("nodes", "nodes?"):
            kw[g] = [sut.build(y) for y in x]
        elif kind.startswith("enum"):
            kw[g] = sut.enum(kind.split(":")[1], x)
        else:
            kw[g] = x
    many = S.KIND[base.t][f] in ("nodes", "nodes?")
    C = sut.cls(base.t)
    what = f"{base.t}({f}={v!r})"
    if not ok:
        try:
            o = C(**{**kw, f: [v] if many else v})
        except Exception:
            return Out(sample="refused: " + what[:200], nontrivial=True, key=f"{base.t} {f} {type(v)} {v if type(v) in (float, int, Decimal) else ''}", labels=["refused part"])
        fail(f"{what} must be refused, yet it builds {o!r}")
    E = sut.mod("treeno.expression")
    plain = sut.guard(what, lambda: C(**{**kw, f: [v, kw[f][0], v] if many else v}))
    w = spec_plain(v)
    want = sut.build(base.put(**{f: (w, base.d[f][0], w) if many else w}))
    require(sut.canon(plain) == sut.canon(want) and plain.equals(want) is True and want.equals(plain) is True, lambda: f"{what} builds {plain!r}, with a literal {want!r}")
    if hasattr(want, "data_type"):
        require(plain.data_type == want.data_type, lambda: f"{what} has type {plain.data_type}, with a literal {want.data_type}")
    if base.t not in atoms.NOT_EXPR:
        require(sut.show(plain) == sut.show(want), lambda: f"{what} prints as {sut.show(plain)!r}, with a literal as {sut.show(want)!r}")
    return Out(sample=what, nontrivial=True, labels=["part"])


def parts():
    for t, fs in TAKES_PLAIN.items():
        for f in fs:
            for base in atoms.variations(t):
                if base.d[f] is not None and base.d[f] != ():
                    break
            for k, v in enumerate(PLAIN):
                if t in ("Array", "InList", "Case") and (f in ("values", "exprs") or t == "Case"):
                    b = base
                    if t == "Array":
                        b = mk("Array", [lit(v)])
                    elif t == "Case":
                        b = mk("Case", [mk("When", lit(v), lit(1))], None, lit(v))
                else:
                    b = base
                yield f"{t}.{f} {v!r}", lambda b=b, f=f, v=v: part(b, f, v)
            for k, v in enumerate(NO_LITERAL):
                if v is None and S.KIND[t][f].endswith("?"):
                    continue
                yield f"{t}.{f} none {k}", lambda b=base, f=f, v=v: part(b, f, v, False)


def positional():
    """Functions whose overloads take their arguments in different orders."""
    A = sut.cls("ApproxPercentile")
    for args, spec in (((5, 0.5), mk("ApproxPercentile", lit(5), lit(0.5))), ((5, 2, 0.5), mk("ApproxPercentile", lit(5), lit(0.5), lit(2))), (("a", True, Decimal("0.5")), mk("ApproxPercentile", lit("a"), lit(Decimal("0.5")), lit(True)))):
        got, want = sut.guard(f"ApproxPercentile{args}", lambda: A(*args)), sut.build(spec)
        require(sut.canon(got) == spec and got.equals(want) is True and sut.show(got) == sut.show(want) and got.data_type == want.data_type, lambda: f"ApproxPercentile{args} builds {got!r}, with literals {want!r}")
    return Out(sample="ApproxPercentile(5, 2, 0.5)", nontrivial=True)


def enumerated(tier):
    out = list(parts()) + [("positional", positional)]
    for i, (sym, fn, cls) in enumerate(BINARY):
        for j, l in enumerate(OPERANDS):
            for k, r in enumerate(OPERANDS):
                if tier == "thorough" or (i + j + k) % 3 == 0 or j in (0, 5) or k in (0, 5):
                    out.append((f"{sym} {j} {k}", lambda sym=sym, fn=fn, cls=cls, l=l, r=r: pair(sym, fn, cls, l, r)))
            for k, v in enumerate(PLAIN):
                if tier == "thorough" or (i + j + k) % 4 == 0 or j == 0:
                    out.append((f"{sym} {j} {v!r}", lambda sym=sym, fn=fn, cls=cls, l=l, v=v: pair(sym, fn, cls, l, v)))
            for k, v in enumerate(NO_LITERAL):
                if (i + j + k) % 5 == 0 or j == 0:
                    out.append((f"{sym} {j} none {k}", lambda sym=sym, fn=fn, l=l, v=v: refused(sym, fn, l, v)))
    for sym, fn, cls in UNARY:
        for l in OPERANDS:
            def unary(sym=sym, fn=fn, cls=cls, l=l):
                a = sut.build(l)
                before = (sut.show(a), repr(a))
                o = sut.guard(sym + before[0], fn, a)
                text = same(o, mk(cls, l), sym + before[0])
                require(o.value is a and (sut.show(a), repr(a)) == before, "a unary operator changed its operand")
                return Out(sample=f"{sym}{before[0]} is {text}", nontrivial=True, key=text, labels=["unary " + sym])
            out.append((f"{sym} {l}", unary))
    for name, (cls, _, roles) in sorted(S.FUNCS.items()):
        if cls == "ApproxPercentile":
            continue
        for role in roles:
            n = 3 if role and role[0].startswith("*") else len(role)
            for k in range(3 if n else 0):
                values = [[5, 6, 7, 8][:n], ["a", "b", "c", "d"][:n], [True, False, True, False][:n]][k]
                out.append((f"{name}/{n} {k}", lambda name=name, cls=cls, role=role, values=values: wrapped(name, cls, role, values)))
    return out


class Program:
    """A random program: its Python text, its value, its meaning."""

    def __init__(self, g):
        self.g, self.n = g, 0

    def leaf(self):
        s, g = self.g.s, self.g
        k = s.choose(4)
        spec = F(s.pick("abc")) if k == 0 else g.literal() if k == 1 else g.field() if k == 2 else g.expr(s.pick(["num", "bool", "str", "any", "date"]), 2)
        if spec.t in ("Star", "Lambda"):
            spec = F("a")
        return spec, sut.build(spec), f"<{S.short(spec, 60)}>"

    def value(self, d):
        s = self.g.s
        if d == 0 or s.chance(1, 6):
            return self.leaf()
        k = s.choose(8)
        if k == 0:
            sym, fn, cls = s.pick(UNARY)
            spec, o, t = self.value(d - 1)
            self.n += 1
            return mk(cls, spec), sut.guard(sym + t, fn, o), f"({sym}{t})"
        sym, fn, cls = s.pick(BINARY)
        l, a, t = self.value(d - 1)
        if k < 4:
            v = s.pick([lambda: s.pick(PLAIN), lambda: s.choose(1000) - 500, lambda: s.choose(10 ** 6) / 1000, lambda: self.g.string(), lambda: Decimal(s.choose(10 ** 9)).scaleb(-s.choose(8))])()
            r, b, u = spec_plain(v), v, repr(v)
        else:
            r, b, u = self.value(d - 1)
        self.n += 1
        return binary(cls, l, r), sut.guard(f"{t} {sym} {u}", fn, a, b), f"({t} {sym} {u})"


def case(src):
    g = Gen(src, size=src.pick([2, 4, 8]), subqueries=src.chance(1, 4))
    p = Program(g)
    spec, o, what = p.value(1 + src.choose(4))
    text = same(o, spec, what)
    return Out(sample=f"{what[:300]} is {text[:300]}", nontrivial=p.n >= 1, key=text, labels=[f"operators {min(p.n, 6)}"])
