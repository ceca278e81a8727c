"""C08: number literals keep value and type."""
import re
from decimal import Decimal
from fractions import Fraction

from ..common import *
from ..spec import mk, lit, dt

PROPERTY = "C08"
RULE = "a number that is not a single digit; distinct by text"
ASSUMPTIONS = ["whole numbers within bigint and decimals of at most 38 digits are valid; larger ones are refused",
               "surplus zeros before the first digit of a decimal do not count as written digits, and a missing digit before the point counts as 0"]
COUNTS = {"quick": 14000, "thorough": 300000}
F = atoms.F
MAXI = 2 ** 63


def reading(text):
    """Independent meaning of an unsigned or signed number: (kind, exact value, type) or None when it must be refused."""
    m = re.fullmatch(r"(-?)(?:([0-9]+)|([0-9]*)\.([0-9]*)|([0-9]*(?:\.[0-9]*)?)E([+-]?[0-9]+))", text)
    assert m, text
    neg = -1 if m.group(1) else 1
    if m.group(2) is not None:
        v = neg * int(m.group(2))
        if not -MAXI <= v < MAXI:
            return None
        return "int", Fraction(v), dt("INTEGER") if -2 ** 31 <= v < 2 ** 31 else dt("BIGINT")
    if m.group(5) is not None:
        v = float(text.replace("E", "e"))
        if v in (float("inf"), float("-inf")):
            return None
        return "dbl", Fraction(v), dt("DOUBLE")
    a, b = m.group(3).lstrip("0") or "0", m.group(4)
    if len(a) + len(b) > 38:
        return None
    v = neg * Fraction(int((a + b) or "0"), 10 ** len(b))
    return "dec", v, dt("DECIMAL", precision=len(a) + len(b), scale=len(b))


def exact(n):
    if n.kind == "dbl":
        return Fraction(float(n.text))
    return Fraction(Decimal(n.text))


def check_text(text, spelled=None):
    want = reading(text)
    try:
        obj = sut.parse_expr(spelled or text)
    except sut.SutError as e:
        if want is None:
            return Out(sample=text, labels=["refused"])
        raise
    if want is None:
        fail(f"{text} is out of range, yet it is accepted as {obj}")
    kind, value, ty = want
    n = sut.canon(obj)
    require(n.t == "Literal" and n.kind == kind, lambda: f"{text} is parsed as {n}, not as a {kind} literal")
    require(exact(n) == value, lambda: f"{text} is parsed as the number {n.text}")
    got = sut.canon_type(obj.data_type)
    require(got == ty, lambda: f"{text} has type {obj.data_type}, expected {ty}")
    show_again(obj, n, ty, text)
    # the same number with the sign written on its own
    return Out(sample=text, nontrivial=len(text) > 1, labels=[kind])


def show_again(obj, n, ty, what):
    out = sut.show(obj)
    back = sut.parse_expr(out)
    m = sut.canon(back)
    require(m.t == "Literal" and m.kind == n.kind and exact(m) == exact(n), lambda: f"{what} prints as {out}, which reads back as {m} instead of {n}")
    got = sut.canon_type(back.data_type)
    require(got == ty, lambda: f"{what} of type {ty} prints as {out}, which has type {got}")
    require(sut.show(back) == out, lambda: f"{what} prints as {out} and then as {sut.show(back)}")


PLACES = {
    "alone": lambda n: (n, "expr"),
    "right": lambda n: (mk("Minus", F("a"), n), "expr"),
    "left": lambda n: (mk("Minus", n, F("a")), "expr"),
    "product": lambda n: (mk("Multiply", n, n), "expr"),
    "sign": lambda n: (mk("Negative", n), "expr"),
    "sign2": lambda n: (mk("Positive", mk("Negative", n)), "expr"),
    "subscript": lambda n: (mk("Subscript", F("a"), n), "expr"),
    "base": lambda n: (mk("Subscript", mk("Array", [n]), n), "expr"),
    "list": lambda n: (mk("InList", n, [n, n]), "expr"),
    "between": lambda n: (mk("Between", n, n, n), "expr"),
    "row": lambda n: (mk("Field", "x", mk("RowConstructor", [n, n])), "expr"),
    "argument": lambda n: (mk("Power", n, n), "expr"),
    "cast": lambda n: (mk("Cast", n, dt("DOUBLE")), "expr"),
    "case": lambda n: (mk("Case", [mk("When", n, n)], mk("Else", n), n), "expr"),
    "select": lambda n: (mk("SelectQuery", [n, mk("AliasedValue", n, "x")], where=mk("LessThan", n, n), orderby=[mk("OrderTerm", n)]), "query"),
    "values": lambda n: (mk("ValuesQuery", [n, n]), "query"),
    "frame": lambda n: (mk("Sum", F("a"), window=mk("Window", frame_type="ROWS", start_bound=mk("BoundedFrameBound", "PRECEDING", n))), "expr"),
    "concat": lambda n: (mk("Equal", mk("Add", n, n), n), "expr"),
}
TEXTS = ["0", "-0", "1", "-1", "007", "2147483647", "2147483648", "-2147483648", "-2147483649", "9223372036854775807", "9223372036854775808",
         "-9223372036854775808", "-9223372036854775809", "99999999999999999999", "0.0", "0.00", "-0.0", ".5", "-.5", "5.", "-5.", "0.1", "0.10", "1.10", "00.5",
         "007.50", "0.000000000000000000000000000000000001", "12345678901234567890123456789012345678.", "1234567890123456789012345678901234567.8",
         "123456789012345678901234567890123456789.", "0.12345678901234567890123456789012345678", "0.1234567890123456789012345678901234567",
         "1E0", "0E0", "-0E0", "1E5", "1E+5", "1E-5", "1.5E3", "-1.5E3", ".5E1", "5.E1", "1E308", "1E309", "-1E309", "1E-308", "5E-324", "1E-400", "1E22", "1E23",
         "1E16", "1E15", "123456789012345678E0", "1.7976931348623157E308", "2.2250738585072014E-308", "9007199254740993E0", "0.1E0", "0.3E0", "1E21", "1E20",
         "100000.0", "1000000000000000000000.0", "1E00", "1E007", "4294967295", "4294967296"]
VALUES = [Decimal("1E+2"), Decimal("1E-2"), Decimal("0E-5"), Decimal("12E3"), Decimal("-1E+2"), Decimal("1.20"), Decimal("0"), Decimal("-0.0"), Decimal("100"),
          Decimal("1E-20"), Decimal("-0"), Decimal("1.5E+1")]


def check_value(v):
    """A Python number wrapped into a literal."""
    obj = sut.guard(f"wrapping {v!r}", sut.mod("treeno.expression").wrap_literal, v)
    n = sut.canon(obj)
    require(exact(n) == Fraction(v), lambda: f"wrapping {v!r} gives {n}")
    ty = T.literal(n)
    got = sut.canon_type(obj.data_type)
    require(got == ty, lambda: f"wrapping {v!r} gives type {obj.data_type}, expected {ty}")
    show_again(obj, n, ty, repr(v))
    return Out(sample=repr(v), nontrivial=True, labels=["wrapped"])


def check_place(place, n):
    spec, kind = PLACES[place](n)
    if not atoms.typed(spec):
        return Out(discard=True)
    L.parse_leg(spec, kind)
    L.print_leg(spec, kind)
    return Out(sample=f"{place} {n.text}", nontrivial=True)


def enumerated(tier):
    out = [(t, lambda t=t: check_text(t)) for t in TEXTS]
    out += [("spaced " + t, lambda t=t: check_text(t, "- /* c */ " + t[1:])) for t in TEXTS if t.startswith("-")]
    out += [(repr(v), lambda v=v: check_value(v)) for v in VALUES]
    ns = [lit(x) for x in (0, 5, -5, 2147483648, -2147483649, 1e20, -1e20, 1.5e-7, -0.5, Decimal("1.50"), Decimal("-1.50"), Decimal("3"), Decimal("0.05"))]
    for p in PLACES:
        for n in ns:
            out.append((f"{p} {n}", lambda p=p, n=n: check_place(p, n)))
    for v in (float("nan"), float("inf"), float("-inf"), Decimal("NaN"), Decimal("Infinity"), 2 ** 63, -2 ** 63 - 1, Decimal("1E+38"), Decimal("1E-39")):
        out.append((f"refuse {v!r}", lambda v=v: refused(v)))
    return out


def refused(v):
    try:
        obj = sut.mod("treeno.expression").wrap_literal(v)
        text = obj.sql(sut.opts())
        back = sut.parse_expr(text)
    except Exception:
        return Out(sample=repr(v))
    n = sut.canon(back)
    require(n.t == "Literal" and n.kind in ("int", "dec", "dbl") and Fraction(Decimal(n.text)) == Fraction(Decimal(v)),
            lambda: f"{v!r} has no SQL literal, yet it is accepted and prints as {text}")
    return Out(sample=repr(v))


def digits(src, n):
    return "".join("0123456789"[src.choose(10)] for _ in range(n))


def case(src):
    k = src.choose(8)
    sign = "-" if src.chance(1, 3) else ""
    if k == 0:
        return check_text(sign + digits(src, 1 + src.choose(21)))
    if k == 1:
        a, b = src.choose(20), src.choose(22)
        if a + b == 0:
            a = 1
        return check_text(sign + digits(src, a) + "." + digits(src, b))
    if k in (2, 3):
        m = digits(src, 1 + src.choose(18))
        if src.choose(2):
            i = src.choose(len(m) + 1)
            m = m[:i] + "." + m[i:]
        return check_text(sign + m + "E" + src.pick(["", "+", "-"]) + str(src.choose(src.pick([5, 25, 330]))))
    if k == 4:
        edge = src.pick([2 ** 31, 2 ** 63, 10 ** 9, 10 ** 18, 2 ** 53, 2 ** 32, 0])
        return check_text(str(src.pick([1, -1]) * (edge + src.choose(5) - 2)))
    if k == 5:
        import struct
        bits = src.choose(2 ** 32) * 2 ** 32 + src.choose(2 ** 32)
        v = struct.unpack("d", struct.pack("Q", bits))[0]
        if v != v or v in (float("inf"), float("-inf")):
            v = 1.5
        if src.choose(2):
            v = src.pick([1, -1]) * src.choose(10 ** 6) / src.pick([1, 2, 4, 10, 100, 1000, 3, 7])
        return check_value(v)
    if k == 6:
        d = Decimal((src.choose(2), tuple(src.choose(10) for _ in range(1 + src.choose(src.pick([18, 18, 38])))), -src.choose(src.pick([19, 19, 39]))))
        if src.choose(3) == 2:
            d = d.scaleb(src.choose(15)) if len(d.as_tuple().digits) < 15 else d
        if len(format(d.copy_abs(), "f").replace(".", "")) > 38:
            d = Decimal((0, d.as_tuple().digits[:18], -17))
        return check_value(d)
    g = Gen(src)
    return check_place(src.pick(sorted(PLACES)), g.number())
