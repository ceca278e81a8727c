"""C07: string contents survive printing and parsing, and 'text' / U&'text' mean what SQL says."""
from ..common import *
from ..spec import mk, lit
from ..gen import STRINGS

PROPERTY = "C07"
RULE = "the string contains a character other than a letter, digit or space; distinct by printed text"
ASSUMPTIONS = ["strings contain no lone surrogates"]
COUNTS = {"quick": 9000, "thorough": 150000}
F = atoms.F
OB = [mk("OrderTerm", F("o"))]

PLACES = {
    "literal": lambda s: (lit(s), "expr"),
    "operand": lambda s: (mk("Concatenate", [lit(s), F("x"), lit(s)]), "expr"),
    "comparison": lambda s: (mk("Equal", F("x"), lit(s)), "expr"),
    "like": lambda s: (mk("Like", F("x"), lit(s), lit(s)), "expr"),
    "in list": lambda s: (mk("InList", lit(s), [lit("a"), lit(s)]), "expr"),
    "argument": lambda s: (mk("Replace", lit(s), lit("a"), lit(s)), "expr"),
    "separator": lambda s: (mk("ListAgg", F("x"), s, orderby=OB), "expr"),
    "filler": lambda s: (mk("ListAgg", F("x"), ",", mk("OverflowFiller", "WITHOUT_COUNT", s), orderby=OB), "expr"),
    "separator and filler": lambda s: (mk("ListAgg", lit(s), s, mk("OverflowFiller", "WITH_COUNT", s), orderby=OB), "expr"),
    "varchar constructor": lambda s: (mk("TypeConstructor", s, "VARCHAR"), "expr"),
    "char constructor": lambda s: (mk("TypeConstructor", s, "CHAR"), "expr"),
    "json constructor": lambda s: (mk("TypeConstructor", s, "JSON"), "expr"),
    "interval": lambda s: (mk("Interval", s, "DAY", "SECOND"), "expr"),
    "select": lambda s: (mk("SelectQuery", [mk("AliasedValue", lit(s), "a"), lit(s)], from_=mk("Table", "t"), where=mk(
        "NotEqual", lit(s), F("x"))), "query"),
    "values": lambda s: (mk("ValuesQuery", [lit(s), lit(s)]), "query"),
    "subquery": lambda s: (mk("SelectQuery", [F("a")], from_=mk("AliasedRelation", mk("SelectQuery", [mk("AliasedValue", lit(s), "a")]), "q"),
                              where=mk("InQuery", lit(s), mk("ValuesQuery", [lit(s)]))), "query"),
    "join": lambda s: (mk("SelectQuery", [F("a")], from_=mk("Join", mk("Table", "t"), mk("Table", "u"), mk("JoinConfig", "INNER", criteria=mk(
        "JoinOnCriteria", mk("And", mk("Equal", F("a"), lit(s)), mk("Equal", F("b"), lit(s))))))), "query"),
    "case": lambda s: (mk("Case", [mk("When", lit(s), lit(s))], mk("Else", lit(s)), lit(s)), "expr"),
    "array": lambda s: (mk("Subscript", mk("Array", [lit(s), lit("b")]), lit(1)), "expr"),
    "and": lambda s: (mk("And", mk("Equal", F("a"), lit(s)), mk("Or", mk("Like", F("b"), lit(s)), F("c"))), "expr"),
    "group by": lambda s: (mk("SelectQuery", [F("a")], from_=mk("Table", "t"), groupby=mk("GroupBy", [mk("GroupingSet", [lit(s), F("a")])]),
                              orderby=[mk("OrderTerm", lit(s))]), "query"),
}
SIGNED = ["-1", "+1", "1", "--1", "-+1", "+-1", "++1", " -1", " +1", "- 1", "1-", "-", "+", "-1 -2", "3-4", "-3-4", "\t-1", "'-1'"]
CHARS = list("ab '\"\\\n.,;()-/*%{}é日𝒳\t&U+0$\r`|<>=!?:[]#@^~_\x00\x01\x0b\x0c\x1c\x1d\x1e\x85\u00a0\u2028\u2029\ufeffß\U0001F600")
MORE = STRINGS + ["'" * k for k in range(1, 6)] + ["a\n", "\na", "a\n\nb", "\n\n", "'\n'", "\n'", "'\n", "a'\n'b", "-- '", "/* ' */", "'--", "'/*", "\"'\"",
        "'\"'", "\"\n\"", "'\"\n", "a" * 200, "x'" * 60, "\n" * 10, "a b\nc" * 20, "\u2029", "\x00", "\x1d", "\x1e", "\r", "\r\n", "\r\n\r\n", "\ufeff", "{",
        "}", "{}", "{0}", "{value}", "{value!r}", "%", "%%", "%d", "%(a)s", "\\'", "\\\\", "\\n", "\\x41", "\\+000041", "\\0041'", "SELECT '\nFROM'",
        "a,\nb", "),\n(", "' AND\n'", "', '", "E0", "1E0", "x  y", "\t\t", " \n ", "\n    indented", "end\n    "]

# lengths around the limits a program may have in mind
MORE += [("n" * n) for n in (127, 128, 129, 255, 256, 257, 1000, 4096)] + [("it's a\n" * n)[:n] for n in (64, 80, 128, 255, 256, 1024, 5000)]


def odd(s):
    return not s.replace(" ", "").isalnum() or not s.isascii()


def one(place, s, src=None):
    spec, kind = PLACES[place](s)
    tree, text = L.print_leg(spec, kind)
    for sp in (4, 0):
        L.pretty_parse_leg(spec, kind, tree, sp)
    L.parse_leg(spec, kind, src)
    return text


def enumerated(tier):
    out = []
    for place in PLACES:
        for s in MORE:
            out.append((f"{place} {s!r}", lambda place=place, s=s: Out(sample=one(place, s), nontrivial=odd(s))))
    for s in MORE + SIGNED:
        for sign in ("", "+", "-"):
            out.append((f"interval {sign} {s!r}", lambda s=s, sign=sign: interval(s, sign)))
    for label, text, want in unicode_texts():
        out.append((label, lambda text=text, want=want: literal_text(text, want)))
    for text in BAD:
        out.append((f"refuse {text}", lambda text=text: refused(text)))
    return out


def interval(s, sign):
    """A minus before the text of an interval changes the sign which is its first character, or puts one there."""
    want = s
    if sign == "-":
        want = s[1:] if s[:1] == "-" else "-" + (s[1:] if s[:1] == "+" else s)
    text = f"INTERVAL {sign}" + quoted(s) + " HOUR TO MINUTE"
    got = sut.canon(sut.parse_expr(text))
    require(got == mk("Interval", want, "HOUR", "MINUTE"), lambda: f"{text!r} is parsed as {S.short(got)} instead of the value {want!r}")
    return Out(sample=text, nontrivial=odd(s), labels=["interval " + sign])


def quoted(s):
    return "'" + s.replace("'", "''") + "'"


def literal_text(text, want):
    got = sut.canon(sut.parse_expr(text))
    require(got == lit(want), lambda: f"{text!r} is parsed as {S.short(got)} instead of the characters {want!r}")
    return Out(sample=text, nontrivial=True)


def unicode_texts():
    yield "escape", "U&'\\0041b'", "Ab"
    yield "six digits", "U&'\\+01F600'", "\U0001F600"
    yield "escape itself", "U&'a\\\\b'", "a\\b"
    yield "uescape", "U&'a!0042' UESCAPE '!'", "aB"
    yield "uescape keeps backslash", "U&'a\\0042' UESCAPE '!'", "a\\0042"
    yield "uescape itself", "U&'a!!b' UESCAPE '!'", "a!b"
    yield "quote", "U&'it''s \\0027'", "it's '"
    yield "lower hex", "U&'\\00e9'", "é"
    yield "plain", "U&'abc'", "abc"
    for c in (0xD7FF, 0xE000, 0, 1, 0xFFFF, 0x10000, 0x10FFFF):
        yield f"six digits {c:X}", f"U&'\\+{c:06X}x'", chr(c) + "x"
        if c <= 0xFFFF:
            yield f"four digits {c:X}", f"U&'\\{c:04x}0'", chr(c) + "0"
    yield "empty", "U&''", ""


BAD = ("U&'\\'", "U&'\\00'", "U&'\\00G1'", "U&'\\+0041'", "U&'\\+110000'", "U&'\\D800'", "U&'\\dfff'", "U&'\\DBFF\\DC00'", "U&'\\+00D800'", "U&'\\+00DFFF'", "U&'\\+FFFFFF'", "U&'a' UESCAPE ''", "U&'a' UESCAPE '!!'",
                "U&'a' UESCAPE '+'", "U&'a' UESCAPE '1'", "U&'a' UESCAPE 'a'", "U&'a' UESCAPE ' '", "U&'a' UESCAPE ''''", "U&'a' UESCAPE '\"'",
       "U&'x!' UESCAPE '!'", "U&'!004' UESCAPE '!'", "'abc", "abc'", "'a''", "U&'a")


def refused(text):
    try:
        got = sut.parse_expr(text)
    except sut.SutError:
        return Out(sample=text)
    fail(f"{text!r} is not a string literal, yet it is accepted as {S.short(sut.canon(got))}")


def string(src):
    k = src.choose(3)
    if k == 0:
        return src.pick(MORE)
    n = src.choose(src.pick([2, 4, 8, 20, 120, 300]) + 1)
    out = []
    for _ in range(n):
        if src.chance(1, 12):
            c = src.choose(0x10FFFF)
            out.append("x" if 0xD800 <= c <= 0xDFFF else chr(c))
        else:
            out.append(src.pick(CHARS))
    return "".join(out)


def unicode_literal(src):
    """A drawn U& literal with its meaning by the SQL rules."""
    esc = src.pick(["\\", "\\", "!", "#", "$", "~", "@", "^", "%", "/", "*", "z", "é"])
    body, mean = [], []
    for _ in range(src.choose(10)):
        k = src.choose(5)
        if k == 0:
            body.append(esc + esc)
            mean.append(esc)
        elif k == 1:
            c = src.pick([0x41, 0x27, 0x22, 0xE9, 0x65E5, 0x20, 0x5C, 0x0A, 0xFFFF, 0x7F])
            h = f"{c:04X}" if src.choose(2) else f"{c:04x}"
            body.append(esc + h)
            mean.append(chr(c))
        elif k == 2:
            c = src.pick([0x41, 0x1F600, 0x10FFFF, 0x1D4B3, 0x27])
            h = f"{c:06X}" if src.choose(2) else f"{c:06x}"
            body.append(esc + "+" + h)
            mean.append(chr(c))
        elif k == 3:
            body.append("''")
            mean.append("'")
        else:
            ch = src.pick(list("ab 0019FfxyU&+-\n\"\\!#é日"))
            if ch == esc:
                body.append(esc)
            body.append(ch)
            mean.append(ch)
    text = "U&'" + "".join(body) + "'"
    if esc != "\\" or src.chance(1, 4):
        text += src.pick([" UESCAPE '", "\nUESCAPE  '"]) + esc + "'"
    return text, "".join(mean)


def case(src):
    if src.chance(1, 3):
        text, want = unicode_literal(src)
        return literal_text(text, want)
    s = string(src)
    if src.chance(1, 8):
        return interval(src.pick(["", "+", "-", " -", "- "]) + s, src.pick(["", "+", "-"]))
    place = src.pick(sorted(PLACES))
    text = one(place, s, src if src.choose(2) else None)
    got = sut.canon(sut.parse_expr("'" + s.replace("'", "''") + "'"))
    require(got == lit(s), lambda: f"the literal of {s!r} is parsed as {S.short(got)}")
    obj = sut.parse_expr(sut.show(sut.build(lit(s))))
    want = T.literal(lit(s))
    require(sut.canon_type(obj.data_type) == want, lambda: f"the literal {s!r} has type {obj.data_type}")
    return Out(sample=text, nontrivial=odd(s), labels=[place])
