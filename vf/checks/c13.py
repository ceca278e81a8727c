"""C13: calls by name reach the named function with every argument in its role, and print back; anything else is refused."""
import itertools

from .. import lexer
from ..common import *
from ..render import call_args
from ..runner import HarnessError
from ..spec import lit, mk

PROPERTY = "C13"
RULE = "the call has an argument, or is refused; distinct by text"
ASSUMPTIONS = [GRAMMAR, "names and numbers of arguments are those of the table in vf/spec.py, made from treeno's function classes",
               "COALESCE() and CONCAT() without arguments and CONCAT(a) are accepted by treeno and print back; they are not claimed either way",
               "CONCAT(a, b) prints as a || b, which is the same tree"]
COUNTS = {"quick": 9000, "thorough": 200000}
F = atoms.F
NAMES = "abcdefgh"
WORDS = ["FOO", "SUMM", "SU", "SUM_", "_SUM", "SUM1", "CONCATENATE", "UPPER", "ABS", "ROUND", "SUBSTR", "STRPOS", "SPLIT", "LEN", "MEDIAN", "MODE", "FIRST_VALUE", "LAG", "LEAD", "RANK",
         "ROW_NUMBER", "NTILE", "CARDINALITY", "CONTAINS", "TRANSFORM", "REDUCE", "GREATEST", "LEAST", "RANDOM", "UUID", "FORMAT", "REGEXP_LIKE", "YEAR", "MONTH", "DAY", "HOUR", "DATE_FORMAT",
         "UNARYFUNCTION", "FUNCTION", "AGGREGATEFUNCTION", "UNARYAGGREGATEFUNCTION", "ARRAYAGG", "COUNTIF", "BOOLAND", "STDDEVPOP", "GEOMETRICMEAN", "APPROXSET", "LASTDAYOFMONTH", "ATTIMEZONE",
         "FROMUNIXTIME", "TOUTF8", "HAMMINGDISTANCE", "LUHNCHECK", "VALUE", "__INIT__", "NAME", "ISNULL", "IFNULL", "NVL", "DECODE", "LITERAL", "FIELD", "CAST_", "IN_", "ANY_VALUE", "MIN_MAX", "MAXBY", "AVERAGE"]
CALLS = dict(S.FUNCS)


def spellings(name):
    out = [name, name.lower(), name.capitalize(), "".join(c.lower() if i % 2 else c for i, c in enumerate(name)), f'"{name}"', f'"{name.lower()}"']
    if name in ("IF", "DATE", "COUNT", "TRY"):      # these are keywords: mixed case only for those that are not
        pass
    return list(dict.fromkeys(out))


def roles_of(name, n):
    """The roles of n arguments, or None when that many are not accepted."""
    for r in CALLS[name][2]:
        if r and r[0].startswith("*"):
            return r if n >= (2 if name == "CONCAT" else 1) else None
        if len(r) == n:
            return r
    return None


def unclaimed(name, n):
    return name == "CONCAT" and n < 2 or name == "COALESCE" and n == 0


def call(name, args):
    r = roles_of(name, len(args))
    cls = CALLS[name][0]
    if r and r[0].startswith("*"):
        return mk(cls, list(args))
    return mk(cls, **dict(zip(r, args)))


def good(name, spelled, args):
    """Argument specs are simple; the call written as `spelled` must mean `name` and print back."""
    want = call(name, args)
    texts = [L.text_of(a, "expr", layout=False, quoting=False)[0] for a in args]
    text = f"{spelled}({', '.join(texts)})"
    obj = sut.parse_expr(text)
    got = sut.canon(obj)
    d = S.diff(want, got)
    require(d is None, lambda: f"{text!r} is parsed as another call: {d} (expected vs parsed)")
    shown = sut.show(obj)
    if name != "CONCAT":
        want_tokens, got_tokens = ([("word", t) if c == "id" else (c, t) for c, t in lexer.content(x)] for x in (f"{name}({', '.join(texts)})", shown))
        require(got_tokens == want_tokens, lambda: f"{text!r} prints as {shown!r}")
    L.print_leg(want, "expr", obj)
    built = sut.build(want)
    require(sut.show(built) == shown, lambda: f"{text!r} prints as {shown!r} when parsed, but as {sut.show(built)!r} when built")
    C = sut.cls(want.t)
    made = sut.guard(f"{want.t}.from_args", C.from_args, *[sut.build(a) for a in args])
    require(sut.canon(made) == want, lambda: f"{want.t}.from_args of {texts} gives {S.short(sut.canon(made))} instead of {S.short(want)}")
    return text


def refused(text):
    try:
        got = sut.parse_expr(text)
    except sut.SutError as e:
        require(not isinstance(e.exc, RecursionError), lambda: str(e))
        return Out(sample="refused: " + text, labels=["refused"])
    fail(f"{text!r} must be refused, yet it is accepted as {sut.show(got)!r}")


ARGS = [lit(1), lit("s"), F("x"), lit(None), lit(True), F("x", "t"), mk("Add", F("x"), lit(2)), mk("Cast", F("x"), S.dt("BIGINT")), mk("Array", [lit(1)]), mk("Now"), mk("CurrentDate"), lit(-1),
        mk("Lower", F("x")), lit(""), lit(0), lit(False), lit(" "), lit("'"), lit(-7)]


def fits(tree):
    try:
        T.check(tree)
        return True
    except T.NoType:
        return False


def enumerated(tier):
    out = []
    for name in sorted(CALLS):
        for n in range(0, 7):
            fields = [F(c) for c in NAMES[:n]]
            if roles_of(name, n) is None:
                if unclaimed(name, n):
                    continue
                for w in (name, name.lower()):
                    out.append((f"{w}/{n}", lambda w=w, n=n: refused(f"{w}({', '.join(NAMES[:n])})")))
                continue
            for w in spellings(name):
                if name in ("COALESCE", "IF") and w not in (name, name.lower()) and n > 4:
                    continue
                out.append((f"{w}/{n}", lambda name=name, w=w, fields=fields: Out(sample=good(name, w, fields), nontrivial=bool(fields), labels=["accepted"])))
            if n:
                rev = fields[::-1]
                out.append((f"{name}/{n} reversed", lambda name=name, rev=rev: Out(sample=good(name, name, rev))))
            for i in range(n):
                for a in ARGS:
                    args = fields[:i] + [a] + fields[i + 1:]
                    if fits(call(name, args)):
                        out.append((f"{name}/{n} {i}", lambda name=name, args=args: Out(sample=good(name, name, args))))
            if n:
                same = [F("a")] * n
                out.append((f"{name}/{n} same", lambda name=name, same=same: Out(sample=good(name, name, same))))
        if roles_of(name, 1):
            for star in (mk("Star"), mk("Star", "t")):
                want = call(name, [star]) if name != "CONCAT" else None
                if want is not None:
                    def f(name=name, want=want, star=star):
                        text = f"{name}({'t.' if star.table else ''}*)"
                        got = sut.canon(sut.parse_expr(text))
                        require(got == want, lambda: f"{text!r} is parsed as {S.short(got)}")
                        if name in S.AGGREGATES:
                            L.print_leg(want, "expr")
                        return Out(sample=text)
                    out.append((f"{name}(*)", f))
        else:
            out.append((f"{name}(*)", lambda name=name: refused(f"{name}(*)") if name != "CONCAT" else Out(discard=True)))
        for q in (f"s.{name}(a)", f"c.s.{name}(a, b)", f'"{name}x"(a)', f'"{name} "(a)', f'" {name}"(a)', f'"s.{name}"(a)', f"{name}_(a)", f"_{name}(a)", f"{name}(a,)", f"{name}(,a)", f"{name}(a b)", f"{name}(a"):
            out.append((q, lambda q=q: refused(q)))
        for one in ("DISTINCT a", "a ORDER BY a"):
            if name not in S.AGGREGATES and roles_of(name, 1):
                out.append((f"{name}({one})", lambda name=name, one=one: refused(f"{name}({one})")))
        if name not in S.AGGREGATES:
            for n in range(1, 4):
                if roles_of(name, n):
                    for tail in (" OVER ()", " OVER w", " FILTER (WHERE a)"):
                        out.append((f"{name}/{n}{tail}", lambda name=name, n=n, tail=tail: refused(f"{name}({', '.join(NAMES[:n])}){tail}")))
    for w in WORDS:
        if w in CALLS or w in S.KEYWORD_FUNCS:
            raise HarnessError(w)
        for args in ("", "a", "a, b", "*", "a, b, c"):
            for s in (w, w.lower()):
                out.append((f"{s}({args})", lambda s=s, args=args: refused(f"{s}({args})")))
    for name, (cls, _, prec) in sorted(S.KEYWORD_FUNCS.items()):
        for w in (name, name.lower()):
            def f(w=w, cls=cls, name=name, prec=prec):
                want = mk(cls)
                obj = sut.parse_expr(w)
                require(sut.canon(obj) == want, lambda: f"{w!r} is parsed as {S.short(sut.canon(obj))}")
                L.print_leg(want, "expr", obj)
                require(sut.show(obj).upper().startswith(name), lambda: f"{w!r} prints as {sut.show(obj)!r}")
                return Out(sample=w)
            out.append((w, f))
            for bad in ("()", "(3, 3)", "(a)", "('3')", "(-1)", "(3.0)", " 3", "(*)", "(NULL)"):
                out.append((w + bad, lambda w=w, bad=bad: refused(w + bad)))
            for p in range(0, 16):
                text = f"{w}({p})"
                if not prec or p > 12:
                    out.append((text, lambda text=text: refused(text)))
                else:
                    def g(text=text, cls=cls, p=p):
                        got = sut.canon(sut.parse_expr(text))
                        require(got == mk(cls, precision=p), lambda: f"{text!r} is parsed as {S.short(got)}")
                        L.print_leg(mk(cls, precision=p), "expr")
                        return Out(sample=text)
                    out.append((text, g))
    for text, want in [("NORMALIZE(a)", mk("Normalize", F("a"))), ("normalize(a, NFKD)", mk("Normalize", F("a"), "NFKD")), ("NORMALIZE(a, NFC)", mk("Normalize", F("a"), "NFC")),
                       ("NORMALIZE(a, NFD)", mk("Normalize", F("a"), "NFD")), ("NORMALIZE(a, NFKC)", mk("Normalize", F("a"), "NFKC")),
                       ("LISTAGG(a) WITHIN GROUP (ORDER BY b)", mk("ListAgg", F("a"), orderby=[mk("OrderTerm", F("b"))])),
                       ("listagg(a, ';') within group (order by b)", mk("ListAgg", F("a"), ";", orderby=[mk("OrderTerm", F("b"))]))]:
        def h(text=text, want=want):
            got = sut.canon(sut.parse_expr(text))
            require(got == want, lambda: f"{text!r} is parsed as {S.short(got)}")
            L.print_leg(want, "expr")
            return Out(sample=text)
        out.append((text, h))
    for text in ("NORMALIZE()", "NORMALIZE(a, b)", "NORMALIZE(a, NFX)", "NORMALIZE(a, NFC, NFD)", "NORMALIZE(NFC)x", "LISTAGG(a)", "LISTAGG()", "LISTAGG(a, b) WITHIN GROUP (ORDER BY c)", "LISTAGG(a, ',', 'x') WITHIN GROUP (ORDER BY c)"):
        out.append((text, lambda text=text: refused(text)))
    return out + tree_cases(both_legs, variations=False, every_pair=1, keep=lambda t: t.t in S.CLASS_TO_FUNC and tier == "thorough")


def nested(src, d):
    """(text, spec or None when some call in it is not acceptable)"""
    if d <= 0 or src.chance(1, 4):
        a = src.pick(ARGS[:8] + ARGS[-6:] + [F(c) for c in "abcxyz"])
        return L.text_of(a, "expr", layout=False)[0], a
    bad = src.chance(1, 24)
    name = src.pick(sorted(CALLS))
    counts = [n for n in range(0, 6) if roles_of(name, n) is not None]
    n = src.pick(counts)
    if bad and src.choose(2):
        n = src.choose(6)
    parts = [nested(src, d - 1) for _ in range(n)]
    word = src.pick(spellings(name))
    if bad and n in counts and src.choose(2):
        word, name = src.pick(WORDS), None
    sp = src.pick(["", "", " ", "\n"])
    text = f"{word}{sp}({(src.pick([', ', ',', ' , ']).join(t for t, _ in parts))})"
    if name is None or any(s is None for _, s in parts) or (roles_of(name, n) is None and not unclaimed(name, n)):
        return text, None
    if unclaimed(name, n):
        return F("a").name, F("a")
    return text, call(name, [s for _, s in parts])


def case(src):
    text, want = nested(src, src.pick([1, 2, 2, 3]))
    if want is None:
        return refused(text)
    if not fits(want):
        return Out(discard=True)
    obj = sut.parse_expr(text)
    d = S.diff(want, sut.canon(obj))
    require(d is None, lambda: f"{text!r} is parsed as other calls: {d} (expected vs parsed)")
    L.print_leg(want, "expr", obj)
    L.print_leg(want, "expr")
    return Out(sample=text, nontrivial=S.size(want) > 1, labels=["accepted"])
