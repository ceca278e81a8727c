"""Generators of specs.  All randomness comes from a recorded choice source; choice 0 is always the simplest option."""
import random
from decimal import Decimal

from . import reftypes as T
from . import spec as S
from .spec import N, mk, lit


class Exhausted(Exception):
    pass


class Src:
    """Choice source: random with a seed, or a replay of recorded choices (0 when they run out)."""
    def __init__(self, seed=None, replay=None, limit=60000):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []
        self.limit = limit

    def choose(self, n):
        if n <= 1:
            return 0
        if self.rng is not None:
            if len(self.rec) >= self.limit:
                v = 0
            else:
                v = self.rng.randrange(n)
        else:
            if self.pos < len(self.replay):
                v = self.replay[self.pos]
                if not 0 <= v < n:
                    v = v % n
            else:
                v = 0
            self.pos += 1
        self.rec.append(v)
        return v

    def pick(self, xs):
        return xs[self.choose(len(xs))]

    def weighted(self, pairs):
        tot = sum(w for w, _ in pairs)
        k = self.choose(tot)
        for w, x in pairs:
            if k < w:
                return x
            k -= w
        raise AssertionError

    def chance(self, num, den):
        """True with probability num/den; 0 means False."""
        return self.choose(den) >= den - num


SIMPLE = ["a", "b", "c", "x", "y", "t", "u", "foo", "Bar", "q1", "_z", "col_1"]
ODD = ["select", "ORDER", "From", "a b", "a.b", 'a"b', '"', '""q""', "a'b", "1a", "x-y", "é", "日本", "a,b", "(a)",
       "--x", "/*", "tab\tq", "new\nline", "a\\b", "`bt`", "ALL", "row", "NULL", "true", "date", "value", "key", "$v",
       "'", "a;b", "%s", "{x}", "{left}", "\u00a0", "a\x0bb", "𝒳", "x::y", "END", "PARTITION", "RANGE", "ROWS", "FILTER"]
STRINGS = ["", "a", "abc", "it's", "'", "''", "a''b", '"', 'say "x"', "new\nline", "\n", "tab\t", "a\\b", "\\", "--x",
           "/* c */", "é", "日本語", "𝒳y", "a;b", "%", "_", "a%b", "U&", "\\0041", "\\u0041", "x\r\ny", "  lead", "trail  ",
           "{left}", "{value}", "%s", "a\x0bb", "a\x0cb", "\x1c", "\x85", "\u2028", "SELECT 1", "','", "('", "')", "E'x'",
           "\x7f", "\x01", "a\n\n  b", "\n    x", "1", "true", "NULL", "&", "U", "U&U", "+1", "\u00a0"]


def castable(t):
    """Can the type be the target of a cast?"""
    return t.name not in ("UNKNOWN", "INTERVAL") and all(
        castable(x) for _, v in t.params for x in (v if isinstance(v, tuple) else (v,)) if isinstance(x, N))


def settle(spec):
    """The spec with every part that has no type (treeno refuses to build it) replaced by a plain column."""
    def fn(n):
        if n.t in T.NOT_VALUES or n.t == "DataType":
            return n
        try:
            T.typeof(n)
            return n
        except T.NoType:
            if n.t.endswith("Query"):
                return mk("SelectQuery", [mk("Star")], from_=mk("Table", "zz"))
            return mk("Field", "zz")
    try:
        T.check(spec)
        return spec
    except T.NoType:
        return S.rewrite(spec, fn)


class Gen:
    """Options (all on unless switched off by a check):
    odd_names, odd_strings: use awkward identifiers / string contents
    """
    def __init__(self, src, size=12, odd=True, subqueries=True, aggregates=True, lambdas=True, floats="exp",
                 doubles=True, free=True, long_text=True, echo=True):
        self.s = src
        self.budget = size
        self.odd = odd
        self.subqueries = subqueries
        self.aggregates = aggregates
        self.lambdas = lambdas
        self.floats = floats
        self.doubles = doubles
        self.free = free
        self.scope = []      # lambda parameters in scope
        self.long_text = long_text
        self.echo = echo
        self.used = []
        self.pool = []       # expressions made so far, for repeating one

    def count(self, lo, hi):
        """A list length: small as a rule, now and then long."""
        s = self.s
        n = lo + s.choose(hi - lo + 1)
        if self.budget > 3 and s.chance(1, 16):
            n += 2 + s.choose(7)
        return n

    # -- leaves
    def name(self):
        """A name; now and then one that was used before."""
        s = self.s
        if self.echo and self.used and s.chance(1, 10):
            return s.pick(self.used)
        n = self.name_new()
        if len(self.used) < 12:
            self.used.append(n)
        return n

    def name_new(self):
        s = self.s
        if self.long_text and s.chance(1, 24):
            return "".join(s.pick(["long", "_", "name", " ", "col", "x1"]) for _ in range(8 + s.choose(16)))
        if self.odd and s.chance(1, 4):
            if s.chance(1, 4):
                return self.odd_text(1, 6)
            return s.pick(ODD)
        return s.pick(SIMPLE)

    def odd_text(self, lo, hi):
        s = self.s
        n = lo + s.choose(hi - lo + 1)
        pool = "ab'\"\\\n .,;()-/*%{}é日𝒳\t&U+0$\x0b\x85_`|<>=!?:[]#@^~"
        return "".join(pool[s.choose(len(pool))] for _ in range(n))

    def names(self, lo, hi, distinct=True):
        out = []
        for _ in range(self.count(lo, hi)):
            x = self.name()
            if distinct and x in out:
                continue
            out.append(x)
        return tuple(out)

    def string(self):
        s = self.s
        if self.long_text and s.chance(1, 20):
            return "".join(s.pick(["lorem", " ", "it's ", "\n", "  ", "ipsum", '"', "--", ", "]) for _ in range(10 + s.choose(25)))
        if not self.odd or s.chance(2, 5):
            return s.pick(["a", "b", "abc", "x y", "2020-01-01", ""])
        if s.chance(1, 3):
            return self.odd_text(0, 8)
        return s.pick(STRINGS)

    def integer(self):
        s = self.s
        k = s.choose(8)
        if k < 4:
            return s.choose(12)
        if k == 4:
            return -s.choose(12)
        if k == 5:
            return s.choose(10 ** 6) - 5 * 10 ** 5
        if k == 6:
            return s.pick([2147483647, 2147483648, -2147483648, -2147483649, 9223372036854775807, -9223372036854775807,
                           99999999999, 4294967296])
        return (s.choose(2 ** 31) * 2 ** 32 + s.choose(2 ** 31)) * (1 - 2 * s.choose(2))

    def decimal_text(self):
        """Digits with a point, as SQL spells decimals."""
        s = self.s
        k = s.choose(6)
        if k == 0:
            t = s.pick(["0.5", "1.5", "3.14", "0.0", "10.00", "123.450"])
        elif k == 1:
            t = s.pick(["0.1", "0.01", "0.000000001", "0.0000000000000000000000000000000000001", "100000000000.0",
                        "99999999999999999999999999999999999.999", "1.10", "007.5", "0.10"])
        else:
            hi = s.choose(15) + 1
            lo = s.choose(15) + 1
            t = "".join(str(s.choose(10)) for _ in range(hi)) + "." + "".join(str(s.choose(10)) for _ in range(lo))
        return t

    def number(self):
        s = self.s
        k = s.weighted([(6, 0), (2, 1), (1, 2)])
        if k == 0:
            return lit(self.integer())
        if k == 1 or not self.doubles:
            d = Decimal(self.decimal_text())
            if s.chance(1, 4) and d != 0:
                d = -d
            t = format(d, "f")
            if t.startswith("0") and t[1:2].isdigit() or t.startswith("-0") and t[2:3].isdigit():
                pass
            return lit(d)
        return lit(self.double())

    def double(self):
        s = self.s
        base = s.pick([1e20, 1.5e300, 1e-7, 2.5e-10, 1e16, 1.7976931348623157e308, 5e-324, 1.2345678901234567e25])
        if s.chance(1, 2):
            base = float(f"{s.choose(9) + 1}.{s.choose(10 ** 9)}e{s.pick([16, 17, 22, 55, 100, -5, -9, -30, 280])}")
        if s.chance(1, 4):
            base = -base
        return base

    def literal(self, kind="any"):
        s = self.s
        if kind == "any":
            kind = s.pick(["num", "str", "bool", "null"])
        if kind == "num":
            return self.number()
        if kind == "str":
            return lit(self.string())
        if kind == "bool":
            return lit(bool(s.choose(2)))
        return lit(None)

    def field(self):
        s = self.s
        if self.scope and s.chance(1, 2):
            return mk("Variable", s.pick(self.scope))
        n = self.name()
        if s.chance(1, 3):
            return mk("Field", n, self.name())
        if n in self.scope:
            return mk("Variable", n)
        return mk("Field", n)

    # -- expressions
    KINDS = ["num", "str", "bool", "date", "arr"]

    def spend(self):
        self.budget -= 1
        return self.budget > 0

    def expr(self, kind="any", d=5):
        s = self.s
        if self.echo and self.pool and not self.scope and s.chance(1, 16):
            return s.pick(self.pool)
        e = self.expr_new(kind, d)
        if self.echo and not self.scope and len(self.pool) < 12 and S.size(e) < 8:
            self.pool.append(e)
        return e

    def expr_new(self, kind="any", d=5):
        s = self.s
        if kind == "any" or (self.free and s.chance(1, 12)):
            kind = s.weighted([(4, "num"), (3, "str"), (4, "bool"), (1, "date"), (1, "arr"), (1, "leafany")])
        if d <= 0 or not self.spend() or s.chance(1, 4):
            return self.leaf(kind)
        if kind == "leafany":
            return self.special(d)
        common = s.weighted([(9, None), (2, "poly")])
        if common:
            return self.poly(kind, d)
        return getattr(self, "e_" + kind)(d)

    def leaf(self, kind):
        s = self.s
        if kind in ("num", "str", "bool") and s.choose(2):
            return self.literal(kind)
        if kind == "date" and s.choose(2):
            return self.date_leaf()
        if kind == "leafany" and s.choose(2):
            return self.literal("any")
        return self.field()

    def date_leaf(self):
        s = self.s
        k = s.choose(6)
        if k == 0:
            return mk("TypeConstructor", "2020-01-02", "DATE")
        if k == 1:
            return mk("TypeConstructor", s.pick(["2020-01-02 03:04:05", "2020-01-02 03:04:05.123",
                                                  "2020-01-02 03:04:05.123456"]), "TIMESTAMP")
        if k == 2:
            return mk("TypeConstructor", s.pick(["03:04:05", "03:04:05.12"]), "TIME")
        if k == 3:
            return self.keyword_fn()
        if k == 4:
            return self.interval()
        return mk("Now")

    def keyword_fn(self):
        s = self.s
        name = s.pick(sorted(S.KEYWORD_FUNCS))
        cls, _, prec = S.KEYWORD_FUNCS[name]
        if prec:
            return mk(cls, precision=s.pick([3, 0, 1, 6, 9, 12]))
        return mk(cls)

    def interval(self):
        s = self.s
        f = s.pick(["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"])
        order = ["YEAR", "MONTH", "DAY", "HOUR", "MINUTE", "SECOND"]
        to = None
        later = order[order.index(f) + 1:]
        if later and s.chance(1, 2):
            to = s.pick(later)
        v = s.pick(["1", "3", "-2", "1-2", "3 04:05", "04:05:06.7", "-0", "10"])
        if self.odd and s.chance(1, 4):
            v = s.pick(["it's", "1\n2", "x", "", "é", "1 'q'"])
        return mk("Interval", v, f, to)

    def e_num(self, d):
        s = self.s
        k = s.weighted([(8, "arith"), (2, "sign"), (2, "fn"), (2, "agg"), (1, "sub")])
        if k == "arith":
            op = s.pick(["Add", "Minus", "Multiply", "Divide", "Modulus"])
            return mk(op, self.expr("num", d - 1), self.expr("num", d - 1))
        if k == "sign":
            return mk(s.pick(["Negative", "Positive"]), self.expr("num", d - 1))
        if k == "fn":
            j = s.choose(9)
            if j == 0:
                return mk("Length", self.expr("str", d - 1))
            if j == 1:
                return mk("Power", self.expr("num", d - 1), self.expr("num", d - 1))
            if j == 2:
                return mk("CodePoint", self.expr("str", d - 1))
            if j == 3:
                return mk(s.pick(["HammingDistance", "LevenshteinDistance"]), self.expr("str", d - 1),
                          self.expr("str", d - 1))
            if j == 4:
                return mk("DateDiff", self.expr("str", d - 1), self.expr("date", d - 1), self.expr("date", d - 1))
            if j == 5:
                return mk(s.pick(["ToMilliseconds", "ToUnixtime"]), self.expr("date", d - 1))
            if j == 6:
                return mk("DateDiff", lit("day"), self.expr("date", d - 1), self.expr("date", d - 1))
            return mk("Subscript", self.expr("arr", d - 1), self.expr("num", d - 1))
        if k == "agg" and self.aggregates:
            return self.aggregate(d)
        if k == "sub":
            return self.subquery(d) or self.leaf("num")
        return mk("Add", self.expr("num", d - 1), self.expr("num", d - 1))

    def e_str(self, d):
        s = self.s
        k = s.choose(8)
        if k < 2:
            return self.concat(d)
        if k == 2:
            return mk(s.pick(["Lower", "LTrim", "RTrim", "Reverse", "Soundex"]), self.expr("str", d - 1))
        if k == 3:
            return mk(s.pick(["LPad", "RPad"]), self.expr("str", d - 1), self.expr("num", d - 1), self.expr("str", d - 1))
        if k == 4:
            kw = {"replace": self.expr("str", d - 1)} if s.choose(2) else {}
            return mk("Replace", self.expr("str", d - 1), self.expr("str", d - 1), **kw)
        if k == 5:
            return mk("Normalize", self.expr("str", d - 1), s.pick([None, "NFC", "NFD", "NFKC", "NFKD"]))
        if k == 6:
            return s.pick([lambda: mk("Chr", self.expr("num", d - 1)), lambda: mk("ToISO8601", self.expr("date", d - 1)),
                           lambda: mk("HumanReadableSeconds", self.expr("num", d - 1)),
                           lambda: mk("FromUTF8", mk("ToUTF8", self.expr("str", d - 2)),
                                      **({"replace": self.expr("str", d - 2)} if s.choose(2) else {}))])()
        if self.aggregates:
            return self.listagg(d)
        return mk("Lower", self.expr("str", d - 1))

    def concat(self, d):
        n = 2 + (self.s.choose(3) if self.s.chance(1, 3) else 0)
        e = mk("Concatenate", [self.expr_compat("str", d - 1) for _ in range(n)])
        try:
            T.typeof(e)
        except T.NoType:
            e = mk("Concatenate", [mk("Cast", v, S.dt("VARCHAR")) for v in e.values])
        return e

    def fitted(self, items):
        """The items, with a cast around those that have no common type with the ones before."""
        acc, out = None, []
        for it in items:
            try:
                t = T.typeof(it)
            except T.NoType:
                it = mk("Field", self.name())
                t = T.typeof(it)
            if acc is None:
                acc = t
            else:
                try:
                    acc = T.supertype(acc, t)
                except T.NoType:
                    it = mk("Cast", it, acc) if castable(acc) else mk("Field", self.name())
            out.append(it)
        return out

    def expr_compat(self, kind, d):
        """An expression whose type surely has a common supertype with others of that kind."""
        old, self.free = self.free, False
        oa, self.aggregates = self.aggregates, False
        os_, self.subqueries = self.subqueries, False
        try:
            if self.s.chance(1, 3):
                return self.field()
            if kind == "str":
                return self.s.pick([lambda: self.literal("str"),
                                    lambda: mk("Lower", self.expr("str", d - 1)),
                                    lambda: self.concat(d - 1) if d > 0 else self.literal("str"),
                                    lambda: mk("Cast", self.field(), S.dt("VARCHAR"))])()
            if kind == "num":
                return self.s.pick([lambda: self.literal("num"),
                                    lambda: mk("Length", self.expr("str", d - 1)),
                                    lambda: mk("Add", self.expr_compat("num", d - 1), self.expr_compat("num", d - 1))
                                    if d > 0 else self.literal("num"),
                                    lambda: mk("Cast", self.field(), S.dt(self.s.pick(["DOUBLE", "BIGINT", "DECIMAL"])))])()
            if kind == "bool":
                return self.s.pick([lambda: self.literal("bool"),
                                    lambda: mk("And", self.expr("bool", d - 1), self.expr("bool", d - 1)),
                                    lambda: mk("IsNull", self.expr("any", d - 1))])()
            if kind == "date":
                return mk("CurrentDate") if self.s.choose(2) else mk("TypeConstructor", "2021-02-03", "DATE")
            return self.field()
        finally:
            self.free, self.aggregates, self.subqueries = old, oa, os_

    def e_bool(self, d):
        s = self.s
        k = s.choose(14)
        if k < 3:
            return mk(s.pick(["And", "Or"]), self.expr("bool", d - 1), self.expr("bool", d - 1))
        if k == 3 or k == 4:
            return mk("Not", self.expr("bool", d - 1))
        if k < 8:
            kind = s.pick(["num", "str", "bool", "date", "any"])
            op = s.pick(["Equal", "NotEqual", "GreaterThan", "GreaterThanOrEqual", "LessThan", "LessThanOrEqual",
                         "DistinctFrom"])
            return mk(op, self.expr(kind, d - 1), self.expr(kind, d - 1))
        if k == 8:
            kind = s.pick(["num", "str", "bool", "date"])
            return mk("Between", self.expr(kind, d - 1), self.expr(kind, d - 1), self.expr(kind, d - 1))
        if k == 9:
            kind = s.pick(["num", "str", "bool", "any"])
            return mk("InList", self.expr(kind, d - 1), [self.expr(kind, d - 1) for _ in range(self.count(1, 3))])
        if k == 10:
            kw = {"escape": self.expr("str", d - 1)} if s.choose(2) else {}
            return mk("Like", self.expr("str", d - 1), self.expr("str", d - 1), **kw)
        if k == 11:
            return mk("IsNull", self.expr("any", d - 1))
        if k == 12 and self.subqueries and not self.scope:
            q = self.query(d - 1)
            return mk("InQuery", self.expr("any", d - 1), q)
        if k == 13:
            return s.pick([lambda: mk("LuhnCheck", self.expr("str", d - 1)), lambda: self.aggregate(d, ["BOOL_AND", "BOOL_OR", "EVERY"])
                           if self.aggregates else mk("Not", self.expr("bool", d - 1))])()
        return mk("Not", self.expr("bool", d - 1))

    def e_date(self, d):
        s = self.s
        k = s.choose(7)
        if k == 0:
            return mk("Minus", self.expr("date", d - 1), self.expr("date", d - 1))
        if k == 1:
            return mk("DateTrunc", lit("month"), self.expr("date", d - 1))
        if k == 2:
            return mk("DateAdd", lit("day"), self.expr("num", d - 1), self.expr("date", d - 1))
        if k == 3:
            return mk(s.pick(["AtTimezone", "WithTimezone"]), self.expr("date", d - 1), self.expr("str", d - 1))
        if k == 4:
            j = s.choose(3)
            if j == 0:
                return mk("FromUnixtime", self.expr("num", d - 1), zone=self.expr("str", d - 1))
            if j == 1:
                return mk("FromUnixtime", self.expr("num", d - 1), hours=self.expr("num", d - 1),
                          minutes=self.expr("num", d - 1))
            return mk("FromUnixtime", self.expr("num", d - 1))
        if k == 5:
            return mk(s.pick(["Date", "LastDayOfMonth", "FromISO8601Timestamp", "FromISO8601Date", "FromUnixtimeNanos",
                              "FromISO8601TimestampNanos", "ParseDuration"]), self.expr("any", d - 1))
        return mk("Add", self.expr("date", d - 1), self.interval())

    def e_arr(self, d):
        s = self.s
        k = s.choose(5)
        if k < 3:
            kind = s.pick(["num", "str", "bool"])
            return mk("Array", self.fitted(self.expr_compat(kind, d - 1) for _ in range(self.count(1, 3))))
        if k == 3 and self.aggregates:
            return self.aggregate(d, ["ARRAY_AGG"])
        return mk("Array", [mk("Array", [self.expr_compat("num", d - 2)])])

    def poly(self, kind, d):
        s = self.s
        k = s.choose(10)
        if k < 2:
            return self.case(kind, d)
        if k == 2:
            return mk(s.pick(["Cast", "TryCast"]), self.expr("any", d - 1), self.cast_type(kind))
        if k == 3:
            if s.choose(2):
                gen = self.expr if s.choose(2) else self.expr_compat
                return mk("If", self.expr("bool", d - 1), *self.fitted([gen(kind, d - 1), gen(kind, d - 1)]))
            return mk("If", self.expr("bool", d - 1), self.expr(kind, d - 1))
        if k == 4:
            return mk("Coalesce", self.fitted(self.expr_compat(kind, d - 1) for _ in range(self.count(1, 3))))
        if k == 5:
            return mk("NullIf", self.expr(kind, d - 1), self.expr(kind, d - 1))
        if k == 6:
            return mk("Try", self.expr(kind, d - 1))
        if k == 7:
            return mk("Subscript", self.expr(s.pick(["arr", "any"]), d - 1), self.expr("num", d - 1))
        if k == 8:
            sub = self.subquery(d)
            if sub is not None:
                return sub
        return self.special(d)

    def special(self, d):
        s = self.s
        k = s.choose(6)
        if k == 0:
            return mk("RowConstructor", [self.expr("any", d - 1) for _ in range(self.count(1, 3))])
        if k == 1:
            base = self.expr("any", d - 1)
            if base.t in ("Field", "Lambda", "Star") or base.t == "Variable":
                base = mk("RowConstructor", [base, lit(1)])
            return mk("Field", self.name(), base)
        if k == 2 and self.lambdas:
            return mk("Try", self.lam(d))
        if k == 3 and self.aggregates:
            return self.aggregate(d)
        if k == 4:
            return self.date_leaf()
        return mk("TypeConstructor", *s.pick([("1.5", "DECIMAL"), ("-12", "DECIMAL"), ("abc", "CHAR"), ("x", "VARCHAR"),
                                              ("3", "DOUBLE"), ("{}", "JSON"), ("true", "BOOLEAN"), ("7", "BIGINT"),
                                              ("127.0.0.1", "IPADDRESS"), ("it's", "VARCHAR"), ("5", "REAL"),
                                              ("12151fd2-7586-11e9-8f9e-2a86e4085a59", "UUID"), ("a\nb", "CHAR")]))

    def lam(self, d):
        s = self.s
        n = s.pick([1, 1, 2, 3, 0])
        ps = []
        for _ in range(n):
            x = self.name()
            if x not in ps:
                ps.append(x)
        old = self.scope
        self.scope = list(dict.fromkeys(ps + old))
        osub, self.subqueries = self.subqueries, False
        try:
            body = self.expr("any", d - 1)
            if self.lambdas and s.chance(1, 6):
                body = self.lam(d - 2) if d > 1 else body
        finally:
            self.scope = old
            self.subqueries = osub
        return mk("Lambda", [mk("Variable", p) for p in ps], body)

    def case(self, kind, d):
        s = self.s
        n = 1 + s.choose(3)
        simple = s.choose(2)
        val = self.expr("any", d - 1) if simple else None
        conds = [self.expr("any" if simple else "bool", d - 1) for _ in range(n)]
        vals = self.fitted(self.expr(kind, d - 1) for _ in range(n + s.choose(2)))
        br = [mk("When", c, v) for c, v in zip(conds, vals)]
        else_ = mk("Else", vals[n]) if len(vals) > n else None
        return mk("Case", br, else_, val)

    def subquery(self, d):
        if not self.subqueries or self.scope or d < 2 or self.budget < 3:
            return None
        return self.query(d - 2)

    # -- types
    def cast_type(self, kind):
        s = self.s
        if s.chance(1, 3):
            return self.type(2)
        return {"num": S.dt(s.pick(["INTEGER", "BIGINT", "DOUBLE", "DECIMAL"])), "str": S.dt("VARCHAR"),
                "bool": S.dt("BOOLEAN"), "date": S.dt("DATE"), "arr": S.dt("ARRAY", dtype=S.dt("INTEGER"))}.get(
                    kind, S.dt("INTEGER"))

    def type(self, d=3, unknown=False):
        s = self.s
        k = s.weighted([(8, "simple"), (2, "DECIMAL"), (2, "VARCHAR"), (1, "CHAR"), (2, "TIME"), (2, "TIMESTAMP"),
                        (1, "INTERVAL")] + ([(3, "ARRAY"), (2, "MAP"), (3, "ROW"), (1, "QDIGEST")] if d > 0 else []))
        if k == "simple":
            t = s.pick(S.SIMPLE_TYPES)
            if t == "UNKNOWN" and not unknown:
                t = "INTEGER"
            return S.dt(t)
        if k == "DECIMAL":
            j = s.choose(4)
            if j == 0:
                return S.dt("DECIMAL")
            p = s.pick([38, 1, 5, 10, 19, 18, 37]) if j < 3 else 1 + s.choose(38)
            return S.dt("DECIMAL", precision=p, scale=s.choose(p + 1))
        if k == "VARCHAR":
            return S.dt("VARCHAR") if s.choose(2) == 0 else S.dt("VARCHAR", max_chars=s.pick([1, 0, 3, 10, 255, 65536, 2147483646]))
        if k == "CHAR":
            return S.dt("CHAR", max_chars=s.pick([1, 3, 10, 255, 65536]))
        if k in ("TIME", "TIMESTAMP"):
            kw = {}
            if s.choose(2):
                kw["precision"] = s.choose(13)
            if s.choose(2):
                kw["timezone"] = True
            return S.dt(k, **kw)
        if k == "INTERVAL":
            return s.pick([S.dt("INTERVAL", from_interval="DAY", to_interval="SECOND"),
                           S.dt("INTERVAL", from_interval="YEAR", to_interval="MONTH")])
        if k in ("ARRAY", "QDIGEST"):
            return S.dt(k, dtype=self.type(d - 1))
        if k == "MAP":
            return S.dt("MAP", from_dtype=self.type(d - 1), to_dtype=self.type(d - 1))
        return S.dt("ROW", dtypes=[self.type(d - 1) for _ in range(self.count(1, 3))])

    # -- aggregates, windows
    def aggregate(self, d, among=None, modifiers=True):
        s = self.s
        name = s.pick(among or sorted(S.AGGREGATES))
        cls, _, roles = S.FUNCS[name]
        oa, self.aggregates = self.aggregates, self.aggregates and s.chance(1, 4)
        try:
            if name == "COUNT" and s.choose(2):
                kw = {"value": mk("Star", self.name() if s.choose(2) else None)}
                if modifiers and s.choose(2):
                    kw["filter_"] = self.expr("bool", d - 1)
                if modifiers and s.choose(2):
                    kw["window"] = self.window(d - 1)
                return mk(cls, **kw)
            kw = {r: self.expr("any", d - 2) for r in s.pick(roles)}
            if modifiers:
                if s.chance(1, 5):
                    kw["distinct"] = True
                if s.chance(1, 4):
                    kw["orderby"] = self.order_terms(d - 1, 2)
                if s.chance(1, 4):
                    kw["filter_"] = self.expr("bool", d - 1)
                if s.chance(1, 3):
                    kw["window"] = self.window(d - 1)
                    if s.chance(1, 3):
                        kw["null_treatment"] = "IGNORE"
            return mk(cls, **kw)
        finally:
            self.aggregates = oa

    def listagg(self, d):
        s = self.s
        oa, self.aggregates = self.aggregates, False
        try:
            kw = {"value": self.expr("str", d - 1), "orderby": self.order_terms(d - 1, 2)}
            if s.choose(2):
                kw["separator"] = self.string()
            if s.choose(2):
                kw["overflow_filler"] = mk("OverflowFiller", s.pick(["WITH_COUNT", "WITHOUT_COUNT"]),
                                           "..." if s.choose(2) else self.string())
            if s.chance(1, 4):
                kw["distinct"] = True
            return mk("ListAgg", **kw)
        finally:
            self.aggregates = oa

    def order_terms(self, d, n):
        return [self.order_term(d) for _ in range(self.count(1, n))]

    def order_term(self, d):
        s = self.s
        return mk("OrderTerm", self.expr("any", d - 1), s.pick(["ASC", "DESC"]), s.pick(["LAST", "FIRST"]))

    def window(self, d):
        s = self.s
        kw = {}
        if s.chance(1, 3):
            kw["parent_window"] = self.name()
            if s.choose(2):
                return mk("Window", **kw)
        if s.choose(2):
            kw["partitions"] = [self.expr("any", d - 1) for _ in range(self.count(1, 2))]
        if s.choose(2):
            kw["orderby"] = self.order_terms(d, 2)
        if s.choose(2):
            kw["frame_type"] = s.pick(["RANGE", "ROWS", "GROUPS"])
            kw["start_bound"] = self.bound(d)
            if s.choose(2):
                kw["end_bound"] = self.bound(d)
        return mk("Window", **kw)

    def bound(self, d):
        s = self.s
        k = s.choose(4)
        if k == 0:
            return mk("UnboundedFrameBound", s.pick(["PRECEDING", "FOLLOWING"]))
        if k == 1:
            return mk("CurrentFrameBound")
        return mk("BoundedFrameBound", s.pick(["PRECEDING", "FOLLOWING"]),
                  self.literal("num") if s.choose(2) else self.expr("num", min(d - 1, 2)))

    # -- queries
    def query(self, d=3, with_ok=True, tail_ok=True):
        s = self.s
        self.budget -= 1
        k = s.weighted([(9, "select"), (1, "table"), (1, "values"), (3, "set")])
        if d <= 0 or self.budget <= 0:
            k = "select"
        kw = {}
        if tail_ok:
            if s.chance(1, 4):
                kw["orderby"] = self.order_terms(d, 2)
            if s.chance(1, 5):
                kw["offset"] = s.pick([0, 1, 2, 10, 1000000])
            if s.chance(1, 4):
                kw["limit"] = s.pick([0, 1, 5, 10, 99999999999])
        if with_ok and s.chance(1, 6) and d > 0:
            kw["with_"] = [self.named(d - 1) for _ in range(self.count(1, 2))]
        if k == "table":
            return mk("TableQuery", self.table(), **kw)
        if k == "values":
            return mk("ValuesQuery", self.fitted(self.expr("any", d - 1) for _ in range(self.count(1, 3))), **kw)
        if k == "set":
            t = s.pick(["UnionQuery", "IntersectQuery", "ExceptQuery"])
            quant = "DISTINCT"
            if t == "UnionQuery" and s.choose(2):
                quant = "ALL"
            q = mk(t, self.query(d - 1, with_ok=False), self.query(d - 1, with_ok=False), quant, **kw)
            try:
                T.typeof(q)
            except T.NoType:
                q = q.put(right_query=mk("SelectQuery", [mk("Star")], from_=self.table()))
            return q
        return self.select(d, kw)

    def named(self, d):
        a = self.name()
        kw = {}
        if self.s.chance(1, 3):
            kw["column_aliases"] = self.names(1, 3)
        return mk("AliasedRelation", self.query(d), a, **kw)

    def select(self, d, kw):
        s = self.s
        n = 1 + s.choose(3)
        kw = dict(kw)
        items = tuple(self.select_item(d) for _ in range(n))
        if s.chance(5, 6):
            kw["from_"] = self.relation(d)
        if s.chance(1, 3):
            kw["where"] = self.expr("bool", d)
        if s.chance(1, 3):
            kw["groupby"] = self.groupby(d)
        if s.chance(1, 5):
            kw["having"] = self.expr("bool", d)
        if s.chance(1, 5):
            kw["window"] = tuple((w, self.window(d - 1)) for w in self.names(1, 2))
        if s.chance(1, 5):
            kw["select_quantifier"] = "DISTINCT"
        return mk("SelectQuery", items, **kw)

    def select_item(self, d):
        s = self.s
        k = s.choose(10)
        if k < 4:
            return self.expr("any", d)
        if k < 7:
            return mk("AliasedValue", self.expr("any", d), self.name())
        if k == 7:
            return mk("Star")
        if k == 8:
            return mk("Star", self.name())
        return mk("AliasedStar", mk("Star", self.name()), self.names(1, 3))

    def groupby(self, d):
        s = self.s
        groups = []
        for _ in range(self.count(1, 3)):
            k = s.choose(6)
            if k < 3:
                groups.append(self.grouping_set(d))
            elif k == 3:
                groups.append(mk("Cube", [self.expr("any", d - 1) for _ in range(self.count(1, 2))]))
            elif k == 4:
                groups.append(mk("Rollup", [self.expr("any", d - 1) for _ in range(self.count(1, 2))]))
            else:
                groups.append(mk("GroupingSetList", [self.grouping_set(d) for _ in range(self.count(1, 3))]))
        return mk("GroupBy", groups, s.pick(["ALL", "ALL", "DISTINCT"]))

    def grouping_set(self, d):
        s = self.s
        n = s.pick([1, 1, 2, 3, 0])
        return mk("GroupingSet", [self.expr("any", d - 1) for _ in range(n)])

    # -- relations
    def table(self):
        s = self.s
        kw = {}
        k = s.choose(3)
        if k >= 1:
            kw["schema"] = self.name()
        if k == 2:
            kw["catalog"] = self.name()
        return mk("Table", self.name(), **kw)

    def relation(self, d=3):
        s = self.s
        self.budget -= 1
        if d <= 0 or self.budget <= 0:
            return self.table()
        k = s.weighted([(5, "table"), (4, "alias"), (4, "join"), (2, "sub"), (1, "unnest"), (1, "lateral"), (1, "sample")])
        if k == "table":
            return self.table()
        if k == "alias":
            kw = {}
            if s.chance(1, 3):
                kw["column_aliases"] = self.names(1, 3)
            return mk("AliasedRelation", self.relation(d - 1), self.name(), **kw)
        if k == "join":
            return mk("Join", self.relation(d - 1), self.relation(d - 1), self.join_config(d))
        if k == "sub":
            return self.query(d - 1)
        if k == "unnest":
            return mk("Unnest", [self.expr("arr", d - 1) for _ in range(self.count(1, 2))], bool(s.choose(2)))
        if k == "lateral":
            return mk("Lateral", self.query(d - 1))
        return mk("TableSample", self.relation(d - 1), s.pick(["BERNOULLI", "SYSTEM"]), self.expr("num", min(1, d - 1)))

    def join_config(self, d):
        s = self.s
        k = s.choose(5)
        if k == 0:
            return mk("JoinConfig", "CROSS")
        jt = s.pick(["INNER", "LEFT", "RIGHT", "OUTER"])
        if k == 1:
            return mk("JoinConfig", jt, natural=True)
        if k == 2:
            return mk("JoinConfig", jt, criteria=mk("JoinUsingCriteria", self.names(1, 3)))
        return mk("JoinConfig", jt, criteria=mk("JoinOnCriteria", self.expr("bool", d - 1)))

    def any_tree(self, size=None):
        """A whole tree of any kind: (spec, parse kind)."""
        s = self.s
        k = s.weighted([(3, "expr"), (4, "query"), (1, "type")])
        if k == "expr":
            return self.whole_expr(), "expr"
        if k == "query":
            return self.whole_query(), "query"
        return self.type(3), "type"

    def whole_expr(self, kind="any", d=5):
        return settle(self.expr(kind, d))

    def whole_query(self, d=3):
        return settle(self.query(d))
