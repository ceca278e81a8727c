"""C06: identifiers keep their exact spelling through printing and parsing, and different names print differently."""
from ..common import *
from ..spec import mk, lit
from ..gen import ODD, SIMPLE

PROPERTY = "C06"
RULE = "the names contain a character outside [a-z0-9_] or are keywords; distinct by printed text"
ASSUMPTIONS = ["names are non-empty (SQL has no empty identifier) and contain no lone surrogates"]
COUNTS = {"quick": 6000, "thorough": 120000}
F = atoms.F
T_ = mk("Table", "t")


def _places():
    """label -> function of distinct names (k of them) giving (spec, kind, names used)"""
    sel = lambda item, **kw: mk("SelectQuery", [item], from_=kw.pop("from_", T_), **kw)
    return {
        "column": lambda a, b, c: (F(a), "expr"),
        "table of column": lambda a, b, c: (F(a, b), "expr"),
        "dereference": lambda a, b, c: (mk("Field", a, mk("RowConstructor", [F(b), F(c)])), "expr"),
        "dereference of column": lambda a, b, c: (mk("Field", a, mk("Subscript", F(b, c), lit(1))), "expr"),
        "column alias": lambda a, b, c: (sel(mk("AliasedValue", F(a), b)), "query"),
        "star": lambda a, b, c: (sel(mk("Star", a)), "query"),
        "star aliases": lambda a, b, c: (sel(mk("AliasedStar", mk("Star", a), [b, c])), "query"),
        "table": lambda a, b, c: (sel(F("x"), from_=mk("Table", a)), "query"),
        "schema": lambda a, b, c: (sel(F("x"), from_=mk("Table", a, b)), "query"),
        "catalog": lambda a, b, c: (sel(F("x"), from_=mk("Table", a, b, c)), "query"),
        "table query": lambda a, b, c: (mk("TableQuery", mk("Table", a, b, c)), "query"),
        "relation alias": lambda a, b, c: (sel(F("x"), from_=mk("AliasedRelation", T_, a)), "query"),
        "relation column aliases": lambda a, b, c: (sel(F("x"), from_=mk("AliasedRelation", T_, a, [b, c])), "query"),
        "subquery alias": lambda a, b, c: (sel(F(a, b), from_=mk("AliasedRelation", sel(F(c)), b)), "query"),
        "unnest aliases": lambda a, b, c: (sel(F("x"), from_=mk("AliasedRelation", mk("Unnest", [F(a)], True), b, [a, c])), "query"),
        "cte": lambda a, b, c: (sel(F("x"), from_=mk("Table", a), with_=[mk("AliasedRelation", sel(F(b)), a)]), "query"),
        "cte columns": lambda a, b, c: (sel(F("x"), from_=mk("Table", a), with_=[mk("AliasedRelation", sel(F("x")), a, [b, c])]), "query"),
        "two ctes": lambda a, b, c: (sel(F("x"), from_=mk("Table", a), with_=[
            mk("AliasedRelation", sel(F("x")), a), mk("AliasedRelation", sel(F("x"), from_=mk("Table", a)), b)]), "query"),
        "using": lambda a, b, c: (sel(F("x"), from_=mk("Join", T_, mk("Table", "u"), mk("JoinConfig", "LEFT", criteria=mk(
            "JoinUsingCriteria", [a, b, c])))), "query"),
        "join on": lambda a, b, c: (sel(F("x"), from_=mk("Join", mk("Table", a), mk("Table", b), mk("JoinConfig", "INNER", criteria=mk(
            "JoinOnCriteria", mk("Equal", F(c, a), F(c, b)))))), "query"),
        "window": lambda a, b, c: (sel(mk("Sum", F("x"), window=mk("Window", a)), window=((a, mk("Window", partitions=[F(b)])),
                                                                                          (b, mk("Window", a)))), "query"),
        "window parent": lambda a, b, c: (mk("Sum", F("x"), window=mk("Window", a, partitions=[F(b)], orderby=[mk("OrderTerm", F(c))])), "expr"),
        "lambda": lambda a, b, c: (mk("Try", mk("Lambda", [mk("Variable", a), mk("Variable", b)], mk("Add", mk("Variable", a), mk(
            "Concatenate", [mk("Variable", b), F(c)])))), "expr"),
        "lambda one": lambda a, b, c: (mk("Try", mk("Lambda", [mk("Variable", a)], mk("Add", mk("Variable", a), F(b)))), "expr"),
        "group by": lambda a, b, c: (sel(F(a), groupby=mk("GroupBy", [mk("GroupingSet", [F(a)]), mk("Cube", [F(b), F(c)])])), "query"),
        "order by": lambda a, b, c: (sel(F(a), orderby=[mk("OrderTerm", F(b)), mk("OrderTerm", F(c, a), "DESC")]), "query"),
        "where": lambda a, b, c: (sel(F("x"), where=mk("And", F(a), mk("IsNull", F(b, c)))), "query"),
        "argument": lambda a, b, c: (mk("Power", F(a), mk("Coalesce", [F(b), F(c)])), "expr"),
        "case": lambda a, b, c: (mk("Case", [mk("When", F(a), F(b))], mk("Else", F(c))), "expr"),
        "count star": lambda a, b, c: (mk("Add", mk("Count", mk("Star", a)), mk("Count", mk("Star", b), filter_=F(c))), "expr"),
        "star of column": lambda a, b, c: (sel(mk("Star", a), from_=mk("AliasedRelation", mk("Table", b), c)), "query"),
        "aggregate": lambda a, b, c: (mk("Sum", F(a), orderby=[mk("OrderTerm", F(b))], filter_=mk("IsNull", F(c))), "expr"),
        "listagg": lambda a, b, c: (mk("ListAgg", F(a), ",", orderby=[mk("OrderTerm", F(b, c), "DESC")]), "expr"),
        "lateral": lambda a, b, c: (sel(F("x"), from_=mk("Join", T_, mk("AliasedRelation", mk("Lateral", sel(F(a, b))), b, [c]),
                                                         mk("JoinConfig", "CROSS"))), "query"),
        "sample": lambda a, b, c: (sel(F("x"), from_=mk("TableSample", mk("AliasedRelation", mk("Table", a), b, [c]), "SYSTEM", lit(10))), "query"),
        "values alias": lambda a, b, c: (sel(F(b, a), from_=mk("AliasedRelation", mk("ValuesQuery", [mk("RowConstructor", [lit(1), lit(2)])]), a, [b, c])), "query"),
        "nested queries": lambda a, b, c: (sel(mk("AliasedValue", mk("InList", F(a), [F(b), F(c)]), c), where=mk("Not", mk(
            "Equal", F(b), sel(mk("AliasedValue", F(c), a), from_=mk("Table", b))))), "query"),
        "set operands": lambda a, b, c: (mk("UnionQuery", sel(mk("AliasedValue", F("x"), a)), sel(mk("AliasedValue", F("x"), b)), "ALL",
                                            orderby=[mk("OrderTerm", F(c))]), "query"),
        "having": lambda a, b, c: (sel(F(a), groupby=mk("GroupBy", [mk("Rollup", [F(a), F(b)])]), having=mk("Between", F(c), F(a), F(b))), "query"),
        "frame": lambda a, b, c: (mk("Sum", F("x"), window=mk("Window", partitions=[F(a)], frame_type="ROWS", start_bound=mk("BoundedFrameBound", "PRECEDING", F(b)), end_bound=mk("BoundedFrameBound", "FOLLOWING", F(c)))), "expr"),
        "like": lambda a, b, c: (mk("Like", F(a), F(b, c), F(c)), "expr"),
        "cast": lambda a, b, c: (mk("Cast", mk("Array", [F(a), F(b, c)]), S.dt("ARRAY", dtype=S.dt("BIGINT"))), "expr"),
    }


PLACES = _places()
# places where the same name may stand several times
REPEATABLE = sorted(set(PLACES) - {"lambda", "lambda one", "two ctes", "window"})
CHARS = list("ab'\"\\. ,;()-/*%{}é日𝒳\t&U+0$\n\r`|<>=!?:[]#@^~AZ_\x00\x01\x0b\x0c\x1c\x85\u00a0\u2028\u200b\ufeffßİ\U0001F600")
MORE = ["", "select", "SELECT", "from", "Order", "a b", "a.b", 'a"b', 'a""b', '"', '""', '"a"', "a'b", "1a", "1", "-", "é", "e\u0301", "日本", "x y z",
        " a", "a ", " ", "a,b", "(a)", "--x", "/*x*/", "tab\tq", "line\nbreak", "\n", "\r\n", "a\\b", "`bt`", "``", "ALL", "row", "NULL", "true",
        "date", "value", "key", "{left}", "{}", "%s", "%(x)s", "{0}", "\\n", "U&", "U&'x'", "''", "A", "a", "aa", "a" * 90, "x" * 300,
        "very long name " * 8, "'quoted'", "a'", "'a", "a\"'b\"", ";", "a;b", "*", "a.*", "$1", "@x", "#", "?", "a?b", "\u00a0", "\x0b", "\x85",
        "\u2028", "\ufeff", "\u200b", "ß", "SS", "ſ", "İ", "𝒳", "😀", "current_date", "unnest", "lateral", "interval", "grouping", "within", "over"]
# lengths around the limits a program may have in mind
MORE += [("n" * n) for n in (63, 64, 65, 127, 128, 129, 255, 256, 257, 1000)] + [("N n" * n)[:n] for n in (64, 128, 256, 4000)]
SYMBOL = "abcdefghijklmnopqrstuvwxyz0123456789_"


def odd(n):
    from ..render import plain_name
    return not plain_name(n) or n != n.lower()


def check(place, names, src=None):
    spec, kind = PLACES[place](*names)
    tree, text = L.print_leg(spec, kind)
    L.pretty_parse_leg(spec, kind, tree, 4)
    L.parse_leg(spec, kind, src)
    return spec, kind, tree, text


def enumerated(tier):
    out = []
    for place in PLACES:
        for i, n in enumerate(MORE):
            names = (n, MORE[(i + 7) % len(MORE)], MORE[(i + 13) % len(MORE)])
            def fn(place=place, names=names):
                text = check(place, names)[3]
                return Out(sample=text, nontrivial=any(odd(x) for x in names))
            out.append((f"{place} {names!r}", fn))
        if place in REPEATABLE:
            for n in ("", "a", "A", "select", "a.b", 'a"b', "é", "1a", "a b"):
                for names in ((n, n, n), (n, n, "z"), (n, "z", n), ("z", n, n)):
                    out.append((f"{place} {names!r}", lambda place=place, names=names: Out(sample=check(place, names)[3], nontrivial=True)))
    return out


def name(src):
    k = src.choose(4)
    if k == 0:
        return src.pick(SIMPLE)
    if k == 1:
        return src.pick(MORE)
    if k == 2:
        return src.pick(ODD)
    n = 1 + src.choose(src.pick([2, 4, 8, 40, 120, 130, 300]))
    if src.chance(1, 6):
        # a plain name of any length
        return "".join(src.pick(SYMBOL[:26]) if i < 2 else src.pick(SYMBOL) for i in range(n)) if n < 30 else ("ab_c1" * n)[:n]
    out = []
    for _ in range(n):
        if src.chance(1, 12):
            c = src.choose(0x10FFFF)
            out.append("x" if 0xD800 <= c <= 0xDFFF else chr(c))
        else:
            out.append(src.pick(CHARS))
    return "".join(out)


def neighbour(src, n):
    """Another name, close to n."""
    k = src.choose(8)
    if k == 0:
        return n + src.pick(CHARS)
    if k == 1 and len(n) > 1:
        i = src.choose(len(n))
        return n[:i] + n[i + 1:]
    if k == 2:
        return n.swapcase()
    if k == 3:
        return n.replace('"', '""')
    if k == 4:
        return n.replace('""', '"')
    if k == 5:
        return n.strip() or "x"
    if k == 6:
        import unicodedata
        return unicodedata.normalize(src.pick(["NFC", "NFD", "NFKC"]), n)
    i = src.choose(len(n) + 1)
    return n[:i] + src.pick(CHARS) + n[i:]


def case(src):
    names = []
    while len(names) < 3:
        n = name(src)
        while n in names:
            n += "x"
        names.append(n)
    place = src.pick(sorted(PLACES))
    if place in REPEATABLE and src.chance(1, 4):
        i = src.choose(3)
        names[i] = names[(i + 1 + src.choose(2)) % 3]
        if src.chance(1, 4):
            names = [names[0]] * 3
    spec, kind, tree, text = check(place, names, src if src.choose(2) else None)
    # a quoted identifier spells what stands between the quotes
    quoted = '"' + names[0].replace('"', '""') + '"'
    got = sut.canon(sut.parse_expr(quoted))
    require(got == F(names[0]), lambda: f"{quoted!r} is parsed as {S.short(got)}")
    # different names, different text
    for i in range(3):
        other = neighbour(src, names[i])
        if other in names or not other:
            continue
        changed = list(names)
        changed[i] = other
        spec2, _ = PLACES[place](*changed)
        if spec2 == spec:
            continue
        text2 = sut.show(sut.build(spec2))
        require(text2 != text, lambda: f"the names {names[i]!r} and {other!r} print the same in {place}: {text!r}")
    return Out(sample=text, nontrivial=any(odd(x) for x in names), labels=[place])
