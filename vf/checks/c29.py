"""C29: functions that a user defines work like the library's own."""
from abc import ABC
from collections import Counter
from typing import ClassVar

from ..common import *
from ..gen import settle
from ..spec import lit, mk, N
from .c18 import recorder

PROPERTY = "C29"
RULE = "a user-defined function was called in a tree, or its definition or call was refused; distinct by the definition and the text"
ASSUMPTIONS = [GRAMMAR, "FN_NAME is an unquoted identifier in upper case that is no word of the grammar and no other function's name; the class defines sql with to_string, and visit, as the library's own do",
               "the class of an abstract function names ABC as a direct base, as the documentation of Function asks for"]
COUNTS = {"quick": 3000, "thorough": 120000}
F = atoms.F
FIELD_NAMES = ["value", "x", "y", "arg", "values_", "name", "n", "table", "alias", "left", "data", "query", "expr", "type_", "a_b", "X1", "default", "fn", "visit_me", "sep"]
FN_NAMES = ["MY_FN", "F", "SUM2", "SUMX", "LOWER_", "DATE_FORMAT", "ST_POINT", "X9", "MAXIMUM", "A_B_C", "COUNTIF", "STRPOS", "_HIDDEN", "VERY_LONG_NAME_OF_A_FUNCTION_WHICH_SOMEONE_ELSE_HAS_DEFINED_FOR_THEIR_OWN_QUERIES"]
KINDS = ["plain", "unary", "aggregate", "unary aggregate", "variadic"]
_serial = [0]


class Definition:
    def __init__(self, kind, name, fields, optional, layers=0, label=""):
        _serial[0] += 1
        self.kind, self.fn, self.optional, self.layers = kind, f"{name}_{_serial[0]}", optional, layers
        self.fields = ["value"] if "unary" in kind else ["values"] if kind == "variadic" else list(fields)
        self.aggregate = "aggregate" in kind
        self.cls_name = "User" + self.fn.title().replace("_", "")
        self.required = len(self.fields) - (0 if "unary" in kind or kind == "variadic" else optional)
        self.shape = f"{kind} {name}({', '.join(self.fields)}; {optional} optional, {layers} layers)"

    def again(self, kind):
        """Another class of the same name, as when a cell of a notebook is run once more."""
        d = Definition(kind, "Z", self.fields if self.kind == "plain" and kind in ("plain", "aggregate") else ["x", "y"], 0)
        d.shape = d.shape.replace("Z(", f"{self.shape.split('(')[0]} again (", 1)
        d.fn = self.fn
        return d

    def derived(self, named=True):
        """A class derived from a concrete one, which has a name of its own."""
        d = Definition(self.kind, "SUB", self.fields, self.optional)
        d.base = self
        d.shape += f" derived from {self.shape}"
        return d

    base = None

    def define(self):
        import attr
        B, AG, E = sut.mod("treeno.functions.base"), sut.mod("treeno.functions.aggregate"), sut.mod("treeno.expression")
        base = {"plain": B.Function, "variadic": B.Function, "unary": B.UnaryFunction, "aggregate": AG.AggregateFunction, "unary aggregate": AG.UnaryAggregateFunction}[self.kind]
        fields, variadic, aggregate = self.fields, self.kind == "variadic", self.aggregate

        def args(o):
            return list(o.values) if variadic else [v for v in (getattr(o, f) for f in fields) if v is not None]

        def sql(o, opts):
            return o.to_string(args(o), opts)

        def visit(o, visitor):
            for v in args(o):
                visitor.visit(v)
            if aggregate:
                for t in o.orderby or []:
                    visitor.visit(t)
                for m in (o.filter_, o.window):
                    if m is not None:
                        visitor.visit(m)

        body = {}
        if self.base is not None:
            base = self.base.cls
        elif variadic:
            body["values"] = attr.ib(converter=E.wrap_literal_list)
            body["from_args"] = classmethod(lambda cls, *a, **kw: cls(values=list(a), **kw))
        elif "unary" not in self.kind:
            for i, f in enumerate(fields):
                body[f] = attr.ib(converter=E.wrap_literal) if i < self.required else attr.ib(default=None, converter=attr.converters.optional(E.wrap_literal))
        if "unary" not in self.kind and self.base is None:
            body.update(sql=sql, visit=visit)
        for i in range(self.layers):                  # abstract classes between the library's and the last one
            base = E.value_attr(type(base)(f"Layer{i}", (base, ABC), body))
            body = {}
        body.update(FN_NAME=self.fn, __annotations__={"FN_NAME": ClassVar[str]})
        self.cls = E.value_attr(type(base)(self.cls_name, (base,), body))
        # our own tables learn about it
        t = self.cls_name
        fs = [(f, "nodes" if variadic else "node" if i < self.required else "node?") for i, f in enumerate(self.fields)]
        S.FIELDS[t] = fs + (S.AG if aggregate else [])
        S.KIND[t], S.ORDER[t] = dict(S.FIELDS[t]), [f for f, _ in S.FIELDS[t]]
        S.CLASS_TO_FUNC[t] = self.fn
        S.MODULES[t] = "(user)"
        self.before = S.FUNCS.get(self.fn), self.fn in S.AGGREGATES
        S.FUNCS[self.fn] = (t, "(user)", [["*values"]] if variadic else [self.fields[:k] for k in range(self.required, len(self.fields) + 1)])
        S.ENUM_DEFAULTS[(t, "null_treatment")] = "RESPECT"
        S.AGGREGATES.discard(self.fn)
        if aggregate:
            S.AGGREGATE_CLASSES.add(t)
            S.AGGREGATES.add(self.fn)
        sut._cls[t] = self.cls
        sut._class_names()[self.cls] = t
        return self

    def forget(self):
        t = self.cls_name
        for d in (S.FIELDS, S.KIND, S.ORDER, S.CLASS_TO_FUNC, S.MODULES, sut._cls):
            d.pop(t, None)
        S.FUNCS.pop(self.fn, None)
        S.AGGREGATE_CLASSES.discard(t)
        S.AGGREGATES.discard(self.fn)
        if self.before[0]:
            S.FUNCS[self.fn] = self.before[0]
        if self.before[1]:
            S.AGGREGATES.add(self.fn)
        sut._class_names().pop(self.cls, None)

    def call(self, args, **modifiers):
        if self.kind == "variadic":
            return mk(self.cls_name, tuple(args))
        return mk(self.cls_name, **dict(zip(self.fields, args)), **modifiers)


def with_definition(d, fn):
    """A definition lasts for one case."""
    try:
        sut.guard(f"defining {d.shape}", d.define)
        return fn()
    finally:
        if hasattr(d, "cls"):
            d.forget()


def legs(d, tree, kind, src=None):
    text = L.parse_leg(tree, kind, src)
    obj, shown = L.print_leg(tree, kind)
    L.pretty_leg(obj, shown)
    walked(d, tree, obj)
    again = sut.build(tree)
    require(obj.equals(again) and again.equals(obj), lambda: f"two trees of {shown!r} are not equal")
    return text


def walked(d, tree, obj):
    v = recorder()
    seen = []
    def visit_it(node):
        seen.append(node)
        node.visit(v)
    setattr(v, "visit_" + d.cls_name, visit_it)
    if d.base is not None:
        setattr(v, "visit_" + d.base.cls_name, lambda node: node.visit(v))
    sut.guard("visitor.visit", v.visit, obj)
    want = Counter(id(o) for n, o in sut.paired(tree, obj) if n.t == d.cls_name)
    require(Counter(id(o) for o in seen) == want, lambda: f"walking {sut.show(obj)!r} reaches {len(seen)} calls of {d.fn}, there are {sum(want.values())}")


def must_raise(what, fn):
    try:
        r = fn()
    except RecursionError:
        raise
    except Exception as e:
        return type(e).__name__
    fail(f"{what} must be refused, yet it gives {r!r}"[:1500])


def refusals(d):
    n = len(d.fields)
    texts = []
    if d.kind != "variadic":
        texts += [f"{d.fn}({', '.join(['a'] * k)})" for k in (d.required - 1, n + 1) if k >= 0]
    good = ", ".join(["a"] * max(1, d.required))
    if d.required or d.kind == "variadic":
        if not d.aggregate:
            texts += [f"{d.fn}(DISTINCT {good})", f"{d.fn}({good} ORDER BY b)", f"{d.fn}({good}) FILTER (WHERE b)", f"{d.fn}({good}) OVER ()"]
        else:
            texts += [f"{d.fn}({good}) IGNORE NULLS", f"{d.fn}({good}) OVER () OVER ()"]
        texts += [f"{d.fn}_({good})", f"NO_{d.fn}({good})", f"s.{d.fn}({good})"]
    if d.layers:
        texts += [f"LAYER0({good})"]
    for t in texts:
        must_raise(f"{t!r} (defined: {d.shape})", lambda: sut.parse_expr(t))
    return Out(sample=f"{d.shape}: refuses {texts}", key=d.shape + " refusals", labels=["refused calls"])


def basics(d):
    """All numbers of arguments, all modifiers, in all letter cases."""
    out = []
    for k in range(d.required, len(d.fields) + 1) if d.kind != "variadic" else (0, 1, 2, 5):
        args = [F("abcdefgh"[i]) for i in range(k)]
        n = d.call(args)
        out.append(legs(d, n, "expr"))
        texts = ", ".join("abcdefgh"[:k])
        for name in (d.fn.lower(), d.fn.title(), f'"{d.fn}"'):
            got = sut.canon(sut.parse_expr(f"{name}({texts})"))
            require(got == n, lambda: f"{name}({texts}) is read as {S.short(got)}, not as a call of {d.fn}")
        if k:
            for e in (mk("Add", n, lit(1)), mk("Not", mk("Equal", n, n)), mk("SelectQuery", [n, mk("AliasedValue", n, "x")], from_=mk("Table", "t"), where=mk("IsNull", n)), d.call([n] * k)):
                out.append(legs(d, e, "query" if e.t in atoms.QUERIES else "expr"))
        if d.aggregate:
            w = mk("Window", partitions=[F("p")], orderby=[mk("OrderTerm", F("o"), "DESC")])
            for m in (dict(distinct=True) if k else {}, dict(orderby=[mk("OrderTerm", F("o"))]) if k else {}, dict(filter_=mk("GreaterThan", F("q"), lit(1))), dict(window=w), dict(window=w, null_treatment="IGNORE"), dict(window=mk("Window", "w")),
                      dict(distinct=True, orderby=[mk("OrderTerm", F("o"))], filter_=F("q"), window=w, null_treatment="IGNORE") if k else {}):
                out.append(legs(d, d.call(args, **m), "expr"))
        for i in range(k):
            a, b = (sut.build(d.call(args[:i] + [x] + args[i + 1:])) for x in (F("z"), lit(1)))
            require(not a.equals(b) and not b.equals(a), lambda: f"calls of {d.fn} with different arguments {i} are equal")
    # Python arguments are wrapped, from_args takes what calls give
    if d.kind != "variadic" and d.required:
        o = sut.guard("from_args", d.cls.from_args, *[1] * d.required)
        want = d.call([lit(1)] * d.required)
        require(sut.canon(o) == want, lambda: f"{d.cls_name}.from_args({', '.join(['1'] * d.required)}) is {S.short(sut.canon(o))}")
    require(d.cls.FN_NAME == d.fn, "FN_NAME has changed")
    for fn in ("SUM(a)", "LOWER(a)", "COALESCE(a, b)", "LISTAGG(a) WITHIN GROUP (ORDER BY b)"):
        require(sut.canon(sut.parse_expr(fn)).t != d.cls_name, lambda: f"{fn} is now {d.cls_name}")
    return Out(sample=f"{d.shape}: {out[-1]}", key=d.shape, labels=[d.kind])


def redefined(d, kind):
    """The last class of a name is the one that calls give; trees of the first are as they were."""
    args = [F("abcdefgh"[i]) for i in range(max(d.required, 1) if d.kind == "variadic" else d.required)]
    old = d.call(args)
    obj = sut.build(old)
    text = sut.show(obj)
    e = d.again(kind)
    def run():
        out = basics(e)
        require(sut.show(obj) == text and sut.canon(obj) == old, lambda: f"defining {e.fn} once more changes a call of the first {text!r} to {sut.show(obj)!r}")
        return out.sample
    sample = with_definition(e, run)
    return Out(sample=f"{d.shape}, then {sample}", key=d.shape + e.shape, labels=["redefined"])


def derived(d):
    args = [F("abcdefgh"[i]) for i in range(max(d.required, 1) if d.kind == "variadic" else d.required)]
    e = d.derived()
    def run():
        out = basics(e)
        basics(d)
        if args:
            for op in ("Equal", "NotEqual", "LessThan", "LessThanOrEqual", "GreaterThan", "GreaterThanOrEqual", "Add", "Minus", "And", "Or"):
                x, y = d.call(args), e.call([d.call(args)] + args[1:])
                legs(e, mk(op, x, y), "expr")
                legs(e, mk(op, y, x), "expr")
            a, b = sut.build(d.call(args)), sut.build(e.call(args))
            require(not a.equals(b) and not b.equals(a), lambda: f"calls of {d.fn} and {e.fn} are equal")
        return out.sample
    sample = with_definition(e, run)
    return Out(sample=sample, key=e.shape, labels=["derived"])


def undefinable():
    B, AG, E = sut.mod("treeno.functions.base"), sut.mod("treeno.functions.aggregate"), sut.mod("treeno.expression")
    methods = dict(sql=lambda o, opts: "x", visit=lambda o, v: None)
    for base in (B.Function, B.UnaryFunction, AG.AggregateFunction, AG.UnaryAggregateFunction):
        yield f"a {base.__name__} without FN_NAME", lambda base=base: type(base)("Nameless", (base,), dict(methods))
        for bad in (1, None, b"F", ["F"]):
            yield f"a {base.__name__} with FN_NAME {bad!r}", lambda base=base, bad=bad: type(base)("Misnamed", (base,), dict(methods, FN_NAME=bad))
    for base in (B.Function, AG.AggregateFunction):
        yield f"a {base.__name__} without sql and visit", lambda base=base: type(base)("Mute", (base,), dict(FN_NAME="MUTE"))
    for base in (B.Function, B.UnaryFunction, AG.AggregateFunction, AG.UnaryAggregateFunction):
        yield f"an instance of {base.__name__}", lambda base=base: (base(E.Field("a")) if "Unary" in base.__name__ else base())


def enumerated(tier):
    out = []
    def add(*a):
        d = lambda: Definition(*a)
        label = " ".join(map(str, a))
        def run(fn):
            d = Definition(*a)
            return with_definition(d, lambda: fn(d))
        out.append((label, lambda: run(basics)))
        out.append((label + " refusals", lambda: run(refusals)))
        if a[4] < 2:
            out.append((label + " derived", lambda: run(derived)))
        for kind in ("plain", "unary", "aggregate", "variadic"):
            if a[4] == 0:
                out.append((label + " again " + kind, lambda kind=kind: run(lambda d: redefined(d, kind))))
    for layers in (0, 1, 2):
        for k in range(5):
            for opt in range(k + 1):
                for kind in ("plain", "aggregate"):
                    add(kind, FN_NAMES[(k + opt) % len(FN_NAMES)], FIELD_NAMES[:k], opt, layers)
        for kind in ("unary", "unary aggregate", "variadic"):
            for name in FN_NAMES:
                add(kind, name, [], 0, layers)
    for name in FN_NAMES:
        add("plain", name, ["x", "y"], 1, 0)
    for f in FIELD_NAMES:
        add("plain", "FN", [f], 0, 0)
        add("aggregate", "FN", ["x", f] if f != "x" else ["x", "y"], 1, 0)
    for i in range(22):
        def bad(i=i):
            for j, (label, fn) in enumerate(undefinable()):
                if j == i:
                    got = must_raise(label, fn)
                    return Out(sample=f"{label}: {got}", labels=["refused definitions"])
            return Out(discard=True)
        out.append((f"undefinable {i}", bad))
    return out


def case(src):
    kind = src.pick(KINDS)
    k = src.choose(5)
    names = []
    while len(names) < k:
        f = src.pick(FIELD_NAMES)
        names.append(f if f not in names else f"f{len(names)}")
    d = Definition(kind, src.pick(FN_NAMES), names, src.choose(k + 1), src.choose(3))
    g = Gen(src, size=src.pick([4, 8, 16]))
    tree, tkind = g.any_tree()
    if tkind == "type":
        tree, tkind = mk("Lower", F("a")), "expr"
    tree = settle(tree)
    want = range(d.required, len(d.fields) + 1) if kind != "variadic" else range(1, 9)
    def put(n):
        if n.t in S.CLASS_TO_FUNC and n.t not in ("ListAgg", "Normalize") and S.CLASS_TO_FUNC[n.t] in S.FUNCS and n.t not in atoms.NOT_EXPR:
            aggregate = n.t in S.AGGREGATE_CLASSES
            fs = [f for f, k in S.FIELDS[n.t] if k in ("node", "node?", "nodes") and f not in ("filter_", "window")]
            args = [x for f in fs for x in (n.d[f] if isinstance(n.d[f], tuple) else (n.d[f],)) if isinstance(x, N)]
            if len(args) in want and aggregate == d.aggregate and not any(a.t == "Star" for a in args) and src.choose(4):
                return d.call(args, **({f: n.d[f] for f, _ in S.AG} if aggregate else {}))
        elif n.t in ("Add", "Multiply", "Negative", "Subscript", "IsNull", "Cast") and src.chance(1, 2):
            args = [n.d[f] for f, k in S.FIELDS[n.t] if k == "node"]
            args = (args * 4)[:max(d.required, len(args) if len(args) in want else 0)] if kind != "variadic" else args
            return d.call(args) if args and len(args) in want else n
        return n
    def run():
        t = settle(S.rewrite(tree, put))
        n, k = sum(x.t == d.cls_name for x in S.walk(t)), tkind
        if not n:
            args = [settle(g.expr("any", 2)) for _ in range(max(d.required, 1 if want[-1] else 0))]
            if t.t not in atoms.NOT_EXPR and args:
                args[0] = t
            t = d.call(args)
            k, t = "expr", settle(t)
            n = sum(x.t == d.cls_name for x in S.walk(t))
            if not n:
                return Out(discard=True)
        text = legs(d, t, k, src)
        return Out(sample=text, key=d.shape + text, labels=[kind, f"{min(n, 4)} calls"])
    return with_definition(d, run)
