"""C28: work grows with the size of a tree: nothing is done again and again for every level of nesting."""
import itertools
import sys

from ..common import *
from ..spec import lit, mk, dt

PROPERTY = "C28"
RULE = "the tree was nested or lengthened to at least three sizes; distinct by its shape"
ASSUMPTIONS = [TYPED, "work is the number of Python calls made (also in the antlr4 runtime), after the same text was parsed once; work inside of C functions is not seen",
               "twice the depth or length may take up to eight times as many calls (nested arrays and pretty printing are quadratic), which tells polynomial from exponential growth"]
COUNTS = {"quick": 150, "thorough": 20000}
F = atoms.F
SIZES = (4, 8, 16)
FACTOR, SLACK, CAP, ENOUGH = 8, 3000, 3_000_000, 200_000


class TooMuch(BaseException):
    pass


def count(fn, limit):
    """(number of calls, result); more than limit calls are cut short"""
    n = 0
    def tick(frame, event, arg):
        nonlocal n
        if event == "call":
            n += 1
            if n > limit:
                sys.setprofile(None)
                raise TooMuch
    sys.setprofile(tick)
    try:
        r = fn()
    finally:
        sys.setprofile(None)
    return n, r


def walker():
    V = sut.mod("treeno.visitor").TreenoVisitor
    if "cls" not in walker.__dict__:
        def go(self, node):
            node.visit(self)
        walker.cls = type("Walker", (V,), {m: go for m in dir(V) if m.startswith("visit_")})
    return walker.cls()


def jobs(tree, kind):
    """name -> function, for everything that is done with trees"""
    kind = L.real_kind(tree, kind)
    o = sut.build(tree)
    other = sut.build(tree)
    yield "building", lambda: sut.build(tree)
    yield "printing", lambda: sut.show(o)
    yield "pretty printing", lambda: sut.show(o, True)
    yield "str()", lambda: str(o)
    yield "comparing", lambda: o.equals(other)
    yield "walking", lambda: sut.guard("visit", walker().visit, o)
    text = sut.show(o)
    yield "parsing", lambda: sut.PARSERS[kind](text)
    if kind == "query":
        m = sut.mod("treeno.relation")
        def resolve():
            try:
                other.resolve(m.Schema([], set()))
            except Exception:
                pass
        yield "resolving", resolve


def type_jobs(t, u):
    """The same for two types, and for operators which unite them."""
    a, b, a2 = sut.build_type(t), sut.build_type(u), sut.build_type(t)
    both = sut.mod("treeno.datatypes.conversions").common_supertype
    text = str(a)
    yield "building types", lambda: sut.build_type(t)
    yield "printing types", lambda: str(a)
    yield "comparing types", lambda: (a == a2, a == b, a != b)
    if t == u:
        yield "parsing types", lambda: sut.PARSERS["type"](text)
    yield "unite", lambda: may_refuse(both, a, b)
    yield "unite the other way", lambda: may_refuse(both, b, a)
    yield "unite equals", lambda: may_refuse(both, a, a2)
    x, y = sut.build(mk("Cast", F("p"), t)), sut.build(mk("Cast", F("q"), u))
    for k, args in (("Coalesce", lambda: ([x, y],)), ("Array", lambda: ([x, y],)), ("If", lambda: (x, x, y)), ("Concatenate", lambda: ([x, y],)), ("Equal", lambda: (x, y)), ("Sum", lambda: (x,)),
                    ("ArrayAgg", lambda: (x,)), ("RowConstructor", lambda: ([x, y],)), ("ValuesQuery", lambda: ([x, y],)), ("Subscript", lambda: (x, y))):
        yield k, lambda k=k, args=args: may_refuse(sut.cls(k), *args())


def may_refuse(f, *args):
    try:
        return f(*args)
    except (TypeError, AssertionError, ValueError):
        return None


def type_shapes():
    """label -> (type, type) of n levels"""
    up = {"array": lambda t: dt("ARRAY", dtype=t), "map": lambda t: dt("MAP", from_dtype=dt("BIGINT"), to_dtype=t), "map keys": lambda t: dt("MAP", from_dtype=t, to_dtype=dt("BIGINT")),
          "row": lambda t: dt("ROW", dtypes=[t]), "row of two": lambda t: dt("ROW", dtypes=[dt("DATE"), t])}
    ends = {"equal": (dt("BIGINT"), dt("BIGINT")), "numbers": (dt("BIGINT"), dt("DOUBLE")), "decimals": (dt("DECIMAL", precision=3, scale=1), dt("DECIMAL", precision=5, scale=4)), "integers": (dt("BIGINT"), dt("INTEGER")),
            "strings": (dt("VARCHAR", max_chars=3), dt("VARCHAR", max_chars=5)), "times": (dt("TIMESTAMP"), dt("DATE")), "null": (dt("UNKNOWN"), dt("DATE")), "no": (dt("BOOLEAN"), dt("DATE"))}
    for e, (x, y) in ends.items():
        for a in up:
            for b in up:
                def make(n, a=a, b=b, x=x, y=y):
                    for i in range(n):
                        x, y = (up[(a, b)[i % 2]](v) for v in (x, y))
                    return x, y
                yield f"types {a}, {b} of {e}", make


def grows(label, make, sizes=SIZES, jobs=jobs):
    """make(n) -> (tree, kind)"""
    before, shape = {}, None
    for n in sizes:
        made = make(n)
        if made is None:
            return Out(discard=True)
        tree, kind = made
        shape = shape or S.short(tree, 300) if isinstance(tree, S.N) else label
        for name, fn in jobs(tree, kind):
            if before.get(name, 0) > ENOUGH:
                continue
            if name.startswith("parsing"):
                fn()                        # fills the caches of the parser
            allowed = FACTOR * before[name] + SLACK if name in before else CAP
            try:
                before[name], r = count(fn, allowed)
            except TooMuch:
                fail(f"{label}: {name} takes more than {allowed} calls at size {n}, {before.get(name)} at half the size; at size {sizes[0]}, it is {shape}")
            if isinstance(r, str):
                k = name + " text"
                require(len(r) <= FACTOR * before.get(k, CAP) + SLACK, lambda: f"{label}: {name} gives {len(r)} characters at size {n}, {before.get(k)} at half the size")
                before[k] = len(r)
    return Out(sample=f"{label}: {before} calls at size {sizes[-1]}", key=label + shape, labels=["nested" if "nest" in label else "long"])


# ---- nesting --------------------------------------------------------------------------------------------------
def as_expr(n):
    """The node in a place where an expression may stand."""
    tree, _ = atoms.host(n)
    return tree


def query_of(e):
    return e if e.t in atoms.QUERIES else mk("SelectQuery", [e])


T_ = mk("Table", "t")
ON = mk("JoinConfig", "LEFT", criteria=mk("JoinOnCriteria", atoms.COND))
CROSS = mk("JoinConfig", "CROSS")
sel = lambda r: mk("SelectQuery", [F("z")], from_=r)
al = lambda q: mk("AliasedRelation", mk("TableQuery", T_), "s")
RELATIONAL = {
    "from": lambda e: sel(query_of(e)),
    "from alias": lambda e: sel(mk("AliasedRelation", query_of(e), "s", ["c"])),
    "join left": lambda e: sel(mk("Join", query_of(e), T_, ON)),
    "join right": lambda e: sel(mk("Join", T_, query_of(e), ON)),
    "cross join right": lambda e: sel(mk("Join", T_, query_of(e), CROSS)),
    "lateral": lambda e: sel(mk("Lateral", query_of(e))),
    "lateral join": lambda e: sel(mk("Join", T_, mk("Lateral", query_of(e)), CROSS)),
    "sample": lambda e: sel(mk("TableSample", query_of(e), "SYSTEM", lit(10))),
    "union left": lambda e: mk("UnionQuery", query_of(e), mk("TableQuery", T_)),
    "union right": lambda e: mk("UnionQuery", mk("TableQuery", T_), query_of(e)),
    "except right": lambda e: mk("ExceptQuery", mk("TableQuery", T_), query_of(e)),
    "intersect left": lambda e: mk("IntersectQuery", query_of(e), mk("TableQuery", T_)),
    "with": lambda e: mk("SelectQuery", [F("z")], from_=mk("Table", "w"), with_=[mk("AliasedRelation", query_of(e), "w")]),
    "with columns": lambda e: mk("SelectQuery", [F("z")], from_=mk("Table", "w"), with_=[mk("AliasedRelation", query_of(e), "w", ["z"])]),
    "in query": lambda e: mk("InQuery", F("x"), query_of(e)),
    "in query and more": lambda e: mk("SelectQuery", [F("z")], from_=T_, where=mk("And", F("x"), mk("InQuery", F("x"), query_of(e))), orderby=[mk("OrderTerm", F("x"))], limit=3),
}


def steps():
    """label -> function expression -> larger expression"""
    out = {}
    for label, make in atoms.slots():
        out.setdefault(label, lambda e, make=make: as_expr(make(e)))
    for label, make in atoms.slots(True):
        out.setdefault("full " + label, lambda e, make=make: as_expr(make(e)))
    for label, make in itertools.chain(atoms.slots(), atoms.slots(True)):
        out.setdefault("wide " + label, lambda e, make=make: as_expr(wide(make(e), e)))
    out.update(RELATIONAL)
    return out


def wide(n, e):
    """The lists beside the nested expression have three times as many elements."""
    changes = {}
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if kind in ("nodes", "nodes?") and v and f != "inputs":
            rest = tuple(x for x in v if not any(y is e for y in S.walk(x)))
            changes[f] = tuple(v) + rest * 2
    b = n.put(**changes)
    return b if changes and atoms.typed_node(b) else n


STEPS = steps()
NAMES = sorted(STEPS)


def with_operand(e):
    """SQL has no text for an operand of a set operation with a WITH of its own."""
    return any(x.t in ("UnionQuery", "IntersectQuery", "ExceptQuery") and any(getattr(q, "with_", None) for q in (x.left_query, x.right_query)) for x in S.walk(e))


def nested(names, seed=F("p")):
    def make(n):
        e = seed
        for i in range(n):
            for s in names:
                e = STEPS[s](e)
        if not all(atoms.valid(x) for x in S.walk(e)) or with_operand(e) or not atoms.typed(e):
            return None
        return e, "query" if e.t in atoms.QUERIES else "expr"
    return make


# ---- length ---------------------------------------------------------------------------------------------------
def lists():
    for t in sorted(S.FIELDS):
        b = atoms.start(t)
        for f, kind in S.FIELDS[t]:
            if kind in ("nodes", "nodes?") and not (t == "Lambda" and f == "inputs"):
                kids = b.d[f] or atoms.node_for(t, f)
                def make(n, b=b, f=f, kids=kids):
                    return fine(b.put(**{f: tuple((tuple(kids) * n)[:n])}))
                yield f"{t}.{f}", make
            elif kind in ("strs", "strs?"):
                yield f"{t}.{f}", lambda n, b=b, f=f: fine(b.put(**{f: tuple(f"c{i}" for i in range(n))}))
            elif kind == "wins":
                yield f"{t}.{f}", lambda n, b=b, f=f: fine(b.put(**{f: tuple((f"w{i}", mk("Window", partitions=[F("p")])) for i in range(n))}))
    def chain(op, left=True):
        def make(n):
            e = F("p")
            for i in range(n):
                e = mk(op, e, F("q")) if left else mk(op, F("q"), e)
            return e, "expr"
        return make
    for op in ("Add", "Minus", "Multiply", "And", "Or", "Equal"):
        yield f"chain of {op}", chain(op)
        yield f"chain of {op} to the right", chain(op, False)
    def types(wrap):
        def make(n):
            t = dt("BIGINT")
            for i in range(n):
                t = wrap(t)
            return mk("Cast", F("p"), t), "expr"
        return make
    yield "array types", types(lambda t: dt("ARRAY", dtype=t))
    yield "map types", types(lambda t: dt("MAP", from_dtype=dt("BIGINT"), to_dtype=t))
    yield "row types", types(lambda t: dt("ROW", dtypes=[dt("DATE"), t]))
    yield "a row of many types", lambda n: (mk("Cast", F("p"), dt("ROW", dtypes=[dt("DATE")] * n)), "expr")


def fine(b):
    tree, kind = atoms.host(b)
    return (tree, kind) if atoms.typed(tree) else None


def enumerated(tier):
    out = []
    for s in NAMES:
        out.append((s, lambda s=s: grows("nest " + s, nested([s]))))
    for label, make in lists():
        out.append((label, lambda label=label, make=make: grows("long " + label, make, (8, 16, 32))))
    for label, make in type_shapes():
        out.append((label, lambda label=label, make=make: grows(label, make, (4, 8, 16), type_jobs)))
    rel = sorted(RELATIONAL)
    for a in rel:
        for b in rel:
            out.append((f"{a}, {b}", lambda a=a, b=b: grows(f"nest {a}, {b}", nested([a, b]))))
    return out


def case(src):
    k = 2 + src.choose(3)
    names = [src.pick(sorted(RELATIONAL)) if src.chance(1, 4) else src.pick(NAMES) for _ in range(k)]
    seed = src.pick([F("p"), lit(1), lit("x"), atoms.Q, mk("Array", [lit(1)]), atoms.COND])
    return grows("nest " + ", ".join(names), nested(names, seed), (3, 6, 12))
