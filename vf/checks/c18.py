"""C18: a visitor reaches every node once per occurrence, through the method of the node's own type."""
from collections import Counter

from ..common import *
from ..spec import lit, mk
from .. import mutate as M

PROPERTY = "C18"
RULE = "the walked tree has at least three nodes; distinct by tree"
ASSUMPTIONS = [TYPED, "a visitor recurses by calling node.visit(self) from its visit_ methods; data types are leaves which may or may not be announced", "the order of the calls is not part of the property"]
COUNTS = {"quick": 9000, "thorough": 300000}


def is_type(o):
    return isinstance(o, sut.mod("treeno.datatypes.types").DataType)


def describe(o):
    try:
        return f"{type(o).__name__} {sut.show(o)!r}"
    except sut.SutError:
        return repr(o)[:200]


class Plain:
    """Only what node.visit needs: records its direct calls."""

    def __init__(self):
        self.seen = []

    def visit(self, node):
        self.seen.append(node)


_recorder = None


def recorder():
    """A visitor with one method per node type, each of which records its name and goes on below."""
    global _recorder
    if _recorder is None:
        base = sut.mod("treeno.visitor").TreenoVisitor
        def method(name):
            def visit_it(self, node):
                self.calls.append((name, node))
                node.visit(self)
                return name
            return visit_it
        body = {}
        for n in dir(base):
            if n.startswith("visit_"):
                body[n] = method(n[6:])
        _recorder = type("Recorder", (base,), body)
    r = _recorder()
    r.calls = []
    return r


def check(spec, obj):
    pairs = list(sut.paired(spec, obj))
    want = Counter(id(o) for _, o in pairs)
    names = {id(o): n.t for n, o in pairs}
    v = recorder()
    result = sut.guard("visitor.visit", v.visit, obj)
    require(result == spec.t, lambda: f"visiting {describe(obj)} gives {result!r}, not the result of visit_{spec.t}")
    got = Counter(id(o) for _, o in v.calls if not is_type(o))
    keep = {id(o): o for _, o in v.calls}
    keep.update({id(o): o for _, o in pairs})
    for i in want:
        if got[i] != want[i]:
            fail(f"walking {describe(obj)} reaches {describe(keep[i])} {got[i]} times; it stands there {want[i]} times")
    for i in got:
        if i not in want:
            fail(f"walking {describe(obj)} reaches {describe(keep[i])}, which is no part of it")
    for called, o in v.calls:
        if not is_type(o) and called != names[id(o)]:
            fail(f"{describe(o)} is given to visit_{called}, not to visit_{names[id(o)]}")
    # each node announces exactly its own children
    for n, o in pairs[:40]:
        if n.t in ("Literal", "DataType"):
            continue
        p = Plain()
        sut.guard(f"{n.t}.visit", o.visit, p)
        direct = Counter(id(x) for x in p.seen if not is_type(x))
        kids = Counter()
        skip = 0
        for c, x in children_of(n, o):
            kids[id(x)] += 1
        require(direct == kids, lambda: f"{describe(o)} announces {[describe(x) for x in p.seen]}, its parts are {[describe(x) for _, x in children_of(n, o)]}")
    return len(pairs)


def children_of(n, o):
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if v is None or f == "distinct":
            continue
        w = getattr(o, f)
        if kind in ("node", "node?") or kind == "tbl" and isinstance(v, S.N):
            yield v, w
        elif kind in ("nodes", "nodes?"):
            yield from zip(v, w)
        elif kind == "wins":
            for name, x in v:
                yield x, w[name]


def one(tree, kind, parse=False, share=True):
    if kind == "type":
        obj = sut.build_type(tree)
        p = Plain()
        sut.guard("visiting a type", obj.visit, p)
        sut.guard("visitor.visit", recorder().visit, obj)
        return Out(sample=sut.show(obj), nontrivial=False, labels=["type"])
    obj = sut.build(tree)
    before = (sut.canon(obj), repr(obj))
    n = check(tree, obj)
    if share:
        check(tree, sut.build_shared(tree))
    require((sut.canon(obj), repr(obj)) == before, lambda: f"walking changed the tree {describe(obj)}")
    if parse:
        kind = L.real_kind(tree, kind)
        p = sut.PARSERS[kind](sut.show(obj))
        check(sut.canon(p), p)
    return Out(sample=describe(obj), nontrivial=n >= 3, key=repr(tree), labels=census(tree))


def shared():
    """One object in several places is announced once for each of them."""
    x = sut.build(mk("Add", mk("Field", "a"), lit(1)))
    E = sut.mod("treeno.expression")
    for obj, places in ((E.And(x, x), 2), (E.RowConstructor([x, x, x]), 3), (E.Between(x, x, x), 3), (E.InList(x, [x, x]), 3)):
        v = recorder()
        v.visit(obj)
        for o, per in ((x, 1), (x.left, 1), (x.right, 1)):
            n = sum(1 for _, y in v.calls if y is o)
            require(n == places * per, lambda: f"walking {describe(obj)} reaches {describe(o)} {n} times, it stands there {places} times")
    return Out(sample="shared nodes", nontrivial=True)


def methods():
    base = sut.mod("treeno.visitor").TreenoVisitor
    for mod_ in set(S.MODULES.values()) | {"treeno.datatypes.types", "treeno.functions.session", "treeno.functions.math", "treeno.functions.common"}:
        sut.mod(mod_)
    Sql = sut.mod("treeno.base").Sql
    import inspect
    def concrete(c):
        for s in c.__subclasses__():
            if s.__module__.startswith("treeno.") and not inspect.isabstract(s) and Sql.__module__ and not abc_only(s):
                yield s
            yield from concrete(s)
    def abc_only(c):
        from abc import ABC
        return ABC in c.__bases__
    # classes which only others derive from are helpers, unless they are known as node types
    names = {s.__name__ for s in concrete(Sql) if not s.__subclasses__()} | set(S.FIELDS) | {"Literal"}
    missing = sorted(n for n in names if not callable(getattr(base, "visit_" + n, None)))
    require(not missing, lambda: f"TreenoVisitor has no method for {missing}")
    return Out(sample=f"{len(names)} node types have their visitor methods", nontrivial=True)


def enumerated(tier):
    out = [("methods", methods), ("shared", shared)]
    for label, tree, kind in list(atoms.all_variations()) + list(atoms.all_pairwise()) + list(atoms.pairs()) + list(atoms.extended()):
        if kind != "type":
            out.append((label, lambda tree=tree, kind=kind: one(tree, kind)))
    for t in sorted(S.FIELDS):
        for i, n in enumerate(atoms.variations(t)):
            def part(n=n):
                try:
                    obj = sut.build(n)
                except sut.SutError as e:
                    if isinstance(e.exc, TypeError):
                        return Out(discard=True)
                    raise
                return Out(sample=repr(n)[:200], nontrivial=check(n, obj) >= 3, key=repr(n))
            out.append((f"part {t} {i}", part))
    return out


def case(src):
    g = Gen(src, size=src.pick([4, 10, 20, 40, 80]))
    tree, kind = g.any_tree()
    return one(tree, kind, parse=src.chance(1, 10))
