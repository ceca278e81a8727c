"""C19: equals() holds for copies, fails for any single change at any depth, is symmetric and changes nothing."""
import copy
import functools

import attr

from ..common import *
from ..spec import lit, mk, dt
from .. import mutate as M

PROPERTY = "C19"
RULE = "the tree was compared with at least five trees that differ from it in one place; distinct by tree"
ASSUMPTIONS = [TYPED, "both trees are as built or parsed: type information that resolution adds to one of them is left out", "the named windows of a query are found by name: their order is not compared",
               "NaN, and the sign of a zero, are left out: they compare as Python floats do"]
COUNTS = {"quick": 3500, "thorough": 250000}
Sql = sut.mod("treeno.base").Sql
OUTSIDERS = [None, 1, "a", "", (), [], {}, True, 1.5, object()]


def eq(a, b):
    r = sut.guard("equals", a.equals, b)
    require(r is True or r is False, lambda: f"equals gives {r!r}, neither True nor False")
    return r


def build(spec, kind):
    return sut.build_type(spec) if kind == "type" else sut.build(spec)


def snapshot(o, kind):
    try:
        text = sut.show(o)
    except sut.SutError as e:
        if not isinstance(e.exc, NotImplementedError):     # a part of a join has no text of its own
            raise
        text = repr(o)
    return L.canon_of(o, kind), text, repr(o)


def compare(tree, kind, mutants, parse=True):
    """Compare the built tree with copies and with the mutants; returns how many mutants could be built."""
    o = build(tree, kind)
    before = snapshot(o, kind)
    again = build(tree, kind)
    same = [("itself", o), ("a tree built the same way", again), ("its deep copy", copy.deepcopy(o)), ("its copy", copy.copy(o))]
    if kind != "type":
        same.append(("a tree whose equal parts are one object", sut.build_shared(tree)))
    if parse:
        same.append(("the tree read from its text", sut.PARSERS[L.real_kind(tree, kind)](before[1])))
    for what, x in same:
        require(eq(o, x) and eq(x, o), lambda: f"{before[1]!r} is not equal to {what}")
        sut.guard("assert_equals", o.assert_equals, x)
    if kind == "type":
        require((o == again) is True and not (o != again), lambda: f"the type {before[1]!r} is not == to its copy")
    for x in OUTSIDERS + [before[1]]:
        require(eq(o, x) is False, lambda: f"{before[1]!r} equals {x!r}")
    n = 0
    for m in mutants:
        if m == tree:
            continue
        try:
            p = build(m, kind)
        except (sut.SutError, AssertionError, ValueError, TypeError):
            continue
        n += 1
        if eq(o, p) or eq(p, o):
            fail(f"two different trees compare equal: {S.diff(tree, m)}\n  {before[1]!r}\n  {snapshot(p, kind)[1]!r}\n  one way {eq(o, p)}, the other way {eq(p, o)}")
        try:
            o.assert_equals(p)
        except AssertionError:
            pass
        else:
            fail(f"assert_equals accepts two different trees: {S.diff(tree, m)}")
        if kind == "type":
            require((o == p) is False and (o != p) is True, lambda: f"the types {o} and {p} are ==")
    require(snapshot(o, kind) == before, lambda: f"comparing changed the tree {before[1]!r}")
    return n


def parsable(tree):
    """Parts of queries have no text of their own."""
    return tree.t not in atoms.NOT_EXPR or tree.t in atoms.QUERIES


def parts(o, path=()):
    """The nodes below o, as chains of attribute names and indices."""
    if isinstance(o, Sql):
        yield path, o
        for f in attr.fields(type(o)):
            if not f.name.startswith("_"):
                yield from parts(getattr(o, f.name), path + (f.name,))
    elif isinstance(o, (list, tuple)):
        for i, x in enumerate(o):
            yield from parts(x, path + (i,))
    elif isinstance(o, dict):
        for k, x in o.items():
            yield from parts(x, path + (k,))


class Quiet:
    def __init_subclass__(cls, **kw):
        """Registers nothing: a derived function would take the place of the original one."""


@functools.cache
def sub(cls):
    return type(cls)(cls.__name__, (Quiet, cls), {})


def derived(tree, kind, src=None):
    """A node of a class that a user derived from one of the library's is not of the same type."""
    o = build(tree, kind)
    where = list(parts(o))
    if src is not None:
        where = [src.pick(where)]
    for path, _ in where:
        p = build(tree, kind)
        chain = [p]
        for step in path:
            chain.append(getattr(chain[-1], step) if isinstance(chain[-1], Sql) else chain[-1][step])
        new = object.__new__(sub(type(chain[-1])))
        new.__dict__.update(chain[-1].__dict__)
        for step, holder in zip(reversed(path), reversed(chain[:-1])):
            if isinstance(holder, Sql):
                object.__setattr__(holder, step, new)
            elif isinstance(holder, tuple):
                new = holder[:step] + (new,) + holder[step + 1:]
                continue
            else:
                holder[step] = new
            break
        else:
            p = new
        require(not eq(o, p) and not eq(p, o), lambda: f"{snapshot(o, kind)[1]!r} equals a tree whose {path} is of a derived class: one way {eq(o, p)}, the other way {eq(p, o)}")


def one(tree, kind, src=None, most=None):
    def mutants():
        where = list(M.positions(tree))
        if most is None:
            for p, n in where:
                for m in M.shallow(n):
                    yield M.replace(tree, p, m)
        else:
            for _ in range(most):
                p, n = src.pick(where)
                ms = list(M.shallow(n))
                if ms:
                    yield M.replace(tree, p, src.pick(ms))
    if src is None or src.pick(range(8)) == 0:
        derived(tree, kind, src)
    n = compare(tree, kind, mutants(), parsable(tree) and tree.t != "DataType" or kind == "type")
    return Out(sample=snapshot(build(tree, kind), kind)[1], nontrivial=n >= 5, key=repr(tree), labels=["type"] if kind == "type" else census(tree))


def group(trees, kind):
    """Each pair of distinct trees differs, in both directions."""
    built = [(t, build(t, kind)) for t in trees]
    n = 0
    for i, (t, o) in enumerate(built):
        for u, p in built[i:]:
            n += 1
            want = t == u
            require(eq(o, p) is want and eq(p, o) is want, lambda: f"{snapshot(o, kind)[1]!r} and {snapshot(p, kind)[1]!r} {'should' if want else 'should not'} be equal: {S.diff(t, u)}")
    return Out(sample=f"{n} pairs of {kind}s, such as {snapshot(built[0][1], kind)[1]!r} and {snapshot(built[-1][1], kind)[1]!r}", nontrivial=True, labels=["pairs"])


def buildable(n):
    """Some combinations of types are refused."""
    try:
        sut.build(n)
        return True
    except sut.SutError as e:
        if not isinstance(e.exc, (TypeError, AssertionError)):
            raise
        return False


def enumerated(tier):
    out = []
    seen = set()
    def add(label, tree, kind):
        if (tree, kind) not in seen:
            seen.add((tree, kind))
            out.append((label, lambda: one(tree, kind)))
    trees = list(atoms.all_variations()) + every(atoms.extended(), 1 if tier == "thorough" else 4)
    if tier == "thorough":
        trees += list(atoms.pairs())
    for label, tree, kind in trees:
        if kind == "expr" or kind == "query":
            add(label, tree, kind)
    for t in sorted(S.FIELDS):        # also the parts that never stand alone
        try:
            for i, n in enumerate(atoms.variations(t)):
                if (tier == "thorough" or i < 12) and buildable(n):
                    add(f"{t} {i}", n, "expr")
        except KeyError:
            pass
    for t in atoms.TYPES:
        add(f"type {t}", t, "type")
    plain = []
    for t in sorted(S.FIELDS):
        plain += [n for n in atoms.variations(t)[:3]]
    plain += [lit(v) for v in (None, True, False, 0, 1, -1, 1.0, 0.5, "1", "", "true", "a")] + [M.N("Literal", {"kind": "dec", "text": x}) for x in ("1.0", "1.00", "0.5", "10.0")]
    ok = []
    ok = [n for n in dict.fromkeys(plain) if buildable(n)]
    k = 60
    for i in range(0, len(ok), k):
        for j in range(i, len(ok), k):
            part = ok[i:i + k] + (ok[j:j + k] if j != i else [])
            out.append((f"pairs {i} {j}", lambda part=part: group(part, "expr")))
    types = list(dict.fromkeys(list(atoms.TYPES) + [m for t in atoms.TYPES for m in M.type_mutants(t)]))
    good = []
    for t in types:
        try:
            sut.build_type(t)
            good.append(t)
        except Exception:
            pass
    for i in range(0, len(good), 60):
        out.append((f"types {i}", lambda part=good[i:i + 60]: group(part, "type")))
    return out


def case(src):
    g = Gen(src, size=src.pick([4, 10, 20, 40]))
    tree, kind = g.any_tree()
    return one(tree, kind, src, 25)
