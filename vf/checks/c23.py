"""C23: parsing and printing are pure and deterministic: histories of operations, fresh processes, unshared state."""
import copy
import json
import os
import subprocess
import sys
from decimal import Decimal
from enum import Enum

import attr

from ..common import *
from ..spec import lit, mk
from ..child import facts
from .. import mutate as M

PROPERTY = "C23"
RULE = "a tree changed in place in at least one way, a history of at least eight operations on at least three trees, or the comparison of a text between processes; distinct by history"
ASSUMPTIONS = [GRAMMAR, TYPED, "resolving may add type information to the tree it is called on, so histories resolve only trees set aside for it", "a tree that a caller puts into two other trees is shared between them by the caller's own choice",
               "threads parse and print on their own: none of them changes a tree that another one reads", "texts that threads parse at the same time were parsed before, one after the other"]
COUNTS = {"quick": 700, "thorough": 60000}


def mutables(o, out=None, path="$"):
    """id -> (path, object) of everything in a tree that could be changed in place."""
    out = {} if out is None else out
    if id(o) in out or o is None or isinstance(o, (str, int, float, bool, Enum, Decimal)):
        return out
    if isinstance(o, (list, dict, set)) or attr.has(type(o)):
        out[id(o)] = (path, o)
    if isinstance(o, (list, tuple, set)):
        for i, x in enumerate(o):
            mutables(x, out, f"{path}[{i}]")
    elif isinstance(o, dict):
        for k, x in o.items():
            mutables(x, out, f"{path}[{k!r}]")
    elif attr.has(type(o)):
        for f in attr.fields(type(o)):
            mutables(getattr(o, f.name), out, f"{path}.{f.name}")
    return out


def apart(a, b, what):
    x, y = mutables(a), mutables(b)
    common = set(x) & set(y)
    if common:
        path, o = x[min(common)]
        fail(f"{what} share {type(o).__name__} {str(o)[:100]!r}, {path} in the first")


def minimal(n):
    """The node built with its defaults left out wherever the class has them."""
    if n is None:
        return None
    if n.t in ("Literal", "DataType") or n.t == "ApproxPercentile":
        return sut._build(n)
    kw = {}
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        d = S.default_of(n.t, f)
        if d is not S._NODEF and d == v and not kind == "int":
            continue
        if kind in ("node", "node?"):
            v = minimal(v)
        elif kind in ("nodes", "nodes?"):
            v = [minimal(x) for x in v]
        elif kind == "tbl":
            v = minimal(v) if isinstance(v, S.N) else v
        elif kind in ("strs", "strs?"):
            v = list(v)
        elif kind.startswith("enum"):
            v = sut.enum(kind.split(":")[1], v)
        elif kind == "dtype":
            v = sut.build_type(v)
        elif kind == "wins":
            v = {a: minimal(b) for a, b in v}
        kw[f] = v
    return sut.cls(n.t)(**kw)


def defaults(tree, kind):
    """Leaving out what is default gives the same tree, and two such trees have nothing in common."""
    a = sut.guard("building with defaults", minimal, tree)
    b = sut.guard("building with defaults", minimal, tree)
    d = S.diff(tree, sut.canon(a))
    require(d is None, lambda: f"building {S.short(tree)} with defaults left out gives another tree: {d}")
    apart(a, b, f"two trees {S.short(tree, 100)} built separately")
    full = sut.build(tree)
    apart(a, full, f"two trees {S.short(tree, 100)} built separately")
    text = sut.show(full)
    one = sut.build_shared(tree)
    require((sut.show(one), sut.show(one, True), sut.canon(one)) == (text, sut.show(full, True), tree), lambda: f"a tree whose equal parts are one object prints as {sut.show(one)!r}, built of separate objects as {text!r}")
    require(sut.show(a) == text, lambda: f"a tree with defaults left out prints as {sut.show(a)!r}, with defaults given as {text!r}")
    if tree.t not in atoms.NOT_EXPR or tree.t in atoms.QUERIES:
        kind = L.real_kind(tree, kind)
        p, q = sut.PARSERS[kind](text), sut.PARSERS[kind](text)
        apart(p, q, f"two results of parsing {text!r}")
        spoil(p)
        require(sut.show(q) == text, lambda: f"changing one result of parsing {text!r} changes another one to {sut.show(q)!r}")
        r = sut.PARSERS[kind](text)
        require(sut.show(r) == text and L.canon_of(r, kind) == tree, lambda: f"changing a result of parsing {text!r} changes what a later parse gives: {sut.show(r)!r}")
    spoil(full)
    require(sut.canon(b) == tree and sut.show(b) == text, lambda: f"changing one tree changes another one, built separately: {text!r} became {sut.show(b)!r}")
    again = sut.build(tree)
    require(sut.canon(again) == tree and sut.show(again) == text, lambda: f"changing a tree changes what is built later: {text!r} became {sut.show(again)!r}")
    return Out(sample=text, nontrivial=True, key=repr(tree), labels=["defaults and state"])


def spoil(o):
    """Change everything in a tree that can be changed in place."""
    for _, x in list(mutables(o).values()):
        if isinstance(x, list):
            x.append("spoiled")
        elif isinstance(x, dict):
            x["spoiled"] = "spoiled"
        elif isinstance(x, set):
            x.add("spoiled")
        else:
            for f in attr.fields(type(x)):
                v = getattr(x, f.name)
                if isinstance(v, str):
                    object.__setattr__(x, f.name, v + "spoiled")
                elif isinstance(v, bool):
                    object.__setattr__(x, f.name, not v)


def changed(tree, kind, src=None):
    """A tree whose attributes are set anew is the tree that is built with them: nothing of its past shows."""
    n = 0
    where = [(p, x) for p, x in M.positions(tree) if x.t not in ("Literal", "DataType", "Lambda", "Variable")]
    if src is not None:
        where = [src.pick(where)] if where else []
    for path, x in where:
        todo = [m for m in M.shallow(x) if m.t == x.t]
        if src is not None:
            todo = [src.pick(todo) for _ in range(3)] if todo else []
        for m in todo:
            fs = [f for f, _ in S.FIELDS[x.t] if m.d[f] != x.d[f]]
            want = M.replace(tree, path, m)
            try:
                new = sut.build(want)
                text = sut.show(new)
            except (sut.SutError, AssertionError, ValueError, TypeError):
                continue
            o = sut.build(tree)
            sut.show(o), sut.show(o, True), sut.guard("equals", o.equals, new), repr(o)
            part, fresh = at(o, path), at(new, path)
            for f in fs + ["data_type"]:
                if f == "distinct" and not hasattr(fresh, f):
                    break
                if hasattr(fresh, f):
                    object.__setattr__(part, f, getattr(fresh, f))
            else:
                n += 1
                require(sut.show(o) == text and sut.show(o, True) == sut.show(new, True), lambda: f"{S.short(tree, 400)} printed, then changed at {path} to {S.short(m, 200)}, prints {sut.show(o)!r}, not {text!r}")
                require(sut.canon(o) == want, lambda: f"{S.short(tree, 400)}, changed at {path} to {S.short(m, 200)}, reads as {S.short(sut.canon(o), 400)}")
                require(sut.guard("equals", o.equals, sut.build(tree)) is False, lambda: f"{S.short(tree, 400)}, changed at {path} to {S.short(m, 200)}, still equals what it was")
    return Out(sample="changed in place: " + S.short(tree, 300), nontrivial=n >= 1, key="changed" + repr(tree), labels=["changed in place"], discard=n == 0)


def at(o, path):
    for step in path:
        if isinstance(step, tuple):
            v = getattr(o, step[0])
            o = list(v.values())[step[1]] if isinstance(v, dict) else v[step[1]]
        else:
            o = getattr(o, step)
    return o


# ---- histories ------------------------------------------------------------------------------------------------
class Entry:
    def __init__(self, kind, obj, text=None):
        self.kind, self.obj, self.text = kind, obj, text
        self.facts = self.now()

    def now(self):
        o = self.obj
        return [repr(L.canon_of(o, self.kind)), sut.show(o), repr(o)]


ODD = ["SELECT", "SELECT a FROM", "a +", "ARRAY(", "'x", '"', "SELECT a WHERE (", "CASE WHEN", "f(x", "SELECT EXISTS (SELECT 1)", "1 2 3", ""]


def history(src):
    g = Gen(src, size=src.pick([3, 6, 12]))
    pool, log, seen = [], [], {}
    def note(kind, text, fs):
        old = seen.setdefault((kind, text), fs)
        require(old == fs, lambda: f"after {log}: {text!r} gave {old} before and gives {fs} now")
    def new(kind, obj, text=None):
        pool.append(Entry(kind, obj, text))
    for k in range(3):
        tree, kind = g.any_tree()
        kind = L.real_kind(tree, kind)
        if src.choose(2):
            text, _ = L.text_of(tree, kind, src)
            obj = sut.PARSERS[kind](text)
            log.append(f"parse {text}")
        else:
            obj, text = (sut.build_type(tree) if kind == "type" else sut.build(tree)), None
            log.append("build " + sut.show(obj))
        new(kind, obj, text)
    steps = 6 + src.choose(12)
    for _ in range(steps):
        e = src.pick(pool)
        op = src.choose(11)
        if op == 0:
            log.append("print " + e.facts[1][:60])
            require(sut.show(e.obj) == e.facts[1], lambda: f"after {log}: printing {e.facts[1]!r} gives {sut.show(e.obj)!r}")
        elif op == 1:
            n = src.pick([0, 1, 2, 4, 8])
            log.append(f"pretty {n} " + e.facts[1][:60])
            note("pretty %d" % n, (e.kind, e.facts[2]), sut.show(e.obj, True, n))
        elif op == 2 and e.text is not None:
            log.append("parse again " + e.text[:60])
            o = sut.PARSERS[e.kind](e.text)
            apart(o, e.obj, f"after {log}: two results of parsing {e.text!r}")
            f = Entry(e.kind, o).facts
            require(f == e.facts, lambda: f"after {log}: parsing {e.text!r} again gives {f}, not {e.facts}")
            pool[pool.index(e)] = Entry(e.kind, o, e.text) if src.choose(2) else e
        elif op == 3:
            text = e.facts[1]
            log.append("parse its text " + text[:60])
            note(e.kind, text, facts(e.kind, text))
        elif op == 4:
            other = src.pick(pool)
            log.append("compare " + e.facts[1][:40] + " with " + other.facts[1][:40])
            want = e.facts[0] == other.facts[0] and e.kind == other.kind
            r = sut.guard("equals", e.obj.equals, other.obj)
            # trees with the same parts may differ in types that were set by hand, so only the clear cases are judged
            require(r is True or not (want and e.facts[2] == other.facts[2]), lambda: f"after {log}: equal trees differ")
            require(r is False or want, lambda: f"after {log}: different trees are equal")
        elif op == 5 and e.kind != "type":
            log.append("walk " + e.facts[1][:60])
            from .c18 import recorder
            v = recorder()
            v.visit(e.obj)
            note("walk", (e.kind, e.facts[2]), [n for n, _ in v.calls])
        elif op == 6 and e.kind == "expr":
            other = src.pick([x for x in pool if x.kind == "expr"])
            name = src.pick(["__add__", "__sub__", "__eq__", "__and__", "__or__", "__lt__", "__mul__", "__mod__", "__ne__", "__pow__"])
            log.append(f"build {e.facts[1][:40]} {name} {other.facts[1][:40]}")
            if not any(isinstance(x.obj, sut.cls(c)) for x in (e, other) for c in ("Lambda", "Star", "AliasedStar", "AliasedValue")):
                try:
                    o = getattr(e.obj, name)(other.obj)
                except TypeError:
                    o = None
                if o is not None and len(sut.show(o)) < 600:
                    new("expr", o)
        elif op == 7:
            text = src.pick(ODD)
            kind = src.pick(["query", "expr", "type"])
            log.append(f"parse {text} as {kind}")
            note(kind, text, facts(kind, text))
        elif op == 8 and e.kind == "query":
            log.append("resolve a twin of " + e.facts[1][:60])
            note("resolve", e.facts[1], resolved(e.facts[1]))
        elif op == 9:
            log.append("copy " + e.facts[1][:60])
            o = copy.deepcopy(e.obj)
            apart(o, e.obj, "a deep copy and its original")
            pool[pool.index(e)] = Entry(e.kind, o, e.text)
        elif op == 10 and len(pool) < 8:
            tree, kind = g.any_tree()
            kind = L.real_kind(tree, kind)
            text, _ = L.text_of(tree, kind, src)
            log.append("parse " + text[:60])
            note(kind, text, facts(kind, text))
            new(kind, sut.PARSERS[kind](text), text)
        if src.chance(1, 3):
            unchanged(pool, log)
    unchanged(pool, log)
    return Out(sample="; ".join(log)[:600], nontrivial=len(log) >= 8, labels=sorted({l.split()[0] for l in log}))


def unchanged(pool, log):
    for e in pool:
        now = e.now()
        if now != e.facts:
            i = [a == b for a, b in zip(e.facts, now)].index(False)
            fail(f"after the operations {log}\nthe tree {e.facts[1]!r} is not what it was:\n  {e.facts[i]}\n  {now[i]}")


def resolved(text):
    R = sut.mod("treeno.relation")
    q = sut.parse_query(text)
    try:
        s = q.resolve(R.Schema.empty_schema())
    except Exception as e:
        return ["refused", type(e).__name__]
    return [[f.name, sut.show(f.data_type)] for f in s.fields]


# ---- processes ------------------------------------------------------------------------------------------------
def processes(batch, how, hashseed):
    from ..runner import HarnessError
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), VF_REPO=sut.REPO)
    p = subprocess.run([sys.executable, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "child.py"), how], input=json.dumps(batch), capture_output=True, text=True, env=env, timeout=50)
    if p.returncode:
        fail(f"a fresh process fails on texts that this one handles: {p.stderr[-600:]}")
    other = json.loads(p.stdout)
    mine = [facts(*x) for x in batch]
    for (kind, text), a, b in zip(batch, mine, other):
        require(a == b, lambda: f"{text!r} gives\n  {a}\nin this process and\n  {b}\nin a process with PYTHONHASHSEED={hashseed} ({how})")
    return Out(sample=f"{len(batch)} texts, {how}, PYTHONHASHSEED={hashseed}, such as {batch[0][1]!r}", nontrivial=True, key=f"{how} {hashseed} {batch[0]}", labels=["processes"])


def enumerated(tier):
    out = []
    texts = []
    for i, (label, tree, kind) in enumerate(list(atoms.all_variations()) + every(atoms.extended(), 1 if tier == "thorough" else 3)):
        if kind == "type":
            continue
        out.append((label, lambda tree=tree, kind=kind: defaults(tree, kind)))
        out.append((label + " changed", lambda tree=tree, kind=kind: changed(tree, kind)))
        if i % (4 if tier == "quick" else 1) == 0:
            kind = L.real_kind(tree, kind)
            texts.append([kind, L.text_of(tree, kind)[0]])
    texts += [["query", t] for t in ODD] + [["expr", t] for t in ODD] + [["type", t] for t in ("ARRAY(ROW(a BIGINT))", "MAP(BIGINT, VARCHAR(3))", "TIMESTAMP(3) WITH TIME ZONE", "nosuch")]
    n, k = 0, 4 if tier == "quick" else 8
    for how, hs in (("forwards", 0), ("backwards", 1), ("twice", 12345), ("backwards", 4294967295), ("threads", 7)):
        for i in range(k):
            batch = texts[i::k]
            out.insert(17 * n, (f"process {how} {hs} {i}", lambda batch=batch, how=how, hs=hs: processes(batch, how, hs)))
            n += 1
    return out


def case(src):
    if src.choose(4) == 0:
        tree, kind = Gen(src, size=src.pick([3, 6, 12, 25])).any_tree()
        if kind == "type":
            return Out(discard=True)
        return changed(tree, kind, src)
    return history(src)
