"""C04: operator grouping survives printing, and parsing follows precedence, left-to-right rules and parentheses."""
import itertools

from ..common import *
from ..spec import mk, lit, dt

PROPERTY = "C04"
RULE = "the tree nests at least two operators; distinct by minimally parenthesized text"
ASSUMPTIONS = [GRAMMAR]
COUNTS = {"quick": 4000, "thorough": 150000}
F = atoms.F
P, Q_, R = F("p"), F("q"), F("r")


def _ops():
    """name -> (number of operands, maker)"""
    o = {}
    for t in ("Or And Add Minus Multiply Divide Modulus Equal NotEqual GreaterThan GreaterThanOrEqual LessThan LessThanOrEqual "
              "DistinctFrom").split():
        o[t] = (2, lambda a, b, t=t: mk(t, a, b))
    o["NotDistinct"] = (2, lambda a, b: mk("Not", mk("DistinctFrom", a, b)))
    o["Concat"] = (2, lambda a, b: mk("Concatenate", [a, b]))
    o["In"] = (2, lambda a, b: mk("InList", a, [b]))
    o["NotIn"] = (2, lambda a, b: mk("Not", mk("InList", a, [b])))
    o["Like"] = (2, lambda a, b: mk("Like", a, b))
    o["LikeEscape"] = (3, lambda a, b, c: mk("Like", a, b, c))
    o["NotLike"] = (2, lambda a, b: mk("Not", mk("Like", a, b)))
    o["Between"] = (3, lambda a, b, c: mk("Between", a, b, c))
    o["NotBetween"] = (3, lambda a, b, c: mk("Not", mk("Between", a, b, c)))
    o["Subscript"] = (2, lambda a, b: mk("Subscript", a, b))
    for t in ("Not", "Negative", "Positive", "IsNull"):
        o[t] = (1, lambda a, t=t: mk(t, a))
    o["NotNull"] = (1, lambda a: mk("Not", mk("IsNull", a)))
    o["InQuery"] = (1, lambda a: mk("InQuery", a, atoms.Q1))
    o["Deref"] = (1, lambda a: mk("Field", "f", a if a.t not in ("Field", "Variable") else mk("RowConstructor", [a, lit(1)])))
    o["Cast"] = (1, lambda a: mk("Cast", a, dt("BIGINT")))
    o["Minus1"] = (1, lambda a: mk("Minus", lit(-1), a))
    o["AddMinus1"] = (1, lambda a: mk("Add", a, lit(-2)))
    o["SubMinus1"] = (1, lambda a: mk("Minus", a, lit(-2)))
    return o


OPS = _ops()
NAMES = list(OPS)


def apply(op, kids):
    n, fn = OPS[op]
    return fn(*kids[:n])


def nested(outer, pos, inner):
    kids = [F("a"), F("b"), F("c")]
    kids[pos] = apply(inner, [F("x"), F("y"), F("z")])
    return apply(outer, kids)


def leg(spec, kind="expr"):
    text = L.parse_leg(spec, kind)
    L.print_leg(spec, kind)
    return text


def enumerated(tier):
    out = []
    def add(label, tree):
        if atoms.typed(tree):
            out.append((label, lambda: done(tree, "expr", leg(tree), minimum=3)))
    for a in NAMES:
        for i in range(OPS[a][0]):
            for b in NAMES:
                add(f"{a}[{i}] <- {b}", nested(a, i, b))
    core = ["Or", "And", "Not", "Equal", "Between", "Concat", "Minus", "Divide", "Negative", "Subscript"]
    triple = core if tier == "quick" else NAMES
    for a, b, c in itertools.product(triple, core, triple):
        for i in range(OPS[a][0]):
            for j in range(OPS[b][0]):
                kids_b = [F("x"), F("y"), F("z")]
                kids_b[j] = apply(c, [F("k"), F("l"), F("m")])
                kids_a = [F("a"), F("b"), F("c")]
                kids_a[i] = apply(b, kids_b)
                add(f"{a}[{i}] <- {b}[{j}] <- {c}", apply(a, kids_a))
    for a, b, c in itertools.product(core, core, core):       # both sides
        if OPS[a][0] == 2:
            add(f"{a}({b}, {c})", apply(a, [apply(b, [F("a"), F("b"), F("c")]), apply(c, [F("x"), F("y"), F("z")])]))
    return out


def tree(src, budget):
    if budget <= 1 or src.chance(1, 9):
        return src.pick([P, Q_, R, F("c", "t"), lit(1), lit(-1), lit(2), lit("s"), lit(-2), mk("Length", P)])
    op = src.pick(NAMES)
    n = OPS[op][0]
    left = budget - 1
    kids = []
    for i in range(n):
        share = left if i == n - 1 else src.choose(left + 1)
        kids.append(tree(src, share))
        left -= share
    t = apply(op, kids)
    return t if atoms.typed(t) else mk("Add", P, Q_)


def case(src):
    spec = tree(src, src.pick([3, 4, 5, 6, 8, 12, 18]))
    text = L.parse_leg(spec, "expr")                                  # minimal parentheses
    if src.chance(1, 3):
        L.parse_leg(spec, "expr", src)                                # drawn spelling, redundant parentheses
    t, printed = L.print_leg(spec, "expr")
    if src.chance(1, 4):
        L.pretty_parse_leg(spec, "expr", t, src.pick([4, 0, 2]))
    ops = sum(1 for n in S.walk(spec) if n.t not in ("Field", "Literal", "Length", "RowConstructor", "SelectQuery", "Table"))
    return Out(sample=text, nontrivial=ops >= 2, labels=["operators " + (str(ops) if ops < 6 else "6+")])
