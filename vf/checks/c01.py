"""C01: printed SQL parses back to the same tree, and printing that again gives the same text."""
from ..common import *

PROPERTY = "C01"
RULE = "the tree has at least 3 nodes (a whole expression, query or nested type); distinct by printed text"
ASSUMPTIONS = [TYPED]
COUNTS = {"quick": 2400, "thorough": 120000}


def known_sample():
    """TABLESAMPLE with a literal double percentage is printed without its exponent."""
    tree = sut.build(S.mk("TableSample", S.mk("Table", "t"), "SYSTEM", S.lit(0.5)))
    text = "SELECT 1 FROM " + sut.show(tree)
    return L.parse(text, "query").from_.percentage == S.lit(__import__("decimal").Decimal("0.5"))


KNOWN = {"tablesample-double": known_sample}


def leg(spec, kind):
    return L.print_leg(spec, kind)[1]


def enumerated(tier):
    return tree_cases(leg) + [(f"type {t}", lambda t=t: done(t, "type", leg(t, "type"), minimum=1)) for t in atoms.TYPES]


def case(src):
    g = Gen(src, size=src.pick([8, 14, 22, 34, 60]))
    spec, kind = g.any_tree()
    tree, text = L.print_leg(spec, kind)
    if src.chance(1, 3):
        L.pretty_parse_leg(spec, kind, tree, src.pick([4, 2, 8, 0, 1, 30]))
    n = S.size(spec) if kind != "type" else 3
    return Out(sample=text, nontrivial=n >= 3, labels=[kind] + (census(spec) if kind != "type" else []))
