"""C03: parsing keeps every clause, operand and option of a text, each in its own place."""
from ..common import *

PROPERTY = "C03"
RULE = "the text spells at least 4 nodes; distinct by text"
ASSUMPTIONS = [GRAMMAR, TYPED]
COUNTS = {"quick": 2600, "thorough": 120000}


def leg(spec, kind):
    return L.parse_leg(spec, kind)


def enumerated(tier):
    return tree_cases(leg)


def case(src):
    g = Gen(src, size=src.pick([8, 14, 22, 34, 60]))
    if src.chance(4, 5):
        spec, kind = g.whole_query(), "query"
    else:
        spec, kind = g.whole_expr(), "expr"
    text, n = L.text_of(spec, kind, src)
    if kind == "query" and src.chance(1, 8):
        text += ";"
    got = L.parse(text, kind)
    d = S.diff(spec, got)
    require(d is None, lambda: f"parsing\n  {text!r}\ngives another tree than the text spells: {d} (expected vs parsed)")
    return Out(sample=text, nontrivial=S.size(spec) >= 4, labels=[kind] + census(spec))
