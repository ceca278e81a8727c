"""C02: the pretty form has exactly the tokens of the compact form."""
from ..common import *

PROPERTY = "C02"
RULE = "the pretty text spans several lines (so that layout was really added); distinct by compact text"
ASSUMPTIONS = ["indentation widths 0 to 79 (the printer refuses 80 and more)", TYPED]
COUNTS = {"quick": 4000, "thorough": 90000}
WIDTHS = [4, 2, 0, 1, 3, 8, 16, 40, 79]


def leg(spec, kind):
    tree = sut.build(spec)
    text = sut.show(tree)
    for sp in (4, 1):
        L.pretty_leg(tree, text, sp)
    return text


def enumerated(tier):
    return tree_cases(leg)


def case(src):
    g = Gen(src, size=src.pick([10, 20, 30, 50, 90]))
    spec, kind = (g.whole_query(), "query") if src.chance(2, 3) else g.any_tree()
    tree = sut.build(spec)
    text = sut.show(tree)
    lines = 0
    for sp in {src.pick(WIDTHS), src.pick(WIDTHS), src.choose(80)}:
        pretty = L.pretty_leg(tree, text, sp)
        lines = max(lines, pretty.count("\n"))
    default = sut.show(tree, True)
    d = L.first_diff(L.lex(text), L.lex(default))
    require(d is None, f"pretty text with the default indentation has other tokens: {d}")
    if src.chance(1, 3):
        L.pretty_parse_leg(spec, kind, tree, src.pick(WIDTHS))
    require(sut.show(tree) == text, "the compact text changed after pretty printing")
    return Out(sample=text, nontrivial=lines > 0, labels=[kind, "lines " + str(min(lines, 12))])
