"""C31: no parentheses are printed that could be left out."""
from ..common import *
from ..lexer import lex
from ..spec import lit, mk
from . import c04

PROPERTY = "C31"
RULE = "the printed text has at least one pair of parentheses, which was left out; distinct by text"
ASSUMPTIONS = [TYPED, "operands of set operations are always parenthesized; joins right of a join are as well; a sign after a minus is (two minuses begin a comment), and so may be a literal under a sign, subscript or field access"]
COUNTS = {"quick": 3000, "thorough": 150000}
F = atoms.F
SETS = {"UNION", "INTERSECT", "EXCEPT"}
MOST = 14


def pairs(toks):
    """Positions of matching parentheses that may be redundant."""
    words = [i for i, (c, _) in enumerate(toks) if c != "skip"]
    at = [toks[i][1] for i in words]
    out, open_ = [], []
    for j, t in enumerate(at):
        if t == "(":
            open_.append(j)
        elif t == ")":
            i = open_.pop()
            before, after = at[max(0, i - 2):i], at[j + 1] if j + 1 < len(at) else ""
            operand = after in SETS or bool(before) and (before[-1] in SETS or before[-1] in ("ALL", "DISTINCT") and before[0] in SETS)
            inside = words[i + 1:j]
            literal = len(inside) == 1 + (at[i + 1] == "-") and (toks[inside[-1]][0] in ("str", "ustr", "bin", "int", "dec", "dbl") or at[j - 1] in ("NULL", "TRUE", "FALSE"))
            minus = before[-1:] == ["-"] and at[i + 1] == "-"
            joins = before[-1:] == ["JOIN"] and "JOIN" in at[i:j]
            if not joins and not operand and not minus and not literal:
                out.append((words[i], words[j]))
    return out


def needed(tree, kind, src=None):
    kind = L.real_kind(tree, kind)
    obj = sut.build(tree)
    text = sut.show(obj)
    toks = list(lex(text, skips=True))
    found = pairs(toks)
    if not found:
        return Out(sample=text, key=text, nontrivial=False)
    if src is not None and len(found) > MOST:
        k = src.choose(len(found))
        found = (found + found)[k:k + MOST]
    for a, b in found:
        less = "".join(" " if i in (a, b) else t for i, (c, t) in enumerate(toks))
        try:
            got = sut.PARSERS[kind](less)
        except RecursionError:
            raise
        except Exception:
            continue
        require(sut.canon(got) != tree, lambda: f"the printed text\n  {text}\nreads the same without the parentheses of\n  {less}")
    return Out(sample=text, key=text, labels=[f"{min(len(found), MOST)} pairs"])


LEAVES = [lit(1), lit(-1), lit("x"), lit(1.5), lit(None), lit(True), mk("Interval", "1", "DAY"), mk("TypeConstructor", "1", "DATE"), atoms.Q, mk("Lower", F("a")), mk("Array", [F("a")]),
          mk("RowConstructor", [F("a"), F("b")]), mk("RowConstructor", [F("a")]), mk("Case", [mk("When", F("a"), F("b"))])]


def operators():
    """All operators in all places of all operators; a part of them three levels deep."""
    for outer in c04.NAMES:
        for pos in range(c04.OPS[outer][0]):
            for inner in c04.NAMES:
                yield f"{outer}.{pos} {inner}", c04.nested(outer, pos, inner)
                for third in ("Or", "Equal", "Minus", "Negative", "Subscript"):
                    for k in range(c04.OPS[inner][0]):
                        kids = [F("x"), F("y"), F("z")]
                        kids[k] = c04.apply(third, [F("u"), F("v"), F("w")])
                        over = [F("a"), F("b"), F("c")]
                        over[pos] = c04.apply(inner, kids)
                        yield f"{outer}.{pos} {inner}.{k} {third}", c04.apply(outer, over)
            for n in LEAVES:
                kids = [F("a"), F("b"), F("c")]
                kids[pos] = n
                yield f"{outer}.{pos} {n.t}", c04.apply(outer, kids)


def enumerated(tier):
    out = []
    for label, tree, kind in list(atoms.all_variations()) + list(atoms.all_pairwise()) + list(atoms.pairs()) + list(atoms.extended()):
        if kind != "type":
            out.append((label, lambda tree=tree, kind=kind: needed(tree, kind)))
    for label, tree in operators():
        if atoms.typed(tree):
            out.append((label, lambda tree=tree: needed(tree, "expr")))
    return out


def case(src):
    g = Gen(src, size=src.pick([4, 8, 16, 30]))
    if src.choose(3):
        tree, kind = g.expr("any", 2 + src.choose(4)), "expr"
    else:
        tree, kind = g.any_tree()
    if kind == "type" or tree.t in atoms.NOT_EXPR:
        return Out(discard=True)
    return needed(tree, kind, src)
