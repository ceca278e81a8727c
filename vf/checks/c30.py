"""C30: the pretty form is laid out by clauses, in a river; the compact form is a single line."""
from ..common import *
from .. import layout
from ..spec import lit, mk

PROPERTY = "C30"
RULE = "the pretty text spans at least two lines; distinct by tree and width"
ASSUMPTIONS = [TYPED, "set operations, and the clauses that apply to their results, begin lines but are not aligned in a river", "inside of a frame bound, AND may stay on its line",
               "a list is short if it has at most 40 characters, and long if it has at least 100 in items of at most 30 each"]
COUNTS = {"quick": 10000, "thorough": 150000}
WIDTHS = [4, 2, 0, 1, 8, 16, 33]


def check(spec, sp=4):
    tree = sut.build(spec)
    compact = sut.show(tree, False, sp)
    lines = layout.positions(compact)
    require(all(k.line == sum(j.text.count("\n") for j in lines[:i]) for i, k in enumerate(lines)) if "\n" in compact else True, lambda: f"the compact text has line breaks of its own: {compact!r}")
    for k in lines:
        require(k.text == k.text.upper() or not k.text[0].isalpha(), lambda: f"{k.text} is not in upper case, though not within quotes: {compact!r}")
    pretty = sut.show(tree, True, sp)
    toks, queries = layout.read(pretty)
    def where(k):
        return f"with spaces={sp}, {k.text} in line {k.line + 1}, column {k.col + 1} of\n{pretty}\n"
    for k in toks:
        if k.role in ("join", "branch", "logic", "set", "set clause"):
            require(k.first, lambda: where(k) + f"does not begin its line ({k.role})")
    for q in queries:
        for k in q[1:]:
            require(k.first, lambda: where(k) + "is a clause that does not begin its line")
        ends = {k.col + len(k.text) for k in q if k.first}
        require(len(ends) <= 1, lambda: where(q[-1]) + f"is not aligned with the other clauses of its query: {[(k.text, k.line + 1, k.col + len(k.text)) for k in q]}")
    below(pretty, toks, where)
    return pretty


def below(pretty, toks, where):
    """What belongs to a query stands to the right of its river."""
    rivers = []                       # (frame, column) of the queries around
    for k in toks:
        while rivers and not inside(k.frame, rivers[-1][0]):
            rivers.pop()
        if k.role == "clause":
            if rivers and rivers[-1][0] is k.frame:
                rivers.pop()
            if k.first and rivers:
                require(k.col + len(k.text) > rivers[-1][1], lambda: where(k) + f"belongs to a query inside of another one, yet it is not indented beyond column {rivers[-1][1]}")
            rivers.append((k.frame, k.col + len(k.text) if k.first else -1))
        elif k.role in ("set", "set clause", "set operand"):
            while rivers and rivers[-1][0] is k.frame:
                rivers.pop()
        elif k.first and rivers:
            require(k.col > rivers[-1][1], lambda: where(k) + f"is not indented beyond the keyword of its clause, which ends in column {rivers[-1][1]}")


def inside(frame, outer):
    while frame is not None:
        if frame is outer:
            return True
        frame = frame.parent
    return False


def one(spec, sp=4):
    pretty = check(spec, sp)
    n = pretty.count("\n")
    return Out(sample=pretty, key=(sp, pretty), nontrivial=n > 0, labels=[f"lines {min(n + 1, 12)}"])


# ---- lists ----------------------------------------------------------------------------------------------------
LISTS = {
    "select": lambda xs: mk("SelectQuery", xs),
    "select in from": lambda xs: mk("SelectQuery", [mk("Star")], from_=mk("SelectQuery", xs)),
    "group by": lambda xs: mk("SelectQuery", [lit(1)], groupby=mk("GroupBy", [mk("GroupingSet", [x]) for x in xs])),
    "order by": lambda xs: mk("SelectQuery", [lit(1)], orderby=[mk("OrderTerm", x) for x in xs]),
    "partition by": lambda xs: mk("Sum", lit(1), window=mk("Window", partitions=xs)),
    "in": lambda xs: mk("InList", lit(1), xs),
    "array": lambda xs: mk("Array", xs),
    "row": lambda xs: mk("RowConstructor", xs),
    "values": lambda xs: mk("ValuesQuery", xs),
    "function": lambda xs: mk("Coalesce", xs),
    "unnest": lambda xs: mk("SelectQuery", [lit(1)], from_=mk("Unnest", xs)),
}


def listed(what, names, sp=4):
    """All items of a short list in one line; a long one in several, which break after commas and are filled."""
    spec = LISTS[what]([atoms.F(n) for n in names])
    pretty = check(spec, sp)
    toks = layout.positions(pretty)
    items = [k for k in toks if k.cls == "qid"]
    require([k.text for k in items] == [f'"{n}"' for n in names], lambda: f"the items of the list are not {names} in\n{pretty}")
    total = sum(len(n) + 3 for n in names) - 1
    lines = sorted({k.line for k in items})
    if total <= 40:
        require(len(lines) == 1, lambda: f"with spaces={sp}, a list of {total} characters takes {len(lines)} lines:\n{pretty}")
    if total >= 100:
        require(len(lines) > 1, lambda: f"with spaces={sp}, a list of {total} characters stays in one line:\n{pretty}")
        widths = [sum(len(k.text) + 1 for k in items if k.line == ln) for ln in lines]
        require(max(widths) <= 81, lambda: f"with spaces={sp}, a line holds items of {max(widths)} characters:\n{pretty}")
        require(all(a + b > 80 - sp - 2 - max(len(n) + 3 for n in names) for a, b in zip(widths, widths[1:])), lambda: f"with spaces={sp}, the lines of a list are not filled ({widths}):\n{pretty}")
    raw = pretty.split("\n")
    for k, j in zip(items, items[1:]):
        if k.line != j.line:
            require(raw[k.line].rstrip().endswith(","), lambda: f"the list breaks elsewhere than after a comma:\n{pretty}")
    return Out(sample=pretty, key=(what, sp, tuple(names)), nontrivial=len(lines) > 1, labels=[f"list of {len(lines)} lines"])


def enumerated(tier):
    out = []
    def add(label, tree, sp):
        out.append((label, lambda: one(tree, sp)))
    for i, (label, tree, kind) in enumerate(list(atoms.all_variations()) + list(atoms.all_pairwise()) + list(atoms.pairs()) + list(atoms.extended())):
        if kind != "type":
            add(label, tree, 4 if i % 3 else WIDTHS[i // 3 % len(WIDTHS)])
    for what in LISTS:
        for n in (1, 2, 3, 5, 8, 13, 21, 40, 100):
            for size in (1, 2, 5, 9, 10, 17, 28):
                for sp in (4, 0, 20):
                    names = [(f"c{i}_" + "abcdefghijklmnopqrstuvwxyz" * 2)[:size] for i in range(n)]
                    out.append((f"list {what}", lambda what=what, names=names, sp=sp: listed(what, names, sp)))
    return out


def case(src):
    if src.chance(1, 5):
        n = src.choose(60)
        return listed(src.pick(sorted(LISTS)), ["n" * (1 + src.choose(28)) for _ in range(1 + n)], src.pick(WIDTHS + [src.choose(40)]))
    g = Gen(src, size=src.pick([6, 15, 30, 60]))
    spec, kind = (g.whole_query(), "query") if src.choose(4) else g.any_tree()
    if kind == "type":
        return Out(discard=True)
    return one(spec, src.pick(WIDTHS + [src.choose(80)]))
