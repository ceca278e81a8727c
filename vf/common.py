"""Shared pieces of the checks."""
from . import atoms
from . import legs as L
from . import reftypes as T
from . import spec as S
from . import sut
from .gen import Gen
from .runner import Out, Violation, fail, require

GRAMMAR = "texts follow the committed SqlBase grammar; keywords are spelled wholly upper or wholly lower case"
TYPED = "generated trees are type-consistent as treeno demands at construction (for example COALESCE of incompatible types is refused)"


def every(items, n, k=0):
    """A fixed 1/n sample of a list of enumerated cases."""
    items = list(items)
    return items if n <= 1 else [x for i, x in enumerate(items) if i % n == k]


def tree_cases(legs, variations=True, pairs=True, every_pair=1, keep=None, extended=1):
    """Enumerated cases: (label, function) pushing each systematic tree through the given legs(spec, kind)."""
    out = []
    src = []
    if variations:
        src += list(atoms.all_variations())
        src += every(atoms.all_pairwise(), every_pair)
    if pairs:
        ps = list(atoms.pairs())
        src += every(ps, every_pair)
    if extended:  # long lists, deep nesting: bounds nobody wrote down
        src += every(atoms.extended(), extended)
    for label, tree, kind in src:
        if keep is None or keep(tree):
            out.append((label, lambda tree=tree, kind=kind: done(tree, kind, legs(tree, kind))))
    return out


def done(tree, kind, text=None, labels=(), minimum=2):
    return Out(sample=text if isinstance(text, str) else S.short(tree, 300), nontrivial=S.size(tree) >= minimum, labels=labels)


def has(tree, *types):
    return any(n.t in types for n in S.walk(tree))


def census(tree):
    """Labels that say what a generated tree contains."""
    ts = {n.t for n in S.walk(tree)}
    out = []
    for label, group in (("join", {"Join"}), ("set operation", {"UnionQuery", "IntersectQuery", "ExceptQuery"}),
                         ("window", {"Window"}), ("lambda", {"Lambda"}), ("aggregate", S.AGGREGATE_CLASSES), ("case", {"Case"}),
                         ("group by", {"GroupBy"}), ("alias", {"AliasedRelation"}), ("lateral", {"Lateral"}),
                         ("unnest", {"Unnest"}), ("sample", {"TableSample"}), ("order by", {"OrderTerm"}),
                         ("cast", {"Cast", "TryCast"}), ("interval", {"Interval"})):
        if ts & group:
            out.append(label)
    n = sum(1 for _ in S.walk(tree))
    out.append("nodes " + ("1-4" if n < 5 else "5-14" if n < 15 else "15-39" if n < 40 else "40+"))
    return out


def both_legs(spec, kind, src=None, **style):
    """Parse leg with a drawn spelling and print leg."""
    text = L.parse_leg(spec, kind, src, **style)
    L.print_leg(spec, kind)
    return text
