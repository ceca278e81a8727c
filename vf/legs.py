"""The directions in which a spec is pushed through the library.  Each raises Violation or SutError on disagreement."""
from . import spec as S
from . import sut
from .lexer import lex, first_diff
from .render import Renderer
from .runner import fail


def text_of(spec, kind, src=None, **style):
    r = Renderer(src, **style)
    {"query": r.query, "expr": r.expr, "type": r.type}[kind](spec)
    return r.text(), len(r.out)


def canon_of(obj, kind):
    return sut.canon_type(obj) if kind == "type" else sut.canon(obj)


QUERIES = {"SelectQuery", "TableQuery", "ValuesQuery", "UnionQuery", "IntersectQuery", "ExceptQuery"}


def real_kind(spec, kind):
    """A query on its own prints without parentheses, so it reads back as a query."""
    return "query" if spec.t in QUERIES else kind


def parse(text, kind):
    return canon_of(sut.PARSERS[kind](text), kind)


def parse_leg(spec, kind, src=None, **style):
    """spec -> SQL by our own writer -> library parser -> the same spec."""
    text, n = text_of(spec, kind, src, **style)
    texts = [text]
    if src is None and not style:        # the plainest text, and the one with all of the synonyms
        texts = dict.fromkeys([text_of(spec, kind, all_synonyms=True)[0], text])
    for t in texts:
        d = S.diff(spec, parse(t, kind))
        if d:
            fail(f"parsing\n  {t!r}\ngives another tree than the text spells: {d} (expected vs parsed)")
    return text


def print_leg(spec, kind, tree=None, again=True):
    """spec -> library tree -> library text -> library parser -> the same spec; printing the result gives the text again."""
    kind = real_kind(spec, kind)
    if tree is None:
        tree = sut.build(spec)
    text = sut.show(tree)
    obj = sut.PARSERS[kind](text)
    d = S.diff(spec, canon_of(obj, kind))
    if d:
        fail(f"the tree {S.short(spec, 1500)}\nprints as\n  {text!r}\nwhich reads back as another tree: {d} (original vs read back)")
    if again:
        text2 = sut.show(obj)
        if text2 != text:
            fail(f"printing the parsed tree again changes the text:\n  {text!r}\n  {text2!r}")
    return tree, text


def pretty_leg(tree, text, spaces=4):
    """The pretty text has the same tokens as the compact one."""
    pretty = sut.show(tree, True, spaces)
    d = first_diff(lex(text), lex(pretty))
    if d:
        fail(f"pretty text with spaces={spaces} has other tokens than the compact text: {d} (compact vs pretty)\n"
             f"  {text!r}\n  {pretty!r}")
    return pretty


def pretty_parse_leg(spec, kind, tree, spaces=4):
    """The pretty text reads back to the same tree (used where tokens alone do not settle it)."""
    kind = real_kind(spec, kind)
    pretty = sut.show(tree, True, spaces)
    d = S.diff(spec, parse(pretty, kind))
    if d:
        fail(f"the pretty text (spaces={spaces})\n{pretty}\nreads back as another tree: {d} (original vs read back)")
    return pretty
