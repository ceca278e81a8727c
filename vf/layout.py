"""Reads where the words of a pretty-printed text stand: which query they belong to, and in which line and column."""
from .lexer import lex

CLAUSES = {"SELECT", "FROM", "WHERE", "GROUP", "HAVING", "WINDOW", "ORDER", "OFFSET", "LIMIT", "WITH", "TABLE", "VALUES"}
START = {"SELECT", "TABLE", "VALUES", "WITH"}
SETS = {"UNION", "INTERSECT", "EXCEPT"}
KINDS = {"INNER", "LEFT", "RIGHT", "FULL", "OUTER", "CROSS", "NATURAL", "JOIN"}


class Token:
    __slots__ = ("cls", "text", "line", "col", "first", "indent", "clause", "frame", "role")

    def __repr__(self):
        return f"{self.text}@{self.line + 1}:{self.col + 1}"


class Frame:
    """What stands between one pair of parentheses (or the whole text)."""
    def __init__(self, opener, parent):
        self.opener, self.parent = opener, parent
        self.query = False        # does it begin with a query
        self.setop = False
        self.clause = None        # the keyword of the clause read at the moment
        self.parts = []           # keywords of the clauses of one simple query
        self.between = 0
        self.depth = 0            # CASE
        self.prev = None
        self.count = 0
        self.frame = False
        self.cases = []


def positions(text):
    """Tokens with their places; a line break inside of quotes does not begin a line of the layout."""
    out, line, col, fresh, indent = [], 0, 0, True, 0
    for cls, t in lex(text, skips=True):
        if cls == "skip":
            if "\n" in t:
                line += t.count("\n")
                col = len(t) - t.rfind("\n") - 1
                fresh, indent = True, col
            else:
                col += len(t)
                if fresh:
                    indent = col
            continue
        k = Token()
        k.cls, k.text, k.line, k.col, k.first, k.indent = cls, t, line, col, fresh, indent
        k.clause = k.frame = k.role = None
        fresh = False
        out.append(k)
        if "\n" in t:
            line += t.count("\n")
            col = len(t) - t.rfind("\n") - 1
        else:
            col += len(t)
    return out


def read(text):
    """(tokens, list of queries): a query is the list of the keyword tokens of its clauses."""
    toks = positions(text)
    top = Frame(None, None)
    f = top
    queries = []
    def close(fr):
        if fr.parts:
            queries.append(fr.parts)
        fr.parts = []
    for i, k in enumerate(toks):
        w = k.text if k.cls == "word" else None
        nxt = toks[i + 1].text if i + 1 < len(toks) else None
        k.frame = f
        if k.text == "(":
            if f.query and f.clause == "WITH" and f.prev == ")":
                k.role = "set operand"        # WITH ... (query) UNION ...
            f.count += 1
            f.prev = "("
            f = Frame(k, f)
            continue
        if k.text == ")":
            close(f)
            f = f.parent
            f.prev = ")"
            continue
        if w in START and (f.count == 0 or f.setop and f.prev in SETS | {"ALL", "DISTINCT"}) or w in START - {"WITH"} and f.query and f.clause == "WITH" and f.prev == ")":
            if not (f.query and f.clause == "WITH"):
                close(f)
            f.query = True
            k.role = "clause"
        elif f.query and w in CLAUSES and not (w == "FROM" and f.prev == "DISTINCT") and not (w in ("GROUP", "ORDER") and nxt != "BY") and not (w in START) and not f.cases:
            k.role = "clause"
        elif w in SETS:
            close(f)
            f.setop, f.query = True, False
            k.role = "set"
        elif f.setop and w in ("ORDER", "OFFSET", "LIMIT"):
            k.role = "set clause"
        elif w in KINDS and f.prev not in KINDS and nxt != "(" :
            k.role = "join"
        elif w == "CASE":
            f.cases.append(f.between)       # an AND inside of the branches is not that of a BETWEEN around
            f.between = 0
        elif w in ("WHEN", "ELSE", "END") and f.cases:
            k.role = "branch"
            if w == "END":
                f.between = f.cases.pop()
        elif w == "BETWEEN":
            if f.prev in ("ROWS", "RANGE", "GROUPS"):
                f.frame = True          # AND may be part of a bound
            f.between += 1
        elif w == "AND" and f.between:
            f.between -= 1
        elif w in ("AND", "OR") and not f.frame:
            k.role = "logic"
        if k.role == "clause":
            f.clause = w
            f.parts.append(k)
        f.prev = k.text
        f.count += 1
    close(top)
    return toks, queries
