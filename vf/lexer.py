"""Reference tokenizer for the SQL dialect, hand-written: longest match, first rule wins ties."""
import re

RULES = [
    ("sym", re.compile(r"<>|!=|<=|>=|\|\||->|=>|[-=<>+*/%?.,()\[\];:|^${}]")),
    ("str", re.compile(r"'(?:[^']|'')*'")),
    ("ustr", re.compile(r"U&'(?:[^']|'')*'")),
    ("bin", re.compile(r"X'[^']*'")),
    ("int", re.compile(r"[0-9]+")),
    ("dec", re.compile(r"[0-9]+\.[0-9]*|\.[0-9]+")),
    ("dbl", re.compile(r"[0-9]+(?:\.[0-9]*)?E[+-]?[0-9]+|\.[0-9]+E[+-]?[0-9]+")),
    ("word", re.compile(r"[a-zA-Z_][a-zA-Z0-9_]*")),
    ("digitid", re.compile(r"[0-9][a-zA-Z0-9_]+")),
    ("qid", re.compile(r'"(?:[^"]|"")*"')),
    ("bqid", re.compile(r"`(?:[^`]|``)*`")),
    ("skip", re.compile(r"--[^\r\n]*\r?\n?")),
    ("skip", re.compile(r"/\*.*?\*/", re.S)),
    ("skip", re.compile(r"[ \r\n\t]+")),
]


def lex(text, skips=False):
    """List of (class, text); anything unrecognized is a one-character token of class 'bad'."""
    out = []
    i, n = 0, len(text)
    while i < n:
        best = None
        for cls, rx in RULES:
            m = rx.match(text, i)
            if m and (best is None or m.end() > best[1]):
                best = (cls, m.end())
        if best is None:
            best = ("bad", i + 1)
        if best[0] != "skip" or skips:
            out.append((best[0], text[i:best[1]]))
        i = best[1]
    return out


def content(text):
    """Tokens without layout, with quoted material undone and words folded: what a text says."""
    out = []
    for c, t in lex(text):
        if c == "str":
            out.append(("str", t[1:-1].replace("''", "'")))
        elif c == "qid":
            out.append(("id", t[1:-1].replace('""', '"')))
        elif c == "word":
            out.append(("word", t))
        else:
            out.append((c, t))
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return f"token {i}: {x!r} vs {y!r} (after {[t for _, t in a[max(0, i - 4):i]]})"
    if len(a) != len(b):
        return f"{len(a)} tokens vs {len(b)}; first extra: {(a + b)[min(len(a), len(b))] if len(a) < len(b) else a[len(b)]}"
    return None
