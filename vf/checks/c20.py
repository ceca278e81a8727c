"""C20: the commands print what the library says about the same text, and fail for texts it refuses."""
import io
import os
import subprocess
import sys

from ..common import *
from ..gen import settle
from ..grammar import accepts
from ..spec import lit, mk
from .. import refresolve as R
from . import c16

PROPERTY = "C20"
RULE = "the text is accepted and its tree has at least three nodes, or the text is refused; distinct by command and text"
ASSUMPTIONS = [GRAMMAR, TYPED, "the commands resolve a query before printing it, so one which can't be resolved (an ambiguous column, columns whose types don't go together) is refused by all but antlr-tree",
               "the trees are drawn by nltk, which is trusted; the tree command leaves out what is absent, empty or the default of its kind, and names every other part with its value"]
COUNTS = {"quick": 1500, "thorough": 60000}
F = atoms.F
CONSTRUCT = {"query": "query", "expr": "expression", "type": "type"}
_runner = None


def command(*args):
    """Exit status and output of a command line, run in this process."""
    global _runner
    if _runner is None:
        from typer.testing import CliRunner
        _runner = CliRunner()
    r = _runner.invoke(sut.mod("treeno.cli").app, list(args))
    return r.exit_code, r.stdout


def lines(text):
    return text.replace("\r\n", "\n").replace("\r", "\n")


def draw(tree):
    s = io.StringIO()
    tree.pretty_print(stream=s)
    return s.getvalue()


def parse_tree(text, kind):
    """Our own reading of the text with the committed grammar."""
    from nltk.tree import Tree
    from .. import grammar
    parser, node = grammar.tree(text, kind)

    def conv(n):
        if not n.getChildCount():
            from antlr4.tree.Trees import Trees
            return Trees.getNodeText(n, parser.ruleNames)
        return Tree(parser.ruleNames[n.getRuleIndex()], [conv(c) for c in n.getChildren()])
    return draw(conv(node))


def object_tree(obj):
    """The tree as the command should show it."""
    import attr
    from nltk.tree import Tree
    from enum import Enum
    base = sut.mod("treeno.base")

    def shown(v):
        if v is None or isinstance(v, (list, tuple, dict, set)) and not v:
            return False
        return not (isinstance(v, Enum) and hasattr(type(v), "default") and v is type(v).default())

    def conv(v):
        if isinstance(v, dict):
            return Tree(f"<{type(v).__name__}>", [Tree(k, [conv(x)]) for k, x in v.items()])
        if isinstance(v, (list, tuple, set)):
            return Tree(f"<{type(v).__name__}>", [conv(x) for x in v])
        if not isinstance(v, base.Sql) or isinstance(v, sut.mod("treeno.datatypes.types").DataType):
            return str(v)
        return Tree(type(v).__name__, [Tree(a.name, [conv(getattr(v, a.name))]) for a in attr.fields(type(v)) if not a.name.startswith("_") and shown(getattr(v, a.name))])
    return draw(conv(obj))


def args_for(name, kind, text, src=None):
    a = [name] + ([CONSTRUCT[kind]] if name != "schema" else [])
    return a + (["--"] if text.startswith("-") or src is None or src.chance(1, 2) else []) + [text]


def ok(name, kind, text, src=None):
    code, out = command(*args_for(name, kind, text, src))
    require(code == 0, lambda: f"treeno {name} {kind} fails with status {code} for {text!r}")
    return lines(out)


def same(name, text, got, want):
    want = lines(want)
    if got != want:
        g, w = got.split("\n"), want.split("\n")
        i = next((i for i, (a, b) in enumerate(zip(g, w)) if a != b), min(len(g), len(w)))
        fail(f"treeno {name} of {text!r}: line {i + 1} is {g[i] if i < len(g) else None!r}, should be {w[i] if i < len(w) else None!r}")


def check(spec, kind, src=None, text=None, trees=True):
    real = L.real_kind(spec, kind)
    if text is None:
        text = L.text_of(spec, kind, src)[0]
    columns = None
    if kind == "query":
        try:
            columns = R.query_full(spec, R.Env(()))[0]
        except R.Refused:
            return refusal(text, kind, ["format", "tree", "schema"])
        except R.Unclear:
            return Out(discard=True)
    obj = sut.build_type(spec) if kind == "type" else sut.build(spec)
    want = sut.show(obj, True)
    same("format", text, ok("format", kind, text, src), want + "\n")
    parsed = sut.PARSERS[kind](text)
    require(sut.show(parsed, True) == want, lambda: f"the library prints {text!r} as\n{sut.show(parsed, True)}\nnot as\n{want}")
    if trees:
        same("antlr-tree", text, ok("antlr-tree", kind, text, src), parse_tree(text, kind) + "\n")
        if kind == "type":
            pass      # a type is a leaf of the trees
        else:
            if kind == "query":
                parsed.resolve(sut.mod("treeno.relation").Schema.empty_schema())
            same("tree", text, ok("tree", kind, text, src), object_tree(parsed) + "\n")
    if columns is not None:
        out = ok("schema", kind, text, src)
        rows = out.rstrip("\n").split("\n")
        require(len(rows) == len(columns), lambda: f"treeno schema lists {rows} for {text!r}, which has the columns {c16.show_cols(columns)}")
        for row, (n, t) in zip(rows, columns):
            name, _, ty = row.rpartition(" - ")
            require(name == ("<none>" if n is None else n), lambda: f"treeno schema of {text!r} names a column {name!r}, not {n!r}: {rows}")
            if t.name == "UNKNOWN":
                require(ty == "<unknown>", lambda: f"treeno schema of {text!r} gives column {n} the type {ty!r} although it is not known: {rows}")
            else:
                want_ty = str(sut.build_type(t))
                require(ty == want_ty, lambda: f"treeno schema of {text!r} gives column {n} the type {ty!r}, should be {want_ty!r}: {rows}")
    return Out(sample=text, nontrivial=S.size(spec) >= 3, key=(kind, text), labels=census(spec) + [kind])


def refusal(text, kind, commands):
    for name in commands:
        code, out = command(*args_for(name, kind, text))
        require(code != 0, lambda: f"treeno {name} {kind} succeeds for {text!r}, which is not valid, and prints {out[:300]!r}")
    return Out(sample="refused: " + text, nontrivial=True, key=(kind, text), labels=["refused"])


def broken(text, kind):
    """A text the grammar doesn't accept."""
    if accepts(text, kind):
        return Out(discard=True)
    return refusal(text, kind, ["format", "antlr-tree", "tree"] + ["schema"] * (kind == "query"))


def usage():
    for args in (["format"], ["format", "query"], ["format", "table", "SELECT 1"], ["tree", "QUERY?", "SELECT 1"], ["schema"], ["schema", "query", "SELECT 1"], ["nothing", "query", "SELECT 1"], ["antlr-tree", "statement", "SELECT 1"], ["format", "query", "SELECT 1", "2"]):
        code, out = command(*args)
        require(code != 0, lambda: f"treeno {' '.join(args)} succeeds and prints {out!r}")
    return Out(sample="wrong usage", nontrivial=True)


def process(args, want_code, want_out=None):
    """The same in a process of its own."""
    env = dict(os.environ, PYTHONPATH=os.pathsep.join([sut.REPO, os.environ.get("PYTHONPATH", "")]), PYTHONDONTWRITEBYTECODE="1", PYTHONIOENCODING="utf-8")
    p = subprocess.run([sys.executable, "-B", "-c", "from treeno.cli import app; app(prog_name='treeno')", *args], capture_output=True, text=True, env=env, cwd="/", timeout=120, encoding="utf-8")
    require((p.returncode == 0) == (want_code == 0), lambda: f"treeno {' '.join(args)} ends with status {p.returncode}: {p.stderr[-300:]}")
    if want_out is not None:
        same(args[0], " ".join(args), lines(p.stdout), want_out)
    return Out(sample=" ".join(args), nontrivial=True)


INVALID = {"query": ["", " ", ";", "SELECT", "SELECT 1 FROM", "SELECT 1 1", "SELECT 1 FROM t WHERE", "FROM t", "SELECT (1", "SELECT 1)", "SELECT 1;;", "SELECT 1; SELECT 2", "1", "a", "SELECT 'a", 'SELECT "a', "SELECT 1 GROUP BY", "SELECT a FROM t ORDER a", "SELECT 1 UNION", "VALUES", "WITH t AS SELECT 1 SELECT 1", "BIGINT", "SELECT $"],
           "expr": ["", "1 +", "+", "(1", "1)", "a b", "SELECT 1", "CASE END", "1;", "'a", "f(", "a IN ()", "NOT", "a BETWEEN 1", "CAST(1 AS)", "x ->", "ROW(", "[1]", "a[", "1 AND"],
           "type": ["", "1", "BIGINT(", "ARRAY(", "ARRAY()", "DECIMAL(1,", "MAP(a)extra", "ROW()", "BIGINT BIGINT", "'a'", "BIGINT;", "SELECT 1", "TIMESTAMP WITH", "(BIGINT)", "ROW(a BIGINT"]}
UNSUPPORTED = {"query": ["SELECT a FROM t, u", "SELECT EXISTS (SELECT 1)", "WITH RECURSIVE t AS (SELECT 1) SELECT * FROM t", "SELECT a = ALL (SELECT 1)", "SELECT ?", "(SELECT 1) INTERSECT ALL (SELECT 2)", "SELECT no_such_function(1)", "SELECT CAST(a AS NOTYPE)", "SELECT COALESCE(1, 'x')",
                         "SELECT a FROM (SELECT 1 a) x CROSS JOIN (SELECT 2 a) y", "SELECT 1 UNION SELECT 'x'", "SELECT 1e999"],
               "expr": ["EXISTS (SELECT 1)", "a = ANY (SELECT 1)", "?", "no_such_function(1)", "CAST(a AS NOTYPE)", "COALESCE(1, 'x')", "99999999999999999999", "IF(TRUE, 1, DATE '2020-01-01')", "CASE WHEN a THEN 1 ELSE 'x' END", "1e999"], "type": ["NOTYPE", "NOTYPE(1)", "DECIMAL(99, 1)", "ARRAY(NOTYPE)", "BIGINT(3)", "DECIMAL(1, 2, 3)"]}


def enumerated(tier):
    out = [("usage", usage)]
    for kind, texts in INVALID.items():
        for t in texts:
            out.append((f"invalid {kind} {t!r}", lambda t=t, kind=kind: refusal(t, kind, ["format", "antlr-tree", "tree"] + ["schema"] * (kind == "query"))))
    for kind, texts in UNSUPPORTED.items():
        for t in texts:
            out.append((f"unsupported {kind} {t!r}", lambda t=t, kind=kind: refusal(t, kind, ["format", "tree"] + ["schema"] * (kind == "query"))))
    k = 0
    for label, tree, kind in list(atoms.all_variations()) + every(atoms.extended(), 1 if tier == "thorough" else 8):
        if skip(tree):
            continue
        k += 1
        out.append((label, lambda tree=tree, kind=kind, k=k: check(tree, kind, trees=k % 4 == 0 or tier == "thorough")))
    for i, t in enumerate(atoms.TYPES):
        if castable(t):
            out.append((f"type {i}", lambda t=t: check(t, "type")))
    for i, q in enumerate(c16.queries()):
        if c16.buildable(q) and (i % 6 == 0 or tier == "thorough"):
            out.append((f"schema {i}", lambda q=q, i=i: check(q, "query", trees=i % 5 == 0)))
    for i, ps in enumerate([["select a, 1 b from t", "query"], ["1 + 2 * a", "expr"], ["row(bigint, varchar(3))", "type"]]):
        text, kind = ps
        obj = lambda text=text, kind=kind: sut.show(sut.PARSERS[kind](text), True) + "\n"
        out.append((f"process format {kind}", lambda text=text, kind=kind, obj=obj: process(["format", CONSTRUCT[kind], text], 0, obj())))
        out.append((f"process invalid {kind}", lambda text=text, kind=kind: process(["format", CONSTRUCT[kind], text + " ("], 1)))
    out.append(("process schema", lambda: process(["schema", "select a, 1 b from t"], 0, "a - <unknown>\nb - INTEGER\n")))
    out.append(("process antlr-tree", lambda: process(["antlr-tree", "expression", "1 +"], 1)))
    out.append(("process tree", lambda: process(["tree", "query", "select"], 1)))
    # the slow ones apart from each other
    slow = [x for x in out if x[0].startswith("process")]
    rest = [x for x in out if not x[0].startswith("process")]
    for i, x in enumerate(slow):
        rest.insert(i * 16, x)
    return rest


def castable(t):
    return c16.castable(t)


def skip(tree):
    """Printed names are told apart by lines and ' - '."""
    return any("\n" in x or "\r" in x or " - " in x or any(ord(c) < 32 or c in "\x85\u2028\u2029" for c in x) for n in S.walk(tree) if n.t in ("Field", "AliasedValue", "AliasedStar", "AliasedRelation", "Variable") for x in [n.d.get("name"), n.d.get("alias"), *(n.d.get("aliases") or ()), *(n.d.get("column_aliases") or ())] if x)


def damage(text, src):
    """The text with a piece lost, doubled, moved or added."""
    from ..lexer import lex
    k = src.choose(5)
    words = text.split(" ")
    i = src.choose(len(words))
    if k == 0:
        return " ".join(words[:i] + words[i + 1:])
    if k == 1:
        return " ".join(words[:i] + [words[i]] + words[i:])
    if k == 2:
        return text[:src.choose(len(text) + 1)]
    if k == 3:
        j = src.choose(len(words))
        words[i], words[j] = words[j], words[i]
        return " ".join(words)
    return " ".join(words[:i] + [src.pick(["(", ")", ",", "SELECT", "FROM", "+", "'", '"', "AS", "1", "BY", ";", "->", "[", "$", "\\", "END"])] + words[i:])


def case(src):
    k = src.choose(6)
    if k == 0:
        g = c16.Queries(src, size=src.pick([4, 8, 16]), odd=False, subqueries=False)
        spec, kind = c16.bound(settle(g.q(R.Env(()), 2))), "query"
    else:
        g = Gen(src, size=src.pick([3, 6, 12, 20]), long_text=False)
        spec, kind = g.any_tree()
    if src.chance(1, 3):
        text = damage(L.text_of(spec, kind, src)[0], src)
        return broken(text, kind)
    if skip(spec) or kind == "type" and not castable(spec):
        return Out(discard=True)
    return check(spec, kind, src, trees=S.size(spec) < 25 and src.chance(1, 2))
