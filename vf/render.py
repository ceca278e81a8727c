"""Independent SQL writer: turns a spec into SQL text of the supported grammar, in many spellings.

Written from the grammar's documentation; it does not use the library's printer.  Every spelling choice is drawn from a
choice source, where 0 is the plainest spelling.
"""
import re

from . import spec as S

KEYWORDS = set("""ABSENT ADD ADMIN AFTER ALL ALTER ANALYZE AND ANY ARRAY AS ASC AT AUTHORIZATION BERNOULLI BETWEEN BOTH BY
CALL CASCADE CASE CAST CATALOGS COLUMN COLUMNS COMMENT COMMIT COMMITTED CONDITIONAL CONSTRAINT COUNT COPARTITION CREATE
CROSS CUBE CURRENT CURRENT_CATALOG CURRENT_DATE CURRENT_PATH CURRENT_ROLE CURRENT_SCHEMA CURRENT_TIME CURRENT_TIMESTAMP
CURRENT_USER DATA DATE DAY DEALLOCATE DEFAULT DEFINER DELETE DENY DESC DESCRIBE DESCRIPTOR DEFINE DISTINCT DISTRIBUTED
DOUBLE DROP ELSE EMPTY ENCODING END ERROR ESCAPE EXCEPT EXCLUDING EXECUTE EXISTS EXPLAIN EXTRACT FALSE FETCH FILTER FINAL
FIRST FOLLOWING FOR FORMAT FROM FULL FUNCTIONS GRANT GRANTED GRANTS GRAPHVIZ GROUP GROUPING GROUPS HAVING HOUR IF IGNORE
IN INCLUDING INITIAL INNER INPUT INSERT INTERSECT INTERVAL INTO INVOKER IO IS ISOLATION JOIN JSON JSON_ARRAY JSON_EXISTS
JSON_OBJECT JSON_QUERY JSON_VALUE KEEP KEY KEYS LAST LATERAL LEADING LEFT LEVEL LIKE LIMIT LISTAGG LOCAL LOCALTIME
LOCALTIMESTAMP LOGICAL MAP MATCH MATCHED MATCHES MATCH_RECOGNIZE MATERIALIZED MEASURES MERGE MINUTE MONTH NATURAL NEXT NFC
NFD NFKC NFKD NO NONE NORMALIZE NOT NULL NULLIF NULLS OBJECT OFFSET OMIT OF ON ONE ONLY OPTION OR ORDER ORDINALITY OUTER
OUTPUT OVER OVERFLOW PARTITION PARTITIONS PASSING PAST PATH PATTERN PER PERMUTE POSITION PRECEDING PRECISION PREPARE
PRIVILEGES PROPERTIES PRUNE QUOTES RANGE READ RECURSIVE REFRESH RENAME REPEATABLE REPLACE RESET RESPECT RESTRICT
RETURNING REVOKE RIGHT ROLE ROLES ROLLBACK ROLLUP ROW ROWS RUNNING SCALAR SCHEMA SCHEMAS SECOND SECURITY SEEK SELECT
SERIALIZABLE SESSION SET SETS SHOW SKIP SOME START STATS SUBSET SUBSTRING SYSTEM TABLE TABLES TABLESAMPLE TEXT
TEXT_STRING STRING THEN TIES TIME TIMESTAMP TO TRAILING TRANSACTION TRIM TRUE TRUNCATE TRY_CAST TYPE UESCAPE UNBOUNDED
UNCOMMITTED UNCONDITIONAL UNION UNIQUE UNKNOWN UNMATCHED UNNEST UPDATE USE USER USING UTF16 UTF32 UTF8 VALIDATE VALUE
VALUES VERBOSE VERSION VIEW WHEN WHERE WINDOW WITH WITHIN WITHOUT WORK WRAPPER WRITE YEAR ZONE""".split())

# keywords that the grammar allows as plain names and that start no construct where we use names
SOFT = {"data", "key", "value", "type", "comment", "version", "level", "text", "path", "role", "view", "input", "output",
        "schema", "user", "zone", "year", "month", "day", "hour", "minute", "second", "first", "last", "format",
        "catalogs", "empty", "error", "object", "one", "option", "partitions", "properties", "session", "start",
        "stats", "status", "work", "write", "read", "keys", "date", "time", "next", "none", "count"}
PLAIN = re.compile(r"^[a-zA-Z_][a-zA-Z0-9_]*$")


def plain_name(s):
    return bool(PLAIN.fullmatch(s)) and s.upper() not in KEYWORDS


class Zero:
    """Choice source that always takes the plainest spelling."""
    def choose(self, n):
        return 0


OR, AND, NOT, PRED, CONCAT, ADD, MUL, UNARY, PRIM = 1, 2, 3, 4, 5, 6, 7, 8, 9
BINOPS = {"Add": ("+", ADD), "Minus": ("-", ADD), "Multiply": ("*", MUL), "Divide": ("/", MUL), "Modulus": ("%", MUL)}
CMPOPS = {"Equal": "=", "NotEqual": "<>", "GreaterThan": ">", "GreaterThanOrEqual": ">=", "LessThan": "<",
          "LessThanOrEqual": "<="}
QUERIES = {"SelectQuery", "TableQuery", "ValuesQuery", "UnionQuery", "IntersectQuery", "ExceptQuery"}
SETS = {"UnionQuery": "UNION", "IntersectQuery": "INTERSECT", "ExceptQuery": "EXCEPT"}


def str_lit(s):
    return "'" + s.replace("'", "''") + "'"


class Renderer:
    def __init__(self, src=None, parens=True, layout=True, case=True, synonyms=True, quoting=True, all_synonyms=False):
        self.src = src or Zero()
        self.f_all = all_synonyms                    # the other spelling wherever there is one
        self.out = []
        self.f_parens, self.f_layout, self.f_case, self.f_syn, self.f_quote = parens, layout, case, synonyms, quoting
        c = self.src.choose
        # whole-text moods, so that a text is not always uniformly noisy
        self.m_paren = (0, 0, 0, 12, 4)[c(5)] if parens else 0
        self.m_case = c(4) if case else 0            # 0 upper, 1 lower, 2 per token, 3 upper
        self.m_layout = c(5) if layout else 0        # 0 plain, 1 tight, 2 wild, 3 newlines, 4 plain
        self.m_quote = c(3) if quoting else 0        # 0 always quoted, 1 plain where possible, 2 per name
        self.m_syn = (0, 2, 3)[c(3)] if synonyms else 0

    # -- emission
    def emit(self, cls, text):
        self.out.append((cls, text))

    def kw(self, *words):
        for w in words:
            if self.m_case == 1 or (self.m_case == 2 and self.src.choose(2)):
                w = w.lower()
            self.emit("kw", w)

    def op(self, t):
        self.emit("op", t)

    def fn(self, name, keyword_syntax=False):
        k = 0
        if self.m_case == 1:
            k = 1
        elif self.m_case == 2:
            k = self.src.choose(3)
        if k == 1:
            name = name.lower()
        elif k == 2 and not keyword_syntax:
            name = "".join(ch.lower() if i % 2 else ch for i, ch in enumerate(name))
        if not keyword_syntax and self.m_quote == 2 and self.src.choose(8) == 7:
            self.emit("id", '"' + name + '"')   # a quoted function name is the same name
            return
        self.emit("fn", name)

    def syn(self):
        """True when the less plain synonym should be used."""
        return self.f_all or bool(self.m_syn) and self.src.choose(self.m_syn) == 1

    def ident(self, s):
        ok = plain_name(s) or (s in SOFT)
        if ok and (self.m_quote == 1 or (self.m_quote == 2 and self.src.choose(2))):
            self.emit("id", s)
        else:
            self.emit("id", '"' + s.replace('"', '""') + '"')

    def bare_alias(self, s):
        """A name in a place where the keyword AS is optional."""
        if self.syn() or s in SOFT:
            self.kw("AS")
        self.ident(s)

    def string(self, s, allow_unicode=True):
        if allow_unicode and self.f_syn and self.m_syn and self.src.choose(6) == 5:
            esc = "\\" if not self.src.choose(2) else "!#$^~@"[self.src.choose(6)]
            body = ""
            for ch in s:
                o = ord(ch)
                if ch == esc:
                    body += esc + esc
                elif o > 0xFFFF:
                    body += f"{esc}+{o:06X}"
                elif o > 126 or o < 32 or self.src.choose(4) == 3:
                    body += f"{esc}{o:04X}" if not self.src.choose(2) else f"{esc}+{o:06x}"
                elif ch == "'":
                    body += "''"
                else:
                    body += ch
            self.emit("str", "U&'" + body + "'")
            if esc != "\\":
                self.kw("UESCAPE")
                self.emit("str", str_lit(esc))
            return
        self.emit("str", str_lit(s))

    def commas(self, items, fn):
        for i, x in enumerate(items):
            if i:
                self.op(",")
            fn(x)

    # -- joining
    def text(self):
        toks = self.out
        parts = []
        for i, (c, t) in enumerate(toks):
            if i:
                pc, pt = toks[i - 1]
                parts.append(self.space(pc, pt, c, t))
            parts.append(t)
        s = "".join(parts)
        if self.m_layout == 2:
            k = self.src.choose(4)
            s = ["", " ", "\n", "-- lead\n"][k] + s + ["", " ", "\n", " /* end */ "][self.src.choose(4)]
        return s

    def space(self, pc, pt, c, t):
        m = self.m_layout
        plain = " "
        if t in (",", ")", "]") and c == "op" or pt in ("(", "[") and pc == "op":
            plain = ""
        if t == "." and c == "op" and pc in ("id",) or pt == "." and pc == "op" and c in ("id",):
            plain = ""
        if t in ("(", "[") and c == "op" and pc == "fn":
            plain = ""
        if m in (0, 4):
            return plain
        tight_ok = self._tight(pc, pt, c, t)
        if m == 1:
            return "" if tight_ok else " "
        if m == 3:
            return "\n" if plain else ("" if tight_ok else " ")
        k = self.src.choose(10)
        if k == 0:
            return plain
        if k == 1:
            return "" if tight_ok else " "
        gap = [" ", "  ", "\n", "\t", "\r\n", " /* c */ ", "/**/", "-- it's a \"comment\"\n"][k - 2]
        # a symbol right before or after a comment could fuse with it
        return " " + gap if gap[0] in "-/" and pc == "op" else gap

    @staticmethod
    def _tight(pc, pt, c, t):
        if pc == "op" and c == "op":
            # two symbols that could fuse into another token
            return pt in "()[]," and t in "()[],"
        if pc == "op":
            if pt in ("(", ")", "[", "]", ","):
                return True
            if pt == ".":
                return c == "id"
            return pt in ("=", "<>", "<", ">", "<=", ">=", "*", "/", "%", "!=", "+", "||", "->") and c in ("id", "str")
        if c == "op":
            if t in ("(", ")", "[", "]", ","):
                return True
            if t == ".":
                return pc == "id"
            return t in ("=", "<>", "<", ">", "<=", ">=", "*", "/", "%", "!=", "+", "||", "->") and pc in ("id", "str")
        return False

    # -- expressions
    def expr(self, n, level=0, extra=True):
        """Write n where an operand binding at least as tightly as `level` is expected (0: any expression)."""
        own = self.level(n)
        wrap = own < level
        k = 0
        if extra and self.m_paren and n.t not in ("Lambda", "Star", "AliasedStar"):
            while k < 3 and self.src.choose(self.m_paren) == 1:
                k += 1
        if k and n.t == "Field" and n.table is None and level > PRIM:
            k = 0
        for _ in range(k + (1 if wrap else 0)):
            self.op("(")
        self.body(n)
        for _ in range(k + (1 if wrap else 0)):
            self.op(")")

    def level(self, n):
        t = n.t
        if t == "Or":
            return OR
        if t == "And":
            return AND
        if t == "Not":
            return self._not_style(n)
        if t in CMPOPS or t in ("Between", "InList", "InQuery", "Like", "IsNull", "DistinctFrom"):
            return PRED
        if t in BINOPS:
            return BINOPS[t][1]
        if t in ("Positive", "Negative"):
            return UNARY
        if t == "Concatenate":
            return self._concat_style(n)
        if t == "Lambda":
            return 0
        return PRIM

    def _memo(self, n, pick):
        if not hasattr(self, "_m"):
            self._m = {}
        k = id(n)
        if k not in self._m:
            self._m[k] = (n, pick())
        return self._m[k][1]

    def _not_style(self, n):
        if n.value.t in ("Between", "InList", "InQuery", "Like", "IsNull", "DistinctFrom"):
            return self._memo(n, lambda: NOT if self.syn() else PRED)
        return NOT

    def _concat_style(self, n):
        if len(n.values) == 2:
            return self._memo(n, lambda: CONCAT if self.syn() else PRIM)
        return PRIM

    def body(self, n):
        t = n.t
        m = getattr(self, "x_" + t, None)
        if m:
            return m(n)
        if t in BINOPS:
            o, lv = BINOPS[t]
            self.expr(n.left, lv)
            self.op(o)
            self.expr(n.right, lv + 1)
        elif t in CMPOPS:
            self.expr(n.left, CONCAT)
            o = CMPOPS[t]
            self.op("!=" if o == "<>" and self.syn() else o)
            self.expr(n.right, CONCAT)
        elif t in ("And", "Or"):
            lv = AND if t == "And" else OR
            self.expr(n.left, lv)
            self.kw(t.upper())
            self.expr(n.right, lv + 1)
        elif t in QUERIES:
            self.op("(")
            self.query(n)
            self.op(")")
        elif t in S.CLASS_TO_FUNC:
            self.call(n)
        else:
            raise AssertionError(f"no spelling for {t}")

    def x_Literal(self, n):
        k = n.kind
        if k == "null":
            self.kw("NULL")
        elif k == "bool":
            self.kw("TRUE" if n.text == "True" else "FALSE")
        elif k == "str":
            self.string(n.text)
        else:
            s = n.text
            neg = s.startswith("-")
            s = s.lstrip("-")
            if k == "dbl":
                s = dbl_text(s)
            elif k == "dec" and "." not in s:
                s += "."
            if neg and self.syn():
                self.op("-")
                self.emit("num", s)
            else:
                self.emit("num", "-" + s if neg else s)

    def x_Field(self, n):
        if n.table is None:
            self.ident(n.name)
            return
        if isinstance(n.table, str):
            self.ident(n.table)
        else:
            self.expr(n.table, PRIM)
        self.op(".")
        self.ident(n.name)

    def x_Variable(self, n):
        self.ident(n.name)

    def x_Star(self, n):
        if n.table is not None:
            if isinstance(n.table, str):
                self.ident(n.table)
            else:
                self.expr(n.table, PRIM)
            self.op(".")
        self.op("*")

    def x_AliasedStar(self, n):
        self.x_Star(n.star)
        self.kw("AS")
        self.names(n.aliases)

    def names(self, xs):
        self.op("(")
        self.commas(xs, self.ident)
        self.op(")")

    def x_AliasedValue(self, n):
        self.expr(n.value)
        if n.value.t == "Lambda" or ends_open(n.value):
            self.kw("AS")
            self.ident(n.alias)
        else:
            self.bare_alias(n.alias)

    def x_Lambda(self, n):
        if len(n.inputs) == 1 and not self.syn():
            self.ident(n.inputs[0].name)
        else:
            self.op("(")
            self.commas(n.inputs, lambda v: self.ident(v.name))
            self.op(")")
        self.op("->")
        self.expr(n.expr)

    def x_Positive(self, n):
        self.op("+")
        self.expr(n.value, UNARY)

    def x_Negative(self, n):
        self.op("-")
        v = n.value
        if v.t == "Literal" and v.kind in ("int", "dec", "dbl"):
            self.op("(")
            self.body(v)
            self.op(")")
        elif starts_with_number(v, self):
            self.op("(")
            self.expr(v, 0, extra=False)
            self.op(")")
        else:
            self.expr(v, UNARY)

    def x_Not(self, n):
        if self.level(n) == PRED:
            v = n.value
            self.predicate(v, True)
            return
        self.kw("NOT")
        self.expr(n.value, NOT)

    def predicate(self, v, neg):
        t = v.t
        self.expr(v.left if t == "DistinctFrom" else v.value, CONCAT)
        if t in ("IsNull", "DistinctFrom"):
            self.kw("IS")
            if neg:
                self.kw("NOT")
            if t == "IsNull":
                self.kw("NULL")
            else:
                self.kw("DISTINCT", "FROM")
                self.expr(v.right, CONCAT)
            return
        if neg:
            self.kw("NOT")
        if t == "Between":
            self.kw("BETWEEN")
            self.expr(v.lower, CONCAT)
            self.kw("AND")
            self.expr(v.upper, CONCAT)
        elif t == "Like":
            self.kw("LIKE")
            self.expr(v.pattern, CONCAT)
            if v.escape is not None:
                self.kw("ESCAPE")
                self.expr(v.escape, CONCAT)
        elif t == "InList":
            self.kw("IN")
            self.op("(")
            self.commas(v.exprs, self.expr)
            self.op(")")
        else:
            self.kw("IN")
            self.op("(")
            self.query(v.query)
            self.op(")")

    def _pred(self, n):
        self.predicate(n, False)

    x_Between = x_Like = x_InList = x_InQuery = x_IsNull = x_DistinctFrom = _pred

    def x_Array(self, n):
        self.kw("ARRAY")
        self.op("[")
        self.commas(n.values, self.expr)
        self.op("]")

    def x_RowConstructor(self, n):
        if len(n.values) < 2 or self.syn():
            self.kw("ROW")
        self.op("(")
        self.commas(n.values, self.expr)
        self.op(")")

    def x_TypeConstructor(self, n):
        name = n.type_name
        if name == "DOUBLE" and self.syn():
            self.kw("DOUBLE", "PRECISION")
        else:
            self.kw(name)
        self.string(n.value)

    def x_Interval(self, n):
        self.kw("INTERVAL")
        v = n.value
        if v.startswith("-") and not v.startswith("--") and not v.startswith("-+") and self.syn():
            self.op("-")
            v = "+" + v[1:] if self.syn() else v[1:]
        elif not v.startswith(("-", "+")) and self.syn():
            if self.syn():
                self.op("-")
                v = "-" + v
            else:
                self.op("+")
        self.string(v)
        self.kw(n.from_interval)
        if n.to_interval:
            self.kw("TO", n.to_interval)

    def x_Cast(self, n):
        self.kw("CAST" if n.t == "Cast" else "TRY_CAST")
        self.op("(")
        self.expr(n.expr)
        self.kw("AS")
        self.type(n.data_type)
        self.op(")")

    x_TryCast = x_Cast

    def x_Subscript(self, n):
        self.expr(n.value, PRIM)
        self.op("[")
        self.expr(n.index, CONCAT)
        self.op("]")

    def x_Case(self, n):
        self.kw("CASE")
        if n.value is not None:
            self.expr(n.value)
        for b in n.branches:
            self.kw("WHEN")
            self.expr(b.condition)
            self.kw("THEN")
            self.expr(b.value)
        if n.else_ is not None:
            self.kw("ELSE")
            self.expr(n.else_.value)
        self.kw("END")

    def x_Concatenate(self, n):
        if self._concat_style(n) == CONCAT:
            self.expr(n.values[0], CONCAT)
            self.op("||")
            self.expr(n.values[1], ADD)
        else:
            self.call(n)

    def x_Normalize(self, n):
        self.fn("NORMALIZE", keyword_syntax=True)
        self.op("(")
        self.expr(n.string, CONCAT)
        if n.normal_form is not None:
            self.op(",")
            self.emit("kw", n.normal_form)   # these words have no lower-case form in the grammar
        self.op(")")

    def x_ListAgg(self, n):
        self.fn("LISTAGG", keyword_syntax=True)
        self.op("(")
        if n.distinct:
            self.kw("DISTINCT")
        elif self.syn():
            self.kw("ALL")
        self.expr(n.value)
        if n.separator != "" or self.syn():
            self.op(",")
            self.string(n.separator)
        o = n.overflow_filler
        if o is not None:
            self.kw("ON", "OVERFLOW", "TRUNCATE")
            if o.filler != "..." or self.syn():
                self.string(o.filler)
            self.kw("WITH" if o.count_indication == "WITH_COUNT" else "WITHOUT", "COUNT")
        elif self.syn():
            self.kw("ON", "OVERFLOW", "ERROR")
        self.op(")")
        self.kw("WITHIN", "GROUP")
        self.op("(")
        self.kw("ORDER", "BY")
        self.commas(n.orderby, self.order_term)
        self.op(")")

    def call(self, n):
        name = S.CLASS_TO_FUNC[n.t]
        if name in S.KEYWORD_FUNCS:
            self.kw(name)
            if S.KEYWORD_FUNCS[name][2] and (n.precision != 3 or self.syn()):
                self.op("(")
                self.emit("num", str(n.precision))
                self.op(")")
            return
        args = call_args(n)
        self.fn(name)
        self.op("(")
        agg = name in S.AGGREGATES
        if agg and n.distinct:
            self.kw("DISTINCT")
        elif agg and args and args[0].t != "Star" and self.syn() and not n.orderby:
            self.kw("ALL")
        self.commas(args, lambda a: self.body(a) if a.t == "Star" else self.expr(a))
        if agg and n.orderby:
            self.kw("ORDER", "BY")
            self.commas(n.orderby, self.order_term)
        self.op(")")
        if agg:
            if n.filter_ is not None:
                self.kw("FILTER")
                self.op("(")
                self.kw("WHERE")
                self.expr(n.filter_)
                self.op(")")
            if n.null_treatment == "IGNORE":
                self.kw("IGNORE", "NULLS")
            elif n.window is not None and not (args and args[0].t == "Star") and self.syn():
                self.kw("RESPECT", "NULLS")
            if n.window is not None:
                self.over(n.window)

    def over(self, w):
        self.kw("OVER")
        if w == S.mk("Window", parent_window=w.parent_window) and w.parent_window is not None and not self.syn():
            self.ident(w.parent_window)
            return
        self.op("(")
        self.window(w)
        self.op(")")

    def window(self, w):
        if w.parent_window is not None:
            self.ident(w.parent_window)
        if w.partitions:
            self.kw("PARTITION", "BY")
            self.commas(w.partitions, self.expr)
        if w.orderby:
            self.kw("ORDER", "BY")
            self.commas(w.orderby, self.order_term)
        default = (w.frame_type == "RANGE" and w.start_bound == S.UB_PRECEDING and w.end_bound == S.CURRENT)
        if default and not self.syn():
            return
        self.kw(w.frame_type)
        if w.end_bound == S.CURRENT and not self.syn():
            self.bound(w.start_bound)
        else:
            self.kw("BETWEEN")
            self.bound(w.start_bound)
            self.kw("AND")
            self.bound(w.end_bound)

    def bound(self, b):
        if b.t == "CurrentFrameBound":
            self.kw("CURRENT", "ROW")
        elif b.t == "UnboundedFrameBound":
            self.kw("UNBOUNDED", b.bound_type)
        else:
            # AND inside a bound would end it early: keep anything looser than a value expression in parentheses
            self.expr(b.offset, CONCAT)
            self.kw(b.bound_type)

    def order_term(self, o):
        self.expr(o.value)
        if o.order_type == "DESC":
            self.kw("DESC")
        elif self.syn():
            self.kw("ASC")
        if o.null_order == "FIRST":
            self.kw("NULLS", "FIRST")
        elif self.syn():
            self.kw("NULLS", "LAST")

    # -- types
    def type(self, t):
        name = t.name
        p = dict(t.params)
        if name == "ROW":
            self.kw("ROW")
            self.op("(")
            self.commas(p["dtypes"], self.type)
            self.op(")")
        elif name == "ARRAY":
            if self.syn() and p["dtype"].name != "INTERVAL":
                self.type(p["dtype"])
                self.kw("ARRAY")
            else:
                self.kw("ARRAY")
                self.op("(")
                self.type(p["dtype"])
                self.op(")")
        elif name == "MAP":
            self.kw("MAP")
            self.op("(")
            self.type(p["from_dtype"])
            self.op(",")
            self.type(p["to_dtype"])
            self.op(")")
        elif name == "QDIGEST":
            self.emit("fn", self._tcase(name))
            self.op("(")
            self.type(p["dtype"])
            self.op(")")
        elif name == "INTERVAL":
            self.kw("INTERVAL", p["from_interval"], "TO", p["to_interval"])
        elif name in ("TIME", "TIMESTAMP"):
            self.kw(name)
            if "precision" in p:
                self.op("(")
                self.emit("num", str(p["precision"]))
                self.op(")")
            if p["timezone"]:
                self.kw("WITH", "TIME", "ZONE")
            elif self.syn():
                self.kw("WITHOUT", "TIME", "ZONE")
        elif name == "DECIMAL":
            self.emit("fn", self._tcase(name))
            pr, sc = p["precision"], p["scale"]
            if (pr, sc) == (38, 0) and self.syn():
                return
            self.op("(")
            self.emit("num", str(pr))
            if not (sc == 0 and self.syn()):
                self.op(",")
                self.emit("num", str(sc))
            self.op(")")
        elif name in ("VARCHAR", "CHAR"):
            self.emit("fn", self._tcase(name))
            mc = p.get("max_chars")
            if mc is not None and not (name == "CHAR" and mc == 1 and self.syn()):
                self.op("(")
                self.emit("num", str(mc))
                self.op(")")
        elif name == "DOUBLE" and self.syn():
            self.kw("DOUBLE", "PRECISION")
        else:
            self.emit("fn", self._tcase(name))

    def _tcase(self, name):
        if self.m_case == 1:
            return name.lower()
        if self.m_case == 2 and name not in KEYWORDS:
            return [name, name.lower(), name.capitalize()][self.src.choose(3)]
        return name

    # -- queries
    def query(self, q, level=0):
        """level 0: full query; 1: left operand of UNION/EXCEPT; 2: right operand of those, left of INTERSECT; 3: right of
        INTERSECT."""
        if level:
            own = 3
            if q.t in SETS:
                own = 2 if q.t == "IntersectQuery" else 1
            tail = q.orderby or q.offset is not None or q.limit is not None
            assert not q.with_, "a set operand cannot have WITH"
            wrap = tail or own < level
            if not wrap and self.m_paren and self.src.choose(self.m_paren) == 1:
                wrap = True
            if wrap:
                self.op("(")
                self.query_no_with(q)
                self.op(")")
            else:
                self.query_core(q)
            return
        if q.with_:
            self.kw("WITH")
            self.commas(q.with_, self.named_query)
        self.query_no_with(q)

    def named_query(self, a):
        self.ident(a.alias)
        if a.column_aliases:
            self.names(a.column_aliases)
        self.kw("AS")
        self.op("(")
        self.query(a.relation)
        self.op(")")

    def query_no_with(self, q):
        self.query_core(q)
        if q.orderby:
            self.kw("ORDER", "BY")
            self.commas(q.orderby, self.order_term)
        if q.offset is not None:
            self.kw("OFFSET")
            self.emit("num", str(q.offset))
            if self.syn():
                self.kw("ROWS" if self.src.choose(2) else "ROW")
        if q.limit is not None:
            self.kw("LIMIT")
            self.emit("num", str(q.limit))
        elif self.syn():
            self.kw("LIMIT", "ALL")

    def query_core(self, q):
        if q.t in SETS:
            inter = q.t == "IntersectQuery"
            self.query(q.left_query, 2 if inter else 1)
            self.kw(SETS[q.t])
            if q.set_quantifier == "ALL":
                self.kw("ALL")
            elif self.syn():
                self.kw("DISTINCT")
            self.query(q.right_query, 3 if inter else 2)
        elif q.t == "TableQuery":
            self.kw("TABLE")
            self.table(q.table)
        elif q.t == "ValuesQuery":
            self.kw("VALUES")
            self.commas(q.exprs, self.expr)
        else:
            self.kw("SELECT")
            if q.select_quantifier == "DISTINCT":
                self.kw("DISTINCT")
            elif self.syn():
                self.kw("ALL")
            self.commas(q.select, self.select_item)
            if q.from_ is not None:
                self.kw("FROM")
                self.relation(q.from_)
            if q.where is not None:
                self.kw("WHERE")
                self.expr(q.where)
            if q.groupby is not None:
                self.kw("GROUP", "BY")
                self.groupby(q.groupby)
            if q.having is not None:
                self.kw("HAVING")
                self.expr(q.having)
            if q.window:
                self.kw("WINDOW")
                self.commas(q.window, self.window_def)

    def select_item(self, n):
        if n.t in ("Star", "AliasedStar", "AliasedValue"):
            self.body(n)
        else:
            self.expr(n)

    def window_def(self, nw):
        name, w = nw
        self.ident(name)
        self.kw("AS")
        self.op("(")
        self.window(w)
        self.op(")")

    def groupby(self, g):
        if g.groupby_quantifier == "DISTINCT":
            self.kw("DISTINCT")
        elif self.syn():
            self.kw("ALL")
        self.commas(g.groups, self.group)

    def group(self, g):
        if g.t == "GroupingSet":
            self.grouping_set(g)
        elif g.t == "GroupingSetList":
            self.kw("GROUPING", "SETS")
            self.op("(")
            self.commas(g.groups, self.grouping_set)
            self.op(")")
        else:
            self.kw(g.t.upper())
            self.op("(")
            self.commas(g.values, self.expr)
            self.op(")")

    def grouping_set(self, g):
        if len(g.values) == 1 and not (self.syn() or g.values[0].t == "RowConstructor"):
            # bare form; a leading parenthesis would be read as the set's own
            self.expr(g.values[0])
            return
        self.op("(")
        self.commas(g.values, self.expr)
        self.op(")")

    # -- relations
    def table(self, t):
        for x in (t.catalog, t.schema):
            if x is not None:
                self.ident(x)
                self.op(".")
        self.ident(t.name)

    def relation(self, r, level=0):
        """level 0: any relation; 1: left side of a join / right side of CROSS or NATURAL (sampledRelation);
        2: under TABLESAMPLE; 3: under an alias."""
        own = {"Join": 0, "TableSample": 1, "AliasedRelation": 2}.get(r.t, 3)
        k = 1 if own < level else 0
        if self.m_paren and self.src.choose(self.m_paren * 2) == 1:
            k += 1
        for _ in range(k):
            self.op("(")
        self.relation_body(r)
        for _ in range(k):
            self.op(")")

    def relation_body(self, r):
        t = r.t
        if t == "Table":
            self.table(r)
        elif t == "AliasedRelation":
            self.relation(r.relation, 3)
            self.bare_alias(r.alias)
            if r.column_aliases:
                self.names(r.column_aliases)
        elif t == "TableSample":
            self.relation(r.relation, 2)
            self.kw("TABLESAMPLE", r.sample_type)
            self.op("(")
            self.expr(r.percentage)
            self.op(")")
        elif t == "Unnest":
            self.kw("UNNEST")
            self.op("(")
            self.commas(r.arrays, self.expr)
            self.op(")")
            if r.with_ordinality:
                self.kw("WITH", "ORDINALITY")
        elif t == "Lateral":
            self.kw("LATERAL")
            self.op("(")
            self.query(r.subquery)
            self.op(")")
        elif t == "Join":
            c = r.config
            jt = {"INNER": ["JOIN"], "LEFT": ["LEFT", "JOIN"], "RIGHT": ["RIGHT", "JOIN"], "OUTER": ["FULL", "JOIN"],
                  "CROSS": ["CROSS", "JOIN"]}[c.join_type]
            if self.syn():
                jt = {"INNER": ["INNER", "JOIN"], "LEFT": ["LEFT", "OUTER", "JOIN"],
                      "RIGHT": ["RIGHT", "OUTER", "JOIN"], "OUTER": ["FULL", "OUTER", "JOIN"],
                      "CROSS": ["CROSS", "JOIN"]}[c.join_type]
            self.relation(r.left_relation, 0)
            if c.natural:
                self.kw("NATURAL")
            self.kw(*jt)
            if c.criteria is None:
                self.relation(r.right_relation, 1)
            else:
                # without parentheses "a JOIN b JOIN c ON x ON y" reads as a JOIN (b JOIN c ON x) ON y
                bare = r.right_relation.t == "Join" and self.syn()
                self.relation(r.right_relation, 0 if bare else 1)
                if c.criteria.t == "JoinUsingCriteria":
                    self.kw("USING")
                    self.names(c.criteria.column_names)
                else:
                    self.kw("ON")
                    self.expr(c.criteria.constraint)
        elif t in QUERIES:
            self.op("(")
            self.query(r)
            self.op(")")
        else:
            raise AssertionError(t)


def call_args(n):
    """Argument nodes of a call in SQL order."""
    name = S.CLASS_TO_FUNC[n.t]
    roles = S.FUNCS[name][2]
    if roles[0] and roles[0][0].startswith("*"):
        return list(n.d[roles[0][0][1:]])
    present = {r for rs in roles for r in rs if n.d[r] is not None}
    for rs in roles:
        if set(rs) == present:
            return [n.d[r] for r in rs]
    raise AssertionError(f"no overload of {name} takes {sorted(present)}")


def dbl_text(s):
    """SQL spelling of a positive double: digits, optional point, and an upper-case exponent."""
    s = s.replace("e", "E").replace("E+", "E")
    if "E" not in s:
        s += "E0"
    return s


def starts_with_number(n, r):
    """Would the text of n (written without parentheses) begin with a number literal?"""
    t = n.t
    if t == "Literal":
        return n.kind in ("int", "dec", "dbl")
    if t == "Subscript":
        return starts_with_number(n.value, r)
    if t == "Field" and isinstance(n.table, S.N):
        return starts_with_number(n.table, r)
    return False


def ends_open(n):
    """Could a following bare name be swallowed by the end of n's text?  (window bounds, intervals, lambda bodies)"""
    return any(x.t in ("Interval", "Lambda") for x in S.walk(n))


def render(n, kind, src=None, **flags):
    r = Renderer(src, **flags)
    if kind == "query":
        r.query(n)
    elif kind == "expr":
        r.expr(n)
    elif kind == "type":
        r.type(n)
    else:
        raise AssertionError(kind)
    return r.text()


def tokens(n, kind, src=None, **flags):
    r = Renderer(src, **flags)
    {"query": r.query, "expr": r.expr, "type": r.type}[kind](n)
    return r.out
