"""C22: exactly the references to a lambda's parameters, at any depth of its body, become its variables."""
from ..common import *
from ..gen import settle
from ..spec import lit, mk

PROPERTY = "C22"
RULE = "the text contains a lambda whose body mentions at least one of the used names; distinct by tree"
ASSUMPTIONS = [GRAMMAR, TYPED, "names are compared exactly, as everywhere else in treeno (letter case included)", "a name with a prefix (x.f) is a column reference, whatever the prefix",
               "subqueries in lambda bodies, which Trino does not support, are left out"]
COUNTS = {"quick": 4000, "thorough": 250000}
POOL = ["x", "y", "X", "a b", "order", "f"]
F = atoms.F


def bind(n, scope=frozenset()):
    """Our own scoping: the described tree with its variables."""
    if n.t == "Lambda":
        return n.put(expr=bind(n.expr, scope | {v.name for v in n.inputs}))
    if n.t == "Field" and n.table is None:
        return mk("Variable", n.name) if n.name in scope else n
    if n.t in ("Literal", "DataType", "Variable"):
        return n
    d = {}
    for f, kind in S.FIELDS[n.t]:
        v = n.d[f]
        if isinstance(v, S.N):
            v = bind(v, scope)
        elif isinstance(v, tuple) and kind == "wins":
            v = tuple((a, bind(b, scope)) for a, b in v)
        elif isinstance(v, tuple):
            v = tuple(bind(x, scope) if isinstance(x, S.N) else x for x in v)
        d[f] = v
    return S.N(n.t, d)


def variables(n):
    """The names of the variables in use, one per occurrence, declarations left out."""
    if n.t == "Variable":
        yield n.name
    for c in ([n.expr] if n.t == "Lambda" else [c for _, c in S.child_nodes(n)]):
        yield from variables(c)


def check(raw, kind="expr", src=None):
    """raw: the tree as written, every reference a Field."""
    want = bind(raw)
    if T_fails(want):
        return Out(discard=True)
    text, _ = L.text_of(raw, kind, src)
    got = L.parse(text, kind)
    d = S.diff(want, got)
    require(d is None, lambda: f"parsing\n  {text!r}\nbinds other names than its lambdas declare: {d} (expected vs parsed)")
    L.print_leg(want, kind)
    lams = [n for n in S.walk(raw) if n.t == "Lambda"]
    for n in lams[:4]:
        api(n)
    used = sum(1 for _ in variables(want))
    names = {v.name for n in lams for v in n.inputs}
    free = sum(1 for n in S.walk(want) if n.t == "Field" and (n.name in names or n.table in names))
    nested = any(c is not n and c.t == "Lambda" for n in lams for c in S.walk(n))
    return Out(sample=text, nontrivial=bool(lams) and used + free > 0, key=repr(raw),
               labels=[f"variables {min(used, 5)}", f"same name outside {min(free, 5)}"] + ["nested"] * nested + ["shadowed"] * any(shadows(n) for n in lams) + [f"parameters {min(len(n.inputs), 3)}" for n in lams[:1]])


def shadows(n):
    mine = {v.name for v in n.inputs}
    return any(c.t == "Lambda" and mine & {v.name for v in c.inputs} for c in S.walk(n.expr))


def T_fails(want):
    try:
        T.check(want)
        return False
    except T.NoType:
        return True


def api(n):
    """Lambda.from_generic_expr on a tree made in Python."""
    La = sut.cls("Lambda")
    names = frozenset(v.name for v in n.inputs)
    for body in (n.expr, bind(n.expr)):       # inner lambdas may have been made before, or been left as they were
        want = n.put(expr=substitute(body, names))
        obj = sut.build(body)
        inputs = [La.Variable(v.name) for v in n.inputs]
        before = (sut.canon(obj), repr(obj), sut.show(obj))
        made = sut.guard("Lambda.from_generic_expr", La.from_generic_expr, inputs, obj)
        d = S.diff(want, sut.canon(made))
        require(d is None, lambda: f"from_generic_expr({[v.name for v in n.inputs]}, {before[2]}) binds other names: {d} (expected vs made)")
        require((sut.canon(obj), repr(obj), sut.show(obj)) == before, lambda: f"from_generic_expr({[v.name for v in n.inputs]}, …) changed its argument {before[2]} to {sut.show(obj)}")
        direct = sut.build(want)
        require(direct.equals(made) is True and made.equals(direct) is True, lambda: f"the lambda {sut.show(made)} made by from_generic_expr is not equal to the same one built directly")
        other = sut.guard("Lambda.from_generic_expr", La.from_generic_expr, inputs, sut.build_tuples(body))
        d = S.diff(want, sut.canon(other))
        require(d is None, lambda: f"from_generic_expr({[v.name for v in n.inputs]}, {before[2]}), whose lists are tuples, binds other names: {d} (expected vs made)")
    twice = sut.guard("Lambda.from_generic_expr", La.from_generic_expr, [La.Variable(v.name) for v in n.inputs], made.expr)
    require(S.diff(want, sut.canon(twice)) is None, lambda: f"binding the names of {sut.show(made)} again changes it to {sut.show(twice)}")


def substitute(n, names):
    """Only the given names: lambdas further inside were made by others."""
    return S.rewrite(n, lambda x: mk("Variable", x.name) if x.t == "Field" and x.table is None and x.name in names else x)


def V(*names):
    return [mk("Variable", n) for n in names]


def lam(ps, body):
    return mk("Lambda", V(*ps), body)


def duplicate(ps, form):
    text = form.format("(" + ", ".join(f'"{p}"' for p in ps) + ") -> 1")
    try:
        obj = sut.parse_expr(text)
    except sut.SutError:
        pass
    else:
        fail(f"{text!r} declares a parameter twice and is accepted: {sut.show(obj)!r}")
    La = sut.cls("Lambda")
    for made in (lambda: La([La.Variable(p) for p in ps], sut.build(lit(1))), lambda: La.from_generic_expr([La.Variable(p) for p in ps], sut.build(F(ps[0])))):
        try:
            obj = made()
        except Exception:
            continue
        fail(f"a lambda with the parameters {ps} is accepted: {sut.show(obj)!r}")
    return Out(sample=text, nontrivial=True)


def wrapped(raw, form=0):
    """The lambda in different surroundings, with the same names next to it."""
    return [raw, mk("Try", raw), mk("RowConstructor", [F("x"), raw, F("y")]), mk("Array", [raw]), mk("Case", [mk("When", F("x"), mk("Try", raw))], mk("Else", F("x")), None),
            mk("RowConstructor", [lam(["x"], F("x")), raw, F("x"), lam(["q"], F("x"))])][form]


def in_slots():
    """A reference in every slot of every kind of node, inside a lambda binding it, and one binding something else."""
    for label, make in atoms.slots():
        for shape, leaf in (("ref", F("x")), ("qualified", F("x", "x")), ("other", F("X")), ("deep", mk("Add", F("x"), F("y"))), ("member", mk("Field", "x", mk("Subscript", F("x"), lit(1)))),
                            ("lambda", lam(["y"], mk("RowConstructor", [F("x"), F("y"), F("z")]))), ("shadow", lam(["x"], mk("Add", F("x"), F("y"))))):
            node = make(leaf)
            if node.t in atoms.NOT_EXPR or any(n.t in atoms.QUERIES or n.t in atoms.RELATIONS for n in S.walk(node)):
                continue
            yield f"{label} {shape}", node


def hosted():
    """Nodes which are no expressions, inside the expression they belong to."""
    def slots_of(t, f, make):
        return f"{t}.{f}", make
    win = lambda **kw: mk("Sum", F("b"), window=mk("Window", **kw))
    out = []
    for shape, leaf in (("ref", F("x")), ("deep", mk("Add", F("x"), F("y"))), ("qualified", F("x", "x")), ("lambda", lam(["y"], mk("Add", F("x"), F("y")))), ("shadow", lam(["x"], F("x")))):
        out += [(f"partition {shape}", win(partitions=[leaf])), (f"partitions {shape}", win(partitions=[F("c"), leaf])), (f"order {shape}", win(orderby=[mk("OrderTerm", leaf)])),
                (f"orders {shape}", win(orderby=[mk("OrderTerm", F("c")), mk("OrderTerm", leaf, "DESC", "FIRST")])),
                (f"start {shape}", win(orderby=[mk("OrderTerm", F("c"))], frame_type="RANGE", start_bound=mk("BoundedFrameBound", "PRECEDING", leaf))),
                (f"end {shape}", win(orderby=[mk("OrderTerm", F("c"))], frame_type="ROWS", start_bound=mk("CurrentFrameBound"), end_bound=mk("BoundedFrameBound", "FOLLOWING", leaf))),
                (f"filter {shape}", mk("Count", F("b"), filter_=leaf)), (f"agg order {shape}", mk("ArrayAgg", F("b"), orderby=[mk("OrderTerm", leaf)])),
                (f"when {shape}", mk("Case", [mk("When", leaf, lit(1))])), (f"then {shape}", mk("Case", [mk("When", F("c"), leaf)])), (f"else {shape}", mk("Case", [mk("When", F("c"), F("d"))], mk("Else", leaf))),
                (f"case value {shape}", mk("Case", [mk("When", F("c"), lit(1))], None, leaf)), (f"listagg {shape}", mk("ListAgg", F("b"), orderby=[mk("OrderTerm", leaf)]))]
    return out


def enumerated(tier):
    out = []
    for ps in ([], ["x"], ["y"], ["x", "y"], ["y", "x"], ["X"], ["x", "X"], ["a b", "x"], ["order"], ["x", "y", "f"]):
        for i, body in enumerate([F("x"), F("y"), F("X"), F("x", "x"), F("f", "x"), F("x", "t"), F("order"), F("a b"), mk("Add", F("x"), F("y")), mk("Field", "x", mk("Subscript", F("x"), F("x"))), lam(["x"], F("x")), lam(["x"], F("y")),
                                  lam(["y"], mk("Add", F("x"), F("y"))), lam([], F("x")), lam(["z"], lam(["w"], mk("RowConstructor", [F("x"), F("y"), F("z"), F("w"), F("v")]))), mk("RowConstructor", [lam(["x"], F("x")), F("x"), lam(["y"], F("x")), F("y")]), lit("x"),
                                  mk("Count", mk("Star")), mk("Count", mk("Star", "x")), mk("Try", lam(["x"], lam(["x"], F("x"))))]):
            for form in range(6):
                out.append((f"{ps} {i} {form}", lambda raw=wrapped(lam(ps, body), form): check(raw)))
    for i, (label, node) in enumerate(list(in_slots()) + hosted()):
        others = (["y"], ["x", "y"], ["z"])
        for ps in (["x"], *(others if tier == "thorough" else others[i % 3:i % 3 + 1])):
            out.append((f"slot {label} {ps}", lambda raw=mk("Try", lam(ps, node)): check(raw)))
        out.append((f"slot {label} twice", lambda raw=lam(["y"], lam(["x"], node)): check(raw)))
        out.append((f"slot {label} outside", lambda raw=mk("RowConstructor", [F("x"), lam(["x"], node), node if node.t != "Lambda" else F("y")]): check(raw)))
    for ps in (["x", "x"], ["x", "y", "x"], ["a b", "a b"], ["x", "X", "X"]):
        for form in ("{}", "TRY({})", "x -> ({})", "ARRAY[{}]"):
            out.append((f"duplicate {ps} {form}", lambda ps=ps, form=form: duplicate(ps, form)))
    # in every part of a query
    for i, body in enumerate([lam(["x"], mk("Add", F("x"), F("y"))), lam(["x", "y"], lam(["y"], mk("RowConstructor", [F("x"), F("y"), F("z")])))]):
        e = mk("Try", body)
        for j, q in enumerate([mk("SelectQuery", [F("x"), e]), mk("SelectQuery", [F("x")], from_=mk("Table", "x"), where=e), mk("SelectQuery", [F("x")], from_=mk("Table", "t"), orderby=[mk("OrderTerm", e), mk("OrderTerm", F("x"))]),
                               mk("SelectQuery", [F("x")], from_=mk("Table", "t"), groupby=mk("GroupBy", [mk("GroupingSet", [e]), mk("GroupingSet", [F("x")])]), having=e), mk("SelectQuery", [mk("AliasedValue", e, "x"), F("x")], from_=mk("Unnest", [e, F("x")])),
                               mk("SelectQuery", [mk("Star", "x")], from_=mk("Join", mk("Table", "x"), mk("Table", "y"), mk("JoinConfig", "INNER", criteria=mk("JoinOnCriteria", e)))), mk("ValuesQuery", [e, F("x")])]):
            out.append((f"query {i} {j}", lambda q=q: check(q, "query")))
    return out


class Names(Gen):
    """Few names, so that references meet parameters; everything is written as a plain reference."""

    def name(self):
        return self.s.pick(POOL)

    def field(self):
        s = self.s
        k = s.choose(8)
        if k == 0:
            return mk("Field", self.name(), self.name())
        if k == 1:
            return mk("Field", self.name(), mk("Subscript", mk("Field", self.name()), s.pick([lit(1), mk("Field", self.name())])))
        return mk("Field", self.name())

    def lam(self, d):
        s = self.s
        ps = []
        for _ in range(s.pick([1, 1, 1, 2, 2, 3, 0])):
            x = self.name()
            if x not in ps:
                ps.append(x)
        body = self.expr("any", d - 1)
        if s.chance(1, 3):
            body = self.lam(d - 1) if d > 1 else body
        return lam(ps, body)

    def expr_new(self, kind="any", d=5):
        e = super().expr_new(kind, d)
        if d > 0 and self.s.chance(1, 6) and e.t not in ("Star", "Lambda"):
            ps = self.lam(0).inputs
            return mk("Try", mk("Lambda", ps, e))
        return e


def case(src):
    g = Names(src, size=src.pick([6, 12, 25, 45]), subqueries=False)
    kind = "expr"
    if src.chance(1, 8):
        kind = "query"
        raw = mk("SelectQuery", [g.lam(4) if src.chance(1, 2) else g.expr("any", 4) for _ in range(1 + src.choose(2))], from_=mk("Unnest", [g.expr("arr", 3)]), where=g.expr("bool", 4) if src.chance(1, 2) else None)
    elif src.chance(1, 2):
        raw = g.lam(5)
    else:
        raw = g.expr("any", 5)
    return check(settle(raw), kind, src)
