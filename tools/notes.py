GEN = ("Samples, does not prove: every check runs a fixed enumeration of small trees or values and a seeded random search over larger ones; the oracle is ")
TRUST = " Trusted: the table of node types in vf/spec.py, Python, and the antlr4 runtime."
NOTE = {k: GEN + v + TRUST for k, v in {
    "C01": "the round trip tree -> text -> tree, trees being compared by their public attributes against the generated description.",
    "C02": "equality of the token sequences of compact and pretty text under our own SQL tokenizer, plus reading both back.",
    "C03": "the description from which our own SQL writer made the text.",
    "C04": "the description of the operator tree, written with the fewest parentheses the precedence rules allow (parsing) and printed by treeno (printing).",
    "C05": "the committed ANTLR grammar as acceptor (vendored generated parser), a list of constructs without a representation, and token preservation for accepted texts.",
    "C06": "the name itself, in every position an identifier can stand in.",
    "C07": "the string itself, in every position, and an independent reading of U& escapes.",
    "C08": "the number itself (int, Decimal, float) and its SQL type computed from the digits.",
    "C09": "equality of the trees of two spellings of one description, and of listed pairs of synonymous texts.",
    "C10": "the described type, and the rules for valid parameters.",
    "C11": "the algebraic laws over all pairs and triples of a type universe, and our own lattice (vf/reftypes.py).",
    "C12": "our own type inference (vf/reftypes.py), on built and on parsed trees.",
    "C13": "a registry of names and roles written from the documentation.",
    "C14": "the described aggregate call.",
    "C15": "the described window.",
    "C16": "our own resolver (vf/refresolve.py) over generated queries and schemas.",
    "C17": "comparison of the query and of the supplied schema before and after resolving.",
    "C18": "a census of nodes by public attributes.",
    "C19": "the description: equal descriptions must be equal trees, single changes unequal ones.",
    "C20": "the library's own functions, called on the same text.",
    "C21": "the described clauses.",
    "C22": "our own scoping of names in lambda bodies.",
    "C23": "snapshots of every tree of a history before and after each operation, a second process, and threads working on their own trees.",
    "C24": "the SQL text of the same operator program.",
    "C25": "the described FROM clause.",
    "C26": "the described query tree.",
    "C27": "the round trip of whatever was built (a tree that prints must read back to itself), a table of combinations that have a spelling and must be accepted, and a list of arguments that must be refused.",
    "C28": "the number of Python calls made at three sizes of one shape: doubling the size may multiply it by at most eight.",
    "C29": "our own tables of functions, extended by the generated definition: the same round trips as for built-in functions.",
    "C30": "a reader of the layout (vf/layout.py): our own tokenizer with lines and columns, grouped into queries and clauses.",
    "C31": "the parser on the printed text without each pair of parentheses in turn: it must be refused or give another tree.",
}.items()}
