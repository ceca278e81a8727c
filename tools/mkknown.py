"""Writes known_findings.json: open findings, and the repaired defects with the commit that repaired each.  Run by hand."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
    {"id": "tablesample-double", "property": "C01",
     "what": "TableSample whose percentage is a literal double prints without an exponent (SYSTEM(0.5)), which reads back as a decimal; "
             "an existing test pins this text (BERNOULLI(0.3))",
     "input": "TableSample(Table('t'), SYSTEM, Literal(0.5 double)) -> \"t\" TABLESAMPLE SYSTEM(0.5) -> Literal(Decimal('0.5'))"},
]
# commit subject prefix -> property
PROP = {}
for line in """
C06 escape double quotes|quote all identifiers|refuse duplicate window names
C07 escape single quotes|decode unicode string|keep newlines inside|quote the value of intervals|keep the plus sign inside
C04 parenthesize predicates|keep unary minus|parenthesize subscripted
C01 parenthesize queries used|print lambdas without|print rows with one
C25 parenthesize relations nested|print WITH ORDINALITY
C15 keep the frame of a referenced
C21 print LIMIT 0|convert FETCH FIRST
C26 print WITH, ORDER BY|convert parenthesized queries
C09 accept lower case keywords|convert the != operator|print NOT over
C05 refuse grammar rules|raise syntax errors|refuse trailing text|refuse numbers without a literal|refuse table names|refuse stars with too many
C13 register all functions|print the arguments of APPROX|use the empty default separator|print NORMALIZE|accept FROM_UNIXTIME
C18 visit the value of QDIGEST|let visitors reach
C12 set the data type of unary|keep the precision of timestamp|don't count time zone|accept COALESCE|set the data type of INTERSECT|consider all values of ARRAY|set the data type of TABLE|types of MAX/MIN|convert DOUBLE PRECISION
C14 keep DISTINCT of aggregate
C08 keep decimals apart|keep all digits of negative|print doubles with|refuse double literals
C11 keep the precision and time zone of times|find the common supertype of types|find the common supertype of times|limit the precision|promote unbounded|refuse to find the common
C10 refuse scales of decimals|refuse types with too many|don't modify the parameters
C24 refuse decimals which have
C23 use a list of common table
C19 compare the types of nested
C17 resolve expressions with subqueries
C16 keep the columns of a table|let qualified names refer|resolve fields by|keep all fields when|resolve the columns of VALUES|resolve relations in the|don't mix up tables|reassign the fields|resolve column aliases|resolve all columns of UNNEST|don't resolve stars|resolve stars to|resolve set operations|don't set the data type of queries|resolve the columns of USING
C20 command line trees
C27 refuse IGNORE NULLS on|refuse a negative OFFSET|refuse empty lists|refuse joins without|refuse the accuracy of|refuse a table with an empty|refuse unknown units|refuse COALESCE without|refuse aliases of a star
C29 keep the order of compared operands
C31 don't parenthesize CONCAT|don't parenthesize a grouping set of a row of one
""".strip().splitlines():
    pid, rest = line.split(" ", 1)
    for x in rest.split("|"):
        PROP[x] = pid

log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "fcc891d..HEAD"], capture_output=True, text=True, check=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    hits = [p for x, p in PROP.items() if s.startswith(x)]
    assert len(hits) == 1, (s, hits)
    fixed.append(f"fixed: property={hits[0]} {h} {s}")
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": FINDINGS, "fixed": fixed}, f, indent=1)
    f.write("\n")
print(len(fixed))
