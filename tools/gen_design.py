#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose below, the harness list taken from harness/h, and the planted bugs."""
import json,os,re,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
man=json.load(open(here+"/MANIFEST.json"))
find=json.load(open(here+"/known_findings.json"))

HEAD='''# Solver-based checking of cloudprivacylabs/opencypher

Generated by `tools/gen_design.py`; edit that file.

## 1. Method

Every check symbolically executes the real Go code. On each run `engine/` (a symbolic executor written for this
task) loads opencypher from /repo's current working tree, together with the lpg dependency and the parts of the
standard library that are reached, builds their SSA with golang.org/x/tools/go/ssa, and interprets that SSA with
symbolic values. Nothing about opencypher is hand-modelled: operators, evaluators, pattern matching, updates,
result sets, and the lpg graph below them (indexes, iterators, plans) are all interpreted from source.

* **Harnesses** (`harness/h/pNN.go`, one file per property) are ordinary Go functions that call opencypher's public
  API only. Inputs come from `vf.Int`, `vf.Float`, `vf.Bool`, `vf.Str` (symbolic length and bytes), `vf.IntRange`
  (symbolic) and `vf.Choice` (structure: forks one path per alternative); properties are `vf.Assert`. No harness names
  an unexported identifier, so refactorings do not disturb them.
* **Symbolic values** are 64/32/16/8-bit vectors, IEEE-754 doubles and singles (SMT FloatingPoint), booleans, strings
  with symbolic bytes; heap structure (slices, maps, pointers, closures, interfaces) is concrete per path.
* **Path exploration** re-executes from decision prefixes. At each branch on a symbolic condition the solver is asked
  which sides are feasible; both feasible sides are explored. Index bounds, nil dereferences, type assertions, division by
  zero and conversions are branch points too, so a reachable panic is found as a path that ends in one (a violation
  unless the harness catches it).
* **Assertions** are settled by the solver: the negation of the asserted condition is checked for satisfiability
  together with the path condition. An assertion whose condition has become constant on its path was decided by the
  queries of the branches before it; the evidence counts these separately (`assertions_queried`,
  `assertions_settled_by_branch_queries_of_their_path`, `assertions_settled_by_term_normalisation`,
  `assertions_without_symbolic_input`).
* **Solvers**: one incremental z3 (z3-new if present) per worker; queries it cannot decide in its slice go to
  one-shot z3 and cvc5 portfolios (including integer-blasted bit-vectors). A query that stays undecided is counted in the
  evidence as undecided (and its path as not claimed); it is never treated as proved, and never reported as a violation.
* **Counterexamples are replayed.** A satisfying model is written as a JSON replay file (`out/`) and run against the
  same harness compiled by the Go compiler with the real parser and the real packages. Only when the native run fails the same
  assertion (or panics) is `VIOLATION property=.. replay=..` printed; a model that does not reproduce is listed in the evidence
  as an unconfirmed candidate and is not reported. `run.sh` builds the native side from /repo's working tree too.
* **Validation of the interpreter.** A sample of explored paths per harness is replayed natively and every value passed
  to `vf.Observe`, and the outcome of every assertion and panic, must agree ("traces validated"). Disagreements are
  counted in the evidence as mismatches; there are none on the unchanged tree.

### What is modelled rather than interpreted

| Part | Treatment |
|---|---|
| Lexer and parser (ANTLR) | run natively (compiled from /repo); the parse tree is imported as the initial heap and `ast.go` is interpreted on it. Texts with symbolic bytes are parsed through a representative per lexical class; every byte of a class is treated alike by the lexer inside that token kind, otherwise bytes are enumerated value by value |
| `math.Pow`, `math.Mod` and transcendental functions | uninterpreted functions with native values for models: the check sees which function is applied to which arguments in which order |
| Calendar (`time.Date`, `Time.Date`, ...) with symbolic instants | uninterpreted day/month/year functions tied by their defining inequalities; concrete instants go through package time itself |
| `strconv.FormatInt/Itoa` (base 10) of a symbolic integer | introduced by its definition: sign and number of digits are decided by forking; n fresh digits, the first not zero, whose weighted sum is the magnitude |
| `fmt` verbs `%d %0Nd %v %s` with symbolic integers, booleans, strings and slices | their text; other verbs of symbolic arguments (error messages) give a fixed text, and the evidence counts such paths |
| signed `/` and `%` by a constant of at least 10^6 | where the recorded bounds leave at most eight quotients, the quotient is decided by forking |
| `sync`, `sync/atomic`, `reflect`, `unsafe` string helpers, byte-search assembly | direct models in `engine/intrinsics.go` |
| Map iteration | insertion order, except in the harnesses of P32, which explore other orders: on a path either every map is walked backwards or at most one (quick) / two (thorough) iterations in the package under test take another order (quick: rotations and reverse, thorough: every permutation of the first four entries) |
| Goroutines | none in the code under test |

### Tiers, bounds and cost

`bash run.sh Pnn` is the quick tier: about 60 s of wall time per property at most (most need 5-25 s on 8 cores);
`VERIF_TIER=thorough bash run.sh Pnn` allows 600 s per property and larger bounds (`vf.Pick(quick, thorough)`). Bounds are:
the sizes written in each harness (lists, strings, graphs, rows), 4000 decisions and 4 million SSA steps per path. If
the time budget ends before all paths are explored, the evidence says so (`exhaustive: false`, `unexplored`).
Outside the bounds nothing is claimed. Every run rewrites `evidence/Pnn.json` with the functions encoded, bounds,
paths, decisions, assertions, queries, solver seconds, undecided queries and validated traces.

Why this reaches what tests cannot: integer operands range over all 2^64 values, doubles over every bit pattern
including NaN and infinities, strings over all byte strings of the stated lengths, graphs over every shape of the stated
size; the deciding step is a solver verdict on the path condition of the real code, not a sample.

'''

ORACLE={
"P01":("Go integer/IEEE arithmetic written as terms in the harness (`arith`), evaluated left to right.","operands: any int64 or double; chains of 2-4 (5) operators; parenthesised groups; operands from literals, parameters, properties, list elements and calls. Quotients and remainders of floats far apart in size against four constants. Nonlinear float chains leave a few queries undecided."),
"P02":("an expression errs exactly when its definition table says so (divisor zero, undefined kind pair, failing operand).","all pairs and triples of 14 value kinds; error operands in every position of every operator, function, list, map, CASE, index, and in query clauses; durations divided by every form of zero."),
"P03":("null table: any null operand gives null.","every kind opposite null, every operator, chains of three, every single-value function; null from literals, parameters, missing properties, missing indexes."),
"P04":("reference order per kind (`refCmp`), doubles for mixed numbers, conjunction for chained comparisons.","pairs and triples of arbitrary values; strings up to 3 (5) bytes."),
"P05":("Kleene truth tables in the harness (`symTri`).","2-4 (6) operands, every connective pair, non-boolean operands in every position, in RETURN, WHERE and CASE."),
"P06":("first-match selection computed in the harness; a spy function counts evaluations.","up to 3 (5) alternatives, any ints/strings/nulls, results of every kind; pairs of values of every kind, comparable or not."),
"P07":("list semantics written directly over the element slice.","lists up to 4 (8), every int64 index and bound; aliasing sequences of three operations."),
"P08":("closed form: a + i*s, length from the distance, no wrap.","any int64 start, end, step with at most 5 (16) terms; constant steps from any start."),
"P09":("definitions over []rune.","strings up to 4 (6) arbitrary bytes for predicates, 3-5 (9) for functions; every int64 argument; splits into up to 8 (10) pieces."),
"P10":("definition of truncation/widening and a reference decimal parser.","every number; strings up to 4 (6) arbitrary bytes, 19-digit strings around the limits, decimal strings up to 3 (4)."),
"P11":("component-wise duration arithmetic; civil calendar for temporals.","any duration components (date arithmetic: +-50000 days, +-1000 months; see harness); seconds of up to 600 years."),
"P12":("the same query parsed once and evaluated twice must give what two fresh parses give.","a family of expressions and queries, arbitrary parameter values in both evaluations, functions registered again in between."),
"P13":("a tree of maps in the harness.","histories of 2 (3) steps over four contexts and every setting, reading and removing operation; the variables of every form of MATCH, CREATE and MERGE with and without RETURN. Names differing only in case, length or quoting; variables and parameters that are null and shadow others, and of every form (digits, reserved, quoted)."),
"P14":("reference matcher (`matchAll`): enumerates all assignments over the explicit lists of nodes and relationships.","2 (3) nodes, up to 3 relationships with any endpoints and types, labels, arbitrary int/string properties; patterns of up to three relationships, several parts, bound variables, property maps in parameters. Names differing only in case, length or quoting; null constraints; unnamed constrained relationships; parenthesized patterns."),
"P15":("reference enumeration of relationship-unique paths.","2-3 nodes, up to 3 (5) relationships, bounds 0-4 and open, every direction, types, constrained ends; chains and cycles of 6 (8) nodes with bounds to 6; intervals that are empty."),
"P16":("rows computed from the matches of P14's reference and the three-valued predicate.","2 (3) nodes with optional arbitrary properties, predicates over all comparison and boolean operators, any SKIP/LIMIT up to the largest integer; names of items that shadow variables."),
"P17":("multiset/first-occurrence union by a reference sameness.","up to 2+2 rows, cells of every kind, two and three parts."),
"P18":("snapshot of the graph plus exactly the described elements (`snap.newNode`, `newEdge`, `assertSame` compares every node, relationship, label, property, endpoint and count, and looks elements up by label and type).","0-3 nodes to begin with, up to three rows, a family of patterns, properties of every kind, property maps in parameters. Names differing only in case, length or quoting; rows of unnamed patterns; up to 8 labels and 8 properties; path variables of single nodes; unusual property names."),
"P19":("snapshot with the assigned properties/labels changed.","up to 3 nodes, items in sequence, maps, nodes, every value kind. Names differing only in case, length or quoting; empty lists and texts stored; values of another kind with the same text; texts that look like operators."),
"P20":("snapshot with the addressed properties/labels removed.","up to 3 nodes, label sets of up to four, repeated rows. Names differing only in case, length or quoting."),
"P21":("snapshot without the addressed elements and their incident relationships.","2-3 nodes, up to 3 relationships anywhere, repeated rows, computed targets, clauses after the DELETE, property indexes, paths of up to 6 (8) relationships."),
"P22":("match by reference, otherwise snapshot plus the pattern once; second run adds nothing.","up to 3 nodes, relationships anywhere, actions with arbitrary values, null properties of every origin, rows that see earlier rows' creations; one row per match when nothing of the pattern is named. Names differing only in case, length or quoting."),
"P23":("odometer enumeration of combinations.","up to three sets of up to three rows (four smaller ones), arbitrary filter and stop decisions."),
"P24":("structural sameness defined in the harness (`refSame`).","all pairs of kinds, nesting depth two, all triples within a kind of number."),
"P25":("identity of the converted value.","every integer width over its whole range, both float widths, all other kinds; wrapped properties."),
"P26":("the original string, byte for byte.","any ASCII string up to 4 (6) with multi-byte characters around, every 4- and 6-digit code point escape; names of up to 4 (6) and strings of up to 6 (9) characters of which any number need escaping."),
"P27":("a recording filter; every stored value must be its result.","all writing clauses, up to three nodes; keys and values that concatenate to the same text."),
"P28":("reference matcher started at the given node.","2 (3) nodes, up to 3 relationships, patterns up to three hops and variable length."),
"P29":("a spy function records calls and arguments.","every arity pair and count up to four, arguments of every kind, in every clause and every position inside other expressions."),
"P30":("no path may end in an uncaught panic.","all operators and functions over all pairs of 14 kinds; every prefix of a family of queries; a family of malformed texts; lists of no, one and several relationships."),
"P32":("results computed with the insertion order.","map orders as described in section 1; small graphs."),
"P33":("value of the digit string by a reference evaluation; for doubles, the exact numerator and power of ten handed to the correctly rounded conversion.","decimal up to 4 (6) arbitrary digits and up to 24 digits in one class, octal, hex, decimal point and exponent forms, in every position."),
"P34":("snapshot of graph, parameters and operand values taken before and compared after.","two nodes with list/int/string properties, families of reading queries, every operator and function over pairs of kinds, lists with spare capacity; lists with nulls, compared and searched."),
"P35":("reference calendar (days per month, leap rule) and package time.","digit strings of each form; any text up to 4 (6) of a hostile alphabet; map components over their ranges; times of day over the whole day on boundary dates; every day of three years in local zones whose clocks change at midnight."),
"P36":("the same expression fully parenthesised by a reference precedence table, both evaluated symbolically.","every pair of binary operators, triples over 6 (all) operators, prefix and postfix operators on either side; chains of comparisons; up to 3 (6) mixed signs; chains of 2 (4) postfix operators."),
"P38":("labels and types read through lpg's own accessors.","2 (3) nodes over six label sets, relationships anywhere of several types, every argument kind."),
"P39":("the text read back by a reference reader, compared with the fields of the value.","nanoseconds up to +-1.01e9 (4e9) next to 3 (5) numbers of seconds, seconds up to +-200 (100000) next to 11 nanoseconds, months and days up to +-1500, integers up to +-20000 (2000000), strings up to 3, lists up to 3 elements; dates and times in zones far from UTC."),
"P40":("a registered function that fails when its argument equals a symbolic key records whether it failed; a table of accepted kinds.","80 expression templates, 85 queries over every clause with up to two rows, 69 operand positions times 13 kinds, unknown names in every position; operands that the result does not need."),
"P37":("a table of rows, nodes and relationships kept by the harness.","histories of 2 (3) operations with cells of six kinds; the sets that were added are looked at again afterwards."),
}

TAIL='''
## 4. Genuine defects

%d defects were repaired in /repo by "fix:" commits (each minimal, existing tests unedited); they are listed in
`known_findings.json` under "fixed". The checks pass on the repaired tree and report each of them again if it returns.

Recorded and not repaired (all but none are in the pinned dependency lpg/v2 v2.0.0, which this repository cannot change):

%s

A known finding is suppressed by harness and assertion id only (`known_findings.json`), and each lives in a
harness of its own (`Pnn_Finding*`), so a different violation of the same property is still reported.

Observed and outside the stated properties (described, not claimed): DISTINCT, ORDER BY and OPTIONAL are accepted and
ignored; WITH, UNWIND, CALL, comprehensions, `count`, `filter` and pattern predicates panic "Unimplemented"; path
variables in MATCH are not bound; SET on a relationship property and reading a map's property are errors; `=` on maps is an
error; a failed update is not rolled back; one parsed query evaluated concurrently races on its constant caches; variables of a
successful query stay in the calling context; `Cols` of RETURN * is empty; local times and date-times live in time.Local, so where its clocks change they shift (checked with Local = UTC); DELETE of a value that is not an element is ignored; `ResultSet.Nodes`/`Edges` of query results do not include path cells;
`- -x` and `not not x` skip the kind check; label predicates (`where n:A`) are errors; the path variable of a MERGE is bound only when it creates; variables whose backquoted name starts with a digit are not carried between clauses; `parseDate` (goment), `timestamp` and the texts of maps, floats and nodes
are unclaimed; passing a node of another graph to CREATE panics in lpg.

## 5. False alarms corrected

Properties or harnesses that were too strong, and what was done (no check was loosened to hide a defect):

* P10: float to integer conversion outside the integer range is implementation-defined in Go; the statement says "in the integer range".
* P07: a negative slice bound is an error in this implementation, not counted from the end; the statement says so.
* P09: the meaning of negative lengths is left open ("selects nothing or is an error").
* P10: hexadecimal, inf and nan spellings accepted by strconv are left open.
* P14: a relationship may be used by several pattern elements (the implementation does not enforce relationship
  uniqueness across elements); the statement and reference matcher allow it.
* P19/P21: SET after DELETE may be refused; only the resulting graph is judged.
* P24: NaN is the one value that need not be the same as itself.
* P35: out-of-range map components are normalised or refused; left open.
* P36: errors of later operands in a comparison chain, doubled signs and doubled NOTs on wrong kinds are left open.

## 6. Not applicable

%s

## 7. Planted bugs

Each `seeded/Bnn` was written from a property's text, compiles, passes the existing tests, and has a demonstration. All are
caught by the quick check of their own property:

| Bug | Property | Change |
|---|---|---|
%s

Besides these, a mutation run (operators negated, branches removed, constants changed; several thousand possible mutants of
the non-generated sources, sampled in random order) was used to look for gaps: surviving mutants were triaged by hand,
and either are equivalent (error texts, capacity hints, dead code such as `isCompatibleValue`, `Properties.AsLiteral`, the constant
caches that no multi-operand expression reaches), touch features listed in section 4 as unclaimed, or led to new
harnesses (e.g. P14_Parameters, P18_Parameters, P20_Null, P02_NullNeighbour, indexes in P21_Afterwards).
'''
def harnesses(pid):
    out=[]
    for f in sorted(glob.glob(here+"/harness/h/*.go")):
        c=[]
        for l in open(f):
            if l.startswith("//"): c.append(l[2:].strip()); continue
            m=re.match(r"func (%s_\w+)\(\)"%pid,l)
            if m: out.append((m.group(1)," ".join(c)))
            c=[]
    return out
o=[HEAD,"## 2. Properties and how each is decided\n\nBounds: quick, with thorough in parentheses where it differs. Statements are in `properties.jsonl`.\n"]
claimed={c["property"] for c in man["checks"]}
for p in props:
    if p["id"] not in claimed: continue
    orc,b=ORACLE[p["id"]]
    o.append("### %s %s\n"%(p["id"],p["title"]))
    o.append("* Oracle: %s\n* Bounds: %s\n* Beyond tests: %s"%(orc,b,p["why_tests_cant"]))
    o.append("* Harnesses: "+"; ".join("`%s`%s"%(n.split("_",1)[1]," ("+c+")" if c else "") for n,c in harnesses(p["id"]))+"\n")
o.append('''## 3. Running

`bash setup.sh` builds the engine into `out/` (offline). `bash run.sh Pnn` runs one check. Options of the engine for
development: `-h regexp` (harnesses), `-j n`, `-q`, `-n` (no evidence), `-repo dir`; environment `SYM_DEBUG`, `SYM_SLOW`,
`SYM_FIRST` (stop at the first violation). /repo has no hooks; it is only read. Evidence and replay files are rewritten on every run.
''')
fl="\n".join("* %s `%s`: %s"%(f["property"],f["id"],f["what"]) for f in find["findings"])
na="\n".join("* %s: %s"%(n["property"],n["reason"]) for n in man["not_applicable"])
seed=[]
for d in sorted(glob.glob(here+"/seeded/*/meta.json")):
    m=json.load(open(d)); seed.append("| %s | %s | %s |"%(d.split("/")[-2],m["property"],m["what_it_breaks"].replace("|","/").replace("\n"," ")))
o.append(TAIL.replace("all but none are","all are")%(len(find["fixed"]),fl,na,"\n".join(seed)))
open(here+"/DESIGN.md","w").write("\n".join(o))
