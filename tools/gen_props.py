#!/usr/bin/env python3
# Writes /verif/properties.jsonl from the table below.
import json,os
P=[]
def p(id,title,statement,over,qt,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("P01","Arithmetic: integer, float and unary results are exact and left-associative",
"For operands that are integers or floats, + - * / % ^ and unary minus evaluate to exactly the left-associative result with the usual precedence: integer op integer is 64-bit two's-complement integer arithmetic with truncating division and remainder, any float operand makes the operation IEEE-754 double arithmetic on the values converted to double, and ^ always yields the double power. Chains such as a-b+c, a/b*c and a-b-c are evaluated strictly left to right.",
["inputs","programs"],"every pair/triple of 64-bit integers and doubles (any bit pattern), over the operator chains listed in DESIGN.md",
"Tests evaluate a handful of literal expressions; none mixes kinds, uses extreme values, or chains + and - in both orders.",
["arithmeticeval.go","ast.go"],[("additive evaluation","arithmeticeval.go: addOrSubtractExpression.Evaluate"),("multiplicative evaluation","arithmeticeval.go: multiplyDivideModuloExpression.Evaluate"),("power","arithmeticeval.go: powerOfExpression.Evaluate"),("operator order","ast.go: oC_AddOrSubtractExpression, oC_MultiplyDivideModuloExpression, oC_PowerOfExpression")],["result of ParseAndEvaluate"])
p("P02","Errors are never lost: a failing operand makes the expression fail",
"Dividing or taking a remainder by zero (integer or float), and applying an arithmetic operator to operand kinds it is not defined for, makes the whole expression evaluate to an error, whatever operands precede or follow it, and never to a value or a panic. An error raised by any evaluated operand, function argument, list or map element is returned by the enclosing expression.",
["inputs","programs"],"every combination of operand kinds (null, bool, int, float, string, list, map, date, times, duration) and values in binary and ternary operator chains",
"The existing tests contain no failing arithmetic; error paths that are overwritten by a later operand need a specific position and value.",
["arithmeticeval.go","eval.go","literal.go"],[("operator dispatch on operand kind","arithmeticeval.go: accumulate closure and type switches"),("division guards","arithmeticeval.go: mulintint, mulintfloat, mulfloatint, mulfloatfloat, muldurint, muldurfloat")])
p("P03","Null propagates through arithmetic, comparison and string operations",
"An arithmetic operator, a comparison, NOT, or unary minus with a null operand evaluates to null (never an error, a panic or a non-null value), as does every single-value string or conversion function given a null argument; only IS NULL and IS NOT NULL turn null into a boolean, and they are exact negations of each other on every value.",
["inputs","programs"],"null in either operand position against every other operand kind and value, for every operator",
"Null appears in one test expression; operand position and the kind on the other side are what matters.",
["arithmeticeval.go","relationaleval.go","eval.go","stringfuncs.go","scalarfuncs.go"],[("null checks","arithmeticeval.go, relationaleval.go"),("IS NULL","eval.go: stringListNullOperatorExpressionPart.evaluate")])
p("P04","Comparison operators form one consistent total order per kind of value",
"For two integers, two strings, two booleans, two dates, two local times, two local date-times or two durations, exactly one of a<b, a=b, a>b is true, a<>b is NOT a=b, a<=b is NOT a>b, a>=b is NOT a<b, the order is antisymmetric and transitive, and it is the natural order of the values (signed integers over the full 64-bit range, bytewise strings, false before true, chronological time). Integers and floats compare by value as doubles, with NaN unequal to and unordered with everything; comparing incomparable kinds is an error.",
["inputs","programs"],"every pair and triple of values of each kind, including extreme integers, NaN, infinities, and all six operators",
"Antisymmetry, transitivity and trichotomy are relations over all pairs/triples; tests compare a couple of small literals, never >=, and never extreme values.",
["relationaleval.go","ast.go"],[("comparison","relationaleval.go: comparePrimitiveValues, comparisonExpression.Evaluate"),("operator parsing","ast.go: oC_PartialComparisonExpression")])
p("P05","Boolean connectives implement three-valued logic",
"AND, OR, XOR and NOT over true, false and null give exactly the three-valued (Kleene) truth tables for any number of operands, with NOT binding tighter than AND, AND than XOR, XOR than OR. The value of a connective does not depend on operand order, and a non-boolean, non-null operand that has to be inspected is an error.",
["inputs","programs"],"every assignment of true/false/null to up to four operands in every connective and mixed nesting",
"Tests use one or two concrete conjunctions; null combined with a deciding operand on either side is not exercised.",
["relationaleval.go","ast.go"],[("connectives","relationaleval.go: andExpression, orExpression, xorExpression, notExpression"),("precedence","ast.go: oC_OrExpression .. oC_NotExpression")])
p("P06","CASE selects the first matching branch and only that branch",
"CASE WHEN yields the value of the first alternative whose condition is true, and CASE x WHEN yields that of the first alternative equal to x; a null condition or a null on either side of the comparison never matches. When nothing matches the result is the ELSE value, or null without ELSE, and branches that are not selected are not evaluated.",
["inputs","programs"],"every condition/test value (true, false, null; any ints/strings) for up to three alternatives with and without ELSE",
"The one test covers fixed strings; null and the interplay of several matching alternatives are not sampled.",
["eval.go","ast.go"],[("case evaluation","eval.go: caseClause.Evaluate"),("clause order","ast.go: oC_CaseExpression")])
p("P07","List indexing, slicing, concatenation and IN respect positions and bounds",
"list[i] is the i-th element, negative i counts from the end, and an index outside the list is null; list[a..b] is the elements at positions a to b-1 clipped to the list (missing bounds mean the ends); list+list is the concatenation in order; a negative slice bound is an error. For elements comparable with x, x IN list is true exactly when an element equals x, otherwise null if the list or x is null or an element is null, otherwise false; none of these panics for any index.",
["inputs","programs"],"lists up to four elements with arbitrary elements, and every 64-bit index or bound",
"Indexing tests use in-range constants on one list; out-of-range, negative and extreme bounds and null elements are not exercised.",
["eval.go","arithmeticeval.go","ast.go"],[("index, slice, IN","eval.go: stringListNullOperatorExpressionPart.evaluate"),("concatenation","arithmeticeval.go: addlistlist"),("slice parsing","ast.go: oC_ListOperatorExpression")])
p("P08","range() terminates and yields exactly the arithmetic progression",
"range(a,b) and range(a,b,s) return, for every 64-bit a, b and s, the list a, a+s, a+2s, ... of all terms between a and b inclusive in the direction of s (empty when b lies against the direction or s is zero), with no wrap-around, and always terminate in time proportional to the result.",
["inputs"],"every 64-bit start, end and step with result length up to the stated bound, including values next to the integer limits",
"range is not tested; wrap-around shows only within one step of the integer limits.",
["functions.go"],[("progression loop","functions.go: rangeFunc")])
p("P09","String predicates and string functions match their definitions for all strings",
"STARTS WITH, ENDS WITH and CONTAINS hold exactly when the right string is a prefix, suffix or substring of the left; left, right, substring, size, trim, ltrim, rtrim and split return exactly the characters their definitions select (clipped to the string, counting characters, never splitting one; a negative start or length selects nothing or is an error), and split pieces joined by the delimiter give back the input. None of them panics for any string and any integer argument.",
["inputs"],"every string up to the stated byte length, every pattern length, every 64-bit integer argument",
"Only a few literals are tried in tests; clipping and extreme lengths are boundary conditions over a 2^64 range.",
["stringfuncs.go","functions.go","eval.go"],[("predicates","eval.go: stringOperatorExpression.evaluate"),("functions","stringfuncs.go; functions.go: sizeFunc")])
p("P10","Numeric conversion functions convert exactly or fail as documented",
"toInteger and toFloat leave numbers of the target kind unchanged, convert the other numeric kind by truncation (of floats in the integer range) or widening, and parse exactly the decimal strings that denote a number of the target kind; toInteger maps true and false to 1 and 0. Every other string or kind is rejected with an error (hexadecimal, inf and nan spellings for toFloat are left open); the OrNull variants agree with them on every convertible value and return null, never an error, on every other non-null value.",
["inputs"],"every integer, double and boolean, and every string up to the stated length, for all four functions",
"Conversions are untested; the property compares two functions over all inputs.",
["scalarfuncs.go"],[("conversions","scalarfuncs.go: toIntegerFunc, toIntegerOrNullFunc, toFloatFunc, toFloatOrNullFunc")])
p("P11","Duration and temporal arithmetic is componentwise and kind-preserving",
"Duration plus and minus duration, and duration times or divided by a number, act on each component (months, days, seconds, nanoseconds) separately, a float factor or divisor being applied in double arithmetic and truncated; date, local time or local date-time plus or minus a duration yields the same kind of value moved by exactly those components with calendar normalisation, in either operand order for plus. A duration can never absorb a subtraction of a temporal value: that is an error.",
["inputs"],"every duration component value within the stated ranges and every date/time in the stated calendar window",
"No test touches temporal arithmetic; sign and component mistakes need a non-zero value in that one component.",
["arithmeticeval.go","duration.go","datetime.go"],[("temporal arithmetic","arithmeticeval.go: adddatedur, addtimedur, adddatetimedur, adddurdur, muldurint, muldurfloat, mulintdur, mulfloatdur")])
p("P12","A parsed query can be re-evaluated: results depend only on the context",
"Evaluating the same parsed query or expression again, with the same or another context, parameters, variables, registered functions or graph, gives exactly the result that a freshly parsed copy would give at that point; constants folded or cached by one evaluation never change a later one, and returned values are not shared mutable state that a later evaluation can alter.",
["histories","inputs"],"every expression form with a cache, evaluated twice with every combination of parameter values and contexts",
"Every existing test evaluates each parsed query once.",
["arithmeticeval.go","literal.go","eval.go"],[("constant folding","constValue fields in arithmeticeval.go and literal.go"),("cached call arguments","eval.go: functionInvocation.Evaluate")])
p("P13","Variables and parameters resolve to the nearest scope and do not leak",
"A variable or parameter reference evaluates to the value set in the nearest enclosing context that defines it, unaffected by settings in child or sibling contexts; an undefined one is an error naming it. Setting, shadowing or removing a name in a context changes nothing visible in its parent, and after a query that creates elements or returns rows its named variables are visible in the calling context.",
["histories","inputs"],"every sequence of set/shadow/remove operations over two names and contexts nested up to depth three",
"Scoping is only exercised through top-level queries with a single context.",
["ctx.go","eval.go"],[("scope chain","ctx.go: GetVar, GetParameter, SubContext, SetVar, RemoveVar"),("export","eval.go: regularQuery.Evaluate")])
p("P14","MATCH returns exactly the matching combinations",
"For any graph, MATCH with node labels, relationship types and directions, and property constraints returns one row for every assignment of the pattern's elements to nodes and relationships that satisfies all of them (a relationship may be used by several elements), and no other row; variables already bound restrict the match to their values, and comma-separated patterns give every combination consistent in shared variables.",
["inputs","programs"],"every graph up to the stated number of nodes and edges with arbitrary endpoints, labels and property values, against a family of patterns",
"Tests match two small fixed graphs.",
["patterneval.go","ast.go"],[("matching","patterneval.go: Match.GetResults, getPattern, BuildPatternSymbols"),("pattern parsing","ast.go: oC_NodePattern, oC_RelationshipPattern, oC_RangeLiteral")])
p("P15","Variable-length patterns respect their hop bounds",
"A relationship pattern *n, *n..m, *n.. or *..m matches exactly the paths of at least one relationship, none repeated, whose number of relationships lies within those inclusive bounds, each relationship satisfying the type constraint, and every endpoint reachable by such a path is found.",
["inputs","programs"],"every graph up to the stated size, every choice of bounds within the stated limit",
"A fixed chain with one bound is all that tests could sample; bounds off by one need a path of exactly the boundary length.",
["patterneval.go","ast.go","literal.go"],[("range literal","ast.go: oC_RangeLiteral; literal.go: rangeLiteral.Evaluate"),("pattern bounds","patterneval.go: relationshipPattern.getPattern")])
p("P16","WHERE, projection, SKIP and LIMIT shape results as specified",
"The rows of a query are exactly those for which WHERE is true (null, false and values that are not booleans drop the row), each projected to one value per RETURN item under its alias or its 1-based position, with the column list in item order; RETURN * gives every variable the clauses bind, with its value, next to the other items (its column names are left open). SKIP s LIMIT l keeps exactly the rows at positions s to s+l-1 of the unrestricted result for every non-negative s and l, for reading and updating queries alike.",
["inputs","programs"],"every property value driving WHERE, every skip/limit value, results up to the stated number of rows",
"Tests project one or two fixed rows; boundary skip/limit values and null conditions are not sampled.",
["eval.go","patterneval.go","ast.go"],[("projection, skip, limit","eval.go: singlePartQuery.Evaluate, projectionItems.Project"),("where","patterneval.go: Match.GetResults")])
p("P17","UNION removes duplicates, UNION ALL keeps every row",
"UNION ALL returns all rows of all parts in order; UNION returns each distinct row exactly once, where rows are the same when all their columns hold the same values (null being the same as null), regardless of which part a row comes from; in a mixed chain the parts are combined from left to right. Combining never panics whatever columns the parts have.",
["inputs","programs"],"every assignment of values (int, string, bool, null, list) to up to three parts",
"Union is not tested; duplicates depend on the values.",
["eval.go","resultset.go","value.go"],[("union","resultset.go: Union, find"),("value identity","value.go: IsValueSame")])
p("P18","CREATE adds exactly the described nodes and relationships",
"CREATE adds, for each input row, one node per unbound node pattern with exactly its labels and properties and one relationship per relationship pattern with exactly its type, direction, endpoints and properties, reusing bound nodes, leaving everything else in the graph untouched; created elements are bound to their variables in that row; a property whose value is null is not stored.",
["inputs","programs"],"every initial graph up to the stated size, arbitrary property values, one to three input rows, a family of patterns",
"Tests create from an empty graph with at most one row.",
["update.go","ast.go"],[("creation","update.go: create.Update, create.TopLevelUpdate, nodePattern.Create, relationshipPattern.Create, PatternPart.Create")])
p("P19","SET changes exactly the addressed properties and labels of each row",
"For every row, SET x.p=v stores v (null removes p), SET x=map replaces all properties, SET x+=map merges (null removes), and SET x:L adds labels, evaluating the right-hand side with that row's values; no other node, property or label changes, and null is never stored as a property.",
["inputs","programs"],"every initial graph up to the stated size with arbitrary property values, maps with arbitrary values and nulls, several rows",
"Tests update one node with one constant.",
["update.go","eval.go"],[("set","update.go: set.Update, setItem.update"),("property lvalue","eval.go: propertyExpression.Evaluate")])
p("P20","REMOVE removes exactly the addressed properties and labels",
"REMOVE x.p and REMOVE x:L remove that property or those labels from each row's node, succeed when it is absent, skip variables and values that are null, and change nothing else.",
["inputs","programs"],"every initial graph up to the stated size with arbitrary properties and label sets",
"One test removes one label and one property from one node.",
["update.go"],[("remove","update.go: remove.Update")])
p("P21","DELETE removes exactly the addressed elements and never leaves dangling edges",
"DELETE of a relationship removes it and nothing else; DETACH DELETE of a node removes it and exactly its incident relationships; plain DELETE of a node that still has relationships after the clause is an error, and everything not addressed stays. An element reached through several rows or several variables is deleted once, and the graph's counts stay consistent with its contents; what follows a DELETE neither brings deleted nodes back nor leaves relationships to them.",
["inputs","programs"],"every initial graph up to the stated size with arbitrary edges, for DELETE and DETACH DELETE over nodes and relationships",
"One test deletes a single matched pattern; duplicates and shared endpoints depend on the graph's shape.",
["update.go"],[("delete","update.go: deleteClause.Update")])
p("P22","MERGE matches when possible and otherwise creates once",
"MERGE leaves the graph's elements unchanged when its pattern already matches and binds every match; otherwise it creates the whole pattern once, so running the same MERGE twice adds nothing the second time. ON CREATE SET runs exactly when it created and ON MATCH SET exactly when it matched, on the elements concerned. A null property value in its pattern, which could neither match nor be stored, is an error.",
["histories","inputs"],"every initial graph up to the stated size, arbitrary property values deciding match or create, one to two executions, with and without actions",
"Tests merge fixed data once.",
["update.go"],[("merge","update.go: merge.doMerge, merge.Update, merge.TopLevelUpdate, processActions")])
p("P23","Cartesian products enumerate every combination exactly once",
"The product of result sets, and the column-wise product within a result set, visits every combination exactly once, keeps exactly those accepted by the filter, stops when asked to, and terminates for every shape including empty ones.",
["inputs"],"up to three result sets with zero to three rows each; every filter and stop decision",
"The single test multiplies fixed sizes with no empty operand.",
["resultset.go"],[("odometer","resultset.go: CartesianProduct (method and function)")])
p("P24","Value sameness is an equivalence that agrees with the = operator",
"Two values are the same exactly when they are both null, equal primitives, lists of pairwise same elements, maps with the same keys and pairwise same values, equal string sets, or the identical node, relationship or path; sameness is reflexive (except NaN), symmetric and (within one kind of number) transitive, and never panics for any pair of values.",
["inputs"],"every pair/triple of values of each kind, nesting depth up to two, arbitrary primitives",
"Sameness is untested; equivalence is a relation over all pairs and triples.",
["value.go","relationaleval.go"],[("sameness","value.go: IsValueSame")])
p("P25","Native values and stored properties round-trip into query values unchanged",
"Converting any supported Go value (signed and unsigned integers up to 32 bits, 64-bit integers, both floats, strings, booleans, temporal values, nodes, paths, lists, maps) to a query value preserves its numeric or textual value, parameters and properties read in a query yield the stored value, and reading a property of unsupported type, or a property of a value that has no properties (anything but a node or a single relationship), reports failure rather than giving some value.",
["inputs"],"every value of every supported scalar type",
"Conversions are exercised only with small ints and strings.",
["value.go","eval.go"],[("conversion","value.go: ValueOf"),("property read","eval.go: propertyOrLabelsExpression.Evaluate, propertyExpression.Evaluate")])
p("P26","Escaped string literals denote the original string",
"For every string (of valid UTF-8), the text produced by the string-literal escaping function parses as a string literal whose value is exactly that string, and cannot terminate the literal early; likewise the escaped form of a label or property key denotes it; the escape sequences of the language (quotes, backslash, b, f, n, r, t, unicode) in a literal denote the characters they name.",
["inputs"],"every string over the stated alphabet up to the stated length",
"Escaping is untested and its correctness is a round trip over all strings.",
["literal.go","ast.go"],[("escape","literal.go: EscapeStringLiteral"),("decode","ast.go: oC_Literal")])
p("P27","The property filter sees and decides every property value written",
"When a property filter is installed, every property value written to a node or relationship by CREATE, MERGE or SET is exactly what the filter returned for that key and value, in every context derived from the one where it was installed; without one the value is stored as evaluated. Null is not written and not passed to the filter.",
["inputs","programs"],"arbitrary values and keys through every writing clause, with the filter returning an arbitrary value",
"The filter is never installed by a test.",
["ctx.go","update.go","eval.go"],[("filter call","ctx.go: PropertyValueFromNative and its call sites in update.go and eval.go")])
p("P28","Relative pattern lookup returns exactly the nodes reachable by the pattern",
"Evaluating a parsed relative pattern at a node returns exactly the set of nodes bound to its target by matches whose start is that node, following the directions, types and labels of the pattern, for any graph.",
["inputs","programs"],"every graph up to the stated size, every start node, a family of patterns",
"Tests use one fixed graph and two patterns.",
["lang.go","patterneval.go"],[("relative lookup","lang.go: ParsePatternExpr, FindRelative")])
p("P29","Function calls: lookup, arity and argument order are enforced",
"Calling an unknown function is an error naming it; calling a function with fewer or more arguments than it declares is an error and the function is not invoked; otherwise it is invoked exactly once per evaluation with the evaluated arguments in order, and its result or error is the result of the call.",
["inputs","programs"],"every registered arity pair and argument count up to four, arbitrary argument values and outcomes",
"Tests call two built-ins with the right arity.",
["eval.go","ctx.go","functions.go"],[("invocation","eval.go: functionInvocation.Evaluate"),("lookup","ctx.go: GetFunction")])
p("P30","Evaluation is total: no expression over supported values panics",
"Evaluating any expression made of the implemented operators and functions over any supported values, and any implemented query over any graph, terminates with a value or an error and never panics; text that does not parse, or whose literals are out of range, is reported as an error.",
["inputs","programs"],"every implemented operator and built-in function applied to every combination of operand kinds with arbitrary values",
"A panic needs one specific kind or value combination; tests use none of them.",
["eval.go","arithmeticeval.go","relationaleval.go","literal.go","ast.go","functions.go","stringfuncs.go"],[("dispatch","type switches in Evaluate methods"),("literal parsing","ast.go: oC_IntegerLiteral, oC_DoubleLiteral")])
p("P31","The parser accepts exactly the grammar's language for arbitrary text",
"For every text, parsing succeeds exactly when the text is a sentence of the Cypher grammar shipped with the repository, and never panics or hangs on texts that are not.",
["inputs"],"every byte string",
"Tests parse a few dozen fixed queries.",
["parser/cypher_parser.go","parser/cypher_lexer.go","Cypher.g4","lang.go"],[("generated parser","parser/; lang.go: Parse")])
p("P32","Results do not depend on map iteration order",
"The rows produced by a query (as a multiset), the values in them, and the graph left by an update are the same whichever order Go iterates maps in.",
["schedules","inputs"],"every permutation of iteration order (up to the stated map size) in each place the evaluator iterates a map, with arbitrary values",
"Go randomises map order per run, so a test samples a few orders at best.",
["resultset.go","patterneval.go","update.go","ctx.go"],[("map iteration","ranges over map[string]Value rows, symbol tables and property maps")])
p("P33","Number literals denote the number they spell",
"An integer literal in decimal, hexadecimal or octal notation, and a decimal or exponent float literal, evaluates to exactly the value it spells, in every position where a literal is allowed; one that does not fit is reported as an error.",
["inputs"],"every digit string up to the stated length in each notation",
"Tests contain a dozen small literals.",
["ast.go","literal.go"],[("literal conversion","ast.go: oC_IntegerLiteral, decimalInteger, oC_DoubleLiteral")])
p("P34","Reading never changes anything",
"A query without updating clauses, successful or failing, never changes the graph (elements, labels, properties, endpoints), the parameters, or any stored or list value it reads; operators and functions never alter their operands, so a value gives the same answer however many times it is used.",
["inputs","programs"],"every small graph, arbitrary property and parameter values, a family of reading queries, operators and functions",
"Aliasing of a list or map shows only when a value is used again after a particular operation.",
["lang.go","eval.go","arithmeticeval.go","patterneval.go","functions.go","stringfuncs.go"],[("list operators","arithmeticeval.go: addlistlist; eval.go: slice and index"),("projection","query.go: singlePartQuery, project"),("matching","patterneval.go: matchClause")])
p("P35","Dates: text, maps and Go times denote the day they spell",
"date(string) gives exactly the calendar day spelled in the forms Y-M-D, YYYYMMDD, Y-M, YYYYMM and YYYY (a missing month or day is 1), and an error for any other text and for a day that does not exist; date({year,month,day}) gives that day, null components give null and components of a wrong kind are errors (what numbers outside the calendar mean is left open). NewDate, NewLocalTime and NewLocalDateTime keep the civil fields of the Go time they are given.",
["inputs"],"every digit string up to the stated length in each form, arbitrary separators, every day and time of day around month, leap-year and epoch boundaries",
"Tests parse one or two fixed days; leap years, month ends and malformed text are boundary cases.",
["datefuncs.go","datetime.go"],[("text and map dates","datefuncs.go: dateFunc"),("conversions","datetime.go: NewDate, NewLocalTime, NewLocalDateTime and their Time methods")])
p("P36","Operators bind by precedence, and redundant parentheses mean nothing",
"An expression means the same as its fully parenthesised form in which OR binds weakest, then XOR, AND, NOT, comparison, + and -, * / and %, ^, unary sign, then IN, string predicates, indexing and null tests, and property access strongest; equal ones group to the left and adjacent comparisons are joined by AND (null if any operand is null). Redundant parentheses and white space change nothing (errors of later operands in comparison chains, and doubled signs or NOTs on operands of a wrong kind, are left open).",
["inputs","programs"],"every pair and a family of triples of operators over arbitrary operand values",
"Tests use a few fixed expressions; a wrong grouping shows only for particular operator pairs and values.",
["ast.go","arithmeticeval.go","relationaleval.go","eval.go"],[("tree construction","ast.go: oC_* visitors of expressions"),("evaluation","Evaluate methods of the expression nodes")])
p("P37","Result sets keep every row, node and relationship added to them",
"Append, Add, AddPath and Union keep in Rows exactly the rows added, in order, and in Nodes and Edges exactly the nodes, relationships and relationship lists of the cells added and of the added sets and paths (path cells are left open); Column returns the cells of one column in row order; names are variables or named results exactly when they are non-empty and do not start with a digit.",
["histories","inputs"],"every sequence of these operations up to the stated length, with cells of every kind",
"Tests append one row; the bookkeeping is a property of every sequence of additions.",
["resultset.go","ctx.go"],[("bookkeeping","resultset.go: Append, Add, AddPath, Union, Column"),("names","resultset.go: IsNamedResult; ctx.go: IsNamedVar")])
p("P38","labels() and type() tell exactly what the element has",
"labels(n) is the list of exactly the labels of the node, each once (in any order), as it is when the expression is evaluated; type(r) is exactly the type of the relationship, given as a relationship or a path of one; labels(null) is null and everything else is an error (type(null) left open). They agree with label and type patterns on every graph, in projections, conditions and after updating clauses.",
["inputs","programs"],"every small graph over a family of label sets and types, every value kind as argument",
"labels() is called by one test on one node; type() is not tested.",
["functions.go","eval.go"],[("element functions","functions.go: labelsFunc, typeFunc")])
p("P39","The text of a value denotes the value",
"Duration.String is P<months>M<days>DT<seconds>[.<fraction>]S and spells exactly the months, the days and the time to the nanosecond of the duration, whatever the signs and sizes of its seconds and nanoseconds (a fraction has the sign of the seconds); the text of a local time or local date-time spells its hours, minutes and seconds; the text of a date is its ISO form and date(text) reads the same date back; RValue.String of null, booleans, integers and strings is null, true/false, the decimal numeral and the string itself, and of a list the texts of its elements in order, in brackets, separated by a space. The texts of maps, floats and nodes are left open.",
["inputs"],"every duration in the stated ranges of seconds and nanoseconds of either sign, computed durations, every time of day, dates over a family of years and days, every integer in a range, every string up to the stated length",
"No test looks at the text of a negative or computed duration, and the sign of a fraction depends on two fields together.",
["duration.go","datetime.go","value.go"],[("texts","duration.go: Duration.String; datetime.go: String methods; value.go: RValue.String"),("reading back","datetime.go: dateFunc")])
p("P40","An error anywhere in a query is the error of the query",
"When evaluating any expression of a query fails (in any operand, element, alternative or argument, in any clause, for any row), the query returns that error and no result; when nothing fails the query has a result. In particular an unknown parameter, function or variable that evaluation reaches is an error naming it; an operand or argument of a kind the operator or function is not defined for is an error; a value that is not a node or relationship cannot stand in a pattern or be assigned to, a relationship cannot stand for a node, and a value without properties cannot be assigned to a node, and the failing item changes nothing (deleting values that are not elements is left open).",
["inputs","programs"],"a function that fails on a symbolic set of rows, in every expression position of a family of queries over every clause; every operand position with every kind of value",
"Which row, operand or clause fails is a matter of the data; tests check successful queries, and a lost error looks like an empty or partial result.",
["eval.go","update.go","patterneval.go","arithmeticeval.go","relationaleval.go","literal.go","functions.go","stringfuncs.go","datefuncs.go"],[("error propagation","Evaluate, GetResults, Update and TopLevelUpdate methods"),("unknown names","ctx.go: GetVar, GetParameter, GetFunction")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
