#!/usr/bin/env python3
"""Writes known_findings.json: the findings below, and one fixed entry per fix: commit listed in FIXED."""
import json
FIND=[
("P15","P15_FindingZeroLength:zero-hops-missing","-[*0..1]-> does not match the zero-length path (github.com/cloudprivacylabs/lpg/v2 v2.0.0, a dependency, treats a minimum of 0 as 1)"),
("P15","P15_FindingEmptyInterval:rows-outside-bounds","-[*1..0]-> matches single relationships although no length satisfies the bounds (lpg/v2 v2.0.0)"),
("P15","P15_FindingBackward:panic-following-backward","a variable-length part reached after following an earlier hop, (a)-[:S]->(n)-[r:R*1..2]->(m:D), panics in lpg.Path.Append when the search starts at the far end (lpg/v2 v2.0.0)"),
("P14","P14_FindingConstraintKinds:float-constraint-never-matches","a property constraint with a float value, (n {p: 1.5}), never matches: lpg/v2 v2.0.0 ComparePropertyValue compares only strings, ints and string lists"),
("P14","P14_FindingConstraintKinds:bool-constraint-never-matches","a property constraint with a boolean value, (n {p: true}), never matches (same cause)"),
("P22","P22_FindingKinds:float-merged-twice","MERGE (n:A {p: 1.5}) creates a second node the second time, because float constraints never match (lpg/v2 v2.0.0)"),
("P22","P22_FindingKinds:bool-merged-twice","MERGE (n:A {p: true}) creates a second node the second time, because boolean constraints never match (lpg/v2 v2.0.0)"),
("P21","P21_FindingNewest:newest-by-scan","after DETACH DELETE of the most recently created node, a node created afterwards is not found by MATCH (n), which scans all nodes (lpg/v2 v2.0.0 nodeList.remove keeps a stale tail)"),
]
FIXED=[
("P02","e18d7e0",'1 ^ (1/0) and chains with a null or failing operand returned the base'),
("P02","b7000b7",'a division by zero or an error on the left of another * / % operand was overwritten by the later operand'),
("P01","f9e4e11",'1-2+3 was evaluated with all additions first'),
("P02","398a664",'+ and - on kinds they are not defined for returned a value or null instead of an error'),
("P07","8c718bf",'[1]+[2] did not return the concatenated list'),
("P12","99e36c4",'the second evaluation of a constant expression returned a *RValue that other operators did not recognise'),
("P12","3ad168c","a concatenation [1]+$a was cached as a constant and ignored the parameter's later values"),
("P04","a1a22f7",'a >= b was parsed as no operator at all'),
("P04","3cc76e0",'comparing integers far apart (MinInt64 < 1) overflowed'),
("P04","5250b0e",'a later date, time or date-time compared as less'),
("P04","0112a31",'durations had no consistent order'),
("P04","0d4f981",'NaN compared as greater than every number'),
("P04","de66bc9",'1 < 2 < 3 compared the boolean result with the next operand'),
("P05","850f2a9",'null AND false, null OR true were null or errors depending on operand order'),
("P07","e15effa",'x IN [..] panicked or failed for lists'),
("P06","ff64ae4",'CASE null WHEN null selected the alternative'),
("P07","cc2e170",'list[a..], list[..b] and slices up to the end lost the last element or panicked'),
("P12","0640cce",'the list literal [1, $a] was cached as constant'),
("P10","86655c9",'toIntegerOrNull failed instead of returning null for other strings'),
("P08","e95d720",'range() excluded its end, or wrapped around and did not terminate next to the integer limits'),
("P30","11dda63",'labels(n) returned a Go string slice that other operators do not know'),
("P09","476865d",'left, right, substring counted bytes and split characters; right returned the wrong end'),
("P30","2c18b04",'text with characters the lexer rejects was accepted with the characters dropped'),
("P33","5e6f323",'number literals out of range panicked'),
("P26","41eba34",'escape sequences in string literals were kept verbatim'),
("P26","79bdfb7",'doubled backticks in escaped names were not reduced'),
("P24","915bd6d",'IsValueSame was false for equal primitives, nulls, edges and paths'),
("P17","1437420",'UNION dropped rows that differ only in having another column'),
("P17","542ef83",'UNION kept duplicates of its first part'),
("P23","294db6a",'CartesianProduct of no result sets, or of rows without columns, did not terminate'),
("P30","b7440a6",'IsNamedVar("") panicked'),
("P30","d1a7433",'a property of an empty list of edges panicked'),
("P25","a8d4c00",'reading a stored property of an unsupported type panicked'),
("P19","6fcde15",'SET was run once per row for each row'),
("P19","02f8247",'SET of an unknown variable panicked; SET n.p = null stored a null property'),
("P18","6534ab1",'CREATE and MERGE stored null properties'),
("P21","f86615b",'DELETE of the same element from several rows panicked or deleted nodes before their relationships'),
("P18","96e1b33",'CREATE created its elements once instead of once per row, and lost the created variables'),
("P16","37617fe",'a second updating clause did not see the rows of the first; SKIP/LIMIT were ignored without MATCH'),
("P14","fbb445a",'MATCH .. MATCH .. concatenated the rows instead of joining them'),
("P14","702ba4c",'<--> matched only one direction'),
("P14","b8590cd",'(a)-[r]-(b) and chains with <- panicked'),
("P14","4b0dac3",'a variable bound before, or repeated in the pattern, matched other elements'),
("P11","8cbe671",'duration * float truncated the factor'),
("P03","a19aecf",'STARTS WITH, ENDS WITH, CONTAINS with a null operand failed'),
("P26","9e799e4",'labels and keys spelled like reserved words were lower-cased'),
("P16","51d617e",'RETURN *, x dropped x'),
("P16","8cadd39",'SKIP and LIMIT were read as 0'),
("P21","719f96d",'a node deleted by a query was deleted again or brought back by a later clause'),
("P35","cf2c4be",'date({year: .., month: .., day: ..}) was the day before when the local clocks go forward at midnight of that day (e.g. 2024-03-10 in Havana)'),
("P39","c2d81fe",'durations with negative nanoseconds printed the sign in the middle of the fraction, and nanoseconds beyond a second as more than nine digits'),
	("P13","cc1b98d",'merge (m:A)-[r:R]->(o) without RETURN did not make m, r and o visible in the context, as CREATE and MATCH do'),
	("P20","685ef95",'remove o.p failed with "Invalid indirection" for a row whose o is null, although remove o:L skips it'),
	("P12","e9111b3",'a query kept the function it found at its first evaluation, so one registered again under the same name was not called by later evaluations'),
	("P22","41946b5",'merge (n:A {p: null}) created another node in every run'),
]
json.dump({"findings":[dict(property=p,id=i,what=w) for p,i,w in FIND],"fixed":["fixed: property=%s %s %s"%x for x in FIXED]},open('/verif/known_findings.json','w'),indent=1)
