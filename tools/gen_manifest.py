#!/usr/bin/env python3
# Writes /verif/MANIFEST.json: one check per property that has harnesses in harness/h.
import json,os,re,glob
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+"/properties.jsonl")]
have=set()
for f in glob.glob(here+"/harness/h/*.go"):
    have|=set(re.findall(r'vf\.Reg\("(P\d\d)_',open(f).read()))
NA={"P31":"The lexer and parser are ANTLR-generated table interpreters (a serialized ATN walked by reflection-heavy runtime code with unbounded lookahead and caches); executing them symbolically on arbitrary text is out of reach of the engine, which runs the compiled parser natively on each query text and imports the tree it returns. Texts whose literals are symbolic are covered by P26 and P33."}
note="Every path of the harness through the real code (opencypher, lpg and the standard library, from SSA built from /repo on each run) is explored symbolically; z3/cvc5 decide each branch and assertion for all values within the bounds listed in the evidence file and DESIGN.md, and a violation is only reported after the solver's values reproduce it on the natively compiled code. Trusted: the SSA interpreter and its models of runtime, sync, fmt and time primitives (cross-checked by replaying sampled models natively), the solvers, and the generated ANTLR parser, which is run natively."
m={"version":1,
 "setup_cmd":"bash setup.sh",
 "hooks":{"guard":"none","enable":"no hooks: the checks read /repo's source as it is","source_commits":[]},
 "checks":[{"property":p["id"],"quick_cmd":"bash run.sh "+p["id"],"thorough_cmd":"VERIF_TIER=thorough bash run.sh "+p["id"],
   "evidence_file":"evidence/%s.json"%p["id"],"technique":"symbolic execution of the real code's SSA with SMT (z3, cvc5)","level":"model_checking","level_note":note} for p in props if p["id"] in have],
 "not_applicable":[{"property":p["id"],"reason":NA.get(p["id"],"Not yet covered by a harness.")} for p in props if p["id"] not in have]}
json.dump(m,open(here+"/MANIFEST.json","w"),indent=1)
print(len(m["checks"]),"checks",len(m["not_applicable"]),"n/a")
