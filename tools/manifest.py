#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json (run: python3 tools/manifest.py > MANIFEST.json)."""
import json, os
here=os.path.dirname(os.path.abspath(__file__))
ids=[json.loads(l)["id"] for l in open(here+"/../properties.jsonl") if l.strip()]
GRAM="static analysis: abstract interpretation of the Go SSA with a string-grammar domain; the abstract output language is compared with the documented one by automaton inclusion"
NOTE=("Covers every input that fits the listed analysis contexts: names, texts and sizes are open, lists of tables and columns have any length in the systematic contexts (except in diffs, whose documents are finite), attributes are enumerated; interactions across tables are checked on a fixed sample of finite documents. "
 "Assumes the models of external calls (files, JSON, cli, xlsx, MySQL parser, templates) in the analyser; an obligation whose branches the analysis cannot decide is reported as UNDECIDED, not as held.")
C={
 "M01":(GRAM,""),"M02":(GRAM,""),"B01":(GRAM,""),"B02":(GRAM,""),"U01":(GRAM,""),
}
exec(open(here+"/claims.py").read())
NA={
 "E01":"Acceptance by the target languages' compilers quantifies over runtime text and over toolchains outside this code base; no static argument in reach bounds it.",
}
exec(open(here+"/na.py").read()) if os.path.exists(here+"/na.py") else None
checks=[]
for i in ids:
    if i not in C: continue
    t,n=C[i]
    checks.append(dict(property=i,quick_cmd="bash check.sh %s quick"%i,thorough_cmd="bash check.sh %s thorough"%i,
      evidence_file="evidence/%s.json"%i,technique=t or GRAM,level="other",level_note=(n+" " if n else "")+NOTE))
na=[dict(property=i,reason=NA.get(i,"No check of this family is built for it yet.")) for i in ids if i not in C]
print(json.dumps(dict(version=1,setup_cmd="bash setup.sh",checks=checks,not_applicable=na,
 notes="All checks are one static analyser (checker/) run on /repo's current source; nothing of /repo is executed."),indent=1,ensure_ascii=False))
