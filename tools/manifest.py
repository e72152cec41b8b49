#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, subprocess
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
full=subprocess.run(["git","-C","/repo","log","--format=%H","--grep=^hooks:","--grep=^verif hooks:"],capture_output=True,text=True).stdout.split()
REF="runtime monitor: executions compared with a reference %s, over random, hostile and exhaustive short inputs"
CON="runtime monitor: inputs generated together with their expected outcome, every execution compared with it"
MET="runtime monitor: executions on related inputs compared with each other (metamorphic)"
T={
"C01":"runtime monitor: panic, abort, hang and memory watchdogs over random, hostile, exhaustive short and very large inputs",
"C02":"runtime monitor: invariant over token ranges and the source text, on random, hostile and exhaustive short texts",
"C03":"runtime monitor: positions recomputed from the text and compared, at once and piecewise",
"C04":CON,"C05":CON,"C06":CON,"C07":CON,
"C08":MET,"C09":MET,"C10":MET,
"C11":CON,"C12":CON,"C13":CON,"C14":MET,"C15":MET,"C16":CON,
"C17":"runtime monitor: conservation of tokens between input and tree",
"C18":"runtime monitor: token iterators and ranges compared with the tokens of the exported tree",
"C19":"runtime monitor: error iteration compared with the errors of the exported tree, and with errors planted at known places",
"C20":"runtime monitor: results of repeated, reordered, concurrent and fresh-process executions compared",
"C21":"runtime monitor: scaled inputs compared with a reference; counting allocator and processor-time growth",
"C22":"sanitizers: AddressSanitizer, LeakSanitizer, ThreadSanitizer, Memcheck, Miri, debug assertions, counting allocator",
"C23":REF%"parser over token lists","C24":REF%"lexer","C25":MET,
"C26":"runtime monitor: comparisons, copies and conversions of values that differ in nothing or in one thing, against what the values contain",
"C27":MET,"C28":MET,
}
NOTE="Held on the executions listed in the evidence; nothing is claimed about inputs not run. Trusts the generators, oracles and reference implementations in harness/src"
EXTRA={
"C02":"","C03":"","C04":"","C05":"","C06":"","C07":"","C24":"","C25":"",
}
checks=[]
for p in props:
    i=p["id"]
    note=NOTE+("" if i in EXTRA else ", and the cfg(lolcode_verif) export of the syntax tree")+"."
    if i=="C21": note+=" Processor-time growth is judged at 30 times for 8 times the input, three times over."
    if i=="C01": note+=" Nesting deeper than the stack is a known finding."
    if i=="C06": note+=" Integers outside of 32 bits are a known finding."
    checks.append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i} --tier thorough",
      evidence_file=f"evidence/{i}.json",technique=T[i],level="exploration",level_note=note))
m=dict(version=1,setup_cmd="true",
  hooks=dict(guard="cfg lolcode_verif",enable='RUSTFLAGS="--cfg lolcode_verif" (check.sh builds harness/, which depends on /repo by path)',source_commits=full),
  checks=checks,not_applicable=[],
  notes="check.sh <id> rebuilds the library from /repo's working tree and runs one check; harness/target/debug/lcmon replay <file> reruns a reported case.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
