#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the properties registered in checker/*.go."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
rules = {}
for f in sorted(glob.glob('checker/*.go')):
    for m in re.finditer(r'register\("(P\d+)",\s*"((?:[^"\\]|\\.)*)"', open(f).read()):
        rules[m.group(1)] = json.loads('"' + m.group(2) + '"')
NA = {
 "P38": "a claim about the probability distribution of random identifiers: no static argument over the source bounds it (that ids are generated with the right prefix, length and source of randomness is decided under P34)",
 "P39": "a statistical claim about many runs and many servers: the source only fixes the selection rule, which is decided under P05",
 "P40": "depends on the behaviour of the Redis and NATS servers and client libraries across reconnects, which is outside the analysed source (the repository's own part, reconciliation and dispatch, is decided under P15, P16, P30 and P31)",
 "P41": "a bound on real elapsed time: scheduling and timer latency are not bounded by anything in the source (that every wait has the right timed alternative is decided under P07)",
}
props = [json.loads(l) for l in open('properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in rules:
        checks.append({"property": i, "quick_cmd": f"bash check.sh {i} quick", "thorough_cmd": f"bash check.sh {i} thorough",
            "technique": rules[i].split(':')[0], "level": "other",
            "level_note": "Static: decides the property on the type-checked SSA of the current source, over abstract paths of every function reachable from the API roots; nothing is executed and no solver is used. Rule: " + rules[i]})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na}, open('MANIFEST.json', 'w'), indent=1)
print(len(checks), "checks;", [n['property'] for n in na])
