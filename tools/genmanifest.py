#!/usr/bin/env python3
# writes /verif/MANIFEST.json: every property with a harness is claimed
import json, os, glob, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NA = json.load(open(os.path.join(root, 'tools', 'not_applicable.json')))
TECH = "symbolic execution of the Go SSA with an SMT solver (bounded model checking of the real code)"
NOTE = ("Every path of the listed harness instances is executed symbolically over the real code and every assertion is decided by "
        "z3 for all values within the bounds printed in the evidence file; nothing is claimed beyond those bounds. Trusted: the executor in "
        "/verif/gosym (its model of Go semantics, reflect and fmt, validated on every run by replaying witnesses natively), "
        "golang.org/x/tools/go/ssa, z3. ")
checks, na = [], []
for p in props:
    i = p['id']
    files = glob.glob(os.path.join(root, 'harness', '*', 'zzv_%s.go' % i.lower()))
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif files:
        doc = []
        for f in files:
            m = re.search(r'func vDoc_%s\(\) \[\]string \{(.*?)\n\}' % i, open(f).read(), re.S)
            if m:
                doc += re.findall(r'"((?:[^"\\]|\\.)*)",', m.group(1))
        checks.append({"property": i, "quick_cmd": "./check %s" % i, "thorough_cmd": "./check %s -tier thorough" % i,
                       "technique": TECH, "level": "model_checking", "level_note": NOTE + ' '.join(d[0].upper() + d[1:] + '.' for d in doc)})
    else:
        na.append({"property": i, "reason": "no check has been built for it yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [n['property'] for n in na], 'not')
