#!/usr/bin/env python3
"""writes /verif/MANIFEST.json from the properties and the notes below"""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
hist = {'C25'}
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [],
    "not_applicable": [],
    "notes": "No hooks: the explorer drives the public API of the crate built from /repo. "
             "./check.sh <ID> [quick|thorough] runs a check, ./check.sh replay <file> reruns a recorded violation. "
             "Repaired defects are in known_findings.txt.",
}
src = ''.join(open(root + '/mc/src/' + f).read() for f in sorted(os.listdir(root + '/mc/src')))
for p in props:
    i = p['id']
    blk = re.search(r'id: "%s",\s*space: "((?:[^"\\]|\\.)*)"' % i, src)
    space = blk.group(1) if blk else ''
    tech = ("stateless model checking: exhaustive enumeration of bounded call histories on the real code, "
            "each answer compared with the same call in a fresh process") if i in hist else (
            "explicit-state model checking: exhaustive enumeration of the bounded operation/argument space, every "
            "transition executed on the real code and compared with an independent reference model")
    m["checks"].append({
        "property": i,
        "quick_cmd": "./check.sh %s quick" % i,
        "thorough_cmd": "./check.sh %s thorough" % i,
        "technique": tech,
        "level": "model_checking",
        "level_note": "Complete within its bounds: " + space + " Trusts the reference model in mc/src, the "
                      "num-bigint crate and the Rust toolchain; says nothing beyond the bounds.",
    })
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(m["checks"]), [c["property"] for c in m["checks"] if "bounds:  Trusts" in c["level_note"]])
