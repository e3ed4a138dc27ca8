#!/usr/bin/env python3
# finding.py PROPERTY ENTRY LABEL fixed|known TEXT   (records a finding by hand; never run by a check)
import json, os, sys
p = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/known_findings.json"; d = json.load(open(p)); a = sys.argv
d["findings"].append(dict(property=a[1], entry=a[2], label=a[3], status=a[4], what=a[5])); json.dump(d, open(p, "w"), indent=1); open(p, "a").write("\n")
