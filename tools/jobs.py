#!/usr/bin/env python3
"""developer helper: jobs.py PROP [substring]: write the quick jobs of a property to /tmp/jobs"""
import sys, re
sys.path.insert(0, "/verif/driver")
import spec
s = spec.PROPS[sys.argv[1]]()
with open("/tmp/jobs", "w") as f:
    for j in s.jobs:
        if j.tier == "quick" and (len(sys.argv) < 3 or sys.argv[2] in j.name):
            f.write("%s\t%s\t%s\t1\n" % (re.sub(r"[\t\n\r]", "_", j.name), j.entry, ",".join(map(str, j.params))))
