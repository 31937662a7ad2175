#!/usr/bin/env python3
"""times.py ID: per-unit verifier time of the last run (from evidence)."""
import json, sys
e = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
def f(o):
    if isinstance(o, dict):
        if 'unit' in o and 'cbmc_s' in o:
            print('%7.1f %5s %s %s' % (o['cbmc_s'], o['obligations'], o['mode'], o['unit']))
        else:
            for v in o.values():
                f(v)
    elif isinstance(o, list):
        for v in o:
            f(v)
f(e)
