#!/usr/bin/env python3
"""addfix.py PROPERTY COMMIT TEXT: records a repaired defect in known_findings.json"""
import json, os, sys
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
k = json.load(open(p))
prop, c, w = sys.argv[1:4]
k.append(dict(property=prop, status='fixed', commit=c, what='fixed: property=%s %s %s' % (prop, c, w)))
json.dump(k, open(p, 'w'), indent=1)
