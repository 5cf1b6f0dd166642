#!/usr/bin/env python3
"""costs.py PROPERTY: where the last run spent its instructions"""
import json, sys
e = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
t = {}
for c in e['coverage']['cases']:
    print(c['case'], c['paths'], c['instructions'] // 10**6, end='; ')
print(e['wall_s'], e['coverage']['build_s'])
