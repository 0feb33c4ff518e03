#!/usr/bin/env python3
"""kf.py fixed <property> <commit> <what> | finding <property> <key> <what>"""
import json, sys
p = '/verif/known_findings.json'
d = json.load(open(p))
if sys.argv[1] == 'fixed':
    d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[2:5]))
else:
    d['findings'].append({'property': sys.argv[2], 'key': sys.argv[3], 'what': sys.argv[4]})
json.dump(d, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
