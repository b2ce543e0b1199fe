#!/usr/bin/env python3
"""merge.py PART EVIDENCE: adds what the part of a check covered to the evidence of the whole."""
import json, sys
part, whole = (json.load(open(f)) for f in sys.argv[1:3])
c, p = whole['coverage'], part['coverage']
for k in ('states', 'state_comparisons', 'transitions', 'traces_validated_against_impl'):
    c[k] += p[k]
c['exhaustive'] = c['exhaustive'] and p['exhaustive']
for k in ('spaces', 'samples'):
    c[k] += p[k]
for k, v in p['outcomes'].items():
    c['outcomes'][k] = c['outcomes'].get(k, 0) + v
whole['assumptions'] += [a for a in part['assumptions'] if a not in whole['assumptions']]
whole['wall_s'] = round(whole['wall_s'] + part['wall_s'], 3)
json.dump(whole, open(sys.argv[2], 'w'), indent=1)
