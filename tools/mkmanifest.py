#!/usr/bin/env python3
"""Writes MANIFEST.json: properties having a check (harness/check.py MODULES) are claimed"""
import json
import os
import re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(V, 'harness/check.py')).read()
ns = {}
exec(src[src.index('MODULES = {}'):src.index('def main')], ns)
M = ns['MODULES']
TECH = {
    'pipeline': 'TLA+ (Pipeline.tla) model checked with TLC; executions of pyg2p, random and generated by TLC, validated by TLC against the specification',
}
TECH.update(json.load(open(os.path.join(V, 'tools/technique.json'))) if os.path.exists(os.path.join(V, 'tools/technique.json')) else {})
NOTE = 'Exhaustive model checking of the specification for small constants; sampled executions of the real code (end to end, in fresh processes) are decided by the specification. Trusted: TLC, the concretisation and observation of the harness (GRIB, PCRaster and netCDF libraries), and the bounds listed in DESIGN.md.'
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
out = dict(version=1, setup_cmd='bash tools/setup.sh', checks=[], not_applicable=[],
           notes='TLA+ specifications in spec/, harness in harness/, known findings in known_findings.json, see DESIGN.md.')
for p in props:
    if p in M:
        out['checks'].append(dict(property=p, quick_cmd='bash tools/run.sh %s quick' % p, thorough_cmd='bash tools/run.sh %s thorough' % p,
                                  technique=TECH[M[p]], level='model_checking', level_note=NOTE))
    else:
        out['not_applicable'].append(dict(property=p, reason='Not yet claimed: its specification and binding are being written.'))
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
