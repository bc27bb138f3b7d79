#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.txt from the tables here, in suites.py and in tools/fixes.txt."""
import json, os, subprocess
import suites
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
claimed = suites.CLAIMED
NOTE = ('TLC accepts every recorded trace of the real library as a behaviour of the specification. Assurance is for the scenarios explored: '
        '%s Trusted: the driver\'s projection of library objects to JSON, TLC, and the big-integer evaluation of module Exact (cross-checked against its TLA+ definition by SelfTest).')
checks = []
for p in props:
    i = p['id']
    if i not in claimed:
        continue
    checks.append({'property': i, 'quick_cmd': './run.sh %s quick' % i, 'thorough_cmd': './run.sh %s thorough' % i,
                   'technique': 'TLA+ specification checked with TLC; traces recorded from the library are validated against it as behaviours of the specification',
                   'level': 'model_checking', 'level_note': NOTE % claimed[i]})
na = [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in claimed]
m = {'version': 1, 'setup_cmd': 'python3 tools/check.py --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks: the library is driven through its public interface.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
with open(V + '/known_findings.txt', 'w') as f:
    f.write('# Genuine defects of the library.  fixed: repaired by the named commit in /repo (suppresses nothing).\n'
            '# KNOWN property=<id> scenario=<regex> text=<regex>: recorded, not repaired; these are not reported again.\n'
            '# Polygon(indexes, points) looks for self intersections before it takes over the indexes, so that it never finds one.\n'
            'KNOWN property=C18 scenario=indexes0 text=a self intersecting list of points is accepted \\(indexes\\)\n'
            '# Being the same to the tolerance is not transitive, and no order of points: with a third point that is as far to the right as one of two equal ones, to\n'
            '# the tolerance, and not as the other one, a list (map, mesh) does not find that they are the same.\n'
            'KNOWN property=C21 scenario=ties0 text=a unique list (answers push with something else than it holds|does not hold its elements in insertion order after push)\n'
            'KNOWN property=C08 scenario=jitter0 text=wrong elements around a point\n')
    for l in open(V + '/tools/fixes.txt'):
        h, p, t = l.strip().split(' ', 2)
        full = subprocess.run(['git', '-C', '/repo', 'rev-parse', '--verify', '-q', h], stdout=subprocess.PIPE, text=True).stdout.strip() or h
        f.write('fixed: property=%s %s %s\n' % (p, full[:12], t))
