#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = json.load(open(V + '/checks.json'))
na = json.load(open(V + '/not_applicable.json'))
m = {
    'version': 1,
    'setup_cmd': 'cd engine && GOFLAGS=-mod=mod GOPROXY=off go build -o ../bin/vengine .',
    'checks': [],
    'not_applicable': [{'property': k, 'reason': v} for k, v in na.items()],
}
for p in props:
    i = p['id']
    if i in na:
        continue
    c = checks.get(i)
    if c is None:
        m['not_applicable'].append({'property': i, 'reason': 'no check yet'})
        continue
    m['checks'].append({
        'property': i,
        'quick_cmd': './check.sh -t quick ' + i,
        'thorough_cmd': './check.sh -t thorough ' + i,
        'technique': 'symbolic execution of the Go SSA form of the current source, branches and assertions decided by z3',
        'level': 'model_checking',
        'level_note': c['bounds'] + ' Outside: ' + c['outside'] + ' Trusts the executor\'s SSA semantics and library stubs (DESIGN.md), spot-checked on every run by running solver models natively.',
    })
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
