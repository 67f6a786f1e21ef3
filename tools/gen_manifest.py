#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the @props labels in specs/*.vx."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
def text(p):
    t = open(p).read()
    while True:
        m = re.search(r'^@@include (\S+)\n', t, re.M)
        if not m: return t
        t = t[:m.start()] + open(H + '/specs/' + m.group(1)).read() + t[m.end():]
def blocks(t):
    return re.findall(r'^@@fn (\S+ :: .*)\n((?:(?!@@end).*\n)*)@@end', t, re.M)
cov = {}
for f in sorted(glob.glob(H + '/specs/*.vx')):
    for h, b in blocks(text(f)):
        m = re.search(r'^@props (.*)$', b, re.M)
        for p in (m.group(1).split() if m else []):
            if h not in cov.setdefault(p, []): cov[p].append(h)
NA = json.load(open(H + '/tools/not_applicable.json'))
NOTE = json.load(open(H + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in NA: na.append({'property': i, 'reason': NA[i]}); continue
    if not cov.get(i):
        na.append({'property': i, 'reason': 'no contract on the functions it depends on has been discharged yet; only a bounded run of the real code exists (check.py family), which is not this technique'}); continue
    fns = [h.split(' :: ', 1)[1] for h in cov[i]]
    checks.append({'property': i,
        'quick_cmd': 'python3 check.py --property %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py --property %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification (Verus/z3) of functions extracted mechanically from the current source',
        'level': 'proof',
        'level_note': '%d functions of /repo carry contracts labelled with this property. %s Trusted: the contracts of tdb_succinct, std, tokio and io types listed in the evidence, the extractor, Verus and z3. What is outside the contracts is run by a bounded companion, labelled bounded and not counted as proved.' % (len(fns), NOTE.get(i, '')),
        })
M = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'hooks': {'guard': 'none: no hook was needed', 'enable': 'nothing to enable', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'DESIGN.md says what is proved, what is assumed and what is only run. known_findings.txt lists the defects found and repaired.'}
json.dump(M, open(H + '/MANIFEST.json', 'w'), indent=1)
open(H + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', [c['property'] for c in checks]); print('not applicable', [n['property'] for n in na])
