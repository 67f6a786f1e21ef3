#!/usr/bin/env python3
"""Decides one property of /repo.

  check.py --property Axx [--tier quick|thorough] [--repo DIR]

1. the functions under contract are extracted from the current source (tools: extract/)
   into Verus units (specs/*.vx -> .build/gen/*.rs) and Verus discharges, or rejects,
   every obligation;
2. the real crate is built and the bounded companion (harness/) runs it, to find a
   concrete failing input for a rejected obligation, and as labelled bounded stand-in
   for what is not under contract.
"""
import argparse, glob, json, os, re, subprocess, sys, threading, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
ap = argparse.ArgumentParser()
ap.add_argument('--property', required=True)
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
ap.add_argument('--repo', default='/repo')
ap.add_argument('--build', default=os.path.join(HERE, '.build'))
ap.add_argument('--evidence', default=os.path.join(HERE, 'evidence'))
ap.add_argument('--no-harness', action='store_true')
A = ap.parse_args()
P, TIER = A.property, ('thorough' if A.tier == 'thorough' else 'quick')
SEED = int(os.environ.get('VERIF_SEED') or '1')
T0 = time.time()
B = A.build
GEN = os.path.join(B, 'gen', P)
os.makedirs(GEN, exist_ok=True)
os.makedirs(A.evidence, exist_ok=True)
ENV = dict(os.environ, HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0')
ENV['PATH'] = '/root/.cargo/bin:' + ENV.get('PATH', '/usr/bin:/bin')
QUICK_SEARCH, DEEP_SEARCH, THOROUGH_SEARCH = 12, 75, 300
DEADLINE = 420      # seconds the solver may use in all on a quick run

def run(cmd, timeout, **kw):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV, **kw)
        return r.returncode, r.stdout.decode('utf8', 'replace'), r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace') + '\ntimed out'

# ---------------------------------------------------------------- units
def unit_text(path):
    t = open(path).read()
    while True:
        m = re.search(r'^@@include (\S+)\n', t, re.M)
        if not m: return t
        t = t[:m.start()] + open(os.path.join(HERE, 'specs', m.group(1))).read() + t[m.end():]

def units_for(prop):
    us = []
    for f in sorted(glob.glob(os.path.join(HERE, 'specs', '*.vx'))):
        t = unit_text(f)
        if any(prop in m.group(1).split() for m in re.finditer(r'^@props (.*)$', t, re.M)):
            us.append(os.path.basename(f)[:-3])
    return us

class Unit:
    pass

def verify(u, seed, out):
    r = Unit(); r.name = u; r.status = 'ok'; r.detail = ''; r.failed = []; r.rlimited = []; r.verified = 0; r.errors = 0; r.smt_ms = 0; r.fns = []; r.nver = 0; r.rejected_other = []; r.per_fn = {}
    out[u] = r
    rs, js = os.path.join(GEN, u + '.rs'), os.path.join(GEN, u + '.json')
    for f in (rs, js):
        if os.path.exists(f): os.remove(f)
    c, o, e = run([VX, os.path.join(A.repo, 'src'), os.path.join(HERE, 'specs', u + '.vx'), rs, js], 60)
    if c != 0:
        r.status = 'undecided'; r.detail = 'extraction: ' + (o.strip() or e.strip()[-400:]); return
    r.fns = [x for x in json.load(open(js))]
    cmd = ['verus', rs, '--triggers-mode', 'silent', '--output-json', '--time-expanded', '--multiple-errors', '4', '--rlimit', '60', '--num-threads', '3', '--error-format=json']
    if seed: cmd += ['--smt-option', 'smt.random_seed=%d' % seed]
    r.cmd = ' '.join(cmd)
    c, o, e = run(cmd, max(60, (DEADLINE if TIER == 'quick' else 3 * DEADLINE) - (time.time() - T0)), cwd=GEN)
    timed_out = c == 124
    diags = []
    for l in e.splitlines():
        if l.startswith('{'):
            try: d = json.loads(l)
            except ValueError: continue
            if d.get('level') == 'error': diags.append(d)
    try: res = json.loads(o)
    except ValueError: res = None
    if timed_out and diags:
        # what was rejected before the time was up counts; what was not reached is undecided
        r.status = 'rejected'; r.errors = len(diags); r.rlimited.append((None, 'timed out', ''))
        attribute(r, u, rs, diags); return
    if res is None or 'verification-results' not in res or res['verification-results'].get('encountered-vir-error') or 'smt' not in res.get('times-ms', {}):
        r.status = 'undecided'
        r.detail = 'not accepted as input by the verifier: ' + (diags[0]['message'] + ' at ' + where(diags[0]) if diags else (e.strip()[-300:] or 'no result'))
        return
    v = res['verification-results']
    r.verified, r.errors = v['verified'], v['errors']
    bad = []
    for m in res['times-ms']['smt'].get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            n = f['function'].split('::', 1)[1] if '::' in f['function'] else f['function']
            k = r.per_fn.setdefault(n, [0, 0, True, f.get('mode:', '')])
            k[0] += f.get('time-micros', 0); k[1] += f.get('rlimit', 0); k[2] = k[2] and f['success']
    r.smt_ms = res['times-ms']['smt']['smt-run']
    if r.errors == 0 and v.get('success'): return
    r.status = 'rejected'
    attribute(r, u, rs, diags)

def attribute(r, u, rs, diags):
    # attribute every diagnostic to the extracted function its spans lie in
    lines = open(rs).read().split('\n')
    for d in diags:
        if d['message'].startswith('aborting due to'): continue
        prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
        owner = None
        for s in prim + [s for s in d['spans'] if not s['is_primary']]:
            if not s['file_name'].endswith(u + '.rs'): continue
            owner = next((f for f in r.fns if f['out'][0] <= s['line_start'] <= f['out'][1]), None)
            if owner: break
        rl = 'rlimit' in d['message'] or 'Resource limit' in d['message']
        item = (owner, d['message'], d.get('rendered', ''))
        if rl: r.rlimited.append(item)
        elif owner: r.failed.append(item)
        else: r.rejected_other.append(item)

def where(d):
    for s in d['spans']:
        if s['is_primary']: return '%s:%d' % (s['file_name'], s['line_start'])
    return '?'

# ---------------------------------------------------------------- build
VX = os.path.join(B, 'vx', 'debug', 'vx')
def build_vx():
    c, o, e = run(['cargo', 'build', '--offline', '-q', '--target-dir', os.path.join(B, 'vx')], 300, cwd=os.path.join(HERE, 'extract'))
    if c != 0:
        print('cannot build the extractor:', e[-2000:]); sys.exit(2)
hb = {}
def build_harness():
    hb['rc'], hb['out'], hb['err'] = run(['bash', os.path.join(HERE, 'tools', 'build_harness.sh'), B, A.repo], 700)

KNOWN = []
for l in open(os.path.join(HERE, 'known_findings.txt')):
    m = re.match(r'known: property=(\S+) site=(\S+) (.*)', l.strip())
    if m and m.group(1) == P: KNOWN.append((m.group(2), m.group(3)))

def harness(seconds, tier, seed, scale='1'):
    out = os.path.join(B, 'h_%s.json' % P)
    if os.path.exists(out): os.remove(out)
    cmd = [os.path.join(B, 'vh'), '--property', P, '--seconds', str(seconds), '--tier', tier, '--seed', str(seed), '--scale', scale, '--out', out]
    for s, _ in KNOWN: cmd += ['--known', s]
    c, o, e = run(cmd, seconds + 150)
    if os.path.exists(out): return json.load(open(out)), c, o
    return None, c, o + e

# ---------------------------------------------------------------- go
th = threading.Thread(target=build_harness)
if not A.no_harness: th.start()
build_vx()
us = units_for(P)
res = {}
def pool(seed):
    out = {}
    q = list(us); lock = threading.Lock()
    def w():
        while True:
            with lock:
                if not q: return
                u = q.pop()
            try: verify(u, seed, out)
            except Exception as ex:
                r = out[u]; r.status = 'undecided'; r.detail = 'internal: %r' % ex
    ts = [threading.Thread(target=w) for _ in range(3)]
    [t.start() for t in ts]; [t.join() for t in ts]
    return out
res = pool(0)
# an obligation that ran out of resources is tried again with other solver seeds
for s in (7, 23):
    again = [u for u in us if res[u].rlimited]
    if not again or (TIER == 'quick' and time.time() - T0 > DEADLINE / 2): break
    for u in again:
        o = {}; verify(u, s, o)
        if o[u].status == 'ok' or len(o[u].rlimited) < len(res[u].rlimited): res[u] = o[u]

def relevant(item):
    f = item[0]
    return f is not None and (P in f['props'] or 'L' in f['props'])
failed, undecided = [], []
for u in us:
    r = res[u]
    if r.status == 'undecided': undecided.append('%s: %s' % (u, r.detail))
    rel = [x for x in r.failed if relevant(x)]
    failed += [(u, x) for x in rel]
    for x in r.rlimited:
        if x[0] is None or relevant(x): undecided.append('%s: %s: resource limit' % (u, x[0]['item'] if x[0] else 'lemma'))
    for x in r.rejected_other: undecided.append('%s: lemma or definition: %s' % (u, x[1]))

# a function that still verifies next to a broken one is only as good as the contracts it uses: those carry the same property label
assumed = []
for u in us:
    p = os.path.join(GEN, u + '.rs')
    if not os.path.exists(p): continue
    t = open(p).read()
    impls = [(m.start(), m.group(1)) for m in re.finditer(r'^impl(?:<[^>]*>)? (?:\w+(?:<[^>]*>)? for )?(\w+)', t, re.M)]
    ends = [m.start() for m in re.finditer(r'^}', t, re.M)]
    for m in re.finditer(r'external_body\]\s*(?:pub )?(?:const )?(?:exec )?(fn|struct|proof fn|enum) (\w+)', t):
        ty = ''
        for st, n in impls:
            if st < m.start() and not any(st < e < m.start() for e in ends): ty = n + '::'
        a = ('opaque type ' if m.group(1) in ('struct', 'enum') else 'assumed contract of ') + ty + m.group(2)
        if a not in assumed: assumed.append(a)
    for m in re.finditer(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', t):
        a = 'assumed specification of %s' % m.group(1).replace(' ', '')
        if a not in assumed: assumed.append(a)
    for m in re.finditer(r'\b(axiom fn|admit|assume)\b\s*(\w*)', t):
        if m.group(1) == 'assume' and not t[m.end(1):m.end(1) + 1] == '(': continue
        a = 'axiom: ' + m.group(0)
        if a not in assumed: assumed.append(a)

hr = None; hfail = []; hnote = ''
if not A.no_harness:
    th.join()
    if hb.get('rc') != 0:
        hnote = 'the harness did not build: ' + (hb.get('err') or hb.get('out') or '')[-600:]
    else:
        hb_deep = bool(failed)
        secs = THOROUGH_SEARCH if TIER == 'thorough' else (DEEP_SEARCH if hb_deep or undecided else QUICK_SEARCH)
        hr, c, o = harness(secs, 'thorough' if (TIER == 'thorough' or hb_deep) else 'quick', SEED)
        if hr is None:
            hnote = 'the harness ended without a report (%s): %s' % (c, o[-400:])
            # crashed (abort, stack overflow, memory) or hangs: the real code does that on these inputs
            if c in (124, -6, -11, 134, 139): hfail = [dict(family='(run)', case=-1, seed=SEED, tags=P, site='crash', known=False, msg='the code under test hangs or crashes the process: ' + hnote, log=[])]
        else:
            hfail = [f for f in hr['fails'] if not f['known']]
            for f in hr['fails']:
                if f['known']:
                    t = [x for s, x in KNOWN if s == f['site']]
                    line = 'KNOWN-FINDING: property=%s %s' % (P, t[0] if t else f['msg'])
                    hr.setdefault('knownlines', [])
                    if line not in hr['knownlines']: hr['knownlines'].append(line); print(line)

# ---------------------------------------------------------------- report
obl = sum(res[u].verified + res[u].errors for u in us)
dis = sum(res[u].verified for u in us)
fns = []
for u in us:
    for f in res[u].fns:
        if f['item'].startswith(('struct', 'enum', 'const', 'static')): continue
        mine = P in f['props'] or 'L' in f['props']
        fns.append({'function': '%s :: %s' % (f['file'], f['item']), 'line': f['line'], 'unit': u, 'labelled_with_this_property': P in f['props'], 'rewritten': f['rewritten'],
                    'rejected': any(x[0] is f for x in res[u].failed)})
viol = 0
replay = None
rdir = os.path.join(A.evidence, 'replay'); os.makedirs(rdir, exist_ok=True)
lines = []
if hfail:
    viol = 1
    f = hfail[0]
    replay = os.path.join(rdir, '%s.txt' % P)
    with open(replay, 'w') as w:
        w.write('property %s violated on /repo (tier %s)\n\nfailing input (executed against the real code):\n  family=%s case=%s seed=%s\n  %s\n\n' % (P, TIER, f['family'], f['case'], f['seed'], f['msg']))
        w.write('run again: bash %s/tools/build_harness.sh %s %s && %s/vh --property %s --family %s --case %s --seed %s --tier %s -v\n\nhistory:\n' % (HERE, B, A.repo, B, P, f['family'], f['case'], f['seed'], TIER))
        for l in f['log']: w.write('  ' + l + '\n')
        w.write('\nrejected obligations: %d\n' % len(failed))
        for u, x in failed: w.write('\n[%s] %s :: %s: %s\n%s\n' % (u, x[0]['file'], x[0]['item'], x[1], x[2]))
    lines.append('VIOLATION property=%s replay=%s' % (P, replay))
elif failed:
    viol = 1
    replay = os.path.join(rdir, '%s.txt' % P)
    with open(replay, 'w') as w:
        w.write('property %s: the verifier rejects obligations generated from the current source (no failing input was found)\n' % P)
        for u, x in failed: w.write('\nunit %s, %s :: %s (source line %d): %s\n%s\n' % (u, x[0]['file'], x[0]['item'], x[0]['line'], x[1], x[2]))
        w.write('\ngenerated units: %s\n' % GEN)
    lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (P, replay))
for u, x in failed: print('rejected obligation: %s: %s :: %s: %s' % (u, x[0]['file'], x[0]['item'], x[1]))
for x in undecided: print('UNDECIDED (bounded stand-in used):', x)
if hnote: print('note:', hnote)
labelled = [f for f in fns if f['labelled_with_this_property']]
broken = not us or (not labelled)
bounded = None
if hr:
    bounded = {'label': 'bounded, not counted as proved', 'cases': sum(f['cases'] for f in hr['families']), 'nontrivial': sum(f['nontrivial'] for f in hr['families']),
               'families': [{k: f[k] for k in ('family', 'cases', 'nontrivial', 'bound', 'checks', 'samples')} for f in hr['families']]}
ev = {'property': P, 'tier': TIER, 'seed': SEED, 'level': 'proof',
      'coverage': {'obligations': obl, 'discharged': dis, 'checker_cmd': 'verus (SMT back end: z3) on %s, generated by extract/ from %s/src' % (', '.join(u + '.rs' for u in us), A.repo),
                   'trusted_base': assumed + ['Verus 0.2026.09.13 and its z3; rustc; the extractor extract/ (rewritings listed per function below)'],
                   'functions_under_contract': fns, 'functions_labelled_with_this_property': len(labelled),
                   'undecided': undecided, 'units': {u: {'status': res[u].status, 'verified': res[u].verified, 'errors': res[u].errors, 'smt_ms': res[u].smt_ms} for u in us},
                   'solver_ms': sum(res[u].smt_ms for u in us), 'bounded_standin': bounded},
      'assumptions': ['contracts listed in trusted_base are assumed (tdb_succinct, tokio, std and io types)', 'the data-structure invariants (wf) of loaded layers are preconditions', 'async functions are verified as their sequential bodies', 'usize is 64 bits'],
      'wall_s': round(time.time() - T0, 2), 'violations': viol}
if undecided: ev['assumptions'].append('undecided on this tree, bounded stand-in only: ' + '; '.join(undecided))
json.dump(ev, open(os.path.join(A.evidence, P + '.json'), 'w'), indent=1)
print('%s %s: %d units, %d obligations, %d discharged, %d functions (%d labelled), bounded cases %s, %.0f s' % (P, TIER, len(us), obl, dis, len(fns), len(labelled), bounded and bounded['cases'], time.time() - T0))
for l in lines: print(l)
if lines: sys.exit(1)
if broken or (undecided and hr is None and not A.no_harness):
    print('no answer'); sys.exit(2)
sys.exit(0)
