#!/usr/bin/env python3
"""check.py PROPERTY TIER - run by check.sh with SCR prepared."""
import json, os, re, subprocess, sys, time, threading

P, TIER = sys.argv[1], sys.argv[2]
SCR, REPO, VERIF = os.environ['SCR'], os.environ.get('REPO', '/repo'), os.environ.get('VERIF', '/verif')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
spec = json.load(open(os.path.join(VERIF, 'checks.json')))[P]
known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json'))) if k['property'] == P and not k.get('fixed')]
BUILD = os.path.join(VERIF, 'build', P)
os.makedirs(BUILD, exist_ok=True)
MODULE = 'reduction.dev/reduction'


def repo_env(extra=None):
    e = dict(os.environ)
    go = '/opt/veriftools/go1.24.13'
    e.update(GOROOT=go, PATH=go + '/bin:' + e['PATH'], GOEXPERIMENT='synctest', GOFLAGS='-modfile=%s/go.mod -mod=mod' % SCR)
    e.update(extra or {})
    return e


def run_proof(res):
    out = os.path.join(SCR, 'gvc.json')
    budget = 640 if TIER == 'quick' else 3000
    cmd = [os.path.join(SCR, 'bin/gvc'), '-repo', REPO, '-scr', SCR, '-specs', os.path.join(VERIF, 'contracts'), '-prop', P, '-json', out, '-budget', str(budget)]
    if TIER != 'quick':
        cmd += ['-quick', '8000', '-slow', '90000']
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    res['log'] = p.stdout
    try:
        res['json'] = json.load(open(out))
    except Exception as ex:
        res['json'] = None
        res['err'] = str(ex)
    res['rc'] = p.returncode


def tune(ov):
    """Lowers the default sizes at which a database flushes, cuts its log and compacts (64 MB and more) so that it does so
    with the little data of a bounded check. Only these numbers change; where they aren't found, they stay as they are."""
    src = os.path.join(REPO, 'dkv/db.go')
    try:
        s = open(src).read()
    except OSError:
        return
    for pat, n in ((r'(options\.MemTableSize\s*=\s*)\d+ \* size\.MB', 6000), (r'(options\.TargetFileSize\s*=\s*)\d+ \* size\.MB', 8000),
                   (r'(options\.MaxWALSize\s*=\s*)\d+ \* size\.MB', 16000), (r'(SmallestLevelSize:\s*)\d+ \* size\.MB', 12000)):
        s = re.sub(pat, lambda m: m.group(1) + str(n), s)
    s += '\nconst _ = size.MB\n'
    dst = os.path.join(SCR, 'tuned_db.go')
    open(dst, 'w').write(s)
    ov[src] = dst


def delay_points(ov, dirs, name):
    """Lays copies of the files of some packages over the tree, with a call in front of every statement that can delay the
    goroutine (see harness/lib/yield): narrow interleavings become reachable, nothing but the schedule changes."""
    out = os.path.join(SCR, 'yield_' + name)
    os.makedirs(out, exist_ok=True)
    pairs = []
    for d in dirs:
        full = os.path.join(REPO, d)
        if d.endswith('.go'):
            d = os.path.dirname(d)
        for f in sorted(os.listdir(full)) if os.path.isdir(full) else [os.path.basename(full)]:
            src = os.path.join(REPO, d, f)
            if f.endswith('.go') and not f.endswith('_test.go') and os.path.exists(src) and not any(src == x for x, _, _ in pairs):
                pairs.append((src, ov.get(src, src), os.path.join(out, d.replace('/', '_') + '_' + f)))
    if not pairs:
        return
    p = subprocess.run([os.path.join(SCR, 'bin/gvc'), '-module', MODULE, '-yield', ','.join('%s=%s' % (b, c) for _, b, c in pairs)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    if p.returncode == 0:
        for a, _, c in pairs:
            ov[a] = c


def run_harness(h, res):
    """h: {name, dir | inpkg, run, timeout}"""
    name = h['name']
    ov = json.load(open(os.path.join(SCR, 'overlay.json')))['Replace']
    files = h['files']
    if 'inpkg' in h:
        pkg = h['inpkg']
        for f in os.listdir(os.path.join(REPO, pkg)):
            if f.endswith('_test.go'):
                ov[os.path.join(REPO, pkg, f)] = ''
    else:
        pkg = 'zzverif_' + name
    for f in files:
        ov[os.path.join(REPO, pkg, 'zz_' + os.path.basename(f))] = os.path.join(VERIF, 'harness', f)
    if h.get('tune'):
        tune(ov)
    ov[os.path.join(REPO, 'zzhlib', 'hlib.go')] = os.path.join(VERIF, 'harness/lib/hlib.go')
    ov[os.path.join(REPO, 'zzyield', 'yield.go')] = os.path.join(VERIF, 'harness/lib/yield/yield.go')
    if h.get('yield'):
        delay_points(ov, h['yield'], name)
    ovf = os.path.join(SCR, 'ov_%s.json' % name)
    json.dump({'Replace': ov}, open(ovf, 'w'))
    binf = os.path.join(SCR, 'h_%s.test' % name)
    p = subprocess.run(['go', 'test', '-vet=off', '-c', '-overlay', ovf, '-o', binf] + (['-race'] if h.get('race') else []) + ['./' + pkg],
                       cwd=REPO, env=repo_env({'CGO_ENABLED': '1'} if h.get('race') else None), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(binf):
        res['build_error'] = p.stdout[-3000:]
        return
    outf = os.path.join(SCR, 'out_%s.jsonl' % name)
    work = os.path.join(SCR, 'work_%s' % name)
    os.makedirs(work, exist_ok=True)
    budget = h.get('budget', 20) if TIER == 'quick' else h.get('thorough', 240)
    env = repo_env({'GVC_OUT': outf, 'GVC_SEED': str(SEED), 'GVC_BUDGET': str(budget), 'GVC_TIER': TIER, 'TMPDIR': work, 'GVC_WORK': work})
    limit = h.get('limit', budget * 3 + 120)
    t0 = time.time()
    logf = open(os.path.join(SCR, 'log_%s' % name), 'w+')
    try:
        p = subprocess.run([binf, '-test.v', '-test.run', h.get('run', '^TestVerif'), '-test.timeout', '%ds' % limit], cwd=work, env=env,
                           stdout=logf, stderr=subprocess.STDOUT, timeout=limit + 30)
        res['rc'] = p.returncode
    except subprocess.TimeoutExpired:
        res['rc'] = -1
    res['wall'] = round(time.time() - t0, 2)
    logf.seek(0)
    res['log'] = logf.read()
    recs = []
    if os.path.exists(outf):
        for l in open(outf, errors='replace'):
            try:
                recs.append(json.loads(l))
            except Exception:
                pass
    res['recs'] = recs


proof = {}
threads = []
hres = {}
if spec.get('contracts', True):
    threads.append(threading.Thread(target=run_proof, args=(proof,)))
hs = spec.get('harness', [])


def seq():
    for h in hs:
        hres[h['name']] = {}
        run_harness(h, hres[h['name']])


threads.append(threading.Thread(target=seq))
for t in threads:
    t.start()
for t in threads:
    t.join()

viol, knownhit, notes = [], {}, []

# ---- harness results
evals, nontriv, samples, bounded = 0, 0, [], []
for h in hs:
    r = hres[h['name']]
    b = {'name': h['name'], 'bound': h['bound'], 'label': 'bounded, not counted as proved', 'wall_s': r.get('wall')}
    bounded.append(b)
    if 'build_error' in r:
        b['not_run'] = 'does not build against the current tree'
        notes.append('bounded check %s does not build against the current tree: %s' % (h['name'], r['build_error'][-400:]))
        continue
    n = d = 0
    last = None
    for x in r['recs']:
        if x.get('t') == 'count':
            n += x['n']; d += x['distinct']
        elif x.get('t') == 'sample':
            samples.append(x['v'])
        elif x.get('t') == 'violation':
            k = next((k for k in known if k['key'] == x['key']), None)
            if k:
                knownhit[k['key']] = k
                continue
            viol.append({'kind': 'input', 'harness': h['name'], 'key': x['key'], 'what': x['what'], 'case': x.get('case')})
    b['evaluations'], b['distinct_nontrivial'] = n, d
    evals += n; nontriv += d
    crashed = r['rc'] != 0 and not any(x.get('t') == 'violation' for x in r['recs'])
    done = any(x.get('t') == 'done' for x in r['recs'])
    if crashed or not done:
        if r['rc'] != 0 and not any(v['harness'] == h['name'] for v in viol if v['kind'] == 'input') and not knownhit:
            viol.append({'kind': 'input', 'harness': h['name'], 'key': 'crash', 'what': 'the code under test panicked, deadlocked or raced', 'case': last, 'log': r['log'][-6000:]})

# ---- proof results
obl = disc = 0
pj = proof.get('json')
perr = None
if spec.get('contracts', True):
    if pj is None or proof['rc'] == 3:
        perr = (pj or {}).get('Error') or proof.get('log', '')[-1500:]
        notes.append('verifier did not run: ' + perr)
    else:
        obl = len(pj['Obligations'] or [])
        failed = pj['Failed'] or []
        if pj.get('Gone'):
            notes.append('contracts of unexported helpers that are no longer in the tree, put aside (callers inline the new code): ' + ', '.join(pj['Gone']))
        disc = obl - len(failed)
        for f in failed:
            viol.append({'kind': 'proof', 'key': '%s: %s: %s' % (f['Fn'], f['Kind'], f['Name']), 'what': 'obligation not discharged', 'obligation': f})

inputs = [v for v in viol if v['kind'] == 'input']
proofs = [v for v in viol if v['kind'] == 'proof']

for k in known:
    if k['key'] in knownhit:
        print('KNOWN-FINDING: property=%s %s' % (P, k['what']))
    else:
        notes.append('listed finding not reproduced on this run: ' + k['key'])

cov = {}
if spec.get('contracts', True):
    cov.update(obligations=obl, discharged=disc, checker_cmd='bin/gvc -prop %s (z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2)' % P,
               trusted_base=['gvc (VC generator, /verif/gvc)', 'golang.org/x/tools go/ssa', 'z3, cvc5'] + ['assumed contract: ' + t for t in (pj or {}).get('Trusted') or []] + ['axiom: ' + a for a in (pj or {}).get('Axioms') or []])
    if pj:
        cov.update(functions=[{k.lower(): f[k] for k in ('ID', 'Obls', 'Proved', 'Inlined') if f.get(k)} for f in (pj['Functions'] or []) + (pj['Lemmas'] or [])],
                   solvers=pj['Solvers'], solver_ms=pj['SolverMs'], verifier_wall_ms=pj['WallMs'], verifier_notes=(pj['Notes'] or [])[:80])
if hs:
    cov.update(evaluations=evals, distinct_nontrivial=nontriv, rule='; '.join(h['name'] + ': ' + h['rule'] for h in hs), samples=samples[:12] or ['(none)'], bounded=bounded)
if spec['level'] == 'other':
    cov['explanation'] = spec['note']
if notes:
    cov['notes'] = notes
ev = {'property': P, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': spec['level'], 'coverage': cov,
      'assumptions': spec.get('assumptions', []) + [
          '64-bit machine integers are treated as mathematical integers (32-bit and smaller arithmetic is exact)',
          'termination is not proved', 'nil dereferences are checked only where a contract says so',
          'other goroutines interfere only at lock acquisition, through the stated lock invariants'],
      'wall_s': round(time.time() - T0, 2), 'violations': len(viol)}
os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
json.dump(ev, open(os.path.join(VERIF, 'evidence', P + '.json'), 'w'), indent=1)

print('%s: %d/%d obligations discharged, %d bounded cases (%d distinct), %.0f s' % (P, disc, obl, evals, nontriv, time.time() - T0))
for n in notes:
    print('note:', n[:600])
if proof.get('log') and os.environ.get('GVC_SHOW'):
    print(proof['log'])
if viol:
    rep = os.path.join(VERIF, 'build', P, 'replay.json')
    json.dump({'property': P, 'how_to_replay': 'bin/check.sh %s %s (VERIF_SEED=%d); each input entry is a concrete case run against the code in /repo; each proof entry is a failed obligation with the verifier output' % (P, TIER, SEED),
               'failing_inputs': inputs, 'failed_obligations': proofs}, open(rep, 'w'), indent=1)
    for v in (inputs + proofs)[:12]:
        print('  -', v['kind'], v['key'][:300], '|', v['what'][:400])
    if inputs:
        print('VIOLATION property=%s replay=%s' % (P, rep))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (P, rep))
    sys.exit(1)
if spec.get('contracts', True) and perr and not spec.get('tolerate'):
    # the tree does not load (it does not build): nothing was decided
    print('error: ' + perr[:800])
    sys.exit(2)
sys.exit(0)
