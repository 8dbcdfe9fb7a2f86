#!/usr/bin/env python3
import json
checks = json.load(open('/verif/checks.json'))
props = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
m = {'version': 1,
     'setup_cmd': 'cd /verif/gvc && GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GOFLAGS=-mod=mod go build -o /verif/build/gvc .',
     'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. No hooks in /repo: harnesses are laid over the tree with go test -overlay.'}
for p in props:
    c = checks.get(p)
    if not c:
        m['not_applicable'].append({'property': p, 'reason': 'check under construction'})
        continue
    m['checks'].append({'property': p, 'quick_cmd': 'bash bin/check.sh %s quick' % p, 'thorough_cmd': 'bash bin/check.sh %s thorough' % p,
                        'evidence_file': 'evidence/%s.json' % p, 'technique': c.get('technique', 'contract-based deductive verification (gvc, z3/cvc5) with bounded stand-ins on the real code'),
                        'level': c['level'], 'level_note': c['note']})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
