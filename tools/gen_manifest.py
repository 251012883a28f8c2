#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + '/sim')
from props import PROPS
NA = {
 'N01': 'A pure function of at most 15 bytes and a mode: no concurrency, time, I/O or second party whose schedule or faults could influence it, so simulation has nothing to decide; the oracle would be an x86 decoder of its own.',
 'N02': 'Pure table lookups over a fixed, finite domain; nothing nondeterministic for a simulator to control.',
 'N03': 'A build-time test generator that reads one file and writes files once; its oracle would be a second assembler and trace encoder, and no schedule or fault sequence is involved.',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]; t = c.get('technique', 'deterministic simulation: seeded search over machine executions, schedules and faults, checked against the recorded history')
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level='exploration', level_note=c.get('note', 'held on every simulated run explored; runs, seeds and faults are counted in the evidence file; not exhaustive')))
    else: na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
m = dict(version=1, setup_cmd='python3 sim/build.py ' + ' '.join(sorted({f for c in PROPS.values() for _, f, _, _ in c['parts']})), checks=checks, not_applicable=na,
    notes='No hooks in /repo are needed: the simulator interposes at link time (allocator, files, mappings, mutexes) and instruments at compile time.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1); open(H + '/MANIFEST.json', 'a').write('\n')
