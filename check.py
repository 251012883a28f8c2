#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]      search; exit 0 / 1 with a VIOLATION line / 3 error
check.py --replay FILE                                      re-execute a minimised violation exactly
check.py --determinism PROPERTY|all                         same seeds at different worker counts, logs compared"""
import sys, os, json, time, subprocess, struct, re, random, shutil, tempfile, hashlib
HERE = os.path.dirname(os.path.abspath(__file__)); os.chdir(HERE)
sys.path.insert(0, os.path.join(HERE, 'sim'))
import build as B
from props import PROPS
NW = 8
ENV = {k: v for k, v in os.environ.items() if not k.startswith(('ASAN', 'TSAN', 'SIM_', 'LD_', 'MALLOC'))}

def err(msg):
    print('check error: ' + msg); sys.stdout.flush(); sys.exit(3)

def asan_class(out):
    m = re.search(r'SUMMARY: AddressSanitizer: (\S+) (?:\S+ in (\S+))?', out)
    if m:
        kind = m.group(1)
        if kind == 'SEGV' and 'stack-overflow' in out: kind = 'stack-overflow'
        return 'asan-' + kind
    return None

def outcome(rc, out, tape=None):
    """-> (class, msg, hash) or None when the run was fine"""
    m = re.search(r'(?:RESULT violation|VIOLATION-RUN index=\d+) class=(\S+) hash=(\w+)(?: used=\d+)? msg=(.*)', out)
    if rc == 10 and m: return m.group(1), m.group(3).strip(), m.group(2)
    if rc == 0: return None
    if rc == 99 or rc < 0 or rc > 128:
        c = asan_class(out) or ('signal-%d' % (-rc if rc < 0 else rc - 128))
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ (?:\(|in )?([^\n]*)', out)[:3]
        m = re.search(r'ERROR: AddressSanitizer: ([^\n]*)', out)
        return c, (m.group(1)[:120] if m else 'process died'), ''
    return ('harness-error', 'exit %d: %s' % (rc, out[-300:]), '')

def read_tape(path):
    b = open(path, 'rb').read()
    magic, state, ln, h, idx = struct.unpack_from('<IIQQQ', b, 0)
    off = 32 + 64 + 400
    ln = min(ln, (len(b) - off) // 4)
    return idx, h, list(struct.unpack_from('<%dI' % ln, b, off))

class Search:
    def __init__(s, prop, tier, seed):
        s.prop, s.tier, s.seed = prop, tier, seed
        s.cfg = PROPS[prop]; s.tmp = tempfile.mkdtemp(prefix='sim-%s-' % prop)
        s.parts = s.cfg['parts']           # [(scenario, flavour, share)]
    def build(s):
        t = time.time(); fl = sorted({f for _, f, _, _ in s.parts})
        s.bins = B.build(fl); s.build_s = time.time() - t
    def replay(s, scen, fl, tape, timeout=120, verbose=False):
        fd, p = tempfile.mkstemp(dir=s.tmp, suffix='.tape'); os.write(fd, struct.pack('<%dI' % len(tape), *tape)); os.close(fd)
        try: r = subprocess.run([s.bins[fl], 'replay', '--prop', scen, '--tape', p] + (['-v'] if verbose else []), capture_output=True, text=True, errors='replace', timeout=timeout, env=ENV)
        except subprocess.TimeoutExpired: return ('hang', 'replay exceeds %d s' % timeout, ''), ''
        finally: os.unlink(p)
        return outcome(r.returncode, r.stdout + r.stderr), r.stdout
    def part(s, scen, fl, nruns, deadline, known):
        ps = []
        for j in range(NW):
            d = f'{s.tmp}/{scen}.{j}'
            cmd = [s.bins[fl], 'run', '--prop', scen, '--seed', str(s.seed), '--start', str(j), '--stride', str(NW), '--count', str((nruns + NW - 1) // NW), '--deadline', str(deadline), '--stats', d + '.stats', '--tape', d + '.tape', '--hashn', '8']
            for k in known: cmd += ['--known', k]
            o = open(d + '.out', 'w'); ps.append((j, d, o, subprocess.Popen(cmd, stdout=o, stderr=subprocess.STDOUT, env=ENV)))
        t0 = time.time(); lim = deadline + 90; bad = []; first = None
        live = list(ps)
        while live:
            for w in list(live):
                rc = w[3].poll()
                if rc is None: continue
                live.remove(w); w[2].close()
                out = open(w[1] + '.out', errors='replace').read(); oc = outcome(rc, out)
                if oc:
                    idx, h, tape = read_tape(w[1] + '.tape'); bad.append((idx, oc, tape, h)); first = first or time.time()
            if first and time.time() - first > 3:
                for w in live: w[3].kill()
            if time.time() - t0 > lim:
                for w in live:
                    w[3].kill(); idx, h, tape = read_tape(w[1] + '.tape'); bad.append((idx, ('hang', 'a run does not end', ''), tape, h))
                break
            time.sleep(0.02)
        for w in live: w[3].wait()
        st = []
        for j, d, _, _ in ps:
            try: st.append((json.load(open(d + '.stats')), open(d + '.stats.bin', 'rb').read(), open(d + '.out', errors='replace').read()))
            except (OSError, ValueError): pass
        bad.sort(key=lambda b: b[0])
        return bad, st
    def gate(s, scen, fl, b):
        idx, oc, tape, h = b
        # the same seed again, in a fresh process
        r = subprocess.run([s.bins[fl], 'run', '--prop', scen, '--seed', str(s.seed), '--only', str(idx), '--count', '1'], capture_output=True, text=True, errors='replace', timeout=180, env=ENV)
        o2 = outcome(r.returncode, r.stdout + r.stderr)
        if not o2 or o2[0] != oc[0] or (oc[2] and o2[2] != oc[2]): return None, 'seed %d index %d does not repeat: %s then %s' % (s.seed, idx, oc, o2)
        o3, _ = s.replay(scen, fl, tape)
        if not o3 or o3[0] != oc[0] or (oc[2] and o3[2] != oc[2]): return None, 'tape of index %d does not repeat: %s then %s' % (idx, oc, o3)
        return o3, None
    def minimise(s, scen, fl, cls, tape, limit):
        from concurrent.futures import ThreadPoolExecutor
        t0 = time.time(); best = tape; tries = 0
        while best and best[-1] == 0: best = best[:-1]
        def test(c):
            o, _ = s.replay(scen, fl, c, 60); return bool(o and o[0] == cls)
        with ThreadPoolExecutor(NW) as ex:
            def first(cands):
                nonlocal tries
                for k in range(0, len(cands), NW):
                    if time.time() - t0 > limit: return None
                    ch = cands[k:k + NW]; tries += len(ch)
                    for c, ok in zip(ch, ex.map(test, ch)):
                        if ok: return c
                return None
            # cut the end, then delete blocks, then zero blocks, then shrink values
            changed = True
            while changed and time.time() - t0 < limit:
                changed = False; n = len(best)
                for f in (0.05, 0.1, 0.2, 0.3, 0.5, 0.7, 0.85, 0.95):
                    c = first([best[:int(n * f)]])
                    if c is not None and len(c) < len(best): best = c; changed = True; break
                size = max(1, len(best) // 4)
                while size >= 1 and time.time() - t0 < limit:
                    k = 0
                    while k < len(best):
                        pos = list(range(k, len(best), size))[:NW]
                        cands = [best[:p] + best[p + size:] for p in pos]; c = first(cands)
                        if c is not None: k = pos[cands.index(c)]; best = c; changed = True
                        else: k = pos[-1] + size
                        if time.time() - t0 > limit: break
                    k = 0
                    while k < len(best):
                        pos = [p for p in range(k, len(best), size) if any(best[p:p + size])][:NW]
                        if not pos: break
                        cands = [best[:p] + [0] * len(best[p:p + size]) + best[p + size:] for p in pos]; c = first(cands)
                        if c is not None: k = pos[cands.index(c)] + size; best = c; changed = True
                        else: k = pos[-1] + size
                        if time.time() - t0 > limit: break
                    size //= 2
                while best and best[-1] == 0: best = best[:-1]
        return best, tries
    def main(s):
        t0 = time.time(); quick = s.tier == 'quick'; s.build()
        known = []; pats = []
        kf = json.load(open('known-findings.json'))
        for f in kf:
            if isinstance(f, dict) and f.get('status') == 'known' and f['property'] == s.prop: known.append(f['match']); pats.append(f)
        tot = dict(runs=0, nontrivial=0, simtime=0, steps=0); stat = {}; distinct = set(); edges = {}; parts = []; khits = {}; samples = []; hashes = 0; capped = False
        rc = 0; viol = 0; extra = {}
        for scen, fl, nq, nt in s.parts:
            n = nq if quick else nt
            dl = (s.cfg.get('quick_s', 40) if quick else s.cfg.get('thorough_s', 600)) * (n / sum((p[2] if quick else p[3]) for p in s.parts) if len(s.parts) > 1 and False else 1.0 / len(s.parts))
            t = time.time(); bad, st = s.part(scen, fl, n, dl, known); dt = time.time() - t
            pr = 0
            for js, bn, out in st:
                for k in ('runs', 'nontrivial', 'simtime', 'steps'): tot[k] += js[k]
                pr += js['runs']
                for k, v in js['stat'].items(): stat[k] = stat.get(k, 0) + v
                for k, v in js['knownhits'].items(): khits[k] = khits.get(k, 0) + v
                nd, = struct.unpack_from('<Q', bn, 0); distinct.update((scen, x) for x in struct.unpack_from('<%dQ' % nd, bn, 8))
                ng, = struct.unpack_from('<Q', bn, 8 + 8 * nd); cov = bn[16 + 8 * nd:16 + 8 * nd + ng]
                e = edges.setdefault(fl, bytearray(ng))
                for i, c in enumerate(cov):
                    if c: e[i] = 1
            parts.append(dict(scenario=scen, flavour=fl, runs=pr, wall_s=round(dt, 2), runs_per_hour=int(pr / max(dt, 1e-3) * 3600)))
            if pr < n: capped = True
            if bad:
                b = bad[0]
                if b[1][0] == 'harness-error': err('%s: %s' % (scen, b[1][1]))
                o, e = s.gate(scen, fl, b) if b[1][0] != 'hang' else (b[1], None)
                if e:
                    for b2 in bad[1:]:
                        o, e2 = s.gate(scen, fl, b2)
                        if not e2: b, e = b2, None; break
                if e: err(e)
                viol += 1
                tape, tries = (b[2], 0) if b[1][0] == 'hang' else s.minimise(scen, fl, b[1][0], b[2], 45 if quick else 180)
                fin, txt = s.replay(scen, fl, tape, verbose=True)
                if not fin or fin[0] != b[1][0]: err('the minimised tape does not reproduce: %s' % (fin,))
                os.makedirs('replays', exist_ok=True)
                name = 'replays/%s-%s.json' % (s.prop, hashlib.sha256(repr((scen, tape)).encode()).hexdigest()[:12])
                json.dump(dict(property=s.prop, scenario=scen, flavour=fl, seed=s.seed, index=b[0], violation=fin[0], message=fin[1], hash=fin[2], original_choices=len(b[2]), choices=len(tape), minimisation_replays=tries, tape=tape, log=txt.splitlines()[-400:]), open(name, 'w'), indent=0)
                print('%s: %s (seed %d, run %d, %d choices minimised to %d)' % (fin[0], fin[1], s.seed, b[0], len(b[2]), len(tape)))
                print('VIOLATION property=%s replay=%s' % (s.prop, os.path.join(HERE, name))); rc = 1
                break
            # determinism: the first runs of every worker again, in one process
            want = {}
            for js, bn, out in st:
                for m in re.finditer(r'^H (\d+) (\w+) (\d+)', out, re.M): want[int(m.group(1))] = m.group(2)
            r = subprocess.run([s.bins[fl], 'run', '--prop', scen, '--seed', str(s.seed), '--count', '64', '--hashlog', '--deadline', '30'] + sum([['--known', k] for k in known], []), capture_output=True, text=True, env=ENV)
            for m in re.finditer(r'^H (\d+) (\w+) (\d+)', r.stdout, re.M):
                if int(m.group(1)) in want:
                    hashes += 1
                    if want[int(m.group(1))] != m.group(2): err('%s: run %s is not deterministic' % (scen, m.group(1)))
            r = subprocess.run([s.bins[fl], 'run', '--prop', scen, '--seed', str(s.seed), '--only', '1', '--count', '1', '-v'], capture_output=True, text=True, errors='replace', env=ENV)
            samples.append(dict(scenario=scen, seed=s.seed, run=1, log=[l[:240] for l in r.stdout.splitlines()[:40]]))
        for f in pats:
            if khits.get(f['match'], 0): pass
            print('KNOWN-FINDING: property=%s %s' % (s.prop, f['what']))
        faults = {k[6:]: v for k, v in stat.items() if k.startswith('fault.')}
        wall = time.time() - t0
        ev = dict(property=s.prop, tier=s.tier, seed=s.seed, level='exploration', wall_s=round(wall, 2), violations=viol,
            coverage=dict(evaluations=tot['runs'], distinct_nontrivial=len(distinct), rule=s.cfg['rule'], samples=samples or [dict(note='no sample: violated')],
                simulated_runs=tot['runs'], nontrivial_runs=tot['nontrivial'], seeds_per_hour=int(sum(p['runs'] for p in parts) / max(1e-3, sum(p['wall_s'] for p in parts)) * 3600), simulated_time_ticks=tot['simtime'], library_edges_executed=tot['steps'],
                faults_injected=faults, reach={k: v for k, v in stat.items() if not k.startswith('fault.')}, distinct_measure='distinct execution log hashes among non-trivial runs',
                library_edges_covered={f: [sum(e), len(e)] for f, e in edges.items()}, parts=parts, wall_capped=capped, determinism_runs_compared=hashes, workers=NW, known_finding_hits=khits,
                real_components=s.cfg['real'], stub_components=s.cfg['stub'], build_s=round(s.build_s, 1)),
            assumptions=s.cfg.get('assumptions', []))
        os.makedirs('evidence', exist_ok=True); json.dump(ev, open('evidence/%s.json' % s.prop, 'w'), indent=1)
        shutil.rmtree(s.tmp, ignore_errors=True)
        if rc == 0: print('%s %s: held on %d runs (%d distinct non-trivial), %.1f s%s' % (s.prop, s.tier, tot['runs'], len(distinct), wall, ', stopped by the clock' if capped else ''))
        return rc

def do_replay(path):
    j = json.load(open(path)); s = Search(j['property'], 'quick', j['seed']); s.bins = B.build([j['flavour']])
    o, out = s.replay(j['scenario'], j['flavour'], j['tape'], verbose=True); sys.stdout.write(out[-20000:])
    shutil.rmtree(s.tmp, ignore_errors=True)
    if o: print('REPRODUCED %s: %s%s' % (o[0], o[1], '' if o[0] == j['violation'] and o[2] == j['hash'] else ' (recorded: %s)' % j['violation'])); print('VIOLATION property=%s replay=%s' % (j['property'], path)); return 1
    print('not reproduced'); return 0

def do_determinism(which, n=400):
    bad = 0
    for p in (PROPS if which == 'all' else [which]):
        s = Search(p, 'quick', 1); s.build()
        for scen, fl, _, _ in s.parts:
            logs = []
            for w in (1, 3, 8):
                ps = [subprocess.Popen([s.bins[fl], 'run', '--prop', scen, '--seed', '7', '--start', str(j), '--stride', str(w), '--count', str(n // w + 1), '--hashlog'], stdout=subprocess.PIPE, text=True, env=ENV) for j in range(w)]
                d = {}
                for q in ps:
                    for m in re.finditer(r'^H (\d+) (\w+) (\d+)', q.communicate()[0], re.M): d[int(m.group(1))] = m.group(2)
                logs.append(d)
            diff = [i for i in range(n) if len({l.get(i) for l in logs}) != 1]
            print(p, scen, fl, 'runs compared', n, 'at 1, 3 and 8 workers: differing', len(diff), diff[:5]); bad += len(diff)
        shutil.rmtree(s.tmp, ignore_errors=True)
    return 1 if bad else 0

if __name__ == '__main__':
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == '--replay': sys.exit(do_replay(a[1]))
    if a[0] == '--determinism': sys.exit(do_determinism(a[1]))
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if '--seed' in a: seed = int(a[a.index('--seed') + 1])
    sys.exit(Search(a[0], tier, seed).main())
