#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.  Content addressed: an object is reused only if
the bytes of its source, of every header of its group and of its command line are unchanged."""
import sys, os, glob, hashlib, subprocess, re, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('SIM_REPO', '/repo')
OUT = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
CC, CXX = 'clang', 'clang++'
WRAPS = 'malloc calloc free realloc strdup strndup open close fstat stat mmap munmap fdopen fopen mtx_init mtx_destroy mtx_lock mtx_trylock mtx_unlock'.split()
THR_WRAPS = 'strcmp memcmp strlen strnlen'.split()

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]
def rd(p):
    with open(p, 'rb') as f: return f.read()
def sh(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(' '.join(cmd) + '\n' + r.stdout + r.stderr); raise SystemExit(3)
    return r.stdout

def gen_headers():
    v = {'MAJOR': '2', 'MINOR': '2', 'PATCH': '0', 'BUILD': '0', 'EXT': ''}
    try:
        for m in re.finditer(r'set\(PT_VERSION_(\w+)\s+"?([^")]*)"?', open(REPO + '/CMakeLists.txt').read()): v[m.group(1)] = m.group(2).strip() or v.get(m.group(1), '')
    except OSError: pass
    for k in ('MAJOR', 'MINOR', 'PATCH', 'BUILD'):
        if not v[k].isdigit(): v[k] = {'MAJOR': '2', 'MINOR': '2'}.get(k, '0')
    inc = OUT + '/include'; os.makedirs(inc, exist_ok=True)
    for d in ('libipt/include', 'sideband/include', 'pevent/include'):
        for f in glob.glob(f'{REPO}/{d}/*.in'):
            t = open(f).read()
            for k in v: t = t.replace('${PT_VERSION_%s}' % k, v[k]).replace('@PT_VERSION_%s@' % k, v[k])
            o = inc + '/' + os.path.basename(f)[:-3]
            if not os.path.exists(o) or open(o).read() != t: open(o, 'w').write(t)
    return inc

def headers(dirs):
    hs = []
    for d in dirs:
        for f in sorted(glob.glob(d + '/**/*.h', recursive=True)): hs.append(rd(f))
        for f in sorted(glob.glob(d + '/**/*.in', recursive=True)): hs.append(rd(f))
    return sha(*hs)

def flavour_flags(fl):
    if fl == 'asan':   return ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer'], ['-fsanitize-coverage=trace-pc-guard'], ['-fsanitize=address']
    if fl == 'thr':    return ['-O1', '-g1'], ['-fsanitize=thread', '-fsanitize-coverage=trace-pc-guard'], []
    raise SystemExit('flavour')

def build(flavours):
    os.makedirs(OUT + '/obj', exist_ok=True)
    lock = open(OUT + '/lock', 'w'); fcntl.flock(lock, fcntl.LOCK_EX)
    inc = gen_headers()
    r = REPO
    libinc = [inc, r + '/libipt/include', r + '/libipt/internal/include', r + '/libipt/internal/include/posix', r + '/include', r + '/include/posix',
              r + '/sideband/include', r + '/sideband/internal/include', r + '/pevent/include', r + '/pevent/internal/include', r + '/ptdump/include']
    libinc = [d for d in libinc if os.path.isdir(d)]
    libh = headers([r + '/libipt', r + '/include', r + '/sideband', r + '/pevent', r + '/ptdump/include'] )
    simh = headers([HERE])
    defs = ['-DFEATURE_THREADS', '-DFEATURE_SIDEBAND', '-DFEATURE_PEVENT', '-DFEATURE_ELF'] + ['-D_POSIX_C_SOURCE=200809L', '-D_DEFAULT_SOURCE',
            '-DPT_VERSION_MAJOR=2', '-DPT_VERSION_MINOR=2', '-DPT_VERSION_PATCH=0', '-DPT_VERSION_BUILD=0', '-DPT_VERSION_EXT=""']
    csrc = sorted(glob.glob(r + '/libipt/src/*.c') + glob.glob(r + '/libipt/src/posix/*.c') + glob.glob(r + '/sideband/src/*.c') + glob.glob(r + '/sideband/src/posix/*.c') + glob.glob(r + '/pevent/src/*.c'))
    csrc = [c for c in csrc if not c.endswith('/init.c')]
    jobs, bins = [], {}
    for fl in flavours:
        common, libx, link = flavour_flags(fl)
        objs = []
        for c in csrc:
            cmd = [CC, '-std=c99', '-c', '-fexceptions', '-w'] + common + libx + defs + ['-I' + d for d in libinc]
            o = f'{OUT}/obj/{sha(fl, c, rd(c), libh, " ".join(cmd))}.o'; objs.append(o); jobs.append((cmd + [c, '-o', o], o))
        for c in sorted(glob.glob(r + '/ptdump/src/*.c')):
            cmd = [CC, '-std=c99', '-c', '-fexceptions', '-w', '-Dmain=ptdump_main', '-include', HERE + '/asan/ptdump_io.h'] + common + libx + defs + ['-I' + d for d in libinc]
            if fl == 'asan':
                o = f'{OUT}/obj/{sha(fl, c, rd(c), libh, simh, " ".join(cmd))}.o'; objs.append(o); jobs.append((cmd + [c, '-o', o], o))
        for c in sorted(glob.glob(HERE + '/core/*.cc') + glob.glob(HERE + '/scen/*.cc') + glob.glob(HERE + ('/thr/*.cc' if fl == 'thr' else '/asan/*.cc'))):
            cmd = [CXX, '-std=c++17', '-c', '-Wall', '-Wno-unused-function'] + common + ['-DSIM_' + fl.upper()] + ['-I' + HERE + '/core', '-I' + HERE + '/scen'] + ['-I' + d for d in [inc, r + '/libipt/include', r + '/sideband/include', r + '/pevent/include', r + '/libipt/internal/include', r + '/libipt/internal/include/posix'] if os.path.isdir(d)]
            o = f'{OUT}/obj/{sha(fl, c, rd(c), libh, simh, " ".join(cmd))}.o'; objs.append(o); jobs.append((cmd + [c, '-o', o], o))
        bins[fl] = (objs, link)
    todo = [(c, o) for c, o in jobs if not os.path.exists(o)]
    # longest first
    todo.sort(key=lambda t: (0 if t[0][0] == CXX else 1, -os.path.getsize(t[0][-3])))
    def comp(t):
        cmd, o = t; tmp = o + '.tmp%d' % os.getpid(); cmd = cmd[:-1] + [tmp]
        res = subprocess.run(cmd, capture_output=True, text=True)
        if res.returncode: return ' '.join(cmd) + '\n' + res.stderr
        if res.stderr: sys.stderr.write(res.stderr)
        os.rename(tmp, o); return None
    with ThreadPoolExecutor(os.cpu_count() or 4) as ex:
        errs = [e for e in ex.map(comp, todo) if e]
    if errs: sys.stderr.write('\n'.join(errs[:3]) + '\n'); raise SystemExit(3)
    used = set()
    res = {}
    for fl, (objs, link) in bins.items():
        used.update(objs)
        b = f'{OUT}/sim-{fl}-{sha(*objs)}'
        if not os.path.exists(b):
            for old in glob.glob(f'{OUT}/sim-{fl}-*'): os.unlink(old)
            sh([CXX] + link + objs + ['-Wl,' + ','.join('--wrap=' + w for w in WRAPS + (THR_WRAPS if fl == 'thr' else []))] + ['-o', b + '.tmp', '-lpthread'])
            os.rename(b + '.tmp', b)
        res[fl] = b
    for f in glob.glob(OUT + '/obj/*.o'):
        if f not in used and len(flavours) > 1: os.unlink(f)
    return res

if __name__ == '__main__':
    for k, v in build(sys.argv[1:] or ['asan']).items(): print(k, v)
