"""Builds the C++ sources of /repo's working tree, in a given configuration of
options.h, together with a harness of /verif/mc.  Objects are cached by content."""
import hashlib, os, re, shutil, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
CPP = os.path.join(REPO, 'code/cpp')
BUILD = os.path.join(VERIF, 'build')
MC = os.path.join(VERIF, 'mc')
JOBS = max(2, os.cpu_count() or 2)

BASE = ['-std=c++17', '-march=x86-64-v2', '-w', '-g1', '-ftrivial-auto-var-init=pattern']

# configurations: options of options.h that differ from the committed ones, flags
CONFIGS = {
    'def': ({}, ['-O1', '-fopenmp']),
    'raw': ({}, ['-O1', '-fopenmp', '-ftrivial-auto-var-init=uninitialized']),
    'tsan': ({}, ['-O1', '-fopenmp', '-fsanitize=thread', '--param=tsan-distinguish-volatile=1']),
    'asan': ({}, ['-O1', '-fopenmp', '-fsanitize=address']),
    'n3': ({'N': '3'}, ['-O1', '-fopenmp']),
    'n4': ({'N': '4'}, ['-O1', '-fopenmp']),
    'n5': ({'N': '5'}, ['-O1', '-fopenmp']),
    'n6': ({'N': '6'}, ['-O1', '-fopenmp']),
    'thermal': ({'THERMAL': 'true'}, ['-O1', '-fopenmp']),
    'multi': ({'MULTI': 'true'}, ['-O1', '-fopenmp']),
    'tmulti': ({'MULTI': 'true', 'THERMAL': 'true', 'LSET': '1'}, ['-O1', '-fopenmp']),
    'stick': ({'RIEMANN_STICK': 'true', 'RIEMANN_RELAXATION': 'false'}, ['-O1', '-fopenmp']),
    'tstick': ({'THERMAL': 'true', 'RIEMANN_STICK': 'true', 'RIEMANN_RELAXATION': 'false'}, ['-O1', '-fopenmp']),
    'norelax': ({'RIEMANN_RELAXATION': 'false'}, ['-O1', '-fopenmp']),
    'tnorelax': ({'THERMAL': 'true', 'RIEMANN_RELAXATION': 'false'}, ['-O1', '-fopenmp']),
    'lset0': ({'LSET': '0'}, ['-O1', '-fopenmp']),
    'lset1': ({'LSET': '1'}, ['-O1', '-fopenmp']),
    'lset3': ({'LSET': '3'}, ['-O1', '-fopenmp']),
    'corners': ({'NO_CORNERS': 'false'}, ['-O1', '-fopenmp']),
    'destress': ({'DESTRESS': 'true'}, ['-O1', '-fopenmp']),
    'prim': ({'PRIM_RECONSTRUCT': 'true'}, ['-O1', '-fopenmp']),
    'rotate': ({'ROTATE_DISTORTION': 'true'}, ['-O1', '-fopenmp']),
    # for the extension module of the Python layer
    'pydef': ({}, ['-O0', '-fopenmp', '-fPIC', '-fvisibility=hidden']),
    'pymulti': ({'MULTI': 'true'}, ['-O0', '-fopenmp', '-fPIC', '-fvisibility=hidden']),
    'pytmulti': ({'MULTI': 'true', 'THERMAL': 'true'}, ['-O0', '-fopenmp', '-fPIC', '-fvisibility=hidden']),
}

WRAP = ['-Wl,--wrap=malloc', '-Wl,--wrap=free', '-Wl,--wrap=realloc', '-Wl,--wrap=memcpy', '-Wl,--wrap=memset']


class BuildError(Exception):
    pass


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def src_files():
    r = []
    for d, _, fs in os.walk(os.path.join(CPP, 'src')):
        for f in fs:
            r.append(os.path.relpath(os.path.join(d, f), CPP))
    return sorted(r)


def units():
    us = [f for f in src_files() if f.endswith('.cpp') and f != 'src/etc/debug.cpp']
    for f in ('base_marcher', 'distance_marcher', 'heap'):
        us.append('include/skfmm/%s.cpp' % f)
    return us


def set_options(text, opts):
    for k, v in opts.items():
        pat = r'(\b(?:const|constexpr)\s+(?:static\s+)?(?:bool|int|double)\s+%s\s*=\s*)[^;]+;' % k
        text, n = re.subn(pat, lambda m: m.group(1) + v + ';', text)
        if n != 1:
            raise BuildError('option %s not found in options.h' % k)
    return text


def prepare(cfg):
    """a copy of the sources with the options of this configuration"""
    opts, flags = CONFIGS[cfg]
    h = hashlib.sha256()
    h.update(repr((sorted(opts.items()), flags, BASE)).encode())
    for f in src_files():
        if f.endswith(('.h', '.hpp')):
            h.update(f.encode() + _read(os.path.join(CPP, f)))
    for d in ('include/skfmm',):
        for f in sorted(os.listdir(os.path.join(CPP, d))):
            if f.endswith('.h'):
                h.update(f.encode() + _read(os.path.join(CPP, d, f)))
    head = h.hexdigest()[:16]
    tree = os.path.join(BUILD, 'tree-%s' % cfg)
    dst = os.path.join(tree, 'src')
    os.makedirs(tree, exist_ok=True)
    want = set()
    for f in src_files():
        p = os.path.join(tree, f)
        want.add(p)
        data = _read(os.path.join(CPP, f))
        if f == 'src/options.h':
            data = set_options(data.decode(), opts).encode()
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or _read(p) != data:
            with open(p, 'wb') as o:
                o.write(data)
    for d, _, fs in os.walk(dst):
        for f in fs:
            p = os.path.join(d, f)
            if p not in want:
                os.remove(p)
    return tree, head, flags


def compile_one(cxx, src, out, inc, flags):
    tmp = out + '.tmp%d' % os.getpid()
    cmd = [cxx] + BASE + flags + ['-I' + i for i in inc] + ['-c', src, '-o', tmp]
    import time; t0 = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if os.environ.get('MC_TIME'): print('%.1f %s' % (time.time()-t0, src))
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    os.replace(tmp, out)


DEPS = os.path.join(MC, 'deps.json')


class Target:
    pass


def _pch(t):
    if os.path.exists(t.pch + '.gch'):
        return
    os.makedirs(os.path.dirname(t.pch), exist_ok=True)
    with open(t.pch, 'w') as o:
        o.write('#include <functional>\n#include <vector>\n#include <complex>\n'
                '#include <iostream>\n#include <cmath>\n#include <algorithm>\n'
                '#include "src/etc/types.h"\n')
    tmp = t.pch + '.gch.tmp%d' % os.getpid()
    cmd = ['g++'] + BASE + t.flags + ['-I' + i for i in t.inc]
    cmd += ['-x', 'c++-header', t.pch, '-o', tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stdout[-6000:]))
    os.replace(tmp, t.pch + '.gch')


def _compile_all(jobs):
    """jobs: (source, object, include dirs, flags); slow ones first"""
    slow = ['riemann', 'fluxes', 'eigenvecs', 'p', 'lgmres', 'eig', 'dg2', 'dg1', 'globals']

    def rank(j):
        b = os.path.basename(j[0])
        return min([i for i, x in enumerate(slow) if b.startswith(x)] + [99])
    uniq = {}
    for j in jobs:
        if not os.path.exists(j[1]):
            uniq[j[1]] = j
    jobs = sorted(uniq.values(), key=rank)
    with ThreadPoolExecutor(JOBS) as ex:
        for f in [ex.submit(compile_one, 'g++', s, o, inc, fl) for s, o, inc, fl in jobs]:
            f.result()


def _link(t, units_):
    """the harness and an archive of the units; False: symbols are missing"""
    objs = [t.unit[u][1] for u in units_]
    h = hashlib.sha256(''.join([o for _, o, _, _ in t.own] + objs).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, '%s-%s-%s' % (t.cfg, t.harness[0].replace('.cpp', ''), h))
    if os.path.exists(exe):
        return exe
    lib = exe + '.a.tmp%d' % os.getpid()
    subprocess.run(['ar', 'rcs', lib] + objs, check=True)
    link = ['g++', '-o', exe + '.tmp', '-Wl,-Map=' + exe + '.map'] + [o for _, o, _, _ in t.own] + [lib]
    link += ['-fsanitize=address'] if '-fsanitize=address' in t.flags else WRAP
    r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    os.remove(lib)
    if r.returncode:
        if os.path.exists(exe + '.map'):
            os.remove(exe + '.map')
        if 'undefined reference' in r.stdout:
            t.log = r.stdout
            return None
        raise BuildError(r.stdout[-6000:])
    m = open(exe + '.map', errors='replace').read()
    os.remove(exe + '.map')
    m = m[:m.find('Discarded input sections')] if 'Discarded input' in m else m
    t.pulled = [u for u in units_ if '(%s)' % os.path.basename(t.unit[u][1]) in m]
    os.replace(exe + '.tmp', exe)
    return exe


def build_many(reqs):
    """[(cfg, harness files)] -> [executable]; compiles what all of them need at once.
    mc/deps.json says which units a harness needs; it only saves time: when the link
    fails with them, all units are compiled."""
    import json
    os.makedirs(BUILD, exist_ok=True)
    deps = json.load(open(DEPS)) if os.path.exists(DEPS) else {}
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        cache = os.path.join(BUILD, 'obj')
        os.makedirs(cache, exist_ok=True)
        hh = hashlib.sha256()
        for f in sorted(os.listdir(MC)):
            if f.endswith('.h'):
                hh.update(_read(os.path.join(MC, f)))
        hk = hh.hexdigest()
        prepared, targets = {}, []
        for cfg, harness in reqs:
            if cfg not in prepared:
                prepared[cfg] = prepare(cfg)
            tree, head, flags = prepared[cfg]
            t = Target()
            t.cfg, t.harness, t.tree, t.flags = cfg, harness, tree, flags
            t.inc = [os.path.join(CPP, 'include'), tree, MC]
            ph = hashlib.sha256((head + repr(flags)).encode()).hexdigest()[:16]
            t.pch = os.path.join(BUILD, 'pch-' + ph, 'pch.h')

            def obj(src, key, fl):
                h = hashlib.sha256(_read(src) + key.encode() + repr(fl).encode()).hexdigest()[:24]
                return (src, os.path.join(cache, '%s-%s.o' % (
                    os.path.basename(src).replace('.cpp', ''), h)), t.inc, fl)
            t.unit = {}
            for u in units():
                p = os.path.join(tree if u.startswith('src/') else CPP, u)
                t.unit[u] = obj(p, head + u, flags + (
                    ['-include', t.pch] if u.startswith('src/') else []))
            san = '-fsanitize=address' in flags
            hflags = ['-O1'] + (['-fsanitize=address'] if san else [])
            t.own = [obj(os.path.join(MC, f), head + hk + 'h' + cfg, hflags) for f in harness]
            t.own += [obj(os.path.join(MC, 'stubs.cpp'), head + hk + 'h' + cfg, hflags),
                      obj(os.path.join(MC, 'mc.cpp'), hk, hflags),
                      obj(os.path.join(MC, 'rt.cpp'), hk, hflags + (['-DRT_ASAN'] if san else []))]
            d = deps.get(harness[0])
            if d is not None and not os.environ.get('MC_DEPS'):
                t.need = [u for u in d if u in t.unit]
            else:
                t.need = list(t.unit)
            targets.append(t)
        pchs = {t.pch: t for t in targets}
        with ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(_pch, t) for t in pchs.values()]:
                f.result()
        _compile_all([j for t in targets for j in t.own + [t.unit[u] for u in t.need]])
        r = []
        for t in targets:
            exe = _link(t, t.need)
            if exe is None and set(t.need) != set(t.unit):
                _compile_all(t.unit.values())
                exe = _link(t, list(t.unit))
            if exe is None:
                raise BuildError(t.log[-6000:])
            if os.environ.get('MC_DEPS') and hasattr(t, 'pulled'):
                old = deps.get(t.harness[0], []) if t.harness[0] in getattr(build_many, 'seen', ()) else []
                deps[t.harness[0]] = sorted(set(old) | set(t.pulled))
                build_many.seen = getattr(build_many, 'seen', set()) | {t.harness[0]}
                json.dump(deps, open(DEPS, 'w'), indent=0, sort_keys=True)
            r.append(exe)
        return r
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


def build(cfg, harness):
    return build_many([(cfg, harness)])[0]


def clean_old(limit=3 << 30):
    """keep the cache small"""
    cache = os.path.join(BUILD, 'obj')
    for d in (cache, BUILD):
        if not os.path.isdir(d):
            continue
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        fs = [f for f in fs if os.path.isfile(f) and not f.endswith('.lock')]
        fs.sort(key=os.path.getmtime)
        tot = sum(os.path.getsize(f) for f in fs)
        while fs and tot > limit:
            tot -= os.path.getsize(fs[0])
            os.remove(fs.pop(0))


if __name__ == '__main__':
    print(build(sys.argv[1], sys.argv[2:]))
