"""Builds the extension module GPRpy from /repo's working tree (in a configuration of
build.py) and runs a harness in Python with it and /repo's Python layer."""
import fcntl
import hashlib
import os
import subprocess

import build

PY = '/opt/phd-venv/bin/python'
OVERLAY = '/opt/vp/phd/overlay.py'


def module(cfg, native=False):
    """-> directory that holds GPRpy (and GPRnative, mc/native.cpp)"""
    os.makedirs(build.BUILD, exist_ok=True)
    lock = open(os.path.join(build.BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        tree, head, flags = build.prepare(cfg)
        bsrc = os.path.join(tree, 'bindings', 'bindings.cpp')
        os.makedirs(os.path.dirname(bsrc), exist_ok=True)
        data = build._read(os.path.join(build.CPP, 'bindings/bindings.cpp'))
        if not os.path.exists(bsrc) or build._read(bsrc) != data:
            with open(bsrc, 'wb') as o:
                o.write(data)
        over = os.path.join(build.BUILD, 'overlay')
        os.makedirs(over, exist_ok=True)
        subprocess.run([PY, OVERLAY, os.path.join(build.CPP, 'include/pybind11-master/include/pybind11'),
                        os.path.join(over, 'pybind11')], check=True)
        pinc = subprocess.run([PY, '-c', "import sysconfig;print(sysconfig.get_path('include'))"],
                              stdout=subprocess.PIPE, text=True, check=True).stdout.strip()
        cache = os.path.join(build.BUILD, 'obj')
        os.makedirs(cache, exist_ok=True)
        inc = [os.path.join(build.CPP, 'include'), tree]
        jobs = []
        extra = ['bindings/bindings.cpp'] + ['mc/native.cpp'] * native
        for u in build.units() + ['src/etc/debug.cpp'] + extra:
            src = os.path.join(build.VERIF if u.startswith('mc/') else tree, u)
            if not os.path.exists(src):
                src = os.path.join(build.CPP, u)
            fl, i = flags, inc
            if u in extra or u.endswith('debug.cpp'):
                fl = flags
                i = [over] + inc + [pinc]
            h = hashlib.sha256(build._read(src) + (head + u + 'py' + repr(fl)).encode()).hexdigest()[:24]
            jobs.append((src, os.path.join(cache, h + '.o'), i, fl))
        todo = [j for j in jobs if not os.path.exists(j[1])]
        todo.sort(key=lambda j: not any(e in j[0] for e in extra))
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(build.JOBS) as ex:
            for f in [ex.submit(build.compile_one, 'g++', s, o, i, fl) for s, o, i, fl in todo]:
                f.result()
        objs = [j[1] for j in jobs]
        h = hashlib.sha256(''.join(objs).encode()).hexdigest()[:16]
        d = os.path.join(build.BUILD, 'py-%s-%s' % (cfg, h))
        os.makedirs(d, exist_ok=True)
        common = objs[:len(objs) - len(extra)]
        for k, name in enumerate(('GPRpy', 'GPRnative')[:len(extra)]):
            so = os.path.join(d, name + '.so')
            if not os.path.exists(so):
                r = subprocess.run(['g++', '-shared', '-fopenmp', '-Wl,-Bsymbolic', '-o', so + '.tmp'] + common +
                                   [objs[len(common) + k]],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise build.BuildError(r.stdout[-6000:])
                os.replace(so + '.tmp', so)
        return d
    finally:
        lock.close()


def command(harness):
    """harness: [file, configuration, with GPRnative]"""
    d = module(*harness[1:])
    py = os.path.join(build.REPO, 'code/python')
    return ['env', 'PYTHONPATH=%s:%s:%s' % (d, py, build.MC), 'PYTHONDONTWRITEBYTECODE=1',
            'OPENBLAS_NUM_THREADS=1', 'OMP_NUM_THREADS=1', PY, os.path.join(build.MC, 'pyrun.py'), harness[0].replace('.py', '')]
