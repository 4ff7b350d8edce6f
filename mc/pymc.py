"""The explorer of mc.h for harnesses in Python: every execution is a sequence of
choices; all sequences are run, depth first, distributed over worker processes."""
import argparse
import mmap
import multiprocessing
import os
import pickle
import signal
import sys
import tempfile
import time
import traceback

import numpy as np


class Failed(Exception):
    pass


class Skip(Exception):
    pass


class Run:
    """one execution: follows a prefix of choices, then always the first option"""

    def __init__(self, prefix, write=None):
        self.prefix, self.taken, self.width, self.labels = prefix, [], [], []
        self.write, self.stop = write, None
        if write:
            write([], [])
        self.comparisons = 0
        self.found = []
        self.worst = 0.
        self.outcomes = set()

    def choose(self, options, name):
        """the explorer's choice of one of these (a number: of 0..n-1)"""
        opts = list(range(options)) if isinstance(options, int) else list(options)
        i = len(self.taken)
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(c)
        self.width.append(len(opts))
        if self.write:
            self.write(self.taken, self.width)
        if self.stop and len(self.taken) >= self.stop:
            raise Skip()
        o = opts[c]
        lab = o if isinstance(o, (str, int, float, bool, type(None))) else (
            o[0] if isinstance(o, tuple) and isinstance(o[0], str) else c)
        self.labels.append('%s=%s' % (name, lab))
        return o

    def fail(self, key, msg):
        if key not in [k for k, _ in self.found]:
            self.found.append((key, msg))

    def check(self, cond, key, msg=''):
        self.comparisons += 1
        if not cond:
            self.fail(key, msg)

    def close(self, got, want, key, tol=1e-10, scale=None):
        """equal up to rounding: relative to the largest entry, or to the scale"""
        g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        self.comparisons += max(1, w.size)
        if g.shape != w.shape:
            return self.fail(key, 'shape %s, not %s' % (g.shape, w.shape))
        s = max(np.abs(w).max() if w.size else 0., np.abs(g[np.isfinite(g)]).max() if np.isfinite(g).any() else 0.,
                scale or 0.)
        ok = np.isfinite(g) & (np.abs(g - w) <= tol * s + 1e-300)
        if not ok.all():
            k = np.argwhere(~np.atleast_1d(ok))[0]
            self.fail(key, 'entry %s is %r, not %r' % (
                list(k), np.atleast_1d(g)[tuple(k)], np.atleast_1d(w)[tuple(k)]))
        elif s > 0 and w.size:
            self.worst = max(self.worst, float(np.abs(g - w).max() / s / tol))
        self.outcomes.add(hash(g.tobytes()))


def execute(fn, r):
    try:
        with np.errstate(all='ignore'):
            fn(r)
    except Skip:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        r.fail('exception-' + type(e).__name__ + '-' + tb.name, '%s (%s:%d)' % (
            str(e).replace('\n', ' ')[:200], os.path.basename(tb.filename), tb.lineno))
    return r


SCEN = {}

# Once something failed the workers go on for a while, for more to show, and stop.
GRACE = 30.
FOUND = multiprocessing.Value('d', 0.)
KNOWN, DEADLINE = set(), 0.


def enough():
    t = time.time()
    return (FOUND.value and t > FOUND.value + GRACE) or (DEADLINE and t > DEADLINE)


def scenario(name):
    def deco(f):
        SCEN[name] = f
        return f
    return deco


def subtree(name, prefix, cur, write):
    """every execution below one prefix, from cur on; write(cur) is called before each"""
    fn = SCEN[name]
    st = dict(execs=0, trans=0, comps=0, states=0, worst=0., found=[], outcomes=set(), samples=[],
              stopped=False)
    while cur is not None:
        if enough():
            st['stopped'] = True
            return st
        r = Run(cur, write)
        execute(fn, r)
        st['execs'] += 1
        st['trans'] += len(r.taken)
        st['states'] += len(r.taken) - (len(cur) if st['execs'] > 1 else 0) + 1
        st['comps'] += r.comparisons
        st['worst'] = max(st['worst'], r.worst)
        st['outcomes'] |= r.outcomes
        for k, m in r.found:
            if not FOUND.value and k not in KNOWN:
                FOUND.value = time.time()
            if k not in [f[0] for f in st['found']]:
                st['found'].append((k, m, list(r.taken), ' '.join(r.labels)))
        if st['execs'] % 97 == 1 and len(st['samples']) < 2:
            st['samples'].append((list(r.taken), ' '.join(r.labels)))
        cur = following(r.taken, r.width, prefix)
    return st


def following(taken, width, prefix):
    nxt = list(taken)
    while len(nxt) > len(prefix) and nxt[-1] + 1 >= width[len(nxt) - 1]:
        nxt.pop()
    if len(nxt) <= len(prefix):
        return None
    nxt[-1] += 1
    return nxt


DEPTH = 256


class Child:
    """a forked process that explores a subtree; it may die of the code under test"""

    def __init__(self, name, prefix, cur):
        self.name, self.prefix = name, prefix
        self.mem = mmap.mmap(-1, 8 * (1 + 2 * DEPTH))
        self.at = np.frombuffer(self.mem, dtype=np.int64)
        self.out = tempfile.TemporaryFile()
        sys.stdout.flush()
        self.pid = os.fork()
        if self.pid == 0:
            code = 99
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)

                def write(taken, width):
                    if not taken:
                        signal.alarm(LIMIT)
                    self.at[0] = len(taken)
                    if taken and len(taken) <= DEPTH:
                        self.at[2 * len(taken) - 1] = taken[-1]
                        self.at[2 * len(taken)] = width[-1]
                pickle.dump(subtree(name, prefix, cur, write), self.out)
                self.out.flush()
                code = 0
            finally:
                os._exit(code)

    def died(self):
        """-> (choices, widths) of the execution that was running"""
        n = min(int(self.at[0]), DEPTH)
        return [int(x) for x in self.at[1:2 * n + 1:2]], [int(x) for x in self.at[2:2 * n + 1:2]]

    def result(self):
        self.out.seek(0)
        return pickle.load(self.out)


LIMIT = 120


def how(status):
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        return ('hang', 'did not finish') if s == signal.SIGALRM else (
            'crash', 'killed by signal %s' % signal.Signals(s).name)
    return 'crash', 'exited with status %d' % os.WEXITSTATUS(status)


def lost(key, msg, choices, stopped=False):
    return dict(execs=1, trans=len(choices), comps=0, states=1, worst=0., outcomes=set(), samples=[],
                stopped=stopped, found=[(key, msg, choices, ' '.join(map(str, choices)))])


def explore(name, workers):
    """-> the results of all subtrees, each explored in a process of its own"""
    run, parts, crashes = {}, [], 0
    todo = [(p, list(p)) for p in prefixes(name, 8 * workers)]
    while todo or run:
        while todo and len(run) < workers:
            p, cur = todo.pop(0)
            c = Child(name, p, cur)
            run[c.pid] = c
        pid, status = os.wait()
        c = run.pop(pid, None)
        if c is None:
            continue
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            parts.append(c.result())
            continue
        key, msg = how(status)
        taken, width = c.died()
        crashes += 1
        if not FOUND.value and key not in KNOWN:
            FOUND.value = time.time()
        parts.append(lost(key, msg, taken))
        nxt = following(taken, width, c.prefix)
        if nxt is not None:
            # what the child had explored before is not counted, and not looked at again
            if crashes < 40 and not enough():
                todo.append((c.prefix, nxt))
            else:
                parts[-1]['stopped'] = True
    return parts


def probe(name, prefix):
    """-> number of options after the prefix (0: none), in a process of its own"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(LIMIT)
            run = Run(prefix)
            run.stop = len(prefix) + 1
            execute(SCEN[name], run)
            n = run.width[len(prefix)] if len(run.taken) > len(prefix) else 0
            os.write(w, str(n).encode())
        finally:
            os._exit(0)
    os.close(w)
    s = os.read(r, 32)
    os.close(r)
    os.waitpid(pid, 0)
    return int(s) if s else 0


def prefixes(name, want):
    """the branches of the tree's first levels, at least so many if there are"""
    level = [[]]
    while len(level) < want:
        new, grew = [], False
        for p in level:
            n = probe(name, p)
            if n:
                new += [p + [i] for i in range(n)]
                grew = True
            else:
                new.append(p)
        level = new
        if not grew:
            break
    return level


def confirm(name, key, choices):
    """the same choices fail the same way in a process of their own"""
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 99
        try:
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(2 * LIMIT)
            r = Run(choices)
            execute(SCEN[name], r)
            code = 7 if key in [k for k, _ in r.found] else 0
        finally:
            os._exit(code)
    _, status = os.waitpid(pid, 0)
    if os.WIFEXITED(status) and os.WEXITSTATUS(status) in (0, 7):
        return os.WEXITSTATUS(status) == 7
    return how(status)[0] == key


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--deadline', type=float, default=0.)
    ap.add_argument('--known', action='append', default=[])
    a = ap.parse_args()
    global DEADLINE
    DEADLINE = a.deadline
    KNOWN.update(a.known)
    os.environ['MC_TIER'] = a.tier
    if a.replay:
        name, ch = a.replay.split(':')
        r = execute(SCEN[name], Run([int(x) for x in ch.split(',') if x]))
        print(' '.join(r.labels))
        for k, m in r.found:
            print('FAILED %s %s' % (k, m))
        if not r.found:
            print('PASSED')
        return 1 if r.found else 0
    names = [n for n in SCEN if not a.only or n in a.only.split(',')]
    with open(a.out, 'w') as o:
        o.write('SCENARIOS\t' + '\t'.join(names) + '\n')
        for i, n in enumerate(names):
            t0 = time.time()
            parts = explore(n, a.workers)
            tot = dict(execs=0, trans=0, comps=0, states=1, worst=0., outcomes=set())
            found = {}
            for s in parts:
                for k in ('execs', 'trans', 'comps', 'states'):
                    tot[k] += s[k]
                tot['worst'] = max(tot['worst'], s['worst'])
                tot['outcomes'] |= s['outcomes']
                for f in s['found']:
                    found.setdefault(f[0], f)
            for k, m, ch, lab in found.values():
                again = confirm(n, k, ch)
                o.write('FOUND\t%d\t%s\t%s\t%s\t%s\t\t%s\n' % (
                    i, k, ','.join(map(str, ch)), m.replace('\t', ' '), lab.replace('\t', ' '),
                    'confirmed' if again else 'UNSTABLE'))
            for ch, lab in [x for s in parts for x in s['samples']][:2]:
                o.write('SAMPLE\t%s\t%s\t%s\n' % (n, ','.join(map(str, ch)), lab))
            o.write('STATS\t%s\t%d\t%d\t%d\t%d\t%d\t0\t%d\t%.2f\n' % (
                n, tot['execs'], tot['trans'], tot['comps'], tot['states'], len(tot['outcomes']),
                any(s['stopped'] for s in parts), time.time() - t0))
            print('%s: %d executions, %d comparisons, worst %.2g, %.1fs' % (
                n, tot['execs'], tot['comps'], tot['worst'], time.time() - t0))
        o.write('DONE\n')
    return 0


if __name__ == '__main__':
    sys.exit(main())
