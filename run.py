#!/usr/bin/env python3
"""Runs the check of one property:   run.py P01 [--tier quick|thorough] [--workers N]
   Replays what a check found:       run.py --replay replays/P01-....json
Exit 0: held on everything explored.  1: VIOLATION.  2: the check itself failed."""
import argparse, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'mc'))
import build
from checks import CHECKS


def known():
    """key patterns of the findings of this property that were recorded, not repaired"""
    r = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p, encoding='utf-8'):
        m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line.strip())
        if m:
            r.append(m.groups())
    return r


def entries(prop, tier):
    c = CHECKS[prop]
    return c['runs'] + (c.get('thorough', []) if tier == 'thorough' else [])


def commands(runs):
    """-> argv prefixes of the harnesses of these runs"""
    cpp = [r for r in runs if r['cfg'] != 'python']
    exe = dict(zip([id(r) for r in cpp],
                   build.build_many([(r['cfg'], r['harness']) for r in cpp])))
    res = []
    for r in runs:
        if r['cfg'] == 'python':
            import pybuild
            res.append(pybuild.command(r['harness']))
        else:
            res.append([exe[id(r)]])
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--workers', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--cfg', help='only these configurations')
    a = ap.parse_args()

    if a.replay:
        r = json.load(open(a.replay))
        cmd = commands([r['run']])[0] + ['--out', '/dev/null', '--tier', r['tier'], '--replay',
                                   '%s:%s' % (r['scenario'], r['choices'])]
        print(' '.join(cmd), flush=True)
        return subprocess.call(cmd)

    prop, tier = a.prop, a.tier
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev = dict(property=prop, tier=tier, seed=seed, level='model_checking')
    tot = dict(states=0, transitions=0, traces_validated_against_impl=0, evaluations=0)
    samples, per, capped, found, bad = [], [], False, [], []
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    evf = os.path.join(VERIF, 'evidence', prop + '.json')
    if os.path.exists(evf):
        os.remove(evf)

    runs = entries(prop, tier)
    if a.cfg:
        runs = [r for r in runs if r['cfg'] in a.cfg.split(',')]
    try:
        cmds = commands(runs)
    except build.BuildError as e:
        print('BUILD ERROR\n%s' % e, file=sys.stderr)
        return 2
    print('%s built in %.1fs' % (prop, time.time() - t0), flush=True)
    kn = [k for k in known() if k[0] == prop]
    # the quick run gives its answer in time: what it did not reach, it reports as not explored
    deadline = t0 + 760 if tier == 'quick' else 0
    for run, cmd in zip(runs, cmds):
        tb = time.time()
        if [f for f in found if f['key'] not in [k[1] for k in kn]] and tb > t0 + 240:
            capped = True
            break
        out = os.path.join(VERIF, 'build', 'out-%s-%s-%d.txt' % (prop, run['cfg'], os.getpid()))
        argv = cmd + ['--out', out, '--workers', str(a.workers), '--tier', tier]
        if a.only:
            argv += ['--only', a.only]
        argv += ['--deadline', '%.0f' % deadline] if deadline else []
        argv += [x for k in kn for x in ('--known', k[1])]
        if run.get('scenarios'):
            argv += ['--only', run['scenarios']]
        env = dict(os.environ, OMP_NUM_THREADS='1')
        log = subprocess.run(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env,
                             text=True, errors='replace')
        lines = open(out, errors='replace').read().split('\n') if os.path.exists(out) else []
        if os.path.exists(out):
            os.remove(out)
        scen = []
        done = False
        for l in lines:
            f = l.split('\t')
            if f[0] == 'FOUND':
                print('  found: ' + ' '.join(f[2:5]), flush=True)
            if f[0] == 'SCENARIOS':
                scen = f[1:]
            if f[0] == 'DONE':
                done = True
        for l in lines:
            f = l.split('\t')
            if f[0] == 'FOUND':
                f += [''] * 8
                found.append(dict(run={k: run[k] for k in ('cfg', 'harness')},
                                  scenario=scen[int(f[1])] if scen else f[1], key=f[2],
                                  choices=f[3], message=f[4], labelled=f[5], note=f[6],
                                  confirmed=f[7], tier=tier, property=prop))
            elif f[0] == 'SAMPLE' and len([s for s in samples if s['scenario'] == f[1]]) < 2:
                samples.append(dict(cfg=run['cfg'], scenario=f[1], choices=f[2],
                                    note=f[3] if len(f) > 3 else ''))
            elif f[0] == 'STATS':
                d = dict(cfg=run['cfg'] if run['cfg'] != 'python' else run['harness'][1], scenario=f[1], executions=int(f[2]), transitions=int(f[3]),
                         comparisons=int(f[4]), states=int(f[5]), outcomes=int(f[6]),
                         capped=f[7] != '0' or f[8] != '0', wall_s=float(f[9]))
                per.append(d)
                capped |= d['capped']
                tot['states'] += d['states']
                tot['transitions'] += d['transitions']
                tot['traces_validated_against_impl'] += d['executions']
                tot['evaluations'] += d['comparisons']
        if not done:
            print(log.stdout[-3000:], file=sys.stderr)
            bad.append('harness %s did not finish (%s)' % (run['harness'], log.returncode))
        print('%s %s/%s: %.1fs' % (prop, run['cfg'], run['harness'][0], time.time() - tb),
              flush=True)

    viol, seen = [], {}
    for f in found:
        hit = [k for k in kn if f['key'] == k[1]]
        if hit:
            seen[hit[0][1]] = hit[0]
        elif f['confirmed'] == 'UNSTABLE':
            bad.append('unstable: %s %s' % (f['key'], f['message']))
        else:
            viol.append(f)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s%s' % (
            prop, k[2], '' if k[1] in seen else ' (did not show in this run)'))
    shown = set()
    for f in viol:
        k = (f['scenario'], f['key'])
        if k in shown:
            continue
        shown.add(k)
        p = os.path.join(VERIF, 'replays', '%s-%s.json' % (
            prop, hashlib.sha1(json.dumps(f, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(f, open(p, 'w'), indent=1, ensure_ascii=False)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  %s/%s [%s] %s' % (f['run']['cfg'], f['scenario'], f['key'], f['message']))
        print('  with %s  %s' % (f['labelled'], f['note'][:300]))
    ev['coverage'] = dict(tot, samples=samples[:24], scenarios=per,
                          exhaustive=not capped and not bad,
                          rule='every sequence of answers to the choices of the scenarios, '
                               'depth first, on the real code')
    ev['assumptions'] = CHECKS[prop].get('assumptions', [])
    ev['violations'] = len(shown)
    ev['wall_s'] = round(time.time() - t0, 2)
    json.dump(ev, open(evf, 'w'), indent=1, ensure_ascii=False)
    for d in per:
        print('  %-34s %9d executions %10d transitions %9d states %8.1fs' % (
            d['cfg'] + '/' + d['scenario'], d['executions'], d['transitions'], d['states'],
            d['wall_s']))
    build.clean_old()
    if shown:
        return 1
    if bad:
        for b in bad:
            print('ERROR: ' + b, file=sys.stderr)
        return 2
    print('%s holds: %d executions, %d transitions, %d states, %.1fs' % (
        prop, tot['traces_validated_against_impl'], tot['transitions'], tot['states'],
        time.time() - t0))
    return 0


if __name__ == '__main__':
    sys.exit(main())
