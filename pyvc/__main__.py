"""python3-vt -m pyvc PID [--tier T] [--budget S] [--jobs N] [--only TEXT] [-v]

Generates the obligations of the contracts of one property from the current
source in $VERIF_REPO (default /repo) and discharges them.  The last line
of the output is JSON."""
import argparse
import json
import multiprocessing
import os
import sys
import time
import warnings

TRUSTED = [
    'PyVC itself: symbolic arrays, normal forms and path exploration (pyvc/*.py)',
    'NumPy functions behave as their symbolic definitions in pyvc/symnp.py and pyvc/arr.py state',
    'OpenMDAO calls setup, compute and compute_partials and stores declarations as pyvc/symom.py states',
    'z3 4.x for linear integer side conditions the structural prover leaves open',
    'CPython executes the loaded source; builtins int, float, print and exit are replaced (pyvc/loader.py)',
]
ASSUME = [
    'floating-point arithmetic is treated as real arithmetic',
    'machine integers are treated as mathematical integers',
    'array sizes are at least 1',
]


def load():
    from . import ops
    for m in ('ops2', 'ops3', 'graphc', 'groupc', 'utilc', 'sysc', 'implc'):
        try:
            __import__('pyvc.' + m)
        except ModuleNotFoundError as e:
            if m not in str(e):
                raise
    return ops.REG


CASES = []


def work(k):
    from . import vc, ints
    name, case = CASES[k]
    t = time.time()
    z = dict(ints.STATS)
    ctx = vc.Ctx(name)
    try:
        case(ctx)
    except Exception as e:
        ctx.open('execution', 'verifier error %s: %s' % (type(e).__name__, e))
    res = [{'name': o.name, 'status': o.status, 'detail': o.detail[:800], 'replay': o.replay[:2],
            'paths': o.paths, 'backend': o.backend if hasattr(o, 'backend') else ctx.backend}
           for o in ctx.obls.values()]
    return name, res, time.time() - t, ints.STATS['z3_time'] - z['z3_time'], \
        ints.STATS['z3_queries'] - z['z3_queries'], sorted(vc.OT.sources.items()) if vc.OT else []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=200)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    sys.setrecursionlimit(20000)
    t0 = time.time()
    reg = load()
    if a.pid not in reg:
        print(json.dumps({'obligations': [], 'claimed': False}))
        return
    info = {}
    for g in reg[a.pid]:
        for c in g(a.tier):
            if a.only in c[0]:
                CASES.append(c)
        for k, v in getattr(g, 'info', {}).items():
            info[k] = info.get(k, []) + [w for w in v if w not in info.get(k, [])] if isinstance(v, list) else v
    from . import vc
    err = None
    try:
        vc.ot()
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
    obl, zt, zq, done, src = [], 0.0, 0, set(), {}
    if err is None:
        mp = multiprocessing.get_context('fork')
        with mp.Pool(min(a.jobs, max(1, len(CASES))), maxtasksperchild=40) as pool:
            it = pool.imap_unordered(work, range(len(CASES)), chunksize=1)
            for _ in CASES:
                left = a.budget - (time.time() - t0)
                try:
                    name, res, dt, z, q, s = it.next(timeout=max(left, .1))
                except multiprocessing.TimeoutError:
                    break
                done.add(name)
                obl += res
                zt += z
                zq += q
                src.update(s)
                if a.v:
                    bad = [r for r in res if r['status'] != 'proved']
                    print('%s %s (%d, %.1f s)' % ('ok ' if not bad else 'BAD', name, len(res), dt), flush=True)
                    for r in bad:
                        print('    ', r['status'], r['name'].split('#')[-1], r['detail'][:500])
            pool.terminate()
    for name, _ in CASES:
        if name not in done:
            obl.append({'name': name + '#execution', 'status': 'other', 'replay': [],
                        'detail': err or 'not finished within the time budget', 'backend': '-'})
    obl.sort(key=lambda o: o['name'])
    fn = sorted({n.split('[')[0] for n, _ in CASES})
    print(json.dumps({
        'obligations': obl, 'claimed': True, 'functions': fn, 'trusted_base': TRUSTED,
        'assumptions': ASSUME + info.get('assumptions', []), 'bounded': info.get('bounded', []),
        'solver_s': round(zt, 3), 'z3_queries': zq, 'wall_s': round(time.time() - t0, 2),
        'cases': len(CASES), 'sources': src}))


if __name__ == '__main__':
    main()
