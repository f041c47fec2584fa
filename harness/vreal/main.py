"""usage: python -m vreal.main PID --seed N --tier quick|thorough
          [--budget SECONDS] [--jobs N]      -> JSON on the last line
          python -m vreal.main --replay FILE"""
import argparse
import hashlib
import json
import multiprocessing as mp
import os
import resource
import signal
import sys
import time

import numpy as np

CASE_LIMIT = 120


def _init():
    os.environ.setdefault('OPENMDAO_REPORTS', '0')
    signal.signal(signal.SIGALRM, _alarm)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass


class Timeout(BaseException):
    pass


def _alarm(*a):
    raise Timeout()


def do(arg):
    i, case, deadline = arg
    if time.time() > deadline:
        return i, 'SKIP'
    from . import runner, kinds  # noqa
    signal.alarm(CASE_LIMIT)
    try:
        return i, runner.run_case(case)
    except Timeout:
        return i, 'did not terminate within %d s' % CASE_LIMIT
    except MemoryError:
        return i, 'ran out of memory'
    finally:
        signal.alarm(0)


def cases_of(pid, seed, tier):
    from . import gen_ops, gen_sys
    g = {}
    g.update(gen_ops.GEN)
    g.update(gen_sys.GEN)
    rng = np.random.default_rng([seed, int(pid[1:])])
    cases = list(g[pid](rng, tier))
    # the same cases with operands that are themselves computed
    extra = []
    for k, c in enumerate(cases):
        if c['kind'] in ('prog', 'raises') and pid in gen_ops.GEN and (
                k % 3 == 0 or tier == 'thorough'):
            extra.append(wrap(c))
    return cases + extra


def wrap(case):
    case = json.loads(json.dumps(case))
    p = case['prog']
    n = len(p['inputs'])
    m = lambda a: a + n
    for nd in p['nodes']:
        nd['args'] = [m(a) for a in nd['args']]
        if nd['op'] == 'assign':
            nd['kw']['keys'] = [[k, m(a)] for k, a in nd['kw']['keys']]
            if 'rejects' in nd['kw']:
                nd['kw']['rejects'] = [[q, k, m(a)] for q, k, a in
                                       nd['kw']['rejects']]
    p['nodes'] = [{'op': 'reshape', 'args': [i],
                   'kw': {'shape': q['shape']}}
                  for i, q in enumerate(p['inputs'])] + p['nodes']
    p['outs'] = [[o, m(i)] for o, i in p['outs']]
    return case


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--budget', type=float, default=100)
    ap.add_argument('--jobs', type=int, default=6)
    ap.add_argument('--replay')
    ap.add_argument('--extra')
    a = ap.parse_args()
    _init()
    if a.replay:
        case = json.load(open(a.replay))
        case = case.get('case', case)
        _, msg = do((0, case, time.time() + 1e9))
        print('contract holds' if msg is None else 'VIOLATED: ' + msg)
        sys.exit(0 if msg is None else 1)
    t0 = time.time()
    cases = cases_of(a.pid, a.seed, a.tier)
    if a.extra:
        cases = json.load(open(a.extra)) + cases
    deadline = t0 + a.budget
    args = [(i, c, deadline) for i, c in enumerate(cases)]
    res = {}
    # imported once, workers are forked
    from . import runner, kinds  # noqa
    runner.ot()
    with mp.get_context('fork').Pool(a.jobs, initializer=_init) as pool:
        for i, m in pool.imap_unordered(do, args, chunksize=4):
            res[i] = m
    failures = []
    skipped = 0
    seen = set()
    for i, c in enumerate(cases):
        m = res.get(i)
        if m == 'SKIP':
            skipped += 1
            continue
        seen.add(hashlib.sha1(
            json.dumps({k: v for k, v in c.items() if k != 'seed'
                        and k != 'obligation'},
                       sort_keys=True).encode()).hexdigest())
        if m is not None:
            failures.append({'case': c, 'message': m})
    print(json.dumps({
        'pid': a.pid, 'seed': a.seed, 'tier': a.tier,
        'evaluations': len(cases) - skipped, 'skipped': skipped,
        'distinct': len(seen), 'failures': failures[:50],
        'n_failures': len(failures), 'samples': cases[:1] + cases[-1:],
        'wall_s': time.time() - t0
    }))


if __name__ == '__main__':
    main()
