#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough]

Decides one property on /repo's current working tree:
  1. PyVC generates the obligations of the property's contracts from the
     current source and discharges them            (python3-vt -m pyvc PID)
  2. the bounded contract checks run the real code (/opt/venv python)
  3. every refuted obligation is replayed on the real code.
Exit 0: held; exit 1: VIOLATION line.  Writes evidence/<PID>.json.
"""
import argparse
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
REAL = '/opt/venv/bin/python'
VT = shutil.which('python3-vt') or '/opt/veriftools/pyvenv/bin/python'


def env(scratch):
    e = dict(os.environ)
    e.update(OPENMDAO_REPORTS='0', MPLBACKEND='Agg', OMP_NUM_THREADS='1',
             OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             PYTHONDONTWRITEBYTECODE='1', OPENMDAO_WORKDIR=scratch,
             HOME=scratch, PYTHONHASHSEED='0', VERIF_REPO=REPO,
             PYTHONPATH=os.path.join(HERE, 'harness') + ':' + REPO)
    return e


def run_json(cmd, e, cwd, limit):
    """last line of stdout as JSON; None and the reason otherwise"""
    try:
        p = subprocess.run(cmd, env=e, cwd=cwd, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=limit, text=True)
    except subprocess.TimeoutExpired:
        return None, 'timed out after %d s' % limit
    lines = p.stdout.strip().splitlines()
    try:
        return json.loads(lines[-1]), None
    except Exception:
        return None, 'exit %d: %s' % (p.returncode, (p.stderr or '')[-2000:])


def findings():
    p = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                res.append(l)
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    pid = a.pid
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vchk')
    try:
        rc = decide(pid, tier, seed, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def decide(pid, tier, seed, scratch, t0):
    e = env(scratch)
    quick = tier == 'quick'
    # --- obligations --------------------------------------------------------
    e2 = dict(e, PYTHONPATH=HERE)
    proof, why = run_json([VT, '-m', 'pyvc', pid, '--tier', tier,
                           '--budget', '220' if quick else '560'], e2, HERE,
                          300 if quick else 700)
    notes = []
    if proof is None:
        notes.append('PyVC gave no answer (%s); bounded checks decide' % why)
        proof = {'obligations': [], 'claimed': False}
    obl = proof['obligations']
    refuted = [o for o in obl if o['status'] == 'refuted']
    failed = [o for o in obl if o['status'] == 'failed']
    open_ = [o for o in obl if o['status'] not in ('proved', 'refuted', 'failed')]
    # --- bounded checks on the real code, replay of counterexamples ---------
    extra = os.path.join(scratch, 'extra.json')
    with open(extra, 'w') as f:
        cases = []
        for o in refuted:
            for c in o.get('replay', []):
                cases.append(dict(c, obligation=o['name']))
        json.dump(cases, f)
    bounded, why = run_json([
        REAL, '-m', 'vreal.main', pid, '--seed', str(seed), '--tier', tier,
        '--budget', '150' if quick else '600', '--extra', extra
    ], e, scratch, 400 if quick else 850)
    failures = []
    if bounded is None:
        # the real code does not even import or the harness was killed:
        # report with what is known
        notes.append('bounded checks gave no answer: %s' % why)
        imp = subprocess.run([REAL, '-c', 'import omtools.api'], env=e,
                             cwd=scratch, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True)
        if imp.returncode != 0:
            failures.append({'case': {'kind': 'import'},
                             'message': 'import omtools.api fails: ' +
                             imp.stderr[-1500:]})
        bounded = {'evaluations': 0, 'distinct': 0, 'samples': [],
                   'failures': [], 'n_failures': 0, 'skipped': 0,
                   'wall_s': 0}
    failures += bounded['failures']
    known = findings()
    new = []
    for f in failures:
        hit = [l for l in known if 'property=%s ' % pid in l
               and f['case'].get('known') and
               ('id=' + f['case']['known']) in l]
        if hit:
            line = 'KNOWN-FINDING: property=%s %s' % (
                pid, hit[0].split(' ', 3)[-1])
            if line not in notes:
                notes.append(line)
                print(line)
        else:
            new.append(f)
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    rc = 0
    hitobl = {f['case'].get('obligation') for f in new}
    silent = [o for o in refuted + failed if o['name'] not in hitobl]
    if new:
        path = os.path.join(rdir, pid + '.json')
        # prefer a replayed counterexample of an obligation
        new.sort(key=lambda f: 0 if f['case'].get('obligation') else 1)
        with open(path, 'w') as f:
            json.dump({
                'property': pid, 'case': new[0]['case'],
                'message': new[0]['message'],
                'replay': 'bash replay.sh replays/%s.json' % pid,
                'others': new[1:10],
                'failed_obligations': (refuted + failed)[:20],
                'undecided_obligations': open_[:20],
            }, f, indent=1, default=str)
        print('%s: %s' % (pid, new[0]['message'][:600]))
        for o in (refuted + failed)[:5]:
            print('  failed obligation %s: %s' % (o['name'],
                                                  o.get('detail', '')[:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        rc = 1
    elif silent:
        path = os.path.join(rdir, pid + '.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'failed_obligations': silent}, f,
                      indent=1, default=str)
        for o in silent[:5]:
            print('failed obligation %s: %s' % (o['name'],
                                                o.get('detail', '')[:600]))
        print('VIOLATION property=%s replay=%s no-failing-input-found' %
              (pid, path))
        rc = 1
    proved = [o for o in obl if o['status'] == 'proved']
    cov = {
        'bounded_evaluations': bounded['evaluations'],
        'bounded_distinct': bounded['distinct'],
        'bounded_skipped_for_time': bounded.get('skipped', 0),
        'bounded_wall_s': round(bounded.get('wall_s', 0), 2),
        'samples': bounded['samples'],
    }
    level = 'exploration'
    if proof.get('claimed') and obl:
        level = 'proof'
        by = {}
        for o in proved:
            by[o.get('backend', '?')] = by.get(o.get('backend', '?'), 0) + 1
        cov.update({
            'obligations': len(obl), 'discharged': len(proved),
            'checker_cmd': 'python3-vt -m pyvc %s --tier %s' % (pid, tier),
            'trusted_base': proof.get('trusted_base', []),
            'functions_under_contract': proof.get('functions', []),
            'discharged_by': by,
            'solver_s': proof.get('solver_s', 0),
            'pyvc_wall_s': proof.get('wall_s', 0),
            'undischarged': [{k: o.get(k) for k in ('name', 'status',
                                                    'detail')}
                             for o in open_ + failed + refuted][:60],
            'sample_obligations': [o['name'] for o in proved[:12]],
            'bounded_stand_ins': proof.get('bounded', []),
        })
    else:
        cov.update({
            'evaluations': bounded['evaluations'],
            'distinct_nontrivial': bounded['distinct'],
            'rule': 'generated contract instances on the real code; distinct '
                    'up to the value seed',
        })
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
        json.dump({
            'property': pid, 'tier': tier, 'seed': seed, 'level': level,
            'coverage': cov,
            'assumptions': proof.get('assumptions', []) + notes,
            'wall_s': round(time.time() - t0, 2),
            'violations': len(new) + len(silent),
        }, f, indent=1, default=str)
    if rc == 0:
        print('%s: held (%d/%d obligations discharged, %d bounded '
              'evaluations, %.1f s)' % (pid, len(proved), len(obl),
                                        bounded['evaluations'],
                                        time.time() - t0))
    return rc


if __name__ == '__main__':
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    main()
