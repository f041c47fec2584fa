"""Runs cases against the real omtools of /repo; every `kind` is a bounded
check of the property's contract on the real code (no solver involved)."""
import contextlib
import io
import os
import sys
import traceback

import numpy as np

from . import prog as P

KINDS = {}
_OT = None


def ot():
    global _OT
    if _OT is None:
        import omtools.api as api
        _OT = api
    return _OT


def kind(name):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


class Bad(Exception):
    """contract violated"""


def check(cond, msg):
    if not cond:
        raise Bad(msg)


def close(a, b, tol=1e-10):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        return False
    m = np.isfinite(b)
    scale = 1. + (np.max(np.abs(b[m])) if np.any(m) else 0.)
    return bool(np.all(np.abs(a[m] - b[m]) <= tol * scale))


def short(a):
    return np.array2string(np.asarray(a), precision=6, threshold=40).replace(
        '\n', ' ')


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                yield


def build_model(prog, point0, capture=None):
    """Group subclass for a program; capture receives expressions"""
    api = ot()

    def setup(self):
        vals = []
        for inp in prog['inputs']:
            v = np.array(point0[inp['name']], dtype=float)
            sh = tuple(inp['shape'])
            if prog.get('via', 'indep') == 'indep':
                vals.append(
                    self.create_indep_var(inp['name'], shape=sh, val=v))
            else:
                vals.append(self.declare_input(inp['name'], shape=sh, val=v))
        for j, nd in enumerate(prog['nodes']):
            if nd['op'] == 'assign':
                o = self.create_output(nd['kw']['name'],
                                       shape=tuple(nd['kw']['shape']))
                ks = nd['kw']['keys']
                for q in range(len(ks) + 1):
                    # rejected assignments have no effect
                    for p, k, a in nd['kw'].get('rejects', []):
                        if p == q:
                            try:
                                o[P.dekey(k)] = vals[a]
                            except Exception:
                                continue
                            raise Bad('assignment %s to be rejected is '
                                      'accepted' % (k, ))
                    if q < len(ks):
                        o[P.dekey(ks[q][0])] = vals[ks[q][1]]
                vals.append(o)
            else:
                vals.append(P.SPEC[nd['op']][0](
                    api, [vals[a] for a in nd['args']], nd.get('kw', {})))
        for o, i in prog['outs']:
            if prog['nodes'] and i >= len(prog['inputs']) and prog['nodes'][
                    i - len(prog['inputs'])]['op'] == 'assign':
                continue
            self.register_output(o, vals[i])
        if prog.get('reverse'):
            self.reverse_branch_sorting = True
        if capture is not None:
            capture['vals'] = vals
            capture['shapes'] = [tuple(v.shape) for v in vals]

    return type('M', (api.Group, ), {'setup': setup})


def new_problem(model_cls, **kw):
    from openmdao.api import Problem
    prob = Problem()
    prob.model = model_cls(**kw)
    prob.setup(force_alloc_complex=False)
    return prob


def points(prog, seed, n):
    rng = np.random.default_rng(seed)
    pts = []
    for _ in range(n):
        pts.append({
            i['name']: P.sample(i.get('dom', 'any'), i['shape'], rng)
            for i in prog['inputs']
        })
    return pts


def used(prog):
    todo = [i for _, i in prog['outs']]
    seen = set()
    n = len(prog['inputs'])
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        if i >= n:
            nd = prog['nodes'][i - n]
            todo += nd['args']
            if nd['op'] == 'assign':
                todo += [a for _, a in nd['kw']['keys']]
    return seen


@kind('prog')
def run_prog(case):
    """value, shape, derivative at two points and again at the first"""
    prog = case['prog']
    pts = points(prog, case['seed'], 2)
    if case.get('points'):
        for q, r in zip(pts, case['points']):
            for k, v in r.items():
                q[k] = np.array(v, dtype=float)
    cap = {}
    cls = build_model(prog, pts[0], cap)
    with quiet():
        prob = new_problem(cls)
    outs = [(o, i) for o, i in prog['outs']]
    wrt = [i['name'] for i in prog['inputs']]
    if prog.get('via') == 'input':
        # inputs nobody uses do not appear in the model
        use = used(prog)
        wrt = [n for k, n in enumerate(wrt) if k in use]
    tol = case.get('tol', 1e-10)
    if any((n.get('kw') or {}).get('t') == 'float32' for n in prog['nodes']):
        tol = 1e-6          # constants of single precision
    # declared shapes of all expressions
    base = P.oracle(prog, pts[0])
    for j, (sh, v) in enumerate(zip(cap['shapes'], base)):
        check(tuple(int(s) for s in sh) == np.shape(v),
              'declared shape %s of value %d, computed value has shape %s' %
              (sh, j, np.shape(v)))
    seq = [0, 1, 0] if not case.get('single') else [0]
    for step, ip in enumerate(seq):
        pt = pts[ip]
        with quiet():
            if step or prog.get('via') == 'input':
                for n in wrt:
                    prob[n] = pt[n]
            prob.run_model()
        want, jac = P.jacobian(prog, pt, outs)
        for n in wrt:
            check(np.array_equal(prob[n], pt[n]),
                  'evaluation changed input %s' % n)
        for o, i in outs:
            got = np.array(prob[o])
            w = np.real(np.asarray(want[i]))
            m = ~np.isnan(w)
            check(got.shape == w.shape, 'output %s has shape %s, expected %s' %
                  (o, got.shape, w.shape))
            check(close(np.where(m, got, 0.), np.where(m, w, 0.), tol),
                  'value of %s at point %d: got %s expected %s' %
                  (o, ip, short(got), short(w)))
        if case.get('noderiv'):
            continue
        with quiet():
            J = prob.compute_totals(of=[o for o, _ in outs], wrt=wrt)
        for o, i in outs:
            w = np.real(np.asarray(want[i])).reshape(-1)
            m = ~np.isnan(w)
            for n in wrt:
                g = np.where(m[:, None], J[o, n], 0.)
                e = np.where(m[:, None], jac[o, n], 0.)
                check(close(g, e, tol),
                      'derivative d%s/d%s at point %d (step %d): got %s '
                      'expected %s' % (o, n, ip, step, short(J[o, n]),
                                       short(jac[o, n])))
    return prob, cap


@kind('raises')
def run_raises(case):
    """building the expressions must raise (before any model run)"""
    prog = case['prog']
    pts = points(prog, case['seed'], 1)
    for k, v in (case.get('values') or {}).items():
        pts[0][k] = np.array(v, dtype=float)
    cls = build_model(prog, pts[0])
    stage = case.get('stage', 'setup')
    try:
        with quiet():
            prob = new_problem(cls)
            if stage == 'run':
                prob.run_model()
                got = {o: short(prob[o]) for o, _ in prog['outs']}
    except SystemExit as e:
        raise Bad('interpreter exit instead of an error: %r' % e)
    except Exception:
        return
    raise Bad('not rejected' if stage != 'run' else
              'not rejected; returned %r' % got)


def run_case(case):
    """None if the contract held, else a message"""
    try:
        KINDS[case['kind']](case)
        return None
    except Bad as e:
        return str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '%s:%d' % (os.path.relpath(tb[-1].filename, '/repo')
                           if tb[-1].filename.startswith('/repo') else
                           tb[-1].filename, tb[-1].lineno) if tb else '?'
        return 'raised %s: %s (at %s)' % (type(e).__name__, str(e)[:300],
                                          where)
