"""Case generators for the operator properties (C01-C11, C15, C21, C22)."""
import itertools

import numpy as np

from .prog import EW, SPEC, dekey, npkey

GEN = {}


def gen(pid):
    def deco(f):
        GEN[pid] = f
        return f
    return deco


NAMES = ['x', 'y', 'z', 'u', 'v', 'w', 'p', 'q', 'r', 's']


def one(op, shapes, kw=None, doms=None, seed=0, names=None, args=None, **extra):
    names = names or NAMES
    if len(shapes) > len(names):
        names = ['n%d' % i for i in range(len(shapes))]
    prog = {
        'inputs': [{
            'name': names[i],
            'shape': list(s),
            'dom': (doms[i] if isinstance(doms, list) else doms) or 'any'
        } for i, s in enumerate(shapes)],
        'nodes': [{
            'op': op,
            'args': list(range(len(shapes))) if args is None else args,
            'kw': kw or {}
        }],
    }
    prog['outs'] = [['out', len(shapes)]]
    if extra.pop('via', None) == 'input':
        prog['via'] = 'input'
    return dict({'kind': 'prog', 'prog': prog, 'seed': seed}, **extra)


class R:
    """random helper"""
    def __init__(self, rng):
        self.rng = rng

    def i(self, a, b):
        return int(self.rng.integers(a, b + 1))

    def seed(self):
        return int(self.rng.integers(1, 2**31))

    def pick(self, l):
        return l[self.i(0, len(l) - 1)]

    def shape(self, rmin=1, rmax=4, dmax=4, cap=60):
        while True:
            s = [self.i(1, dmax) for _ in range(self.i(rmin, rmax))]
            if np.prod(s) <= cap:
                return s

    def perm(self, n):
        return [int(k) for k in self.rng.permutation(n)]

    def via(self):
        return self.pick(['indep', 'input'])


def N(tier, q, t):
    return t if tier == 'thorough' else q


@gen('C01')
def g01(rng, tier):
    r = R(rng)
    fixed = [[1], [3], [2, 3], [1, 4], [2, 1, 3], [2, 3, 2, 2]]
    for op, (_, dom) in EW.items():
        for s in fixed:
            yield one(op, [s], doms=dom, seed=r.seed(), via=r.via())
    # the function of a computed expression, and two functions in a chain
    for k in range(N(tier, 40, 600)):
        op = r.pick(list(EW))
        yield one(op, [r.shape(1, 5)], doms=EW[op][1], seed=r.seed(),
                  via=r.via())
    smooth = ['sin', 'cos', 'arctan', 'tanh', 'sech', 'exp', 'sinh', 'cosh']
    for k in range(N(tier, 30, 300)):
        s = r.shape(1, 3)
        a, b = r.pick(smooth), r.pick(['sin', 'cos', 'arctan', 'tanh', 'sech'])
        c = one(b, [s], doms='unit', seed=r.seed())
        c['prog']['nodes'] = [{'op': a, 'args': [0]}, {'op': b, 'args': [1]},
                              {'op': b, 'args': [0]}]
        c['prog']['outs'] = [['f', 2], ['g', 3]]
        yield c
    # wide argument ranges where the function allows it
    for op, pts in {
            'sin': 'angle', 'cos': 'angle', 'arctan': 'big', 'tanh': 'angle',
            'sech': 'angle', 'exp': 'angle', 'sinh': 'angle', 'cosh': 'angle',
    }.items():
        yield one(op, [[7]], doms=pts, seed=r.seed())
    for op in ('tan', 'sec'):
        c = one(op, [[4]], seed=r.seed())
        c['points'] = [{'x': [2.5, -2.4, 3.9, 9.1]}, {'x': [1.2, 4., -4., 7.]}]
        yield c
    for op in ('arcsin', 'arccos'):
        c = one(op, [[4]], seed=r.seed())
        c['points'] = [{'x': [.999, -.999, 0., .5]}, {'x': [-.5, .1, .9, -.1]}]
        yield c
    for op in ('cosec', 'cotan'):
        c = one(op, [[4]], seed=r.seed())
        c['points'] = [{'x': [4., -4., 8., .01]}, {'x': [-8., 2., 5., -2.]}]
        yield c


@gen('C02')
def g02(rng, tier):
    r = R(rng)
    shapes = [[1], [4], [2, 3], [2, 1, 3]]

    def dom(op, side=None):
        return 'any'

    for s in shapes:
        for op in ('add', 'sub', 'mul', 'div'):
            d = ['any', 'nonzero'] if op == 'div' else 'any'
            yield one(op, [s, s], doms=d, seed=r.seed(), via=r.via())
            # operands given in reverse order of their creation
            yield one(op, [s, s], doms='nonzero', args=[1, 0], seed=r.seed())
            # same expression twice
            yield one(op, [s], doms='nonzero', args=[0, 0], seed=r.seed())
            for c in (2, -3, 0.5, -1.25, 7.0):
                yield one(op + '_c', [s], {'c': c}, seed=r.seed())
                yield one('c_' + op, [s], {'c': c}, doms='nonzero',
                          seed=r.seed())
            arr = np.round(rng.uniform(.5, 3., size=s), 3) * np.where(
                rng.uniform(size=s) < .5, -1, 1)
            yield one(op + '_c', [s], {'c': arr.tolist()}, seed=r.seed())
            if op != 'div':
                yield one(op + '_c', [s], {'c': 0}, seed=r.seed())
        yield one('neg', [s], seed=r.seed())
        c = one('neg', [s], seed=r.seed())
        c['prog']['nodes'] = [{'op': 'neg', 'args': [0]},
                              {'op': 'pos', 'args': [1]},
                              {'op': 'neg', 'args': [2]}]
        c['prog']['outs'] = [['out', 3]]
        yield c
        for p, d in ((2, 'any'), (3, 'any'), (1, 'any'), (2., 'any'),
                     (-1, 'nonzero'), (-2, 'nonzero'), (.5, 'pos'),
                     (-1.5, 'pos'), (2.7, 'pos'), (0, 'nonzero'), (4, 'neg')):
            yield one('pow_c', [s], {'c': p}, doms=d, seed=r.seed())
        arr = np.round(rng.uniform(-2., 3., size=s), 2)
        yield one('pow_c', [s], {'c': arr.tolist()}, doms='pos', seed=r.seed())
        arr = rng.integers(1, 4, size=s).astype(float)
        yield one('pow_c', [s], {'c': arr.tolist()}, doms='any', seed=r.seed())
    # zero elements of operands with non-negative powers
    for op in ('add', 'sub', 'mul'):
        c = one(op, [[3], [3]], seed=r.seed())
        c['points'] = [{'x': [0., 1., -2.], 'y': [2., 0., 0.]},
                       {'x': [0., 0., 0.], 'y': [0., 0., 0.]}]
        yield c
    c = one('div', [[3], [3]], doms=['any', 'nonzero'], seed=r.seed())
    c['points'] = [{'x': [0., 1., -2.]}, {'x': [0., 0., 0.]}]
    yield c
    c = one('pow_c', [[3]], {'c': 2}, seed=r.seed())
    c['points'] = [{'x': [0., 1., -2.]}, {'x': [0., 0., 3.]}]
    yield c
    for q in (0, 1, 3., [0., 1., 2.], [1., 0., 0.], [0, 2, 1], [0., 1.5, 0.]):
        c = one('pow_c', [[3]], {'c': q}, seed=r.seed())
        c['points'] = [{'x': [0., 0., -2.]}, {'x': [0., 0., 0.]}]
        yield c
    # numbers and arrays of NumPy's types
    for t in ('int64', 'uint8', 'float32', 'float64', 'int8', 'bool'):
        for op in ('add_c', 'sub_c', 'mul_c', 'div_c', 'c_add', 'c_sub',
                   'c_mul', 'c_div', 'pow_c'):
            if t == 'bool' and op not in ('add_c', 'sub_c', 'mul_c'):
                continue
            if t != 'bool':
                yield one(op, [[2, 2]], {'c': 2, 't': t}, doms='nonzero',
                          seed=r.seed())
            if op[:2] != 'c_':
                yield one(op, [[2, 2]], {'c': [[1, 3], [2, t != 'bool']],
                                         't': t}, doms='pos', seed=r.seed())
    # random arithmetic programs with sharing
    for k in range(N(tier, 60, 1200)):
        s = r.shape(1, 3)
        ni = r.i(1, 3)
        nodes = []
        for j in range(r.i(2, 6)):
            t = r.i(0, 6)
            n = ni + j
            a, b = r.i(0, n - 1), r.i(0, n - 1)
            if t <= 2:
                nodes.append({'op': r.pick(['add', 'sub', 'mul']),
                              'args': [a, b]})
            elif t == 3:
                nodes.append({'op': r.pick(['add_c', 'sub_c', 'mul_c',
                                            'div_c', 'c_add', 'c_sub',
                                            'c_mul']),
                              'args': [a], 'kw': {'c': r.pick(
                                  [2, -1, .5, 3., -2.5])}})
            elif t == 4:
                nodes.append({'op': 'neg', 'args': [a]})
            elif t == 5:
                nodes.append({'op': r.pick(['div', 'c_div']),
                              'args': [a, r.i(0, ni - 1)], 'kw': {'c': 2.}})
                if nodes[-1]['op'] == 'c_div':
                    nodes[-1]['args'] = [r.i(0, ni - 1)]
            else:
                nodes.append({'op': 'pow_c', 'args': [a],
                              'kw': {'c': r.pick([2, 3])}})
        prog = {'inputs': [{'name': NAMES[i], 'shape': s, 'dom': 'nonzero'}
                           for i in range(ni)], 'nodes': nodes,
                'outs': [['f', ni + len(nodes) - 1]], 'via': r.via()}
        yield {'kind': 'prog', 'prog': prog, 'seed': r.seed(), 'tol': 1e-6}
    # division by zero must be an error
    for s in shapes:
        z = [0.] * int(np.prod(s))
        full = np.ones(s)
        full.reshape(-1)[r.i(0, full.size - 1)] = 0.
        yield dict(one('div_c', [s], {'c': 0}, seed=r.seed()), kind='raises')
        yield dict(one('div_c', [s], {'c': 0.0}, seed=r.seed()), kind='raises')
        yield dict(one('div_c', [s], {'c': full.tolist()}, seed=r.seed()),
                   kind='raises')
        yield dict(one('div', [s, s], seed=r.seed()), kind='raises',
                   stage='run', values={'y': full.tolist()})
        yield dict(one('c_div', [s], {'c': 2.}, seed=r.seed()), kind='raises',
                   stage='run', values={'x': full.tolist()})
        yield dict(one('div', [s], seed=r.seed(), args=[0, 0]), kind='raises',
                   stage='run', values={'x': full.tolist()})
        for p in (-1, -2., -.5):
            yield dict(one('pow_c', [s], {'c': p}, seed=r.seed()),
                       kind='raises', stage='run',
                       values={'x': np.abs(full).tolist()})
        # a zero where only another element has a negative power is fine
        if full.size > 1:
            pw = np.full(s, 2.)
            x = np.ones(s) * 1.5
            x.reshape(-1)[0] = 0.
            pw.reshape(-1)[1] = -1.
            c = one('pow_c', [s], {'c': pw.tolist()}, doms='nonzero',
                    seed=r.seed())
            c['points'] = [{'x': x.tolist()}]
            yield c
            pw2 = np.full(s, 2.)
            pw2.reshape(-1)[0] = -1.
            yield dict(one('pow_c', [s], {'c': pw2.tolist()}, seed=r.seed()),
                       kind='raises', stage='run', values={'x': x.tolist()})


def subsets(n):
    for k in range(1, n):
        for c in itertools.combinations(range(n), k):
            yield c


@gen('C03')
def g03(rng, tier):
    r = R(rng)
    for op in ('sum', 'average'):
        for s in ([1], [4], [2, 3], [1, 5], [3, 1, 2], [2, 3, 2, 2]):
            for n in (1, 2, 3):
                yield one(op, [s] * n, seed=r.seed(), via=r.via())
        for s in ([2, 3], [3, 2], [1, 4], [4, 1], [2, 3, 4], [3, 2, 2],
                  [2, 1, 3], [2, 3, 2, 2]):
            for a in subsets(len(s)):
                for n in ((1, 2) if len(s) < 4 else (r.pick([1, 2, 3]), )):
                    yield one(op, [s] * n, {'axes': list(a)}, seed=r.seed())
        # axes in another order
        for a in ([1, 0], [2, 0], [2, 1]):
            yield one(op, [[2, 3, 4]], {'axes': a}, seed=r.seed())
            yield one(op, [[2, 3, 4]] * 3, {'axes': a}, seed=r.seed())
        # many operands
        for n in (4, 7, 12, 24, 30):
            yield one(op, [[3]] * n, seed=r.seed())
        for n in (4, 11):
            yield one(op, [[2, 3]] * n, {'axes': [r.i(0, 1)]}, seed=r.seed())
        # operands that are computed, listed in another order
        for k in range(N(tier, 15, 300)):
            s = r.shape(2, 5 if tier == 'thorough' else 4, 4, 48)
            n = r.i(1, 4)
            ax = sorted(r.perm(len(s))[:r.i(1, len(s) - 1)])
            if r.i(0, 2) == 0:
                ax = None
            elif r.i(0, 2) == 0:
                ax = ax[::-1]
            c = one(op, [s] * n, {'axes': ax}, seed=r.seed(), args=r.perm(n),
                    via=r.via())
            yield c


@gen('C04')
def g04(rng, tier):
    r = R(rng)
    for n in (1, 2, 3, 6):
        yield one('dot', [[n], [n]], seed=r.seed(), via=r.via())
        yield one('inner', [[n], [n]], seed=r.seed(), via=r.via())
    for s, a in (([3, 2], 0), ([2, 3], 1), ([3, 3], 0), ([3, 3], 1),
                 ([2, 3, 4], 1), ([3, 2, 2], 0), ([2, 2, 3], 2),
                 ([2, 3, 1, 2], 1), ([1, 3], 1), ([3, 1], 0)):
        yield one('dot', [s, s], {'axis': a}, seed=r.seed(), via=r.via())
        yield one('dot', [s, s], {'axis': a - len(s)}, seed=r.seed())
        yield one('cross', [s, s], {'axis': a}, seed=r.seed(), via=r.via())
        yield one('cross', [s, s], {'axis': a - len(s)}, seed=r.seed())
    yield one('cross', [[3], [3]], {'axis': 0}, seed=r.seed())
    yield one('cross', [[3], [3]], {'axis': -1}, seed=r.seed())
    yield one('cross', [[3, 3, 3], [3, 3, 3]], {'axis': 1}, seed=r.seed())
    yield one('cross', [[3, 3, 2, 3], [3, 3, 2, 3]], {'axis': 3},
              seed=r.seed())
    for s0, s1, ax in (
        ([2, 3], [3, 4], [[1], [0]]), ([2, 3], [2, 4], [[0], [0]]),
        ([2, 3], [4, 3], [[1], [1]]), ([2, 3], [4, 2], [[0], [1]]),
        ([2, 3, 4], [4, 3, 2], [[1, 2], [1, 0]]),
        ([2, 3, 4], [4, 3, 2], [[2, 1], [0, 1]]),
        ([2, 3, 4], [3, 5], [[1], [0]]), ([3], [3, 2], [[0], [0]]),
        ([2, 3], [3], [[1], [0]]), ([2, 2, 3], [2, 2], [[0, 1], [0, 1]]),
        ([2, 2, 3], [2, 2], [[0, 1], [1, 0]]), ([1, 3], [3, 1], [[1], [0]]),
        ([1, 3], [1, 3], [[0], [0]]), ([2, 3, 2], [2, 2, 3], [[0, 2], [1, 0]]),
        ([2, 3, 2, 2], [2, 3], [[1, 3], [1, 0]]),
        ([2, 3, 4], [2, 3, 4], [[0, 2], [0, 2]]),
    ):
        yield one('inner', [s0, s1], {'axes': ax}, seed=r.seed(), via=r.via())
        yield one('inner', [s0, s1], {'axes': ax, 'tup': True}, seed=r.seed())
    for k in range(N(tier, 25, 500)):
        n0, n1 = r.i(1, 4), r.i(1, 3)
        nc = r.i(1, min(n0, n1))
        if n0 == 1 and n1 == 1:
            n0 = 2
        if nc == n0 and nc == n1:
            n1 += 1
        s0 = [r.i(1, 3) for _ in range(n0)]
        s1 = [r.i(1, 3) for _ in range(n1)]
        a0, a1 = r.perm(n0)[:nc], r.perm(n1)[:nc]
        for i, j in zip(a0, a1):
            s1[j] = s0[i]
        yield one('inner', [s0, s1], {'axes': [a0, a1]}, seed=r.seed())
    for s0, s1 in (([2], [3]), ([1], [4]), ([3], [1]), ([2, 3], [2]),
                   ([2], [2, 3]), ([2, 3], [3, 2]), ([1, 2], [3, 1]),
                   ([2, 2, 2], [3]), ([3], [2, 1, 2]), ([2, 2, 1], [2, 2])):
        yield one('outer', [s0, s1], seed=r.seed(), via=r.via())
    for m, n, k in ((2, 3, 4), (3, 2, 1), (1, 3, 2), (2, 1, 3), (1, 1, 1),
                    (1, 3, 1), (3, 3, 3), (4, 2, 2), (2, 2, 5)):
        yield one('matmat', [[m, n], [n, k]], seed=r.seed(), via=r.via())
        yield one('matmat', [[m, n], [n]], seed=r.seed())
        yield one('matvec', [[m, n], [n]], seed=r.seed(), via=r.via())
    for k in range(N(tier, 15, 300)):
        m, n, q = r.i(1, 5), r.i(1, 5), r.i(1, 5)
        yield one('matmat', [[m, n], [n, q]], seed=r.seed(), args=[0, 1])
        s = r.shape(1, 3, 4, 20)
        s.insert(r.i(0, len(s)), 3)
        a = r.pick([i for i, d in enumerate(s) if d == 3])
        yield one('cross', [s, s], {'axis': a}, args=r.perm(2), seed=r.seed())
        yield one('dot', [s, s], {'axis': a}, args=r.perm(2), seed=r.seed())
        yield one('outer', [r.shape(1, 3, 3, 9), r.shape(1, 3, 3, 9)],
                  args=r.perm(2), seed=r.seed())


EINS = [
    ('i->', 1), ('ij->', 1), ('ij->i', 1), ('ij->j', 1), ('ij->ji', 1),
    ('ij->ij', 1), ('ijk->kj', 1), ('ijk->ikj', 1), ('i,i->', 2),
    ('i,j->ij', 2), ('i,j->ji', 2), ('i,i->i', 2), ('ij,j->i', 2),
    ('ij,jk->ik', 2), ('ij,jk->ki', 2), ('ij,ij->', 2), ('ij,ij->ij', 2),
    ('ij,kj->ik', 2), ('ijk,k->ij', 2), ('ijk,kj->i', 2), ('ij,k->ikj', 2),
    ('ij,ji->', 2), ('ij,j,k->ik', 3), ('i,i,i->i', 3), ('ij,jk,kl->il', 3),
    ('i,ij,j->', 3), ('i,j,k->kij', 3), ('ijk,il,jm->lmk', 3),
    ('ij,jk->', 2), ('ij,k->i', 2), ('i,ijk->kj', 2),
]


def edims(sub, dims):
    ins = sub.split('->')[0].split(',')
    return [[dims[c] for c in t] for t in ins]


@gen('C05')
def g05(rng, tier):
    r = R(rng)

    def mk(sub, fmt, op, rep=None):
        letters = sorted(set(sub) - set(',->'))
        dims = {c: r.i(1, 4) for c in letters}
        if rep is None:
            shapes = edims(sub, dims)
            args = None
        else:
            # equal dimensions for repeated operands
            d = r.i(2, 3)
            dims = {c: d for c in letters}
            allsh = edims(sub, dims)
            distinct = sorted(set(rep))
            shapes = [allsh[rep.index(k)] for k in distinct]
            args = [distinct.index(k) for k in rep]
        kw = {'sub': sub, 'fmt': fmt}
        if op == 'einsum_new':
            kw['omit'] = bool(r.i(0, 1)) or sub.endswith('>')
            if r.i(0, 1):
                pool = ['rows', 'cols', 'z', 'a', 'k1', 'alpha', 'b', 'n']
                kw['names'] = {c: pool[i] for i, c in enumerate(letters)}
        return one(op, shapes, kw, args=args, seed=r.seed(), via=r.via())

    for sub, n in EINS:
        for fmt in ('dense', 'sparse'):
            for op in ('einsum', 'einsum_new'):
                yield mk(sub, fmt, op)
    reps = [('i,i->i', [0, 0]), ('i,j->ij', [0, 0]), ('i,i->', [0, 0]),
            ('ij,jk->ik', [0, 0]), ('ij,kj->ik', [0, 0]),
            ('i,j,i->j', [0, 1, 0]), ('i,i,j->j', [0, 0, 1]),
            ('ij,j,jk->ik', [0, 1, 0]), ('i,j,k->kij', [0, 0, 1]),
            ('i,j,k->kij', [0, 1, 1]), ('i,j,k->ijk', [0, 0, 0]),
            ('ij,jk,kl->il', [0, 1, 0]), ('ij,jk,kl->il', [0, 0, 1]),
            ('i,ij,j->', [0, 1, 0]), ('ij,ij->ij', [0, 0]),
            ('ij,ji->', [0, 0]), ('i,j,k,l->', [0, 1, 0, 1]),
            ('i,ij,jk,k->', [0, 1, 1, 0]), ('i,i,i,i->i', [0, 0, 0, 0]),
            ('i,i,j,j->ij', [0, 0, 0, 0]), ('i,j,i,j,k->ki', [0, 0, 1, 0, 0]),
            ('i,j->i', [0, 0]), ('i,j->j', [0, 0]), ('ij,kl->ij', [0, 0]),
            ('ij,kl->kl', [0, 0]), ('ij,ij,kl->ki', [0, 0, 0]),
            ('i,j,k->j', [0, 0, 0]), ('i,k,j->ij', [0, 0, 1]),
            ('k,i,j->ij', [0, 0, 1]), ('i,j,k,l->lk', [0, 0, 0, 1])]
    for sub, rep in reps:
        for fmt in ('dense', 'sparse'):
            for op in ('einsum', 'einsum_new'):
                yield mk(sub, fmt, op, rep)
    # random contractions
    for k in range(N(tier, 60, 1500)):
        no = r.i(1, 5) if k % 3 == 0 else r.i(1, 3)
        letters = 'abcdefgxyz'[:r.i(1, 4)]
        ts = []
        for _ in range(no):
            q = r.perm(len(letters))[:r.i(1, min(3, len(letters)))]
            ts.append(''.join(letters[i] for i in q))
        used = sorted(set(''.join(ts)))
        q = r.perm(len(used))[:r.i(0, len(used))]
        sub = ','.join(ts) + '->' + ''.join(used[i] for i in q)
        rep = None
        if no >= 2 and r.i(0, 2) == 0:
            rep = list(range(no))
            for i in range(1, no):
                for j in range(i):
                    if len(ts[i]) == len(ts[j]) and r.i(0, 1):
                        rep[i] = rep[j]
                        break
            if len(set(rep)) == no:
                rep = None
        yield mk(sub, r.pick(['dense', 'sparse']),
                 r.pick(['einsum', 'einsum_new']), rep)


@gen('C06')
def g06(rng, tier):
    r = R(rng)
    for s, t in (([6], [2, 3]), ([2, 3], [6]), ([2, 3], [3, 2]),
                 ([2, 3, 4], [4, 6]), ([4, 6], [2, 3, 4]), ([1], [1, 1]),
                 ([2, 3], [1, 6, 1]), ([4], [4])):
        yield one('reshape', [s], {'shape': t}, seed=r.seed(), via=r.via())
    for s in ([3], [2, 3], [1, 4], [2, 3, 4], [3, 1, 2], [2, 3, 2, 2],
              [2, 1, 3, 1, 2]):
        yield one('transpose', [s], seed=r.seed(), via=r.via())
    for s in ([2, 3], [2, 3, 4], [2, 1, 3], [2, 3, 2, 2]):
        for p in itertools.permutations(range(len(s))):
            if len(s) == 4 and r.i(0, 2) and tier != 'thorough':
                continue
            a = r.pick(['ijkl', 'abcd', 'zyxw'])[:len(s)]
            sub = a + '->' + ''.join(a[i] for i in p)
            if r.i(0, 3) == 0:
                sub = sub.replace('->', ' -> ')
            yield one('reorder_axes', [s], {'sub': sub}, seed=r.seed())
    for t in ([4], [2, 3], [2, 3, 4], [1], [1, 1], [3, 1, 2]):
        yield one('expand', [[1]], {'shape': t}, seed=r.seed(), via=r.via())
    dims = {'i': 2, 'j': 3, 'k': 4, 'l': 2}
    for o in ('ij', 'ji', 'ijk', 'kij', 'jki', 'ijkl'):
        for m in range(1, 2**len(o)):
            i = ''.join(c for b, c in enumerate(o) if m >> b & 1)
            if len(o) == 4 and r.i(0, 1) and tier != 'thorough':
                continue
            yield one('expand', [[dims[c] for c in i]], {
                'shape': [dims[c] for c in o],
                'sub': i + '->' + o
            }, seed=r.seed())
    for i, o in (('k', 'ijklm'), ('m', 'ijklm'), ('n', 'ijklmn'),
                 ('il', 'ijklmn'), ('j', 'ijklmno')):
        yield one('expand', [[dims.get(c, 2) for c in i]], {
            'shape': [dims.get(c, 2) for c in o], 'sub': i + '->' + o},
            seed=r.seed())
    yield one('expand', [[2, 2]], {'shape': [2, 2, 2], 'sub': 'ij->ikj'},
              seed=r.seed())
    yield one('expand', [[3, 1]], {'shape': [3, 2, 1], 'sub': 'ij->ikj'},
              seed=r.seed())
    for k in range(N(tier, 40, 600)):
        s = r.shape(1, 5, 4, 48)
        p = r.perm(len(s))
        a = 'abcdefgh'[:len(s)]
        yield one('reorder_axes', [s],
                  {'sub': a + '->' + ''.join(a[i] for i in p)}, seed=r.seed())
        s = r.shape(2, 4, 3, 40)
        a = 'mnopqr'[:len(s)]
        keep = sorted(r.perm(len(s))[:r.i(1, len(s))])
        if [s[i] for i in keep] == [1]:
            continue
        yield one('expand', [[s[i] for i in keep]], {
            'shape': s,
            'sub': ''.join(a[i] for i in keep) + '->' + a
        }, seed=r.seed())


@gen('C07')
def g07(rng, tier):
    r = R(rng)
    for op in ('max', 'min'):
        for s in ([1], [5], [2, 3], [3, 1, 2], [2, 3, 2]):
            for rho in (None, 1., 7.5):
                yield one(op, [s], {'rho': rho}, seed=r.seed(), tol=1e-9,
                          via=r.via())
            for n in (2, 3):
                yield one(op, [s] * n, {'rho': r.pick([None, 2., 11.])},
                          seed=r.seed(), tol=1e-9)
            for d in ('big', 'tie', 'neg'):
                yield one(op, [s], {'rho': r.pick([None, .5, 30.])}, doms=d,
                          seed=r.seed(), tol=1e-9)
                yield one(op, [s] * 2, {'rho': r.pick([None, .5, 30.])},
                          doms=d, seed=r.seed(), tol=1e-9)
        for s in ([4], [2, 3], [3, 2], [1, 4], [4, 1], [2, 3, 4], [3, 2, 2],
                  [2, 3, 2, 2]):
            for a in range(len(s)):
                if len(s) == 1:
                    continue
                yield one(op, [s], {'axis': a, 'rho': r.pick([None, 3.])},
                          seed=r.seed(), tol=1e-9)
                yield one(op, [s], {'axis': a - len(s), 'rho': 5.},
                          seed=r.seed(), tol=1e-9)
                yield one(op, [s], {'axis': a}, doms=r.pick(
                    ['big', 'tie', 'neg']), seed=r.seed(), tol=1e-9)
        for n in (4, 9):
            yield one(op, [[3]] * n, {'rho': 4.}, seed=r.seed(), tol=1e-9)
        for k in range(N(tier, 15, 300)):
            s = r.shape(2, 4, 4, 40)
            a = r.i(-len(s), len(s) - 1)
            yield one(op, [s], {'axis': a, 'rho': float(r.i(1, 40))},
                      doms=r.pick(['any', 'big', 'tie', 'pos', 'neg']),
                      seed=r.seed(), tol=1e-9)
            n = r.i(2, 5)
            yield one(op, [s] * n, {'rho': float(r.i(1, 40))}, args=r.perm(n),
                      doms=r.pick(['any', 'big', 'tie', 'pos', 'neg']),
                      seed=r.seed(), tol=1e-9)


@gen('C08')
def g08(rng, tier):
    r = R(rng)
    for p in (None, 2, 4, 6, 8, 10, 14):
        for s in ([1], [4], [2, 3], [3, 1, 2]):
            yield one('pnorm', [s], {'p': p}, doms='nonzero', seed=r.seed(),
                      tol=1e-9, via=r.via())
        for s in ([2, 3], [1, 4], [3, 2, 4], [2, 3, 2, 2]):
            for a in list(range(len(s))) + [
                    list(q) for q in subsets(len(s)) if len(q) > 1
            ]:
                if p in (6, 8, 14) and r.i(0, 1) and tier != 'thorough':
                    continue
                yield one('pnorm', [s], {'p': p, 'axis': a}, doms='nonzero',
                          seed=r.seed(), tol=1e-9)
    yield one('pnorm', [[2, 3, 4]], {'p': 4, 'axis': [2, 0]}, doms='nonzero',
              seed=r.seed(), tol=1e-9)
    yield one('pnorm', [[2, 3, 4]], {'p': 4, 'axis': [1]}, doms='neg',
              seed=r.seed(), tol=1e-9)
    for k in range(N(tier, 25, 300)):
        s = r.shape(2, 4, 4, 48)
        a = r.perm(len(s))[:r.i(1, len(s) - 1)]
        yield one('pnorm', [s], {'p': r.pick([2, 4, 6, 10, 12]), 'axis': a},
                  doms=r.pick(['nonzero', 'pos', 'neg']), seed=r.seed(),
                  tol=1e-9)


@gen('C09')
def g09(rng, tier):
    r = R(rng)
    for ax in 'xyz':
        for s in ([1], [4], [2], [2, 3], [1, 2], [3, 1], [2, 1, 3], [3], [3, 3]):
            yield one('rotmat', [s], {'axis': ax}, doms='angle',
                      seed=r.seed(), via=r.via())
        for k in range(N(tier, 12, 200)):
            yield one('rotmat', [r.shape(1, 3, 4, 12)], {'axis': ax},
                      doms='angle', seed=r.seed(), via=r.via())


def rkey(r, shape, neg=False):
    """random admissible key for shape"""
    def ax(n):
        t = r.i(0, 6)
        if t == 0:
            return r.i(0, n - 1)
        a = r.i(0, n - 1)
        b = r.i(a + 1, n)
        st = None if t < 4 else r.i(1, 3)
        return ['s', None if a == 0 and r.i(0, 1) else a,
                None if b == n and r.i(0, 1) else
                (b - n if neg and b < n and r.i(0, 2) == 0 else b), st]

    if len(shape) == 1:
        k = ax(shape[0])
        return k if r.i(0, 3) else ['t', k]
    return ['t'] + [ax(n) for n in shape]


@gen('C10')
def g10(rng, tier):
    r = R(rng)

    def case(s, keys, on=None, extra=None):
        nodes = []
        base = 0
        if on:
            nodes.append({'op': on, 'args': [0]})
            base = 1
        for k in keys:
            nodes.append({'op': 'getitem', 'args': [base], 'kw': {'key': k}})
        first = 1 + (1 if on else 0)
        # an extracted expression used twice is one expression: combine
        outs = []
        n = 1 + len(nodes)
        for j in range(len(keys)):
            nodes.append({'op': 'mul_c', 'args': [first + j],
                          'kw': {'c': j + 2.}})
            outs.append(['o%d' % j, n + j])
        return {'kind': 'prog', 'seed': r.seed(), 'prog': {
            'inputs': [{'name': 'x', 'shape': s}], 'nodes': nodes,
            'outs': outs, 'via': r.via()}}

    S = lambda a, b, c=None: ['s', a, b, c]
    T = lambda *a: ['t'] + list(a)
    for s, keys in (
        ([6], [0]), ([6], [5]), ([6], [0, 1, 2, 3, 4, 5]),
        ([6], [S(None, None)]), ([6], [S(0, 3), S(3, 6)]),
        ([6], [S(None, 4), S(2, None), S(None, None, 2)]),
        ([6], [S(1, 6, 2), S(0, 6, 3), S(2, 5, 2)]),
        ([6], [S(0, 2), S(0, 2), 1, S(1, 2)]),
        ([7], [S(0, 7, 5), S(6, 7), S(0, 1)]),
        ([1], [0, S(None, None), S(0, 1)]),
        ([2, 3], [T(0, 0)]), ([2, 3], [T(1, 2), T(0, S(None, None))]),
        ([2, 3], [T(S(None, None), 1), T(S(0, 1), S(1, 3))]),
        ([2, 3], [T(S(None, None), S(None, None))]),
        ([4, 5], [T(S(0, 4, 2), S(1, 5, 3)), T(3, S(0, 5, 2))]),
        ([4, 5], [T(S(1, None), S(None, 3)), T(S(1, None), S(None, 3))]),
        ([2, 3, 4], [T(1, S(0, 3, 2), S(None, None, 3)), T(0, 0, 0)]),
        ([2, 3, 4], [T(S(None, None), 2, S(1, 3))]),
        ([2, 3, 2, 2], [T(1, S(0, 2), 0, S(None, None)),
                        T(S(None, None), 2, S(0, 1), 1)]),
        ([3, 3], [T(0, 0), T(1, 1), T(2, 2), T(0, S(0, 3))]),
    ):
        yield case(s, keys)
        yield case(s, keys, on='sin')
    # extracted expressions registered directly
    for s, keys in (([5], [S(0, 2), S(1, 5, 2)]), ([2, 3], [T(0, S(0, 2))])):
        c = case(s, keys)
        nodes = c['prog']['nodes'][:len(keys)]
        c['prog']['nodes'] = nodes
        c['prog']['outs'] = [['e%d' % j, 1 + j] for j in range(len(keys))]
        yield c
        c2 = dict(c, prog=dict(c['prog'], outs=c['prog']['outs'][::-1]))
        yield c2
    for k in range(N(tier, 80, 1500)):
        s = r.shape(1, 4, 5, 60)
        keys = [rkey(r, s) for _ in range(r.i(1, 5))]
        if r.i(0, 2) == 0:
            keys.append(keys[0])
        yield case(s, keys, on=r.pick([None, None, 'sin', 'neg']))
    # nested indexing
    for k in range(N(tier, 10, 150)):
        s = r.shape(1, 3, 5, 60)
        k1 = rkey(r, s)
        s2 = list(np.zeros(s)[npkey(k1, s)].shape)
        k2 = rkey(r, s2)
        c = case(s, [k1])
        c['prog']['nodes'] = [
            {'op': 'getitem', 'args': [0], 'kw': {'key': k1}},
            {'op': 'getitem', 'args': [1], 'kw': {'key': k2}},
            {'op': 'mul_c', 'args': [2], 'kw': {'c': 2.}},
            {'op': 'mul_c', 'args': [1], 'kw': {'c': 3.}}
        ]
        c['prog']['outs'] = [['a', 3], ['b', 4]]
        yield c
    # outside: rejected
    for s, k in (([4], 4), ([4], 7), ([4], S(0, 5)), ([4], S(2, 9)),
                 ([2, 3], T(2, 0)), ([2, 3], T(0, 3)), ([2, 3],
                                                        T(S(0, 3), S(0, 3))),
                 ([2, 3], T(S(0, 2), S(0, 4))), ([2, 3, 4], T(0, 0, 4)),
                 ([2, 3, 4], T(0, 3, 0)), ([2, 3, 4], T(2, 0, 0))):
        yield dict(one('getitem', [s], {'key': k}, seed=r.seed()),
                   kind='raises')


def assign_case(r, shape, keys, **kw):
    """one distinct expression per key"""
    inputs, nodes, arg = [], [], []
    for j, k in enumerate(keys):
        inputs.append({'name': 'x%d' % j,
                       'shape': list(np.zeros(shape)[npkey(k, shape)].shape)})
        if j in kw.get('shapes', {}):
            inputs[-1]['shape'] = kw['shapes'][j]
    comp = kw.get('computed', set())
    idx = {}
    n = len(inputs)
    for j in range(len(keys)):
        if j in comp:
            nodes.append({'op': 'sin', 'args': [j]})
            idx[j] = n + len(nodes) - 1
        else:
            idx[j] = j
    same = kw.get('same', {})
    nodes.append({'op': 'assign', 'args': [], 'kw': {
        'name': 'out', 'shape': list(shape),
        'keys': [[k, idx[same.get(j, j)]] for j, k in enumerate(keys)]}})
    return {'kind': 'prog', 'seed': r.seed(), 'prog': {
        'inputs': inputs, 'nodes': nodes,
        'outs': [['out', n + len(nodes) - 1]], 'via': kw.get('via', 'indep')}}


def tile_keys(r, shape):
    """random disjoint keys"""
    if len(shape) == 1 and r.i(0, 1):
        n = shape[0]
        st = r.i(1, min(3, n))
        ks = [['s', a, None, st] if r.i(0, 1) else ['s', a, n, st]
              for a in range(st)]
    else:
        cuts = []
        for n in shape:
            c = sorted(set(r.i(1, n) for _ in range(r.i(0, 2))) - {n})
            b = [0] + c + [n]
            segs = []
            for a, e in zip(b, b[1:]):
                if e == a + 1 and r.i(0, 1):
                    segs.append(a)
                else:
                    segs.append(['s', None if a == 0 and r.i(0, 1) else a,
                                 None if e == n and r.i(0, 1) else e, None])
            cuts.append(segs)
        ks = []
        for q in itertools.product(*cuts):
            ks.append(['t'] + list(q) if len(shape) > 1 or r.i(0, 2) == 0 else
                      q[0])
    ks = [ks[i] for i in r.perm(len(ks))]
    return ks[:r.i(1, min(len(ks), 8))]


@gen('C11')
def g11(rng, tier):
    r = R(rng)
    S = lambda a, b, c=None: ['s', a, b, c]
    T = lambda *a: ['t'] + list(a)
    for s, ks in (
        ([6], [0, 1, 2, 3, 4, 5]), ([6], [5, 3, 1]), ([6], [S(0, 3), S(3, 6)]),
        ([6], [S(3, None), S(None, 3)]), ([6], [S(0, 6, 2), S(1, 6, 2)]),
        ([6], [S(None, None)]), ([6], [S(0, -2), 5, 4]), ([1], [0]),
        ([6], [S(4, 6), S(0, 2), S(2, 4)]),
        ([2, 3], [T(0, S(None, None)), T(1, S(0, 3))]),
        ([2, 3], [T(S(0, 2), 0), T(S(0, 2), S(1, 3))]),
        ([2, 3], [T(0, 0), T(1, 2), T(0, S(1, 3))]),
        ([4, 5], [T(S(0, 4, 2), S(0, 5, 2)), T(S(1, 4, 2), S(1, 5, 3))]),
        ([2, 3, 4], [T(0, S(0, 3), S(0, 4, 2)), T(1, 1, S(None, None)),
                     T(0, 2, S(1, 4, 2))]),
        ([2, 2, 2, 2], [T(0, S(0, 2), 1, S(0, 2)), T(1, 0, S(0, 2), 1)]),
        ([3, 4], [T(S(0, 3), S(0, -1)), T(S(0, 2), 3)]),
    ):
        yield assign_case(r, s, ks, via=r.via())
        yield assign_case(r, s, ks, computed=set(range(len(ks))))
    for k in range(N(tier, 70, 1500)):
        s = r.shape(1, 4, 5, 60)
        ks = tile_keys(r, s)
        yield assign_case(r, s, ks, via=r.via(),
                          computed=set(j for j in range(len(ks)) if r.i(0, 1)))

    # an assigned expression that is itself registered afterwards/before
    # rejected sequences
    def bad(*a, **k):
        return dict(assign_case(r, *a, **k), kind='raises')

    yield bad([6], [S(0, 3), S(2, 5)])
    yield bad([6], [S(0, 2), S(2, 4), S(1, 3)])          # overlaps the first
    yield bad([6], [0, 1, 2, 0])
    yield bad([6], [5, 0, 1, 5])
    yield bad([6], [S(0, 6, 2), 1, 4])
    yield bad([6], [S(None, None), 3])
    yield bad([6], [0, S(None, None)])
    yield bad([2, 3], [T(0, S(0, 3)), T(S(0, 2), 0)])
    yield bad([2, 3], [T(0, 0), T(1, 1), T(S(0, 2), S(0, 1))])
    yield bad([3, 3], [T(0, 0), T(1, 1), T(2, 2), T(0, 0)])
    yield bad([2, 3, 4], [T(0, 0, 0), T(1, 2, 3), T(0, S(0, 3), 0)])
    for s, k, sh in (([4], 4, [1]), ([4], 9, [1]), ([4], S(2, 6), [4]),
                     ([4], S(0, 5), [5]), ([2, 3], T(2, 0), [1, 1]),
                     ([2, 3], T(0, 3), [1, 1]),
                     ([2, 3], T(S(0, 2), S(1, 4)), [2, 3]),
                     ([2, 3, 4], T(0, 0, S(3, 5)), [1, 1, 2])):
        yield bad(s, [k], shapes={0: sh})
    for s, k, sh in (([4], S(0, 2), [3]), ([4], S(0, 2), [1]),
                     ([4], S(0, 4), [1]), ([4], 0, [2]), ([4], S(0, 4),
                                                          [2, 2]),
                     ([2, 3], T(0, S(0, 3)), [3]),
                     ([2, 3], T(S(0, 2), S(0, 3)), [6]),
                     ([2, 3], T(S(0, 2), S(0, 3)), [3, 2]),
                     ([2, 3], T(S(0, 2), S(0, 3)), [1]),
                     ([2, 3], T(S(0, 2), 0), [2]),
                     ([4], S(0, 4, 2), [4])):
        yield bad(s, [k], shapes={0: sh})
    yield bad([4], [S(0, 2), S(2, 4)], same={1: 0})
    yield bad([6], [S(0, 2), S(2, 4), S(4, 6)], same={2: 0})
    yield bad([2, 2], [T(0, S(0, 2)), T(1, S(0, 2))], same={1: 0})
    yield bad([3], [0, 1, 2], same={2: 1}, computed={0, 1, 2})
    for k in range(N(tier, 25, 400)):
        s = r.shape(1, 3, 5, 40)
        ks = tile_keys(r, s)
        # repeat one position of a random earlier key
        j = r.i(0, len(ks) - 1)
        hit = np.argwhere(mask(s, ks[j]))
        p = hit[r.i(0, len(hit) - 1)]
        key = [int(q) for q in p]
        ks.append(key[0] if len(s) == 1 else ['t'] + key)
        yield bad(s, ks)


    # rejected assignments in between have no effect
    for k in range(N(tier, 40, 600)):
        s = r.shape(1, 3, 5, 40)
        ks = tile_keys(r, s)
        rej, extra = [], []
        for q in range(r.i(1, 3)):
            p = r.i(0, len(ks))
            how = r.i(0, 3) if p else r.i(1, 2)
            a = r.i(0, p - 1) if p else 0
            key, sh = ks[a], None
            if how == 1:                      # another shape
                sh = [int(v) + 1 for v in np.zeros(s)[npkey(key, s)].shape]
            elif how == 2:                    # out of range
                key = s[0] + r.i(0, 2)
                key = key if len(s) == 1 else ['t', key] + [0] * (len(s) - 1)
                sh = [1] * len(s)
            elif how == 3:                    # the same expression again
                rej.append([p, ks[-1], a])
                continue
            else:                             # the same positions again
                sh = list(np.zeros(s)[npkey(key, s)].shape)
            extra.append(sh)
            rej.append([p, key, len(ks) + len(extra) - 1])
        c = assign_case(r, s, ks, via=r.via())
        c['prog']['inputs'] += [{'name': 'z%d' % j, 'shape': sh}
                                for j, sh in enumerate(extra)]
        nd = c['prog']['nodes'][0]['kw']
        nd['rejects'] = rej
        c['prog']['outs'] = [['out', len(ks) + len(extra)]]
        yield c


def mask(s, k):
    m = np.zeros(s, bool)
    m[npkey(k, s)] = True
    return m


@gen('C22')
def g22(rng, tier):
    r = R(rng)
    for s in ([1], [4], [2, 3], [2, 1, 3], [1, 2, 2, 2]):
        for pts in ([1., -1.], [-2., 3.], [0., -1e-9], [-1e-9, 0.], [5., 0.]):
            c = one('if_else', [[1], s, s], seed=r.seed(), via=r.via(),
                    names=['c', 'x', 'y'])
            c['points'] = [{'c': [pts[0]]}, {'c': [pts[1]]}]
            yield c
        # computed condition and branches
        for sg in (1., -1.):
            c = one('if_else', [[1], s, s], seed=r.seed(),
                    names=['c', 'x', 'y'])
            c['points'] = [{'c': [sg]}, {'c': [-sg]}]
            c['prog']['nodes'] = [
                {'op': 'mul_c', 'args': [0], 'kw': {'c': 2.}},
                {'op': 'sin', 'args': [1]},
                {'op': 'mul', 'args': [1, 2]},
                {'op': 'if_else', 'args': [3, 4, 5]},
                {'op': 'if_else', 'args': [3, 5, 4]},
            ]
            c['prog']['outs'] = [['f', 6], ['g', 7]]
            yield c
    for k in range(N(tier, 40, 400)):
        s = r.shape(1, 4, 4, 30)
        c = one('if_else', [[1], s, s], seed=r.seed(), args=[0] + [
            1 + q for q in r.perm(2)], names=['c', 'x', 'y'], via=r.via())
        yield c
    for a, b in (([2], [3]), ([2, 3], [3, 2]), ([1], [2]), ([4], [4, 1])):
        yield dict(one('if_else', [[1], a, b], seed=r.seed()), kind='raises')


# --- many axes and many elements ---------------------------------------------
HI = ([2, 1, 3, 1, 2], [1, 2, 2, 1, 2, 3], [2, 3, 1, 2, 2, 1, 2])
BIG = ([130], [11, 13], [1, 150])


def more(pid):
    def deco(f):
        base = GEN[pid]

        def g(rng, tier):
            yield from base(rng, tier)
            yield from f(R(rng), list(HI) + list(BIG), [list(s) for s in HI])
        GEN[pid] = g
        return f
    return deco


FAR = {
    'sin': [120.5, -33.2, 1e-7, 0., 1000.25], 'cos': [120.5, -33.2, 1e-7, 0., 1000.25],
    'tan': [100.3, -20.1, 1e-7, 0., 1.4], 'arctan': [1e4, -50., 1e-7, 0., 12.],
    'arcsin': [1e-7, 0., .97, -.97], 'arccos': [1e-7, 0., .97, -.97],
    'sec': [100.3, -20.1, 1e-7, 0., 1.4], 'cosec': [100.3, -20.1, 1e-3, 1.6],
    'cotan': [100.3, -20.1, 1e-3, 1.6], 'sinh': [14., -13., 1e-7, 0., 30.],
    'cosh': [14., -13., 1e-7, 0., 30.], 'tanh': [4., -5., 1e-7, 0., 6.],
    'sech': [14., -13., 1e-7, 0., 5.], 'cosech': [14., -13., 1e-3, 5., -1e-2],
    'cotanh': [4., -5., 1e-3, 3., -1e-2], 'exp': [30., -25., 1e-7, 0., 60.],
    'log': [1e-6, 1e8, 1., 37.5], 'log10': [1e-6, 1e8, 1., 37.5]}


@more('C01')
def m01(r, every, hi):
    for op, (_, dom) in EW.items():
        for s in (r.pick(hi), r.pick(every[3:])):
            yield one(op, [s], doms=dom, seed=r.seed(), via=r.via())
    # large, small and special arguments
    for op, pts in FAR.items():
        c = one(op, [[len(pts)]], seed=r.seed())
        c['points'] = [{'x': pts}, {'x': pts[::-1]}]
        yield c


@more('C02')
def m02(r, every, hi):
    for s in every:
        for op in ('add', 'sub', 'mul', 'div'):
            yield one(op, [s, s], doms='nonzero', seed=r.seed(), via=r.via())
        yield one('pow_c', [s], {'c': r.pick([2, 3, -1, -2, .5])}, doms='pos',
                  seed=r.seed())


@more('C03')
def m03(r, every, hi):
    for op in ('sum', 'average'):
        for s in every:
            yield one(op, [s] * r.i(1, 3), seed=r.seed(), via=r.via())
            for k in range(3):
                if len(s) > 1:
                    a = r.perm(len(s))[:r.i(1, len(s) - 1)]
                    yield one(op, [s] * r.i(1, 3), {'axes': a}, seed=r.seed())


@more('C04')
def m04(r, every, hi):
    yield one('dot', [[60], [60]], seed=r.seed())
    yield one('inner', [[60], [60]], seed=r.seed())
    for s, a in (([2, 1, 3, 2, 2], 2), ([2, 1, 2, 1, 3], 4),
                 ([3, 1, 2, 1, 2, 2], 0), ([2, 2, 1, 3, 1, 2], 3)):
        for op in ('dot', 'cross'):
            yield one(op, [s, s], {'axis': a}, seed=r.seed(), via=r.via())
        yield one('cross', [s, s], {'axis': a - len(s)}, seed=r.seed())
    for s, t, a in (([2, 3, 1, 2, 2], [2, 3], [[0, 1], [0, 1]]),
                    ([2, 1, 2, 3], [2, 1, 3, 2], [[0, 3], [3, 2]]),
                    ([2, 3, 2], [1, 2, 2, 1, 3], [[1], [4]]),
                    ([2, 3, 4, 2], [4, 3, 2], [[2, 1, 0], [0, 1, 2]])):
        yield one('inner', [s, t], {'axes': a}, seed=r.seed(), via=r.via())
    yield one('outer', [[2, 1, 2, 2], [3]], seed=r.seed())
    yield one('outer', [[2, 3], [1, 2, 1, 2]], seed=r.seed())
    yield one('outer', [[9], [14]], seed=r.seed())
    yield one('matmat', [[7, 12], [12, 5]], seed=r.seed())
    yield one('matvec', [[13, 11], [11]], seed=r.seed())


@more('C05')
def m05(r, every, hi):
    for sub, shapes in (
        ('abcde->ecadb', [[2, 1, 3, 1, 2]]), ('abcde->ca', [[2, 1, 3, 1, 2]]),
        ('abcd,dcbe->ea', [[2, 3, 1, 2], [2, 1, 3, 2]]),
        ('abcde,ce->bda', [[2, 1, 3, 1, 2], [3, 2]]),
        ('a,b,c,d,e->ecabd', [[2], [1], [3], [1], [2]]),
        ('i,ij,jk,kl,l->', [[2], [2, 3], [3, 1], [1, 2], [2]]),
        ('ij,jk->ik', [[9, 8], [8, 7]])):
        for fmt in ('dense', 'sparse'):
            for op in ('einsum', 'einsum_new'):
                yield one(op, shapes, {'sub': sub, 'fmt': fmt, 'omit': sub[-1] == '>'},
                          seed=r.seed(), via=r.via())
    # letters in both cases; names of axes that begin alike, numbers as names
    for sub, shapes in (('iI->Ii', [[2, 3]]), ('Ij,jI->j', [[2, 3], [3, 2]]),
                        ('aA,Ab,bB->Ba', [[2, 3], [3, 1], [1, 2]])):
        for fmt in ('dense', 'sparse'):
            for op in ('einsum', 'einsum_new'):
                yield one(op, shapes, {'sub': sub, 'fmt': fmt, 'omit': False},
                          seed=r.seed(), via=r.via())
    for pool in (['row', 'rows', 'row_', 'Row', 'r'], [1, 10, 101, 0, 11],
                 ['a', 'aa', 'A', 'ab', 'ba'], ['b', 'a', 'd', 'c', 'e']):
        for sub, shapes in (('ij,jk->ik', [[2, 3], [3, 2]]),
                            ('abc,cd,e->edab', [[2, 3, 2], [2, 1], [2]])):
            letters = sorted(set(sub) - set(',->'))
            for fmt in ('dense', 'sparse'):
                yield one('einsum_new', shapes, {
                    'sub': sub, 'fmt': fmt, 'omit': False,
                    'names': dict(zip(letters, pool))}, seed=r.seed())


@more('C06')
def m06(r, every, hi):
    for sub in ('iI->Ii', 'IiJ->JiI', 'abAB->BaAb'):
        n = len(sub) // 2 - 1
        for k in range(2):
            yield one('reorder_axes', [[r.i(1, 3) for _ in range(n)]],
                      {'sub': sub}, seed=r.seed())
    for sub in ('iI->jiI', 'I->iI', 'iI->iJIj'):
        i = sub.split('->')[0]
        o = sub.split('->')[1]
        d = {c: q + 1 for q, c in enumerate(sorted(set(o)))}
        yield one('expand', [[d[c] for c in i]], {
            'shape': [d[c] for c in o], 'sub': sub}, seed=r.seed())
    for s in every:
        yield one('transpose', [s], seed=r.seed(), via=r.via())
        t = [s[i] for i in r.perm(len(s))]
        yield one('reshape', [s], {'shape': t}, seed=r.seed(), via=r.via())
        a = 'zqkfabc'[:len(s)]
        yield one('reorder_axes', [s], {
            'sub': a + '->' + ''.join(a[i] for i in r.perm(len(s)))},
            seed=r.seed())
        yield one('expand', [[1]], {'shape': s}, seed=r.seed(), via=r.via())


@more('C07')
def m07(r, every, hi):
    for op in ('max', 'min'):
        # many operands, far from one another
        for n in (6, 10, 14):
            for rho in (None, 40.):
                c = one(op, [[2]] * n, {'rho': rho}, seed=r.seed(), tol=1e-9)
                v = [[150. * q - 600., 1e4 - 100. * q] for q in r.perm(n)]
                c['points'] = [{i['name']: v[q] for q, i in enumerate(
                    c['prog']['inputs'])}]
                yield c
        for s in every:
            yield one(op, [s], {'rho': r.pick([None, 3.])}, seed=r.seed(),
                      tol=1e-9)
            yield one(op, [s] * 2, {'rho': r.pick([None, 3.])}, seed=r.seed(),
                      tol=1e-9)
            for k in range(2):
                if len(s) > 1:
                    yield one(op, [s], {'axis': r.i(-len(s), len(s) - 1),
                                        'rho': r.pick([None, 3.])},
                              doms=r.pick(['any', 'big', 'neg']),
                              seed=r.seed(), tol=1e-9)


@more('C08')
def m08(r, every, hi):
    for s in every:
        yield one('pnorm', [s], {'p': r.pick([2, 4, 6])}, doms='nonzero',
                  seed=r.seed(), tol=1e-9)
        for k in range(3):
            if len(s) > 1:
                a = r.perm(len(s))[:r.i(1, len(s) - 1)]
                yield one('pnorm', [s], {'p': r.pick([2, 4, 6]), 'axis': a},
                          doms='nonzero', seed=r.seed(), tol=1e-9)


@more('C09')
def m09(r, every, hi):
    for ax in 'xyz':
        for s in ([2, 1, 2, 3], [1, 2, 1, 1, 2], [40]):
            yield one('rotmat', [s], {'axis': ax}, doms='angle',
                      seed=r.seed(), via=r.via())


@more('C10')
def m10(r, every, hi):
    for s in every:
        for k in range(3):
            c = one('getitem', [s], {'key': rkey(r, s)}, seed=r.seed(),
                    via=r.via())
            yield c


@more('C11')
def m11(r, every, hi):
    for s in every:
        for k in range(2):
            yield assign_case(r, s, tile_keys(r, s))
    # many assignments
    yield assign_case(r, [24], r.perm(24))
    yield assign_case(r, [4, 6], [['t', i // 6, i % 6] for i in r.perm(24)])


@more('C22')
def m22(r, every, hi):
    for s in every:
        for v in (1., -1., 0.):
            c = one('if_else', [[1], s, s], seed=r.seed(),
                    names=['c', 'x', 'y'])
            c['points'] = [{'c': [v]}]
            yield c
