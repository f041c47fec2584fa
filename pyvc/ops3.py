"""Contracts of indexing and indexed assignment (C10, C11)."""
import itertools

from . import ints, terms, path, arr, vc
from .ints import const, norm, ravel, fresh_idx, dim
from .terms import rel, rsum, rcond, ONE, ZERO, Cond
from .arr import mkint
from .vc import Opd, run_component, explore_case, shape_is, ot, DIMS
from .ops import reg


class Axis:
    """one axis of a key of symbolic bounds: selects start + step*i, i < count,
    of an axis of size n; facts are its preconditions, bad the formula of keys
    that reach outside the axis"""

    def __init__(self, kind, p, n=None):
        A, m, s, T = dim('A' + p), dim('m' + p), dim('s' + p), dim('T' + p)
        self.kind, self.facts, self.bad = kind, [], ('F', )
        DIMS.extend(x for d in (A, m, s, T) for x in d.atoms() if x not in DIMS)
        st = '::' in kind or kind.count(':') == 2
        self.start = A - 1 if kind[0] in 'ia' else const(0)
        self.step = s if st else const(1)
        self.count = const(1) if kind == 'i' else m
        slack = T - 1 if st else const(0)
        stop = norm(self.start + self.step * (self.count - 1) + 1 + slack)
        if st:
            self.facts.append(s - T)
        if kind == 'i':
            self.key = mkint(self.start)
        elif kind == 'a:-b':
            self.key = slice(mkint(self.start), mkint(-T), None)
            stop = norm(self.start + m + T)
        else:
            self.key = slice(mkint(self.start) if kind[0] == 'a' else None,
                             mkint(stop) if 'b' in kind else None,
                             mkint(self.step) if st else None)
        if n is not None:               # the axis of another key
            self.n = n
            assert 'b' in kind or kind == 'i'
        elif kind == 'i' or kind[-1] == 'b' and '-' not in kind or kind.endswith('b:s'):
            self.n = dim('n' + p)
        else:
            self.n = stop
        if kind == 'i' or 'b' in kind and '-' not in kind:
            self.bad = ('c', Cond('ge', norm(self.start + self.step * (self.count - 1) - self.n)))

    def conc(self, env):
        v = lambda p: ints.ieval(norm(p), env)
        if self.kind == 'i':
            return v(self.start)
        k = self.key
        return ['s'] + [None if x is None else v(arr.to_I(x)) for x in (k.start, k.stop, k.step)]


KINDS = ['i', ':', ':b', 'a:', 'a:b', '::s', 'a::s', ':b:s', 'a:b:s']


def key_of(axes, tup):
    return tuple(a.key for a in axes) if tup else axes[0].key


def kconc(axes, env, tup):
    ks = [a.conc(env) for a in axes]
    return ['t'] + ks if tup else ks[0]


def source(y):
    """the node that computes y"""
    if y.build is not None or not y.dependencies:
        return y
    return y.dependencies[0]


def get_case(ctx, kinds, tup=True, more=(), same=False, limit=None):
    def run():
        DIMS[:] = []
        axes = [Axis(k, str(j)) for j, k in enumerate(kinds)]
        keys = [axes] + [[Axis(k, '%d_%d' % (j, q), axes[j].n) for j, k in enumerate(ks)] for q, ks in enumerate(more)]
        for ax in keys:
            for a in ax:
                for f in a.facts:
                    path.assume(('c', Cond('ge', f)))
        if same:
            keys.append(axes)
        X = Opd('x', [a.n for a in axes])
        x = X.make()
        ctx.replay = lambda env: get_replay([ints.ieval(norm(d), env) for d in X.dims],
                                            [kconc(ax, env, tup) for ax in keys])
        if ctx.mode == 'names':
            ctx.replay = vc.same_name([x], ctx.replay)
        ys = []
        for ax in keys:
            bad = path.fjoin('or', *[a.bad for a in ax])
            try:
                y = x[key_of(ax, tup)]
            except (ints.Unsupported, path.Infeasible):
                raise
            except Exception as e:
                if not vc.error_check(ctx, (bad, (ValueError, IndexError)), e):
                    ctx.exc('accepts', e)
                return
            vc.error_check(ctx, (bad, (ValueError, IndexError)), None)
            ctx.ok('accepts')
            if not ctx.check('shape', shape_is(y.shape, [a.count for a in ax]), 'shape %r' % (y.shape, )):
                return
            ys.append((y, ax))
        if ctx.mode == 'names':
            return vc.name_check(ctx, [y for y, _ in ys], [x])
        groups = {}
        for q, (y, ax) in enumerate(ys):
            s = source(y)
            if not ctx.check('builds', s.build is not None, 'no component computes the indexed expression'):
                return
            ctx.check('deps', len(s.dependencies) == 1 and s.dependencies[0] is x,
                      'the dependencies are not exactly the operand')
            groups.setdefault(id(s), (s, []))[1].append((y, ax))
        for s, l in groups.values():
            c = s.build()
            outs = {}
            for y, ax in l:
                outs[y.name] = ([a.count for a in ax], None,
                                lambda i, ax=ax: X.el(*[a.start + a.step * k for a, k in zip(ax, i)]))
            run_component(c, ctx, {'x': X}, outs, hints=[[a.count for a in ax] for _, ax in l],
                          shapes={y.name: y.shape for y, ax in l})
    explore_case(ctx, run, limit)


def get_replay(shape, keys):
    return {'kind': 'prog', 'seed': 1, 'prog': {
        'inputs': [{'name': 'x', 'shape': shape, 'dom': 'any'}],
        'nodes': [{'op': 'getitem', 'args': [0], 'kw': {'key': k}} for k in keys],
        'outs': [['out%d' % j, 1 + j] for j in range(len(keys))]}}


def kname(ks, tup=True):
    s = ', '.join('k' if k == 'i' else k for k in ks)
    return '(%s)' % s if tup else s


@reg('C10')
def c10(tier):
    for k in KINDS:
        yield 'core/variable.py:Variable.__getitem__[%s]' % kname([k], False), \
            lambda ctx, k=k: get_case(ctx, [k], False)
        yield 'core/variable.py:Variable.__getitem__[%s]' % kname([k]), lambda ctx, k=k: get_case(ctx, [k])
    sub = ['i', ':', 'a:b', 'a:', 'a:b:s', '::s'] if tier == 'quick' else KINDS
    for ks in itertools.product(sub, repeat=2):
        yield 'core/variable.py:Variable.__getitem__[%s]' % kname(ks), lambda ctx, ks=ks: get_case(ctx, ks)
    sub = ['i', ':', 'a:b'] if tier == 'quick' else ['i', ':', 'a:b', 'a:b:s']
    for ks in itertools.product(sub, repeat=3):
        yield 'core/variable.py:Variable.__getitem__[%s]' % kname(ks), lambda ctx, ks=ks: get_case(ctx, ks)
    for k in KINDS:
        yield 'core/variable.py:Variable.__getitem__[%s twice]' % kname([k], False), \
            lambda ctx, k=k: get_case(ctx, [k], False, same=True)
        for k2 in ('i', ':b', 'a:b') + (('a:b:s', ) if k.count(':') < 2 else ()):
            yield 'core/variable.py:Variable.__getitem__[%s then %s]' % (kname([k], False), k2), \
                lambda ctx, k=k, k2=k2: get_case(ctx, [k], False, more=[[k2]])
    for ks, k2 in ((('i', ':'), ('i', 'a:b')), (('a:b', 'i'), ('a:b', 'a:b')), (('a:b', ':'), ('i', 'i')),
                   (('::s', 'a:'), ('a:b', 'a:b:s'))):
        yield 'core/variable.py:Variable.__getitem__[%s then %s]' % (kname(ks), kname(k2)), \
            lambda ctx, ks=ks, k2=k2: get_case(ctx, list(ks), more=[list(k2)])


c10.info = {'bounded': ['keys of one axis: all forms; of two axes: six forms each (all); of three axes: three forms each '
                        '(four); one repetition with the same or another key']}


# ---------------------------------------------------------------- C11
def box_meets(k1, k2):
    """formula: the boxes that two keys select have a position in common
    (exact for steps of one)"""
    fs = []
    for a, b in zip(k1, k2):
        if a.step != const(1) or b.step != const(1):
            raise ints.Unsupported('contract: strided keys')
        fs.append(('c', Cond('ge', norm(b.start + b.count - 1 - a.start))))
        fs.append(('c', Cond('ge', norm(a.start + a.count - 1 - b.start))))
    return path.fjoin('and', *fs)


def set_replay(shape, keys, shapes, same=(), m=None):
    """a program of these assignments, the one numbered m rejected"""
    n = len(shapes)
    ks = [[k, same[j] if j < len(same) else j] for j, k in enumerate(keys)]
    kw = {'name': 'y', 'shape': shape, 'keys': ks[:m]}
    if ks[m:]:
        kw['rejects'] = [[m] + ks[m]]
    return {'kind': 'prog', 'seed': 1, 'prog': {
        'inputs': [{'name': 'x%d' % j, 'shape': s, 'dom': 'any'} for j, s in enumerate(shapes)],
        'nodes': [{'op': 'assign', 'args': [], 'kw': kw}], 'outs': [['y', n]]}}


REJ = (ValueError, IndexError, KeyError, TypeError)


def state(y):
    """the attributes of an output, one level deep"""
    return {k: (v, list(v.items()) if isinstance(v, dict) else list(v) if isinstance(v, (list, tuple, set)) else None)
            for k, v in y.__dict__.items()}


def unchanged(ctx, y, before, finish, m):
    """a rejected assignment has no effect on the output"""
    now = state(y)

    def same(a, b):
        return a is b or type(a) is type(b) and (
            isinstance(a, (tuple, list)) and len(a) == len(b) and all(map(same, a, b))
            or isinstance(a, (bool, int, str)) and a == b)
    if set(now) == set(before) and all(same(now[k][0], before[k][0]) and same(now[k][1], before[k][1]) for k in now):
        ctx.ok('no effect')
    elif m:
        finish(m)
    elif y.defined or y.build is not None:
        ctx.fail('no effect', 'a rejected assignment defines the output')
    else:
        vc.dep_check(ctx, y, [])


def set_case(ctx, kinds, tup=True, more=(), disjoint=None, wrong=False, repeat=False, facts=None, limit=None):
    """y[key] = x for one key, or for several keys of the same axes; wrong:
    operands of another shape; repeat: the same expression twice; facts(keys):
    preconditions"""
    def run():
        DIMS[:] = []
        axes = [Axis(k, str(j)) for j, k in enumerate(kinds)]
        keys = [axes] + [[Axis(k, '%d_%d' % (j, q), axes[j].n) for j, k in enumerate(ks)] for q, ks in enumerate(more)]
        for ax in keys:
            for a in ax:
                for f in a.facts:
                    path.assume(('c', Cond('ge', f)))
        for f in (facts(keys) if facts else []):
            path.assume(('c', Cond('ge', norm(f))))
        dims = [a.n for a in axes]
        Y = Opd('y', dims)
        X = [Opd('x%d' % j, [a.count for a in ax]) for j, ax in enumerate(keys)]
        bad = [path.fjoin('or', *[a.bad for a in ax]) for ax in keys]
        if wrong:
            X[0] = Opd('x0', [dim('q%d' % j) for j in range(len(axes))])
            bad[0] = path.fjoin('or', bad[0], *[('c', Cond('ne', norm(x - a.count))) for x, a in zip(X[0].dims, axes)])
        for j in range(len(keys)):
            for i in range(j):
                if disjoint is None:
                    bad[j] = path.fjoin('or', bad[j], box_meets(keys[i], keys[j]))
        xs = [o.make() for o in X]
        if repeat:
            xs[-1] = xs[0]
        E = ot().load('omtools.core.explicit_output').ExplicitOutput
        y = E('y', shape=Y.shape)

        def replay(env, m=len(keys)):
            return set_replay(
                [ints.ieval(norm(d), env) for d in dims], [kconc(ax, env, tup) for ax in keys[:m + 1]],
                [[ints.ieval(norm(d), env) for d in o.dims] for o in X[:m + 1]], [0] * len(keys) if repeat else [], m)
        ctx.replay = replay

        def finish(m):
            """y holds the first m assignments"""
            ctx.check('shape', shape_is(y.shape, dims), 'shape %r' % (y.shape, ))
            vc.dep_check(ctx, y, xs[:m])
            if not ctx.check('builds', y.build is not None, 'the output has no component'):
                return

            def spec(o, old=None):
                tot, hit = ZERO, ZERO
                for ax, op in zip(keys[:m], X):
                    k = tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in op.dims)
                    h = ONE
                    for a, q, p in zip(ax, k, o):
                        h = h * rcond(Cond('eq', norm(a.start + a.step * q - p)))
                    b = [z for q in k for z in q.atoms()]
                    tot = tot + rsum(b, h * op.el(*k))
                    hit = hit + rsum(b, h)
                if old is not None:
                    u = old(o)
                    tot = tot + u - hit * u
                return tot
            spec.old = True
            run_component(y.build(), ctx, {o.name: o for o in X[:m]}, {'y': (dims, None, spec)},
                          hints=[[a.count for a in ax] for ax in keys[:m]], shapes={'y': y.shape})
        for j, ax in enumerate(keys):
            before = state(y)
            try:
                y[key_of(ax, tup)] = xs[j]
            except (ints.Unsupported, path.Infeasible):
                raise
            except Exception as e:
                if repeat and j:
                    ctx.check('rejects', isinstance(e, REJ), 'repeated expression: %r' % e)
                elif not vc.error_check(ctx, (bad[j], REJ), e):
                    ctx.exc('accepts', e)
                    return
                ctx.replay = lambda env: replay(env, j)
                unchanged(ctx, y, before, finish, j)
                return
            if repeat and j:
                ctx.fail('rejects', 'a repeated expression is accepted')
                return
            vc.error_check(ctx, (bad[j], REJ), None)
            ctx.ok('accepts')
        finish(len(keys))
    explore_case(ctx, run, limit)


@reg('C11')
def c11(tier):
    W = 'core/explicit_output.py:ExplicitOutput.__setitem__'
    KS = KINDS + ['a:-b']
    for k in KS:
        if k != 'i':
            yield W + '[%s]' % kname([k], False), lambda ctx, k=k: set_case(ctx, [k], False)
            yield W + '[%s, operand of any shape]' % kname([k], False), lambda ctx, k=k: set_case(ctx, [k], False, wrong=True)
        yield W + '[%s]' % kname([k]), lambda ctx, k=k: set_case(ctx, [k])
        yield W + '[%s, operand of any shape]' % kname([k]), lambda ctx, k=k: set_case(ctx, [k], wrong=True)
    yield W + '[k]', lambda ctx: set_case(ctx, ['i'], False)
    sub = ['i', ':', 'a:b', 'a:', 'a:b:s', '::s', 'a:-b']
    for ks in itertools.product(sub, repeat=2):
        yield W + '[%s]' % kname(ks), lambda ctx, ks=ks: set_case(ctx, ks)
    sub = ['i', ':', 'a:b'] if tier == 'quick' else ['i', ':', 'a:b', 'a:b:s']
    for ks in itertools.product(sub, repeat=3):
        yield W + '[%s]' % kname(ks), lambda ctx, ks=ks: set_case(ctx, ks)
    B = ['i', 'a:b', ':b']
    for k1 in B + ['a:', ':']:
        for k2 in B:
            yield W + '[%s then %s]' % (kname([k1], False), kname([k2], False)), \
                lambda ctx, k1=k1, k2=k2: set_case(ctx, [k1], False, more=[[k2]])
            yield W + '[%s then %s, same expression]' % (kname([k1], False), kname([k2], False)), \
                lambda ctx, k1=k1, k2=k2: set_case(ctx, [k1], False, more=[[k2]], repeat=True)
    for k1, k2 in itertools.product([('i', ':'), (':', 'i'), ('a:b', 'a:b')], [('i', 'a:b'), ('a:b', 'i'), ('a:b', 'a:b')]):
        yield W + '[%s then %s]' % (kname(k1), kname(k2)), lambda ctx, k1=k1, k2=k2: set_case(ctx, k1, more=[k2])
    for ks in (['a:b', 'a:b', 'a:b'], ['i', 'i', 'i'], ['i', 'a:b', 'i']):
        yield W + '[%s]' % ' then '.join(ks), lambda ctx, ks=ks: set_case(
            ctx, [ks[0]], False, more=[[k] for k in ks[1:]], limit=200)


c11.info = {'bounded': ['keys of one axis: all forms; of two axes: seven forms each; of three axes: three forms each (four); '
                        'histories of up to three assignments']}
