"""Contracts of the array functions (C03-C09, C22)."""
import itertools
import math
from fractions import Fraction

from . import ints, terms, path, arr, vc, ksc
from .ints import const, norm, ravel, fresh_idx, dim
from .terms import rfun, rpow, rexp, rlog, rparam, rconst, rel, rsum, ONE, ZERO, rmax
from .arr import Arr, SymReal, SymInt, mkint
from .vc import Opd, op_case
from .ops import reg, one, sizes, X, P

L = 'ijklmnpq'


def D(r, pre='n'):
    return ['%s%d' % (pre, k) for k in range(r)]


def free(dims):
    """generic index (bound variables) of an array"""
    return tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in dims)


def bs(idx):
    return [a for i in idx for a in norm(i).atoms()]


def idims(names):
    return [dim(d) if isinstance(d, str) else const(d) for d in names]


def proper(r, ordered=True, maxlen=None):
    for k in range(1, r):
        for c in (itertools.permutations(range(r), k) if ordered else itertools.combinations(range(r), k)):
            yield c


# ---------------------------------------------------------------- C03
NM = ['x', 'y', 'z', 'u', 'v', 'w', 'p', 'q', 'r', 's', 't', 'a', 'b', 'c', 'd']


@reg('C03')
def c03(tier):
    quick = tier == 'quick'
    for fn in ('sum', 'average'):
        def total(ctx, fn=fn):
            def spec(o):
                def f(i):
                    j = free(o[0].dims)
                    s = rsum(bs(j), o[0].el(*j))
                    return s if fn == 'sum' else s / terms.rint(o[0].size)
                return [const(1)], None, f
            op_case(ctx, lambda: [X()], lambda M, xs: getattr(M, fn)(xs[0]), spec,
                    replay=lambda ops, env: one(fn, [sizes(ops[0], env)]))
        yield 'std/%s.py:%s[one operand, shape of any rank]' % (fn, fn), total
        for k in (2, 3, 4, 6) if quick else (2, 3, 4, 5, 6, 8, 12):
            def mult(ctx, fn=fn, k=k):
                def spec(o):
                    def f(i):
                        s = sum([x.el(*i) for x in o[1:]], o[0].el(*i))
                        return s if fn == 'sum' else s * Fraction(1, k)
                    return o[0].dims, o[0].blk, f
                op_case(ctx, lambda: [X(name=NM[j]) for j in range(k)], lambda M, xs: getattr(M, fn)(*xs), spec,
                        replay=lambda ops, env: one(fn, [sizes(x, env) for x in ops], names=NM))
            yield 'std/%s.py:%s[%d operands, shape of any rank]' % (fn, fn, k), mult
        for r in range(2, 5 if quick else 6):
            for ax in proper(r):
                if r == 4 and quick and list(ax) != sorted(ax) and list(ax) != sorted(ax)[::-1]:
                    continue
                if r == 5 and list(ax) != sorted(ax) and list(ax) != sorted(ax)[::-1]:
                    continue
                for k in (1, 2, 3):
                    if r >= 4 and k == 3 and quick:
                        continue

                    def axes(ctx, fn=fn, r=r, ax=ax, k=k):
                        def spec(o):
                            d = o[0].dims
                            od = [d[j] for j in range(r) if j not in ax]
                            n = arr.prodI([d[j] for j in ax])

                            def f(i):
                                b = {j: (fresh_idx(d[j]) if norm(d[j]) != const(1) else const(0)) for j in ax}
                                it = iter(i)
                                full = [b[j] if j in ax else next(it) for j in range(r)]
                                s = ZERO
                                for x in o:
                                    s = s + rsum(bs(b.values()), x.el(*full))
                                return s if fn == 'sum' else s / (terms.rint(norm(n)) * k)
                            return od, None, f
                        op_case(ctx, lambda: [Opd(NM[j], D(r)) for j in range(k)],
                                lambda M, xs: getattr(M, fn)(*xs, axes=ax), spec,
                                replay=lambda ops, env: one(fn, [sizes(x, env) for x in ops], {'axes': list(ax)}))
                    yield 'std/%s.py:%s[rank %d, axes %s, %d operands]' % (fn, fn, r, ax, k), axes


c03.info = {'bounded': ['sum/average over axes: ranks up to 4 (thorough 5) and up to 3 operands; without axes every rank, '
                        'up to 6 (thorough 12) operands; all sizes and values']}


# ---------------------------------------------------------------- C04
def dotsum(o, i0, i1, b):
    return rsum(bs(b), o[0].el(*i0) * o[1].el(*i1))


@reg('C04')
def c04(tier):
    quick = tier == 'quick'

    def vec(ctx, fn):
        def spec(o):
            def f(i):
                j = free(o[0].dims)
                return dotsum(o, j, j, j)
            return [const(1)], None, f
        op_case(ctx, lambda: [Opd('x', ['n']), Opd('y', ['n'])], lambda M, xs: getattr(M, fn)(*xs), spec,
                replay=lambda ops, env: one(fn, [sizes(x, env) for x in ops]))
    for fn in ('dot', 'inner'):
        yield 'std/%s.py:%s[vectors]' % (fn, fn), lambda ctx, fn=fn: vec(ctx, fn)
    for r in range(1, 5 if quick else 6):
        for ax in range(r):
            for neg in (False, True):
                a = ax - r if neg else ax

                def shp(r=r, ax=ax):
                    return [3 if j == ax else 'n%d' % j for j in range(r)]

                def cdims(r=r, ax=ax):
                    return [const(3) if j == ax else dim('n%d' % j) for j in range(r)]
                if r > 1:
                    def dt(ctx, r=r, ax=ax, a=a, cdims=cdims):
                        def spec(o):
                            d = o[0].dims

                            def f(i):
                                b = fresh_idx(const(3))
                                full = list(i[:ax]) + [ints.atom(b) if isinstance(b, ints.Atom) else b] + list(i[ax:])
                                return rsum(bs([b]), o[0].el(*full) * o[1].el(*full))
                            return [d[j] for j in range(r) if j != ax], None, f
                        op_case(ctx, lambda: [Opd('x', cdims()), Opd('y', cdims())],
                                lambda M, xs: M.dot(xs[0], xs[1], axis=a), spec,
                                replay=lambda ops, env: one('dot', [sizes(x, env) for x in ops], {'axis': a}))
                    yield 'std/dot.py:dot[rank %d, axis %d]' % (r, a), dt

                def cr(ctx, r=r, ax=ax, a=a, cdims=cdims):
                    def spec(o):
                        def f(i):
                            k = norm(i[ax])

                            def comp(c):
                                p, q = (c + 1) % 3, (c + 2) % 3
                                at = lambda v: list(i[:ax]) + [const(v)] + list(i[ax + 1:])
                                return o[0].el(*at(p)) * o[1].el(*at(q)) - o[0].el(*at(q)) * o[1].el(*at(p))
                            if k.is_const():
                                return comp(k.value())
                            return sum([terms.rcond(terms.Cond('eq', k - c)) * comp(c) for c in range(3)], ZERO)
                        return o[0].dims, None, f
                    op_case(ctx, lambda: [Opd('x', cdims()), Opd('y', cdims())],
                            lambda M, xs: M.cross(xs[0], xs[1], axis=a), spec,
                            replay=lambda ops, env: one('cross', [sizes(x, env) for x in ops], {'axis': a}))
                yield 'std/cross.py:cross[rank %d, axis %d]' % (r, a), cr
    R = 3 if quick else 4
    for r0 in range(1, R + 1):
        for r1 in range(1, R + 1):
            if r0 == 1 and r1 == 1:
                continue
            for m in range(1, min(r0, r1) + 1):
                if m == r0 and m == r1:
                    continue
                for a0 in itertools.permutations(range(r0), m):
                    for a1 in itertools.permutations(range(r1), m):
                        if max(r0, r1) >= 4 and (list(a0) != sorted(a0) or r0 + r1 > 6):
                            continue
                        if quick and r0 == r1 == 3 and list(a0) != sorted(a0) and list(a1) != sorted(a1):
                            continue
                        for tup in (False, True):
                            if tup and (r0 > 2 or m > 1):
                                continue

                            def inn(ctx, r0=r0, r1=r1, a0=a0, a1=a1, tup=tup):
                                def mk():
                                    d0 = D(r0, 'n')
                                    d1 = D(r1, 'm')
                                    for p, q in zip(a0, a1):
                                        d1[q] = d0[p]
                                    return [Opd('x', d0), Opd('y', d1)]

                                def spec(o):
                                    d0, d1 = o[0].dims, o[1].dims
                                    od = [d0[j] for j in range(r0) if j not in a0] + [d1[j] for j in range(r1) if j not in a1]

                                    def f(i):
                                        b = free([d0[j] for j in a0])
                                        it = iter(i)
                                        i0 = [b[a0.index(j)] if j in a0 else next(it) for j in range(r0)]
                                        i1 = [b[a1.index(j)] if j in a1 else next(it) for j in range(r1)]
                                        return dotsum(o, i0, i1, b)
                                    return od, None, f
                                cv = tuple if tup else list
                                op_case(ctx, mk, lambda M, xs: M.inner(xs[0], xs[1], axes=(cv(a0), cv(a1))), spec,
                                        replay=lambda ops, env: one('inner', [sizes(x, env) for x in ops], {
                                            'axes': [list(a0), list(a1)], 'tup': tup}))
                            yield 'std/inner.py:inner[ranks %d and %d, axes %s%s]' % (
                                r0, r1, (a0, a1), ', tuples' if tup else ''), inn
    for r0 in range(1, R + 1):
        for r1 in range(1, R + 1):
            def out(ctx, r0=r0, r1=r1):
                op_case(ctx, lambda: [Opd('x', D(r0, 'n')), Opd('y', D(r1, 'm'))], lambda M, xs: M.outer(*xs),
                        lambda o: (list(o[0].dims) + list(o[1].dims), None,
                                   lambda i: o[0].el(*i[:r0]) * o[1].el(*i[r0:])),
                        replay=lambda ops, env: one('outer', [sizes(x, env) for x in ops]))
            yield 'std/outer.py:outer[ranks %d and %d]' % (r0, r1), out

    def mm(ctx, v, fn):
        def spec(o):
            def f(i):
                b = fresh_idx(o[0].dims[1]) if norm(o[0].dims[1]) != const(1) else const(0)
                return rsum(bs([b]), o[0].el(i[0], b) * (o[1].el(b) if v else o[1].el(b, i[1])))
            return [o[0].dims[0]] + ([] if v else [o[1].dims[1]]), None, f
        op_case(ctx, lambda: [Opd('x', ['n', 'm']), Opd('y', ['m'] if v else ['m', 'k'])],
                lambda M, xs: getattr(M, fn)(*xs), spec,
                replay=lambda ops, env: one(fn, [sizes(x, env) for x in ops]))
    yield 'std/matmat.py:matmat[matrices]', lambda ctx: mm(ctx, False, 'matmat')
    yield 'std/matmat.py:matmat[matrix and vector]', lambda ctx: mm(ctx, True, 'matmat')
    yield 'std/matvec.py:matvec', lambda ctx: mm(ctx, True, 'matvec')


c04.info = {'bounded': ['dot/cross: ranks up to 4 (5); inner/outer: ranks up to 3 (4); vector and matrix products: all cases']}


# ---------------------------------------------------------------- C05
EINS = ['i->', 'ij->', 'ij->i', 'ij->j', 'ij->ji', 'ij->ij', 'ijk->kj', 'ijk->ikj', 'i,i->', 'i,j->ij', 'i,j->ji',
        'i,i->i', 'ij,j->i', 'ij,jk->ik', 'ij,jk->ki', 'ij,ij->', 'ij,ij->ij', 'ij,kj->ik', 'ijk,k->ij', 'ijk,kj->i',
        'ij,k->ikj', 'ij,ji->', 'ij,j,k->ik', 'i,i,i->i', 'ij,jk,kl->il', 'i,ij,j->', 'i,j,k->kij', 'ijk,il,jm->lmk',
        'ij,jk->', 'ij,k->i', 'i,ijk->kj', 'i,j->', 'ij,jk,k->i', 'ij,jk,ki->', 'ij,jk,kl,l->i', 'j,ij->i', 'k,ijk->ij']
REPS = [('i,i->i', [0, 0]), ('i,j->ij', [0, 0]), ('i,i->', [0, 0]), ('ij,jk->ik', [0, 0]), ('ij,kj->ik', [0, 0]),
        ('i,j,i->j', [0, 1, 0]), ('i,i,j->j', [0, 0, 1]), ('ij,j,jk->ik', [0, 1, 0]), ('i,j,k->kij', [0, 0, 1]),
        ('i,j,k->kij', [0, 1, 1]), ('i,j,k->ijk', [0, 0, 0]), ('ij,jk,kl->il', [0, 1, 0]), ('ij,jk,kl->il', [0, 0, 1]),
        ('i,ij,j->', [0, 1, 0]), ('ij,ij->ij', [0, 0]), ('ij,ji->', [0, 0]), ('i,j,k,l->', [0, 1, 0, 1]),
        ('i,ij,jk,k->', [0, 1, 1, 0]), ('i,i,i,i->i', [0, 0, 0, 0]), ('i,i,j,j->ij', [0, 0, 0, 0]),
        ('i,j,i,j,k->ki', [0, 0, 1, 0, 0]), ('i,j->i', [0, 0]), ('i,j->j', [0, 0]), ('ij,kl->ij', [0, 0]), ('ij,kl->kl', [0, 0]),
        ('ij,ij,kl->ki', [0, 0, 0]), ('i,j,k->j', [0, 0, 0]), ('i,k,j->ij', [0, 0, 1]), ('k,i,j->ij', [0, 0, 1]),
        ('i,j,k,l->lk', [0, 0, 0, 1])]


def einsum_spec(sub, args, o):
    ins, out = sub.split('->')
    ins = ins.split(',')
    size = {}
    for t, k in zip(ins, args):
        for c, d in zip(t, o[k].dims):
            size.setdefault(c, d)

    def f(i):
        env = dict(zip(out, i))
        b = []
        for c in size:
            if c not in env:
                env[c] = fresh_idx(size[c]) if norm(size[c]) != const(1) else const(0)
                b.append(env[c])
        r = ONE
        for t, k in zip(ins, args):
            r = r * o[k].el(*[env[c] for c in t])
        return rsum(bs(b), r)
    return ([size[c] for c in out] or [const(1)]), None, (f if out else (lambda i: f(())))


def eins_dims(sub, args):
    """dimension names per distinct operand, unified over repeated ones"""
    ins = sub.split('->')[0].split(',')
    par = {}

    def find(c):
        while par.get(c, c) != c:
            c = par[c]
        return c
    first = {}
    for t, k in zip(ins, args):
        if k in first:
            for a, b in zip(first[k], t):
                par[find(b)] = find(a)
        else:
            first[k] = t
    return [['n_' + find(c) for c in first[k]] for k in sorted(first)]


@reg('C05')
def c05(tier):
    import random
    subs = [(s, None) for s in EINS] + REPS
    rnd = random.Random(5)
    n = 12 if tier == 'quick' else 150
    while n:
        no = rnd.randint(1, 3)
        letters = 'abcdefgh'[:rnd.randint(1, 4)]
        ts = [''.join(rnd.sample(letters, rnd.randint(1, min(3, len(letters))))) for _ in range(no)]
        used = sorted(set(''.join(ts)))
        sub = ','.join(ts) + '->' + ''.join(rnd.sample(used, rnd.randint(0, len(used))))
        if (sub, None) not in subs:
            subs.append((sub, None))
            n -= 1
    for sub, rep in subs:
        args = rep or list(range(sub.count(',') + 1))
        for api, fmt in itertools.product(('einsum', 'einsum_new_api'), ('dense', 'sparse')):
            def case(ctx, sub=sub, args=args, api=api, fmt=fmt):
                kw = {} if fmt == 'dense' else {'partial_format': fmt}

                def call(M, xs):
                    ys = [xs[k] for k in args]
                    if api == 'einsum':
                        return M.einsum(*ys, subscripts=sub, **kw)
                    ins, out = sub.split('->')
                    op = [tuple(t) for t in ins.split(',')] + ([tuple(out)] if out else [])
                    return M.einsum_new_api(*ys, operation=op, **kw)
                ctx_replay = lambda ops, env: one('einsum' if api == 'einsum' else 'einsum_new', [sizes(x, env) for x in ops],
                                                  dict({'sub': sub}, **({'fmt': fmt} if kw else {})), args=args)
                op_case(ctx, lambda: [Opd(NM[j], d) for j, d in enumerate(eins_dims(sub, args))], call,
                        lambda o: einsum_spec(sub, args, o), replay=ctx_replay)
            yield 'std/%s.py:%s[%s%s%s]' % (api, api, sub, ' operands %s' % rep if rep else '',
                                            ' sparse' if fmt == 'sparse' else ''), case


c05.info = {'bounded': ['dense and sparse partial format: the listed subscript patterns and generated ones (up to 4 operands, rank 3), '
                        'all sizes and values']}


# ---------------------------------------------------------------- C06
@reg('C06')
def c06(tier):
    quick = tier == 'quick'

    def rs(ctx):
        # any shapes of equal size
        op_case(ctx, lambda: [X()], lambda M, xs: M.reshape(xs[0], arr.SymShape([arr.Blk(dim('n'))])),
                lambda o: (o[0].dims, o[0].blk, lambda i: o[0].el(*i)))
    yield 'std/reshape.py:reshape[shapes of any rank]', rs
    pats = [('a', 'b', 'ab|'), ]
    shapes = [(['a', 'b'], [('a', 'b')]), (['a', 'b'], [('b', ), ('a', )]), (['a', 'b', 'c'], [('a', 'b'), ('c', )]),
              (['a', 'b', 'c'], [('a', ), ('b', 'c')]), (['a', 'b', 'c'], [('c', ), ('b', ), ('a', )]),
              (['a', 'b', 'c', 'd'], [('a', 'b'), ('c', 'd')]), (['a', 'b', 'c', 'd'], [('b', 'a'), ('d', ), ('c', )]),
              (['a'], [('a', )]), (['a'], [(), ('a', ), ()]), (['a', 'b'], [('a', ), ('b', ), ()])]
    for din, dout in shapes:
        def rx(ctx, din=din, dout=dout):
            od = lambda: [norm(arr.prodI([dim(c) for c in t])) for t in dout]
            op_case(ctx, lambda: [Opd('x', din)], lambda M, xs: M.reshape(xs[0], tuple(mkint(d) for d in od())),
                    lambda o: (od(), None, lambda i: o[0].flat(ravel(i, od()))),
                    replay=lambda ops, env: one('reshape', [sizes(ops[0], env)], {
                        'shape': [ints.ieval(d, env) for d in od()]}))
        yield 'std/reshape.py:reshape[%s to %s]' % (din, ['*'.join(t) or '1' for t in dout]), rx

        def ry(ctx, din=din, dout=dout):
            # the other direction: merged axes are split
            od = lambda: [norm(arr.prodI([dim(c) for c in t])) for t in dout]
            op_case(ctx, lambda: [Opd('x', od())], lambda M, xs: M.reshape(xs[0], tuple(mkint(dim(d)) for d in din)),
                    lambda o: ([dim(d) for d in din], None, lambda i: o[0].flat(ravel(i, [dim(d) for d in din]))),
                    replay=lambda ops, env: one('reshape', [sizes(ops[0], env)], {
                        'shape': [ints.ieval(dim(d), env) for d in din]}))
        yield 'std/reshape.py:reshape[%s to %s]' % (['*'.join(t) or '1' for t in dout], din), ry
    for r in range(1, 6 if quick else 7):
        def tr(ctx, r=r):
            op_case(ctx, lambda: [Opd('x', D(r))], lambda M, xs: M.transpose(xs[0]),
                    lambda o: (o[0].dims[::-1], None, lambda i: o[0].el(*i[::-1])),
                    replay=lambda ops, env: one('transpose', [sizes(ops[0], env)]))
        yield 'std/transpose.py:transpose[rank %d]' % r, tr
    for r in range(1, 5 if quick else 6):
        for p in itertools.permutations(range(r)):
            for sp in (('->', ' -> ') if r == 3 else ('->', )):
                sub = L[:r] + sp + ''.join(L[j] for j in p)

                def ra(ctx, r=r, p=p, sub=sub):
                    def spec(o):
                        def f(i):
                            full = [None] * r
                            for k, j in enumerate(p):
                                full[j] = i[k]
                            return o[0].el(*full)
                        return [o[0].dims[j] for j in p], None, f
                    op_case(ctx, lambda: [Opd('x', D(r))], lambda M, xs: M.reorder_axes(xs[0], sub), spec,
                            replay=lambda ops, env: one('reorder_axes', [sizes(ops[0], env)], {'sub': sub}))
                yield 'std/reorder_axes.py:reorder_axes[%s]' % sub, ra
    # expand: a scalar to any shape

    def es(ctx):
        op_case(ctx, lambda: [Opd('x', [1])] if False else [Opd('x', [const(1)])],
                lambda M, xs: M.expand(xs[0], arr.SymShape([arr.Blk(dim('n'))])),
                lambda o: ([dim('n')], [True], lambda i: o[0].el(const(0))),
                replay=lambda ops, env: one('expand', [[1]], {'shape': [ints.ieval(dim('n'), env)]}))
    yield 'std/expand.py:expand[scalar to a shape of any rank]', es
    for r in range(1, 5 if quick else 6):
        for m in range(1, 2**r):
            keep = [j for j in range(r) if m >> j & 1]
            o_ = L[:r]
            sub = ''.join(o_[j] for j in keep) + '->' + o_

            def ex(ctx, r=r, keep=keep, sub=sub):
                def call(M, xs):
                    return M.expand(xs[0], tuple(mkint(dim(d)) for d in D(r)), sub)

                def spec(o):
                    return [dim(d) for d in D(r)], None, lambda i: o[0].el(*[i[j] for j in keep])
                op_case(ctx, lambda: [Opd('x', [D(r)[j] for j in keep])], call, spec,
                        replay=lambda ops, env: one('expand', [sizes(ops[0], env)], {
                            'shape': [ints.ieval(norm(dim(d)), env) for d in D(r)], 'sub': sub}))
            yield 'std/expand.py:expand[%s]' % sub, ex

    # many new axes
    for r, keep in ((5, [2]), (6, [5]), (6, [0, 3]), (7, [1]), (8, [0, 7])) if quick else ((6, [5]), (6, [0, 3]), (7, [1]), (8, [0, 7])):
        def ex3(ctx, r=r, keep=keep):
            sub = ''.join(L[j] for j in keep) + '->' + L[:r]
            op_case(ctx, lambda: [Opd('x', [D(r)[j] for j in keep])],
                    lambda M, xs: M.expand(xs[0], tuple(mkint(dim(d)) for d in D(r)), sub),
                    lambda o: ([dim(d) for d in D(r)], None, lambda i: o[0].el(*[i[j] for j in keep])),
                    replay=lambda ops, env: one('expand', [sizes(ops[0], env)], {
                        'shape': [ints.ieval(norm(dim(d)), env) for d in D(r)], 'sub': sub}))
        yield 'std/expand.py:expand[%d axes of which %s are given]' % (r, keep), ex3

    # two axes of one size
    def ex2(ctx, sub, dn):
        i_, o_ = sub.split('->')
        od = lambda: [dim(d) for d in dn]
        op_case(ctx, lambda: [Opd('x', [dn[o_.index(c)] for c in i_])],
                lambda M, xs: M.expand(xs[0], tuple(mkint(d) for d in od()), sub),
                lambda o: (od(), None, lambda i: o[0].el(*[i[o_.index(c)] for c in i_])),
                replay=lambda ops, env: one('expand', [sizes(ops[0], env)], {
                    'shape': [ints.ieval(norm(d), env) for d in od()], 'sub': sub}))
    for sub, dn in (('ij->ikj', 'aaa'), ('ij->ijk', 'aab'), ('i->ij', 'aa'), ('j->ij', 'aa'), ('ij->kij', 'aba')):
        yield 'std/expand.py:expand[%s, sizes %s]' % (sub, dn), lambda ctx, sub=sub, dn=dn: ex2(ctx, sub, dn)


c06.info = {'bounded': ['transpose: ranks up to 5 (6); reorder_axes and expand of arrays: ranks up to 4 (5); '
                        'reshape and scalar expansion: every rank']}


# ---------------------------------------------------------------- C07
def ks(sign, rho, elems, binder=None):
    """KS aggregate (log of the sum of exponentials) of sign*elements"""
    if binder is None:
        s = ZERO
        for e in elems:
            s = s + rexp(e * rho * sign)
    else:
        s = rsum(bs(binder), rexp(elems * rho * sign))
    return rlog(s) / rho * sign


@reg('C07')
def c07(tier):
    quick = tier == 'quick'
    yield 'lemma: the KS aggregate bounds the extremum', ksc.bounds
    for fn, sg in (('max', 1), ('min', -1)):
        for rho in ('rho', None):
            def kwr(rho=rho):
                terms.POSITIVE.add('rho')
                if rho:
                    path.assume(arr.rcmpf('lt', ZERO, P('rho')))
                return {'rho': SymReal(P('rho'))} if rho else {}
            rv = (lambda: P('rho')) if rho else (lambda: rconst(20))
            rk = {'rho': 2.5} if rho else {}
            dm = {'rho': (.5, 3), '*': (-2, 2)}
            tag = 'any rho' if rho else 'default rho'

            def sc(ctx, fn=fn, sg=sg, kwr=kwr, rv=rv, rk=rk):
                ctx.watch = ksc.overflow
                def spec(o):
                    def f(i):
                        j = free(o[0].dims)
                        return ks(sg, rv(), o[0].el(*j), j)
                    return [const(1)], None, f
                op_case(ctx, lambda: [X()], lambda M, xs: getattr(M, fn)(xs[0], **kwr()), spec, dom=dm,
                        replay=lambda ops, env: dict(one(fn, [sizes(ops[0], env)], rk), tol=1e-6))
            yield 'std/%s.py:%s[one operand, shape of any rank, %s]' % (fn, fn, tag), sc
            for k in (2, 3) if quick else (2, 3, 4, 5):
                def el(ctx, fn=fn, sg=sg, k=k, kwr=kwr, rv=rv, rk=rk):
                    ctx.watch = ksc.overflow
                    op_case(ctx, lambda: [X(name=NM[j]) for j in range(k)], lambda M, xs: getattr(M, fn)(*xs, **kwr()),
                            lambda o: (o[0].dims, o[0].blk, lambda i: ks(sg, rv(), [x.el(*i) for x in o])), dom=dm,
                            replay=lambda ops, env: dict(one(fn, [sizes(x, env) for x in ops], rk), tol=1e-6))
                yield 'std/%s.py:%s[%d operands, shape of any rank, %s]' % (fn, fn, k, tag), el
            for r in range(2, 4 if quick else 5):
                for ax in range(-r, r):
                    def axs(ctx, fn=fn, sg=sg, r=r, ax=ax, kwr=kwr, rv=rv, rk=rk):
                        ctx.watch = ksc.overflow
                        a = ax % r

                        def spec(o):
                            d = o[0].dims

                            def f(i):
                                b = free([d[a]])
                                return ks(sg, rv(), o[0].el(*(list(i[:a]) + list(b) + list(i[a:]))), b)
                            return [d[j] for j in range(r) if j != a], None, f
                        op_case(ctx, lambda: [Opd('x', D(r))], lambda M, xs: getattr(M, fn)(xs[0], axis=ax, **kwr()), spec,
                                dom=dm, replay=lambda ops, env: dict(one(fn, [sizes(x, env) for x in ops],
                                                                         dict(rk, axis=ax)), tol=1e-6))
                    yield 'std/%s.py:%s[rank %d, axis %d, %s]' % (fn, fn, r, ax, tag), axs


c07.info = {'bounded': ['along an axis: ranks 2 and 3 (4); elementwise: 2 and 3 (5) operands; one operand: every rank; '
                        'all sizes, values and positive rho'],
            'assumptions': ['exp is positive, at most 1 below 0 and 1 at 0; log is increasing, log 1 = 0; '
                            'exp and log turn sums into products and back (lemma: the KS aggregate bounds the extremum)']}


# ---------------------------------------------------------------- C08
@reg('C08')
def c08(tier):
    quick = tier == 'quick'
    for p in (None, 2, 4, 6, 8, 10) if quick else (None, 2, 4, 6, 8, 10, 12, 14, 20):
        pv = p or 2
        kw = {} if p is None else {'pnorm_type': p}
        rk = {} if p is None else {'p': p}

        def sc(ctx, pv=pv, kw=kw, rk=rk):
            def spec(o):
                def f(i):
                    j = free(o[0].dims)
                    return rpow(rsum(bs(j), rpow(o[0].el(*j), Fraction(pv))), Fraction(1, pv))
                return [const(1)], None, f
            op_case(ctx, lambda: [X()], lambda M, xs: M.pnorm(xs[0], **kw), spec, dom={'*': (-2, 2)},
                    replay=lambda ops, env: dict(one('pnorm', [sizes(ops[0], env)], rk, doms='nonzero'), tol=1e-6))
        yield 'std/pnorm.py:pnorm[type %s, shape of any rank]' % p, sc
        for r in range(2, 4 if quick else 5):
            for ax in list(range(r)) + list(proper(r)):
                t = ax if isinstance(ax, tuple) else (ax, )
                if p not in (None, 4) and quick and r == 3 and isinstance(ax, tuple) and len(ax) == 1:
                    continue

                def axs(ctx, pv=pv, kw=kw, rk=rk, r=r, ax=ax, t=t):
                    def spec(o):
                        d = o[0].dims

                        def f(i):
                            b = {j: (fresh_idx(d[j]) if norm(d[j]) != const(1) else const(0)) for j in t}
                            it = iter(i)
                            full = [b[j] if j in t else next(it) for j in range(r)]
                            return rpow(rsum(bs(b.values()), rpow(o[0].el(*full), Fraction(pv))), Fraction(1, pv))
                        return [d[j] for j in range(r) if j not in t], None, f
                    op_case(ctx, lambda: [Opd('x', D(r))], lambda M, xs: M.pnorm(xs[0], axis=ax, **kw), spec,
                            dom={'*': (-2, 2)},
                            replay=lambda ops, env: dict(one('pnorm', [sizes(x, env) for x in ops], dict(
                                rk, axis=list(ax) if isinstance(ax, tuple) else ax), doms='nonzero'), tol=1e-6))
                yield 'std/pnorm.py:pnorm[type %s, rank %d, axis %s]' % (p, r, ax), axs


c08.info = {'bounded': ['pnorm_type 2, 4, 6, 8, 10 (20); axes: ranks 2 and 3 (4), every axis tuple in every order; '
                        'without axes every rank']}


# ---------------------------------------------------------------- C09
@reg('C09')
def c09(tier):
    for ax in 'xyz':
        k = 'xyz'.index(ax)

        def mat(a, i, j, k=k):
            """right-handed rotation about axis k, row i, column j"""
            p, q = (k + 1) % 3, (k + 2) % 3
            c, s = rfun('cos', a), rfun('sin', a)
            return {(k, k): ONE, (p, p): c, (q, q): c, (p, q): -s, (q, p): s}.get((i, j), ZERO)

        def rm(ctx, ax=ax, mat=mat, scalar=False):
            def spec(o):
                one_ = o[0].dims[0] in ints.FACTS.blk1 or (not o[0].blk[0])
                od = [] if one_ else list(o[0].dims)

                def f(i):
                    a = o[0].el(*(i[:len(od)] if od else [const(0)]))
                    r, c = norm(i[-2]), norm(i[-1])
                    s = ZERO
                    for p in range(3):
                        for q in range(3):
                            m = mat(a, p, q)
                            if not m.t:
                                continue
                            w = ONE
                            for v, t in ((r, p), (c, q)):
                                if v.is_const():
                                    w = w * rconst(int(v.value() == t))
                                else:
                                    w = w * terms.rcond(terms.Cond('eq', v - t))
                            s = s + w * m
                    return s
                return od + [const(3), const(3)], ([True] if od else []) + [False, False], f
            op_case(ctx, lambda: [X()], lambda M, xs: M.rotmat(xs[0], ax), spec, dom={'*': (-3, 3)},
                    replay=lambda ops, env: one('rotmat', [sizes(ops[0], env)], {'axis': ax}, doms='angle'))
        yield 'std/rotmat.py:rotmat[axis %s, shape of any rank]' % ax, (lambda ctx, rm=rm, ax=ax, mat=mat: rm(ctx, ax, mat))


# ---------------------------------------------------------------- C22
@reg('C22')
def c22(tier):
    def ie(ctx, same=None):
        def spec(o):
            c = o[0]

            def f(i):
                neg = path.branch(arr.rcmpf('lt', c.el(const(0)), ZERO))
                return (o[-1] if neg else o[1]).el(*i)
            return o[1].dims, o[1].blk, f
        op_case(ctx, lambda: [Opd('c', [const(1)]), X(), X(name='y')], lambda M, xs: M.if_else(*xs), spec,
                dom={'*': (-1, 1)})
    yield 'std/if_else.py:if_else[branches of any rank]', ie
