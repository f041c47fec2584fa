"""Contracts of implicit components (C16, C17) and cyclic outputs (C18): the
real ImplicitComponent, ImplicitOutput, Group and graph code is executed on
residuals over arrays of symbolic shape."""
import itertools

import z3

from . import arr, ints, loopc, path, prob, seqs, symnp, symom, terms, vc
from .arr import Arr, SymReal
from .ints import const, norm, ravel, fresh_idx, Unsupported
from .ops import reg, X, P
from .terms import rel, deriv, is_zero, rcond, Cond, ZERO
from .vc import Opd, explore_case, ot, shape_is, same_dims

np = symnp.mod


class Np:
    """the residuals over arrays: the contract"""
    sin, cos, exp, tanh = np.sin, np.cos, np.exp, np.tanh

    @staticmethod
    def tot(v):
        return np.sum(v) * np.ones(v.shape)

    @staticmethod
    def reg(n, e):
        return e

    out = reg

    @staticmethod
    def const(n, like):
        return Arr(like.dims, lambda i: rel('val:' + n, ravel(i, like.dims)), 'f', like.blk)


class Ex:
    """the residuals as expressions of omtools"""

    def __init__(self, M, g):
        self.sin, self.cos, self.exp, self.tanh = M.sin, M.cos, M.exp, M.tanh
        self.tot = lambda v: M.expand(M.sum(v), v.shape)
        self.g = g

    def reg(self, n, e):
        """registered as an output of the group"""
        self.g.register_output(n, e)
        return e

    def out(self, n, e):
        """an output of the group defined by the expression"""
        y = self.g.create_output(n, shape=e.shape)
        y.define(e)
        return y

    def const(self, n, like):
        """the output of a subsystem"""
        dims, blk = arr.parse_shape(like.shape)
        v = Arr(dims, lambda i: rel('val:' + n, ravel(i, dims)), 'f', blk)
        s = type(self.g)()
        s.create_indep_var(n, shape=like.shape, val=v)
        self.g.add_subsystem('sub' + n, s, promotes=['*'])
        return self.g.declare_input(n, shape=like.shape)


RES = {
    'quad': lambda f, x, a, b: x**2 * 1. + a * x - b * b - 1.,
    'sin': lambda f, x, a, b: x * 3. + f.sin(x * a) - b,
    'exp': lambda f, x, a, b: f.exp(x) + x * a * a - b * b - 2.,
    'cub': lambda f, x, a, b: x**3 + (a * a + 1.) * x - b,
    'noa': lambda f, x, a, b: x * 2. + f.tanh(x) - b,
    'inter': lambda f, x, a, b: f.sin(x) * .3 + x - f.cos(a * b),
    'mat': lambda f, x, a, b: x * 4. + f.tot(x) * a - b,
    'matsin': lambda f, x, a, b: x * 5. + f.tot(f.sin(x)) * a - b * b,
}


def coupled(fam):
    def F(f, v):
        x, y, a, b = v['x'], v['y'], v['a'], v['b']
        if fam == 'both':
            return {'x': x * 3. + y * .5 - a, 'y': y * 2. + f.sin(x) * .2 - b}
        if fam == 'one':
            return {'x': x * 3. + y * .5 - a, 'y': y * 2. + b * .2 - b}
        if fam == 'shared':
            s = f.sin(x) * .3 + y * .2
            return {'x': x * 3. + s * a - b, 'y': y * 2. + s * s - b}
        if fam == 'mix':
            return {'x': x * 4. + f.tot(y) * .3 - a, 'y': y * 5. + f.tot(f.sin(x)) * a - b}
        if fam == 'input':
            return {'x': x * 3. + f.sin(a) - b, 'y': y * 2. + a * b - f.sin(y) * .1}
        if fam == 'three':
            z = v['z']
            s = x + y + z
            return {'x': x * 3. + f.sin(s) - a, 'y': y * 2. + z * .5 - b, 'z': f.exp(z) + s * a}
        if fam == 'registered':
            t = f.reg('t', f.sin(x) * a)
            return {'x': x * 3. + t - b, 'y': y * 2. + t * t - a}
        if fam == 'defined':
            t = f.out('t', f.sin(a) * b)
            s = f.reg('s', t + y)
            return {'x': x * 3. + t * y - b, 'y': y * 2. + t * t - s * x}
        if fam == 'subsystem':
            k = f.const('k', a)
            return {'x': x * k + y - f.sin(a), 'y': y * 2. + b * k - x}
        if fam == 'nested':
            u = f.exp(f.sin(x * y) * f.cos(y + a) + x)
            return {'x': u + f.sin(u) * b + x, 'y': y * u + f.tot(u * y) - a}
        raise ValueError(fam)
    return F


def separate(outs):
    """outs: [(name, family)]: each output with its own inputs a_, b_"""
    def F(f, v):
        return {n: RES[fam](f, v[n], v['a_' + n], v['b_' + n]) for n, fam in outs}
    return F


def component(F, outs, ins, define, bracket=None, maxiter=None):
    """the real component; outs, ins: {name: Opd}"""
    M = ot().load('omtools.api')
    IC = ot().load('omtools.comps.implicit_component').ImplicitComponent

    def setup(self):
        g = self.group
        v = {}
        for n, o in ins.items():
            val = o.arr('val:')
            val.store.ro = 'declared value of ' + n
            v[n] = g.declare_input(n, shape=o.shape, val=val)
        for n, o in outs.items():
            val = o.arr('val:')
            val.store.ro = 'declared value of ' + n
            v[n] = g.create_implicit_output(n, shape=o.shape, val=val)
        r = F(Ex(M, g), v)
        for n in define:
            if bracket:
                v[n].define_residual_bracketed(r[n], x1=bracket[n][0], x2=bracket[n][1])
            else:
                v[n].define_residual(r[n])
    kw = {} if maxiter is None else {'maxiter': maxiter}
    return type(IC)('I', (IC, ), {'setup': setup})(**kw)


def used(r, n):
    """does the term mention the array"""
    hit = []

    def f(name):
        if name == n:
            hit.append(1)
        return None
    prob.elsub(r, f)
    return bool(hit)


def vec(metas, prefix, ro=None):
    return symom.Vec(metas, lambda n, dims: (lambda i: rel(prefix + n, ravel(i, dims))), ro)


def quiet(a, b):
    d = terms.rlift(a) - terms.rlift(b)
    try:
        return is_zero(d)
    except Unsupported:
        return False


def implicit_case(ctx, F, mkouts, mkins, define=None, modes=('fwd', 'rev'), replay=None):
    def run():
        vc.DIMS[:] = []
        terms.POSITIVE.clear()
        symnp.SOLVES[:] = []
        outs, ins = mkouts(), mkins()
        ctx.replay = (lambda env: replay(outs, env)) if replay else None
        spec = F(Np, {n: o.arr() for n, o in list(outs.items()) + list(ins.items())})
        try:
            c = component(F, outs, ins, define or list(outs))
            c.setup()
            c._resolve()
        except (Unsupported, path.Infeasible):
            raise
        except Exception as e:
            ctx.exc('setup', e, 'setup raises ')
            return
        ctx.ok('setup')
        want_in = {}
        sp = {}
        for n, r in spec.items():
            i = tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in r.dims)
            sp[n] = r.snap()
            e = sp[n](i)
            for m, o in ins.items():
                if used(e, m):
                    want_in[m] = o
        ctx.check('inputs', set(c._inp) == set(want_in), 'inputs %s instead of %s' % (sorted(c._inp), sorted(want_in)))
        ctx.check('outputs', set(c._out) == set(outs), 'outputs %s instead of %s' % (sorted(c._out), sorted(outs)))
        if set(c._inp) != set(want_in) or set(c._out) != set(outs):
            return
        for ms, os_, what in ((c._inp, want_in, 'input'), (c._out, outs, 'output')):
            for n, o in os_.items():
                m = ms[n]
                if not ctx.check('shape', same_dims(m['dims'], m['blk'], o.dims, o.blk),
                                 '%s %s declared with shape %r' % (what, n, arr.mkshape(m['dims'], m['blk']))):
                    return
                i = tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in m['dims'])
                ctx.equal('initial value', m['val'].snap()(i), rel('val:' + n, ravel(i, m['dims'])), i,
                          'declared value of %s %s' % (what, n))

        def attempt(what, f):
            try:
                f()
                return True
            except (Unsupported, path.Infeasible):
                raise
            except symom.FrameError as e:
                ctx.fail('frame', '%s writes to %s' % (what, e))
            except Exception as e:
                ctx.exc(what, e, what + ' raises ')
            return False

        def residual(pre, check):
            R = vec(c._out, 'old%s:' % pre)
            I, O = vec(c._inp, pre, 'input'), vec(c._out, pre, 'output')
            if not attempt('residual', lambda: c.apply_nonlinear(I, O, R)):
                return False
            if check:
                for n in outs:
                    i, e = vc.elem(R._s[n].fn, c._out[n]['dims'])
                    ctx.equal('residual', e, sp[n](i), i, 'residual of ' + n)
            return True

        def partials(pre, check):
            J = symom.Partials(c, True)
            I, O = vec(c._inp, pre, 'input'), vec(c._out, pre, 'output')
            if not attempt('partial', lambda: c.linearize(I, O, J)):
                return False
            if check:
                for n, o in outs.items():
                    for m, q in list(outs.items()) + list(want_in.items()):
                        vc.jacobian(c, ctx, n, m, q, o.dims, sp[n], ())
            return True
        # the order of evaluations must not matter
        if not (residual('p1:', False) and partials('p2:', False) and residual('', True)):
            return
        if not (residual('p3:', False) and partials('', True)):
            return
        ctx.ok('frame')
        for mode in modes:
            if not linear(ctx, c, outs, sp, mode, attempt):
                return
        if not (partials('p4:', False) and residual('p5:', False) and partials('', True)):
            return
    explore_case(ctx, run)


def linear(ctx, c, outs, sp, mode, attempt):
    """d_outputs, d_residuals related by the Jacobian of the residuals with
    respect to the outputs, at the point of the last linearize"""
    symnp.SOLVES[:] = []
    src, dst = ('r', 'o') if mode == 'fwd' else ('o', 'r')
    rhs = vec(c._out, '~%s:' % src)
    sol = vec(c._out, 'old~%s:' % dst)
    do, dr = (sol, rhs) if mode == 'fwd' else (rhs, sol)
    if not attempt('linear solve ' + mode, lambda: c.solve_linear(do, dr, mode)):
        return False
    what = 'linear solve ' + mode
    if len(symnp.SOLVES) != 1:
        ctx.open(what, '%d linear systems' % len(symnp.SOLVES))
        return True
    A, b, n, z = symnp.SOLVES[0]
    names = list(outs)
    flat = {o: (lambda k, o=o: ints.unravel(k, outs[o].dims)) for o in names}
    ctx.check(what + ' size', norm(n) == norm(ints.isum([outs[o].size for o in names]))
              if hasattr(ints, 'isum') else is_size(n, [outs[o].size for o in names]), 'a system of %s equations' % (n, ))
    best = None
    for rows in itertools.permutations(names):
        for cols in itertools.permutations(names):
            k = score(A, b, z, rows, cols, outs, rhs, sol, src)
            if best is None or k > best[0]:
                best = (k, rows, cols)
    _, rows, cols = best
    ro, co = offsets(rows, outs), offsets(cols, outs)
    for o in names:
        k = fresh(outs[o])
        i = flat[o](k)
        ctx.equal(what + ' right-hand side', b((norm(ro[o] + k), )), rel('~%s:' % src + o, k), (k, ), 'equations of ' + o)
        ctx.equal(what + ' solution', sol._s[o].fn(tuple(i)), rel(z, norm(co[o] + k)), (k, ), 'solution of ' + o)
        ctx.equal(what + ' frame', rhs._s[o].fn(tuple(i)), rel('~%s:' % src + o, k), (k, ), 'right-hand side of ' + o)
    for o in names:
        for p in names:
            i, j = fresh(outs[o]), fresh(outs[p])
            # equation o, unknown p: d r_o / d p forward, d r_p / d o reverse
            got = A((norm(ro[o] + i), norm(co[p] + j)))
            r, w, ri, wi = (o, p, i, j) if mode == 'fwd' else (p, o, j, i)
            want = prob.elsub(deriv(sp[r](tuple(flat[r](ri))), {w: '~e'}),
                              lambda nm: (lambda k: rcond(Cond('eq', k - wi))) if nm == '~e' else None)
            ctx.equal(what + ' matrix', got, want, (i, j), 'equations of %s, unknown %s' % (o, p))
    return True


def is_size(n, xs):
    s = const(0)
    for x in xs:
        s = s + x
    return norm(n) == norm(s)


def fresh(o):
    return norm(ravel(tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in o.dims), o.dims))


def offsets(order, outs):
    r, s = {}, const(0)
    for o in order:
        r[o] = s
        s = norm(s + outs[o].size)
    return r


def score(A, b, z, rows, cols, outs, rhs, sol, src):
    ro, co = offsets(rows, outs), offsets(cols, outs)
    n = 0
    for o in outs:
        k = fresh(outs[o])
        n += quiet(b((norm(ro[o] + k), )), rel('~%s:' % src + o, k))
        n += quiet(sol._s[o].fn(tuple(ints.unravel(k, outs[o].dims))), rel(z, norm(co[o] + k)))
    return n


# ---------------------------------------------------------------- C17
SH = {
    'n': lambda s: ['n' + s],
    'n,m': lambda s: ['n' + s, 'm' + s],
    '1': lambda s: [1],
    'any': lambda s: None,
}


def opd(name, sh, s=''):
    if sh == 'any':
        return X('B' + s, name)
    return Opd(name, SH[sh](s))


def sep_case(ctx, outs, define=None, modes=('fwd', 'rev')):
    """outs: [(name, family, shape)]"""
    def mk(pre):
        def f():
            r = {}
            for n, fam, sh in outs:
                for p in pre:
                    r[p + n] = opd(p + n, sh, n if len(outs) > 1 else '')
            return r
        return f

    def replay(os_, env):
        res = []
        for n, fam, sh in outs:
            d = [ints.ieval(x, env) for x in os_[n].dims]
            res.append({'name': n, 'shape': d, 'fam': fam})
        return {'kind': 'implicit', 'seed': 1, 'outs': res}
    implicit_case(ctx, separate([(n, f) for n, f, _ in outs]), mk(['']), mk(['a_', 'b_']), define, replay=replay, modes=modes)


def cpl_case(ctx, fam, sh, create, define, modes=('fwd', 'rev')):
    def replay(os_, env):
        if fam in ('three', 'registered', 'defined', 'subsystem', 'nested'):
            return None
        d = [ints.ieval(x, env) for x in os_['x'].dims]
        return {'kind': 'coupled', 'seed': 1, 'shape': d, 'fam': fam, 'create': create, 'define': define,
                'direct': False, 'mode': 'auto'}
    implicit_case(ctx, coupled(fam), lambda: {n: opd(n, sh) for n in create}, lambda: {n: opd(n, sh) for n in 'ab'},
                  list(define), replay=replay, modes=modes)


@reg('C17')
def c17(tier):
    for fam in RES:
        for sh in SH:
            yield 'implicit[%s, shape (%s)]' % (fam, sh), lambda ctx, fam=fam, sh=sh: sep_case(ctx, [('x', fam, sh)])
    two = [('quad', 'sin'), ('mat', 'inter'), ('noa', 'exp')]
    for f1, f2 in two:
        for s1, s2 in (('n', 'n,m'), ('n,m', '1'), ('any', 'n')):
            for de in ('xy', 'yx'):
                yield 'implicit[%s (%s), %s (%s), defined in the order %s]' % (f1, s1, f2, s2, de), \
                    lambda ctx, a=(f1, f2, s1, s2, de): sep_case(ctx, [('x', a[0], a[2]), ('y', a[1], a[3])], list(a[4]))
    for fam in ('both', 'one', 'shared', 'mix', 'input', 'registered', 'defined', 'subsystem', 'nested'):
        for sh in SH:
            for cr, de in (('xy', 'xy'), ('yx', 'xy'), ('xy', 'yx')):
                yield 'implicit[coupled %s, shape (%s), created %s, defined %s]' % (fam, sh, cr, de), \
                    lambda ctx, a=(fam, sh, cr, de): cpl_case(ctx, *a)
    for sh in ('n', 'any'):
        for cr, de in (('xyz', 'xyz'), ('zxy', 'yzx')):
            yield 'implicit[coupled three, shape (%s), created %s, defined %s]' % (sh, cr, de), \
                lambda ctx, a=('three', sh, cr, de): cpl_case(ctx, *a)


c17.info = {'assumptions': [
    'openmdao.api.Problem runs the components of a model in the order in which they were added, passes values by '
    'promoted names, and compute_totals returns the exact derivatives at the point the model was last run at '
    '(the partial derivatives of the components are the obligations of C01-C11)',
    'numpy.linalg.solve(A, b) returns z with A z = b',
    'the residual is one of the listed residual programs (all shapes and values)']}


# ---------------------------------------------------------------- C18
class NpC(Np):
    power = staticmethod(lambda v, k: v**k)

    @staticmethod
    def add(*xs):
        t = xs[0]
        for x in xs[1:]:
            t = t + x
        return t

    @classmethod
    def mean(cls, *xs):
        return cls.add(*xs) / len(xs)

    @staticmethod
    def avg(v):
        return np.sum(v) / v.size * np.ones(v.shape)

    @staticmethod
    def first(v):
        d = v.dims
        f = v.snap()
        return Arr(d, lambda i: f((const(0), ) + tuple(i[1:])), 'f', v.blk)

    @classmethod
    def mx(cls, *xs):
        return np.log(cls.add(*[np.exp(20. * x) for x in xs])) / 20.

    @staticmethod
    def cond(c, p, q):
        c0 = np.sum(c)
        t = terms.ONE - rcond(Cond('rlt', arr.to_R(c0)))
        f, g = p.snap(), q.snap()
        return Arr(p.dims, lambda i: t * f(i) + (terms.ONE - t) * g(i), 'f', p.blk)


class ExC(Ex):
    power = staticmethod(lambda v, k: v**k)

    def __init__(self, M, g):
        Ex.__init__(self, M, g)
        self.add, self.mean, self.mx = M.sum, M.average, M.max
        self.avg = lambda v: M.expand(M.average(v), v.shape)
        self.cond = lambda c, p, q: M.if_else(M.sum(c), p, q)

        def first(v):
            return M.expand(v[0:1], v.shape)
        self.first = first


CYC = {
    'plain': lambda f, y, a: f.cos(y) * .5 + a,
    'twice': lambda f, y, a: (y * y + a * y) * .1 + a,
    'deep': lambda f, y, a: f.sin(f.cos(f.sin(y * .5) + a) * y * .3),
    'root': lambda f, y, a: (a * a + y * y * .3 + 2.)**.5,
    'direct': lambda f, y, a: y * .5,
    'sub': lambda f, y, a: (a - y) * .4,
    'sum': lambda f, y, a: f.add(y * .1, a, f.sin(y) * .2),
    'sum3': lambda f, y, a: f.add(y * .1, a, a * .5, f.sin(y) * .2) + f.mean(y, a, f.cos(y), a * a),
    'raw3': lambda f, y, a: f.add(y, a, f.sin(y), a * a) * .2,
    'raw2': lambda f, y, a: f.add(a, y),
    'cond': lambda f, y, a: f.cond(a, y * .1, f.sin(y) * .3 + a),
    'shared': lambda f, y, a: (lambda s: s * a + s * .3 + s**2 * .1)(f.sin(y) * .4),
    'chain': lambda f, y, a: (lambda s: (lambda t: t * s + f.exp(t) * y + s)(f.cos(s) + y))(f.sin(y) * a),
    'siblings': lambda f, y, a: f.add(f.sin(y), f.cos(y), y, f.exp(y), a) * .1,
    'avg': lambda f, y, a: f.avg(y) * .5 + a,
    'index': lambda f, y, a: f.first(y) * .5 + y * .2 + a,
}
ONED = {'index'}


def cyclic_case(ctx, fam, sh, opts, val=None):
    """opts: which uses of the output surround the definition"""
    def run():
        vc.DIMS[:] = []
        terms.POSITIVE.clear()
        M = ot().load('omtools.api')
        oy, oa = opd('y', sh), opd('a', sh)

        def rep(env):
            d = [ints.ieval(x, env) for x in oy.dims]
            c = {'kind': 'cyclic', 'seed': 1, 'shape': d, 'fam': fam}
            for o in opts:
                c[o] = True
            return c if fam not in ('raw2', 'chain', 'siblings') and not set(opts) & {'via', 'two', 'declared'} else None
        ctx.replay = rep
        spec = CYC[fam]

        def setup(self):
            v = oa.arr('val:')
            v.store.ro = 'declared value of a'
            if 'declared' in opts:
                a = self.declare_input('a', shape=oa.shape, val=v)
            else:
                a = self.create_indep_var('a', shape=oa.shape, val=v)
            w = oy.arr('val:')
            w.store.ro = 'declared value of y'
            y = self.create_output('y', shape=oy.shape, val=w)
            if 'via' in opts:
                u = self.create_output('u', shape=oy.shape)
                u.define(M.sin(y) * .5 + a)
                e = spec(ExC(M, self), u, a) + y * .1
            else:
                e = spec(ExC(M, self), y, a)
            if 'regexpr' in opts:
                self.register_output('e', e)
            if 'pre' in opts:
                self.register_output('zpre', y * 2. + a)
            y.define(e)
            if 'two' in opts:
                w2 = self.create_output('w', shape=oy.shape)
                w2.define(M.cos(w2) * .5 + y)
            if 'post' in opts:
                self.register_output('z', M.sin(y) + y)
        try:
            g = type(M.Group)('M', (M.Group, ), {'setup': setup})()
            p = prob.Problem()
            p.model = g
            p.setup()
        except (Unsupported, path.Infeasible):
            raise
        except Exception as e:
            ctx.exc('setup', e, 'setup raises ')
            return
        ctx.ok('setup')
        outs = {'y'} | ({'e'} if 'regexpr' in opts else set()) | ({'zpre'} if 'pre' in opts else set()) | (
            {'z'} if 'post' in opts else set())
        for n in sorted(outs):
            if not ctx.check('variables', n in p, 'no variable %s' % n):
                return
        ctx.check('inputs', set(p._leaf) == ({'a'} if 'declared' in opts and (fam != 'direct' or 'pre' in opts) else set()),
                  'unconnected inputs %s' % sorted(p._leaf))
        i, e = vc.elem(p['y'].snap(), p._meta['y']['dims'])
        if not ctx.check('shape', same_dims(p._meta['y']['dims'], p._meta['y']['blk'], oy.dims, oy.blk), 'shape of y'):
            return
        ctx.equal('initial value', e, rel('val:y', ravel(i, oy.dims)), i, 'initial value of the output')
        for rnd in range(2):
            # an arbitrary state of the iteration
            for n in list(p._val):
                pre = '' if n == 'a' else 'p%d:' % rnd
                d = p._meta[n]['dims']
                p._val[n].write(lambda i, n=n, d=d, pre=pre: rel(pre + n, ravel(i, d)))
            p._cyc = True
            try:
                p.run_model()
            except (Unsupported, path.Infeasible):
                raise
            except symom.FrameError as e:
                ctx.fail('frame', 'writes to %s' % e)
                return
            except Exception as e:
                ctx.exc('step', e, 'a step of the iteration raises ')
                return
            yp = opd('p%d:y' % rnd, sh).arr()
            a = oa.arr()

            def is_(what, n, want):
                w = want.snap()
                i, e = vc.elem(p[n].snap(), p._meta[n]['dims'])
                ctx.equal(what, e, w(i), i, what + ' (%s)' % n)
            if 'via' in opts:
                up = np.sin(yp) * .5 + a
                # u is computed from the previous value of y
                y = spec(NpC, up, a) + yp * .1
                is_('step', 'u', up)
            else:
                y = spec(NpC, yp, a)
            is_('step', 'y', y)
            y = p['y'].copy()
            if 'regexpr' in opts:
                is_('registered expression', 'e', y)
            if 'pre' in opts:
                is_('use outside', 'zpre', y * 2. + a)
            if 'post' in opts:
                is_('use outside', 'z', np.sin(y) + y)
            if 'two' in opts:
                is_('step', 'w', np.cos(opd('p%d:w' % rnd, sh).arr()) * .5 + y)
        for k, c in enumerate(p._comps):
            part(ctx, c)
    explore_case(ctx, run)


def part(ctx, c):
    """the declared partial derivatives of a component are the derivatives of
    what it computes"""
    if isinstance(c, symom.IndepVarComp):
        return
    I = vec(c._inp, '', 'input')
    O = vec(c._out, 'old:')
    c.compute(vec(c._inp, 'p8:', 'input'), vec(c._out, 'old2:'))
    c.compute(I, O)
    J = symom.Partials(c, True)
    c.compute_partials(vec(c._inp, '', 'input'), J)
    for n, m in c._out.items():
        f = O._s[n].fn
        for x, q in c._inp.items():
            op = Opd(x, q['dims'], q['blk'])
            vc.jacobian(c, ctx, n, x, op, m['dims'], f, ())


@reg('C18')
def c18(tier):
    shapes = ('n', 'n,m', '1', 'any')
    for fam in CYC:
        for sh in shapes:
            if fam in ONED and sh != 'n':
                continue
            yield 'define[%s, shape (%s)]' % (fam, sh), lambda ctx, fam=fam, sh=sh: cyclic_case(ctx, fam, sh, ('post', ))
    opt = [('pre', ), ('regexpr', ), ('pre', 'post', 'regexpr'), ('declared', ), ('declared', 'pre', 'post'), ('via', ),
           ('via', 'pre', 'post'), ('two', ), ('two', 'pre', 'post')]
    for fam in CYC:
        for o in opt:
            yield 'define[%s, shape (n), %s]' % (fam, ' '.join(o)), \
                lambda ctx, fam=fam, o=o: cyclic_case(ctx, fam, 'n', o)


c18.info = {'assumptions': [
    'one step of the solver iteration runs the components of the group once, in the order in which they were added, '
    'an input taking the latest value of the output of its name',
    'the definition is one of the listed cyclic programs (all shapes and values)']}


# ---------------------------------------------------------------- C16
MONO = {
    # sin: an arbitrary function of one variable
    'any': lambda f, x, a, b: a * f.sin(x) - b,
    'any2': lambda f, x, a, b: f.sin(x * a) + f.sin(x) * b,
    'lin': lambda f, x, a, b: b * (x - a),
    'cub': lambda f, x, a, b: b * (x - a)**3,
    'exp': lambda f, x, a, b: b * (f.exp(x) - f.exp(a)),
    'mul': lambda f, x, a, b: b * (x - a) * (x * x + 1.),
    'quad': lambda f, x, a, b: (x - a) * (x - a - 1.) * b,
    'other': lambda f, x, a, b: a * f.sin(x) - f.tot(b),
}


def bracket_case(ctx, outs, define=None, maxiter=None):
    """outs: [(name, family, shape, form of the bracket)]; maxiter: None (any)
    or a number"""
    def run():
        vc.DIMS[:] = []
        terms.POSITIVE.clear()
        seqs.LOOP[:] = []
        os_, ins, br, sp = {}, {}, {}, {}
        for n, fam, sh, form in outs:
            t = n if len(outs) > 1 else ''
            os_[n] = o = opd(n, sh, t)
            for p in ('a_', 'b_'):
                ins[p + n] = opd(p + n, sh, t)
            x = []
            for k in (1, 2):
                nm = 'x%d_%s' % (k, n)
                if form == 'number' or (form == 'mixed' and k == 1):
                    x.append((SymReal(P(nm)), lambda i, nm=nm: P(nm)))
                else:
                    v = opd(nm, sh, t).arr()
                    v.store.ro = 'bracket of ' + n
                    x.append((v, v.snap()))
            br[n] = (x[0][0], x[1][0])
            res = lambda z, n=n, fam=fam: MONO[fam](Np, z, ins['a_' + n].arr(), ins['b_' + n].arr())
            sp[n] = loopc.Bisect(n, o.dims, o.blk, x[0][1], x[1][1], res, ['x1_' + n, 'x2_' + n], ['a_' + n, 'b_' + n])
            sp[n].exact = fam == 'any'
        m = ints.dim('maxiter')
        k = maxiter
        if k is None:
            k = arr.mkint(m) if path.branch(('c', Cond('ge', ints.atom(ints.Atom('some', 'int'))))) else 0

        def F(f, v):
            return {n: MONO[fam](f, v[n], v['a_' + n], v['b_' + n]) for n, fam, _, _ in outs}
        try:
            c = component(F, os_, ins, define or list(os_), bracket=br, maxiter=k)
            c.setup()
            c._resolve()
        except (Unsupported, path.Infeasible):
            raise
        except Exception as e:
            ctx.exc('setup', e, 'setup raises ')
            return
        ctx.ok('setup')

        def solve(pre, loops):
            I, O = vec(c._inp, pre, 'input'), vec(c._out, 'old%s:' % pre)
            if loops:
                seqs.LOOP[:] = [loops]
            try:
                c.solve_nonlinear(I, O)
            except (Unsupported, path.Infeasible):
                raise
            except symom.FrameError as e:
                ctx.fail('frame', 'writes to %s' % e)
                return None
            except Exception as e:
                ctx.exc('solve', e, 'solve_nonlinear raises ')
                return None
            finally:
                seqs.LOOP[:] = []
            return O
        sym = isinstance(k, arr.SymInt)
        lp = loopc.Loop(ctx, sp, m, c.prob) if sym else None
        O = solve('', lp)
        if O is None:
            return
        ctx.ok('frame')
        for n, fam, sh, form in outs:
            final(ctx, sp[n], O._s[n].fn, k, sym, fam)
    explore_case(ctx, run)


def final(ctx, b, fx, k, sym, fam):
    i = b.index()
    facts = b.pre(i)
    W = b.width(i)
    x = terms.canon(fx(i))
    own = set(b.brackets)
    if sym:
        if b.done is None:
            ctx.open('value (%s)' % b.name, 'no loop has been executed')
            return
        own |= set(b.done)
        kk = norm(ravel(i, b.dims))
        Pt, Nt = rel(b.done[0], kk), rel(b.done[1], kk)
        D = z3.Real('width/2^maxiter')
        facts = facts + b.invariant(Pt, Nt, D, i)
        goals = [('within width/2^maxiter of a sign change', lambda v: near(v, loopc.tz(Pt), loopc.tz(Nt), D))]
    else:
        Pt, Nt = b.x1(i), b.x2(i)
        D = W / 2**k
        goals = []
        if k == 0:
            goals = [('within width/2^maxiter of a sign change', lambda v: near(v, loopc.tz(Pt), loopc.tz(Nt), D))]
        elif fam == 'lin':
            # the root is a
            a, s = loopc.tz(rel('a_' + b.name, norm(ravel(i, b.dims)))), loopc.tz(rel('b_' + b.name, norm(ravel(i, b.dims))))
            facts = facts + [s != 0]
            goals = [('within width/2^maxiter of a sign change', lambda v: z3.And(v - a <= D, a - v <= D))]
    a1, a2 = loopc.tz(b.x1(i)), loopc.tz(b.x2(i))
    lo, hi = z3.If(a1 <= a2, a1, a2), z3.If(a1 <= a2, a2, a1)
    goals.append(('inside the bracket', lambda v: z3.And(lo <= v, v <= hi)))
    for what, g in goals:
        what = '%s (%s)' % (what, b.name)
        v = loopc.holds([x], facts, lambda us: g(loopc.tz(us[0])))
        if v is True:
            ctx.ok(what)
        else:
            r = None if sym else numeric(b, x, k, what, i, fam)
            if r:
                ctx.obl(what).add('refuted', *r)
            else:
                ctx.obl(what).add('failed' if v is False and sym and b.exact else 'other', 'not shown (%s)' % v)
    q = loopc.foreign(x, i, b.dims, own, b.inputs)
    (ctx.open if q else lambda w, d: ctx.ok(w))('independence (%s)' % b.name, 'depends on %s' % q)


def near(v, p, n, D):
    """both ends of the interval with the sign change are within D"""
    return z3.And(v - p <= D, p - v <= D, v - n <= D, n - v <= D)


def numeric(b, x, k, what, i, fam):
    """an instance at which the value is not what the contract says, and its
    replay"""
    import random
    for t in range(60):
        rnd = random.Random(t)
        e0 = vc.small_env(vc.r_ints(x) + list(i), rnd, 3)
        if e0 is None:
            return None
        dom = {'a_' + b.name: (.3, .9), 'b_' + b.name: (-2., 2.), 'x1_' + b.name: (-2., .2), 'x2_' + b.name: (1., 3.)}
        if t % 2:
            dom['x1_' + b.name], dom['x2_' + b.name] = dom['x2_' + b.name], dom['x1_' + b.name]
        env = vc.EnvD(e0, vc.Rand(t, dom))
        try:
            for a in {y for z in i for y in z.all_atoms() if y.kind == 'idx'}:
                dict.__setitem__(env, a, rnd.randrange(ints.ieval(ints.lift(a.size), env)))
            v = vc.rv(x, env)
            p, q = vc.rv(b.x1(i), env), vc.rv(b.x2(i), env)
            if fam == 'quad' or fam.startswith('any') or fam == 'other':
                return None
            c = env.rand.el('a_' + b.name)(ints.ieval(norm(ravel(i, b.dims)), env))
            bad = not (min(p, q) - 1e-9 <= v <= max(p, q) + 1e-9) or abs(v - c) > abs(p - q) / 2**k + 1e-9
        except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError, Unsupported):
            continue
        if bad:
            d = [ints.ieval(z, env) for z in b.dims]
            n = 1
            for z in d:
                n *= z

            def values(nm):
                f = env.rand.el(nm)

                def nest(o, ds):
                    return f(o) if not ds else [nest(o * ds[0] + j, ds[1:]) for j in range(ds[0])]
                return nest(0, d)
            o = {'name': 'x', 'shape': d, 'fam': fam, 'c': values('a_' + b.name), 's': values('b_' + b.name),
                 'x1': values('x1_' + b.name), 'x2': values('x2_' + b.name)}
            return ('value %.6g, bracket [%.6g, %.6g], root %.6g, maxiter %d' % (v, p, q, c, k),
                    {'kind': 'bracket', 'maxiter': k, 'outs': [o]} if k else None)
    return None


@reg('C16')
def c16(tier):
    for fam in MONO:
        for sh in SH:
            for form in ('number', 'array', 'mixed'):
                yield 'bracket[%s, shape (%s), %s]' % (fam, sh, form), \
                    lambda ctx, a=(fam, sh, form): bracket_case(ctx, [('x', ) + a])
    for k in range(0, 3 if tier == 'quick' else 4):
        for sh in SH:
            for form in ('number', 'array'):
                for fam in ('lin', 'cub') if k < (2 if tier == 'quick' else 3) else ('lin', ):
                    yield 'bracket[%s, shape (%s), %s, maxiter %d]' % (fam, sh, form, k), \
                        lambda ctx, a=(fam, sh, form), k=k: bracket_case(ctx, [('x', ) + a], maxiter=k)
    for f1, f2 in (('any', 'lin'), ('cub', 'any2'), ('lin', 'lin')):
        for s1, s2 in (('n', 'n,m'), ('n,m', '1'), ('any', 'n')):
            for de in ('xy', 'yx'):
                for m1, m2 in (('number', 'array'), ('array', 'array')):
                    for k in (None, 2):
                        if k and f1 != 'lin':
                            continue
                        yield 'bracket[%s (%s) %s, %s (%s) %s, defined in the order %s%s]' % (
                            f1, s1, m1, f2, s2, m2, de, ', maxiter %d' % k if k else ''), \
                            lambda ctx, a=(f1, f2, s1, s2, de, m1, m2), k=k: bracket_case(
                                ctx, [('x', a[0], a[2], a[5]), ('y', a[1], a[3], a[6])], list(a[4]), k)
    yield 'bracket[three outputs]', lambda ctx: bracket_case(
        ctx, [('x', 'any', 'n', 'array'), ('y', 'any', 'any', 'number'), ('z', 'exp', 'n,m', 'mixed')], list('zxy'))


c16.info = {'assumptions': [
    'the residual of an output is elementwise in this output, continuous, and does not use the other outputs',
    'an interval at whose ends a continuous residual has opposite signs contains a sign change',
    'halving the width maxiter times gives width / 2^maxiter (induction over the iterations of the loop)']}
