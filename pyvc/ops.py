"""Contracts of the elementwise functions, operators and combination
components (C01, C02, C25)."""
import itertools
from fractions import Fraction

from . import ints, terms, path, arr
from .ints import const, norm, ravel
from .terms import rfun, rpow, rexp, rlog, rparam, rconst, rel, ONE, ZERO, Cond
from .arr import Arr, SymReal, SymInt, mkint, mkreal
from .vc import Opd, op_case, run_component, explore_case, ot, Ctx
from . import vc

REG = {}


def reg(pid):
    def deco(f):
        REG.setdefault(pid, []).append(f)
        return f
    return deco


def one(op, shapes, kw=None, doms=None, names=None, args=None):
    names = names or ['x', 'y', 'z', 'u', 'v', 'w', 'p', 'q']
    return {'kind': 'prog', 'seed': 1, 'prog': {
        'inputs': [{'name': names[i], 'shape': list(s), 'dom': (doms[i] if isinstance(doms, list) else doms) or 'any'}
                   for i, s in enumerate(shapes)],
        'nodes': [{'op': op, 'args': list(range(len(shapes))) if args is None else args, 'kw': kw or {}}],
        'outs': [['out', len(shapes)]]}}


def sizes(o, env):
    return [ints.ieval(norm(d), env) for d in o.dims]


def X(n='n', name='x', blk=True):
    return Opd(name, [n], [blk])


P = rparam

# ---------------------------------------------------------------- C01
M1, HALF = Fraction(-1), Fraction(1, 2)
EW = {
    'sin': (lambda a: rfun('sin', a), (-2, 2), 'any'),
    'cos': (lambda a: rfun('cos', a), (-2, 2), 'any'),
    'tan': (lambda a: rfun('sin', a) / rfun('cos', a), (-1, 1), 'unit'),
    'arcsin': (lambda a: rfun('arcsin', a), (-.9, .9), 'unit'),
    'arccos': (lambda a: rfun('arccos', a), (-.9, .9), 'unit'),
    'arctan': (lambda a: rfun('arctan', a), (-2, 2), 'any'),
    'sec': (lambda a: ONE / rfun('cos', a), (-1, 1), 'unit'),
    'cosec': (lambda a: ONE / rfun('sin', a), (.2, 1), 'sinok'),
    'cotan': (lambda a: rfun('cos', a) / rfun('sin', a), (.2, 1), 'sinok'),
    'sinh': (lambda a: rfun('sinh', a), (-2, 2), 'any'),
    'cosh': (lambda a: rfun('cosh', a), (-2, 2), 'any'),
    'tanh': (lambda a: rfun('sinh', a) / rfun('cosh', a), (-2, 2), 'any'),
    'sech': (lambda a: ONE / rfun('cosh', a), (-2, 2), 'any'),
    'cosech': (lambda a: ONE / rfun('sinh', a), (-2, -.3), 'nonzero'),
    'cotanh': (lambda a: rfun('cosh', a) / rfun('sinh', a), (-2, -.3), 'nonzero'),
    'exp': (lambda a: rexp(a), (-2, 2), 'any'),
    'log': (lambda a: rlog(a), (.2, 3), 'pos'),
    'log10': (lambda a: rlog(a) / P('ln10'), (.2, 3), 'pos'),
}


@reg('C01')
def c01(tier):
    for f, (spec, dom, d) in EW.items():
        def case(ctx, f=f, spec=spec, dom=dom, d=d):
            op_case(ctx, lambda: [X()], lambda M, xs: getattr(M, f)(xs[0]),
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: spec(ops[0].el(*i))),
                    dom={'*': dom, 'ln10': (2.302585092994046, 2.302585092994046)},
                    replay=lambda ops, env: one(f, [sizes(ops[0], env)], doms=d))
        yield 'std/%s.py:%s[shape of any rank]' % (f, f), case


# ---------------------------------------------------------------- C02
def anyf(dims, blk, fn):
    """formula: fn(idx) (a formula) for some element"""
    a = Arr(dims, fn, 'b', blk)
    r = arr.reduce_any(a)
    return arr.to_F(r)


def isz(r):
    return arr.rcmpf('eq', r, ZERO)


def isneg(r):
    return arr.rcmpf('lt', r, ZERO)


def carr(o, name='A'):
    """a constant array of the shape of o"""
    d = o.dims
    a = Arr(d, lambda i: rel(name, ravel(i, d)), 'f', o.blk)
    a.store.ro = 'constant operand'
    return a


def creal(name='c'):
    return SymReal(P(name))


BIN = {
    'add': (lambda a, b: a + b), 'sub': (lambda a, b: a - b),
    'mul': (lambda a, b: a * b), 'div': (lambda a, b: a / b),
}


@reg('C02')
def c02(tier):
    W = 'core/variable.py:'
    cls = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}
    for k, f in BIN.items():
        s = cls[k]

        # two expressions of one shape (any rank)
        def two(ctx, k=k, f=f):
            late = None
            if k == 'div':
                late = lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: isz(ops[1].el(*i))), ZeroDivisionError)
            op_case(ctx, lambda: [X(), X(name='y')], lambda M, xs: f(xs[0], xs[1]),
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: f(ops[0].el(*i), ops[1].el(*i))), late=late,
                    replay=lambda ops, env: one(k, [sizes(o, env) for o in ops], doms='nonzero'))
        yield W + 'x %s y[shape of any rank]' % s, two

        def rev(ctx, k=k, f=f):
            late = None
            if k == 'div':
                late = lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: isz(ops[0].el(*i))), ZeroDivisionError)
            op_case(ctx, lambda: [X(), X(name='y')], lambda M, xs: f(xs[1], xs[0]),
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: f(ops[1].el(*i), ops[0].el(*i))), late=late,
                    replay=lambda ops, env: one(k, [sizes(o, env) for o in ops], doms='nonzero', args=[1, 0]))
        yield W + 'y %s x[reverse order of creation]' % s, rev

        def same(ctx, k=k, f=f):
            late = None
            if k == 'div':
                late = lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: isz(ops[0].el(*i))), ZeroDivisionError)
            op_case(ctx, lambda: [X()], lambda M, xs: f(xs[0], xs[0]),
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: f(ops[0].el(*i), ops[0].el(*i))), late=late,
                    replay=lambda ops, env: one(k, [sizes(o, env) for o in ops], doms='nonzero', args=[0, 0]))
        yield W + 'x %s x[same expression]' % s, same

        def numr(ctx, k=k, f=f):
            err = None
            if k == 'div':
                err = lambda ops: (isz(P('c')), (ValueError, ZeroDivisionError))
            op_case(ctx, lambda: [X()], lambda M, xs: f(xs[0], creal()),
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: f(ops[0].el(*i), P('c'))), err=err,
                    replay=lambda ops, env: one(k + '_c', [sizes(o, env) for o in ops], {'c': 1.75}, doms='nonzero'))
        yield W + 'x %s number' % s, numr

        def numl(ctx, k=k, f=f):
            late = None
            if k == 'div':
                late = lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: isz(ops[0].el(*i))), ZeroDivisionError)
            op_case(ctx, lambda: [X()], lambda M, xs: f(creal(), xs[0]),
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: f(P('c'), ops[0].el(*i))), late=late,
                    replay=lambda ops, env: one('c_' + k, [sizes(o, env) for o in ops], {'c': 1.75}, doms='nonzero'))
        yield W + 'number %s x' % s, numl

        for c in (2, -3):
            def num2(ctx, k=k, f=f, c=c):
                op_case(ctx, lambda: [X()], lambda M, xs: f(xs[0], c),
                        lambda ops: (ops[0].dims, ops[0].blk, lambda i: f(ops[0].el(*i), rconst(c))),
                        replay=lambda ops, env: one(k + '_c', [sizes(o, env) for o in ops], {'c': c}, doms='nonzero'))
            yield W + 'x %s %d' % (s, c), num2

        def arrr(ctx, k=k, f=f):
            err = None
            if k == 'div':
                err = lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: isz(rel('A', ravel(i, ops[0].dims)))),
                                   (ValueError, ZeroDivisionError))

            def rp(ops, env):
                s = sizes(ops[0], env)
                import math
                return one(k + '_c', [s], {'c': nest([1.5 + .25 * i for i in range(math.prod(s))], s)}, doms='nonzero')
            op_case(ctx, lambda: [X()], lambda M, xs: f(xs[0], carr(opd0(xs[0]))),
                    lambda ops: (ops[0].dims, ops[0].blk,
                                 lambda i: f(ops[0].el(*i), rel('A', ravel(i, ops[0].dims)))), err=err, replay=rp)
        yield W + 'x %s array' % s, arrr

    def neg(ctx):
        op_case(ctx, lambda: [X()], lambda M, xs: -xs[0],
                lambda ops: (ops[0].dims, ops[0].blk, lambda i: -ops[0].el(*i)),
                replay=lambda ops, env: one('neg', [sizes(o, env) for o in ops]))
    yield W + '-x', neg

    def pos(ctx):
        def run():
            x = X().make()
            y = +x
            ctx.check('identity', y is x, '+x is not x')
        explore_case(ctx, run)
    yield W + '+x', pos

    def pw(ctx):
        ctx.poles = 'always'
        op_case(ctx, lambda: [X()], lambda M, xs: xs[0]**creal('p'),
                lambda ops: (ops[0].dims, ops[0].blk, lambda i: rpow(ops[0].el(*i), P('p'))),
                late=lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: path.fjoin('and', isz(ops[0].el(*i)), isneg(P('p')))),
                                  ZeroDivisionError), dom={'p': (1.2, 2.5), '*': (.3, 2)},
                replay=lambda ops, env: one('pow_c', [sizes(o, env) for o in ops], {'c': 2.7}, doms='pos'))
    yield W + 'x ** number', pw
    for p in (2, 3, 1, 0, -1, -2, 0.5, -1.5):
        def pc(ctx, p=p):
            late = None
            ctx.poles = 'always' if p == 0 or p >= 1 else True
            if p < 0:
                late = lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: isz(ops[0].el(*i))), ZeroDivisionError)
            op_case(ctx, lambda: [X()], lambda M, xs: xs[0]**p,
                    lambda ops: (ops[0].dims, ops[0].blk, lambda i: rpow(ops[0].el(*i), Fraction(p))), late=late,
                    replay=lambda ops, env: one('pow_c', [sizes(o, env) for o in ops], {'c': p}, doms='pos'))
        yield W + 'x ** %s' % p, pc

    def pa(ctx):
        def rp(ops, env):
            s = sizes(ops[0], env)
            import math
            return one('pow_c', [s], {'c': nest([.5 + .75 * i for i in range(math.prod(s))], s)}, doms='pos')
        ctx.poles = 'always'
        op_case(ctx, lambda: [X()], lambda M, xs: xs[0]**carr(opd0(xs[0])),
                lambda ops: (ops[0].dims, ops[0].blk,
                             lambda i: rpow(ops[0].el(*i), rel('A', ravel(i, ops[0].dims)))),
                late=lambda ops: (anyf(ops[0].dims, ops[0].blk, lambda i: path.fjoin(
                    'and', isz(ops[0].el(*i)), isneg(rel('A', ravel(i, ops[0].dims))))), ZeroDivisionError),
                dom={'A': (1.2, 2.5), '*': (.3, 2)}, replay=rp)
    yield W + 'x ** array', pa


def opd0(x):
    d, b = arr.parse_shape(x.shape)

    class O:
        dims, blk = d, b
    return O


def nest(l, s):
    if len(s) <= 1:
        return list(l)
    k = len(l) // s[0]
    return [nest(l[i * k:(i + 1) * k], s[1:]) for i in range(s[0])]


# ---------------------------------------------------------------- C25
def comp_case(ctx, mod, cname, options, ops, spec, late=None, check_defaults=False, dom=None, replay=None, err=None,
              limit=None):
    """contract of a component: options() -> dict; ops() -> [Opd]"""
    ctx.dom = dom or {}
    ctx.poles = 'always'

    def run():
        vc.DIMS[:] = []
        terms.POSITIVE.clear()
        os_ = ops()
        ctx.replay = (lambda env: replay(os_, env)) if replay else None
        cls = getattr(ot().load(mod), cname)
        try:
            c = cls(**options(os_))
        except (ints.Unsupported, path.Infeasible):
            raise
        except Exception as e:
            ctx.exc('options', e)
            return
        dims, blk, fn = spec(os_)
        run_component(c, ctx, {o.name: o for o in os_}, {'out': (dims, blk, fn)}, check_defaults=check_defaults,
                      err=late(os_) if late else None)
    explore_case(ctx, run, limit)


def lin_styles(k):
    """ways to give k coefficients: name, value for the options, list of the
    coefficients' terms"""
    names = ['c%d' % i for i in range(k)]
    pl = [P(n) for n in names]
    yield 'one number', lambda: SymReal(P('c0')), [P('c0')] * k
    yield 'list', lambda: [SymReal(p) for p in pl], pl
    yield 'array', lambda: Arr([const(k)], lambda i: select(pl, i[0]), 'f'), pl
    yield 'integers', lambda: list(range(2, 2 + k)), [rconst(j) for j in range(2, 2 + k)]


def select(pl, i):
    i = norm(i)
    if i.is_const():
        return pl[i.value()]
    return arr.select([lambda _, p=p: p for p in pl], i, (), 'f') if False else _sel(pl, i)


def _sel(pl, i):
    if len(pl) == 1:
        return pl[0]
    raise ints.Unsupported('element of a list at an unknown position')


@reg('C25')
def c25(tier):
    kmax = 3 if tier == 'quick' else 5
    names = ['x', 'y', 'z', 'u', 'v']
    LM = 'omtools.comps.linearcombination_comp'
    PM = 'omtools.comps.arithmetic_comps.power_combination_comp'
    QM = 'omtools.comps.linearpowercombination'

    def vals(o):
        return [x.arr('val:') for x in o]
    for k in range(1, kmax + 1):
        def ops(k=k):
            return [Opd(names[j], ['n'], [True]) for j in range(k)]
        for st, mk, co in lin_styles(k):
            for cst in ('default', 'number', 'array'):
                def constant(o, cst=cst):
                    return {} if cst == 'default' else {'constant': creal('k') if cst == 'number' else carr(o[0], 'K')}

                def lin(ctx, k=k, mk=mk, co=co, cst=cst, ops=ops, constant=constant):
                    def spec(o):
                        def f(i):
                            r = ZERO if cst == 'default' else P('k') if cst == 'number' else rel('K', ravel(i, o[0].dims))
                            for x, c in zip(o, co):
                                r = r + c * x.el(*i)
                            return r
                        return o[0].dims, o[0].blk, f
                    comp_case(ctx, LM, 'LinearCombinationComp', lambda o: dict(
                        shape=o[0].shape, out_name='out', in_names=[x.name for x in o], coeffs=mk(),
                        in_vals=vals(o), **constant(o)), ops, spec, check_defaults=True)
                yield 'comps/linearcombination_comp.py:LinearCombinationComp[%d inputs, coefficients: %s, constant: %s]' % (
                    k, st, cst), lin

            def pw(ctx, k=k, mk=mk, co=co, ops=ops):
                def spec(o):
                    def f(i):
                        r = P('k')
                        for x, c in zip(o, co):
                            r = r * rpow(x.el(*i), c)
                        return r
                    return o[0].dims, o[0].blk, f

                def late(o):
                    f = ('F', )
                    for x, c in zip(o, co):
                        f = path.fjoin('or', f, anyf(x.dims, x.blk, lambda i: path.fjoin('and', isz(x.el(*i)), isneg(c))))
                    return f, ZeroDivisionError
                comp_case(ctx, PM, 'PowerCombinationComp', lambda o: dict(
                    shape=o[0].shape, out_name='out', in_names=[x.name for x in o], powers=mk(), coeff=creal('k'),
                    in_vals=vals(o)), ops, spec, late=late, check_defaults=True, limit=256)
            yield 'comps/arithmetic_comps/power_combination_comp.py:PowerCombinationComp[%d inputs, powers: %s]' % (k, st), pw
        # dictionaries

        def lind(ctx, k=k, ops=ops):
            comp_case(ctx, LM, 'LinearCombinationComp', lambda o: dict(
                shape=o[0].shape, out_name='out', coeffs_dict={x.name: SymReal(P('c' + x.name)) for x in o},
                in_vals=vals(o), constant=creal('k')), ops,
                lambda o: (o[0].dims, o[0].blk, lambda i: sum([P('c' + x.name) * x.el(*i) for x in o], P('k'))),
                check_defaults=True)
        yield 'comps/linearcombination_comp.py:LinearCombinationComp[%d inputs, dictionary]' % k, lind

        def pwd(ctx, k=k, ops=ops):
            def spec(o):
                def f(i):
                    r = P('k')
                    for x in o:
                        r = r * rpow(x.el(*i), P('c' + x.name))
                    return r
                return o[0].dims, o[0].blk, f

            def late(o):
                f = ('F', )
                for x in o:
                    f = path.fjoin('or', f, anyf(x.dims, x.blk, lambda i: path.fjoin(
                        'and', isz(x.el(*i)), isneg(P('c' + x.name)))))
                return f, ZeroDivisionError
            comp_case(ctx, PM, 'PowerCombinationComp', lambda o: dict(
                shape=o[0].shape, out_name='out', powers_dict={x.name: SymReal(P('c' + x.name)) for x in o},
                in_vals=vals(o), coeff=creal('k')), ops, spec, late=late, check_defaults=True, limit=256)
        yield 'comps/arithmetic_comps/power_combination_comp.py:PowerCombinationComp[%d inputs, dictionary]' % k, pwd

    def pwa(ctx):
        def ops():
            return [X(), X(name='y')]
        comp_case(ctx, PM, 'PowerCombinationComp', lambda o: dict(
            shape=o[0].shape, out_name='out', in_names=['x', 'y'], powers=[carr(o[0], 'A'), carr(o[0], 'B')],
            coeff=carr(o[0], 'K'), in_vals=vals(o)), ops,
            lambda o: (o[0].dims, o[0].blk, lambda i: rel('K', ravel(i, o[0].dims)) * rpow(
                o[0].el(*i), rel('A', ravel(i, o[0].dims))) * rpow(o[1].el(*i), rel('B', ravel(i, o[0].dims)))),
            late=lambda o: (path.fjoin('or', *[anyf(x.dims, x.blk, lambda i: path.fjoin(
                'and', isz(x.el(*i)), isneg(rel(A, ravel(i, x.dims))))) for x, A in zip(o, 'AB')]), ZeroDivisionError),
            check_defaults=True)
    yield 'comps/arithmetic_comps/power_combination_comp.py:PowerCombinationComp[array coefficient and powers]', pwa

    def single(ctx):
        comp_case(ctx, LM, 'LinearCombinationComp', lambda o: dict(
            shape=o[0].shape, out_name='out', in_names='x', coeffs=creal(), in_vals=vals(o)), lambda: [X()],
            lambda o: (o[0].dims, o[0].blk, lambda i: P('c') * o[0].el(*i)), check_defaults=True)
    yield 'comps/linearcombination_comp.py:LinearCombinationComp[single name]', single

    def singlep(ctx):
        comp_case(ctx, PM, 'PowerCombinationComp', lambda o: dict(
            shape=o[0].shape, out_name='out', in_names='x', powers=3, in_vals=vals(o)), lambda: [X()],
            lambda o: (o[0].dims, o[0].blk, lambda i: rpow(o[0].el(*i), Fraction(3))), check_defaults=True)
    yield 'comps/arithmetic_comps/power_combination_comp.py:PowerCombinationComp[single name]', singlep

    # one input named more than once
    def linr(ctx):
        comp_case(ctx, LM, 'LinearCombinationComp', lambda o: dict(
            shape=o[0].shape, out_name='out', in_names=['x', 'y', 'x', 'x'],
            coeffs=[SymReal(P('c%d' % j)) for j in range(4)], in_vals=[o[j].arr('val:') for j in (0, 1, 0, 0)]),
            lambda: [X(), X(name='y')],
            lambda o: (o[0].dims, o[0].blk, lambda i: (P('c0') + P('c2') + P('c3')) * o[0].el(*i) + P('c1') * o[1].el(*i)),
            check_defaults=True)
    yield 'comps/linearcombination_comp.py:LinearCombinationComp[repeated name]', linr

    def pwr(ctx):
        def late(o):
            f = path.fjoin('or', *[anyf(o[x].dims, o[x].blk, lambda i: path.fjoin(
                'and', isz(o[x].el(*i)), path.fjoin('or', *[isneg(P('c%d' % j)) for j in js])))
                for x, js in ((0, (0, 2)), (1, (1, )))])
            return f, ZeroDivisionError
        comp_case(ctx, PM, 'PowerCombinationComp', lambda o: dict(
            shape=o[0].shape, out_name='out', in_names=['x', 'y', 'x'],
            powers=[SymReal(P('c%d' % j)) for j in range(3)], in_vals=[o[j].arr('val:') for j in (0, 1, 0)]),
            lambda: [X(), X(name='y')],
            lambda o: (o[0].dims, o[0].blk, lambda i: rpow(o[0].el(*i), P('c0') + P('c2')) * rpow(o[1].el(*i), P('c1'))),
            check_defaults=True, late=late, limit=512)
    yield 'comps/arithmetic_comps/power_combination_comp.py:PowerCombinationComp[repeated name]', pwr

    # linear-power combinations: terms_list
    def tl(ctx, terms_):
        def ops():
            ns = []
            for d in terms_:
                for n in d:
                    if n not in ns:
                        ns.append(n)
            return [X(name=n) for n in ns]

        def spec(o):
            od = {x.name: x for x in o}

            def f(i):
                r = P('k')
                for t, d in enumerate(terms_):
                    m = P('c%d' % t)
                    for n, e in d.items():
                        m = m * rpow(od[n].el(*i), Fraction(e) if e is not None else P('p%d%s' % (t, n)))
                    r = r + m
                return r
            return o[0].dims, o[0].blk, f
        comp_case(ctx, QM, 'LinearPowerCombinationComp', lambda o: dict(
            shape=o[0].shape, out_name='out', constant=creal('k'),
            terms_list=[(SymReal(P('c%d' % t)), {n: (e if e is not None else SymReal(P('p%d%s' % (t, n))))
                                                 for n, e in d.items()}) for t, d in enumerate(terms_)]),
            ops, spec, dom={'*': (.3, 1.8)})
    def mat(ctx, k, m):
        ns = ['x', 'y', 'z'][:k]

        def opts(o):
            return dict(shape=o[0].shape, out_name='out', in_names=[x.name for x in o], constant=carr(o[0], 'K'),
                        powers=pm(), coeffs=cm())

        def pm():
            import_np = ot().ext['numpy']
            return import_np.array([[SymReal(P('p%d%d' % (t, j))) for j in range(k)] for t in range(m)])

        def cm():
            import_np = ot().ext['numpy']
            return import_np.array([SymReal(P('c%d' % t)) for t in range(m)])

        def spec(o):
            def f(i):
                r = rel('K', ravel(i, o[0].dims))
                for t in range(m):
                    q = P('c%d' % t)
                    for j, x in enumerate(o):
                        q = q * rpow(x.el(*i), P('p%d%d' % (t, j)))
                    r = r + q
                return r
            return o[0].dims, o[0].blk, f
        comp_case(ctx, QM, 'LinearPowerCombinationComp', opts, lambda: [X(name=n) for n in ns], spec, dom={'*': (.3, 1.8)})
    for k in range(1, kmax + 1):
        if k > 3:
            break
        for m in range(1, 4):
            yield 'comps/linearpowercombination.py:LinearPowerCombinationComp[%d inputs, %d terms as arrays]' % (k, m), (
                lambda ctx, k=k, m=m: mat(ctx, k, m))
    lists = [[{'x': 2}], [{'x': 1, 'y': 2}], [{'x': 2}, {'y': 3}], [{'x': 1, 'y': 1}, {'x': 2}, {'y': 2}],
             [{'y': 3}, {'x': 1, 'y': 2}], [{'x': None}], [{'x': None, 'y': None}], [{'x': None}, {'y': None}],
             [{'x': None, 'y': None}, {'x': None, 'z': None}]]
    for t in lists:
        yield 'comps/linearpowercombination.py:LinearPowerCombinationComp[terms %s]' % t, (lambda ctx, t=t: tl(ctx, t))
