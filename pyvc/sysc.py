"""Contracts of declarations (C20), shapes and rejections (C15) and histories
(C21)."""
import itertools

from . import arr, ints, path, purity, symom, terms, vc
from .arr import Arr, SymReal
from .ints import const, norm, ravel
from .ops import REG, reg, X, P
from .ops2 import D
from .path import fjoin
from .terms import Cond, rel
from .vc import Opd, explore_case, ot, shape_is, same_dims

OPS = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C22', 'C25')


def mode_case(case, mode, keep):
    def run(ctx):
        ctx.mode, ctx.keep = mode, keep
        if mode == 'purity':
            before = purity.shared(ot())
            case(ctx)
            purity.check_shared(ctx, before, purity.shared(ot()))
            # a memo in a module is no violation by itself
            o = ctx.obl('shared')
            if o.status == 'refuted':
                o.status = 'other'
        else:
            case(ctx)
    return run


def family(name):
    """the function and the kind of configuration of a case"""
    return name.split('[')[0]


def every(tier, mode, keep, per, pids=OPS, skip=()):
    """the operations' cases of all properties, at most `per` of each function"""
    n = {}
    for pid in pids:
        for g in REG[pid]:
            cases = list(g('quick'))
            fam = {}
            for c in cases:
                fam.setdefault(family(c[0]), []).append(c)
            for f, l in fam.items():
                l = [c for c in l if not any(s in c[0] for s in skip)]
                if not l:
                    continue
                # spread over the configurations
                k = len(l) if per is None else min(per, len(l))
                for q in sorted({(j * (len(l) - 1)) // max(k - 1, 1) for j in range(k)}):
                    yield l[q][0], mode_case(l[q][1], mode, keep)


# ---------------------------------------------------------------- C20
def numeric(name='val'):
    return SymReal(P(name))


def value_is(ctx, what, got, dims, blk, fn):
    if not ctx.check(what + ' shape', isinstance(got, Arr) and same_dims(got.dims, got.blk, dims, blk),
                     'the value has shape %r' % (getattr(got, 'shape', got), )):
        return
    i, e = vc.elem(arr.conv(got.snap(), got.kind, 'f'), dims)
    ctx.equal(what, e, fn(i), i, what)


def carr(o, name='val'):
    d = o.dims
    a = Arr(d, lambda i: rel(name, ravel(i, d)), 'f', o.blk)
    a.store.ro = 'the declared value'
    return a


def jval(o, env):
    """a replayed array value"""
    s = [ints.ieval(norm(d), env) for d in o.dims]
    n = 1
    for k in s:
        n *= k
    v = [round(.25 * q - 1, 2) for q in range(n)]

    def nest(v, s):
        if not s:
            return v[0]
        k = len(v) // s[0]
        return [nest(v[q * k:(q + 1) * k], s[1:]) for q in range(s[0])]
    return {'a': nest(v, s)}


KIND = {'declare_input': 'core/group.py:Group.declare_input', 'create_indep_var': 'core/group.py:Group.create_indep_var',
        'create_output': 'core/group.py:Group.create_output', 'implicit': 'core/group.py:Group.create_implicit_output'}


def decl_case(ctx, fn, how, ranks=None):
    """declare with: 'number' (a shape of any rank and a number), 'shape' (a
    shape and no value), 'none', 'array' (an array of any rank, no shape),
    'both' (an array and its shape), 'wrong' (an array and another shape),
    'list', 'nested'"""
    def run():
        vc.DIMS[:] = []
        M = ot().load('omtools.api')
        kw, bad = {}, None
        o = Opd('d', ['n'], [True])
        blk = o.blk
        f = lambda i: rel('val', ravel(i, o.dims))
        rk = {'kind': 'decl', 'fn': fn}
        if how == 'number':
            kw = dict(shape=o.shape, val=numeric())
            f = lambda i: P('val')
            rep = lambda env: dict(rk, shape=[ints.ieval(norm(d), env) for d in o.dims], val=2.5)
        elif how == 'shape':
            kw = dict(shape=o.shape)
            f = lambda i: terms.ONE
            rep = lambda env: dict(rk, shape=[ints.ieval(norm(d), env) for d in o.dims])
        elif how == 'none':
            o = Opd('d', [const(1)])
            f = lambda i: terms.ONE
            rep = lambda env: rk
        elif how == 'value':
            o = Opd('d', [const(1)])
            kw = dict(val=numeric())
            f = lambda i: P('val')
            rep = lambda env: dict(rk, val=2.5)
        elif how == 'array':
            kw = dict(val=carr(o))
            rep = lambda env: dict(rk, val=jval(o, env))
        elif how == 'both':
            kw = dict(shape=o.shape, val=carr(o))
            rep = lambda env: dict(rk, val=jval(o, env), shape=[ints.ieval(norm(d), env) for d in o.dims])
        elif how in ('list', 'nested', 'listshape'):
            k = [P('v%d' % j) for j in range(4)]
            if how == 'nested':
                o = Opd('d', [const(2), const(2)])
                kw = dict(val=[[SymReal(k[0]), SymReal(k[1])], [SymReal(k[2]), SymReal(k[3])]])
                rep = lambda env: dict(rk, val=[[.5, 1.5], [-2., 3.]])
            else:
                o = Opd('d', [const(4)])
                kw = dict(val=[SymReal(x) for x in k])
                if how == 'listshape':
                    kw['shape'] = (4, )
                rep = lambda env: dict(rk, val=[.5, 1.5, -2., 3.], **({'shape': [4]} if how == 'listshape' else {}))

            def f(i):
                s = terms.ZERO
                for q in range(4):
                    w = [q] if len(o.dims) == 1 else [q // 2, q % 2]
                    t = k[q]
                    for a, b in zip(i, w):
                        t = t * terms.rcond(Cond('eq', norm(norm(a) - b)))
                    s = s + t
                return s
        else:
            r1, r2 = ranks
            o = Opd('d', D(r1))
            s = Opd('s', D(r2, 'm'))
            kw = dict(shape=s.shape, val=carr(o))
            rep = lambda env: dict(rk, val=jval(o, env), shape=[ints.ieval(norm(d), env) for d in s.dims])
            one = ('c', Cond('ne', norm(s.dims[0] - 1))) if r2 == 1 else ('T', )
            if r1 == r2:
                ne = fjoin('or', *[('c', Cond('ne', norm(a - b))) for a, b in zip(o.dims, s.dims)])
            else:
                ne = ('T', )
            bad = fjoin('and', one, ne)
        blk = o.blk
        x = Opd('x', o.dims, blk).make()
        ctx.replay = rep
        g = M.Group()
        try:
            if fn == 'implicit':
                e = g.create_implicit_output('d', **kw)
            else:
                e = getattr(g, fn)('d', **kw)
        except (ints.Unsupported, path.Infeasible):
            raise
        except Exception as ex:
            if bad is None or not vc.error_check(ctx, (bad, ValueError), ex):
                ctx.exc('accepts', ex)
            return
        if bad is not None:
            vc.error_check(ctx, (bad, ValueError), None)
        ctx.ok('accepts')
        ctx.check('name', e.name == 'd', 'name %r' % e.name)
        if not ctx.check('shape', shape_is(e.shape, o.dims, blk), 'shape %r' % (e.shape, )):
            return
        value_is(ctx, 'value', e.val, o.dims, blk, f)
        c = None
        if fn == 'create_indep_var':
            ctx.check('registered', any(d is e for d in g._root.dependencies), 'not an output of the group')
            c = e.build()
            n = 'd'
        elif fn == 'create_output':
            e.define(x)
            c = e.build()
        elif fn == 'implicit':
            e.define_residual(x * 2.)
            value_is(ctx, 'initial value', g.out_vals['d'], o.dims, blk, f)
        if c is not None:
            c.setup()
            c._resolve()
            m = c._out.get('d')
            if ctx.check('component', m is not None, 'no output of this name'):
                if ctx.check('component shape', same_dims(m['dims'], m['blk'], o.dims, blk),
                             'the component declares shape %r' % (arr.mkshape(m['dims'], m['blk']), )):
                    value_is(ctx, 'initial value', m['val'], o.dims, blk, f)
        v = kw.get('val')
        if isinstance(v, Arr):
            i = purity.idx_of(v.dims)
            ctx.equal('frame', arr.conv(v.snap(), v.kind, 'f')(i), rel('val', ravel(i, o.dims)), i, "the user's array")
    explore_case(ctx, run)


@reg('C20')
def c20(tier):
    for fn, nm in KIND.items():
        for how in ('number', 'shape', 'none', 'value', 'array', 'both', 'list', 'listshape', 'nested'):
            yield '%s[%s]' % (nm, how), lambda ctx, fn=fn, how=how: decl_case(ctx, fn, how)
        for r in itertools.product(range(1, 4), repeat=2):
            yield '%s[array of rank %d, shape of rank %d]' % ((nm, ) + r), \
                lambda ctx, fn=fn, r=r: decl_case(ctx, fn, 'wrong', r)
    keep = {'default', 'input shape', 'operand', 'execution', 'setup'}
    yield from every(tier, 'default', keep, 4 if tier == 'quick' else 25,
                     pids=[p for p in OPS if p not in ('C25', )])


c20.info = {}

# ---------------------------------------------------------------- C21
@reg('C21')
def c21(tier):
    keep = {'frame', 'value', 'partial', 'state', 'shared', 'execution'}
    yield from every(tier, 'purity', keep, 3 if tier == 'quick' else 25, skip=('__setitem__[(::s', '__setitem__[(a:b:s'))


c21.info = {}


# ---------------------------------------------------------------- C15
def ne_shapes(*os_):
    """formula: the operands do not all have the same shape"""
    fs = []
    a = os_[0]
    for b in os_[1:]:
        if len(a.dims) != len(b.dims):
            return ('T', )
        fs += [('c', Cond('ne', norm(p - q))) for p, q in zip(a.dims, b.dims)]
    return fjoin('or', *fs) if fs else ('F', )


def one_elem(o):
    """formula: the declared shape is (1,)"""
    return ('c', Cond('eq', norm(o.dims[0] - 1))) if len(o.dims) == 1 else ('F', )


def ne_dim(o, k, n):
    return ('c', Cond('ne', norm(o.dims[k] - n)))


def engine_limit(e):
    """an exception that the engine's own objects raise where NumPy's might not"""
    tb = e.__traceback__
    while tb.tb_next:
        tb = tb.tb_next
    return '/pyvc/' in tb.tb_frame.f_code.co_filename and isinstance(
        e, (AttributeError, NotImplementedError, RecursionError, TypeError, ImportError, NameError, AssertionError))


def write_case(ctx, text, opds, bad=None, arrays=(), stage=None):
    """`text` (an expression of ot, the operands and constants) is rejected
    when it is evaluated exactly if `bad`; text and operands are also what
    the replay evaluates"""
    def run():
        vc.DIMS[:] = []
        terms.POSITIVE.clear()
        os_ = {n: Opd(n, d, b) for n, d, b in [(o + (None, ))[:3] for o in opds]}
        as_ = {n: Opd(n, d, b) for n, d, b in [(o + (None, ))[:3] for o in arrays]}

        def rep(env):
            z = lambda m: {n: [ints.ieval(norm(d), env) for d in o.dims] for n, o in m.items()}
            return {'kind': 'write', 'text': text, 'vars': z(os_), 'arrays': z(as_),
                    'accept': ctx.want}
        ctx.replay = rep
        M = ot().load('omtools.api')
        ns = {'ot': M, 'num': numeric('num'), 'Part': Opd}
        ns.update({n: o.make() for n, o in os_.items()})
        ns.update({n: carr(o, n) for n, o in as_.items()})
        f = ('T', ) if bad is None else bad(dict(os_, **as_))
        ctx.want = True
        try:
            eval(text, ns)
        except (ints.Unsupported, path.Infeasible):
            raise
        except Exception as e:
            if engine_limit(e):
                ctx.open('rejects', 'outside the verifier: %s: %s' % (type(e).__name__, str(e)[:200]))
            else:
                vc.error_check(ctx, (f, Exception), e)
            return
        ctx.want = False
        vc.error_check(ctx, (f, Exception), None)
        ctx.ok('accepts')
    explore_case(ctx, run)


ANY = [('x', ['n'], [True])]
NOEXPR = {'a number': 'num', 'an integer': '2', 'None': 'None', 'a string': "'a'", 'a list': '[1., 2.]',
          'a tuple': '(1., 2.)', 'an array': 'A'}
UNARY = ('sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sec', 'cosec', 'cotan', 'sinh', 'cosh', 'tanh', 'sech',
         'cosech', 'cotanh', 'exp', 'log', 'log10')


def writes(tier):
    """(function, text, operands, formula of the rejected cases, arrays)"""
    quick = tier == 'quick'
    R3 = (1, 2, 3)
    A = [('A', ['m'], [True])]
    # operands that are not expressions
    for fn in UNARY:
        for k, t in NOEXPR.items():
            yield fn, 'operand %s' % k, 'ot.%s(%s)' % (fn, t), [], None, A
    FIRST = {'sum': '%s', 'average': '%s', 'max': '%s', 'min': '%s', 'pnorm': '%s', 'reshape': '%s, (2, 1)',
             'expand': "%s, (2, 3)", 'transpose': '%s', 'reorder_axes': "%s, 'ij->ji'", 'rotmat': "%s, 'x'",
             'einsum': "%s, subscripts='i->i'", 'einsum_new_api': '%s, operation=[(0, ), (0, )]'}
    for fn, a in FIRST.items():
        for k, t in NOEXPR.items():
            yield fn, 'operand %s' % k, 'ot.%s(%s)' % (fn, a % t), [], None, A
    V2 = [('y', ['m'])]
    M2 = [('y', ['m0', 'm1'])]
    B = [('A', ['m'])]
    for k, t in NOEXPR.items():
        for fn in ('inner', 'outer', 'dot', 'sum', 'average', 'max', 'min'):
            yield fn, 'first operand %s' % k, 'ot.%s(%s, y)' % (fn, t), V2, None, B
            yield fn, 'second operand %s' % k, 'ot.%s(y, %s)' % (fn, t), V2, None, B
        for fn in ('sum', 'average'):
            yield fn, 'second operand with axes %s' % k, 'ot.%s(y, %s, axes=(0, ))' % (fn, t), M2, None, B
        for fn in ('max', 'min', 'pnorm'):
            yield fn, 'operand with an axis %s' % k, 'ot.%s(%s, axis=0)' % (fn, t), [], None, B
        for fn in ('matmat', 'matvec'):
            yield fn, 'first operand %s' % k, 'ot.%s(%s, y)' % (fn, t), V2, None, [('A', ['m0', 'm'])]
            yield fn, 'second operand %s' % k, 'ot.%s(y, %s)' % (fn, t), M2, None, [('A', ['m1'])]
        yield 'cross', 'first operand %s' % k, 'ot.cross(%s, y, 0)' % t, [('y', [const(3)])], None, [('A', [const(3)])]
        yield 'cross', 'second operand %s' % k, 'ot.cross(y, %s, 0)' % t, [('y', [const(3)])], None, [('A', [const(3)])]
        yield 'einsum', 'second operand %s' % k, "ot.einsum(y, %s, subscripts='i,i->i')" % t, V2, None, B
        yield 'einsum_new_api', 'second operand %s' % k, \
            'ot.einsum_new_api(y, %s, operation=[(0, ), (0, ), (0, )])' % t, V2, None, B
        y1 = [('y', ['n'], [True]), ('z', [const(1)])]
        yield 'if_else', 'condition %s' % k, 'ot.if_else(%s, y, y)' % t, y1, None, A
        yield 'if_else', 'first branch %s' % k, 'ot.if_else(z, %s, y)' % t, y1, None, A
        yield 'if_else', 'second branch %s' % k, 'ot.if_else(z, y, %s)' % t, y1, None, A
    # operators
    for s in '+-*/':
        for k in ('None', 'a string', 'a list', 'a tuple'):
            yield 'x %s y' % s, 'second operand %s' % k, 'x %s %s' % (s, NOEXPR[k]), ANY, None, ()
            yield 'x %s y' % s, 'first operand %s' % k, '%s %s x' % (NOEXPR[k], s), ANY, None, ()
        for r in itertools.product(R3, repeat=2):
            ops = [('x', D(r[0])), ('y', D(r[1], 'm'))]
            # a one-element operand of shape (1,) is broadcast to any other shape
            yield 'x %s y' % s, 'ranks %d and %d' % r, 'x %s y' % s, ops, lambda o: ne_shapes(o['x'], o['y']), ()
            if s != '/':
                yield 'x %s array' % s, 'ranks %d and %d' % r, 'x %s A' % s, ops[:1], \
                    lambda o: ne_shapes(o['x'], o['A']), [('A', D(r[1], 'm'))]
    for k in ('None', 'a string', 'a list', 'a tuple'):
        yield 'x ** y', 'exponent %s' % k, 'x ** %s' % NOEXPR[k], ANY, None, ()
    yield 'x ** y', 'exponent an expression', 'x ** y', ANY + [('y', ['n'], [True])], None, ()
    for r in itertools.product(R3, repeat=2):
        yield 'x ** array', 'ranks %d and %d' % r, 'x ** A', [('x', D(r[0]))], \
            lambda o: ne_shapes(o['x'], o['A']), [('A', D(r[1], 'm'))]
    # different shapes
    for r in itertools.product(R3, repeat=2):
        ops = [('x', D(r[0])), ('y', D(r[1], 'm'))]
        ne = lambda o: ne_shapes(o['x'], o['y'])
        for fn in ('sum', 'average', 'max', 'min'):
            yield fn, 'ranks %d and %d' % r, 'ot.%s(x, y)' % fn, ops, ne, ()
        yield 'if_else', 'branches of ranks %d and %d' % r, 'ot.if_else(z, x, y)', ops + [('z', [const(1)])], ne, ()
        if r[0] == 1 or r[1] == 1:
            yield 'dot', 'ranks %d and %d' % r, 'ot.dot(x, y)', ops, ne, ()
        for ax in range(r[0]):
            if r[0] > 1:
                for fn in ('sum', 'average'):
                    yield fn, 'ranks %d and %d, axes (%d,)' % (r + (ax, )), 'ot.%s(x, y, axes=(%d, ))' % (fn, ax), ops, ne, ()
                yield 'dot', 'ranks %d and %d, axis %d' % (r + (ax, )), 'ot.dot(x, y, axis=%d)' % ax, ops, \
                    lambda o, ax=ax: fjoin('or', ne_shapes(o['x'], o['y']), ne_dim(o['x'], ax, 3)), ()
            yield 'cross', 'ranks %d and %d, axis %d' % (r + (ax, )), 'ot.cross(x, y, %d)' % ax, ops, \
                lambda o, ax=ax: fjoin('or', ne_shapes(o['x'], o['y']), ne_dim(o['x'], ax, 3)), ()
            yield 'cross', 'ranks %d and %d, axis %d' % (r + (ax - r[0], )), 'ot.cross(x, y, %d)' % (ax - r[0]), ops, \
                lambda o, ax=ax: fjoin('or', ne_shapes(o['x'], o['y']), ne_dim(o['x'], ax, 3)), ()
        yield 'matmat', 'ranks %d and %d' % r, 'ot.matmat(x, y)', ops, \
            lambda o, r=r: ('T', ) if r[0] != 2 or r[1] > 2 else ('c', Cond('ne', norm(o['x'].dims[1] - o['y'].dims[0]))), ()
        yield 'matvec', 'ranks %d and %d' % r, 'ot.matvec(x, y)', ops, \
            lambda o, r=r: ('T', ) if r[0] != 2 or r[1] != 1 else ('c', Cond('ne', norm(o['x'].dims[1] - o['y'].dims[0]))), ()
        if r == (1, 1):
            yield 'inner', 'vectors', 'ot.inner(x, y)', ops, ne, ()
        for ax in itertools.product(range(r[0]), range(r[1])):
            if r == (1, 1):
                continue
            yield 'inner', 'ranks %d and %d, axes [%d] and [%d]' % (r + ax), 'ot.inner(x, y, axes=([%d], [%d]))' % ax, ops, \
                lambda o, ax=ax: ('c', Cond('ne', norm(o['x'].dims[ax[0]] - o['y'].dims[ax[1]]))), ()
            if min(r) > 1 and max(r) > 2:
                for bx in itertools.product(range(r[0]), range(r[1])):
                    if bx[0] == ax[0] or bx[1] == ax[1] or quick and (sum(ax) + sum(bx)) % 3:
                        continue
                    yield 'inner', 'ranks %d and %d, axes [%d, %d] and [%d, %d]' % (
                        r + (ax[0], bx[0], ax[1], bx[1])), \
                        'ot.inner(x, y, axes=([%d, %d], [%d, %d]))' % (ax[0], bx[0], ax[1], bx[1]), ops, \
                        lambda o, ax=ax, bx=bx: fjoin(
                            'or', ('c', Cond('ne', norm(o['x'].dims[ax[0]] - o['y'].dims[ax[1]]))),
                            ('c', Cond('ne', norm(o['x'].dims[bx[0]] - o['y'].dims[bx[1]])))), ()
    for r in R3:
        yield 'if_else', 'condition of rank %d' % r, 'ot.if_else(x, y, y)', [('x', D(r)), ('y', ['m'], [True])], \
            lambda o, r=r: fjoin('or', *[ne_dim(o['x'], k, 1) for k in range(r)]), ()
        ops = [('x', D(r)), ('y', D(r, 'm')), ('z', D(r, 'k'))]
        ne = lambda o: ne_shapes(o['x'], o['y'], o['z'])
        for fn in ('sum', 'average', 'max', 'min'):
            yield fn, 'three operands of rank %d' % r, 'ot.%s(x, y, z)' % fn, ops, ne, ()
    # arguments
    for fn in ('max', 'min'):
        for r in R3:
            for ax in range(r):
                yield fn, 'two operands and axis %d' % ax, 'ot.%s(x, y, axis=%d)' % (fn, ax), \
                    [('x', D(r)), ('y', D(r))], None, ()
    for p in (-4, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 2.5, 2., 0.5):
        bad = (lambda o: ('F', )) if p > 0 and p % 2 == 0 else None
        yield 'pnorm', 'type %s' % p, 'ot.pnorm(x, %s)' % p, ANY, bad, ()
        yield 'pnorm', 'type %s and axis 1' % p, 'ot.pnorm(x, %s, axis=1)' % p, [('x', D(2))], bad, ()
    for ax in ("'0'", '[0]', '0.5', '2', '-3', '(0, 2)'):
        yield 'pnorm', 'axis %s' % ax, 'ot.pnorm(x, 2, axis=%s)' % ax, [('x', D(2))], None, ()
    for fn in ('max', 'min'):
        for ax in (2, -3):
            yield fn, 'axis %d of a matrix' % ax, 'ot.%s(x, axis=%d)' % (fn, ax), [('x', D(2))], None, ()
    for fn in ('sum', 'average'):
        for ax in ('(2, )', '(-3, )', '(0, 2)'):
            yield fn, 'axes %s of a matrix' % ax, 'ot.%s(x, axes=%s)' % (fn, ax), [('x', D(2))], None, ()
    for ax in (2, 5):
        yield 'cross', 'axis %d of matrices' % ax, 'ot.cross(x, y, %d)' % ax, \
            [('x', [const(3), const(3)]), ('y', [const(3), const(3)])], None, ()
        yield 'dot', 'axis %d of matrices' % ax, 'ot.dot(x, y, axis=%d)' % ax, \
            [('x', [const(3), const(3)]), ('y', [const(3), const(3)])], None, ()
    for f in ("'x'", "''", "'DENSE'", 'None', "'dense '"):
        yield 'einsum', 'format %s' % f, "ot.einsum(x, subscripts='ij->ji', partial_format=%s)" % f, [('x', D(2))], None, ()
        yield 'einsum_new_api', 'format %s' % f, \
            "ot.einsum_new_api(x, operation=[(0, 1), (1, 0)], partial_format=%s)" % f, [('x', D(2))], None, ()
    # einsum: one rank and one size of each label
    for sub, rs in (('i,i->i', (1, 1)), ('i,i->', (1, 1)), ('ij,j->i', (2, 1)), ('ij,jk->ik', (2, 2)), ('ii->i', (2, )),
                    ('iji->j', (3, )), ('ij,ij->', (2, 2)), ('i,i,i->i', (1, 1, 1)), ('ij,jk,ki->', (2, 2, 2)),
                    ('ijk,kj->i', (3, 2))):
        ins = sub.split('->')[0].split(',')
        nm = 'xyz'[:len(rs)]
        ops = [(n, D(r, c)) for n, r, c in zip(nm, rs, 'nmk')]

        def ne(o, ins=ins, nm=nm):
            sz, fs = {}, []
            for n, t in zip(nm, ins):
                for q, c in enumerate(t):
                    if c in sz:
                        fs.append(('c', Cond('ne', norm(sz[c] - o[n].dims[q]))))
                    sz.setdefault(c, o[n].dims[q])
            return fjoin('or', *fs) if fs else ('F', )
        lab = {}
        num = [tuple(lab.setdefault(c, len(lab)) for c in t) for t in ins]
        out = tuple(lab[c] for c in sub.split('->')[1])
        op = [repr(t) for t in num] + ([repr(out)] if out else [])
        # at most one output of the scalar form
        yield 'einsum', sub, "ot.einsum(%s, subscripts='%s')" % (', '.join(nm), sub), ops, ne, ()
        yield 'einsum_new_api', sub, 'ot.einsum_new_api(%s, operation=[%s])' % (', '.join(nm), ', '.join(op)), ops, ne, ()
    for sub, rs in (('i->i', (2, )), ('ij->i', (1, )), ('ij->ik', (2, )), ('i->i', (1, 1)), ('i,j->ij', (1, )),
                    ('i->j', (1, )), ('ij,jk->ik', (2, 1)), ('ij,jk->ik', (2, 3)), ('ij,ij->ij', (2, )),
                    ('i,i->ij', (1, 1)), ('ij->i', (3, ))):
        ins = sub.split('->')[0].split(',')
        lab = {}
        num = [tuple(lab.setdefault(c, len(lab)) for c in t) for t in ins]
        out = tuple(lab.setdefault(c, len(lab)) for c in sub.split('->')[1])
        nm = 'xyz'[:len(rs)]
        ops = [(n, D(r, c)) for n, r, c in zip(nm, rs, 'nmk')]
        yield 'einsum', '%s of ranks %s' % (sub, rs), "ot.einsum(%s, subscripts='%s')" % (', '.join(nm), sub), ops, None, ()
        if len(num) + 1 != len(rs):
            yield 'einsum_new_api', '%s of ranks %s' % (sub, rs), \
                'ot.einsum_new_api(%s, operation=%r)' % (', '.join(nm), num + [out]), ops, None, ()
    # expand
    for sub, r, t in (('i->ij', 1, 2), ('i->ji', 1, 2), ('ij->ijk', 2, 3), ('ij->kij', 2, 3), ('ij->ikj', 2, 3),
                      ('i->kij', 1, 3), ('j->kij', 1, 3)):
        a, b = sub.split('->')
        yield 'expand', '%s, a size of the result' % sub, \
            'ot.expand(x, Part("t", [%s]).shape, "%s")' % (', '.join('"t%d"' % k for k in range(t)), sub), \
            [('x', D(r)), ('t', D(t, 't'))], \
            lambda o, a=a, b=b: fjoin('or', *[('c', Cond('ne', norm(o['x'].dims[k] - o['t'].dims[b.index(c)])))
                                             for k, c in enumerate(a)]), ()
    for sub, r, t in (('ij->ji', 2, 2), ('ij->jik', 2, 3), ('i->jk', 1, 2), ('ij->ik', 2, 2), ('ii->ij', 2, 2),
                      ('ij', 2, 2), ('', 1, 2), ('i-ij', 1, 2), ('ij->ij', 1, 2), ('i->ii', 1, 2), ('i->iji', 1, 3),
                      ('i->ij', 2, 3), ('i->ij', 1, 3), ('ij->ijk', 2, 2), ('jik->kji', 3, 3)):
        yield 'expand', '%s from rank %d to rank %d' % (sub or 'empty', r, t), \
            'ot.expand(x, Part("t", [%s]).shape, "%s")' % (', '.join('"t%d"' % k for k in range(t)), sub), \
            [('x', [const(2)] * r), ('t', D(t, 't'))], None, ()
    for r in R3:
        yield 'expand', 'no indices, rank %d' % r, 'ot.expand(x, (2, 3))', [('x', D(r))], \
            lambda o: path.fnot(one_elem(o['x'])), ()
    for i in ('1', '[0]', '(0, )', '0.'):
        yield 'expand', 'indices %s' % i, 'ot.expand(x, (2, 3), %s)' % i, [('x', [const(2)])], None, ()
    # reshape, reorder_axes
    for r, t in itertools.product((1, 2, 3), repeat=2):
        yield 'reshape', 'rank %d to rank %d' % (r, t), \
            'ot.reshape(x, Part("t", [%s]).shape)' % ', '.join('"t%d"' % k for k in range(t)), \
            [('x', D(r)), ('t', D(t, 't'))], \
            lambda o: ('c', Cond('ne', norm(o['x'].size - o['t'].size))), ()
    for r in (2, 3):
        a = 'ijk'[:r]
        for b in sorted({''.join(q) for n in range(0, r + 1) for q in itertools.product(a + 'm', repeat=n)}):
            ok = sorted(b) == sorted(a)
            yield 'reorder_axes', '%s->%s' % (a, b or 'nothing'), "ot.reorder_axes(x, '%s->%s')" % (a, b), [('x', D(r))], \
                (lambda o: ('F', )) if ok else None, ()
    for sub, r in (('ij->ji', 3), ('ijk->kji', 2), ('ij', 2), ('ij->ji', 1)):
        yield 'reorder_axes', '%s of rank %d' % (sub, r), "ot.reorder_axes(x, '%s')" % sub, [('x', D(r))], None, ()


FILE = {'dot': 'std/dot.py:dot'}


@reg('C12')
def c12(tier):
    # the edges of the graph: an expression depends on exactly the
    # expressions whose values its component reads
    keep = {'deps', 'builds', 'inputs', 'outputs', 'execution', 'setup'}
    yield from every(tier, 'edges', keep, 4 if tier == 'quick' else 25, pids=[p for p in OPS if p != 'C25'])


c12.info = {}


@reg('C14')
def c14(tier):
    # the names of what the operations make
    keep = {'names', 'execution'}
    yield from every(tier, 'names', keep, 6 if tier == 'quick' else None, pids=[p for p in OPS if p not in ('C11', 'C25')])


@reg('C15')
def c15(tier):
    for fn, what, text, ops, bad, arrays in writes(tier):
        w = 'core/variable.py:' + fn if ' ' in fn else 'std/%s.py:%s' % (fn, fn)
        if fn in UNARY:
            w = 'std/%s.py:%s' % (fn, fn)
        yield '%s[%s]' % (w, what), lambda ctx, text=text, ops=ops, bad=bad, arrays=arrays: write_case(
            ctx, text, ops, bad, arrays)
    keep = {'accepts', 'shape', 'declared shape', 'execution', 'setup'}
    yield from every(tier, 'shape', keep, 6 if tier == 'quick' else 40, pids=[p for p in OPS if p != 'C25'])


c15.info = {}
