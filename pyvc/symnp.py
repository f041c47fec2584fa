"""The NumPy surface the code under verification uses, over symbolic arrays.
Contracts of the NumPy functions are part of the trusted base."""
import builtins
import math
import types

from . import arr, ints, terms, path
from .arr import *
from .arr import _int, _float, _bool
from .arr import NeedCases, Arr, StrArr, SymInt, SymReal, SymShape

mod = types.ModuleType('numpy')


def np_fn(f, name=None):
    setattr(mod, name or f.__name__, f)
    return f


class _DT:
    def __init__(self, n):
        self.__name__ = n


mod.ndarray = Arr
mod.pi = math.pi
mod.e = math.e
mod.inf = math.inf
mod.nan = math.nan
mod.newaxis = None
mod.number = type('number', (), {})
mod.integer = type('integer', (), {})
mod.floating = type('floating', (), {})
for _t in ('int64', 'int32', 'float64', 'float32', 'bool_', 'int_', 'float_'):
    setattr(mod, _t, type(_t, (), {}))
mod.random = types.ModuleType('numpy.random')
mod.linalg = types.ModuleType('numpy.linalg')
mod.set_printoptions = lambda *a, **k: None


@np_fn
def array(x, dtype=None, copy=True, ndmin=0):
    a = asarray(x, dtype)
    if isinstance(a, StrArr):
        return a
    if isinstance(x, Arr) and copy:
        a = a.copy()
    while len(a.dims) < ndmin:
        a = a.reshape((1, ) + tuple(a.shape))
    return a


np_fn(asarray)
mod.asanyarray = asarray
mod.ascontiguousarray = asarray


@np_fn
def atleast_1d(x):
    a = asarray(x)
    return a.reshape(1) if not a.dims else a


@np_fn
def atleast_2d(x):
    a = atleast_1d(x)
    if len(a.dims) == 1:
        return a.reshape((1, a.size))
    return a


def filled(shape, e, kind):
    d, b = parse_shape(shape)
    return Arr(d, lambda i: e, kind, b)


@np_fn
def ones(shape, dtype=None, order='C'):
    k = kind_of(dtype) or 'f'
    return filled(shape, {'f': terms.ONE, 'i': const(1), 'b': ('T', )}[k], k)


@np_fn
def zeros(shape, dtype=None, order='C'):
    k = kind_of(dtype) or 'f'
    return filled(shape, {'f': terms.ZERO, 'i': const(0), 'b': ('F', )}[k], k)


@np_fn
def empty(shape, dtype=None, order='C'):
    k = kind_of(dtype) or 'f'
    if k != 'f':
        raise Unsupported('uninitialised integers')
    d, b = parse_shape(shape)
    nm = 'uninit%d' % next(ints._uid)
    return Arr(d, lambda i: terms.rel(nm, ints.ravel(i, d)), 'f', b)


@np_fn
def full(shape, v, dtype=None):
    d, b = parse_shape(shape)
    a = asarray(v, dtype)
    f = bcast_to(a, d, b, a.kind)
    return Arr(d, f, a.kind, b)


@np_fn
def ones_like(a, dtype=None):
    a = asarray(a)
    return ones(a.shape, dtype or a.dtype)


@np_fn
def zeros_like(a, dtype=None):
    a = asarray(a)
    return zeros(a.shape, dtype or a.dtype)


@np_fn
def full_like(a, v, dtype=None):
    a = asarray(a)
    return full(a.shape, v, dtype or a.dtype)


@np_fn
def empty_like(a, dtype=None):
    return empty(asarray(a).shape, dtype)


@np_fn
def eye(n, m=None, dtype=None):
    k = kind_of(dtype) or 'f'
    d = [to_I(n), to_I(m if m is not None else n)]

    def fn(i):
        c = terms.Cond('eq', i[0] - i[1])
        if k == 'f':
            v = terms.decide(c)
            return rconst(_int(v)) if v is not None else terms.rcond(c)
        v = terms.decide(c)
        if v is None:
            raise Unsupported('integer identity matrix')
        return const(_int(v))
    return Arr(d, fn, k)


mod.identity = eye


@np_fn
def arange(a, b=None, step=None, dtype=None):
    if b is None:
        a, b = 0, a
    step = 1 if step is None else step
    for v in (a, b, step):
        if isinstance(v, (_float, SymReal)):
            raise Unsupported('arange of reals')
    a, b = to_I(a), to_I(b)
    if not isinstance(step, _int) or step == 0:
        raise Unsupported('symbolic step')
    n = norm(b - a) if step > 0 else norm(a - b)
    if not prove_ge(n) and not path.branch(('c', terms.Cond('ge', n))):
        n = const(0)
    s = abs(step)
    if s != 1:
        n = ints.idiv(n + s - 1, const(s))
    r = Arr([n], lambda i: norm(a + i[0] * step), 'i')
    return r if kind_of(dtype) in (None, 'i') else r.astype(dtype)


@np_fn
def linspace(*a, **k):
    raise Unsupported('linspace')


def _prod(x, axis=None, **k):
    if axis is not None:
        raise Unsupported('prod along an axis')
    if isinstance(x, SymShape):
        d, _ = parse_shape(x)
        return mkint(prodI(d))
    if isinstance(x, (_int, SymInt)):
        return x
    if isinstance(x, (list, tuple)) and len(x) == 0:
        return 1.0
    return reduce_prod(x)


np_fn(_prod, 'prod')
np_fn(_prod, 'product')


def _sum(x, axis=None, **k):
    if any(v not in (None, False) for v in k.values()):
        raise Unsupported('sum option')
    return reduce_sum(x, axis)


np_fn(_sum, 'sum')
mod.average = lambda a, axis=None, weights=None: average(a, axis) if weights is None else _uns('weights')
mod.mean = lambda a, axis=None: average(a, axis)
mod.max = mod.amax = lambda a, axis=None: reduce_ext('max', a, axis)
mod.min = mod.amin = lambda a, axis=None: reduce_ext('min', a, axis)
mod.maximum = lambda a, b: binary('max', a, b)
mod.minimum = lambda a, b: binary('min', a, b)


def _uns(w):
    raise Unsupported(w)


def _any(a, axis=None):
    if axis is not None:
        raise Unsupported('any along an axis')
    return reduce_any(a)


np_fn(_any, 'any')
mod.all = lambda a, axis=None: mkbool(path.fnot(to_F(reduce_any(_not(a))))) if axis is None else _uns('all')


def _not(a):
    a = asarray(a)
    if a.kind != 'b':
        a = asarray(elementwise('ne', a, 0))
    return ~a if a.dims else Arr([], lambda i: path.fnot(a.at(())), 'b')


mod.logical_and = lambda a, b: elementwise('and', asarray(a), asarray(b))
mod.logical_or = lambda a, b: elementwise('or', asarray(a), asarray(b))
mod.logical_not = _not
mod.add = lambda a, b: elementwise('add', a, b)
mod.subtract = lambda a, b: elementwise('sub', a, b)
mod.multiply = lambda a, b: elementwise('mul', a, b)
mod.divide = mod.true_divide = lambda a, b: elementwise('div', a, b)
mod.power = lambda a, b: elementwise('pow', a, b)
mod.float_power = mod.power
mod.negative = lambda a: elementwise('sub', 0, a)
mod.square = lambda a: elementwise('mul', a, a)
mod.reciprocal = lambda a: elementwise('div', 1., a)
mod.abs = mod.absolute = mod.fabs = lambda a: unary('abs', a)
mod.equal = lambda a, b: elementwise('eq', a, b)
mod.not_equal = lambda a, b: elementwise('ne', a, b)
mod.less = lambda a, b: elementwise('lt', a, b)
mod.greater = lambda a, b: elementwise('gt', a, b)
mod.less_equal = lambda a, b: elementwise('le', a, b)
mod.greater_equal = lambda a, b: elementwise('ge', a, b)
for _n in ('sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos',
           'arctan', 'exp', 'sqrt'):
    setattr(mod, _n, lambda a, _n=_n: unary(_n, a))


def _log(a):
    if isinstance(a, _int) and a == 10:
        return mkreal(terms.rparam('ln10'))
    return unary('log', a)


mod.log = _log
mod.log10 = lambda a: unary('log10', a)
mod.log1p = lambda a: unary('log', asarray(a) + 1)
mod.expm1 = lambda a: unary('exp', a) - 1


@np_fn
def shape(x):
    if isinstance(x, Arr):
        return x.shape
    if isinstance(x, SymShape):
        return (len(x), )
    return asarray(x).shape


@np_fn
def ndim(x):
    return asarray(x).ndim


@np_fn
def size(x, axis=None):
    a = asarray(x)
    return a.size if axis is None else a.shape[axis]


@np_fn
def isscalar(x):
    return not isinstance(x, (Arr, list, tuple)) and x is not None


@np_fn
def unravel_index(k, shape):
    d, b = parse_shape(shape)
    if any(b):
        raise Unsupported('unravel_index of unknown rank')
    a = asarray(k)
    f = a.snap()
    out = []
    for j in range(len(d)):
        fn = lambda i, j=j: ints.unravel(f(i), d)[j]
        r = Arr(a.dims, fn, 'i', a.blk)
        r.flatsrc = (f, d, j)
        if norm(prodI(a.dims)) == norm(prodI(d)) and builtins.len(a.dims) == 1:
            keep_comp(r, d)
        out.append(r)
    if not a.dims:
        return tuple(mkint(r.at(())) for r in out)
    return tuple(out)


@np_fn
def ravel_multi_index(ix, dims, mode='raise'):
    d, b = parse_shape(dims)
    if any(b):
        raise Unsupported('ravel_multi_index of unknown rank')
    ks = [asarray(k) for k in ix]
    if len(ks) != len(d):
        raise ValueError('parameter multi_index must be a sequence of length %d' % len(d))
    if not ks:
        raise ValueError('need at least one index')
    od, ob, maps = broadcast([(k.dims, k.blk) for k in ks])
    fs = [k.snap() for k in ks]
    probe = [ints.fresh_idx(x) for x in od]
    from .arr import in_range
    for f, m, x in zip(fs, maps, d):
        try:
            in_range(norm(f(m(probe))), x, od, probe)
        except NeedCases:
            raise
        except Unsupported:
            from .arr import _intext, to_I
            k = Arr(od, lambda i, f=f, m=m: f(m(i)), 'i', ob)
            lo, hi = to_I(_intext('min', k)), to_I(_intext('max', k))
            if not (path.branch(('c', Cond('ge', lo))) and path.branch(('c', Cond('ge', x - 1 - hi)))):
                raise ValueError('invalid entry in coordinates array')
    r = Arr(od, lambda i: norm(ints.ravel([f(m(i)) for f, m in zip(fs, maps)], d)), 'i', ob)
    return r if od else mkint(r.at(()))


@np_fn
def delete(a, obj, axis=None):
    if isinstance(a, SymShape):
        a = tuple(a)
    a = asarray(a)
    if isinstance(a, StrArr):
        n = len(a)
        obj = obj if isinstance(obj, (list, tuple)) else [obj]
        rm = {o + n if o < 0 else o for o in obj}
        return StrArr([x for k, x in enumerate(a.xs) if k not in rm])
    if axis is None:
        if len(a.dims) > 1:
            a = a.flatten()
        axis = 0
    if axis < 0:
        axis += len(a.dims)
    n = a.dims[axis]
    if not n.is_const():
        raise Unsupported('delete along a symbolic axis')
    n = n.value()
    if isinstance(obj, (_int, SymInt)):
        obj = [obj]
    if isinstance(obj, slice):
        obj = list(range(n))[obj]
    rm = set()
    for o in (obj if not isinstance(obj, Arr) else list(obj)):
        if not isinstance(o, _int):
            raise Unsupported('delete of a symbolic position')
        if not -n <= o < n:
            raise IndexError('index out of bounds')
        rm.add(o + n if o < 0 else o)
    keep = [k for k in range(n) if k not in rm]
    f = a.snap()

    def fn(i):
        k = norm(i[axis])
        if not k.is_const():
            raise NeedCases(k, len(keep))
        return f(tuple(i[:axis]) + (const(keep[k.value()]), ) + tuple(i[axis + 1:]))
    return Arr(a.dims[:axis] + [const(len(keep))] + a.dims[axis + 1:], fn, a.kind, a.blk)


@np_fn
def concatenate(xs, axis=0):
    xs = [asarray(x) for x in xs]
    if axis is None:
        xs = [x if builtins.len(x.dims) == 1 and not any(x.blk) else x.flatten() for x in xs]
        axis = 0
    n = len(xs[0].dims)
    if axis < 0:
        axis += n
    r = _concatenate(xs, axis, n)
    if n == 1 and r.kind == 'i':
        keep_rows(r, 'parts', [p for x in xs for p in (rows_of(x, 'parts') or [keep_comp(x.copy(), comp_of(x))])])
    if n == 2 and axis == 1 and r.kind == 'i':
        cols = [rows_of(x, 'cols') or ([rows_of(x, 'parts')] if norm(x.dims[1]) == const(1) else None) for x in xs]
        if all(c and c[0] for c in cols):
            keep_rows(r, 'cols', [c for cs in cols for c in cs])
    return r


def keep_rows(a, what, v):
    """what a table of integers is made of, as long as nobody writes to it"""
    a.store.rows = (what, v, a.store.fn)


def rows_of(a, what):
    w = getattr(a.store, 'rows', None)
    if w is None or w[0] != what or w[2] is not a.store.fn:
        return None
    return w[1]


def keep_comp(a, c):
    """a hint: the composite index along which the elements of a vector were laid out"""
    if builtins.len(a.dims) == 1:
        a.store.comp = [norm(x) for x in c]
    return a


def comp_of(a):
    return builtins.list(getattr(a.store, 'comp', None) or [norm(a.dims[0])])


def refine(comps):
    """a common refinement of composite indices, or None"""
    out = [x for x in comps[0] if x != const(1)]
    for c in comps[1:]:
        a, b, r = builtins.list(out), [x for x in c if x != const(1)], []
        while a and b:
            if a[0] == b[0]:
                r.append(a.pop(0))
                b.pop(0)
                continue
            for p, q in ((a, b), (b, a)):
                m = next((m for m in range(2, builtins.len(q) + 1) if norm(prodI(q[:m])) == p[0]), None)
                if m:
                    r += q[:m]
                    del q[:m]
                    p.pop(0)
                    break
            else:
                return None
        out = r
    return out


def _concatenate(xs, axis, n):
    kd = 'f' if any(x.kind == 'f' for x in xs) else xs[0].kind
    fs = [conv(x.snap(), x.kind, kd) for x in xs]
    if all(x.dims[axis].is_const() for x in xs):
        table = [(k, j) for k, x in enumerate(xs) for j in range(x.dims[axis].value())]

        def fn(i):
            p = norm(i[axis])
            if p.is_const():
                k, j = table[p.value()]
                return fs[k](tuple(i[:axis]) + (const(j), ) + tuple(i[axis + 1:]))
            gs = [lambda r, k=k, j=j: fs[k](tuple(r[:axis]) + (const(j), ) + tuple(r[axis:])) for k, j in table]
            return select(gs, p, tuple(i[:axis]) + tuple(i[axis + 1:]), kd)
        return Arr(xs[0].dims[:axis] + [const(len(table))] + xs[0].dims[axis + 1:], fn, kd)
    offs = [const(0)]
    for x in xs:
        offs.append(norm(offs[-1] + x.dims[axis]))

    def fn(i):
        p = norm(i[axis])
        for k in range(len(xs)):
            if prove_ge(p - offs[k]) and prove_ge(offs[k + 1] - 1 - p):
                return fs[k](tuple(i[:axis]) + (norm(p - offs[k]), ) + tuple(i[axis + 1:]))
        if kd != 'f':
            raise Unsupported('concatenation of symbolic lengths')
        r = terms.ZERO
        for k in range(len(xs)):
            c = terms.rcond(terms.Cond('ge', p - offs[k])) * terms.rcond(terms.Cond('ge', offs[k + 1] - 1 - p))
            r = r + c * fs[k](tuple(i[:axis]) + (norm(p - offs[k]), ) + tuple(i[axis + 1:]))
        return r
    return Arr(xs[0].dims[:axis] + [offs[-1]] + xs[0].dims[axis + 1:], fn, kd)


@np_fn
def block(x):
    def rec(v, depth):
        if isinstance(v, (builtins.list, builtins.tuple)):
            ys = [rec(y, depth + 1) for y in v]
            return concatenate([y for y, _ in ys], axis=-ys[0][1]), ys[0][1] + 1
        return atleast_2d(v) if depth == 2 else asarray(v), 1
    return rec(x, 0)[0]


SOLVES = []


def _solve(a, b):
    """numpy.linalg.solve: the vector z with A z = b (A is invertible)"""
    a, b = asarray(a), asarray(b)
    if len(a.dims) != 2 or len(b.dims) != 1 or any(a.blk):
        raise Unsupported('linear systems with several right-hand sides')
    for d in (a.dims[1], b.dims[0]):
        if norm(d) != norm(a.dims[0]):
            raise ValueError('dimension mismatch of a linear system')
    name = 'sol%d' % builtins.len(SOLVES)
    SOLVES.append((a.snap(), b.snap(), a.dims[0], name))
    return Arr([a.dims[0]], lambda i: terms.rel(name, i[0]), 'f')


@np_fn
def append(a, b, axis=None):
    a, b = asarray(a), asarray(b)
    # the empty array of NumPy is a float array: keep integers
    if axis is None:
        if a.dims == [const(0)]:
            return b.flatten() if b.dims != [const(0)] else a.copy()
        if b.dims == [const(0)]:
            return a.flatten()
    return concatenate([a, b], axis)


@np_fn
def hstack(xs):
    xs = [atleast_1d(x) for x in xs]
    return concatenate(xs, 0 if len(xs[0].dims) == 1 else 1)


@np_fn
def vstack(xs):
    return concatenate([atleast_2d(x) for x in xs], 0)


@np_fn
def stack(xs, axis=0):
    a = asarray(list(xs))
    if axis < 0:
        axis += len(a.dims)
    return moveaxis(a, 0, axis) if axis else a


@np_fn
def take(a, ix, axis=None):
    if isinstance(a, SymShape):
        a = tuple(a)
    a = asarray(a)
    if axis is None:
        a = a if len(a.dims) == 1 else a.flatten()
        return a[asarray(ix)] if not isinstance(ix, (_int, SymInt)) else a[ix]
    raise Unsupported('take along an axis')


@np_fn
def array_equal(a, b):
    a, b = asarray(a), asarray(b)
    if len(a.dims) != len(b.dims):
        return False
    for x, y in zip(a.dims, b.dims):
        if norm(x) != norm(y) and not path.branch(('c', terms.Cond('eq', x - y))):
            return False
    if a.dims and any(d == const(0) for d in a.dims):
        return True
    if all(d.is_const() for d in a.dims):
        import itertools
        fs = []
        for v in itertools.product(*[range(d.value()) for d in a.dims]):
            i = tuple(const(k) for k in v)
            fs.append(to_F(wrap(a.at(i), a.kind) == wrap(b.at(i), b.kind)))
        return mkbool(path.fjoin('and', *fs))
    return mod.all(a == b)


mod.allclose = lambda *a, **k: _uns('allclose')


@np_fn
def reshape(a, s, order='C'):
    return asarray(a).reshape(s)


np_fn(transpose)


@np_fn
def moveaxis(a, s, d):
    a = asarray(a)
    n = a.ndim
    s, d = (s + n if s < 0 else s), (d + n if d < 0 else d)
    p = [k for k in range(n) if k != s]
    p.insert(d, s)
    return transpose(a, p)


@np_fn
def rollaxis(a, axis, start=0):
    raise Unsupported('rollaxis')


@np_fn
def swapaxes(a, x, y):
    return asarray(a).swapaxes(x, y)


@np_fn
def expand_dims(a, axis):
    a = asarray(a)
    if axis < 0:
        axis += a.ndim + 1
    return a[(slice(None), ) * axis + (None, )]


@np_fn
def squeeze(a, axis=None):
    return asarray(a).squeeze(axis)


@np_fn
def ravel(a, order='C'):
    return asarray(a).ravel()


@np_fn
def broadcast_to(a, shape):
    a = asarray(a)
    d, b = parse_shape(shape)
    r = Arr(d, bcast_to(a, d, b, a.kind), a.kind, b)
    r.store.ro = 'broadcast_to'
    return r


@np_fn
def repeat(a, n, axis=None):
    a = asarray(a)
    if isinstance(n, (list, tuple, Arr)):
        raise Unsupported('repeat by an array')
    n = to_I(n)
    if axis is None:
        a = a.flatten()
        axis = 0
    if axis < 0:
        axis += len(a.dims)
    f = a.snap()
    r = Arr(a.dims[:axis] + [norm(a.dims[axis] * n)] + a.dims[axis + 1:],
            lambda i: f(tuple(i[:axis]) + (ints.idiv(i[axis], n), ) + tuple(i[axis + 1:])), a.kind)
    return keep_comp(r, comp_of(a) + [n])


@np_fn
def tile(a, reps):
    a = asarray(a)
    if isinstance(reps, (_int, SymInt)):
        reps = (reps, )
    reps = [to_I(r) for r in reps]
    a.norank()
    while len(reps) < len(a.dims):
        reps.insert(0, const(1))
    while len(a.dims) < len(reps):
        a = a.reshape((1, ) + tuple(a.shape))
    f = a.snap()
    dims = list(a.dims)
    res = Arr([norm(d * r) for d, r in zip(dims, reps)],
              lambda i: f(tuple(x if r == const(1) else const(0) if d == const(1) else ints.imod(x, d)
                                for x, d, r in zip(i, dims, reps))), a.kind)
    return keep_comp(res, [reps[0]] + comp_of(a))


@np_fn
def where(c, a=None, b=None):
    if a is None:
        raise Unsupported('where with one argument')
    c, a, b = asarray(c), asarray(a), asarray(b)
    if c.kind != 'b':
        c = asarray(elementwise('ne', c, 0))
    dims, blk, (mc, ma, mb) = broadcast([(c.dims, c.blk), (a.dims, a.blk), (b.dims, b.blk)])
    fc = c.snap()
    k = 'i' if a.kind == b.kind == 'i' else 'f'
    fa, fb = conv(a.snap(), a.kind, k), conv(b.snap(), b.kind, k)

    def fn(i):
        q = fc(mc(i))
        d = path.decide_formula(q)
        if d is not None:
            return fa(ma(i)) if d else fb(mb(i))
        if k == 'i':
            raise Unsupported('conditional integers')
        x, y = fa(ma(i)), fb(mb(i))
        if q[0] == 'c':
            return terms.rite(q[1], x, y)
        z = ind(q)
        return z * x + (terms.ONE - z) * y
    r = Arr(dims, fn, k, blk)
    return r if dims else wrap(r.at(()), k)


@np_fn
def isfinite(a):
    raise Unsupported('isfinite')


@np_fn
def meshgrid(*xs, indexing='xy', sparse=False, copy=True):
    xs = [asarray(x) for x in xs]
    if indexing != 'ij' and len(xs) > 1:
        raise Unsupported('meshgrid xy')
    dims = [x.dims[0] for x in xs]
    out = []
    for k, x in enumerate(xs):
        f = x.snap()
        out.append(Arr(dims, lambda i, f=f, k=k: f((i[k], )), x.kind))
    return out


mod.dot = dot
mod.matmul = matmul
mod.vdot = lambda a, b: dot(asarray(a).flatten(), asarray(b).flatten())


@np_fn
def inner(a, b):
    a, b = asarray(a), asarray(b)
    if len(a.dims) == 1 and len(b.dims) == 1:
        return dot(a, b)
    return tensordot(a, b, axes=((len(a.dims) - 1, ), (len(b.dims) - 1, )))


@np_fn
def outer(a, b):
    a, b = asarray(a).flatten(), asarray(b).flatten()
    return a.reshape((a.size, 1)) * b.reshape((1, b.size))


@np_fn
def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    a.norank()
    b.norank()
    if isinstance(axes, _int):
        ax = list(range(len(a.dims) - axes, len(a.dims)))
        bx = list(range(axes))
    else:
        ax, bx = axes
        ax = axes_of(a, ax)
        bx = axes_of(b, bx)
    if len(ax) != len(bx):
        raise ValueError('shape-mismatch for sum')
    for x, y in zip(ax, bx):
        need_eq(a.dims[x], b.dims[y])
    fa, fb = conv(a.snap(), a.kind, 'f'), conv(b.snap(), b.kind, 'f')
    ka = [k for k in range(len(a.dims)) if k not in ax]
    kb = [k for k in range(len(b.dims)) if k not in bx]

    def fn(i):
        ia, ib = [None] * len(a.dims), [None] * len(b.dims)
        for k, x in zip(ka, i):
            ia[k] = x
        for k, x in zip(kb, i[len(ka):]):
            ib[k] = x
        bs = []
        for x, y in zip(ax, bx):
            v = const(0) if a.dims[x] == const(1) else ints.fresh_idx(a.dims[x])
            if not v.is_const():
                bs.append(terms._atom_of(v))
            ia[x] = ib[y] = v
        return terms.rsum(bs, fa(tuple(ia)) * fb(tuple(ib)))
    r = Arr([a.dims[k] for k in ka] + [b.dims[k] for k in kb], fn, 'f')
    return wrap(r.at(()), 'f') if not r.dims else r


from .arr import need_eq  # noqa


@np_fn
def kron(a, b):
    raise Unsupported('kron')


@np_fn
def diag(v):
    v = asarray(v)
    if len(v.dims) != 1:
        raise Unsupported('diag of a matrix')
    f = conv(v.snap(), v.kind, 'f')
    n = v.dims[0]
    return Arr([n, n], lambda i: terms.rcond(terms.Cond('eq', i[0] - i[1])) * f((i[0], )), 'f')


mod.diagflat = lambda v: diag(asarray(v).flatten())


@np_fn
def cross(a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
    if axis is not None:
        axisa = axisb = axisc = axis
    a, b = asarray(a), asarray(b)
    (xa, ), (xb, ) = axes_of(a, axisa), axes_of(b, axisb)
    for d in (a.dims[xa], b.dims[xb]):
        if norm(d) != const(3):
            if norm(d).is_const() and norm(d).value() != 2:
                raise ValueError('incompatible dimensions for cross product')
            raise Unsupported('cross product of vectors of unknown length')
    ra = a.dims[:xa] + a.dims[xa + 1:]
    rb = b.dims[:xb] + b.dims[xb + 1:]
    ba = a.blk[:xa] + a.blk[xa + 1:]
    bb = b.blk[:xb] + b.blk[xb + 1:]
    dims, blk, (ma, mb) = broadcast([(ra, ba), (rb, bb)])
    n = len(dims) + 1
    xc = axisc + n if axisc < 0 else axisc
    if any(blk):
        last = max(k for k, q in enumerate(blk) if q)
        if axisc >= 0 and axisc > last or axisc >= 0:
            raise Unsupported('axis of unknown rank')
    fa, fb = conv(a.snap(), a.kind, 'f'), conv(b.snap(), b.kind, 'f')

    def comp(f, m, x, i, c):
        j = tuple(m(i))
        return f(j[:x] + (const(c), ) + j[x:])

    def fn(i):
        c = norm(i[xc])
        rest = tuple(i[:xc]) + tuple(i[xc + 1:])

        def at(k):
            p, q = (k + 1) % 3, (k + 2) % 3
            return comp(fa, ma, xa, rest, p) * comp(fb, mb, xb, rest, q) - \
                comp(fa, ma, xa, rest, q) * comp(fb, mb, xb, rest, p)
        if c.is_const():
            return at(c.value())
        r = terms.ZERO
        for k in range(3):
            r = r + terms.rcond(terms.Cond('eq', c - k)) * at(k)
        return r
    return Arr(dims[:xc] + [const(3)] + dims[xc:], fn, 'f', tuple(blk[:xc]) + (False, ) + tuple(blk[xc:]))


@np_fn
def einsum(sub, *ops, **kw):
    if kw or not isinstance(sub, str):
        raise Unsupported('einsum form')
    sub = sub.replace(' ', '')
    ops = [asarray(o) for o in ops]
    if '->' in sub:
        ins, out = sub.split('->')
    else:
        ins = sub
        fl = ins.replace(',', '').replace('.', '')
        out = ('...' if '...' in ins else '') + ''.join(sorted(c for c in set(fl) if fl.count(c) == 1))
    ins = ins.split(',')
    if len(ins) != len(ops):
        raise ValueError('more/fewer operands provided to einstein sum function than subscripts')
    parsed, sizes = [], {}
    ell = []
    for s, o in zip(ins, ops):
        if '...' in s:
            pre, post = s.split('...')
            k = len(o.dims) - len(pre) - len(post)
            if k < 0:
                raise ValueError('einstein sum subscripts string contains too many subscripts for operand')
            if any(o.blk[:len(pre)]) or any(o.blk[len(o.dims) - len(post):] if post else ()):
                raise Unsupported('einsum label on unknown rank')
            ell.append((o.dims[len(pre):len(pre) + k], o.blk[len(pre):len(pre) + k]))
            labs = [(c, i) for i, c in enumerate(pre)] + [(c, len(pre) + k + i) for i, c in enumerate(post)]
            parsed.append((labs, list(range(len(pre), len(pre) + k)), len(ell) - 1))
        else:
            o.norank()
            if len(s) != len(o.dims):
                raise ValueError('einstein sum subscripts do not match operand')
            if s and not s.isalpha():
                raise ValueError('invalid subscript')
            parsed.append(([(c, i) for i, c in enumerate(s)], [], None))
        for c, i in parsed[-1][0]:
            d = norm(o.dims[i])
            if c not in sizes:
                sizes[c] = d
            elif sizes[c] == d or d == const(1):
                pass
            elif sizes[c] == const(1):
                sizes[c] = d
            elif path.branch(('c', terms.Cond('eq', sizes[c] - d))):
                pass
            elif path.branch(('c', terms.Cond('eq', d - 1))):
                pass
            elif path.branch(('c', terms.Cond('eq', sizes[c] - 1))):
                sizes[c] = d
            else:
                raise ValueError('operands could not be broadcast together')
    if ell:
        ed, eb, emaps = broadcast(ell)
    else:
        ed, eb, emaps = [], (), []
    if '...' in out:
        pre, post = out.split('...')
        odims = [sizes[c] for c in pre] + list(ed) + [sizes[c] for c in post]
        oblk = (False, ) * len(pre) + tuple(eb) + (False, ) * len(post)
        opos = {c: i for i, c in enumerate(pre)}
        opos.update({c: len(pre) + len(ed) + i for i, c in enumerate(post)})
        epos = range(len(pre), len(pre) + len(ed))
    else:
        if ed:
            raise ValueError('output has no ellipsis')
        for c in out:
            if c not in sizes:
                raise ValueError('einstein sum subscripts string included output subscript not in inputs')
        if len(set(out)) != len(out):
            raise ValueError('output subscript repeated')
        odims = [sizes[c] for c in out]
        oblk = (False, ) * len(out)
        opos = {c: i for i, c in enumerate(out)}
        epos = []
    red = [c for c in sizes if c not in opos]
    allint = all(o.kind == 'i' for o in ops)
    kd = 'i' if allint else 'f'
    fs = [conv(o.snap(), o.kind, kd) for o in ops]
    sizes = {c: norm(d) for c, d in sizes.items()}

    def term(i, val):
        t = None
        for (labs, eax, en), f, o in zip(parsed, fs, ops):
            idx = [None] * len(o.dims)
            for c, k in labs:
                v = i[opos[c]] if c in opos else val[c]
                idx[k] = const(0) if norm(o.dims[k]) == const(1) else v
            if en is not None:
                e = emaps[en](tuple(i[k] for k in epos))
                for k, x in zip(eax, e):
                    idx[k] = x
            x = f(tuple(idx))
            t = x if t is None else t * x
        return t

    def fn(i):
        if kd == 'i':
            if all(sizes[c].is_const() for c in red):
                import itertools
                s = const(0)
                for v in itertools.product(*[range(sizes[c].value()) for c in red]):
                    s = s + term(i, {c: const(x) for c, x in zip(red, v)})
                return norm(s)
            raise Unsupported('sum of a symbolic number of integers')
        val, bs = {}, []
        for c in red:
            v = const(0) if sizes[c] == const(1) else ints.fresh_idx(sizes[c])
            val[c] = v
            if not v.is_const():
                bs.append(terms._atom_of(v))
        return terms.rsum(bs, term(i, val))
    r = Arr(odims, fn, kd, oblk)
    return wrap(r.at(()), kd) if not odims else r


def _norm(a, ord=None, axis=None):
    a = asarray(a)
    if ord is None:
        ord = 2
    if axis is None:
        if len(a.dims) != 1 or any(a.blk):
            if ord != 2 or len(a.dims) != 1:
                raise Unsupported('matrix norm')
        p = to_R(ord)
        s = reduce_sum(unary('abs', a) ** mkreal(p) if not isinstance(ord, _int) else unary('abs', a) ** ord)
        return s ** (1 / ord)
    p = ord
    return reduce_sum(unary('abs', a) ** p, axis) ** (1 / p)


mod.linalg.norm = _norm
mod.linalg.solve = _solve


class RowSet:
    """the rows of a table of integers, each once (numpy.unique(axis=0)):
    sum over k of f(row k) = sum over all t of [t is a row] f(t)"""
    made = {}

    def __init__(self, cols):
        if builtins.len({builtins.len(c) for c in cols}) != 1:
            raise Unsupported('numpy.unique of a table')
        self.n = ints.dim('rows%d' % next(ints._uid))
        self.known = {}
        self.sizes = [None] * builtins.len(cols)
        self.alts = []
        for ps in zip(*cols):
            n = norm(ps[0].dims[0])
            if any(norm(p.dims[0]) != n for p in ps):
                raise Unsupported('numpy.unique: columns of different lengths')
            fs = [p.snap() for p in ps]
            hint = refine([comp_of(p) for p in ps])
            for comp in arr.factorizations(n, [hint] if hint else []):
                idx = [ints.fresh_idx(d) if d != const(1) else const(0) for d in comp]
                k = norm(ints.ravel(idx, comp))
                es = []
                for f in fs:
                    e = norm(f((k, )))
                    if not (e.is_const() or (one_atom(e) and builtins.any(e == x for x in idx))):
                        break
                    es.append(e)
                if builtins.len(es) == builtins.len(fs):
                    break
            else:
                raise Unsupported('numpy.unique: rows that are no index tuples')
            for x, e in enumerate(es):
                if not e.is_const():
                    d = norm(one_atom(e).size)
                    if self.sizes[x] is None:
                        self.sizes[x] = d
                    elif self.sizes[x] != d:
                        raise Unsupported('numpy.unique: columns of different ranges')
            self.alts.append(es)
        # a column that holds one constant only
        self.fixed = {}
        for x, d in enumerate(self.sizes):
            vs = {norm(es[x]).value() for es in self.alts if es[x].is_const()}
            if d is None:
                if builtins.len(vs) > 1:
                    raise Unsupported('numpy.unique: a column of constants')
                self.fixed[x] = es[x]
            elif not all(v >= 0 and ints.prove_ge(d - 1 - v) for v in vs):
                raise Unsupported('numpy.unique: a constant out of range')
        RowSet.made[one_atom(norm(self.n))] = self

    def row(self, k):
        k = norm(k)
        a = one_atom(k)
        if a is None or a.kind != 'idx' or norm(a.size) != norm(self.n):
            raise Unsupported('a row of numpy.unique')
        if a not in self.known:
            self.known[a] = [self.fixed[x] if x in self.fixed else ints.fresh_idx(d) if d != const(1) else const(0)
                             for x, d in enumerate(self.sizes)]
        return self.known[a]

    def holds(self, t):
        """1 if t is a row, 0 otherwise"""
        none = terms.ONE
        for es in self.alts:
            at, c = {}, terms.ONE
            for e, x in zip(es, t):
                if e.is_const():
                    c = c * terms.rcond(Cond('eq', x - e))
                elif one_atom(e) in at:
                    c = c * terms.rcond(Cond('eq', x - at[one_atom(e)]))
                else:
                    at[one_atom(e)] = x
            none = none * (terms.ONE - c)
        return terms.ONE - none


def one_atom(p):
    ms = builtins.list(norm(p).t.items())
    if builtins.len(ms) == 1 and ms[0][1] == 1 and builtins.len(ms[0][0]) == 1 and ms[0][0][0][1] == 1:
        return ms[0][0][0][0]
    return None


def expand_rows(bs, r):
    """binders over the rows of a RowSet become binders over all tuples"""
    out = []
    for b in bs:
        w = RowSet.made.get(one_atom(norm(b.size))) if b.kind == 'idx' else None
        if w is None:
            out.append(b)
            continue
        t = w.row(ints.atom(b))
        r = r * w.holds(t)
        out += [a for x in t for a in x.atoms()]
    return out, r


@np_fn
def unique(a, axis=None, **k):
    a = asarray(a)
    cols = rows_of(a, 'cols')
    if axis not in (0, ) or k or not cols:
        raise Unsupported('numpy.unique')
    w = RowSet(cols)

    def fn(i):
        x = norm(i[1])
        if not x.is_const():
            raise Unsupported('a column of numpy.unique')
        return w.row(i[0])[x.value()]
    return Arr([w.n, const(builtins.len(cols))], fn, 'i')


def missing(name):
    raise AttributeError(name)


def __getattr__(name):
    raise Unsupported('numpy.%s' % name)


mod.__getattr__ = __getattr__
