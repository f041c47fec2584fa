"""Symbolic Python values: integers, reals, booleans, shapes and arrays of any
size.  Only operations with an exact counterpart are defined; anything else
raises Unsupported and leaves the obligation undecided."""
import builtins
import itertools
import math
import numbers
from fractions import Fraction

from . import ints, terms, path
from .ints import I, Atom, Unsupported, const, lift, atom, prove_ge, norm
from .terms import R, Cond, rconst, rlift, rint

_int, _float, _bool = builtins.int, builtins.float, builtins.bool


def mkint(p):
    p = norm(p)
    return p.value() if p.is_const() else SymInt(p)


def mkreal(r):
    return SymReal(r)


def mkbool(f):
    d = path.decide_formula(f)
    return SymBool(f) if d is None else d


def is_num(x):
    return isinstance(x, (numbers.Number, SymInt, SymReal, Fraction))


def to_I(x):
    if isinstance(x, SymInt):
        return x.p
    if isinstance(x, I):
        return x
    if isinstance(x, _bool):
        return const(_int(x))
    if isinstance(x, _int):
        return const(x)
    if isinstance(x, Arr) and not x.dims and x.kind == 'i':
        return x.at(())
    if isinstance(x, Arr) and x.kind == 'i' and all(norm(d) == const(1) for d in x.dims):
        return x.at(tuple(const(0) for _ in x.dims))
    raise Unsupported('not an integer: %r' % (x,))


def to_R(x):
    if isinstance(x, SymReal):
        return x.r
    if isinstance(x, SymInt):
        return rint(x.p)
    if isinstance(x, R):
        return x
    if isinstance(x, I):
        return rint(x)
    if isinstance(x, (_bool, _int, Fraction, _float)):
        return rlift(x)
    raise Unsupported('not a real: %r' % (type(x),))


def to_F(x):
    if isinstance(x, SymBool):
        return x.f
    if isinstance(x, _bool):
        return ('T',) if x else ('F',)
    if isinstance(x, tuple):
        return x
    raise Unsupported('not a boolean: %r' % (x,))


class SymBool:
    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return path.branch(self.f)

    def __and__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return mkbool(path.fjoin('and', self.f, to_F(o)))

    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, Arr):
            return NotImplemented
        return mkbool(path.fjoin('or', self.f, to_F(o)))

    __ror__ = __or__

    def __invert__(self):
        return mkbool(path.fnot(self.f))

    def __eq__(self, o):
        if isinstance(o, _bool):
            return self if o else ~self
        raise Unsupported('comparison of conditions')

    def __ne__(self, o):
        return ~(self == o)

    __hash__ = None

    def any(self):
        return self

    def all(self):
        return self


def icmp(op, a, b):
    d = to_I(a) - to_I(b)
    if op == 'eq':
        return mkbool(('c', Cond('eq', d)))
    if op == 'ne':
        return mkbool(('c', Cond('ne', d)))
    if op == 'lt':
        return mkbool(('c', Cond('ge', -d - 1)))
    if op == 'le':
        return mkbool(('c', Cond('ge', -d)))
    if op == 'gt':
        return mkbool(('c', Cond('ge', d - 1)))
    return mkbool(('c', Cond('ge', d)))


def rcmpf(op, a, b):
    a, b = to_R(a), to_R(b)
    if op == 'eq':
        return ('c', Cond('req', _sgn(a - b)))
    if op == 'ne':
        return ('c', Cond('rne', _sgn(a - b)))
    if op == 'lt':
        return ('c', Cond('rlt', a - b))
    if op == 'le':
        return ('c', Cond('rge', b - a))
    if op == 'gt':
        return ('c', Cond('rlt', b - a))
    return ('c', Cond('rge', a - b))


def _sgn(r):
    r = terms.canon(r)
    if r.t and terms._lead_neg(r):
        return -r
    return r


def _isint(x):
    return isinstance(x, (SymInt, _int))


class SymInt:
    __slots__ = ('p',)
    _pycls = _int

    def __init__(self, p):
        self.p = p

    def _bin(self, o, f, g):
        if isinstance(o, (SymInt, _int)):
            return f(self.p, to_I(o))
        if isinstance(o, (_float, Fraction, SymReal)):
            return g(to_R(self), to_R(o))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: mkint(a + b), lambda a, b: mkreal(a + b))

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mkint(a - b), lambda a, b: mkreal(a - b))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: mkint(b - a), lambda a, b: mkreal(b - a))

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            raise Unsupported('sequence of symbolic length')
        return self._bin(o, lambda a, b: mkint(a * b), lambda a, b: mkreal(a * b))

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: mkreal(rint(a) / rint(b)), lambda a, b: mkreal(a / b))

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: mkreal(rint(b) / rint(a)), lambda a, b: mkreal(b / a))

    def __floordiv__(self, o):
        return mkint(ints.idiv(self.p, _pos(o)))

    def __mod__(self, o):
        return mkint(ints.imod(self.p, _pos(o)))

    def __rfloordiv__(self, o):
        return mkint(ints.idiv(to_I(o), _pos(self)))

    def __rmod__(self, o):
        return mkint(ints.imod(to_I(o), _pos(self)))

    def __pow__(self, o):
        if isinstance(o, _int) and o >= 0:
            return mkint(self.p ** o)
        return mkreal(terms.rpow(rint(self.p), to_R(o)))

    def __rpow__(self, o):
        return mkreal(terms.rpow(to_R(o), rint(self.p)))

    def __neg__(self):
        return mkint(-self.p)

    def __pos__(self):
        return self

    def __abs__(self):
        if prove_ge(self.p):
            return self
        raise Unsupported('abs of an integer')

    def __eq__(self, o):
        if isinstance(o, (SymInt, _int)):
            return icmp('eq', self, o)
        if isinstance(o, (_float, SymReal, Fraction)):
            return mkbool(rcmpf('eq', self, o))
        if isinstance(o, Arr):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, _bool) else ~r

    def _cmp(self, op, o):
        if isinstance(o, (SymInt, _int)):
            return icmp(op, self, o)
        if isinstance(o, (_float, SymReal, Fraction)):
            if o == math.inf or o == -math.inf:
                return (o > 0) == (op in ('lt', 'le'))
            return mkbool(rcmpf(op, self, o))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp('lt', o)

    def __le__(self, o):
        return self._cmp('le', o)

    def __gt__(self, o):
        return self._cmp('gt', o)

    def __ge__(self, o):
        return self._cmp('ge', o)

    def __hash__(self):
        return 7            # equal values may have different terms

    def __bool__(self):
        return _bool(icmp('ne', self, 0))

    def __index__(self):
        raise Unsupported('a symbolic integer is needed as a number: %r' % self.p)

    __int__ = __index__

    def __float__(self):
        raise Unsupported('a symbolic integer is needed as a float')

    def __repr__(self):
        return '<%r>' % self.p

    __str__ = __repr__

    # scalars of NumPy type
    def item(self):
        return self

    def astype(self, t):
        return self if kind_of(t) == 'i' else mkreal(to_R(self))

    @property
    def shape(self):
        return ()


def _pos(o):
    p = to_I(o)
    if not prove_ge(p - 1):
        raise Unsupported('divisor not known positive')
    return p


class SymReal:
    __slots__ = ('r',)
    _pycls = _float
    ndim = 0

    def __init__(self, r):
        self.r = rlift(r)

    def _bin(self, o, f):
        if is_num(o):
            return mkreal(f(self.r, to_R(o)))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, terms.udiv)

    def __rtruediv__(self, o):
        return self._bin(o, lambda a, b: terms.udiv(b, a))

    def __pow__(self, o):
        return self._bin(o, terms.upow)

    def __rpow__(self, o):
        return self._bin(o, lambda a, b: terms.rpow(b, a))

    def __neg__(self):
        return mkreal(-self.r)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(terms.rfun('abs', self.r))

    def _cmp(self, op, o):
        if is_num(o):
            if isinstance(o, _float) and o in (math.inf, -math.inf):
                return (o > 0) == (op in ('lt', 'le', 'ne'))
            return mkbool(rcmpf(op, self, o))
        return NotImplemented

    def __eq__(self, o):
        r = self._cmp('eq', o)
        return False if r is NotImplemented and not isinstance(o, Arr) else r

    def __ne__(self, o):
        r = self._cmp('ne', o)
        return True if r is NotImplemented and not isinstance(o, Arr) else r

    def __lt__(self, o):
        return self._cmp('lt', o)

    def __le__(self, o):
        return self._cmp('le', o)

    def __gt__(self, o):
        return self._cmp('gt', o)

    def __ge__(self, o):
        return self._cmp('ge', o)

    def __hash__(self):
        return hash(terms.canon(self.r))

    def __bool__(self):
        return _bool(mkbool(rcmpf('ne', self, 0)))

    def __float__(self):
        if self.r.is_const():
            return _float(self.r.value())
        raise Unsupported('a symbolic real is needed as a float')

    def __repr__(self):
        return '<%r>' % self.r

    __str__ = __repr__

    @property
    def shape(self):
        return ()

    size = 1

    def flatten(self):
        return asarray(self).reshape(1)

    ravel = flatten

    def item(self):
        return self

    def copy(self):
        return self

    def reshape(self, *s):
        return asarray(self).reshape(*s)

    def astype(self, t):
        if kind_of(t) == 'f':
            return self
        raise Unsupported('truncation')


numbers.Number.register(SymInt)
numbers.Number.register(SymReal)
numbers.Real.register(SymReal)
numbers.Integral.register(SymInt)


# ---------------------------------------------------------------- shapes
class Blk:
    """a run of axes of unknown number and sizes; total size n"""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return '*%r' % self.n

    def __eq__(self, o):
        raise Unsupported('rank of a shape')

    __hash__ = None


class SymShape(tuple):
    """a shape of unknown rank: runs (Blk) and single axes"""

    def __new__(cls, parts):
        return tuple.__new__(cls, parts)

    def parts(self):
        return [p for p in tuple.__iter__(self)]

    def resolved(self):
        """a plain tuple when the path knows the rank"""
        out = []
        for p in self.parts():
            if isinstance(p, Blk):
                if p.n in ints.FACTS.blk1:
                    out.append(1)
                else:
                    return None
            else:
                out.append(p)
        return tuple(out)

    def _need(self, what):
        r = self.resolved()
        if r is None:
            raise Unsupported('%s of a shape of unknown rank' % what)
        return r

    def __len__(self):
        return len(self._need('length'))

    def __iter__(self):
        return iter(self._need('iteration'))

    def __getitem__(self, k):
        return self._need('item')[k]

    def __contains__(self, k):
        return k in self._need('membership')

    def index(self, *a):
        return self._need('index').index(*a)

    def count(self, *a):
        return self._need('count').count(*a)

    def __add__(self, o):
        r = self.resolved()
        if r is not None:
            return r + tuple(o)
        if isinstance(o, SymShape):
            return SymShape(self.parts() + o.parts())
        if isinstance(o, tuple):
            return SymShape(self.parts() + list(o))
        return NotImplemented

    def __radd__(self, o):
        r = self.resolved()
        if r is not None:
            return tuple(o) + r
        return SymShape(list(o) + self.parts())

    def __mul__(self, o):
        raise Unsupported('repetition of a shape')

    __rmul__ = __mul__

    def __eq__(self, o):
        if self is o:
            return True
        r = self.resolved()
        if r is not None:
            return r == o
        if isinstance(o, SymShape):
            q = o.resolved()
            if q is None:
                a, b = self.parts(), o.parts()
                if len(a) == len(b) and all(_samepart(x, y) for x, y in zip(a, b)):
                    return True
                if len(a) == 1 and len(b) == 1 and isinstance(a[0], Blk) and isinstance(b[0], Blk):
                    n, m = sorted((a[0].n, b[0].n), key=lambda z: repr(z.key))
                    if path.branch(('x', 'same shape', n, m)):
                        path.assume(('c', Cond('eq', n - m)))
                        return True
                    return False
                raise Unsupported('comparison of shapes of unknown rank')
            o = q
        if isinstance(o, tuple):
            a = self.parts()
            if len(o) == 1 and len(a) == 1 and o[0] == 1:
                if path.branch(('x', 'shape is (1,)', a[0].n)):
                    path.assume(('c', Cond('eq', a[0].n - 1)))
                    ints.FACTS.blk1.add(a[0].n)
                    return True
                return False
            if len(o) == 0:
                return False
            raise Unsupported('comparison of a shape of unknown rank')
        return False

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __repr__(self):
        return 'SymShape%r' % (self.parts(),)

    __str__ = __repr__


def _samepart(a, b):
    if isinstance(a, Blk) != isinstance(b, Blk):
        return False
    if isinstance(a, Blk):
        return a.n == b.n
    return to_I(a) == to_I(b)


def parse_shape(s):
    """-> (dims list of I, blk tuple of bool)"""
    if isinstance(s, SymShape):
        r = s.resolved()
        if r is None:
            return [p.n if isinstance(p, Blk) else to_I(p) for p in s.parts()], \
                tuple(isinstance(p, Blk) for p in s.parts())
        s = r
    if isinstance(s, (_int, SymInt)):
        s = (s, )
    if isinstance(s, Arr):
        s = list(s) if s.dims else [s.item()]
    ds = []
    for d in s:
        if isinstance(d, Blk):
            raise Unsupported('part of a shape of unknown rank')
        d = norm(to_I(d))
        if d.is_const() and d.value() < 0:
            raise ValueError('negative dimensions are not allowed')
        ds.append(d)
    return ds, (False, ) * len(ds)


def mkshape(dims, blk):
    if any(b and norm(d) not in ints.FACTS.blk1 and d not in ints.FACTS.blk1 for d, b in zip(dims, blk)):
        return SymShape([Blk(d) if b else mkint(d) for d, b in zip(dims, blk)])
    return tuple(mkint(d) for d in dims)


def kind_of(t):
    if t is None:
        return None
    n = t if isinstance(t, str) else getattr(t, '__name__', str(t))
    if n.startswith('int') or n.startswith('uint'):
        return 'i'
    if n.startswith('float') or n == 'd':
        return 'f'
    if n.startswith('bool'):
        return 'b'
    raise Unsupported('dtype %s' % n)


# ---------------------------------------------------------------- arrays
class Store:
    def __init__(self, dims, fn, kind, ro=None):
        self.dims, self.fn, self.kind, self.ro = dims, memo(fn), kind, ro
        self.version = 0
        Store.count += 1
        self.serial = Store.count

    count = 0

    def write(self, fn):
        if self.ro:
            raise FrameError('assignment destination is read-only: ' + self.ro)
        self.fn = memo(fn)
        self.version += 1
        if Store.log is not None:
            Store.log.append(self)

    log = None


class FrameError(ValueError):
    pass


def memo(fn):
    d = {}

    def f(idx):
        k = tuple(idx)
        if k not in d:
            d[k] = fn(k)
        return d[k]
    return f


def prodI(ds):
    return ints.prod(ds)


class Masked:
    """the elements of an array that a boolean mask selects"""

    def __init__(self, mask, fn):
        self.mask, self.fn = mask, fn


def fkey_of(f):
    return repr(path.fkey(f))


class Arr:
    __array_priority__ = 100

    def __init__(self, dims, fn=None, kind='f', blk=None, store=None, to=None, inv=None, contig=True):
        self.dims = [norm(d) for d in dims]
        self.blk = tuple(_bool(b) and d not in ints.FACTS.blk1 for b, d in zip(blk, dims)) if blk else \
            (False, ) * len(self.dims)
        self.store = store or Store(self.dims, fn, kind)
        self.to = to            # view idx -> base idx
        self.inv = inv          # base idx -> (conds, view idx)
        self.contig = contig
        self.flatsrc = None     # (flat array, dims) for unravelled indices
        self._tag = None

    # --- basics
    @property
    def kind(self):
        return self.store.kind

    @property
    def shape(self):
        return mkshape(self.dims, self.blk)

    @shape.setter
    def shape(self, s):
        raise Unsupported('assignment to shape')

    @property
    def size(self):
        return mkint(prodI(self.dims))

    @property
    def ndim(self):
        if isinstance(self.shape, SymShape):
            # the rank of a run is unknown but at least one
            r = norm(sum((ints.dim('rank(%r)' % (p.n.key, )) if isinstance(p, Blk) else const(1)
                          for p in self.shape.parts()), const(0)))
            return SymInt(r)
        return len(self.dims)

    @property
    def T(self):
        return transpose(self)

    @property
    def dtype(self):
        return {'f': _float, 'i': _int, 'b': _bool}[self.kind]

    @property
    def flags(self):
        class F:
            writeable = not self.store.ro
        return F()

    def norank(self):
        if isinstance(self.shape, SymShape):
            raise Unsupported('axis of an array of unknown rank')

    def __len__(self):
        self.norank()
        if not self.dims:
            raise TypeError('len() of unsized object')
        n = self.dims[0]
        if n.is_const():
            return n.value()
        raise Unsupported('length of an array of symbolic size')

    def snap(self):
        f = self.store.fn
        if self.to is None:
            return f
        to = self.to
        return memo(lambda idx: f(tuple(norm(x) for x in to(idx))))

    def at(self, idx):
        return self.snap()(tuple(norm(lift(x)) for x in idx))

    def item(self, *a):
        if not a:
            if all(d == const(1) for d in self.dims):
                return wrap(self.at(tuple(const(0) for _ in self.dims)), self.kind)
            raise Unsupported('item of an array')
        return self[tuple(a)]

    def tolist(self):
        if not self.dims:
            return self.item()
        return [x.tolist() if isinstance(x, Arr) else x for x in self]

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __repr__(self):
        idx = [ints.fresh_idx(d) for d in self.dims]
        try:
            e = self.at(idx)
        except Unsupported as x:
            e = x
        return 'Arr%r[%r -> %r]' % (tuple(self.dims), idx, e)

    __str__ = __repr__
    __hash__ = None

    def __bool__(self):
        if all(d == const(1) for d in self.dims):
            e = self.at(tuple(const(0) for _ in self.dims))
            if self.kind == 'b':
                return path.branch(e)
            return _bool(wrap(e, self.kind) != 0)
        if any(prove_ge(d - 2) for d in self.dims):
            raise ValueError('The truth value of an array with more than one element is ambiguous')
        if path.branch(('c', Cond('eq', prodI(self.dims) - 1))):
            return _bool(self.reshape(1))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __float__(self):
        return _float(self.item())

    def __index__(self):
        v = self.item()
        if isinstance(v, _int):
            return v
        raise Unsupported('a symbolic integer is needed as a number')

    __int__ = __index__

    # --- copies and views
    def copy(self, order='C'):
        return Arr(self.dims, self.snap(), self.kind, self.blk)

    def flatten(self, order='C'):
        if order != 'C':
            raise Unsupported('order')
        return self._flat(copy=True)

    def ravel(self, order='C'):
        return self.reshape(-1)

    def _flat(self, copy):
        d = [prodI(self.dims)]
        dims = self.dims
        f = self.snap()
        if len(dims) == 1 and not self.blk[0]:
            return Arr(d, f, self.kind)
        return Arr(d, lambda i: f(ints.unravel(i[0], dims)), self.kind)

    def reshape(self, *s, order='C'):
        if order != 'C':
            raise Unsupported('order')
        if len(s) == 1:
            s = s[0]
        if isinstance(s, (_int, SymInt)):
            s = (s, )
        if isinstance(s, SymShape):
            nd, nb = parse_shape(s)
        else:
            s = list(s)
            neg = [k for k, v in enumerate(s) if isinstance(v, _int) and v == -1]
            if neg:
                tot = prodI(self.dims)
                rest = prodI([to_I(v) for k, v in enumerate(s) if k != neg[0]])
                q = ints.idiv(tot, rest)
                if norm(q * rest) != norm(tot):
                    raise Unsupported('reshape with -1')
                s[neg[0]] = mkint(q)
            nd, nb = parse_shape(tuple(s))
        a, b = norm(prodI(self.dims)), norm(prodI(nd))
        if a != b and not path.branch(('c', Cond('eq', a - b))):
            raise ValueError('cannot reshape array')
        dims = self.dims
        if [x for x in dims] == nd and self.blk == nb:
            return self._same()
        to0, inv0 = self.to or (lambda i: i), self.inv

        def to(i):
            return to0(ints.unravel(ints.ravel(i, nd), dims))

        def inv(bi):
            c, i = inv0(bi) if inv0 else ([], bi)
            return c, ints.unravel(ints.ravel(i, dims), nd)
        if not self.contig:
            f = self.snap()
            return Arr(nd, lambda i: f(ints.unravel(ints.ravel(i, nd), dims)), self.kind, nb)
        return Arr(nd, None, self.kind, nb, store=self.store, to=to, inv=inv)

    def _same(self):
        return Arr(self.dims, None, self.kind, self.blk, store=self.store, to=self.to, inv=self.inv, contig=self.contig)

    def transpose(self, *axes):
        if len(axes) == 1 and not isinstance(axes[0], (_int, SymInt)):
            axes = axes[0]
        return transpose(self, axes or None)

    def swapaxes(self, a, b):
        p = list(range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return transpose(self, p)

    def squeeze(self, axis=None):
        self.norank()
        if axis is not None:
            raise Unsupported('squeeze')
        keep = []
        for k, d in enumerate(self.dims):
            if not _bool(mkbool(('c', Cond('eq', d - 1)))):
                keep.append(d)
        return self.reshape(tuple(mkint(d) for d in keep))

    def astype(self, t, copy=True):
        k = kind_of(t)
        f = self.snap()
        return Arr(self.dims, conv(f, self.kind, k), k, self.blk)

    def fill(self, v):
        self[...] = v

    # --- reductions
    def sum(self, axis=None, **k):
        return reduce_sum(self, axis)

    def mean(self, axis=None):
        return average(self, axis)

    def max(self, axis=None):
        return reduce_ext('max', self, axis)

    def min(self, axis=None):
        return reduce_ext('min', self, axis)

    def prod(self):
        return reduce_prod(self)

    def any(self):
        return reduce_any(self)

    def all(self):
        return mkbool(path.fnot(to_F(reduce_any(~self))))

    def dot(self, o):
        return dot(self, o)

    # --- indexing
    def _basic(self, key):
        """key -> (out dims, blk, to(view idx)->self idx, inv(self idx)->(conds, view idx)) or None for fancy keys"""
        if not isinstance(key, tuple):
            key = (key, )
        key = list(key)
        for k in key:
            if isinstance(k, (Arr, list)) or isinstance(k, SymBool):
                return None
        nk = sum(1 for k in key if k is not None and k is not Ellipsis)
        if Ellipsis in [k for k in key if not isinstance(k, (SymInt, _int, slice))]:
            e = [i for i, k in enumerate(key) if k is Ellipsis]
            if len(e) > 1:
                raise IndexError('ellipsis twice')
            fill = len(self.dims) - nk
            if fill < 0:
                raise IndexError('too many indices for array')
            key[e[0]:e[0] + 1] = [slice(None)] * fill
        else:
            if nk > len(self.dims):
                raise IndexError('too many indices for array')
            key += [slice(None)] * (len(self.dims) - nk)
            # trailing full slices over a run are fine
        out, blk, plan = [], [], []
        ax = 0
        for k in key:
            if k is None:
                out.append(const(1))
                blk.append(False)
                plan.append(('new', None))
                continue
            d, b = self.dims[ax], self.blk[ax]
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    plan.append(('full', ax))
                    out.append(d)
                    blk.append(b)
                else:
                    if b:
                        raise Unsupported('slice of a run of axes')
                    st, n, step = slice_bounds(k, d)
                    plan.append(('slice', ax, st, n, step))
                    out.append(n)
                    blk.append(False)
            else:
                if b:
                    raise Unsupported('index of a run of axes')
                p = norm(to_I(k))
                if p.is_const() and p.value() < 0:
                    p = p + d
                if not (prove_ge(p) and prove_ge(d - 1 - p)):
                    if not path.branch(('c', Cond('ge', p))) or not path.branch(('c', Cond('ge', d - 1 - p))):
                        raise IndexError('index out of bounds')
                plan.append(('int', ax, p))
            ax += 1

        def to(vi):
            res, j = [None] * len(self.dims), 0
            for pl in plan:
                if pl[0] == 'new':
                    j += 1
                elif pl[0] == 'full':
                    res[pl[1]] = vi[j]
                    j += 1
                elif pl[0] == 'slice':
                    res[pl[1]] = pl[2] + vi[j] * pl[4]
                    j += 1
                else:
                    res[pl[1]] = pl[2]
            return tuple(res)

        def inv(si):
            conds, vi = [], []
            for pl in plan:
                if pl[0] == 'new':
                    vi.append(const(0))
                elif pl[0] == 'full':
                    vi.append(si[pl[1]])
                elif pl[0] == 'slice':
                    _, a, st, n, step = pl
                    x = si[a] - st
                    if step != const(1):
                        if not (step.is_const() and step.value() > 0):
                            raise Unsupported('write to a strided slice')
                        conds.append(Cond('eq', ints.imod(x, step)))
                        x = ints.idiv(x, step)
                    conds.append(Cond('ge', x))
                    conds.append(Cond('ge', n - 1 - x))
                    vi.append(x)
                else:
                    conds.append(Cond('eq', si[pl[1]] - pl[2]))
            return conds, tuple(vi)
        full = all(pl[0] in ('full', 'new') for pl in plan)
        return out, blk, to, inv, full

    def __getitem__(self, key):
        b = self._basic(key)
        if b is None:
            return self._fancy_get(key)
        out, blk, to1, inv1, full = b
        to0, inv0 = self.to or (lambda i: i), self.inv

        def inv(bi):
            c, i = inv0(bi) if inv0 else ([], bi)
            c2, v = inv1(i)
            return c + c2, v
        v = Arr(out, None, self.kind, blk, store=self.store, to=lambda i: to0(to1(i)), inv=inv,
                contig=self.contig and full)
        if not out:
            return wrap(v.at(()), self.kind)
        return v

    def __setitem__(self, key, val):
        b = self._basic(key)
        if b is None:
            return self._fancy_set(key, val)
        out, blk, to1, inv1, full = b
        to0, inv0 = self.to or (lambda i: i), self.inv

        def inv(bi):
            c, i = inv0(bi) if inv0 else ([], bi)
            c2, v = inv1(i)
            return c + c2, v
        g = bcast_to(val, out, blk, self.kind, assign=True)
        old = self.store.fn
        kind = self.kind

        def new(bi):
            c, v = inv(bi)
            live = []
            for x in c:
                d = terms.decide(x)
                if d is False:
                    return old(bi)
                if d is None:
                    live.append(x)
            if not live:
                return g(tuple(norm(x) for x in v))
            e = g(tuple(norm(x) for x in v))
            if kind == 'f':
                ind = terms.ONE
                for x in live:
                    ind = ind * terms.rcond(x)
                o = old(bi)
                if len(live) == 1:
                    return ind * e + terms.rcond(live[0].neg()) * o
                return ind * e + (terms.ONE - ind) * o
            if kind == 'b':
                f = path.fjoin('and', *[('c', x) for x in live])
                return path.fjoin('or', path.fjoin('and', f, e), path.fjoin('and', path.fnot(f), old(bi)))
            if e == old(bi):
                return e
            raise Unsupported('conditional integer element')
        self.store.write(new)

    def _ixs(self, key):
        if not isinstance(key, tuple):
            key = (key, )
        ks = []
        for k in key:
            if isinstance(k, (list, tuple)):
                k = asarray(k)
            if isinstance(k, (_int, SymInt)):
                k = asarray(k)
            if not isinstance(k, Arr) or k.kind != 'i':
                raise Unsupported('mixed or boolean index')
            ks.append(k)
        if any(self.blk):
            raise Unsupported('index of an array of unknown rank')
        if len(ks) > len(self.dims):
            raise IndexError('too many indices for array')
        return ks

    def _fancy_get(self, key):
        m = self._mask(key)
        if m is not None:
            return Masked(Arr(m.dims, m.snap(), 'b', m.blk), conv(self.snap(), self.kind, 'f'))
        ks = self._ixs(key)
        idims, iblk, maps = broadcast([(k.dims, k.blk) for k in ks])
        fs = [k.snap() for k in ks]
        f = self.snap()
        nd = len(idims)
        probe = [ints.fresh_idx(d) for d in idims]
        wrapneg = []
        for fk, m, d in zip(fs, maps, self.dims):
            try:
                e = norm(fk(m(probe)))
            except NeedCases:
                # a short table of positions: one by one
                for pos in itertools.product(*[range(norm(x).value() if norm(x).is_const() else 10 ** 9) for x in idims]):
                    pos = [const(x) for x in pos]
                    e = norm(fk(m(pos)))
                    in_range(e + d if e.is_const() and e.value() < 0 else e, d, idims, pos)
                wrapneg.append(True)
                continue
            neg = e.is_const() and e.value() < 0
            if neg:
                e = e + d
            in_range(e, d, idims, probe)
            wrapneg.append(neg)
        dims = self.dims

        def fn(i):
            ii = []
            for fk, m, d, ng in zip(fs, maps, dims, wrapneg):
                e = norm(fk(m(i[:nd])))
                if e.is_const() and e.value() < 0:
                    e = e + d
                ii.append(e)
            return f(tuple(ii) + tuple(i[nd:]))
        r = Arr(idims + self.dims[len(ks):], fn, self.kind, iblk + self.blk[len(ks):])
        if not r.dims:
            return wrap(r.at(()), self.kind)
        return r

    def _mask(self, key):
        """boolean mask of all elements, or None"""
        if isinstance(key, Arr) and key.kind == 'b':
            n1 = ints.FACTS.blk1
            if list(map(norm, key.dims)) != list(map(norm, self.dims)) or any(
                    p != q and not {d, norm(d)} & n1 and norm(d) != const(1)
                    for d, p, q in zip(self.dims, key.blk, self.blk)):
                raise Unsupported('mask of another shape')
            return key
        return None

    def _mask_set(self, m, val):
        if self.to is not None or self.kind != 'f':
            raise Unsupported('mask assignment through a view')
        if isinstance(val, Masked):
            pr = [ints.fresh_idx(d) if norm(d) != const(1) else const(0) for d in self.dims]
            if fkey_of(m.at(pr)) != fkey_of(val.mask.at(pr)):
                raise Unsupported('assignment of elements of another mask')
            g = val.fn
        else:
            val = asarray(val)
            if val.dims:
                raise Unsupported('mask assignment of an array')
            g0 = conv(val.snap(), val.kind, 'f')
            g = lambda i: g0(())
        q, old = m.snap(), self.store.fn

        def new(i):
            f = q(i)
            d = path.decide_formula(f)
            if d is not None:
                return g(i) if d else old(i)
            if f[0] == 'c':
                return terms.rite(f[1], g(i), old(i))
            z = conv(lambda _: f, 'b', 'f')(i)
            return z * g(i) + (terms.ONE - z) * old(i)
        self.store.write(new)

    def _fancy_set(self, key, val):
        m = self._mask(key)
        if m is not None:
            return self._mask_set(m, val)
        ks = self._ixs(key)
        idims, iblk, maps = broadcast([(k.dims, k.blk) for k in ks])
        if len(ks) < len(self.dims):
            raise Unsupported('partial fancy assignment')
        if self.inv is not None:
            raise Unsupported('fancy assignment through a view')
        if self.kind != 'f':
            raise Unsupported('fancy assignment of integers')
        g = bcast_to(val, idims, iblk, 'f', assign=True)
        fs = [(lambda i, k=k.snap(), m=m: norm(k(m(i)))) for k, m in zip(ks, maps)]
        src = common_flat(ks, self.dims)
        n = prodI(idims)
        # composite index in which the index arrays are plain
        comp = None
        for cd in factorizations(n, [self.dims] + [idims]):
            kk = [ints.fresh_idx(d) for d in cd]
            i = ints.unravel(ints.ravel(kk, cd), idims)
            for flat in ((False, True) if src else (False, )):
                try:
                    es = [src(i)] if flat else [f(i) for f in fs]
                except Unsupported:
                    continue
                if not any(hasdiv(e) for e in es):
                    comp = (cd, kk, i, es, flat)
                    break
            if comp:
                break
        if comp is None:
            raise Unsupported('fancy assignment: index arrays not understood')
        cd, kk, i, es, src = comp
        # injective: every composite index occurs alone (or under an injective map)
        kat = {terms._atom_of(k) for k in kk if not k.is_const()}
        for k, d in zip(kk, cd):
            if d == const(1):
                continue
            ka = terms._atom_of(k)
            for e in es:
                if inj_arg(e) is not None and inj_arg(e) == norm(ints.ravel(kk, cd)):
                    break
                if e.all_atoms() & kat == {ka}:
                    sp = ints._lin_split(e, ka)
                    if sp is not None and ka not in sp[1].all_atoms() and (prove_ge(sp[1] - 1) or prove_ge(-sp[1] - 1)):
                        break
            else:
                raise Unsupported('fancy assignment: indices not known distinct')
        old = self.store.fn
        dims = self.dims

        def new(bi):
            k2 = [ints.fresh_idx(d) for d in cd]
            env = {terms._atom_of(a): b for a, b in zip(kk, k2) if not a.is_const()}
            vi = tuple(norm(ints.subst(x, env)) for x in i)
            if src:
                tgt = [(norm(ints.subst(es[0], env)), norm(ints.ravel(bi, dims)))]
            else:
                tgt = [(norm(ints.subst(e, env)), b) for e, b in zip(es, bi)]
            ind = terms.ONE
            for e, b in tgt:
                c = Cond('eq', e - b)
                d = terms.decide(c)
                if d is False:
                    ind = terms.ZERO
                    break
                if d is None:
                    ind = ind * terms.rcond(c)
            bs = [terms._atom_of(x) for x in k2 if not x.is_const()]
            o = old(bi)
            hit = terms.rsum(bs, ind)
            return terms.rsum(bs, ind * g(vi)) + o - hit * o
        self.store.write(new)

    # --- arithmetic
    def __add__(self, o):
        return elementwise('add', self, o)

    def __radd__(self, o):
        return elementwise('add', o, self)

    def __sub__(self, o):
        return elementwise('sub', self, o)

    def __rsub__(self, o):
        return elementwise('sub', o, self)

    def __mul__(self, o):
        return elementwise('mul', self, o)

    def __rmul__(self, o):
        return elementwise('mul', o, self)

    def __truediv__(self, o):
        return elementwise('div', self, o)

    def __rtruediv__(self, o):
        return elementwise('div', o, self)

    def __floordiv__(self, o):
        return elementwise('fdiv', self, o)

    def __mod__(self, o):
        return elementwise('mod', self, o)

    def __pow__(self, o):
        return elementwise('pow', self, o)

    def __rpow__(self, o):
        return elementwise('pow', o, self)

    def __neg__(self):
        return elementwise('sub', 0, self)

    def __pos__(self):
        return self.copy()

    def __abs__(self):
        return unary('abs', self)

    def __matmul__(self, o):
        return matmul(self, o)

    def __rmatmul__(self, o):
        return matmul(asarray(o), self)

    def _inplace(self, op, o):
        r = elementwise(op, self, o)
        if not isinstance(r, Arr):
            r = asarray(r)
        if r.kind != self.kind and not (self.kind == 'f' and r.kind == 'i'):
            raise TypeError('Cannot cast ufunc output')
        if len(r.dims) > len(self.dims):
            raise ValueError('non-broadcastable output operand')
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._inplace('add', o)

    def __isub__(self, o):
        return self._inplace('sub', o)

    def __imul__(self, o):
        return self._inplace('mul', o)

    def __itruediv__(self, o):
        return self._inplace('div', o)

    def __ipow__(self, o):
        return self._inplace('pow', o)

    def __eq__(self, o):
        if o is None:
            return elementwise_const(self, ('F', ))
        return elementwise('eq', self, o)

    def __ne__(self, o):
        if o is None:
            return elementwise_const(self, ('T', ))
        return elementwise('ne', self, o)

    def __lt__(self, o):
        return elementwise('lt', self, o)

    def __le__(self, o):
        return elementwise('le', self, o)

    def __gt__(self, o):
        return elementwise('gt', self, o)

    def __ge__(self, o):
        return elementwise('ge', self, o)

    def __and__(self, o):
        return elementwise('and', self, o)

    __rand__ = __and__

    def __or__(self, o):
        return elementwise('or', self, o)

    __ror__ = __or__

    def __invert__(self):
        f = self.snap()
        if self.kind != 'b':
            raise Unsupported('~ of integers')
        return Arr(self.dims, lambda i: path.fnot(f(i)), 'b', self.blk)


def elementwise_const(a, e):
    return Arr(a.dims, lambda i: e, 'b', a.blk)


def inj_arg(e):
    """argument of an injective map"""
    if len(e.t) == 1:
        (m, c), = e.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'op' and m[0][0].name in ints.INJ:
            return norm(m[0][0].args[0])
    return None


def in_range(e, d, idims, probe):
    raw = hasdiv(e)
    if not raw and prove_ge(e) and prove_ge(d - 1 - e):
        return
    for cd in factorizations(prodI(idims), [idims, [d]]):
        kk = [ints.fresh_idx(x) for x in cd]
        i = ints.unravel(ints.ravel(kk, cd), idims)
        env = {terms._atom_of(p): norm(v) for p, v in zip(probe, i) if not p.is_const()}
        q = norm(ints.subst(e, env))
        if hasdiv(q):
            continue
        if prove_ge(q) and prove_ge(d - 1 - q):
            return
    if raw and prove_ge(e) and prove_ge(d - 1 - e):
        return
    raise Unsupported('index not known in range')


def common_flat(ks, dims):
    """the index arrays are the components of unravel_index(flat, dims):
    the function view idx -> flat index"""
    s = [k.flatsrc for k in ks]
    if any(x is None for x in s):
        return None
    f0, d0 = s[0][0], s[0][1]
    if any(x[0] is not f0 or x[2] != j for j, x in enumerate(s)):
        return None
    if len(d0) != len(dims) or any(norm(a) != norm(b) for a, b in zip(d0, dims)):
        return None
    return lambda i: norm(f0(i))


def slice_bounds(k, d):
    step = 1 if k.step is None else k.step
    if isinstance(step, SymInt):
        return sym_slice(k, d)
    if not isinstance(step, _int):
        raise Unsupported('symbolic step')
    if step == 0:
        raise ValueError('slice step cannot be zero')
    if step < 0:
        if k.start is None and k.stop is None and step == -1:
            return d - 1, d, const(-1)
        raise Unsupported('negative step')

    if k.stop is not None and isinstance(k.stop, SymInt) or isinstance(k.start, SymInt):
        r = sym_slice(k, d)
        if r is not None:
            return r

    def clip(v, dflt):
        if v is None:
            return dflt
        p = norm(to_I(v))
        if p.is_const() and p.value() < 0:
            p = p + d
            if not path.branch(('c', Cond('ge', p))):
                return const(0)
            return p
        if not prove_ge(p) and not path.branch(('c', Cond('ge', p))):
            raise Unsupported('negative bound')
        if prove_ge(d - p) or path.branch(('c', Cond('ge', d - p))):
            return p
        return d
    st, en = clip(k.start, const(0)), clip(k.stop, d)
    n = norm(en - st)
    if not prove_ge(n) and not path.branch(('c', Cond('ge', n))):
        n = const(0)
    if step != 1:
        n = ints.idiv(n + step - 1, const(step))
    return st, n, const(step)


def sym_slice(k, d):
    """start, count, step when no clipping of the bounds changes the count"""
    st = const(0) if k.start is None else norm(to_I(k.start))
    en = norm(d) if k.stop is None else norm(to_I(k.stop))
    step = const(1) if k.step is None else norm(to_I(k.step))
    if prove_ge(step - 1) and prove_ge(st) and prove_ge(en - st - 1):
        n = norm(ints.idiv(en - st + step - 1, step))
        if prove_ge(norm(d) - 1 - st - step * (n - 1)):
            return st, n, step
    if isinstance(k.step, SymInt):
        raise Unsupported('slice with a symbolic step')
    return None


def wrap(e, kind):
    return {'f': mkreal, 'i': mkint, 'b': mkbool}[kind](e)


def conv(f, a, b):
    if a == b or b is None:
        return f
    if a == 'i' and b == 'f':
        return lambda i: rint(f(i))
    if a == 'b' and b == 'f':
        return lambda i: ind(f(i))
    if a == 'f' and b == 'i':
        return lambda i: r2i(f(i))
    if a == 'b' and b == 'i':
        def g(i):
            d = path.decide_formula(f(i))
            if d is None:
                raise Unsupported('truth value as an integer')
            return const(_int(d))
        return g
    raise Unsupported('conversion')


def r2i(r):
    r = terms.canon(r)
    out = const(0)
    for (bs, cs, fs), c in r.t.items():
        if bs or cs or c.denominator != 1:
            raise Unsupported('truncation to an integer')
        p = const(_int(c))
        for b, e in fs:
            if b.kind != 'd' or not isinstance(e, Fraction) or e.denominator != 1 or e < 0:
                raise Unsupported('truncation to an integer')
            p = p * atom(b.args[0]) ** _int(e)
        out = out + p
    return out


def ind(f):
    """0/1 term of a formula"""
    d = path.decide_formula(f)
    if d is not None:
        return rconst(_int(d))
    k = f[0]
    if k == 'c':
        return terms.rcond(f[1])
    if k == 'not':
        return terms.ONE - ind(f[1])
    if k == 'and':
        r = terms.ONE
        for x in f[1:]:
            r = r * ind(x)
        return r
    if k == 'or':
        r = terms.ONE
        for x in f[1:]:
            r = r * (terms.ONE - ind(x))
        return terms.ONE - r
    raise Unsupported('truth value of an opaque condition')


def asarray(x, dtype=None):
    k = kind_of(dtype)
    if isinstance(x, Arr):
        return x if k in (None, x.kind) else x.astype(dtype)
    if isinstance(x, SymShape):
        x = tuple(x)
    if isinstance(x, SymBool) or isinstance(x, _bool):
        e = to_F(x)
        a = Arr([], lambda i: e, 'b')
    elif isinstance(x, (SymInt, _int)):
        e = to_I(x)
        a = Arr([], lambda i: e, 'i')
    elif is_num(x):
        if isinstance(x, complex):
            raise Unsupported('complex number')
        e = to_R(x)
        a = Arr([], lambda i: e, 'f')
    elif hasattr(x, 'symlen') and hasattr(x, 'a'):
        a = x.a
    elif isinstance(x, (list, tuple, range)) or hasattr(x, '__iter__') and not isinstance(x, (str, dict, set)):
        xs = list(x)
        if any(isinstance(y, str) for y in xs):
            return StrArr(xs)
        items = [asarray(y) for y in xs]
        if not items:
            a = Arr([const(0)], lambda i: rconst(0), 'f')
        else:
            kd = 'f' if any(y.kind == 'f' for y in items) else 'i' if any(y.kind == 'i' for y in items) else 'b'
            d0, b0 = items[0].dims, items[0].blk
            for y in items[1:]:
                if len(y.dims) != len(d0) or y.blk != b0:
                    raise ValueError('inhomogeneous shape')
                for p, q in zip(y.dims, d0):
                    if norm(p) != norm(q) and not path.branch(('c', Cond('eq', p - q))):
                        raise ValueError('inhomogeneous shape')
            fs = [conv(y.snap(), y.kind, kd) for y in items]
            a = Arr([const(len(items))] + d0, lambda i: select(fs, i[0], i[1:], kd), kd, (False, ) + tuple(b0))
    else:
        raise Unsupported('array of %r' % type(x))
    return a if k in (None, a.kind) else a.astype(dtype)


class StrArr:
    """one-dimensional array of strings"""

    def __init__(self, xs):
        self.xs = list(xs)

    def __iter__(self):
        return iter(self.xs)

    def __len__(self):
        return len(self.xs)

    def __getitem__(self, k):
        r = self.xs[k]
        return StrArr(r) if isinstance(k, slice) else r

    def tolist(self):
        return list(self.xs)


def select(fs, i, rest, kind):
    i = norm(i)
    if i.is_const():
        return fs[i.value()](tuple(rest))
    es = [f(tuple(rest)) for f in fs]
    if all(e == es[0] for e in es):
        return es[0]
    if kind == 'f':
        r = terms.ZERO
        for k, e in enumerate(es):
            r = r + terms.rcond(Cond('eq', i - k)) * e
        return r
    if kind == 'i':
        raise NeedCases(i, len(fs))
    raise Unsupported('selection by a symbolic index')


class NeedCases(Unsupported):
    """an integer table is read at a symbolic position: enumerate it"""

    def __init__(self, p, n):
        Unsupported.__init__(self, 'table of integers read at %r' % p)
        self.p, self.n = p, n


# ---------------------------------------------------------------- broadcast
def broadcast(specs):
    """specs: list of (dims, blk) -> dims, blk, maps out idx -> operand idx"""
    specs = [(list(map(norm, d)), tuple(b)) for d, b in specs]
    # a run known to be one axis of size one
    if any(any(b) for _, b in specs):
        ref = max((s for s in specs if any(s[1])), key=lambda s: len(s[0]))
        out, ob = ref
        maps = []
        for d, b in specs:
            if len(d) == len(out) and b == ob and all(x == y for x, y in zip(d, out)):
                maps.append(lambda i: tuple(i))
            elif all(x == const(1) for x in d) and len(d) <= 1:
                maps.append(lambda i, n=len(d): (const(0), ) * n)
            elif len(d) < len(out) and not any(b) and not any(ob[len(out) - len(d):]) and \
                    all(x == y or x == const(1) for x, y in zip(d, out[len(out) - len(d):])):
                off = len(out) - len(d)
                maps.append(lambda i, off=off, d=d: tuple(const(0) if x == const(1) else i[off + k] for k, x in enumerate(d)))
            elif len(d) == len(out) and b == ob:
                ok = all((x == y) if bb else (x == y or x == const(1)) for x, y, bb in zip(d, out, b))
                if not ok:
                    raise Unsupported('broadcast of arrays of unknown rank')
                maps.append(lambda i, d=d, o=out: tuple(const(0) if x == const(1) and y != const(1) else i[k] for k, (x, y) in enumerate(zip(d, o))))
            elif all(x == const(1) for x in out):
                # everything has one element
                raise Unsupported('broadcast of arrays of unknown rank')
            else:
                raise Unsupported('broadcast of arrays of unknown rank')
        return out, ob, maps
    n = max((len(d) for d, _ in specs), default=0)
    out = []
    for k in range(n):
        cur = const(1)
        for d, _ in specs:
            j = k - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if x == cur or x == const(1):
                continue
            if cur == const(1):
                cur = x
                continue
            if path.branch(('c', Cond('eq', x - cur))):
                continue
            if path.branch(('c', Cond('eq', cur - 1))):
                cur = x
                continue
            if path.branch(('c', Cond('eq', x - 1))):
                continue
            raise ValueError('operands could not be broadcast together')
        out.append(norm(cur))
    maps = []
    for d, _ in specs:
        off = n - len(d)
        dd = [norm(x) for x in d]
        maps.append(lambda i, off=off, d=dd: tuple(const(0) if x == const(1) else i[off + k] for k, x in enumerate(d)))
    return out, (False, ) * n, maps


def bcast_to(val, dims, blk, kind, assign=False):
    """element function of val broadcast to dims"""
    a = asarray(val)
    f = conv(a.snap(), a.kind, kind)
    if not a.dims:
        return lambda i: f(())
    ad, ab = list(a.dims), list(a.blk)
    dims = [norm(d) for d in dims]
    if blk is None:
        blk = (False, ) * len(dims)
    if [norm(x) for x in ad] == dims and tuple(ab) == tuple(blk):
        return f
    if all(norm(x) == const(1) for x in ad) and (len(ad) <= len(dims) or assign):
        n = len(ad)
        return lambda i: f((const(0), ) * n)
    if any(ab) or any(blk):
        od, _, maps = broadcast([(ad, ab), (dims, blk)])
        if len(od) != len(dims) or any(norm(x) != y for x, y in zip(od, dims)):
            raise ValueError('could not broadcast input array')
        m = maps[0]
        return lambda i: f(m(i))
    lead = len(ad) - len(dims)
    if lead > 0:
        if not assign:
            raise ValueError('could not broadcast')
        for x in ad[:lead]:
            if norm(x) != const(1) and not path.branch(('c', Cond('eq', x - 1))):
                raise ValueError('could not broadcast input array')
        f0 = f
        f = lambda i: f0((const(0), ) * lead + tuple(i))
        ad = ad[lead:]
    off = len(dims) - len(ad)
    one = []
    for k, x in enumerate(ad):
        y = dims[off + k]
        x = norm(x)
        if x == y:
            one.append(x == const(1))
        elif x == const(1):
            one.append(True)
        elif path.branch(('c', Cond('eq', x - y))):
            one.append(False)
        elif path.branch(('c', Cond('eq', x - 1))):
            one.append(True)
        else:
            raise ValueError('could not broadcast input array from shape into shape')
    return lambda i: f(tuple(const(0) if o else i[off + k] for k, o in enumerate(one)))


ARITH = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}


def elementwise(op, x, y):
    if not isinstance(x, Arr) and not isinstance(y, Arr):
        x, y = asarray(x), asarray(y)
    a = x if isinstance(x, Arr) else None
    b = y if isinstance(y, Arr) else None
    for v in (x, y):
        if not isinstance(v, Arr) and not is_num(v) and not isinstance(v, (list, tuple, SymBool, _bool)):
            if op in ('eq', 'ne'):
                raise Unsupported('comparison with %r' % type(v))
            return NotImplemented
    a = a if a is not None else asarray(x)
    b = b if b is not None else asarray(y)
    dims, blk, (ma, mb) = broadcast([(a.dims, a.blk), (b.dims, b.blk)])
    fa, fb = a.snap(), b.snap()
    ka, kb = a.kind, b.kind
    if op in ('and', 'or'):
        if ka != 'b' or kb != 'b':
            raise Unsupported('bitwise')
        fn = lambda i: path.fjoin(op, fa(ma(i)), fb(mb(i)))
        k = 'b'
    elif op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
        k = 'b'
        if ka == 'i' and kb == 'i':
            fn = lambda i: to_F(icmp(op, fa(ma(i)), fb(mb(i))))
        elif ka == 'b' or kb == 'b':
            raise Unsupported('comparison of conditions')
        else:
            ga, gb = conv(fa, ka, 'f'), conv(fb, kb, 'f')
            fn = lambda i: rcmpf(op, ga(ma(i)), gb(mb(i)))
    else:
        if 'f' not in (ka, kb) and op not in ('div', ) and not (op == 'pow'):
            k = 'i'
            ga, gb = conv(fa, ka, 'i'), conv(fb, kb, 'i')
            if op in ARITH:
                o = ARITH[op]
                fn = lambda i: norm(o(ga(ma(i)), gb(mb(i))))
            elif op == 'fdiv':
                fn = lambda i: ints.idiv(ga(ma(i)), _pos(gb(mb(i))))
            elif op == 'mod':
                fn = lambda i: ints.imod(ga(ma(i)), _pos(gb(mb(i))))
            else:
                raise Unsupported(op)
        elif op == 'pow' and ka != 'f' and kb != 'f':
            k = 'i'

            def fn(i):
                e = norm(fb(mb(i)))
                if e.is_const() and e.value() >= 0:
                    return fa(ma(i)) ** e.value()
                raise Unsupported('integer power')
        else:
            k = 'f'
            ga, gb = conv(fa, ka, 'f'), conv(fb, kb, 'f')
            if op in ARITH:
                o = ARITH[op]
                fn = lambda i: o(ga(ma(i)), gb(mb(i)))
            elif op == 'div':
                fn = lambda i: terms.udiv(ga(ma(i)), gb(mb(i)))
            elif op == 'pow':
                fn = lambda i: terms.upow(ga(ma(i)), gb(mb(i)))
            else:
                raise Unsupported(op)
    r = Arr(dims, fn, k, blk)
    if not dims:
        return wrap(r.at(()), k)
    return r


EXPLOG = None     # arguments of exp, when a contract watches them


def unary(name, x):
    a = asarray(x)
    f = conv(a.snap(), a.kind, 'f')
    if name == 'exp' and EXPLOG is not None:
        EXPLOG.append((list(a.dims), f))
    if not a.dims:
        return mkreal(terms.rfun(name, f(())))
    return Arr(a.dims, lambda i: terms.rfun(name, f(i)), 'f', a.blk)


def binary(name, x, y):
    a, b = asarray(x), asarray(y)
    dims, blk, (ma, mb) = broadcast([(a.dims, a.blk), (b.dims, b.blk)])
    fa, fb = conv(a.snap(), a.kind, 'f'), conv(b.snap(), b.kind, 'f')
    r = Arr(dims, lambda i: terms.rfun2(name, fa(ma(i)), fb(mb(i))), 'f', blk)
    return wrap(r.at(()), 'f') if not dims else r


def transpose(a, axes=None):
    a = asarray(a)
    if a.blk and any(a.blk) and len(a.dims) > 1:
        a.norank()
    if any(a.blk) and axes is None and isinstance(a.shape, SymShape):
        raise Unsupported('transpose of unknown rank')
    n = len(a.dims)
    if axes is None:
        axes = list(range(n))[::-1]
    axes = [x if isinstance(x, _int) else asarray(x).__index__() for x in axes]
    axes = [x + n if x < 0 else x for x in axes]
    if sorted(axes) != list(range(n)):
        raise ValueError("axes don't match array")
    pos = [axes.index(k) for k in range(n)]
    to0, inv0 = a.to or (lambda i: i), a.inv

    def to(v):
        return to0(tuple(v[pos[k]] for k in range(n)))

    def inv(bi):
        c, i = inv0(bi) if inv0 else ([], bi)
        return c, tuple(i[x] for x in axes)
    return Arr([a.dims[x] for x in axes], None, a.kind, None, store=a.store, to=to, inv=inv,
               contig=a.contig and axes == list(range(n)))


def axes_of(a, axis):
    if axis is None:
        return list(range(len(a.dims)))
    if isinstance(axis, (list, tuple, Arr)):
        ax = [x if isinstance(x, _int) else asarray(x).__index__() for x in axis]
    else:
        ax = [axis if isinstance(axis, _int) else asarray(axis).__index__()]
    n = len(a.dims)
    if any(a.blk):
        # only negative axes to the right of the runs
        last = max(k for k, b in enumerate(a.blk) if b)
        for x in ax:
            if x >= 0 or x + n <= last:
                a.norank()
    for x in ax:
        if not -n <= x < n:
            raise IndexError('axis out of bounds')
    ax = [x + n if x < 0 else x for x in ax]
    if len(set(ax)) != len(ax):
        raise ValueError('duplicate axis')
    return ax


def reduce_with(a, axis, f):
    ax = axes_of(a, axis)
    keep = [k for k in range(len(a.dims)) if k not in ax]
    dims = [a.dims[k] for k in keep]
    blk = [a.blk[k] for k in keep]
    g = a.snap()

    def fn(i):
        bs = {}
        idx = [None] * len(a.dims)
        for k, x in zip(keep, i):
            idx[k] = x
        for k in ax:
            idx[k] = const(0) if a.dims[k] == const(1) else ints.fresh_idx(a.dims[k])
            bs[k] = idx[k]
        return f(g, idx, [terms._atom_of(v) for v in bs.values() if not v.is_const()])
    return dims, blk, fn


def reduce_sum(a, axis=None):
    a = asarray(a)
    if a.kind == 'b':
        raise Unsupported('sum of conditions')
    if a.kind == 'i':
        ax = axes_of(a, axis)
        keep = [k for k in range(len(a.dims)) if k not in ax]
        if all(a.dims[k].is_const() for k in ax):
            g = a.snap()

            def fi(i):
                t = const(0)
                for v in itertools.product(*[range(a.dims[k].value()) for k in ax]):
                    idx = [None] * len(a.dims)
                    for k, x in zip(keep, i):
                        idx[k] = x
                    for k, x in zip(ax, v):
                        idx[k] = const(x)
                    t = t + g(tuple(idx))
                return norm(t)
            r = Arr([a.dims[k] for k in keep], fi, 'i', [a.blk[k] for k in keep])
            return wrap(r.at(()), 'i') if not r.dims else r
        raise Unsupported('sum of symbolic number of integers')
    dims, blk, fn = reduce_with(a, axis, lambda g, idx, bs: terms.rsum(bs, g(tuple(idx))))
    r = Arr(dims, fn, 'f', blk)
    return wrap(r.at(()), 'f') if not dims else r


def average(a, axis=None):
    a = asarray(a)
    if a.kind != 'f':
        a = a.astype(_float)
    ax = axes_of(a, axis)
    return reduce_sum(a, axis) / mkint(prodI([a.dims[k] for k in ax]))


def reduce_ext(name, a, axis=None):
    a = asarray(a)
    if a.kind == 'i':
        if axis is None and all(d.is_const() for d in a.dims):
            best = None
            f = a.snap()
            for v in itertools.product(*[range(d.value()) for d in a.dims]):
                x = mkint(f(tuple(const(k) for k in v)))
                if best is None or (x > best if name == 'max' else x < best):
                    best = x
            if best is None:
                raise ValueError('zero-size array to reduction operation')
            return best
        if axis is None:
            return _intext(name, a)
        raise Unsupported('extremum of integers')
    dims, blk, fn = reduce_with(a, axis, lambda g, idx, bs: terms.rmax(name, tuple(bs), g(tuple(idx))))
    r = Arr(dims, fn, 'f', blk)
    return wrap(r.at(()), 'f') if not dims else r


def plain_elem(a):
    """(element, composite indices) of an integer array such that the element
    has no div or mod; None if none is found"""
    f = a.snap()
    idx = [const(0) if norm(d) == const(1) else ints.fresh_idx(d) for d in a.dims]
    try:
        e = norm(f(tuple(idx)))
        if not hasdiv(e):
            return e, idx
    except NeedCases:
        raise
    except Unsupported:
        pass
    for cd in factorizations(prodI(a.dims), [a.dims]):
        kk = [const(0) if d == const(1) else ints.fresh_idx(d) for d in cd]
        try:
            e = norm(f(tuple(ints.unravel(ints.ravel(kk, cd), a.dims))))
        except NeedCases:
            raise
        except Unsupported:
            continue
        if not hasdiv(e):
            return e, kk
    return None


def hasdiv(e):
    return any(x.kind == 'op' and x.name in ('div', 'mod') for x in e.all_atoms())


def _intext(name, a):
    """extremum of an integer array that is monotone in every index"""
    pe = plain_elem(a)
    if pe is None:
        raise Unsupported('extremum of integers')
    e, idx = pe
    for x in idx:
        if x.is_const():
            continue
        at = terms._atom_of(x)
        d = norm(at.size)
        s = ints._lin_split(e, at)
        if s is None or any(at in q.all_atoms() for q in s):
            raise Unsupported('extremum of integers')
        A, B = s
        up = prove_ge(B)
        if not up and not prove_ge(-B):
            raise Unsupported('extremum of integers')
        e = norm(A + B * (d - 1)) if up == (name == 'max') else norm(A)
    return mkint(e)


def reduce_prod(a):
    a = asarray(a)
    if all(d.is_const() for d in a.dims):
        f = a.snap()
        r = 1
        for v in itertools.product(*[range(d.value()) for d in a.dims]):
            r = r * wrap(f(tuple(const(k) for k in v)), a.kind)
        return r
    raise Unsupported('product of symbolic number of elements')


def reduce_any(a):
    a = asarray(a)
    if a.kind != 'b':
        a = elementwise('ne', a, 0)
        a = asarray(a)
    f = a.snap()
    idx = [const(0) if d == const(1) else atom(Atom('\u03ba%d' % k, 'idx', size=d)) for k, d in enumerate(a.dims)]
    e = f(tuple(idx))
    d = path.decide_formula(e)
    if d is not None:
        return d
    if all(d == const(1) for d in a.dims):
        return mkbool(e)
    return mkbool(('x', 'any', tuple(a.dims), simp(e)))


def simp(f):
    """drop decided parts"""
    if f[0] in ('and', 'or'):
        return path.fjoin(f[0], *[simp(x) for x in f[1:]])
    return f


def dot(a, b):
    a, b = asarray(a), asarray(b)
    if not a.dims or not b.dims:
        return a * b
    if len(a.dims) == 1 and len(b.dims) == 1:
        a.norank()
        b.norank()
        need_eq(a.dims[0], b.dims[0])
        return reduce_sum(a * b)
    return matmul(a, b)


def need_eq(x, y):
    if norm(x) != norm(y) and not path.branch(('c', Cond('eq', x - y))):
        raise ValueError('shapes not aligned')


def matmul(a, b):
    a, b = asarray(a), asarray(b)
    a.norank()
    b.norank()
    if len(a.dims) > 2 or len(b.dims) > 2 or not a.dims or not b.dims:
        raise Unsupported('matmul of higher rank')
    need_eq(a.dims[-1], b.dims[0])
    n = a.dims[-1]
    fa, fb = conv(a.snap(), a.kind, 'f'), conv(b.snap(), b.kind, 'f')
    ra, rb = len(a.dims) - 1, len(b.dims) - 1

    def fn(i):
        if n == const(1):
            return fa(tuple(i[:ra]) + (const(0), )) * fb((const(0), ) + tuple(i[ra:]))
        k = ints.fresh_idx(n)
        return terms.rsum((terms._atom_of(k), ), fa(tuple(i[:ra]) + (k, )) * fb((k, ) + tuple(i[ra:])))
    r = Arr(a.dims[:-1] + b.dims[1:], fn, 'f')
    return wrap(r.at(()), 'f') if not r.dims else r


# ---------------------------------------------------------------- factorizations
def prime_dims(p):
    """atomic factors of a monomial size"""
    p = norm(p)
    if len(p.t) != 1:
        return None
    (m, c), = p.t.items()
    out = []
    for a, e in m:
        out += [atom(a)] * e
    if c != 1:
        out.append(const(c))
    return out


def splits(c):
    """ordered factorizations of a constant (into factors > 1)"""
    yield [c]
    for f in range(2, c):
        if c % f == 0:
            for r in splits(c // f):
                yield [f] + r


def factorizations(n, hints=()):
    """candidate composite index shapes with total size n"""
    n = norm(n)
    seen = set()

    def key(c):
        return tuple(x.key for x in c)

    def emit(c):
        c = [x for x in c if x != const(1)] or [const(1)]
        k = key(c)
        if k not in seen:
            seen.add(k)
            return c
        return None
    for h in hints:
        h = [norm(x) for x in h]
        if norm(prodI(h)) == n:
            fine = []
            for x in h:
                q = prime_dims(x)
                fine += q if q else [x]
            for c in (h, fine):
                c = emit(c)
                if c:
                    yield c
    fs = prime_dims(n)
    if fs is None:
        c = emit([n])
        if c:
            yield c
        return
    cons = [x for x in fs if x.is_const()]
    rest = [x for x in fs if not x.is_const()]
    variants = [[]]
    if cons:
        v = cons[0].value()
        variants = [[const(z) for z in s] for s in splits(v)] if v <= 216 else [[cons[0]]]
    cnt = 0
    for v in variants:
        for p in itertools.permutations(rest + v):
            c = emit(list(p))
            if c:
                yield c
                cnt += 1
                if cnt > 3000:
                    return
    c = emit([n])
    if c:
        yield c


def known(cls, *reals):
    """an attribute of the real values that is not modelled is outside the verifier"""
    names = frozenset(n for r in reals for n in dir(r) if not n.startswith('__'))

    def ga(self, name):
        if name in names:
            raise Unsupported('%s.%s' % (reals[0].__name__, name))
        raise AttributeError('%r object has no attribute %r' % (reals[0].__name__, name))
    cls.__getattr__ = ga


def _known():
    import numpy
    known(Arr, numpy.ndarray, numpy.float64)
    known(StrArr, numpy.ndarray)
    known(SymInt, _int, numpy.int64)
    known(SymReal, _float, numpy.float64)
    known(SymBool, _bool, numpy.bool_)


_known()
