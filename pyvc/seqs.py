"""Ranges, sequences and sets of symbolic integers (range, list, set and len
as the executed code sees them)."""
import builtins
import sys

from . import ints, terms, path, arr
from .ints import const, norm, prove_ge, Unsupported
from .arr import Arr, SymInt, mkint, to_I, asarray, mkbool, _intext
from .terms import Cond


class SymRange:
    """range(start, stop, step), not empty, of symbolic bounds"""

    def __init__(self, start, n, step):
        self.start, self.n, self.step = start, n, step

    @property
    def a(self):
        return Arr([self.n], lambda i: norm(self.start + self.step * i[0]), 'i')

    def symlen(self):
        return mkint(self.n)

    def __iter__(self):
        if norm(self.n).is_const() and not (LOOP and norm(self.n).value() > 8):
            for k in range(norm(self.n).value()):
                yield mkint(self.start + self.step * k)
            return
        if LOOP:
            yield from LOOP[-1](self, sys._getframe(1))
            return
        raise Unsupported('loop over a range of symbolic length')


LOOP = []       # contract of the loops of the function that runs


class SymSeq(SymRange):
    """list of such a range or of an array"""

    def __init__(self, a):
        self._a = a
        self.n = a.dims[0]

    @property
    def a(self):
        return self._a

    def __getitem__(self, k):
        return self._a[k]

    def __iter__(self):
        return iter(self._a)


class _RangeMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.range) or type(x) is SymRange

    def __call__(cls, *a):
        return _range(*a)

    def __repr__(cls):
        return "<class 'range'>"

    def __eq__(cls, o):
        return o is cls or o is builtins.range

    def __hash__(cls):
        return hash(builtins.range)


sym_range = _RangeMeta('range', (), {})


def _range(*a):
    if all(not isinstance(x, SymInt) for x in a):
        r = builtins.range(*[x if isinstance(x, int) else x.__index__() for x in a])
        if LOOP and len(r) > 8 and len(a) == 1:
            # (the contract of the loop applies, whatever the number of iterations)
            return SymRange(0, len(r), 1)
        return r
    start, stop, step = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    start, stop, step = to_I(start), to_I(stop), to_I(step)
    if not prove_ge(step - 1):
        if not path.branch(('c', Cond('ge', step - 1))):
            raise Unsupported('range with a step that is not positive')
    if not path.branch(('c', Cond('ge', stop - start - 1))):
        return builtins.range(0)
    return SymRange(norm(start), norm(ints.idiv(stop - start + step - 1, step)), norm(step))


def sym_len(x):
    f = getattr(x, 'symlen', None)
    if f is not None:
        return f()
    if isinstance(x, Arr):
        x.norank()
        if not x.dims:
            raise TypeError('len() of unsized object')
        return mkint(x.dims[0])
    return builtins.len(x)


class _ListMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.list, SymSeq))

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.list)

    def __call__(cls, *a):
        if a and isinstance(a[0], SymRange):
            n = norm(a[0].n)
            return builtins.list(a[0]) if n.is_const() else SymSeq(a[0].a)
        if a and isinstance(a[0], Arr) and a[0].dims and not norm(a[0].dims[0]).is_const():
            if len(a[0].dims) > 1:
                raise Unsupported('list of arrays of symbolic length')
            return SymSeq(a[0])
        return builtins.list(*a)

    def __repr__(cls):
        return "<class 'list'>"

    def __eq__(cls, o):
        return o is cls or o is builtins.list

    def __hash__(cls):
        return hash(builtins.list)

    def __getitem__(cls, k):
        return builtins.list[k]


sym_list = _ListMeta('list', (), {})


def is_sym(x):
    if isinstance(x, SymRange):
        return True
    return isinstance(x, Arr) and x.kind == 'i' and not (
        all(norm(d).is_const() for d in x.dims) and all(isinstance(mkint(v), int) for v in _elems(x)))


def _elems(x):
    f = x.snap()
    n = norm(arr.prodI(x.dims)).value()
    return [f(ints.unravel(const(k), x.dims)) for k in range(n)]


def pyset(x):
    """elements to put into a Python set"""
    return [mkint(e) for e in _elems(x)] if isinstance(x, Arr) and x.kind == 'i' else x


class PSet(builtins.set):
    """set, able to meet sets of symbolic integers"""

    def union(self, *os):
        r = self
        for o in os:
            if is_sym(o) or isinstance(o, SymSet):
                r = SymSet([r] if not isinstance(r, SymSet) else r.parts).union(o)
            elif isinstance(r, SymSet):
                r = r.union(o)
            else:
                r = PSet(builtins.set.union(r, pyset(o)))
        return r

    def intersection(self, o):
        if is_sym(o) or isinstance(o, SymSet):
            return SymSet([self]).intersection(o)
        return PSet(builtins.set.intersection(self, pyset(o)))

    def __or__(self, o):
        return self.union(o)

    def __and__(self, o):
        return self.intersection(o)

    def isdisjoint(self, o):
        return sym_len(self.intersection(o)) == 0

    def update(self, *os):
        if any(is_sym(o) for o in os):
            raise Unsupported('update of a set by symbolic integers')
        builtins.set.update(self, *[pyset(o) for o in os])

    __hash__ = None


class SymSet:
    """union of parts: arrays of integers or Python sets of integers"""

    def __init__(self, parts):
        self.parts = [p for p in parts if not (isinstance(p, builtins.set) and not p)]

    def union(self, *os):
        ps = list(self.parts)
        for o in os:
            ps += o.parts if isinstance(o, SymSet) else [asflat(o)]
        return SymSet(ps)

    __or__ = union

    def intersection(self, o):
        fs = []
        for p in self.parts:
            for q in (o.parts if isinstance(o, SymSet) else [asflat(o)]):
                fs.append(meets(asflat(p), asflat(q)))
        return Meet(path.fjoin('or', *fs))

    __and__ = intersection

    def isdisjoint(self, o):
        return sym_len(self.intersection(o)) == 0

    def symlen(self):
        raise Unsupported('size of a set of symbolic integers')


class Meet:
    """intersection of which only emptiness is known"""

    def __init__(self, f):
        self.f = f

    def symlen(self):
        return MeetLen(self.f)

    def __bool__(self):
        return path.branch(self.f)


class MeetLen:
    def __init__(self, f):
        self.f = f

    def _pos(self):
        return mkbool(self.f)

    def _neg(self):
        return mkbool(path.fnot(self.f))

    def __gt__(self, o):
        return self._c(o, 0, True)

    def __ne__(self, o):
        return self._c(o, 0, True)

    def __ge__(self, o):
        return self._c(o, 1, True)

    def __eq__(self, o):
        return self._c(o, 0, False)

    def __lt__(self, o):
        return self._c(o, 1, False)

    def __le__(self, o):
        return self._c(o, 0, False)

    def _c(self, o, n, pos):
        if o != n:
            raise Unsupported('size of a set of symbolic integers')
        return self._pos() if pos else self._neg()

    def __bool__(self):
        return path.branch(self.f)

    __hash__ = None


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.set, SymSet))

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.set)

    def __call__(cls, *a):
        if a and is_sym(a[0]):
            return SymSet([asflat(a[0])])
        return PSet(*[pyset(x) for x in a])

    def __repr__(cls):
        return "<class 'set'>"

    def __eq__(cls, o):
        return o is cls or o is builtins.set

    def __hash__(cls):
        return hash(builtins.set)

    def __getitem__(cls, k):
        return builtins.set[k]


sym_set = _SetMeta('set', (), {})


def asflat(x):
    if isinstance(x, builtins.set):
        x = sorted(x)
    a = asarray(x)
    return a if len(a.dims) == 1 else a._flat(True)


def meets(a, b):
    """formula: two integer arrays have an element in common"""
    if any(norm(d) == const(0) for d in a.dims + b.dims):
        return ('F', )
    fa, fb = arr.plain_elem(a), arr.plain_elem(b)
    if fa is None or fb is None:
        return ('x', 'meets', repr(a), repr(b))
    (e1, k1), (e2, k2) = fa, fb
    ks = [terms._atom_of(k) for k in k1 + k2 if not k.is_const()]
    out, seen = [], set()
    for p in terms.split_eq(e1 - e2):
        mine = [k for k in ks if k in p.all_atoms()]
        if seen & set(mine) or any(k not in p.atoms() for k in mine):
            return ('x', 'meets', repr(e1), repr(e2))
        seen |= set(mine)
        lo = hi = p
        unit = not mine
        ok = True
        for k in mine:
            s = ints._lin_split(p, k)
            if s is None:
                ok = False
                break
            B = s[1]
            if B.is_const() and abs(B.value()) == 1:
                unit = True
            up = prove_ge(B)
            if not up and not prove_ge(-B):
                ok = False
                break
            top = {k: norm(k.size) - 1}
            bot = {k: const(0)}
            hi = ints.subst(hi, top if up else bot)
            lo = ints.subst(lo, bot if up else top)
        if not ok:
            return ('x', 'meets', repr(e1), repr(e2))
        if not mine:
            out.append(('c', Cond('eq', norm(p))))
            continue
        rng = path.fjoin('and', ('c', Cond('ge', norm(hi))), ('c', Cond('ge', norm(-lo))))
        bs = [ints._lin_split(p, k)[1] for k in mine]
        if path.decide_formula(rng) is not False and not (
                unit and (len(mine) == 1 or sum(1 for B in bs if B.is_const() and abs(B.value()) == 1) == len(mine))):
            # steps: the range is not contiguous
            if ints.z3_check([], [p], timeout=1000) == 'unsat':
                return ('F', )
            out.append(('x', 'meets', repr(p)))
        out.append(rng)
    return path.fjoin('and', *out) if out else ('T', )


from .arr import known      # noqa: E402

known(SymRange, list, range)
known(SymSet, builtins.set)
