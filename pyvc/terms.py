"""Real terms in normal form.

An R is a finite sum of terms
    coef * SUM_{binders} [conds] * PRODUCT base^exponent
with rational coefficients, integer-indexed binders, 0/1 conditions and bases
that are array elements, parameters, dimensions, opaque functions, one exp()
and compound sums (for exponents that do not expand).

Identities used (all hold wherever both sides are defined; listed in the
trusted base): field axioms, exp/log product rules, sin^2+cos^2=1,
cosh^2-sinh^2=1, tan=sin/cos, tanh=sinh/cosh, (b^p)^q=b^(pq) and
b^p b^q=b^(p+q) for the bases where real powers are defined.
"""
import itertools
import math
from fractions import Fraction

from . import ints
from .ints import I, Atom, Unsupported, const, lift, atom, prove_ge

F0, F1 = Fraction(0), Fraction(1)
LIMIT = 6000


class Base:
    __slots__ = ('kind', 'args', 'key', 'h', '_h', '_fi')

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args
        ks, h = [], 0
        for a in args:
            if isinstance(a, R):
                a = canon(a)
                h = max(h, a.height())
                ks.append(a.key())
            elif isinstance(a, (I, Atom)):
                ks.append(a.key)
            elif isinstance(a, tuple):     # binders
                ks.append(tuple(x.key for x in a))
                h = max(h, max([_bh(x) for x in a] or [0]))
            else:
                ks.append(a)
        self.key = (kind,) + tuple(ks)
        self._h = hash(self.key)
        self.h = h
        self._fi = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Base) and self.key == o.key

    def ints(self):
        """all integer atoms occurring free or bound inside"""
        if self._fi is None:
            s = set()
            for a in self.args:
                if isinstance(a, R):
                    s |= a.atoms()
                elif isinstance(a, I):
                    s |= a.all_atoms()
                elif isinstance(a, Atom):
                    s.add(a)
                    if a.kind == 'op':
                        for q in a.args:
                            s |= q.all_atoms()
            if self.kind == 'm':
                s -= set(self.args[1])
            self._fi = s
        return self._fi

    def __repr__(self):
        k, a = self.kind, self.args
        if k == 'el':
            return '%s[%r]' % a
        if k in ('p', 'q'):
            return str(a[0])
        if k == 'd':
            return repr(a[0])
        if k == 'f':
            return '%s(%r)' % a
        if k == 'e':
            return 'exp(%r)' % a
        if k == 's':
            return '(%r)' % a
        if k == 'm':
            return '%s_{%s}(%r)' % (a[0], ','.join(map(repr, a[1])), a[2])
        return '%s%r' % (k, a)


def _bh(a):
    """height of a canonical binder (0 when not canonical)"""
    return int(a.name[1:].split('_')[0]) if a.name[0] == '\u03b2' else 0


def _ekey(e):
    return e.key() if isinstance(e, R) else e


def _srt(x):
    return repr(x)


class Cond:
    """eq/ne/ge over integers; rge/rlt/req/rne over reals (against 0)"""
    __slots__ = ('op', 'a', 'key', '_h')

    def __init__(self, op, a):
        if op in ('eq', 'ne'):
            a = lift(a)
            if a.t:
                m = min(a.t, key=repr)
                if a.t[m] < 0:
                    a = -a
        if isinstance(a, R):
            a = canon(a)
        self.op, self.a = op, a
        self.key = (op, a.key() if isinstance(a, R) else a.key)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.key == o.key

    def isint(self):
        return self.op in ('eq', 'ne', 'ge')

    def neg(self):
        if self.op == 'ge':
            return Cond('ge', -self.a - 1)
        return Cond({'eq': 'ne', 'ne': 'eq', 'rge': 'rlt', 'rlt': 'rge',
                     'req': 'rne', 'rne': 'req'}[self.op], self.a)

    def atoms(self):
        return self.a.all_atoms() if isinstance(self.a, I) else self.a.atoms()

    def __repr__(self):
        return '[%r %s 0]' % (self.a, {
            'eq': '==', 'ne': '!=', 'ge': '>=', 'rge': '>=.', 'rlt': '<.',
            'req': '==.', 'rne': '!=.'}[self.op])


class R:
    __slots__ = ('t', '_key', '_canon', '_at', '_ht')

    def __init__(self, t):
        self.t = {k: c for k, c in t.items() if c}
        if len(self.t) > LIMIT:
            raise Unsupported('term explosion')
        self._key = self._canon = self._at = self._ht = None

    def key(self):
        if self._key is None:
            self._key = tuple(sorted(
                ((tuple(b.key for b in bs), tuple(sorted((c.key for c in cs), key=_srt)),
                  tuple((b.key, _ekey(e)) for b, e in fs), c)
                 for (bs, cs, fs), c in self.t.items()), key=_srt))
        return self._key

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return isinstance(o, R) and self.key() == o.key()

    def height(self):
        if self._ht is None:
            h = 0
            for bs, cs, fs in self.t:
                for b in bs:
                    h = max(h, _bh(b))
                for b, e in fs:
                    h = max(h, b.h)
                    if isinstance(e, R):
                        h = max(h, e.height())
                for c in cs:
                    if isinstance(c.a, R):
                        h = max(h, c.a.height())
            self._ht = h
        return self._ht

    def atoms(self):
        """integer atoms occurring free"""
        if self._at is None:
            s = set()
            for bs, cs, fs in self.t:
                u = set()
                for b, e in fs:
                    u |= b.ints()
                    if isinstance(e, R):
                        u |= e.atoms()
                for c in cs:
                    u |= c.atoms()
                s |= u - set(bs)
                for b in bs:
                    s |= b.size.all_atoms()
            self._at = s
        return self._at

    def is_const(self):
        return not self.t or (len(self.t) == 1 and ((), frozenset(), ()) in self.t)

    def value(self):
        return self.t.get(((), frozenset(), ()), F0)

    def __add__(self, o):
        o = rlift(o)
        d = dict(self.t)
        for k, c in o.t.items():
            d[k] = d.get(k, F0) + c
        return R(d)

    __radd__ = __add__

    def __neg__(self):
        return R({k: -c for k, c in self.t.items()})

    def __sub__(self, o):
        return self + (-rlift(o))

    def __rsub__(self, o):
        return rlift(o) - self

    def __mul__(self, o):
        o = rlift(o)
        d = {}
        for k1, c1 in self.t.items():
            for k2, c2 in o.t.items():
                k = _mulkey(k1, k2)
                d[k] = d.get(k, F0) + c1 * c2
        return R(d)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * rpow(rlift(o), Fraction(-1))

    def __rtruediv__(self, o):
        return rlift(o) * rpow(self, Fraction(-1))

    def __repr__(self):
        if not self.t:
            return '0'
        out = []
        for (bs, cs, fs), c in sorted(self.t.items(), key=_srt):
            s = []
            if c != 1 or not fs:
                s.append(str(c))
            if bs:
                s.append('SUM_{%s}' % ','.join('%r<%r' % (b, b.size) for b in bs))
            s += [repr(x) for x in cs]
            for b, e in fs:
                s.append(repr(b) + ('' if e == 1 else '^%s' % (e if isinstance(e, Fraction) and e.denominator == 1 else '(%r)' % (e,))))
            out.append(' '.join(s))
        return ' + '.join(out)


ZERO = R({})
K1 = ((), frozenset(), ())


def rconst(q):
    return R({K1: Fraction(q)})


ONE = rconst(1)


def simplest(x):
    """the rational a float literal stands for"""
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('not a finite number')
    f = Fraction(x).limit_denominator(1000)
    if float(f) == x:
        return f
    return Fraction(repr(x))


def rlift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, bool):
        return rconst(int(x))
    if isinstance(x, (int, Fraction)):
        return rconst(x)
    if isinstance(x, float):
        return rconst(simplest(x))
    if isinstance(x, I):
        return rint(x)
    raise Unsupported('not a real term: %r' % (x,))


def rbase(b, e=F1):
    return R({((), frozenset(), ((b, e),)): F1})


def rel(name, i):
    return rbase(Base('el', name, ints.norm(i)))


def rparam(name):
    return rbase(Base('p', name))


def rint(p):
    r = {}
    for m, c in ints.norm(p).t.items():
        fs = tuple(sorted(((Base('d', a), Fraction(e)) for a, e in m),
                          key=lambda x: _srt(x[0].key)))
        r[((), frozenset(), fs)] = Fraction(c)
    return R(r)


def rcond(c):
    return R({((), frozenset([c]), ()): F1})


def _eadd(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a + b
    r = canon(rlift(a) + rlift(b))
    return r.value() if r.is_const() else r


def _emul(a, b):
    if isinstance(a, Fraction) and isinstance(b, Fraction):
        return a * b
    r = canon(rlift(a) * rlift(b))
    return r.value() if r.is_const() else r


def _fmerge(f1, f2):
    if not f1:
        return f2
    if not f2:
        return f1
    d = {}
    ex = None
    for b, e in f1 + f2:
        if b.kind == 'e':
            ex = b.args[0] if ex is None else ex + b.args[0]
        elif b in d:
            d[b] = _eadd(d[b], e)
        else:
            d[b] = e
    if ex is not None:
        ex = canon(ex)
        if ex.t:
            d[Base('e', ex)] = F1
    return tuple(sorted(((b, e) for b, e in d.items() if e != 0),
                        key=lambda x: _srt(x[0].key)))


def _mulkey(k1, k2):
    b1, c1, f1 = k1
    b2, c2, f2 = k2
    if b1 and b2 and set(b1) & set(b2):
        env = {b: ints.fresh_idx(b.size) for b in b2}
        b2, c2, f2 = _subkey(k2, env)
    return (b1 + b2, c1 | c2, _fmerge(f1, f2))


def _atom_of(p):
    (m, c), = p.t.items()
    return m[0][0]


def _subkey(k, env):
    """substitute binders by fresh atoms (env: Atom -> I of an atom);
    the sign of odd functions may come out: see _subkey_c"""
    c, nk = _subkey_c(k, env)
    if c != 1:
        # keep the sign inside a factor that cannot merge
        nk = (nk[0], nk[1], _fmerge(nk[2], ((Base('q', Fraction(c)), F1),)))
    return nk


def _subkey_c(k, env):
    bs, cs, fs = k
    co = F1
    nb = tuple(_atom_of(env[b]) if b in env else b for b in bs)
    nc = frozenset(_subcond(c, env) for c in cs)
    nf = ()
    for b, e in fs:
        r = _subbase(b, env)
        if isinstance(e, R):
            e = rsubst(e, env)
        if isinstance(r, R):
            if len(r.t) != 1:
                raise Unsupported('renaming changed a base')
            ((b2, c2, f2), c), = r.t.items()
            if b2 or c2 or (c != 1 and not (isinstance(e, Fraction) and e.denominator == 1)):
                raise Unsupported('renaming changed a base')
            if c != 1:
                co *= c ** int(e)
            nf = _fmerge(nf, tuple((x, _emul(y, e) if x.kind != 'e' else y) for x, y in f2))
        else:
            nf = _fmerge(nf, ((r, e),))
    return co, (nb, nc, nf)


def _subcond(c, env):
    if isinstance(c.a, I):
        return Cond(c.op, ints.norm(ints.subst(c.a, env)))
    return Cond(c.op, rsubst(c.a, env))


def _subbase(b, env):
    """Base, or an R when the substitution makes it something else"""
    if not (b.ints() & env.keys()):
        return b
    k = b.kind
    if k == 'el':
        return Base('el', b.args[0], ints.norm(ints.subst(b.args[1], env)))
    if k == 'd':
        return rint(ints.subst(atom(b.args[0]), env))
    if k == 'f':
        return rfun(b.args[0], rsubst(b.args[1], env))
    if k == 'e':
        return rexp(rsubst(b.args[0], env))
    if k == 's':
        return Base('s', rsubst(b.args[0], env))
    if k == 'm':
        env = {a: v for a, v in env.items() if a not in b.args[1]}
        return rmax(b.args[0], b.args[1], rsubst(b.args[2], env))
    if k == 'g':
        return rfun2(b.args[0], rsubst(b.args[1], env), rsubst(b.args[2], env))
    raise Unsupported('substitution in ' + k)


def rsubst(r, env):
    """capture-free: binders are never free elsewhere (fresh or canonical at
    a larger height)"""
    if not env or not (r.atoms() & env.keys()):
        return r
    out = ZERO
    env0 = env
    for (bs, cs, fs), c in r.t.items():
        env = env0
        if bs and (set(bs) & env.keys()):
            env = {a: v for a, v in env0.items() if a not in bs}
        # avoid capture
        free = set()
        for v in env.values():
            free |= v.all_atoms()
        if free & set(bs):
            ren = {b: ints.fresh_idx(b.size) for b in bs}
            bs, cs, fs = _subkey((bs, cs, fs), ren)
        nbs = tuple(b if not (b.size.all_atoms() & env.keys()) else None for b in bs)
        if None in nbs:
            ren = {}
            for b in bs:
                if b.size.all_atoms() & env.keys():
                    ren[b] = ints.fresh_idx(ints.norm(ints.subst(b.size, env)))
            bs, cs, fs = _subkey((bs, cs, fs), ren)
        nc = frozenset(_subcond(x, env) for x in cs)
        t = R({(bs, nc, ()): c})
        for b, e in fs:
            nb = _subbase(b, env)
            if isinstance(e, R):
                e = canon(rsubst(e, env))
                if e.is_const():
                    e = e.value()
            if isinstance(nb, R):
                t = t * rpow(nb, e)
            else:
                t = t * rbase(nb, e)
        out = out + t
    return out


# ------------------------------------------------------------ constructors
ODD = {'sin', 'sinh', 'arcsin', 'arctan', 'tan', 'tanh'}
EVEN = {'cos', 'cosh', 'abs'}


def _lead_neg(r):
    k = min(r.t, key=_srt)
    return r.t[k] < 0


def rfun(name, a):
    a = canon(rlift(a))
    if name == 'exp':
        return rexp(a)
    if name == 'log':
        return rlog(a)
    if name == 'sqrt':
        return rpow(a, Fraction(1, 2))
    if name == 'tan':
        return rfun('sin', a) / rfun('cos', a)
    if name == 'tanh':
        return rfun('sinh', a) / rfun('cosh', a)
    if name == 'log10':
        return rlog(a) / rbase(Base('p', 'ln10'))
    sgn = 1
    if a.t and _lead_neg(a) and name in ODD | EVEN:
        a = -a
        sgn = -1 if name in ODD else 1
    if not a.t:
        z = {'sin': 0, 'cos': 1, 'sinh': 0, 'cosh': 1, 'arcsin': 0, 'arctan': 0, 'abs': 0}
        if name in z:
            return rconst(z[name])
    if name == 'abs' and a.is_const():
        return rconst(abs(a.value()))
    return rbase(Base('f', name, a)) * sgn


def rfun2(name, a, b):
    a, b = canon(rlift(a)), canon(rlift(b))
    if _srt(b.key()) < _srt(a.key()):
        a, b = b, a
    if a == b:
        return a
    return rbase(Base('g', name, a, b))


def rexp(a):
    a = canon(rlift(a))
    if not a.t:
        return ONE
    return rbase(Base('e', a))


POSITIVE = set()      # names of parameters known positive


def _nonneg_base(b):
    return b.kind in ('d', 'e', 's', 'q') or (b.kind == 'p' and b.args[0] in POSITIVE) \
        or (b.kind == 'f' and b.args[0] in ('cosh', 'abs'))


def _content(r):
    """r = c * M * r' ; c rational > 0 coefficient (sign kept in r'), M a
    binder-free product common to all terms.  r canonical."""
    terms = list(r.t.items())
    common = None
    expc = None
    for (bs, cs, fs), c in terms:
        fr = {}
        ex = {}
        for b, e in fs:
            if isinstance(e, R) and (e.atoms() & set(bs)):
                continue
            if b.kind == 'e':
                for kk, cc in b.args[0].t.items():
                    u = set()
                    one = R({kk: cc})
                    if not (one.atoms() & set(bs)):
                        ex[kk] = cc
                continue
            if b.ints() & set(bs):
                continue
            fr[b] = e
        if common is None:
            common, expc = fr, ex
        else:
            nc = {}
            for b, e in common.items():
                if b in fr:
                    f = fr[b]
                    if e == f:
                        nc[b] = e
                    elif isinstance(e, Fraction) and isinstance(f, Fraction) and e * f > 0:
                        nc[b] = min(e, f) if e > 0 else max(e, f)
            common = nc
            expc = {k: v for k, v in expc.items() if ex.get(k) == v}
    M = ONE
    for b, e in (common or {}).items():
        M = M * rbase(b, e)
    if expc:
        M = M * rexp(R(dict(expc)))
    c = abs(terms[0][1]) if len(terms) == 1 else abs(r.t[min(r.t, key=_srt)])
    inv = rconst(1 / c)
    (mk, mc), = M.t.items()
    invM = R({((), frozenset(), tuple((b, _emul(e, Fraction(-1))) if b.kind != 'e' else (Base('e', -b.args[0]), F1) for b, e in mk[2])): F1})
    return c, M, canon(r * inv * invM)


def rpow(r, e):
    r = rlift(r)
    if isinstance(e, R):
        e = canon(e)
        if e.is_const():
            e = e.value()
        elif any(cs for _, cs, _ in e.t):
            return _cases(e, lambda q: rpow(r, q))
    elif not isinstance(e, Fraction):
        e = rlift(e)
        return rpow(r, e)
    if e == 0:
        return ONE
    if e == 1:
        return r
    r = canon(r)
    if not r.t:
        if isinstance(e, Fraction) and e > 0:
            return ZERO
        raise Unsupported('power of zero')
    isint = isinstance(e, Fraction) and e.denominator == 1
    if len(r.t) == 1:
        ((bs, cs, fs), c), = r.t.items()
        if not bs and not (cs and not (isinstance(e, Fraction) and e > 0)):
            if not fs and c == 1:
                return R({(bs, cs, ()): F1})
            if isint:
                out = R({((), cs, ()): c ** int(e)})
                for b, x in fs:
                    out = out * _bpow(b, x, e)
                return out
            # real exponent
            pos, rest = [], []
            for b, x in fs:
                (pos if _nonneg_base(b) else rest).append((b, x))
            if len(rest) == 1 and c > 0 and (rest[0][1] == 1):
                pos += rest
                rest = []
            if not rest and c > 0:
                out = R({((), cs, ()): F1})
                if c != 1:
                    out = out * rbase(Base('q', c), e)
                for b, x in pos:
                    out = out * _bpow(b, x, e)
                return out
            inner = R({((), cs, tuple(rest)): c / abs(c)})
            out = ONE
            if abs(c) != 1:
                out = rbase(Base('q', abs(c)), e)
            for b, x in pos:
                out = out * _bpow(b, x, e)
            return out * rbase(Base('s', inner), e)
        if cs:
            raise Unsupported('power of a conditional term')
    if any(cs for (_, cs, _) in r.t):
        return _cases(r, lambda q: rpow(q, e))
    if isint and 0 < e <= 4 and not any(bs for bs, _, _ in r.t):
        out = r
        for _ in range(int(e) - 1):
            out = out * r
        return canon(out)
    if isint and 0 < e <= 2:
        return canon(r * r)
    c, M, q = _content(r)
    out = ONE
    if isint:
        out = rconst(c ** int(e))
    elif c != 1:
        out = rbase(Base('q', c), e)
    if not (M.is_const() and M.value() == 1):
        if not isint and any(not _nonneg_base(b) for b, _ in list(M.t)[0][2]):
            q = canon(q * M)
            M = ONE
        else:
            out = out * rpow(M, e)
    if len(q.t) == 1 and not list(q.t)[0][0]:
        return out * rpow(q, e)
    if isint and _lead_neg(q):
        q = -q
        if e % 2:
            out = -out
    return out * rbase(Base('s', q), e)


POLES = None      # [(base, exponent)] of the powers the code takes


def upow(a, e):
    """a power taken by the code"""
    if POLES is not None:
        POLES.append((rlift(a), rlift(e)))
    return rpow(a, e)


def udiv(a, b):
    """a division done by the code"""
    if POLES is not None:
        POLES.append((rlift(b), rconst(-1)))
    return a / b


def nonneg(e, facts=()):
    """z3: the exponent is not negative on this path, whatever its
    parameters in {0} and [1, oo); None when outside the linear fragment"""
    import z3
    vs, side = {}, []

    def real(r):
        tot = []
        for (bs, cs, fs), c in rlift(r).t.items():
            if bs:
                raise Unsupported('sum')
            q = z3.RealVal(str(c))
            for b, x in fs:
                if b.kind not in ('p', 'el') or not isinstance(x, Fraction) \
                        or x.denominator != 1 or x < 1:
                    raise Unsupported('exponent')
                v = vs.get(b.key)
                if v is None:
                    v = vs[b.key] = z3.Real('v%d' % len(vs))
                    side.append(z3.Or(v == 0, v >= 1))
                for _ in range(int(x)):
                    q = q * v
            for k in cs:
                q = z3.If(cond(k), q, z3.RealVal(0))
            tot.append(q)
        return z3.Sum(tot) if tot else z3.RealVal(0)

    def cond(k):
        if k.isint():
            return z3.Bool(repr(k))
        a = real(k.a)
        return {'rge': a >= 0, 'rlt': a < 0, 'req': a == 0, 'rne': a != 0}[k.op]
    try:
        t = real(canon(rlift(e)))
    except Unsupported:
        return None
    s = z3.Solver()
    s.set('timeout', 4000)
    for k in facts:
        n = len(side)
        try:
            g = cond(k)
        except Unsupported:
            del side[n:]
            continue
        s.add(g)
    s.add(*side)
    s.add(t < 0)
    return s.check() == z3.unsat


def _bpow(b, x, e):
    if b.kind == 'e':
        return rexp(b.args[0] * rlift(e))
    n = _emul(x, e)
    if b.kind == 'f' and b.args[0] == 'abs' and _even(n):
        return rpow(b.args[1], n)
    return rbase(b, n) if n != 0 else ONE


def _even(n):
    if isinstance(n, Fraction):
        return n.denominator == 1 and n.numerator % 2 == 0
    # polynomial in integer dimensions with even coefficients
    for (bs, cs, fs), c in n.t.items():
        if bs or cs or c.denominator != 1 or c.numerator % 2:
            return False
        if any(b.kind != 'd' or not isinstance(x, Fraction) or x.denominator != 1 or x < 0 for b, x in fs):
            return False
    return True


def _cases(r, f):
    """f applied to r whose terms carry conditions (free of binders): split
    on one condition at a time"""
    for (bs, cs, fs) in r.t:
        for c in cs:
            if c.atoms() & set(bs):
                raise Unsupported('function of a sum with bound conditions')
            pos, neg = {}, {}
            n = c.neg()
            for (b2, c2, f2), co in r.t.items():
                if c in c2:
                    k = (b2, c2 - {c}, f2)
                    pos[k] = pos.get(k, F0) + co
                elif n in c2:
                    k = (b2, c2 - {n}, f2)
                    neg[k] = neg.get(k, F0) + co
                else:
                    pos[(b2, c2, f2)] = pos.get((b2, c2, f2), F0) + co
                    neg[(b2, c2, f2)] = neg.get((b2, c2, f2), F0) + co
            P, Q = R(pos), R(neg)
            return rcond(c) * _guard(P, f) + rcond(n) * _guard(Q, f)
    return f(r)


def _guard(r, f):
    return _cases(canon(r), f)


def rlog(a):
    a = canon(rlift(a))
    if not a.t:
        raise Unsupported('log of zero')
    if a.is_const() and a.value() == 1:
        return ZERO
    if any(cs for (_, cs, _) in a.t):
        return _cases(a, rlog)
    c, M, q = _content(a)
    out = ZERO
    rest = ONE
    for b, e in list(M.t)[0][2]:
        if b.kind == 'e':
            out = out + b.args[0]
        elif b.kind in ('d', 's') or (b.kind == 'p' and b.args[0] in POSITIVE):
            out = out + rlift(e) * rbase(Base('f', 'log', rbase(b)))
        else:
            rest = rest * rbase(b, e)
    q = canon(q * rest * c)
    if q.is_const() and q.value() == 1:
        return out
    return out + rbase(Base('f', 'log', q))


def rsum(binders, r):
    """SUM over binder atoms"""
    binders = tuple(binders)
    if not binders:
        return r
    out = {}
    for (bs, cs, fs), c in r.t.items():
        if set(bs) & set(binders):
            raise Unsupported('binder reused')
        k = (bs + binders, cs, fs)
        out[k] = out.get(k, F0) + c
    return R(out)


def rite(c, a, b):
    a, b = rlift(a), rlift(b)
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    if a == b:
        return a
    return rcond(c) * a + rcond(c.neg()) * b


def rmax(name, binders, r):
    """opaque extremum over binders (alpha canonical)"""
    r = canon(r)
    h = r.height() + 1
    # canonical names for its binders
    binders = tuple(b for b in binders)
    if not binders:
        return r
    best = None
    for perm in itertools.permutations(binders):
        env = {b: atom(Atom('\u03b2%d_%d' % (h, i), 'idx', size=b.size)) for i, b in enumerate(perm)}
        q = canon(rsubst(r, env))
        k = _srt((tuple(b.size.key for b in perm), q.key()))
        if best is None or k < best[0]:
            best = (k, tuple(_atom_of(env[b]) for b in perm), q)
    return rbase(Base('m', name, best[1], best[2]))


# ------------------------------------------------------------ conditions
def decide(c):
    """True/False when the integer condition is settled, else None"""
    if not c.isint():
        if c.a.is_const():
            v = c.a.value()
            return {'rge': v >= 0, 'rlt': v < 0, 'req': v == 0, 'rne': v != 0}[c.op]
        k = ints.FACTS.conds
        if k:
            if c in k:
                return True
            if c.neg() in k:
                return False
        return None
    p = ints.norm(c.a)
    if p.is_const():
        v = p.value()
        return {'eq': v == 0, 'ne': v != 0, 'ge': v >= 0}[c.op]
    if c.op == 'ge':
        if prove_ge(p):
            return True
        if prove_ge(-p - 1):
            return False
        return None
    if prove_ge(p - 1) or prove_ge(-p - 1):
        return c.op == 'ne'
    j = _injective(p)
    if j is not None:
        return decide(Cond(c.op, j))
    return None


def _injective(q):
    """f(a) - f(b) == 0 <=> a - b == 0 ; different maps of a family never meet
    -> the simpler polynomial, or None"""
    if len(q.t) != 2:
        return None
    (m1, c1), (m2, c2) = q.t.items()
    if c1 + c2 != 0 or abs(c1) != 1:
        return None
    for m in (m1, m2):
        if len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'op' or m[0][0].name not in ints.INJ:
            return None
    a, b = m1[0][0], m2[0][0]
    if a.name == b.name:
        return ints.norm(a.args[0] - b.args[0])
    if ints.INJ[a.name][2] == ints.INJ[b.name][2]:
        return const(1)
    return None


def floor_ge(p):
    """p >= 0  <=>  q >= 0 with p = G*q + r, 0 <= r < G; None if there is none"""
    p = ints.norm(p)
    if p.is_const():
        return None
    g = ints._common_mono(p)
    if g:
        return ints._split_by(p, I({g: 1}))[0]
    cands = set()
    for m in p.t:
        ds = tuple((a, e) for a, e in m if a.kind == 'dim')
        if ds and ds != m:
            cands.add(I({ds: 1}))
    for G in sorted(cands, key=lambda z: _srt(z.key)):
        q, r = ints._split_by(p, G)
        if q.t and r.t:
            if prove_ge(r) and prove_ge(G - 1 - r):
                return q
            if prove_ge(r + G) and prove_ge(-r - 1):
                return q - 1
    return None


def split_eq(p):
    """p == 0  <=>  conjunction of simpler equalities (mixed radix)"""
    p = ints.norm(p)
    todo, out = [p], []
    while todo:
        q = todo.pop()
        done = False
        j = _injective(q)
        if j is not None:
            todo.append(j)
            continue
        if q.t and not q.is_const():
            # divide by a common dim monomial
            g = ints._common_mono(q)
            if g:
                q = ints._split_by(q, I({g: 1}))[0]
            cands = set()
            for m in q.t:
                ds = tuple((a, e) for a, e in m if a.kind == 'dim')
                if ds:
                    for k in range(1, 2 ** min(len(ds), 4)):
                        sub = tuple(x for i, x in enumerate(ds) if k >> i & 1)
                        cands.add(I({sub: 1}))
                c = abs(q.t[m])
                if c > 1:
                    cands.add(const(c))
                    if ds:
                        cands.add(I({ds: c}))
            for G in sorted(cands, key=lambda z: _srt(z.key)):
                if G.is_const():
                    A, B = {}, {}
                    for m, c in q.t.items():
                        if c % G.value() == 0:
                            A[m] = c // G.value()
                        else:
                            B[m] = c
                    A, B = I(A), I(B)
                else:
                    A, B = ints._split_by(q, G)
                if A.t and B.t and prove_ge(G - 1 - B) and prove_ge(G - 1 + B):
                    todo += [A, B]
                    done = True
                    break
        if not done:
            out.append(q)
    return out


# ------------------------------------------------------------ canonical form
_canon_cache = {}


def clear_cache():
    _canon_cache.clear()


def canon(r):
    if r._canon is not None and r._canon[0] == _stamp():
        return r._canon[1]
    out = {}
    work = list(r.t.items())
    n = 0
    while work:
        n += 1
        if n > LIMIT:
            raise Unsupported('normal form too large')
        k, c = work.pop()
        res = _step(k)
        if res is None:
            co, k = _alpha(k)
            out[k] = out.get(k, F0) + c * co
        else:
            for k2, c2 in res.t.items():
                work.append((k2, c * c2))
    q = R(out)
    q._canon = (_stamp(), q)
    r._canon = (_stamp(), q)
    return q


def _stamp():
    return (len(ints.FACTS.eqs), len(ints.FACTS.ge), ints.FACTS.gen)


def _occurs(a, cs, fs):
    return any(a in b.ints() or (isinstance(e, R) and a in e.atoms()) for b, e in fs) \
        or any(a in c.atoms() for c in cs)


def _sub1(bs, cs, fs, env):
    """substitution under the binders (env may mention them)"""
    return rsum(bs, rsubst(R({((), cs, fs): F1}), env))


def _step(k):
    """one simplification of a term -> R, or None when none applies"""
    bs, cs, fs = k
    # integer facts
    eqs = ints.FACTS.eqs
    if eqs:
        fr = set()
        for b, e in fs:
            fr |= b.ints()
            if isinstance(e, R):
                fr |= e.atoms()
        for c in cs:
            fr |= c.atoms()
        if fr & eqs.keys():
            return _sub1(bs, cs, fs, {a: v for a, v in eqs.items()})
        for b in bs:
            if b.size.all_atoms() & eqs.keys():
                n = ints.norm(b.size)
                return rsubst(R({(tuple(x for x in bs if x is not b), cs, fs): F1}), {b: ints.fresh_idx(n)}) \
                    if False else _resize(bs, cs, fs, b, n)
    # conditions
    for c in cs:
        d = decide(c)
        if d is False:
            return ZERO
        if d is True:
            return R({(bs, cs - {c}, fs): F1})
        if c.neg() in cs:
            return ZERO
        if c.op in ('req', 'rne') and len(c.a.t) == 1:
            # x [x = 0] = 0 and x [x != 0] = x
            ((b2, c2, f2), _), = c.a.t.items()
            if not b2 and not c2 and len(f2) == 1 and f2[0][1] == 1 and any(
                    b == f2[0][0] and isinstance(e, Fraction) and e > 0 for b, e in fs):
                return ZERO if c.op == 'req' else R({(bs, cs - {c}, fs): F1})
        elif c.op in ('req', 'rne') and all(not b2 and not c2 and len(f2) == 1 and f2[0][1] == 1 and not f2[0][0].ints()
                                            for b2, c2, f2 in c.a.t):
            # a sum of parameters: where it is zero the first is minus the rest
            ps = {f2[0][0]: co for (_, _, f2), co in c.a.t.items()}
            first = min(ps, key=lambda b: repr(b))
            here = {b: e for b, e in fs if b in ps and isinstance(e, Fraction) and e > 0 and e.denominator == 1}
            if here and c.op == 'rne':
                return R({(bs, cs - {c}, fs): F1}) - R({(bs, cs - {c} | {c.neg()}, fs): F1})
            if first in here:
                other = R({((), frozenset(), ((b, F1), )): -co / ps[first] for b, co in ps.items() if b != first})
                out = R({(bs, cs, tuple(q for q in fs if q[0] != first)): F1})
                for _ in range(int(here[first])):
                    out = out * other
                return out
        if c.op == 'eq':
            parts = split_eq(c.a)
            if len(parts) > 1 or parts[0] != ints.norm(c.a):
                nc = cs - {c} | {Cond('eq', p) for p in parts}
                if nc != cs:
                    return R({(bs, frozenset(nc), fs): F1})
        elif c.op == 'ge' and c.isint():
            q = floor_ge(c.a)
            if q is not None:
                return R({(bs, cs - {c} | {Cond('ge', q)}, fs): F1})
    # binders
    for b in bs:
        n = ints.norm(b.size)
        rest = tuple(x for x in bs if x != b)
        if not _occurs(b, cs, fs):
            return R({(rest, cs, fs): F1}) * rint(n)
        if n.is_const() and n.value() <= 16:
            out = ZERO
            for v in range(n.value()):
                out = out + _sub1(rest, cs, fs, {b: const(v)})
            return out
    for c in cs:
        if c.op != 'eq':
            continue
        p = ints.norm(c.a)
        for b in bs:
            if b not in p.atoms():
                continue
            s = ints._lin_split(p, b)
            if s is None:
                continue
            A, B = s
            if B.is_const() and abs(B.value()) == 1:
                v = -A if B.value() == 1 else A
                if b in v.all_atoms():
                    continue
                rest = tuple(x for x in bs if x != b)
                nc = cs - {c}
                t = _sub1(rest, nc, fs, {b: v})
                if not prove_ge(v):
                    t = t * rcond(Cond('ge', v))
                if not prove_ge(b.size - 1 - v):
                    t = t * rcond(Cond('ge', b.size - 1 - v))
                return t
    # a sum restricted to a part of its range
    for c in cs:
        if c.op != 'ge' or not c.isint():
            continue
        p = ints.norm(c.a)
        for b in bs:
            if b not in p.atoms():
                continue
            s = ints._lin_split(p, b)
            if s is None or not (s[1].is_const() and abs(s[1].value()) == 1):
                continue
            if (s[0].all_atoms() & set(bs)) or b in s[0].all_atoms():
                continue
            n = ints.norm(b.size)
            if s[1].value() == 1:       # b >= lo
                lo, hi = -s[0], n - 1
            else:                       # b <= hi
                lo, hi = const(0), s[0]
            if prove_ge(lo) and prove_ge(n - 1 - hi) and prove_ge(hi - lo):
                v = ints.fresh_idx(hi - lo + 1)
                rest = tuple(x for x in bs if x != b)
                return rsum((_atom_of(v), ), _sub1(rest, cs - {c}, fs, {b: v + lo}))
    # conditions that contradict each other
    ge = [c.a for c in cs if c.op == 'ge' and c.isint()]
    for x, y in itertools.combinations(ge, 2):
        if prove_ge(-ints.norm(x + y) - 1):
            return ZERO
    eq = [ints.norm(c.a) for c in cs if c.op == 'eq' and c.isint()]
    for x, y in itertools.combinations(eq, 2):
        for a in x.atoms() & y.atoms():
            if a.kind != 'idx' or a in bs:
                continue
            u, w = ints._lin_split(x, a), ints._lin_split(y, a)
            if u is None or w is None or not (u[1].is_const() and w[1].is_const()):
                continue
            if abs(u[1].value()) == 1 and abs(w[1].value()) == 1:
                z = ints.norm(x - y if u[1] == w[1] else x + y)
                if decide(Cond('eq', z)) is False:
                    return ZERO
    # an equality between free atoms: substitute in the rest of the term
    for c in cs:
        if c.op == 'eq' and len(cs) + len(fs) > 1:
            p = ints.norm(c.a)
            for a in sorted(p.atoms(), key=lambda z: _srt(z.key)):
                if a in bs or a.kind != 'idx':
                    continue
                s = ints._lin_split(p, a)
                if s is None or not (s[1].is_const() and abs(s[1].value()) == 1):
                    continue
                v = -s[0] if s[1].value() == 1 else s[0]
                if a in v.all_atoms():
                    continue
                if any(_occurs(a, (x,), ()) for x in cs if x != c) or _occurs(a, (), fs):
                    # keep only for constants (indices of fixed axes)
                    if v.is_const():
                        return _sub1(bs, cs - {c}, fs, {a: v}) * rcond(c)
    # factors
    for i, (b, e) in enumerate(fs):
        if b.kind == 'f' and b.args[0] in ('sin', 'cosh') and isinstance(e, Fraction) \
                and e.denominator == 1 and e >= 2:
            rest = fs[:i] + fs[i + 1:]
            if b.args[0] == 'sin':
                q = ONE - rfun('cos', b.args[1]) * rfun('cos', b.args[1])
            else:
                q = ONE + rfun('sinh', b.args[1]) * rfun('sinh', b.args[1])
            t = R({(bs, cs, rest): F1}) * q
            if e > 2:
                t = t * rbase(b, e - 2)
            return t
        if b.kind == 's' and isinstance(e, Fraction) and e.denominator == 1 and 0 < e <= 4:
            rest = fs[:i] + fs[i + 1:]
            t = R({(bs, cs, rest): F1})
            for _ in range(int(e)):
                t = t * b.args[0]
            return t
        if b.kind == 's':
            q = canon(b.args[0])
            if len(q.t) == 1 and not list(q.t)[0][0] and not list(q.t)[0][1]:
                rest = fs[:i] + fs[i + 1:]
                p = rpow(q, e)
                if p != rbase(b, e):
                    return R({(bs, cs, rest): F1}) * p
            if q.key() != b.args[0].key():
                rest = fs[:i] + fs[i + 1:]
                return R({(bs, cs, rest): F1}) * rpow(q, e)
        if b.kind == 'el':
            p = ints.norm(b.args[1])
            if p != b.args[1]:
                rest = fs[:i] + fs[i + 1:]
                return R({(bs, cs, rest): F1}) * rbase(Base('el', b.args[0], p), e)
    # merge binders that only occur as i*m+j
    if len(bs) > 1:
        for bi in bs:
            for bj in bs:
                if bi is bj:
                    continue
                m = bj.size
                if len(m.t) != 1:
                    continue
                r = _merge(bs, cs, fs, bi, bj, m)
                if r is not None:
                    return r
    return None


def _resize(bs, cs, fs, b, n):
    v = ints.fresh_idx(n)
    rest = tuple(x for x in bs if x != b)
    t = _sub1(rest, cs, fs, {b: v})
    return rsum((_atom_of(v),), t)


def _polys(cs, fs):
    for c in cs:
        if isinstance(c.a, I):
            yield c.a
        else:
            yield from _rpolys(c.a)
    for b, e in fs:
        yield from _bpolys(b)
        if isinstance(e, R):
            yield from _rpolys(e)


def _bpolys(b):
    for a in b.args:
        if isinstance(a, I):
            yield a
        elif isinstance(a, Atom):
            yield atom(a)
        elif isinstance(a, R):
            yield from _rpolys(a)


def _rpolys(r):
    for bs, cs, fs in r.t:
        yield from _polys(cs, fs)


def _repl(p, bi, bj, m, k):
    """p with (bi*m + bj) -> k, or None"""
    ats = p.all_atoms()
    if bi not in ats and bj not in ats:
        return p
    if not ({bi, bj} & ats) <= p.atoms():
        return None
    s = ints._lin_split(p, bi)
    if s is None:
        return None
    A, B = s
    if not B.t or bj in B.all_atoms():
        return None
    q, r = ints._split_by(B, m)
    if r.t:
        return None
    A2 = A - atom(bj) * q
    if bj in A2.all_atoms():
        return None
    return A2 + k * q


def _merge(bs, cs, fs, bi, bj, m):
    k = None
    for p in _polys(cs, fs):
        ats = p.all_atoms()
        if (bi in ats) or (bj in ats):
            if k is None:
                k = ints.fresh_idx(ints.norm(bi.size * m))
            if _repl(p, bi, bj, m, k) is None:
                return None
    if k is None:
        return None
    f = lambda p: _repl(p, bi, bj, m, k)
    rest = tuple(x for x in bs if x not in (bi, bj))
    t = _mapints(R({(rest, cs, fs): F1}), f)
    return rsum((_atom_of(k),), t)


def _mapints(r, f):
    out = ZERO
    for (bs, cs, fs), c in r.t.items():
        nc = frozenset(Cond(x.op, f(x.a)) if isinstance(x.a, I) else Cond(x.op, _mapints(x.a, f)) for x in cs)
        t = R({(bs, nc, ()): c})
        for b, e in fs:
            if isinstance(e, R):
                e = _mapints(e, f)
            args = tuple(f(a) if isinstance(a, I) else _mapints(a, f) if isinstance(a, R) else a for a in b.args)
            if b.kind == 'e':
                t = t * rexp(args[0])
            elif b.kind == 'd':
                t = t * rpow(rint(f(atom(b.args[0]))), e)
            else:
                t = t * rbase(Base(b.kind, *args), e)
        out = out + t
    return out


def _alpha(k):
    """canonical names for the binders of a term"""
    bs, cs, fs = k
    fs = tuple(sorted(fs, key=lambda x: _srt(x[0].key)))
    # a sign kept as a rational factor
    qs = [(b, e) for b, e in fs if b.kind == 'q' and isinstance(e, Fraction) and e.denominator == 1]
    co = F1
    for b, e in qs:
        co *= b.args[0] ** int(e)
    if qs:
        fs = tuple(x for x in fs if x not in qs)
    if not bs:
        return co, (bs, cs, fs)
    h = 0
    for b, e in fs:
        h = max(h, b.h)
        if isinstance(e, R):
            h = max(h, e.height())
    for c in cs:
        if isinstance(c.a, R):
            h = max(h, c.a.height())
    h += 1
    bs = tuple(sorted(bs, key=lambda a: _srt(a.size.key)))
    if len(bs) == 1:
        order = [bs]
    else:
        # signature: the term with this binder marked and the others blurred
        sig = {}
        for b in bs:
            env = {x: atom(Atom('\u03b2%d_%s' % (h, 'm' if x == b else 'o'), 'idx', size=x.size if x == b else const(0))) for x in bs}
            ks = []
            for f, e in fs:
                if not (f.ints() & set(bs)) and not isinstance(e, R):
                    continue
                try:
                    nf = _subbase(f, env)
                    ks.append(_srt((nf.key() if isinstance(nf, R) else nf.key, _ekey(rsubst(e, env) if isinstance(e, R) else e))))
                except Unsupported:
                    ks.append('?')
            for c in cs:
                ks.append(_srt(_subcond(c, env).key) if c.isint() else '?r')
            sig[b] = (_srt(b.size.key), tuple(sorted(ks)))
        groups = {}
        for b in bs:
            groups.setdefault(sig[b], []).append(b)
        gl = [groups[s] for s in sorted(groups)]
        cnt = 1
        for g in gl:
            cnt *= math.factorial(len(g))
        if cnt > 720:
            raise Unsupported('too many symmetric binders')
        order = [tuple(itertools.chain(*p)) for p in itertools.product(
            *[itertools.permutations(g) for g in gl])]
    best = None
    for o in order:
        env = {b: atom(Atom('\u03b2%d_%d' % (h, i), 'idx', size=ints.norm(b.size))) for i, b in enumerate(o)}
        cc, nk = _subkey_c((o, cs, fs), env)
        kk = _srt((tuple(b.key for b in nk[0]), sorted((c.key for c in nk[1]), key=_srt),
                   [(b.key, _ekey(e)) for b, e in nk[2]]))
        if best is None or kk < best[0]:
            best = (kk, nk, cc)
    return co * best[2], best[1]


# ------------------------------------------------------------ differentiation
def deriv(r, dirs):
    """directional derivative; dirs: array name -> name of its direction"""
    out = ZERO
    for (bs, cs, fs), c in r.t.items():
        for i, (b, e) in enumerate(fs):
            if isinstance(e, R) and deriv(e, dirs).t:
                raise Unsupported('variable exponent')
            db = _dbase(b, dirs)
            if not db.t:
                continue
            # binders of db must not clash: multiplication renames
            rest = R({(bs, cs, fs[:i] + fs[i + 1:]): c})
            if e == 1:
                out = out + _bmul(bs, rest, db)
            else:
                out = out + _bmul(bs, rest, rlift(e) * rbase(b, _eadd(e, Fraction(-1))) * db)
    return out


def _bmul(bs, rest, q):
    """rest has binders bs which may occur free in q: multiply under them"""
    out = ZERO
    for (b1, c1, f1), co in rest.t.items():
        inner = R({((), c1, f1): co}) * _fresh(q, set(b1))
        out = out + rsum(b1, inner)
    return out


def _fresh(q, avoid):
    o = {}
    for (bs, cs, fs), c in q.t.items():
        if set(bs) & avoid:
            ren = {b: ints.fresh_idx(b.size) for b in bs}
            bs, cs, fs = _subkey((bs, cs, fs), ren)
        o[(bs, cs, fs)] = o.get((bs, cs, fs), F0) + c
    return R(o)


def _dbase(b, dirs):
    k = b.kind
    if k == 'el':
        n = dirs.get(b.args[0])
        return rel(n, b.args[1]) if n else ZERO
    if k in ('p', 'd', 'q'):
        return ZERO
    if k == 'e':
        d = deriv(b.args[0], dirs)
        return rbase(b) * d if d.t else ZERO
    if k == 's':
        return deriv(b.args[0], dirs)
    if k == 'f':
        a = b.args[1]
        d = deriv(a, dirs)
        if not d.t:
            return ZERO
        n = b.args[0]
        f = {
            'sin': lambda: rfun('cos', a),
            'cos': lambda: -rfun('sin', a),
            'sinh': lambda: rfun('cosh', a),
            'cosh': lambda: rfun('sinh', a),
            'log': lambda: rpow(a, Fraction(-1)),
            'arcsin': lambda: rpow(ONE - a * a, Fraction(-1, 2)),
            'arccos': lambda: -rpow(ONE - a * a, Fraction(-1, 2)),
            'arctan': lambda: rpow(ONE + a * a, Fraction(-1)),
        }.get(n)
        if f is None:
            raise Unsupported('derivative of ' + n)
        return f() * d
    if k in ('m', 'g'):
        if any(deriv(a, dirs).t for a in b.args if isinstance(a, R)):
            raise Unsupported('derivative of an extremum')
        return ZERO
    raise Unsupported('derivative of ' + k)


# ------------------------------------------------------------ zero test
def is_zero(r):
    """True if r is zero as a normal form, also after clearing the
    denominators of terms with the same binders"""
    r = canon(r)
    if not r.t:
        return True
    groups = {}
    for (bs, cs, fs), c in r.t.items():
        groups.setdefault((bs, cs), {})[((), frozenset(), fs)] = c
    # each group over the same (canonical) binders must vanish pointwise
    for (bs, cs), t in groups.items():
        lin = {}
        for (_, _, fs), c in t.items():
            l = tuple((b, e) for b, e in fs if b.kind == 'el' and b.args[0][0] in '~')
            o = tuple((b, e) for b, e in fs if not (b.kind == 'el' and b.args[0][0] in '~'))
            lin.setdefault(l, {})[((), frozenset(), o)] = c
        for l, u in lin.items():
            if not _clear(R(u)):
                return False
    return True


def _clear(r):
    for _ in range(6):
        r = canon(r)
        if not r.t:
            return True
        low = {}
        bases = {}
        for (bs, cs, fs) in r.t:
            for b, e in fs:
                bases.setdefault(b, []).append(e)
        nt = len(r.t)
        mult = ONE
        for b, es in bases.items():
            if b.kind == 'e':
                continue
            fr = [e for e in es if isinstance(e, Fraction)]
            if len(fr) != len(es):
                continue
            m = min(fr + ([F0] if len(fr) < nt else []))
            if m < 0:
                mult = mult * rbase(b, -m)
        if mult == ONE:
            return False
        q = R({})
        for (bs, cs, fs), c in r.t.items():
            if bs:
                return False
            q = q + R({(bs, cs, fs): c}) * mult
        r = q
    return False


# ------------------------------------------------------------ evaluation
FUN = {'sin': math.sin, 'cos': math.cos, 'sinh': math.sinh, 'cosh': math.cosh,
       'log': math.log, 'arcsin': math.asin, 'arccos': math.acos,
       'arctan': math.atan, 'abs': abs}


def reval(r, env):
    """numeric value. env: Atom -> int, ('el', name) -> function of the flat
    index, ('p', name) -> float"""
    tot = 0.0
    for (bs, cs, fs), c in r.t.items():
        tot += float(c) * _tsum(list(bs), cs, fs, env)
    return tot


def _tsum(bs, cs, fs, env):
    if bs:
        b = bs[0]
        n = ints.ieval(b.size, env)
        s = 0.0
        e2 = env | {}
        for v in range(n):
            e2[b] = v
            s += _tsum(bs[1:], cs, fs, e2)
        return s
    for c in cs:
        v = ints.ieval(c.a, env) if isinstance(c.a, I) else reval(c.a, env)
        ok = {'eq': v == 0, 'ne': v != 0, 'ge': v >= 0, 'rge': v >= 0,
              'rlt': v < 0, 'req': v == 0, 'rne': v != 0}[c.op]
        if not ok:
            return 0.0
    p = 1.0
    for b, e in fs:
        x = _beval(b, env)
        y = float(e) if isinstance(e, Fraction) else reval(e, env)
        if y == int(y):
            y = int(y)
        p *= x ** y
    return p


def _beval(b, env):
    k = b.kind
    if k == 'el':
        return env[('el', b.args[0])](ints.ieval(b.args[1], env))
    if k == 'p':
        if b.args[0] == 'ln10':
            return math.log(10)
        return env[('p', b.args[0])]
    if k == 'q':
        return float(b.args[0])
    if k == 'd':
        return ints.ieval(atom(b.args[0]), env)
    if k == 'f':
        return FUN[b.args[0]](reval(b.args[1], env))
    if k == 'e':
        return math.exp(reval(b.args[0], env))
    if k == 's':
        return reval(b.args[0], env)
    if k == 'g':
        x, y = reval(b.args[1], env), reval(b.args[2], env)
        return max(x, y) if b.args[0] == 'max' else min(x, y)
    if k == 'm':
        vals = []

        def rec(bs, e):
            if not bs:
                vals.append(reval(b.args[2], e))
                return
            for v in range(ints.ieval(bs[0].size, e)):
                rec(bs[1:], e | {bs[0]: v})
        rec(list(b.args[1]), env)
        return max(vals) if b.args[0] == 'max' else min(vals)
    raise KeyError(k)
