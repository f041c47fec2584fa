"""Integer terms: polynomials over dims, index variables and div/mod atoms,
with a small complete-enough prover for linear/mixed-radix facts."""
import itertools
from functools import lru_cache


class Unsupported(Exception):
    """The code left the verifier's subset; the obligation is undecided."""


_uid = itertools.count()


class Atom:
    __slots__ = ("name", "kind", "size", "args", "key", "_h")

    # kind: 'dim' (>= lo), 'idx' (0 <= . < size), 'op' (div/mod/pow...), 'int' (unbounded)
    def __init__(self, name, kind, size=None, args=None):
        self.name, self.kind, self.size, self.args = name, kind, size, args
        if kind == "op":
            self.key = (kind, name, tuple(a.key for a in args))
        elif kind == "idx" and name[0] == "\u03b2":
            self.key = (kind, name, size.key)     # canonical bound variable
        else:
            self.key = (kind, name)
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Atom) and self.key == o.key

    def __lt__(self, o):
        return repr(self.key) < repr(o.key)

    def __repr__(self):
        if self.kind == "op":
            return "%s(%s)" % (self.name, ",".join(map(repr, self.args)))
        return self.name


class I:
    """Immutable integer polynomial."""
    __slots__ = ("t", "key", "_h")

    def __init__(self, terms):
        # terms: dict mono(tuple of (Atom,exp) sorted) -> int
        self.t = {m: c for m, c in terms.items() if c != 0}
        self.key = tuple(sorted(
            ((tuple((a.key, e) for a, e in m), c) for m, c in self.t.items()), key=repr))
        self._h = hash(self.key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        if isinstance(o, int):
            o = const(o)
        return isinstance(o, I) and self.key == o.key

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def value(self):
        return self.t.get((), 0)

    def __add__(self, o):
        o = lift(o)
        d = dict(self.t)
        for m, c in o.t.items():
            d[m] = d.get(m, 0) + c
        return I(d)

    __radd__ = __add__

    def __neg__(self):
        return I({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-lift(o))

    def __rsub__(self, o):
        return lift(o) - self

    def __mul__(self, o):
        o = lift(o)
        d = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                d[m] = d.get(m, 0) + c1 * c2
        return I(d)

    __rmul__ = __mul__

    def __pow__(self, n):
        r = const(1)
        for _ in range(n):
            r = r * self
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def all_atoms(self):
        s = set()
        for a in self.atoms():
            s.add(a)
            if a.kind == "op":
                for x in a.args:
                    s |= x.all_atoms()
        return s

    def __repr__(self):
        if not self.t:
            return "0"
        out = []
        for m, c in sorted(self.t.items(), key=lambda x: repr(x[0])):
            s = "*".join(("%r" % a) + ("^%d" % e if e > 1 else "") for a, e in m)
            out.append(("%d*" % c if c != 1 else "") + s if s else str(c))
        return " + ".join(out)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items(), key=lambda x: repr(x[0].key)))


def const(n):
    return I({(): n})


def lift(x):
    if isinstance(x, I):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return const(x)
    raise Unsupported("not an integer term: %r" % (x,))


def atom(a):
    return I({((a, 1),): 1})


def dim(name):
    return atom(Atom(name, "dim"))


def fresh_idx(size, name=None):
    return atom(Atom("%s%d" % (name or "i", next(_uid)), "idx", size=lift(size)))


def subst(p, env):
    """env: dict Atom -> I"""
    if not env or not any(a in env for a in p.all_atoms()):
        return p
    r = const(0)
    for m, c in p.t.items():
        t = const(c)
        for a, e in m:
            if a in env:
                v = env[a]
            elif a.kind == "op":
                args = [subst(x, env) for x in a.args]
                v = OPS[a.name](*args)
            else:
                v = atom(a)
            t = t * (v ** e)
        r = r + t
    return r


# ---------------------------------------------------------------- prover
class Facts:
    """Path facts about integers; set by the path engine."""
    def __init__(self):
        self.eqs = {}      # Atom -> I  substitutions
        self.ge = []       # list of I known >= 0
        self.z3cache = {}
        self.gen = 0
        self.conds = set()  # conditions known to hold
        self.blk1 = set()   # blocks known to be one axis of size 1


FACTS = Facts()


def reset_facts():
    global FACTS
    FACTS.eqs = {}
    FACTS.ge = []
    FACTS.z3cache = {}
    FACTS.conds = set()
    FACTS.blk1 = set()
    FACTS.gen += 1
    nonneg.cache_clear()


def recombine(p):
    """d*div(e, d) + mod(e, d) = e"""
    mods = [(m, c) for m, c in p.t.items() if any(a.kind == "op" and a.name == "mod" for a, _ in m)]
    if not mods or not any(a.kind == "op" and a.name == "div" for m in p.t for a, _ in m):
        return p
    for m, c in mods:
        for a, e in m:
            if a.kind == "op" and a.name == "mod" and e == 1:
                n, d = a.args
                q = idiv(n, d)
                M = I({tuple(x for x in m if x[0] != a): c})
                want = M * d * q
                if want.t and all(p.t.get(k) == v for k, v in want.t.items()):
                    return recombine(p - want - I({m: c}) + M * n)
    return p


def norm(p):
    p = _norm(p)
    return recombine(p) if len(p.t) > 1 else p


def _norm(p):
    p = lift(p)
    if FACTS.eqs:
        for _ in range(8):
            q = subst(p, FACTS.eqs)
            if q == p:
                break
            p = q
    return p


def _lin_split(p, a):
    """p = A + B*a (degree <=1 in a) else None"""
    A, B = {}, {}
    for m, c in p.t.items():
        e = dict(m).get(a, 0)
        if e == 0:
            A[m] = c
        elif e == 1:
            B[tuple(x for x in m if x[0] != a)] = c
        else:
            return None
    return I(A), I(B)


@lru_cache(maxsize=200000)
def nonneg(p, depth=0):
    """Prove p >= 0 using ranges of atoms (sufficient, not necessary)."""
    if p.is_const():
        return p.value() >= 0
    if depth > 12:
        return False
    # eliminate index atoms
    ats = sorted(p.atoms(), key=lambda a: repr(a.key))
    for a in ats:
        if a.kind == "idx":
            s = _lin_split(p, a)
            if s is None:
                continue
            A, B = s
            if any(a in x.size.all_atoms() for x in A.atoms() | B.atoms() if x.kind == "idx"):
                continue
            if nonneg(B, depth + 1):
                return nonneg(A, depth + 1)
            if nonneg(-B, depth + 1):
                return nonneg(A + B * (a.size - 1), depth + 1)
            # sign of B unknown: need both ends
            return nonneg(A, depth + 1) and nonneg(A + B * (a.size - 1), depth + 1)
    for a in ats:
        if a.kind == "op" and a.name == "mod":
            s = _lin_split(p, a)
            if s is None:
                continue
            A, B = s
            return nonneg(A, depth + 1) and nonneg(A + B * (a.args[1] - 1), depth + 1)
        if a.kind == "op" and a.name == "div":
            # value v with  d*v <= num < d*v + d ; lower bound 0 when num>=0
            s = _lin_split(p, a)
            if s is None:
                continue
            A, B = s
            if nonneg(B, depth + 1) and nonneg(a.args[0], depth + 1):
                return nonneg(A, depth + 1)
            return False
        if a.kind == "op" and a.name in INJ:
            s = _lin_split(p, a)
            if s is None:
                continue
            A, B = s
            return nonneg(A, depth + 1) and nonneg(A + B * (INJ[a.name][1] - 1), depth + 1)
        if a.kind in ("op", "int"):
            return False
    # only dims: substitute d = 1 + d', all coefficients nonneg
    env = {a: atom(a) + 1 for a in ats}
    q = subst(p, env)
    return all(c >= 0 for c in q.t.values())


def _z3_term(p, vs, cons):
    import z3
    r = z3.IntVal(0)
    for m, c in p.t.items():
        t = z3.IntVal(c)
        for a, e in m:
            v = _z3_atom(a, vs, cons)
            for _ in range(e):
                t = t * v
        r = r + t
    return r


def _z3_atom(a, vs, cons):
    import z3
    if a in vs:
        return vs[a]
    v = z3.Int(repr(a))
    vs[a] = v
    if a.kind == "dim":
        cons.append(v >= 1)
    elif a.kind == "idx":
        cons.append(v >= 0)
        cons.append(v < _z3_term(a.size, vs, cons))
    elif a.kind == "op" and a.name == "div":
        n, d = (_z3_term(x, vs, cons) for x in a.args)
        cons += [d * v <= n, n < d * v + d]
    elif a.kind == "op" and a.name == "mod":
        n, d = (_z3_term(x, vs, cons) for x in a.args)
        q = z3.Int("q_" + repr(a))
        cons += [v >= 0, v < d, n == d * q + v]
    elif a.kind == "op" and a.name in INJ:
        cons += [v >= 0, v < _z3_term(INJ[a.name][1], vs, cons)]
    return v


STATS = {"z3_queries": 0, "z3_time": 0.0, "struct": 0}


def z3_check(ges, eqs=(), timeout=2000, want_model=False, extra=None):
    """Is the conjunction (ge >= 0 ..., eq == 0 ...) & facts satisfiable?
    returns 'sat'/'unsat'/'unknown' (and model dict if asked)"""
    import z3, time
    vs, cons, fs = extra if extra else ({}, [], [])
    for p in list(ges) + FACTS.ge:
        fs.append(_z3_term(norm(p), vs, cons) >= 0)
    for p in eqs:
        fs.append(_z3_term(norm(p), vs, cons) == 0)
    for a, v in FACTS.eqs.items():
        fs.append(_z3_atom(a, vs, cons) == _z3_term(v, vs, cons))
    s = z3.Solver()
    s.set("timeout", timeout)
    s.add(*cons)
    s.add(*fs)
    t0 = time.time()
    r = s.check()
    STATS["z3_queries"] += 1
    STATS["z3_time"] += time.time() - t0
    r = str(r)
    if want_model:
        if r == "sat":
            m = s.model()
            return r, {a: m.eval(v, model_completion=True).as_long() for a, v in vs.items()}
        return r, None
    return r


def prove_ge(p):
    """p >= 0 on the current path?"""
    p = norm(p)
    if nonneg(p):
        STATS["struct"] += 1
        return True
    if p.is_const():
        return False
    for f in FACTS.ge:
        if nonneg(p - norm(f)):
            STATS["struct"] += 1
            return True
    if FACTS.ge or FACTS.eqs or True:
        k = ("ge", p.key, len(FACTS.ge), len(FACTS.eqs))
        if k not in FACTS.z3cache:
            FACTS.z3cache[k] = z3_check([-p - 1], timeout=500) == "unsat"
        return FACTS.z3cache[k]


def prove_lt(a, b):
    return prove_ge(lift(b) - lift(a) - 1)


def prove_eq(a, b):
    d = norm(lift(a) - lift(b))
    if d == const(0):
        return True
    if d.is_const() or not (FACTS.ge or FACTS.eqs):
        return False
    k = ("eq", d.key, len(FACTS.ge), len(FACTS.eqs))
    if k not in FACTS.z3cache:
        FACTS.z3cache[k] = z3_check([d - 1], timeout=1000) == "unsat" and z3_check([-d - 1], timeout=1000) == "unsat"
    return FACTS.z3cache[k]


# ---------------------------------------------------------------- div / mod
def _mono_divides(m, d):
    """monomial d divides m -> quotient mono or None"""
    md = dict(m)
    for a, e in d:
        if md.get(a, 0) < e:
            return None
        md[a] -= e
    return tuple(sorted(((a, e) for a, e in md.items() if e), key=lambda x: repr(x[0].key)))


def _split_by(p, d):
    """p = d*q + r with q gathering the monomials divisible by d (d monomial)"""
    (dm, dc), = d.t.items()
    q, r = {}, {}
    for m, c in p.t.items():
        k = _mono_divides(m, dm)
        if k is None:
            r[m] = c
        else:
            qq, rr = divmod(c, dc)
            if qq:
                q[k] = q.get(k, 0) + qq
            if rr:
                r[m] = rr
    return I(q), I(r)


def _common_mono(p):
    g = None
    for m in p.t:
        md = dict(m)
        if g is None:
            g = md
        else:
            g = {a: min(e, md[a]) for a, e in g.items() if a in md}
    return tuple(sorted(((a, e) for a, e in (g or {}).items() if a.kind == "dim"),
                        key=lambda x: repr(x[0].key)))


def _longdiv(p, d):
    """p = q*d + r by a monomial of d with coefficient 1"""
    if prove_ge(p) and prove_lt(p, d):
        yield const(0), p
    for lm, lc in d.t.items():
        if abs(lc) != 1 or not lm:
            continue
        q, r = const(0), p
        for _ in range(12):
            t = {}
            for m, c in r.t.items():
                k = _mono_divides(m, lm)
                if k is not None:
                    t[k] = c * lc
            if not t:
                break
            q = q + I(t)
            r = r - I(t) * d
        if q.t:
            yield q, r


def idiv(p, d):
    p, d = norm(p), norm(d)
    if d == const(1):
        return p
    if p.is_const() and d.is_const():
        return const(p.value() // d.value())
    if len(d.t) == 1:
        q, r = _split_by(p, d)
        # single-index remainder trick
        if r == const(0) or (prove_ge(r) and prove_lt(r, d)):
            return q
        # common factor
        (dm, dc), = d.t.items()
        if r.t:
            g = _common_mono(r)
            gd = tuple((a, e) for a, e in g if dict(dm).get(a, 0) >= e)
            if gd:
                G = I({gd: 1})
                r2, _ = _split_by(r, G)
                d2, _ = _split_by(d, G)
                return q + idiv(r2, d2)
        # drop part r = G*u + w with 0<=w<G, G | d
        for G in _divisors(d):
            u, w = _split_by(r, G)
            if u.t and w.t and prove_ge(w) and prove_lt(w, G):
                d2, _ = _split_by(d, G)
                return q + idiv(u, d2)
        if q.t:
            return q + idiv(r, d)
        # nested div: (x // a) // b = x // (a*b)
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind == "op" and m[0][0].name == "div":
                n0, d0 = m[0][0].args
                return idiv(n0, d0 * d)
    elif d.t:
        for q, r in _longdiv(p, d):
            if prove_ge(r) and prove_lt(r, d):
                return q
    return atom(Atom("div", "op", args=(p, d)))


def _divisors(d):
    (dm, dc), = d.t.items()
    ats = [(a, e) for a, e in dm if a.kind == "dim"]
    outs = []
    for es in itertools.product(*[range(e + 1) for _, e in ats]):
        m = tuple((a, k) for (a, _), k in zip(ats, es) if k)
        for c in {1, dc}:
            g = I({m: c})
            if g != const(1) and g != d:
                outs.append(g)
    return outs


def imod(p, d):
    p, d = norm(p), norm(d)
    if d == const(1):
        return const(0)
    if p.is_const() and d.is_const():
        return const(p.value() % d.value())
    if len(d.t) == 1:
        q, r = _split_by(p, d)
        if r == const(0) or (prove_ge(r) and prove_lt(r, d)):
            return r
        # r = G*u + w, 0<=w<G, G|d  ->  G*(u mod d/G) + w
        for G in _divisors(d):
            u, w = _split_by(r, G)
            if u.t and prove_ge(w) and prove_lt(w, G):
                d2, _ = _split_by(d, G)
                return G * imod(u, d2) + w
        # div atoms: (x//a) mod b  where p = x//a
        p = r
    elif d.t:
        for q, r in _longdiv(p, d):
            if prove_ge(r) and prove_lt(r, d):
                return r
    return atom(Atom("mod", "op", args=(p, d)))


OPS = {"div": idiv, "mod": imod}
INJ = {}        # injective integer maps: name -> (domain size, codomain size, family)


def imap(name, dom, cod, family):
    """uninterpreted injective map {0..dom-1} -> {0..cod-1}; maps of one
    family have disjoint ranges"""
    INJ[name] = (lift(dom), lift(cod), family)

    def f(p):
        return atom(Atom(name, "op", args=(norm(p),)))
    OPS[name] = f
    return f


def prod(xs):
    r = const(1)
    for x in xs:
        r = r * lift(x)
    return r


def ravel(idx, shape):
    p = const(0)
    for i, n in zip(idx, shape):
        p = p * lift(n) + lift(i)
    return p


def unravel(p, shape):
    out = []
    shape = [norm(s) for s in shape]
    for k in range(len(shape)):
        if shape[k] == const(1):
            out.append(const(0))
            continue
        tail = prod(shape[k + 1:])
        q = idiv(p, tail)
        if k > 0 and any(s != const(1) for s in shape[:k]):
            q = imod(q, shape[k])
        out.append(q)
    return tuple(out)


def size_one_simplify(idx):
    """index variables over a size-1 axis are 0"""
    idx = norm(idx)
    env = {a: const(0) for a in idx.all_atoms() if a.kind == "idx" and norm(a.size) == const(1)}
    return subst(idx, env)


def ieval(p, env):
    """value of p with env: Atom -> int"""
    r = 0
    for m, c in p.t.items():
        t = c
        for a, e in m:
            if a in env:
                v = env[a]
            elif a.kind == "op" and a.name in ("div", "mod"):
                x, y = (ieval(q, env) for q in a.args)
                v = x // y if a.name == "div" else x % y
            elif a.kind == "op":
                v = env["fun"][a.name](*[ieval(q, env) for q in a.args])
            else:
                raise KeyError(a)
            t *= v ** e
        r += t
    return r
