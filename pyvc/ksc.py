"""C07: lemmas of the KS aggregate, and the exponentials of the real
components stay in range (obligation 'overflow').

For every evaluation of exp in compute and compute_partials, with argument t:
    t <= 0 for all inputs, and some argument of the aggregated elements is 0,
so that no exponential overflows and their sum lies between 1 and n however
large the inputs.  The arguments are read off the executed code; an extremum
max_b f(b) is any number that no f(b) exceeds, and max(a, b) is exact.

Lemmas (for every n, by induction over the partial sums):
    S_0 = 0, S_{k+1} = S_k + exp(rho (x_k - M)), x_k <= M, x_j = M for some j
    ==> 1 <= S_n <= n
    exp(rho M) S_n = sum exp(rho x_k)     (hence KS = M + log(S_n) / rho)
    M <= KS <= M + log(n) / rho"""
import itertools

import z3

from . import ints, terms, path
from .ints import norm, fresh_idx, const
from .terms import canon, R, rsubst


def bases(r, out=None):
    out = {} if out is None else out
    for (bs, cs, fs), c in r.t.items():
        for b, e in fs:
            if b not in out:
                out[b] = b
                for a in b.args:
                    if isinstance(a, R) and b.kind != 'm':
                        bases(a, out)
    return out


class Enc:
    def __init__(self):
        self.facts, self.v, self.exact = [], {}, True
        self.els = {}

    def base(self, b):
        if b in self.v:
            return self.v[b]
        k = b.kind
        if k == 'q':
            v = z3.RealVal(str(b.args[0]))
        elif k == 's':
            v = self(b.args[0])
        elif k == 'g':
            x, y = self(b.args[1]), self(b.args[2])
            v = z3.If(x >= y, x, y) if b.args[0] == 'max' else z3.If(x <= y, x, y)
        else:
            if k not in ('el', 'p', 'm'):
                self.exact = False
            v = z3.Real('b%d' % len(self.v))
            if k == 'p' and b.args[0] in terms.POSITIVE:
                self.facts.append(v > 0)
        self.v[b] = v
        return v

    def __call__(self, r):
        tot = z3.RealVal(0)
        for (bs, cs, fs), c in canon(r).t.items():
            if bs or cs:
                raise ints.Unsupported('sum or condition in an exponent')
            m = z3.RealVal(str(c))
            for b, e in fs:
                if isinstance(e, R) or e.denominator != 1:
                    raise ints.Unsupported('power in an exponent')
                v = self.base(b)
                for _ in range(abs(int(e))):
                    m = m * v if e > 0 else m / v
            tot = tot + m
        return tot


def match(body, binders, r):
    """substitutions of the binders such that a term of the instantiated body
    is one of the elements of r"""
    want = [b for b in bases(body) if b.kind == 'el']
    have = [b for b in bases(r) if b.kind == 'el']
    free = sorted({a for b in have for a in norm(b.args[1]).atoms() if a.kind == 'idx'}, key=repr)
    for w in want:
        for h in have:
            if w.args[0] != h.args[0]:
                continue
            for perm in itertools.permutations(free, len(binders)):
                env = {b: ints.atom(a) for b, a in zip(binders, perm)}
                if norm(ints.subst(w.args[1], env)) == norm(h.args[1]):
                    yield env


def overflow(ctx, log):
    if not log:
        return
    what = 'overflow'
    e = Enc()
    try:
        args, zero = [], []
        at = {}
        for dims, f in log:
            key = repr([norm(d) for d in dims])
            if key not in at:
                at[key] = tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in dims)
            idx = at[key]
            t = canon(f(idx))
            z = e(t)
            args.append(z)
            top = False
            for b in [b for b in bases(t) if b.kind == 'm']:
                if b.args[0] != 'max':
                    continue
                for env in match(b.args[2], b.args[1], t):
                    inst = e(rsubst(b.args[2], env))
                    e.facts.append(inst <= e.base(b))
                    if sorted((repr(norm(x.size)) for x in b.args[1])) == sorted(
                            repr(norm(ints.norm(env[x]).atoms().pop().size)) for x in b.args[1]):
                        # the element at which the extremum is attained
                        zero.append(z3.Implies(inst == e.base(b), z >= 0))
                        top = True
            if not top:
                zero.append(None)
        if any(x is None for x in zero):
            if any(x is not None for x in zero):
                raise ints.Unsupported('mixed exponents')
            zero = [z3.Or(*[a >= 0 for a in args])]
    except ints.Unsupported as x:
        ctx.open(what, 'exponents outside the verifier: %s' % x)
        return
    s = z3.Solver()
    s.set('timeout', 5000)
    s.add(*e.facts)
    bad = []
    for g, lim in [(a <= 0, a > 1000) for a in args] + [(z, z3.And(*[a < -1000 for a in args])) for z in zero]:
        s.push()
        s.add(z3.Not(g))
        v = s.check()
        s.pop()
        if v == z3.unsat:
            continue
        s.push()
        s.add(lim)
        sure = v == z3.sat and s.check() == z3.sat and e.exact
        s.pop()
        bad.append((sure, str(g)))
    if not bad:
        ctx.ok(what)
    else:
        if path.infeasible():
            raise path.Infeasible()
        ctx.obl(what).add('failed' if any(b[0] for b in bad) else 'other',
                          'an exponent is not bounded by 0 for large inputs: %s' % bad[0][1][:300])


# ------------------------------------------------------------------ lemmas
def lemma(ctx, what, hyps, goal):
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*hyps)
    if s.check() == z3.unsat:
        ctx.obl(what).add('other', 'vacuous')
        return
    s.add(z3.Not(goal))
    v = s.check()
    ctx.obl(what).add('proved' if v == z3.unsat else 'other', 'z3 answers %s' % v)


def bounds(ctx):
    """M <= KS <= M + log(n)/rho"""
    ctx.backend = 'z3'
    exp = z3.Function('exp', z3.RealSort(), z3.RealSort())
    log = z3.Function('log', z3.RealSort(), z3.RealSort())
    S, S1, x, M, rho, KS = z3.Reals('S S1 x M rho KS')
    k, n, j = z3.Ints('k n j')
    u, v = z3.Reals('u v')
    t = rho * (x - M)
    # instances of: exp is positive, at most 1 below 0, 1 at 0, log monotone
    ax = [rho > 0, exp(t) > 0, z3.Implies(t <= 0, exp(t) <= 1), z3.Implies(t == 0, exp(t) == 1), log(1) == 0]
    seen = z3.Bool('seen')     # an element equal to M is among the first k
    inv = lambda S, k, seen: z3.And(S >= 0, S <= z3.ToReal(k), z3.Implies(seen, S >= 1))
    lemma(ctx, 'sum bounds, no element', [k == 0, S == 0, z3.Not(seen)], inv(S, k, seen))
    lemma(ctx, 'sum bounds, one more element', ax + [k >= 0, inv(S, k, seen), x <= M, S1 == S + exp(t)],
          inv(S1, k + 1, z3.Or(seen, x == M)))
    mono = lambda a, b: z3.Implies(z3.And(0 < a, a <= b), log(a) <= log(b))
    nr = z3.ToReal(n)
    lemma(ctx, 'bound of the aggregate',
          [rho > 0, log(1) == 0, n >= 1, S >= 1, S <= nr, mono(z3.RealVal(1), S), mono(S, nr), KS == M + log(S) / rho],
          z3.And(KS >= M, KS <= M + log(nr) / rho))
    # shift: exp(rho M) times the shifted sum is the plain sum, element by element
    T, T1 = z3.Reals('T T1')
    lemma(ctx, 'shifted sum, no element', [S == 0, T == 0], exp(rho * M) * S == T)
    p = z3.Real('p')
    e1, e2 = z3.Reals('e1 e2')
    lemma(ctx, 'shifted sum, one more element',
          [p == exp(rho * M), e2 == p * e1, p * S == T, S1 == S + e1, T1 == T + e2], p * S1 == T1)
    lemma(ctx, 'shifted aggregate', [rho > 0, p == exp(rho * M), p > 0, S > 0, T == p * S, log(T) == log(p) + log(S),
                                     log(p) == rho * M], log(T) / rho == M + log(S) / rho)
