"""Loop contract of the bisection of bracketed implicit outputs (C16).

The loop of ImplicitComponent.solve_nonlinear over range(maxiter), maxiter
symbolic, is not unrolled: at its head the two arrays that carry the bracket
are recognised by what they satisfy, their contents (and whatever else the body
writes) are replaced by arbitrary values that satisfy the invariant, the real
body is executed once, and the invariant must hold again with half the width.

Invariant for every element i, with W = |x1 - x2|:
    min(x1, x2) <= P, N <= max(x1, x2);  |P - N| <= D;  r(P) >= 0 >= r(N)
    D = W on entry, and an iteration halves D.
Residuals are elementwise in the output and otherwise arbitrary (sin stands
for an uninterpreted function)."""
import ast
import itertools
import time

import z3

from . import arr, ints, path, seqs, terms, prob
from .arr import Arr, Store
from .ints import I, const, norm, ravel, Unsupported
from .terms import R, Cond, rel, canon, ZERO

# ------------------------------------------------------------ terms to z3
_f1 = {}


def ufun(name):
    if name not in _f1:
        _f1[name] = z3.Function('F_' + name, z3.RealSort(), z3.RealSort())
    return _f1[name]


def tz(r):
    """a real term; sums over index variables and the like are opaque"""
    tot = z3.RealVal(0)
    for (bs, cs, fs), c in canon(r).t.items():
        if bs:
            tot = tot + z3.RealVal(str(c)) * z3.Real('sum:' + repr(R({(bs, cs, fs): c / c})))
            continue
        m = z3.RealVal(str(c))
        for b, e in fs:
            m = m * _pw(_bz(b), b, e)
        for x in sorted(cs, key=repr):
            m = z3.If(cz(x), m, z3.RealVal(0))
        tot = tot + m
    return tot


def _pw(v, b, e):
    if isinstance(e, R):
        raise Unsupported('power')
    if e.denominator == 1 and 0 < e <= 6:
        r = v
        for _ in range(int(e) - 1):
            r = r * v
        return r
    return ufun('pow%s' % e)(v)


def _bz(b):
    k = b.kind
    if k in ('el', 'p', 'd', 'q', 'm'):
        if k == 'q':
            return z3.RealVal(str(b.args[0]))
        return z3.Real('%s:%r' % (k, b))
    if k == 'e':
        return ufun('exp')(tz(b.args[0]))
    if k == 'f':
        return ufun(b.args[0])(tz(b.args[1]))
    if k == 's':
        return tz(b.args[0])
    raise Unsupported('term of kind ' + k)


def cz(c):
    if c.isint():
        return z3.Bool('cond:' + repr(c))
    v = tz(c.a)
    return {'rge': v >= 0, 'rlt': v < 0, 'req': v == 0, 'rne': v != 0}[c.op]


# ------------------------------------------------------------ case analysis
def inner(r):
    """a real condition that mentions no other condition, or None"""
    for (bs, cs, fs), c in r.t.items():
        for x in sorted(cs, key=repr):
            if not x.isint():
                return inner(x.a) or x
        for b, e in fs:
            for a in b.args:
                if isinstance(a, R):
                    d = inner(a)
                    if d is not None:
                        return d
    return None


def settle(r, c, v):
    """the term in the case that the condition has the given truth value"""
    n = c.neg()
    out = ZERO
    for (bs, cs, fs), k in r.t.items():
        keep, zero = [], False
        for x in cs:
            if x == c or x == n:
                if (x == c) != v:
                    zero = True
            else:
                keep.append(x if x.isint() else Cond(x.op, canon(settle(x.a, c, v))))
        if zero:
            continue
        t = R({(bs, frozenset(keep), ()): k})
        for b, e in fs:
            if any(isinstance(a, R) and inner(a) is not None for a in b.args):
                g = _settleb(b, c, v)
                t = t * (g if e == 1 else terms.rpow(g, e))
            else:
                t = t * terms.rbase(b, e)
        out = out + t
    return canon(out)


def _settleb(b, c, v):
    a = [canon(settle(x, c, v)) if isinstance(x, R) else x for x in b.args]
    if b.kind == 'e':
        return terms.rexp(a[0])
    if b.kind == 's':
        return a[0]
    if b.kind == 'f':
        return terms.rfun(b.args[0], a[1])
    raise Unsupported('conditional term')


def leaves(ts, facts, depth=0):
    """(facts, terms) of every case of the conditions in the terms"""
    for t in ts:
        c = inner(t)
        if c is not None:
            break
    else:
        yield facts, ts
        return
    if depth > 12:
        raise Unsupported('too many conditions')
    for v in (True, False):
        f = facts + [cz(c) if v else z3.Not(cz(c))]
        if sat(f) == z3.unsat:
            continue
        yield from leaves([settle(t, c, v) for t in ts], f, depth + 1)


def sat(fs, ms=4000):
    s = z3.Solver()
    s.set('timeout', ms)
    s.add(*fs)
    t0 = time.time()
    r = s.check()
    ints.STATS['z3_time'] += time.time() - t0
    ints.STATS['z3_queries'] += 1
    return r


def valid(facts, goal, ms=8000):
    """True, False (refuted by the solver) or None"""
    r = sat(list(facts) + [z3.Not(goal)], ms)
    return True if r == z3.unsat else False if r == z3.sat else None


def holds(ts, facts, goal):
    """does goal(z3 terms) follow in every case"""
    out = True
    for fs, us in leaves([canon(t) for t in ts], list(facts)):
        v = valid(fs, goal(us))
        if v is not True:
            return v
    return out


# ------------------------------------------------------------ the loop
class Bisect:
    """contract of one bracketed output: dims, x1, x2 (index -> term) and the
    residual as a function of an array"""

    def __init__(self, name, dims, blk, x1, x2, res, brackets, inputs):
        self.name, self.dims, self.blk = name, dims, blk
        self.x1, self.x2, self.res = x1, x2, res
        self.brackets, self.inputs = brackets, inputs
        self.exact = False      # the solver decides the formulas of this residual
        self.done = None        # (P, N) names after the loop

    def index(self):
        return tuple(ints.fresh_idx(d) if norm(d) != const(1) else const(0) for d in self.dims)

    def r(self, f, i):
        """residual at element i when the output holds f"""
        return canon(self.res(Arr(self.dims, f, 'f', self.blk)).snap()(i))

    def pre(self, i):
        a, b = tz(self.r(self.x1, i)), tz(self.r(self.x2, i))
        return [z3.Or(z3.And(a >= 0, b <= 0), z3.And(a <= 0, b >= 0))]

    def inv(self, P, N, D, i):
        """formulas of the invariant for terms without conditions"""
        a, b = tz(self.x1(i)), tz(self.x2(i))
        lo, hi = z3.If(a <= b, a, b), z3.If(a <= b, b, a)
        p, n = tz(P), tz(N)
        return [lo <= p, p <= hi, lo <= n, n <= hi, p - n <= D, n - p <= D], p, n

    def invariant(self, P, N, D, i):
        f, p, n = self.inv(P, N, D, i)
        return f + [tz(self.r(lambda _: P, i)) >= 0, tz(self.r(lambda _: N, i)) <= 0]

    def width(self, i):
        a, b = tz(self.x1(i)), tz(self.x2(i))
        return z3.If(a <= b, b - a, a - b)

    def check(self, fP, fN, facts, D, i):
        """do the arrays satisfy the invariant at the generic element i"""
        for fs, (P, N) in leaves([canon(fP(i)), canon(fN(i))], facts):
            for g in self.invariant(P, N, D, i):
                v = valid(fs, g)
                if v is not True:
                    return v, g
        return True, None


class Loop:
    def __init__(self, ctx, specs, maxiter, problem):
        self.ctx, self.specs, self.m, self.prob = ctx, specs, maxiter, problem
        self.runs = 0

    def arrays(self, fr):
        return {n: v for n, v in fr.f_locals.items()
                if isinstance(v, Arr) and v.to is None and v.kind == 'f' and not v.store.ro}

    def __call__(self, rng, fr):
        ctx = self.ctx
        d = norm(norm(rng.n) - norm(self.m))
        if d and not ints.nonneg(d):
            e = path.decide_formula(('c', terms.Cond('ge', d)))
            if e is False:
                # fewer halvings than the precision that is promised needs
                ctx.obl('number of iterations').add(
                    'failed', 'the loop has %s iterations where maxiter is larger' % (norm(rng.n), ))
                return
            if e is None:
                raise Unsupported('loop over a range of symbolic length')
        ctx.ok('number of iterations')
        names = self.arrays(fr)
        sp = self.role(names)
        if sp is None:
            raise Unsupported('no arrays that carry the bracket at the head of the loop')
        b, P, N, i, facts = sp
        ctx.ok('loop entry (%s)' % b.name)
        stored = body_names(fr, {P, N})
        havoc = []      # stores the body writes
        for rnd in range(5):
            self.runs += 1
            tag = '~%d' % self.runs
            ar = self.arrays(fr)
            if P not in ar or N not in ar or ar[P].store is ar[N].store:
                raise Unsupported('the arrays of the bracket are rebound')
            self.fill(ar[P], tag + 'P')
            self.fill(ar[N], tag + 'N')
            for k, s in enumerate(havoc):
                self.garbage(s, '%sh%d' % (tag, k))
            known = {id(s) for s in havoc} | {id(ar[P].store), id(ar[N].store)}
            fP, fN = ar[P].store.fn, ar[N].store.fn
            D = z3.Real('width' + tag)
            log, Store.log = Store.log, []
            born = Store.count
            done = False
            try:
                yield arr.mkint(ints.atom(ints.Atom('it%d' % self.runs, 'idx', size=norm(self.m))))
                done = True
            finally:
                new, Store.log = Store.log, log
                if not done:
                    ctx.open('loop', 'the loop can be left before its last iteration')
            fresh = []
            for s in new:
                if id(s) not in known and s.serial <= born and s not in fresh:
                    fresh.append(s)
            if fresh:
                havoc += fresh
                continue
            # preservation
            br = self.arrays(fr)
            if P not in br or N not in br:
                raise Unsupported('the arrays of the bracket are rebound')
            f0 = facts + self.specs[b.name].invariant(fP(i), fN(i), D, i)
            v, g = b.check(br[P].store.fn, br[N].store.fn, f0, D / 2, i)
            if v is True:
                ctx.ok('loop iteration (%s)' % b.name)
            else:
                # a countermodel (the residual is an uninterpreted function)
                ctx.obl('loop iteration (%s)' % b.name).add(
                    'failed' if v is False and b.exact else 'other', 'the invariant is not kept: %s' % g)
            own = {tag + 'P', tag + 'N'} | set(b.brackets)
            for f in (br[P].store.fn, br[N].store.fn):
                q = foreign(f(i), i, b.dims, own, b.inputs)
                if q:
                    ctx.open('independence (%s)' % b.name, 'depends on %s' % q)
                else:
                    ctx.ok('independence (%s)' % b.name)
            self.runs += 1
            tag = '~%d' % self.runs
            self.fill(br[P], tag + 'P')
            self.fill(br[N], tag + 'N')
            for k, s in enumerate(havoc):
                self.garbage(s, '%sh%d' % (tag, k))
            b.done = (tag + 'P', tag + 'N')
            return
        raise Unsupported('the body of the loop writes ever more arrays')

    def fill(self, a, name):
        d = a.dims
        a.store.write(lambda i: rel(name, ravel(i, d)))

    def garbage(self, s, name):
        d = s.dims
        s.write(lambda i: rel(name, ravel(i, d)))

    def role(self, names):
        for b in self.specs.values():
            if b.done is not None:
                continue
            i = b.index()
            facts = b.pre(i)
            D = b.width(i)
            for P, N in itertools.permutations(sorted(names), 2):
                p, n = names[P], names[N]
                if [norm(x) for x in p.dims] != [norm(x) for x in b.dims] or p.store is n.store or \
                        [norm(x) for x in n.dims] != [norm(x) for x in b.dims]:
                    continue
                try:
                    v, _ = b.check(p.store.fn, n.store.fn, facts, D, i)
                except Unsupported:
                    continue
                if v is True:
                    return b, P, N, i, facts
        return None


def foreign(e, i, dims, own, inputs):
    """what the term uses besides element i of the arrays in own, and the
    inputs"""
    k = norm(ravel(i, dims))
    bad = set()

    def f(n):
        def g(p):
            if n not in inputs and not (n in own and norm(p) == k):
                bad.add(n)
            return rel(n, p)
        return g
    prob.elsub(e, f)
    return sorted(bad)


def body_names(fr, keep):
    """names the body assigns must not be read before they are assigned nor
    after the loop"""
    src = open(fr.f_code.co_filename, encoding='utf-8').read()
    line = fr.f_lineno
    fns = [n for n in ast.walk(ast.parse(src)) if isinstance(n, (ast.FunctionDef, ast.Lambda))
           and n.lineno <= line <= n.end_lineno]
    fn = max(fns, key=lambda n: n.lineno)
    loops = [n for n in ast.walk(fn) if isinstance(n, ast.For) and n.iter.lineno <= line <= n.iter.end_lineno]
    if len(loops) != 1 or loops[0].orelse:
        raise Unsupported('loop not found in the source')
    L = loops[0]
    stored = {n.id for b in L.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    stored |= {n.id for n in ast.walk(L.target) if isinstance(n, ast.Name)}
    stored -= keep
    inside = set(map(id, ast.walk(L)))
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n.id in stored and id(n) not in inside:
            raise Unsupported('%s is used outside the loop' % n.id)
    assigned = {n.id for n in ast.walk(L.target) if isinstance(n, ast.Name)}
    for st in L.body:
        simple = isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Expr))
        loads = {n.id for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
            loads.add(st.target.id)
        bad = (loads & stored) - assigned
        if bad:
            raise Unsupported('%s carries a value between iterations' % sorted(bad))
        if isinstance(st, ast.Assign):
            for t in st.targets:
                assigned |= {n.id for n in ast.walk(t) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return stored
