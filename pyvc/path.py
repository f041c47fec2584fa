"""Path exploration by decision trace: the function is re-run once per path;
undecided branch conditions become facts of the path."""
from . import ints, terms
from .ints import I, Unsupported, const, lift, prove_ge
from .terms import Cond


class TooManyPaths(Unsupported):
    pass


class Trace:
    def __init__(self):
        self.prefix = []
        self.pos = 0
        self.taken = []      # (description, bool)
        self.conds = []      # (kind, object, bool)


TRACE = Trace()
LIM = 64


class Infeasible(Exception):
    """the path's facts are contradictory"""


def reset():
    ints.reset_facts()
    ints.FACTS.conds = set()
    ints.FACTS.blk1 = set()
    terms.clear_cache()


def decide_formula(f):
    """True/False/None for a formula"""
    k = f[0]
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k == 'c':
        c = f[1]
        d = terms.decide(c)
        if d is not None:
            return d
        if c in ints.FACTS.conds:
            return True
        if c.neg() in ints.FACTS.conds:
            return False
        return None
    if k == 'not':
        d = decide_formula(f[1])
        return None if d is None else not d
    if k in ('and', 'or'):
        if ints.FACTS.conds:
            pos, neg = set(f[1:]), set(fnot(x) for x in f[1:])
            for g in ints.FACTS.conds:
                # a stored disjunction
                if isinstance(g, tuple) and g[0] == 'or':
                    gs = set(g[1:])
                    if k == 'or' and gs <= pos:
                        return True
                    if k == 'and' and gs <= neg:
                        return False
        ds = [decide_formula(x) for x in f[1:]]
        if k == 'and':
            if False in ds:
                return False
            return True if all(d is True for d in ds) else None
        if True in ds:
            return True
        return False if all(d is False for d in ds) else None
    if k == 'x':                 # opaque
        if f in ints.FACTS.conds:
            return True
        if ('not', f) in ints.FACTS.conds:
            return False
        if f[1] == 'any':
            nots, poss = [], []
            for g in ints.FACTS.conds:
                if isinstance(g, tuple):
                    if g[0] == 'x' and g[1] == 'any' and g[2] == f[2]:
                        poss.append(g[3])
                    elif g[0] == 'not' and g[1][:2] == ('x', 'any') and g[1][2] == f[2]:
                        nots.append(g[1][3])
            if nots and implies([f[3]], nots):
                return False
            for g in poss:
                if implies([g] + [fnot(x) for x in nots], [f[3]]):
                    return True
    return None


def _atoms(f, s):
    if f[0] == 'c':
        s.add(f[1] if repr(f[1]) < repr(f[1].neg()) else f[1].neg())
    elif f[0] in ('and', 'or', 'not'):
        for x in f[1:]:
            _atoms(x, s)
    elif f[0] == 'x':
        s.add(f)


def _ev(f, env):
    k = f[0]
    if k == 'T':
        return True
    if k == 'F':
        return False
    if k == 'c':
        return env[f[1]] if f[1] in env else not env[f[1].neg()]
    if k == 'not':
        return not _ev(f[1], env)
    if k == 'and':
        return all(_ev(x, env) for x in f[1:])
    if k == 'or':
        return any(_ev(x, env) for x in f[1:])
    return env[f]


def implies(hyp, concl):
    """propositional: and(hyp) -> or(concl), under the path's conditions"""
    s = set()
    for f in list(hyp) + list(concl):
        _atoms(f, s)
    s = sorted(s, key=repr)
    if len(s) > 10:
        return False
    known = {}
    for a in s:
        if isinstance(a, Cond):
            d = terms.decide(a)
            if d is None:
                d = True if a in ints.FACTS.conds else False if a.neg() in ints.FACTS.conds else None
            if d is not None:
                known[a] = d
    free = [a for a in s if a not in known]
    hyp = list(hyp)
    for g in ints.FACTS.conds:
        if isinstance(g, tuple) and g[0] == 'or':
            t = set()
            _atoms(g, t)
            if t <= set(s):
                hyp.append(g)
    for k in range(1 << len(free)):
        env = dict(known)
        for j, a in enumerate(free):
            env[a] = bool(k >> j & 1)
        if all(_ev(h, env) for h in hyp) and not any(_ev(c, env) for c in concl):
            return False
    return True


def fnot(f):
    if f[0] == 'T':
        return ('F',)
    if f[0] == 'F':
        return ('T',)
    if f[0] == 'c':
        return ('c', f[1].neg())
    if f[0] == 'not':
        return f[1]
    if f[0] == 'and':
        return ('or',) + tuple(fnot(x) for x in f[1:])
    if f[0] == 'or':
        return ('and',) + tuple(fnot(x) for x in f[1:])
    return ('not', f)


def fjoin(op, *fs):
    """op 'and'/'or' with unit laws"""
    unit, zero = (('T',), ('F',)) if op == 'and' else (('F',), ('T',))
    out = []
    for f in fs:
        d = decide_formula(f)
        if d is not None:
            f = ('T',) if d else ('F',)
        if f == zero:
            return zero
        if f == unit:
            continue
        if f[0] == op:
            out += f[1:]
        else:
            out.append(f)
    u = []
    for f in out:
        if f not in u:
            u.append(f)
    if not u:
        return unit
    if len(u) == 1:
        return u[0]
    return (op,) + tuple(sorted(u, key=fkey))


def fkey(f):
    return repr(f)


def assume(f, val=True):
    """record the truth of a formula on this path"""
    if not val:
        f = fnot(f)
    F = ints.FACTS
    k = f[0]
    if k == 'F':
        raise Infeasible()
    if k == 'T':
        return
    if k == 'and':
        for x in f[1:]:
            assume(x)
        return
    if k == 'c' and f[1].isint():
        c = f[1]
        d = terms.decide(c)
        if d is False:
            raise Infeasible()
        if d is True:
            return
        p = ints.norm(c.a)
        F.conds.add(c)
        if c.op == 'ge':
            F.ge.append(p)
            squeeze(p)
        elif c.op == 'eq':
            add_eq(p)
        else:
            if prove_ge(p):
                F.ge.append(p - 1)
            elif prove_ge(-p):
                F.ge.append(-p - 1)
        F.gen += 1
        ints.nonneg.cache_clear()
        return
    if k == 'c':
        F.conds.add(f[1])
        F.gen += 1
        return
    if k == 'or':
        F.conds.add(f)
        return
    F.conds.add(f)


def add_eq(p):
    F = ints.FACTS
    ats = sorted(p.atoms(), key=lambda a: repr(a.key))
    # product of dims == 1
    if p.t.get((), 0) in (1, -1) and len(p.t) == 2:
        (m, c), = [(m, c) for m, c in p.t.items() if m != ()]
        if c == -p.t[()] and all(a.kind == 'dim' for a, _ in m):
            for a, _ in m:
                F.eqs[a] = const(1)
            return
    for a in ats:
        if a.kind in ('dim', 'int', 'idx'):
            s = ints._lin_split(p, a)
            if s and s[1].is_const() and abs(s[1].value()) == 1:
                v = -s[0] if s[1].value() == 1 else s[0]
                if a in v.all_atoms():
                    continue
                if a.kind == 'dim' and not prove_ge(v - 1):
                    if v.is_const():
                        raise Infeasible()
                    F.ge.append(v - 1)
                    F.eqs[a] = v
                    squeeze(v - 1)
                    return
                F.eqs[a] = v
                return
    F.ge += [p, -p]


def squeeze(p):
    """p >= 0 although every term of p is <= 0: each of them is 0"""
    p = ints.norm(p)
    ats = p.atoms()
    if any(a.kind != 'dim' for a in ats):
        return
    q = ints.subst(-p, {a: ints.atom(a) + 1 for a in ats})
    if not all(c >= 0 for c in q.t.values()):
        return
    if q.t.get((), 0) > 0:
        raise Infeasible()
    F = ints.FACTS
    for m in q.t:
        if len(m) == 1 and m[0][1] == 1 and m[0][0] not in F.eqs:
            F.eqs[m[0][0]] = const(1)


def _z3_formula(f, vs, cons):
    import z3
    k = f[0]
    if k in 'TF':
        return z3.BoolVal(k == 'T')
    if k == 'not':
        return z3.Not(_z3_formula(f[1], vs, cons))
    if k in ('and', 'or'):
        return (z3.And if k == 'and' else z3.Or)([_z3_formula(x, vs, cons) for x in f[1:]])
    if k == 'c' and f[1].isint():
        c = f[1]
        t = ints._z3_term(ints.norm(c.a), vs, cons)
        return t >= 0 if c.op == 'ge' else t == 0 if c.op == 'eq' else t != 0
    if k == 'c':
        a, b = sorted([repr(f[1]), repr(f[1].neg())])
        v = z3.Bool(a)
        return v if repr(f[1]) == a else z3.Not(v)
    return z3.Bool(repr(f))


def unsat(fs=()):
    """the facts of this path contradict the formulas fs"""
    F = ints.FACTS
    k = ('inf', len(F.ge), len(F.eqs), len(F.conds), tuple(fs))
    if k not in F.z3cache:
        vs, cons = {}, []
        ex = [_z3_formula(f, vs, cons) for f in fs]
        for g in F.conds:
            if isinstance(g, Cond):
                g = ('c', g)
            ex.append(_z3_formula(g, vs, cons))
        F.z3cache[k] = ints.z3_check([], timeout=1500, extra=(vs, cons, ex)) == 'unsat'
    return F.z3cache[k]


def infeasible():
    """the integer facts of this path are contradictory"""
    F = ints.FACTS
    if not (F.ge or F.eqs or F.conds):
        return False
    return unsat()


def _intonly(f):
    return f[1].isint() if f[0] == 'c' else f[0] in ('and', 'or', 'not') and all(_intonly(x) for x in f[1:])


def branch(f, what=''):
    d = decide_formula(f)
    if d is not None:
        return d
    if _intonly(f) and ints.FACTS.conds:
        if unsat([f]):
            return False
        if unsat([fnot(f)]):
            return True
    v = branch1(f)
    g = f if v else fnot(f)
    if g[0] == 'or' and _intonly(g):
        for x in g[1:-1]:
            if branch(x):
                return v
        branch(g[-1])
    return v


def branch1(f):
    t = TRACE
    if t.pos < len(t.prefix):
        v = t.prefix[t.pos]
    else:
        v = True
        t.prefix.append(v)
    t.pos += 1
    t.conds.append((f, v))
    assume(f, v)
    return v


def explore(fn, limit=None):
    """fn() once per path; returns the list of (conds, outcome)"""
    out = []
    prefix = []
    n = 0
    while True:
        n += 1
        if n > (limit or LIM):
            raise TooManyPaths('more than %d paths' % (limit or LIM))
        reset()
        TRACE.prefix, TRACE.pos, TRACE.conds = list(prefix), 0, []
        try:
            r = fn()
            out.append((list(TRACE.conds), r))
        except Infeasible:
            pass
        except Unsupported:
            if not infeasible():
                raise
        prefix = TRACE.prefix[:TRACE.pos]
        while prefix and prefix[-1] is False:
            prefix.pop()
        if not prefix:
            return out
        prefix[-1] = False
