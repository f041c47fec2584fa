"""Deductive verification of heap-manipulating functions: the AST of the
current source is executed symbolically over a z3 heap; calls are checked
against the callee's contract, loops against their invariant.

Values are z3 terms (Int, Bool, Obj, Name), VL (lists), VD (dictionaries) and
VO (int or None).  A construct outside the subset raises Unsup and leaves the
function's obligations undischarged."""
import ast
import itertools
import json
import os

import z3

REPO = os.environ.get('VERIF_REPO', '/repo')

Obj = z3.DeclareSort('Obj')
Name = z3.DeclareSort('Name')
Int, Bool = z3.IntSort(), z3.BoolSort()
none = z3.Const('none', Obj)
nocls = set()

STATS = {'queries': 0, 'time': 0.0}
_n = itertools.count()


class Unsup(Exception):
    pass


FRESH = [0]


def fresh(sort, p='v'):
    FRESH[0] += 1
    return z3.Const('%s!%d' % (p, next(_n)), sort)


def lit(s):
    return z3.Const('str:' + s, Name)


cat = z3.Function('cat', Name, Name, Name)
tostr = z3.Function('tostr', Obj, Name)
memb = z3.Function('member_of', Obj, Obj, Bool)        # x in c, for containers the verifier does not look into
less = z3.Function('less', Obj, Obj, Bool)



def greater(a, b):
    # a > b is read as b < a
    return less(b, a)


isinstv = z3.Function('isinstance_of', Obj, Obj, Bool)
objof = z3.Function('objof', Name, Obj)
boolof = z3.Function('boolof', Obj, Bool)
tupleof = z3.Function('tupleof', Obj, Obj)


def isa(cls):
    return z3.Function('isa_' + cls, Obj, Bool)


class VL:
    """list value"""
    kind = 'list'

    def __init__(self, es, n, at, st, pos):
        self.es, self.n, self.at, self.st, self.pos = es, n, at, st, pos

    def parts(self):
        return (self.n, self.at, self.st, self.pos)

    @classmethod
    def new(cls, es, p='l'):
        return cls(es, fresh(Int, p + 'n'), fresh(z3.ArraySort(Int, es), p + 'at'),
                   fresh(z3.ArraySort(es, Bool), p + 'st'), fresh(z3.ArraySort(es, Int), p + 'pos'))

    def wf(self):
        i, x = z3.Const('i', Int), z3.Const('x', self.es)
        return [self.n >= 0,
                z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.st[self.at[i]]), patterns=[self.at[i]]),
                z3.ForAll([x], z3.Implies(self.st[x], z3.And(0 <= self.pos[x], self.pos[x] < self.n,
                                                           self.at[self.pos[x]] == x)), patterns=[self.st[x]])]

    def distinct(self):
        i = z3.Const('i', Int)
        return z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n), self.pos[self.at[i]] == i),
                         patterns=[self.at[i]])

    def same(self, o):
        return z3.And(self.n == o.n, self.at == o.at, self.st == o.st)

    @classmethod
    def empty(cls, es):
        r = cls.new(es)
        r.n, r.st = z3.IntVal(0), z3.K(es, z3.BoolVal(False))
        return r

    def append(self, x):
        return VL(self.es, self.n + 1, z3.Store(self.at, self.n, x), z3.Store(self.st, x, True),
                  z3.Store(self.pos, x, self.n))


class VS:
    """set of a list's elements"""
    kind = 'set'

    def __init__(self, es, st):
        self.es, self.st = es, st

    def wf(self):
        return []


class VD:
    """dictionary: keys in insertion order and a map"""
    kind = 'dict'

    def __init__(self, keys, m):
        self.keys, self.m = keys, m

    @classmethod
    def new(cls, ks, vs, p='d'):
        return cls(VL.new(ks, p), fresh(z3.ArraySort(ks, vs), p + 'm'))

    def wf(self):
        return self.keys.wf() + [self.keys.distinct()]


class VO:
    """integer or None"""
    kind = 'opt'

    def __init__(self, isnone, v):
        self.isnone, self.v = isnone, v


class VNew:
    """iterable: sequence of n elements"""
    kind = 'seq'

    def __init__(self, n, at, src=None):
        self.n, self.at, self.src = n, at, src


class Heap:
    """field -> array(s) indexed by objects"""

    def __init__(self, fields, p='h'):
        self.types, self.f = fields, {}
        for k in fields:
            self.havoc(k, p)

    def havoc(self, k, p='h'):
        t = self.types[k]
        if t[0] == 'list':
            es = t[1]
            self.f[k] = tuple(fresh(z3.ArraySort(Obj, s), p + k) for s in (
                Int, z3.ArraySort(Int, es), z3.ArraySort(es, Bool), z3.ArraySort(es, Int)))
        elif t[0] == 'dict':
            ks, vs = t[1:]
            self.f[k] = tuple(fresh(z3.ArraySort(Obj, s), p + k) for s in (
                Int, z3.ArraySort(Int, ks), z3.ArraySort(ks, Bool), z3.ArraySort(ks, Int), z3.ArraySort(ks, vs)))
        else:
            self.f[k] = (fresh(z3.ArraySort(Obj, t[1]), p + k), )

    def copy(self):
        h = object.__new__(Heap)
        h.types, h.f = self.types, dict(self.f)
        return h

    def get(self, o, k):
        t, a = self.types[k], self.f[k]
        if t[0] == 'list':
            return VL(t[1], *[x[o] for x in a])
        if t[0] == 'dict':
            return VD(VL(t[1], *[x[o] for x in a[:4]]), a[4][o])
        return a[0][o]

    def put(self, o, k, v):
        t, a = self.types[k], self.f[k]
        if t[0] == 'list':
            if not isinstance(v, VL):
                raise Unsup('list field %s assigned %r' % (k, v))
            self.f[k] = tuple(z3.Store(x, o, y) for x, y in zip(a, v.parts()))
            if 'ever ' + k in self.f:
                ev, to = self.f['ever ' + k][0], self.f['touched ' + k][0]
                self.f['ever ' + k] = (z3.Store(ev, o, union(ev[o], v.st)), )
                self.f['touched ' + k] = (z3.Store(to, o, True), )
        elif t[0] == 'dict':
            self.f[k] = tuple(z3.Store(x, o, y) for x, y in zip(a, v.keys.parts() + (v.m, )))
        else:
            self.f[k] = (z3.Store(a[0], o, coerce(v, t[1])), )

    # edges
    def set(self, k):
        """array Obj -> array of the elements of the list field k"""
        return self.f[k][2]

    def frame(self, old, k, but=()):
        """field k is unchanged, except for the objects `but`"""
        if not but:
            return z3.And(*[a == b for a, b in zip(self.f[k], old.f[k])])
        x = z3.Const('fo', Obj)
        return z3.ForAll([x], z3.Implies(z3.And(*[x != b for b in but]), z3.And(*[
            a[x] == b[x] for a, b in zip(self.f[k], old.f[k])])), patterns=[self.f[k][0][x]] + [
                a[x] for a in self.f[k][1:]])


def union(a, b):
    f = z3.Or(z3.Bool('a'), z3.Bool('b')).decl()
    return z3.Map(f, a, b)


def coerce(v, s):
    if v is None and s == Obj:
        return none
    if isinstance(v, bool):
        v = z3.BoolVal(v)
    elif isinstance(v, int):
        v = z3.IntVal(v)
    elif isinstance(v, str):
        v = lit(v)
    if isinstance(v, VL) and s == Obj and getattr(v, 'text', None):
        v = z3.Const('list ' + v.text, Obj)
    if not z3.is_expr(v) or v.sort() != s:
        raise Unsup('value %r where %s is expected' % (v, s))
    return v


class State:
    def __init__(self, loc, heap, facts, ghost):
        self.loc, self.heap, self.facts, self.ghost = loc, heap, facts, ghost
        self.out = None          # ('return', v) / ('raise', cls) / 'continue' / 'break'

    def fork(self):
        return State(dict(self.loc), self.heap.copy(), list(self.facts), dict(self.ghost))

    def __getitem__(self, k):
        return self.loc[k]

    def assume(self, *fs):
        for f in fs:
            if isinstance(f, (list, tuple)):
                self.assume(*f)
            else:
                self.facts.append(f)


class Contract:
    """see graphc.py"""

    def __init__(self, file, qual, params, requires=None, ensures=None, modifies=(), loops=None, raises=None,
                 returns=None, byref=(), ghost=None, hooks=None, decreases=None, consts=None, inline=False, free=None,
                 noraise=True, facts=None, lemma=None, types=None,
                 exsures=None, unroll=None, globs=None, defaults=None, may_raise=False, at_yield=None, mutated=(), smaller=None, never=()):
        self.file, self.qual, self.params = file, qual, params
        self.requires = requires or (lambda s: [])
        self.ensures = ensures or (lambda s, old, ret: [])
        self.modifies, self.loops = tuple(modifies), loops or {}
        self.raises = raises or {}
        self.returns, self.byref = returns, tuple(byref)
        self.ghost, self.hooks, self.decreases = ghost or {}, hooks or {}, decreases
        self.at_yield, self.mutated = at_yield, tuple(mutated)
        self.never = tuple(never)   # loops that have nothing to go through (an obligation)
        self.smaller = smaller      # (state of the recursive call, own first state): a well-founded relation
        self.facts, self.lemma, self.types = facts, lemma, types or {}
        self.defaults, self.may_raise = defaults or {}, may_raise
        self.exsures, self.unroll, self.globs = exsures, unroll or {}, globs or {}

    @property
    def name(self):
        return '%s:%s' % (self.file, self.qual)


def source(file):
    with open(os.path.join(REPO, 'omtools', file)) as f:
        return f.read()


def find(file, qual):
    t = ast.parse(source(file))
    body = t.body
    node = None
    for part in qual.split('.'):
        node = None
        for x in body:
            if isinstance(x, (ast.FunctionDef, ast.ClassDef)) and x.name == part:
                node = x
        if node is None:
            raise Unsup('%s not found in %s' % (qual, file))
        body = node.body
    return node


MUT = {'append', 'pop', 'remove', 'add', 'extend', 'insert', 'clear', 'update', 'discard', 'sort', 'reverse'}


def localnames(fn):
    """parameters and locals of a function, in the order of their first
    occurrence as a target"""
    out = [a.arg for a in fn.args.posonlyargs + fn.args.args]
    out += [a.arg for a in (fn.args.vararg, fn.args.kwarg) if a] + [a.arg for a in fn.args.kwonlyargs]
    for x in preorder(fn):
        n = x.id if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) else \
            x.name if isinstance(x, ast.ExceptHandler) else None
        if n and n not in out:
            out.append(n)
    return out


NAMES = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')


def recorded():
    try:
        with open(NAMES) as f:
            return json.load(f)
    except OSError:
        return {}


def as_recorded(fn, names):
    """the function with the local names the contract was written for: a
    consistent renaming of locals changes nothing (the mapping is a guess,
    what it makes of the invariants is proved)"""
    if any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
        return fn
    now = localnames(fn)
    if now == names:
        return fn
    lost = [n for n in names if n not in now]
    new = [n for n in now if n not in names]
    if not lost or len(lost) != len(new):
        return fn
    used = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name)}
    if used & set(lost):
        return fn
    m = dict(zip(new, lost))

    class R(ast.NodeTransformer):
        def visit_Name(self, x):
            x.id = m.get(x.id, x.id)
            return x

        def visit_arg(self, x):
            x.arg = m.get(x.arg, x.arg)
            return x

        def visit_ExceptHandler(self, x):
            x.name = m.get(x.name, x.name)
            self.generic_visit(x)
            return x
    return R().visit(fn)


class VC:
    """obligations of one function"""

    def __init__(self, contract, table, fields, ctx, axioms=(), timeout=20000):
        self.c, self.table, self.fields, self.ctx = contract, table, fields, ctx
        self.axioms, self.timeout = list(axioms), timeout
        self.loopno = 0
        self.names = recorded()
        self.trying, self.handling, self.why, self.pending = [], [], '', []

    # ---- solver
    def prove(self, facts, goal):
        import time
        t = time.time()
        for mk, k, share in ((z3.SimpleSolver, {}, 4), (z3.SimpleSolver, {'random_seed': 7}, 4), (z3.Solver, {}, 2),
                             (z3.SimpleSolver, {'random_seed': 3}, 4)):
            s = mk()
            s.set('timeout', self.timeout // share)
            s.set('auto_config', False)
            s.set('mbqi', False)
            for o, v in k.items():
                s.set(o, v)
            s.add(*self.axioms)
            s.add(*facts)
            s.add(z3.Not(goal))
            r = s.check()
            if r == z3.unsat:
                break
            why = 'sat' if r == z3.sat else s.reason_unknown()
        if r != z3.unsat:
            self.why = why
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        return str(r)

    def oblige(self, name, st, goal):
        if isinstance(goal, (list, tuple)):
            for g in goal:
                self.oblige(name + ('.' + g[0] if isinstance(g, tuple) else ''), st, g[1] if isinstance(g, tuple) else g)
            return
        if goal is True:
            self.ctx.ok(name)
            return
        r = self.prove(st.facts, goal)
        if r == 'unsat':
            self.ctx.ok(name)
        else:
            # 'failed': the solver gave up because no further instance
            # helps, not because it ran out of time
            sure = not any(w in self.why for w in ('timeout', 'cancel', 'resource', 'memory'))
            self.ctx.obl(name).add('failed' if sure else 'other', 'z3 answers %s (%s)' % (r, self.why))

    CONTRACT = ('ensures', 'raises', 'call of ', 'modifies nothing else', 'index in range', 'key present',
                'removed element', 'pop of a list', 'divisor', 'default of')

    def settle(self):
        """an unproved invariant or lemma may only mean that the annotation no
        longer fits the code: then nothing is concluded"""
        bad = [o for k, o in self.ctx.obls.items() if o.status == 'failed']
        if any(not k.startswith(self.CONTRACT) for k, o in self.ctx.obls.items() if o.status in ('failed', 'other')):
            for o in bad:
                o.status = 'other'

    def feasible(self, st):
        s = z3.SimpleSolver()
        s.set('timeout', 300)
        s.set('auto_config', False)
        s.set('mbqi', False)
        s.add(*self.axioms)
        s.add(*st.facts)
        return s.check() != z3.unsat

    # ---- run
    def run(self):
        c = self.c
        fn = find(c.file, c.qual)
        if c.name in self.names:
            fn = as_recorded(fn, self.names[c.name])
        heap = Heap(self.fields)
        loc = {}
        for p, s in c.params.items():
            if isinstance(s, tuple) and s[0] == 'dict':
                loc[p] = VD.new(s[1], s[2], p)
            elif isinstance(s, tuple) and s[0] == 'list':
                loc[p] = VL.new(s[1], p)
            elif isinstance(s, tuple) and s[0] == 'set':
                loc[p] = VS(s[1], fresh(z3.ArraySort(s[1], Bool), p))
            else:
                loc[p] = fresh(s, p)
        args = [a.arg for a in fn.args.args]
        given = dict(zip(args[len(args) - len(fn.args.defaults):], fn.args.defaults))
        for a, v in c.defaults.items():
            d = given.get(a)
            got = d.id if isinstance(d, ast.Name) else ast.literal_eval(d) if d is not None else 'nothing'
            self.ctx.obl('default of %s' % a).add('proved' if type(got) is type(v) and got == v else 'failed',
                                                  'the default of %s is %r, not %r' % (a, got, v))
        for a in args:
            if a not in loc:
                raise Unsup('parameter %s of %s is not in the contract' % (a, c.qual))
        st = State(loc, heap, [], {})
        for p, v in loc.items():
            if isinstance(v, (VL, VD)):
                st.assume(v.wf())
        for g, mk in c.ghost.items():
            st.ghost[g] = mk()
            if isinstance(st.ghost[g], VL):
                st.assume(st.ghost[g].wf())
        st.assume([f for _, f in c.requires(st)])
        if c.facts:
            st.assume([f for _, f in c.facts(st)])
        self.old = st.fork()
        self.loopno = 0
        self.loopid = {}
        for x in ast.walk(fn):
            if isinstance(x, (ast.For, ast.While)):
                self.loopid[id(x)] = None
        k = 0
        for x in preorder(fn):
            if isinstance(x, (ast.For, ast.While)):
                self.loopid[id(x)] = k
                k += 1
        if set(c.loops) - set(range(k)):
            raise Unsup('the contract gives invariants for loops the function no longer has')
        if not self.feasible(st):
            self.ctx.obl('precondition').add('other', 'contradictory precondition')
            return
        self.ctx.ok('precondition satisfiable')
        reached = False
        for s in self.block([st], fn.body):
            kind = s.out[0] if s.out else 'return'
            ret = s.out[1] if s.out and s.out[0] == 'return' else none
            if isinstance(c.returns, str) and c.returns == 'text':
                if kind == 'return' and not isinstance(ret, VStr):
                    raise Unsup('a string of unknown length')
            elif isinstance(c.returns, str) and not isinstance(ret, VO):
                if ret is None or ret.eq(none):
                    ret = VO(z3.BoolVal(True), z3.IntVal(0))
                else:
                    ret = VO(z3.BoolVal(False), coerce(ret, Int))
            elif c.returns is None:
                ret = None
            elif not isinstance(c.returns, tuple):
                ret = coerce(none if ret is None else ret, c.returns)
            if kind == 'raise':
                exc = s.out[1]
                cond = c.raises.get(exc, c.raises.get('*'))
                self.oblige('raises only when specified (%s)' % exc, s,
                            cond(self.old) if cond else z3.BoolVal(False))
                if c.exsures:
                    self.oblige('ensures when it raises', s, c.exsures(s, self.old))
                    self.frames(s)
                continue
            for exc, cond in () if c.may_raise else c.raises.items():
                self.oblige('raises when specified (%s)' % exc, s, z3.Not(cond(self.old)))
            if c.lemma:
                s.assume([f for _, f in self.lemmas(s, c.lemma)])
            reached = reached or self.feasible(s)
            self.oblige('ensures', s, c.ensures(s, self.old, ret))
            self.frames(s)
        self.ctx.obl('a normal exit is reachable').add(
            'proved' if reached else 'other', 'the contract is vacuous: no normal exit is reachable')

    def frames(self, s):
        for k in self.fields:
            if k not in self.c.modifies:
                if s.heap.f[k] is not self.old.heap.f[k]:
                    self.oblige('modifies nothing else', s, s.heap.frame(self.old.heap, k))

    def lemmas(self, s, lemma):
        """facts proved one after the other: (name, formula)"""
        out = []
        t = s.fork()
        for name, prem, f in lemma(s, self.old):
            u = t.fork()
            u.assume(prem)
            self.oblige('lemma ' + name, u, f if not isinstance(f, tuple) else f[0])
            g = f if not isinstance(f, tuple) else f[1]
            t.assume(g)
            out.append((name, g))
        return out

    def block(self, sts, body):
        for x in body:
            nxt = []
            for s in sts:
                if s.out is not None:
                    nxt.append(s)
                else:
                    nxt += self.stmt(s, x)
            sts = nxt
        return sts

    # ---- statements
    def stmt(self, s, x):
        if isinstance(x, ast.Pass):
            return [s]
        if isinstance(x, ast.Expr):
            if isinstance(x.value, ast.Constant):
                return [s]
            if isinstance(x.value, ast.Yield):
                if not self.c.at_yield:
                    raise Unsup('yield')
                out = []
                for t, v in self.expr(s, x.value.value):
                    if t.out is None:
                        # what holds when the caller goes on, and what may
                        # have changed when it comes back
                        self.oblige('ensures at yield', t, self.c.at_yield[0](t, self.old, v))
                        y = t.fork()
                        for k in self.fields:
                            t.heap.havoc(k)
                        t.assume([f for _, f in self.c.at_yield[1](t, y, v)])
                    out.append(t)
                return out
            return [t for t, _ in self.expr(s, x.value)]
        if isinstance(x, (ast.Assign, ast.AnnAssign)):
            if isinstance(x, ast.AnnAssign):
                if x.value is None:
                    return [s]
                tg = [x.target]
            else:
                tg = x.targets
            out = []
            for t, v in self.expr(s, x.value):
                if t.out is None:
                    for g in tg:
                        self.assign(t, g, v, x.value)
                out.append(t)
            out += self.pending
            self.pending = []
            return out
        if isinstance(x, ast.AugAssign):
            y = ast.BinOp(left=load(x.target), op=x.op, right=x.value)
            return self.stmt(s, ast.copy_location(ast.Assign(targets=[x.target], value=y, lineno=0), x))
        if isinstance(x, ast.Return):
            if x.value is None:
                s.out = ('return', None)
                return [s]
            r = []
            for t, v in self.expr(s, x.value):
                if t.out is None:
                    t.out = ('return', v)
                r.append(t)
            return r
        if isinstance(x, ast.Try):
            if x.orelse:
                raise Unsup('try ... else')
            if x.finalbody:
                r = []
                inner = self.stmt(s, ast.Try(body=x.body, handlers=x.handlers, orelse=[], finalbody=[])) if x.handlers \
                    else self.block([s], x.body)
                for t in inner:
                    e, t.out = t.out, None
                    for u in self.block([t], x.finalbody):
                        u.out = u.out or e
                        r.append(u)
                return r
            self.trying.append(x)
            r = self.block([s], x.body)
            self.trying.pop()
            out = []
            for t in r:
                if t.out is None or t.out[0] != 'raise':
                    out.append(t)
                    continue
                for h in x.handlers:
                    names = [h.type.id] if isinstance(h.type, ast.Name) else \
                        [q.id for q in h.type.elts] if isinstance(h.type, ast.Tuple) else ['Exception']
                    if t.out[1] == 'any exception' and 'Exception' not in names:
                        raise Unsup('an unknown exception and a handler for %s' % names)
                    if t.out[1] in names or 'Exception' in names:
                        e = t.out
                        t.out = None
                        if h.name:
                            t.loc[h.name] = fresh(Obj, 'exc')
                        self.handling.append(e)
                        out += self.block([t], h.body)
                        self.handling.pop()
                        break
                else:
                    out.append(t)
            return out
        if isinstance(x, ast.Raise) and x.exc is None:
            s.out = self.handling[-1]
            return [s]
        if isinstance(x, ast.Raise):
            e = x.exc
            if isinstance(e, ast.Call):
                n = e.func.id
                # the message may itself raise
                for a in e.args:
                    if any(isinstance(q, ast.BinOp) and isinstance(q.right, ast.Name) for q in ast.walk(a)):
                        pass
            else:
                n = e.id
            s.out = ('raise', n)
            return [s]
        if isinstance(x, ast.If):
            out = []
            for t, v in self.expr(s, x.test):
                if t.out is not None:
                    out.append(t)
                    continue
                b = truth(v)
                if z3.is_true(b):
                    out += self.block([t], x.body)
                    continue
                if z3.is_false(b):
                    out += self.block([t], x.orelse)
                    continue
                u = t.fork()
                t.assume(b)
                u.assume(z3.Not(b))
                if self.feasible(t):
                    out += self.block([t], x.body)
                if self.feasible(u):
                    out += self.block([u], x.orelse)
            return out
        if isinstance(x, ast.For):
            return self.loop_for(s, x)
        if isinstance(x, ast.While):
            return self.loop_while(s, x)
        if isinstance(x, ast.Delete):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    continue
                if self.c.hooks.get('delete'):
                    self.oblige('unreachable: ' + ast.unparse(x), s, z3.BoolVal(False))
                    continue
                if not isinstance(t, ast.Subscript):
                    raise Unsup('del at line %d' % x.lineno)
                (s, c), = self.expr(s, t.value)
                (s, k), = self.expr(s, t.slice)
                if not isinstance(c, VD):
                    raise Unsup('del at line %d' % x.lineno)
                ks = c.keys
                k = coerce(k, ks.es)
                self.oblige('key present', s, ks.st[k])
                r = VL.new(ks.es)
                y = z3.Const('y', ks.es)
                s.assume(r.wf(), r.distinct(), r.n == ks.n - 1,
                         z3.ForAll([y], r.st[y] == z3.And(ks.st[y], y != k), patterns=[r.st[y]]),
                         z3.ForAll([y], z3.Implies(z3.And(ks.st[y], y != k), r.st[y]), patterns=[ks.st[y]]))
                self.assign(s, t.value, VD(r, c.m))
            return [s]
        if isinstance(x, (ast.Continue, ast.Break)):
            s.out = ('continue', None) if isinstance(x, ast.Continue) else ('break', None)
            return [s]
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            return [s]
        raise Unsup('%s at line %d' % (type(x).__name__, x.lineno))

    def named(self, s, v):
        """the same value, its arrays given names (patterns may not contain stores)"""
        def nm(t):
            if z3.is_array(t) and not z3.is_const(t) and t.decl().kind() in (z3.Z3_OP_STORE, z3.Z3_OP_ITE):
                c = fresh(t.sort(), 'a')
                s.assume(c == t)
                return c
            return t
        if isinstance(v, VL):
            r = VL(v.es, v.n, *[nm(t) for t in v.parts()[1:]])
        elif isinstance(v, VD):
            r = VD(self.named(s, v.keys), nm(v.m))
        else:
            return v
        if hasattr(v, 'src'):
            r.src = v.src
        return r

    def namefield(self, s, k):
        out = []
        for t in s.heap.f[k]:
            if t.decl().kind() == z3.Z3_OP_STORE:
                c = fresh(t.sort(), 'f')
                s.assume(c == t)
                t = c
            out.append(t)
        s.heap.f[k] = tuple(out)

    def assign(self, s, g, v, src=None):
        v = self.named(s, v)
        if isinstance(g, ast.Name):
            if isinstance(v, (VL, VD)) and isinstance(src, (ast.Name, ast.Attribute)):
                raise Unsup('a second reference to a list at line %d' % src.lineno)
            if isinstance(v, VEmpty) and g.id in self.c.types:
                v = VL.empty(self.c.types[g.id])
            s.loc[g.id] = v
            return
        if isinstance(g, ast.Attribute):
            if isinstance(g.value, ast.Name) and g.value.id not in s.loc:
                # class attribute
                k = g.value.id + '.' + g.attr
                if k in self.fields:
                    s.heap.put(none, k, v)
                    return
                raise Unsup('assignment to %s' % k)
            (t, o), = self.expr(s, g.value)
            if g.attr not in self.fields:
                raise Unsup('field %s' % g.attr)
            if isinstance(v, tuple) and self.fields[g.attr] == ('s', Obj):
                counted = 'k:0' in self.fields
                p = self.alloc(s) if counted else fresh(Obj, 'tuple')
                s.assume(p != none)
                for i, q in enumerate(v if counted else ()):
                    f = 'k:%d' % i
                    if f not in self.fields:
                        raise Unsup('tuple at line %d' % g.lineno)
                    if isinstance(q, VEmpty):
                        t = self.fields[f]
                        q = VL.empty(t[1]) if t[0] == 'list' else VD(VL.empty(t[1]), fresh(z3.ArraySort(t[1], t[2]), 'm'))
                    s.heap.put(p, f, q)
                    self.namefield(s, f)
                v = p
            if isinstance(v, VEmpty):
                t = self.fields[g.attr]
                v = VL.empty(t[1]) if t[0] == 'list' else VD(VL.empty(t[1]), fresh(z3.ArraySort(t[1], t[2]), 'm')) \
                    if t[0] == 'dict' else fresh(Obj, 'empty')
            if isinstance(v, (VL, VD)) and isinstance(src, (ast.Name, ast.Attribute)):
                if not (isinstance(src, ast.Name) and self.fields[g.attr][0] in ('list', 'dict')):
                    raise Unsup('a second reference to a list at line %d' % src.lineno)
            s.heap.put(o, g.attr, v)
            self.namefield(s, g.attr)
            return
        if isinstance(g, ast.Subscript):
            (t, c), = self.expr(s, g.value)
            f = self.itemfield(c, g.slice)
            if f:
                t = self.fields[f]
                s.heap.put(c, f, asobj(s, v, t[1]) if t[0] == 's' else v)
                self.namefield(s, f)
                return
            (t, k), = self.expr(s, g.slice)
            if z3.is_expr(c) and c.sort() == Obj and '__setitem__' in self.table:
                r = self.call_values(s, self.table['__setitem__'], [c, k, v])
                self.pending += [u for u, _ in r if u is not s]
                return
            if isinstance(c, VD):
                ks = c.keys
                k = coerce(k, ks.es)
                n = VL(ks.es, z3.If(ks.st[k], ks.n, ks.n + 1), z3.If(ks.st[k], ks.at, z3.Store(ks.at, ks.n, k)),
                       z3.Store(ks.st, k, True), z3.If(ks.st[k], ks.pos, z3.Store(ks.pos, k, ks.n)))
                self.assign(s, g.value, VD(n, z3.Store(c.m, k, coerce(v, c.m.sort().range()))))
                return
        if isinstance(g, ast.Tuple) and isinstance(v, tuple):
            for a, b in zip(g.elts, v):
                self.assign(s, a, b)
            return
        raise Unsup('assignment at line %d' % g.lineno)

    # ---- loops
    def written(self, x, s):
        """locals, fields and ghosts a statement may change"""
        loc, fld, gh = set(), set(), set()

        def target(g, base):
            while isinstance(g, ast.Subscript):
                if isinstance(g.slice, ast.Constant) and 'k:%s' % (g.slice.value, ) in self.fields:
                    fld.add('k:%s' % (g.slice.value, ))
                    v = s.loc.get(g.value.id) if isinstance(g.value, ast.Name) else None
                    if not isinstance(v, (VL, VD)):
                        return
                if '__setitem__' in self.table:
                    fld.update(self.table['__setitem__'].modifies)
                    if isinstance(g.value, ast.Name) and z3.is_expr(s.loc.get(g.value.id)):
                        return
                g = g.value
            if isinstance(g, ast.Name):
                loc.add(g.id)
            elif isinstance(g, ast.Attribute):
                fld.add(g.attr if not (isinstance(g.value, ast.Name) and (g.value.id + '.' + g.attr) in self.fields)
                        else g.value.id + '.' + g.attr)
            elif isinstance(g, (ast.Tuple, ast.List)):
                for e in g.elts:
                    target(e, base)
        for y in ast.walk(x):
            if isinstance(y, ast.Assign):
                for g in y.targets:
                    target(g, y)
            elif isinstance(y, (ast.AugAssign, ast.AnnAssign)):
                target(y.target, y)
            elif isinstance(y, ast.For):
                target(y.target, y)
            elif isinstance(y, ast.Call):
                if isinstance(y.func, ast.Attribute) and y.func.attr in MUT and not self.callee(y):
                    target(y.func.value, y)
                k = self.callee(y)
                if k:
                    fld |= set(k.modifies)
                    for p, a in zip([p for p in k.params], self.argexprs(y, k)):
                        if p in k.byref:
                            target(a, y)
                h = self.hook(y)
                if h:
                    gh |= set(h[0])
                if k and getattr(k, 'ghosts', None):
                    gh |= set(k.ghosts)
        fld |= {p + k for k in fld for p in ('ever ', 'touched ')}
        return loc, fld & set(self.fields), gh

    def havoc(self, s, x, extra=()):
        loc, fld, gh = self.written(x, s)
        for n in sorted(loc):
            v = s.loc.get(n)
            if v is None and n not in s.loc:
                continue
            s.loc[n] = havoc_val(v)
            if isinstance(s.loc[n], (VL, VD)):
                s.assume(s.loc[n].wf())
        for k in sorted(fld):
            s.heap.havoc(k)
        for g in sorted(gh):
            s.ghost[g] = havoc_val(s.ghost[g])
            if isinstance(s.ghost[g], VL):
                s.assume(s.ghost[g].wf())

    def inv(self, s, no, k, seq, entry):
        f = self.c.loops.get(no)
        if f is None:
            raise Unsup('loop %d has no invariant' % no)
        try:
            return f(s, k, seq, entry, self.old)
        except KeyError as e:
            raise Unsup('the invariant of loop %d speaks of %s, which the function no longer has' % (no, e))

    def loop_for(self, s, x):
        no = self.loopid[id(x)]
        (s, it), = self.expr(s, x.iter)
        if s.out is not None:
            return [s]
        seq = self.iterate(it)
        if seq is None:
            raise Unsup('iteration over %s at line %d' % (ast.unparse(x.iter), x.lineno))
        if no in self.c.never:
            self.oblige('loop %d has nothing to go through' % no, s, seq.n == 0)
            s.assume(seq.n == 0)
            return self.block([s], x.orelse)
        mut = seq.src if no in self.c.mutated and seq.src is not None and 'ever ' + seq.src[1] in s.heap.f else None
        if mut:
            # the loop may change the list it goes through: what it meets is an
            # element the list (or one that replaced it) had since it began
            o, f, v = mut
            before = s.heap.f['ever ' + f][0], s.heap.f['touched ' + f][0]
            s.heap.f['ever ' + f] = (s.heap.f[f][2], )
            s.heap.f['touched ' + f] = (z3.K(Obj, z3.BoolVal(False)), )
        entry = s.fork()
        self.oblige('loop %d holds initially' % no, s, self.inv(s, no, z3.IntVal(0), seq, entry))
        b = s.fork()
        self.havoc(b, x)
        after = b.fork()
        k = fresh(Int, 'k')
        el = seq.at(k)
        if mut:
            el = fresh(el.sort(), 'element')
            b.assume(0 <= k, z3.If(b.heap.get(o, 'touched ' + f), b.heap.get(o, 'ever ' + f)[el],
                                   z3.And(k < seq.n, el == seq.at(k))))
        else:
            b.assume(0 <= k, k < seq.n)
        b.assume([f_ for _, f_ in self.inv(b, no, k, seq, entry)])
        b.loc = dict(b.loc)
        self.bindtarget(b, x.target, el)
        out = []
        for t in self.block([b], x.body):
            if t.out is None or t.out[0] == 'continue':
                t.out = None
                self.oblige('loop %d is kept' % no, t, self.inv(t, no, k + 1, seq, entry))
                if seq.src is not None and not mut:
                    o, f, v = seq.src
                    w = t.heap.get(o, f)
                    if t.heap.f[f] is not v[0]:
                        cur = w.keys if isinstance(w, VD) else w
                        self.oblige('loop %d does not change what it iterates over' % no, t,
                                    z3.And(cur.n == v[1].n, cur.at == v[1].at))
            elif t.out[0] == 'break':
                t.out = None
                out.append(t)
            else:
                out.append(t)
        if mut:
            if out:
                raise Unsup('a loop that changes its list and is left early')
            o, f, v = mut
            k = fresh(Int, 'k')
            after.assume(k >= 0, z3.Or(after.heap.get(o, 'touched ' + f), k == seq.n))
            after.assume([f_ for _, f_ in self.inv(after, no, k, seq, entry)])
            now = after.heap.f['ever ' + f][0], after.heap.f['touched ' + f][0]
            after.heap.havoc('ever ' + f)
            after.heap.havoc('touched ' + f)
            ev, to = after.heap.f['ever ' + f][0], after.heap.f['touched ' + f][0]
            a, c = z3.Const('a', Obj), z3.Const('c', seq.at(k).sort())
            after.assume(z3.ForAll([a, c], ev[a][c] == z3.Or(before[0][a][c], now[0][a][c]), patterns=[ev[a][c]]),
                         z3.ForAll([a], to[a] == z3.Or(before[1][a], now[1][a]), patterns=[to[a]]))
        else:
            after.assume([f for _, f in self.inv(after, no, seq.n, seq, entry)])
        after.assume(seq.n >= 0)
        # a for loop leaves its variable bound to the last element
        last = after.fork()
        return out + self.block([after], x.orelse)

    def bindtarget(self, s, g, v):
        if isinstance(g, ast.Name):
            s.loc[g.id] = v
        elif isinstance(g, ast.Tuple) and isinstance(v, tuple) and len(v) == len(g.elts):
            for a, b in zip(g.elts, v):
                self.bindtarget(s, a, b)
        else:
            raise Unsup('loop target')

    def loop_unroll(self, s, x, n):
        sts, out = [s], []
        for k in range(n + 1):
            nxt = []
            for t in sts:
                (t, v), = self.expr(t, x.test)
                c = truth(v)
                e = t.fork()
                e.assume(z3.Not(c))
                t.assume(c)
                if self.feasible(e):
                    out.append(e)
                if not z3.is_false(z3.simplify(c)) and self.feasible(t):
                    if k == n:
                        self.oblige('loop ends after at most %d rounds' % n, t, z3.BoolVal(False))
                    else:
                        nxt += [u for u in self.block([t], x.body)]
            for u in nxt:
                if u.out is not None and u.out[0] in ('continue', 'break'):
                    raise Unsup('continue or break in an unrolled loop')
            out += [u for u in nxt if u.out is not None]
            sts = [u for u in nxt if u.out is None]
        self.ctx.ok('loop ends after at most %d rounds' % n)
        return out

    def loop_while(self, s, x):
        no = self.loopid[id(x)]
        if no in self.c.unroll:
            return self.loop_unroll(s, x, self.c.unroll[no])
        entry = s.fork()
        self.oblige('loop %d holds initially' % no, s, self.inv(s, no, None, None, entry))
        b = s.fork()
        self.havoc(b, x)
        b.assume([f for _, f in self.inv(b, no, None, None, entry)])
        out = []
        for t, v in self.expr(b, x.test):
            c = truth(v)
            e = t.fork()
            e.assume(z3.Not(c))
            out.append(e)
            t.assume(c)
            var0 = self.variant(t, no)
            for u in self.block([t], x.body):
                if u.out is None or u.out[0] == 'continue':
                    u.out = None
                    self.oblige('loop %d is kept' % no, u, self.inv(u, no, None, None, entry))
                    if var0 is not None:
                        v1 = self.variant(u, no)
                        self.oblige('loop %d terminates' % no, u, z3.And(v1 < var0, var0 >= 0))
                elif u.out[0] == 'break':
                    u.out = None
                    out.append(u)
                else:
                    out.append(u)
        return out

    def variant(self, s, no):
        d = self.c.decreases
        if d is None or no not in d:
            return None
        return d[no](s, self.old)

    def iterate(self, v):
        if isinstance(v, VNew):
            return v
        if isinstance(v, VL):
            return VNew(v.n, lambda i: v.at[i], getattr(v, 'src', None))
        if isinstance(v, VD):
            return VNew(v.keys.n, lambda i: v.keys.at[i], getattr(v, 'src', None))
        return None

    # ---- expressions: list of (state, value)
    def expr(self, s, x):
        if isinstance(x, ast.Constant):
            v = x.value
            if v is None:
                return [(s, none)]
            if isinstance(v, bool):
                return [(s, z3.BoolVal(v))]
            if isinstance(v, int):
                return [(s, z3.IntVal(v))]
            if isinstance(v, str):
                return [(s, VStr([z3.IntVal(ord(q)) for q in v]) if self.c.unroll else lit(v))]
            if isinstance(v, float):
                return [(s, fresh(Obj, 'float'))]
            raise Unsup('constant %r' % (v, ))
        if isinstance(x, ast.Name):
            if x.id in s.loc:
                return [(s, s.loc[x.id])]
            if x.id in self.c.globs:
                return [(s, self.c.globs[x.id])]
            raise Unsup('name %s' % x.id)
        if isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id not in s.loc:
                k = x.value.id + '.' + x.attr
                if k in self.fields:
                    return [(s, s.heap.get(none, k))]
                raise Unsup('name %s' % k)
            out = []
            for t, o in self.expr(s, x.value):
                if not (z3.is_expr(o) and o.sort() == Obj):
                    raise Unsup('attribute %s of %r' % (x.attr, o))
                if x.attr not in self.fields:
                    raise Unsup('field %s' % x.attr)
                v = t.heap.get(o, x.attr)
                if isinstance(v, (VL, VD)):
                    t.assume(v.wf())
                    v.src = (o, x.attr, (t.heap.f[x.attr], v.keys if isinstance(v, VD) else v))
                out.append((t, v))
            return out
        if isinstance(x, ast.BoolOp):
            # short-circuit: operands without effects only
            vs = []
            for y in x.values:
                r = self.expr(s, y)
                if len(r) != 1:
                    raise Unsup('effects in a condition')
                s, v = r[0]
                vs.append(truth(v))
            return [(s, z3.And(*vs) if isinstance(x.op, ast.And) else z3.Or(*vs))]
        if isinstance(x, ast.UnaryOp):
            (s, v), = self.expr(s, x.operand)
            if isinstance(x.op, ast.Not):
                return [(s, z3.Not(truth(v)))]
            if isinstance(x.op, ast.USub):
                return [(s, -v)]
            raise Unsup('unary operator')
        if isinstance(x, ast.BinOp):
            (s, a), = self.expr(s, x.left)
            (s, b), = self.expr(s, x.right)
            if z3.is_expr(a) and z3.is_expr(b) and a.sort() == Int and b.sort() == Int:
                op = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b,
                      ast.FloorDiv: lambda: a / b, ast.Mod: lambda: a % b}.get(type(x.op))
                if op:
                    if isinstance(x.op, (ast.FloorDiv, ast.Mod)):
                        self.oblige('divisor is positive', s, b > 0)
                    return [(s, op())]
            if isinstance(x.op, ast.Add) and isinstance(a, VStr) and isinstance(b, VStr):
                return [(s, VStr(a.cs + b.cs))]
            if isinstance(x.op, ast.Div) and z3.is_expr(a) and z3.is_expr(b) and a.sort() == Int and b.sort() == Int:
                return [(s, VQuot(a, b))]
            if isinstance(x.op, ast.Add) and z3.is_expr(a) and z3.is_expr(b):
                if a.sort() == Name and b.sort() == Name:
                    return [(s, cat(a, b))]
            raise Unsup('operator at line %d' % x.lineno)
        if isinstance(x, ast.Compare):
            (s, a), = self.expr(s, x.left)
            out = []
            for op, y in zip(x.ops, x.comparators):
                (s, b), = self.expr(s, y)
                out.append(self.compare(s, op, a, b))
                a = b
            return [(s, z3.And(*out) if len(out) > 1 else out[0])]
        if isinstance(x, ast.List):
            if not x.elts:
                return [(s, VEmpty())]
            (s, v), = self.expr(s, x.elts[0])
            r = VL.empty(v.sort()).append(v)
            for y in x.elts[1:]:
                (s, v), = self.expr(s, y)
                r = r.append(v)
            if all(isinstance(y, ast.Constant) for y in x.elts):
                r.text = ast.unparse(x)
            return [(s, r)]
        if isinstance(x, ast.Dict) and not x.keys:
            return [(s, VEmpty())]
        if isinstance(x, ast.Dict) and all(isinstance(q, ast.Constant) and isinstance(q.value, str) for q in x.keys):
            vs = []
            for q in x.values:
                (s, v), = self.expr(s, q)
                vs.append(v)
            o = self.alloc(s)
            for q, v in zip(x.keys, vs):
                f = 'k:' + q.value
                if f not in self.fields:
                    raise Unsup('dictionary key %r' % q.value)
                if isinstance(v, VEmpty):
                    raise Unsup('nested literal')
                s.heap.put(o, f, asobj(s, v, self.fields[f][1]))
                self.namefield(s, f)
            return [(s, o)]
        if isinstance(x, ast.Tuple):
            vs = []
            for y in x.elts:
                (s, v), = self.expr(s, y)
                vs.append(v)
            return [(s, tuple(vs))]
        if isinstance(x, ast.Subscript):
            (s, c), = self.expr(s, x.value)
            if isinstance(c, VStr) and isinstance(x.slice, ast.Slice):
                lo, hi, st = (None if q is None else ast.literal_eval(q) for q in (x.slice.lower, x.slice.upper, x.slice.step))
                return [(s, VStr(c.cs[lo:hi:st]))]
            f = self.itemfield(c, x.slice)
            if f:
                v = s.heap.get(c, f)
                if isinstance(v, (VL, VD)):
                    s.assume(v.wf())
                return [(s, v)]
            (s, k), = self.expr(s, x.slice)
            if z3.is_expr(c) and c.sort() == Obj and '__getitem__' in self.table:
                return self.call_values(s, self.table['__getitem__'], [c, k])
            if isinstance(c, VStr):
                self.oblige('index in range', s, z3.And(0 <= k, k < len(c.cs)))
                ch = fresh(Int, 'char')
                for n, q in enumerate(c.cs):
                    s.assume(z3.Implies(k == n, ch == q))
                if all(z3.is_int_value(q) for q in c.cs) and len({q.as_long() for q in c.cs}) == len(c.cs):
                    # the characters differ, so the position can be read back
                    f = position_in(c)
                    s.assume(f(ch) == k, *[f(q) == n for n, q in enumerate(c.cs)])
                return [(s, VStr([ch]))]
            if isinstance(c, VL):
                k = unopt(k)
                self.oblige('index in range', s, z3.And(0 <= k, k < c.n))
                s.assume(0 <= k, k < c.n)
                return [(s, c.at[k])]
            if isinstance(c, VD):
                k = coerce(k, c.keys.es)
                if self.trying or 'KeyError' in self.c.raises:
                    t = s.fork()
                    t.assume(z3.Not(c.keys.st[k]))
                    s.assume(c.keys.st[k])
                    out = []
                    if self.feasible(t):
                        t.out = ('raise', 'KeyError')
                        out.append((t, none))
                    return out + [(s, c.m[k])]
                self.oblige('key present', s, c.keys.st[k])
                return [(s, c.m[k])]
            raise Unsup('subscript at line %d' % x.lineno)
        if isinstance(x, ast.Lambda):
            if 'lambda' in self.c.hooks:
                return self.c.hooks['lambda'](self, s, x)
            v = fresh(Obj, 'lambda')
            s.assume(v != none)
            return [(s, v)]
        if isinstance(x, ast.IfExp):
            (s, c), = self.expr(s, x.test)
            c = truth(c)
            a, b = s.fork(), s
            a.assume(c)
            b.assume(z3.Not(c))
            return self.expr(a, x.body) + self.expr(b, x.orelse)
        if isinstance(x, ast.Call):
            return self.call(s, x)
        if isinstance(x, ast.ListComp) and len(x.generators) == 1 and isinstance(x.elt, ast.Name) and isinstance(
                x.generators[0].target, ast.Name) and x.elt.id == x.generators[0].target.id:
            # the elements of a list that satisfy a condition, in order
            (s, v), = self.expr(s, x.generators[0].iter)
            if isinstance(v, VS):
                v = VL(v.es, *VL.new(v.es).parts()[:2], v.st, fresh(z3.ArraySort(v.es, Int), 'pos'))
                s.assume(v.wf(), v.distinct())
            if isinstance(v, VL):
                y, c = self.condition(s, v, x.generators[0], [])
                r = VL.new(v.es)
                z = fresh(v.es, 'z')
                s.assume(r.wf(), r.n <= v.n, z3.Implies(v.distinct(), r.distinct()),
                         z3.ForAll([y], r.st[y] == z3.And(v.st[y], c), patterns=[r.st[y]]),
                         z3.ForAll([y], z3.Implies(z3.And(v.st[y], c), r.st[y]), patterns=[v.st[y]]),
                         z3.Implies(v.distinct(), z3.ForAll([y, z], z3.Implies(
                             z3.And(r.st[y], r.st[z], v.pos[y] < v.pos[z]), r.pos[y] < r.pos[z]),
                             patterns=[z3.MultiPattern(r.pos[y], r.pos[z])])))
                return [(s, r)]
        raise Unsup('%s at line %d' % (type(x).__name__, x.lineno))

    def condition(self, s, v, g, extra):
        """the condition of a comprehension on an element y of the list v"""
        y = fresh(v.es, 'y')
        u = s.fork()
        u.assume(v.st[y])
        self.bindtarget(u, g.target, y)
        cs = []
        mark = FRESH[0]
        for e in list(g.ifs) + extra:
            r = self.expr(u, e)
            if len(r) != 1 or r[0][0].out is not None:
                raise Unsup('effects in a comprehension')
            u, b = r[0]
            cs.append(truth(b))
        if any(u.heap.f[k] is not s.heap.f[k] for k in u.heap.f):
            raise Unsup('effects in a comprehension')
        if FRESH[0] != mark:
            # a value that was introduced for this y only
            raise Unsup('a comprehension over computed values')
        return y, z3.And(*cs) if cs else z3.BoolVal(True)

    def itemfield(self, c, sl):
        """the field a constant key or position of an object stands for"""
        if z3.is_expr(c) and c.sort() == Obj and isinstance(sl, ast.Constant):
            f = 'k:%s' % (sl.value, )
            return f if f in self.fields else None
        return None

    def alloc(self, s):
        """a new object"""
        o = fresh(Obj, 'new')
        s.assume(o != none)
        if 'alive' in self.fields:
            s.assume(z3.Not(s.heap.get(o, 'alive')))
            s.heap.put(o, 'alive', True)
            self.namefield(s, 'alive')
        return o

    def compare(self, s, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)) and z3.is_expr(b) and b.sort() == Obj:
            r = memb(asobj(s, a, Obj), b)
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, VL):
                r = b.st[coerce(a, b.es)]
            elif isinstance(b, VS):
                r = b.st[coerce(a, b.es)]
            elif isinstance(b, VD):
                r = b.keys.st[coerce(a, b.keys.es)]
            else:
                raise Unsup('membership')
            return z3.Not(r) if isinstance(op, ast.NotIn) else r
        if isinstance(op, (ast.Is, ast.IsNot)) or isinstance(op, (ast.Eq, ast.NotEq)) and (
                isinstance(a, VO) or isinstance(b, VO)):
            if isinstance(b, VO):
                a, b = b, a
            if isinstance(a, VO):
                if not (z3.is_expr(b) and b.eq(none)):
                    raise Unsup('comparison of an optional value')
                r = a.isnone
            else:
                r = eq(a, b)
            return z3.Not(r) if isinstance(op, (ast.IsNot, ast.NotEq)) else r
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = eq(a, b)
            return z3.Not(r) if isinstance(op, ast.NotEq) else r
        a, b = unopt(a), unopt(b)
        if z3.is_expr(a) and z3.is_expr(b) and a.sort() == Obj and b.sort() == Obj:
            r = {ast.Lt: lambda: less(a, b), ast.Gt: lambda: greater(a, b)}.get(type(op))
            if r is None:
                raise Unsup('order comparison')
            return r()
        if a.sort() != Int or b.sort() != Int:
            raise Unsup('order comparison')
        return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]

    # ---- calls
    def callee(self, x):
        f = x.func
        n = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        return self.table.get(n)

    def hook(self, x):
        f = x.func
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and (f.value.id, f.attr) in self.c.hooks:
                return self.c.hooks[f.value.id, f.attr]
            return self.c.hooks.get(('*', f.attr))
        if isinstance(f, ast.Name):
            return self.c.hooks.get(f.id)
        return None

    def argexprs(self, x, k):
        ps = list(k.params)
        args = list(x.args)
        if isinstance(x.func, ast.Attribute) and ps and ps[0] == 'self':
            args = [x.func.value] + args
        kw = {a.arg: a.value for a in x.keywords}
        out = []
        for j, p in enumerate(ps):
            if j < len(args):
                out.append(args[j])
            elif p in kw:
                out.append(kw[p])
            else:
                out.append(None)
        if len(args) > len(ps) or set(kw) - set(ps):
            raise Unsup('arguments of %s' % ast.unparse(x))
        return out

    def call(self, s, x):
        f = x.func
        if isinstance(f, ast.Subscript) and '[]' in self.c.hooks:
            return self.c.hooks['[]'](self, s, x)
        h = self.hook(x)
        if h and h[1] is not None:
            r = h[1](self, s, x)
            if r is not NotImplemented:
                return r
        if isinstance(f, ast.Name):
            r = self.builtin(s, x, f.id)
            if r is not None:
                return r
        k = self.callee(x)
        if k is not None:
            r = self.call_contract(s, x, k)
            if h and h[2] is not None:
                for t, v in r:
                    if t.out is None:
                        h[2](self, t, x, v)
            return r
        if isinstance(f, ast.Attribute):
            outs = self.expr(s, f.value)
            if len(outs) == 1:
                s, o = outs[0]
                r = self.method(s, x, o, f)
                if r is not None:
                    if h and h[2] is not None:
                        for t, v in r:
                            h[2](self, t, x, v)
                    return r
        raise Unsup('call of %s at line %d' % (ast.unparse(f), x.lineno))

    def args(self, s, x):
        vs = []
        for a in x.args:
            (s, v), = self.expr(s, a)
            vs.append(v)
        return s, vs

    def builtin(self, s, x, n):
        if n == 'len':
            s, (v, ) = self.args(s, x)
            if isinstance(v, VL):
                return [(s, v.n)]
            if isinstance(v, VD):
                return [(s, v.keys.n)]
            if isinstance(v, VStr):
                return [(s, z3.IntVal(len(v.cs)))]
            return None
        if n == 'isinstance':
            (s, v), = self.expr(s, x.args[0])
            if z3.is_expr(v) and v.sort() == Name:
                v = objof(v)
            if not (z3.is_expr(v) and v.sort() == Obj):
                raise Unsup('isinstance')
            if isinstance(x.args[1], ast.Name) and x.args[1].id not in s.loc:
                return [(s, isa(x.args[1].id)(v))]
            if isinstance(x.args[1], ast.Tuple) and all(isinstance(q, ast.Name) for q in x.args[1].elts):
                return [(s, z3.Or(*[isa(q.id)(v) for q in x.args[1].elts]))]
            (s, w), = self.expr(s, x.args[1])
            if z3.is_expr(w) and w.sort() == Obj:
                return [(s, isinstv(v, w))]
            raise Unsup('isinstance')
        if n in ('dict', 'list', 'set') and not x.args and not x.keywords:
            return [(s, VEmpty())]
        if n == 'tuple' and len(x.args) == 1:
            s, (v, ) = self.args(s, x)
            if z3.is_expr(v) and v.sort() == Obj:
                return [(s, tupleof(v))]
            return None
        if n == 'type' and len(x.args) == 1:
            return [(s, fresh(Obj, 'type'))]
        if n == 'int' and len(x.args) == 1:
            s, (v, ) = self.args(s, x)
            if isinstance(v, VQuot):
                # exact: the floats involved hold integers below 2**53
                self.oblige('int of a quotient is exact', s, z3.And(v.b > 0, v.a >= 0, v.a < 2**53, v.a % v.b == 0))
                return [(s, v.a / v.b)]
            if z3.is_expr(v) and v.sort() == Int:
                return [(s, v)]
            return None
        if n == 'set' and len(x.args) == 1:
            s, (v, ) = self.args(s, x)
            if isinstance(v, VL):
                return [(s, VS(v.es, v.st))]
            return None
        if n == 'list' and len(x.args) == 1:
            s, (v, ) = self.args(s, x)
            if isinstance(v, VS):
                r = VL.new(v.es)
                r.st = v.st
                s.assume(r.wf(), r.distinct())
                return [(s, r)]
            if isinstance(v, VL):
                return [(s, VL(v.es, *v.parts()))]
            if isinstance(v, VD):
                return [(s, VL(v.keys.es, *v.keys.parts()))]
            return None
        if n == 'sorted':
            (s, v), = self.expr(s, x.args[0])
            if isinstance(v, VEmpty):
                return None
            if isinstance(v, VS) and v.es == Int and not x.keywords:
                r = VL.new(Int)
                r.st = v.st
                i, j = z3.Const('i', Int), z3.Const('j', Int)
                s.assume(r.wf(), r.distinct(), z3.ForAll([i, j], z3.Implies(
                    z3.And(0 <= i, i < j, j < r.n), r.at[i] < r.at[j]), patterns=[z3.MultiPattern(r.at[i], r.at[j])]))
                return [(s, r)]
            if isinstance(v, VL):
                # a permutation
                r = VL.new(v.es)
                r.n, r.st = v.n, v.st
                s.assume(r.wf(), z3.Implies(v.distinct(), r.distinct()))
                return [(s, r)]
            return None
        if n == 'reversed':
            s, (v, ) = self.args(s, x)
            if isinstance(v, VL):
                return [(s, VNew(v.n, lambda i: v.at[v.n - 1 - i]))]
            return None
        if n == 'range':
            s, vs = self.args(s, x)
            vs = [unopt(v) for v in vs]
            a, b = (z3.IntVal(0), vs[0]) if len(vs) == 1 else vs[:2]
            if len(vs) > 2:
                return None
            return [(s, VNew(z3.If(b > a, b - a, 0), lambda i: a + i))]
        if n == 'enumerate':
            s, (v, ) = self.args(s, x)
            q = self.iterate(v)
            return [(s, VNew(q.n, lambda i: (i, q.at(i)), q.src))] if q else None
        if n == 'repr':
            s, (v, ) = self.args(s, x)
            return [(s, fresh(Name, 'repr'))]
        if n == 'print':
            return [(s, none)]
        if n == 'divmod' and len(x.args) == 2:
            s, (a, b) = self.args(s, x)
            if z3.is_expr(a) and z3.is_expr(b) and a.sort() == Int and b.sort() == Int:
                self.oblige('divisor is positive', s, b > 0)
                return [(s, (a / b, a % b))]
            return None
        if n in ('any', 'all') and len(x.args) == 1 and isinstance(x.args[0], ast.GeneratorExp):
            g = x.args[0]
            if len(g.generators) != 1:
                return None
            if not isinstance(g.generators[0].iter, ast.Tuple):
                (s, v), = self.expr(s, g.generators[0].iter)
                if not isinstance(v, VL):
                    return None
                y, c = self.condition(s, v, g.generators[0], [g.elt] if n == 'any' else
                                      [ast.UnaryOp(op=ast.Not(), operand=g.elt)])
                r = fresh(Bool, n)
                w = fresh(v.es, 'w')
                s.assume(z3.Implies(r, z3.And(v.st[w], z3.substitute(c, (y, w)))),
                         z3.ForAll([y], z3.Implies(z3.And(v.st[y], c), r), patterns=[v.st[y]]))
                return [(s, r if n == 'any' else z3.Not(r))]
            # over a tuple written out
            if g.generators[0].ifs:
                return None
            vs = []
            s, q = self.expr(s, g.generators[0].iter)[0]
            for v in q:
                u = s.fork()
                self.bindtarget(u, g.generators[0].target, v)
                (u, b), = self.expr(u, g.elt)
                vs.append(truth(b))
            return [(s, z3.Or(*vs) if n == 'any' else z3.And(*vs))]
        return None

    def method(self, s, x, o, f):
        n = f.attr
        if isinstance(o, VEmpty):
            if n == 'append':
                (s, v), = self.expr(s, x.args[0])
                v = unopt(v)
                self.assign(s, f.value, VL.empty(v.sort()).append(v))
                return [(s, none)]
            raise Unsup('method %s of an empty list' % n)
        if isinstance(o, VL):
            if n == 'append':
                (s, v), = self.expr(s, x.args[0])
                v = coerce(unopt(v), o.es)
                self.assign(s, f.value, o.append(v))
                return [(s, none)]
            if n == 'pop' and not x.args:
                self.oblige('pop of a list that is not empty', s, o.n > 0)
                s.assume(o.n > 0)
                r = VL.new(o.es)
                r.n, r.at = o.n - 1, o.at
                y = z3.Const('y', o.es)
                s.assume(r.wf(), z3.ForAll([y], z3.Implies(r.st[y], o.st[y]), patterns=[r.st[y]]),
                         z3.ForAll([y], z3.Implies(z3.And(o.st[y], y != o.at[o.n - 1]), r.st[y]), patterns=[o.st[y]]))
                v = o.at[o.n - 1]
                s.assume(o.st[v])
                self.assign(s, f.value, r)
                return [(s, v)]
            if n == 'remove':
                (s, v), = self.expr(s, x.args[0])
                v = coerce(v, o.es)
                self.oblige('removed element is present', s, o.st[v])
                r = VL.new(o.es)
                k = fresh(Int, 'k')
                i, y = z3.Const('i', Int), z3.Const('y', o.es)
                r.n = o.n - 1
                s.assume(r.wf(), 0 <= k, k < o.n, o.at[k] == v,
                         z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), o.at[i] != v), patterns=[o.at[i]]),
                         z3.ForAll([i], r.at[i] == z3.If(i < k, o.at[i], o.at[i + 1]), patterns=[r.at[i]]),
                         z3.ForAll([y], z3.Implies(r.st[y], o.st[y]), patterns=[r.st[y]]),
                         z3.ForAll([y], z3.Implies(z3.And(o.st[y], y != v), r.st[y]), patterns=[o.st[y]]),
                         z3.Implies(o.distinct(), z3.And(r.distinct(), z3.Not(r.st[v]), k == o.pos[v])))
                self.assign(s, f.value, r)
                return [(s, none)]
        if isinstance(o, VS) and n in ('add', 'discard') and len(x.args) == 1:
            (s, v), = self.expr(s, x.args[0])
            self.assign(s, f.value, VS(o.es, z3.Store(o.st, coerce(unopt(v), o.es), n == 'add')))
            return [(s, none)]
        if isinstance(o, VD):
            if n == 'values':
                return [(s, VNew(o.keys.n, lambda i: o.m[o.keys.at[i]], getattr(o, 'src', None)))]
            if n == 'items':
                return [(s, VNew(o.keys.n, lambda i: (o.keys.at[i], o.m[o.keys.at[i]]), getattr(o, 'src', None)))]
            if n == 'keys':
                return [(s, o)]
            if n == 'get' and len(x.args) == 1:
                (s, v), = self.expr(s, x.args[0])
                v = coerce(v, o.keys.es)
                if o.m.sort().range() != Obj:
                    return None
                return [(s, z3.If(o.keys.st[v], o.m[v], none))]
        if z3.is_expr(o) and o.sort() == Name and n == 'format':
            for a in x.args:
                (s, _), = self.expr(s, a)
            return [(s, fresh(Name, 'text'))]
        return None

    def call_values(self, s, k, vals):
        """call of a contract with values"""
        names = ['$%d' % i for i in range(len(vals))]
        for n, v in zip(names, vals):
            s.loc[n] = v
        f = ast.Call(func=ast.Name(id='?', ctx=ast.Load()), args=[ast.Name(id=n, ctx=ast.Load()) for n in names], keywords=[])
        return self.call_contract(s, f, k)

    def call_contract(self, s, x, k):
        ax = self.argexprs(x, k)
        loc = {}
        for (p, srt), a in zip(k.params.items(), ax):
            if a is None:
                if p in k.defaults and not isinstance(srt, tuple):
                    loc[p] = coerce(k.defaults[p], srt)
                    continue
                loc[p] = fresh(srt, p) if not isinstance(srt, tuple) else None
                continue
            (s, v), = self.expr(s, a)
            if isinstance(v, VEmpty) and isinstance(srt, tuple):
                v = VD(VL.empty(srt[1]), fresh(z3.ArraySort(srt[1], srt[2]), 'm')) if srt[0] == 'dict' else VL.empty(srt[1])
            v = unopt(v) if not isinstance(srt, tuple) and srt == Int else v
            loc[p] = v if isinstance(srt, tuple) else coerce(v, srt)
        pre = State(loc, s.heap, s.facts, dict(s.ghost))
        self.oblige('call of %s' % k.qual.split('.')[-1], s, k.requires(pre))
        if k.smaller and self.c is k:
            self.oblige('recursion terminates', s, k.smaller(pre, self.old))
        if k.decreases and self.c is k:
            self.oblige('recursion terminates', s, z3.And(k.decreases(pre) < k.decreases(self.old), k.decreases(pre) >= 0))
        pre = State(dict(loc), s.heap.copy(), s.facts, dict(s.ghost))
        out = []
        for exc, cond in k.raises.items():
            t = s.fork()
            t.assume(cond(pre))
            if self.feasible(t):
                t.out = ('raise', 'any exception' if exc == '*' else exc)
                out.append((t, none))
            s.assume(z3.Not(cond(pre)))
        for fd in k.modifies:
            s.heap.havoc(fd)
        post = State(dict(loc), s.heap, s.facts, s.ghost)
        for p, a in zip(k.params, ax):
            if p in k.byref:
                post.loc[p] = havoc_val(loc[p])
                s.assume(post.loc[p].wf())
                self.assign(s, a, post.loc[p])
        ret = None
        if k.returns is not None:
            ret = VO(fresh(Bool, 'isnone'), fresh(Int, 'ret')) if isinstance(k.returns, str) else \
                VL.new(k.returns[1]) if isinstance(k.returns, tuple) else fresh(k.returns, 'ret')
            if isinstance(ret, VL):
                s.assume(ret.wf())
        s.assume([f for _, f in k.ensures(post, pre, ret)])
        return out + [(s, none if ret is None else ret)]


class VStr:
    """string of known length: character codes"""
    kind = 'str'

    def __init__(self, cs):
        self.cs = list(cs)


def position_in(c):
    return z3.Function('position_in:' + ''.join(chr(q.as_long()) for q in c.cs), Int, Int)


class VQuot:
    """true quotient of two integers"""

    def __init__(self, a, b):
        self.a, self.b = a, b


def asobj(s, v, sort):
    """v as a value of the sort"""
    if sort == Obj:
        if z3.is_expr(v) and v.sort() == Name:
            return objof(v)
        if z3.is_expr(v) and v.sort() in (Int, Bool):
            return fresh(Obj, 'boxed')
        if isinstance(v, (VL, VD, VS)):
            return fresh(Obj, 'boxed')
    return coerce(v, sort)


class VEmpty:
    """[] or {} of which the element type is not known yet"""


def havoc_val(v):
    if isinstance(v, VL):
        return VL.new(v.es)
    if isinstance(v, VD):
        return VD.new(v.keys.es, v.m.sort().range())
    if isinstance(v, VS):
        return VS(v.es, fresh(v.st.sort()))
    if isinstance(v, VO):
        return VO(fresh(Bool), fresh(Int))
    if z3.is_expr(v):
        return fresh(v.sort())
    raise Unsup('havoc of %r' % (v, ))


def truth(v):
    if isinstance(v, VO):
        raise Unsup('truth of an optional value')
    if isinstance(v, VL):
        return v.n > 0
    if z3.is_expr(v):
        if v.sort() == Bool:
            return v
        if v.sort() == Int:
            return v != 0
        if v.sort() == Obj:
            return boolof(v)
    raise Unsup('truth of %r' % (v, ))


def unopt(v):
    return v.v if isinstance(v, VO) else v


def eq(a, b):
    if isinstance(a, VEmpty) or isinstance(b, VEmpty):
        if isinstance(a, VEmpty):
            a, b = b, a
        if isinstance(a, VL):
            return a.n == 0
        raise Unsup('comparison with []')
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return a == b
    raise Unsup('comparison')


def load(t):
    import copy
    u = copy.deepcopy(t)
    for n in ast.walk(u):
        if hasattr(n, 'ctx'):
            n.ctx = ast.Load()
    return u


def preorder(fn):
    for x in ast.iter_child_nodes(fn):
        yield x
        yield from preorder(x)
