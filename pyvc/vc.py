"""Verification conditions of one contract case: symbolic execution of the
real constructor and component on every path, and the obligations that its
result satisfies the contract."""
import copy
import itertools
import random
import re
import time
import traceback

from . import ints, terms, path, arr, symom, symnp, loader
from .ints import I, const, norm, ravel, fresh_idx, prove_ge, Unsupported
from .terms import rel, rsum, is_zero, canon, deriv, ZERO, ONE, rlift, Cond
from fractions import Fraction
from .arr import Arr, Blk, SymShape, mkint, Store

OT = None


def ot():
    global OT
    if OT is None:
        OT = loader.Loader()
        OT.load('omtools.api')
    return OT


class Obl:
    """one obligation; its status is the worst over all paths"""

    def __init__(self, name):
        self.name, self.status, self.detail = name, 'proved', ''
        self.replay, self.paths = [], 0

    ORDER = {'proved': 0, 'other': 1, 'failed': 2, 'refuted': 3}

    def add(self, status, detail='', replay=None):
        self.paths += 1
        if self.ORDER[status] > self.ORDER[self.status]:
            self.status, self.detail = status, detail
        if replay is not None:
            self.replay.append(replay)


class Ctx:
    """collects the obligations of one case"""

    def __init__(self, base):
        self.base, self.obls, self.hidden = base, {}, {}
        self.replay = None
        self.dom = {}
        self.backend = "PyVC normal forms + z3"

    mode = keep = watch = None
    poles = True

    def obl(self, what):
        if self.keep is not None and what not in self.keep:
            # an obligation of another property
            return self.hidden.setdefault(what, Obl(self.base + '#' + what))
        if what not in self.obls:
            self.obls[what] = Obl(self.base + '#' + what)
        return self.obls[what]

    def ok(self, what):
        self.obl(what).add('proved')

    def fail(self, what, detail):
        """the engine is certain (holds for every input of the path)"""
        if path.infeasible():
            raise path.Infeasible()
        r = None
        e = None
        try:
            e = small_env([])
            if e is not None and self.replay:
                r = self.replay(e)
        except Unsupported:
            pass
        self.obl(what).add('refuted' if e is not None else 'other', detail, r)

    def exc(self, what, e, pre=''):
        """an exception raised by the code; some kinds may come from the
        engine's own limits"""
        if path.infeasible():
            raise path.Infeasible()
        d = '%s%s: %s' % (pre, type(e).__name__, str(e)[:200])
        tb = traceback.extract_tb(e.__traceback__)
        if tb and '/pyvc/' in tb[-1].filename and isinstance(e, (AttributeError, TypeError, NameError, NotImplementedError, IndexError, KeyError, RecursionError)):
            self.open(what, d)
        else:
            self.fail(what, d)

    def open(self, what, detail):
        if path.infeasible():
            raise path.Infeasible()
        self.obl(what).add('other', detail)

    def check(self, what, cond, detail=''):
        if cond:
            self.ok(what)
        elif cond is None:
            self.open(what, 'not decided: ' + detail)
        else:
            self.fail(what, detail)
        return cond

    # ---- equality of elements for all indices
    def equal(self, what, a, b, idx=(), detail=''):
        a, b = rlift(a), rlift(b)
        d = a - b
        try:
            z = is_zero(d)
            if not z:
                z = cases_zero(d)
        except Unsupported as e:
            z = None
            why = str(e)
        if z:
            self.ok(what)
            return True
        ref = refute(a, b, idx, self.dom)
        if ref is None:
            self.open(what, 'not decided: %s' % (str(canon(d))[:400] if z is not None else why))
            return False
        env, va, vb = ref
        det = '%s at sizes %s, index %s: code %.6g, contract %.6g' % (
            detail or what, {repr(k): v for k, v in env.items() if isinstance(k, ints.Atom) and k.kind == 'dim'},
            [ints.ieval(norm(i), env) for i in idx], va, vb)
        rp = None
        if self.replay:
            try:
                rp = self.replay(env)
            except Exception:
                rp = None
        self.obl(what).add('refuted', det, rp)
        return False


def cases_zero(d):
    """drop the terms whose integer conditions contradict each other or the
    facts of the path (z3)"""
    q = canon(d)
    for n in range(4):
        keep = {}
        for (bs, cs, fs), c in q.t.items():
            fm = [('c', x) for x in sorted(cs, key=repr) if x.isint()]
            if not fm or not path.unsat(fm):
                keep[(bs, cs, fs)] = c
        if len(keep) == len(q.t):
            break
        q = canon(terms.R(keep))
    return not q.t


def feval(f, env):
    """truth of a formula of integer conditions; None if not known"""
    k = f[0]
    if k in 'TF':
        return k == 'T'
    if k == 'c':
        if not f[1].isint():
            return None
        v = ints.ieval(f[1].a, env)
        return {'eq': v == 0, 'ne': v != 0, 'ge': v >= 0}[f[1].op]
    if k == 'not':
        d = feval(f[1], env)
        return None if d is None else not d
    if k in ('and', 'or'):
        ds = [feval(x, env) for x in f[1:]]
        z = k == 'or'
        return z if z in ds else None if None in ds else not z
    return None


# ------------------------------------------------------------ refutation
def dims_in(r):
    out = set()

    def rec(a):
        if a.kind == 'idx':
            if a.size is not None:
                for x in norm(a.size).all_atoms():
                    rec(x)
        elif a.kind in ('dim', 'int'):
            out.add(a)
    for p in r:
        for a in p.all_atoms():
            rec(a)
    return out


def fact_atoms():
    F = ints.FACTS
    s = set()
    for p in list(F.eqs.values()) + list(F.ge):
        s |= set(p.all_atoms())
    s |= set(F.eqs)
    return {a for a in s if a.kind in ('dim', 'int')}


def r_ints(r):
    """integer polynomials occurring in a term"""
    out = []
    for (bs, cs, fs), c in r.t.items():
        for b in bs:
            out.append(lift_(b.size))
        for c_ in cs:
            if isinstance(c_.a, I):
                out.append(c_.a)
            else:
                out += r_ints(c_.a)
        for b, e in fs:
            if isinstance(e, terms.R):
                out += r_ints(e)
            for x in b.args:
                out += arg_ints(x)
            if b.kind == 'd':
                out.append(ints.atom(b.args[0]))
    return out


def arg_ints(x):
    if isinstance(x, I):
        return [x]
    if isinstance(x, terms.R):
        return r_ints(x)
    if isinstance(x, Cond):
        return [x.a] if isinstance(x.a, I) else r_ints(x.a)
    if isinstance(x, ints.Atom):
        return [ints.atom(x)]
    if isinstance(x, (tuple, list, frozenset)):
        return [p for y in x for p in arg_ints(y)]
    return []


lift_ = ints.lift


def all_dims(polys):
    todo, out = list(polys), set()
    seen = set()
    while todo:
        p = lift_(todo.pop())
        for a in p.all_atoms():
            if a in seen:
                continue
            seen.add(a)
            if a.kind in ('dim', 'int'):
                out.add(a)
            if a.kind == 'idx' and a.size is not None:
                todo.append(a.size)
            if a.args:
                todo += [q for q in a.args if isinstance(q, I)]
    return out


def small_env(polys, rnd=None, top=4):
    """a small concrete assignment of sizes that satisfies the path facts"""
    F = ints.FACTS
    rnd = rnd or random.Random(7)
    ats = sorted(all_dims(polys) | all_dims(list(F.eqs.values()) + list(F.ge)) | set(
        a for a in F.eqs if a.kind in ('dim', 'int')) | set(DIMS), key=lambda a: repr(a.key))
    free = [a for a in ats if a not in F.eqs]
    for attempt in range(400):
        env = {}
        for a in free:
            if a.kind == 'dim':
                env[a] = rnd.choice(range(1, top + 1)) if attempt else 2 + (hash(a.name) % 2)
            else:
                env[a] = rnd.choice(range(-3, 8))
        ok = True
        try:
            for _ in range(3):
                for a, v in F.eqs.items():
                    try:
                        env[a] = ints.ieval(v, env)
                    except KeyError:
                        pass
            for a in F.eqs:
                if a.kind == 'dim' and env.get(a, 0) < 1:
                    ok = False
            for p in F.ge:
                if ints.ieval(p, env) < 0:
                    ok = False
            for c in F.conds:
                if feval(('c', c) if isinstance(c, Cond) else c, env) is False:
                    ok = False
        except KeyError:
            ok = False
        if ok:
            return env
    return None


DIMS = []       # dimension atoms of the case (for the replay)


class Rand:
    """reproducible elements of the arrays"""

    def __init__(self, seed, dom):
        self.c, self.seed, self.dom = {}, seed, dom

    def el(self, name):
        lo, hi = self.dom.get(name, self.dom.get('*', (0.3, 0.9)))

        def f(i):
            k = (name, i)
            if k not in self.c:
                self.c[k] = random.Random(repr((self.seed, k))).uniform(lo, hi)
            return self.c[k]
        return f


class EnvD(dict):
    def __init__(self, d, rand):
        dict.__init__(self, d)
        self.rand = rand

    def __missing__(self, k):
        if isinstance(k, tuple) and k[0] == 'el':
            v = self.rand.el(k[1])
            self[k] = v
            return v
        if isinstance(k, tuple) and k[0] == 'p':
            v = self.rand.el(k[1])(0)
            self[k] = v
            return v
        raise KeyError(k)

    def __contains__(self, k):
        return dict.__contains__(self, k)

    def __or__(self, o):
        e = EnvD(self, self.rand)
        e.update(o)
        return e


def rv(r, env):
    return terms.reval(r, env)


def refute(a, b, idx, dom, tries=12):
    """sizes, index and values at which a and b differ; None if none found"""
    idx = [norm(i) for i in idx]
    ia = sorted({x for i in idx for x in i.all_atoms() if x.kind == 'idx'}, key=lambda x: repr(x.key))
    polys = r_ints(a) + r_ints(b) + idx
    t0 = time.time()
    for t in range(tries):
        e0 = small_env(polys, random.Random(100 + t), top=3)
        if e0 is None or time.time() - t0 > 15:
            return None
        env = EnvD(e0, Rand(t, dom))
        try:
            for c in ints.FACTS.conds:
                if isinstance(c, Cond) and not c.isint():
                    v = rv(c.a, env)
                    if not {'rge': v >= 0, 'rlt': v < 0, 'req': v == 0, 'rne': v != 0}[c.op]:
                        raise ValueError
            rngs = [range(ints.ieval(lift_(x.size), env)) for x in ia]
            n = 0
            for vals in itertools.product(*rngs):
                n += 1
                if n > 60:
                    break
                e = EnvD(env, env.rand)
                for x, v in zip(ia, vals):
                    dict.__setitem__(e, x, v)
                va, vb = rv(a, e), rv(b, e)
                if va != va or vb != vb:
                    continue
                if isinstance(va, complex) or isinstance(vb, complex):
                    continue
                if abs(va - vb) > 1e-7 * (1 + abs(va) + abs(vb)):
                    return e, va, vb
        except (KeyError, ValueError, ZeroDivisionError, OverflowError, TypeError):
            continue
    return None


# ------------------------------------------------------------ operands
class Opd:
    """an operand: name and (rank-generic) shape"""

    def __init__(self, name, dims, blk=None):
        self.name = name
        self.dims = [norm(ints.dim(d) if isinstance(d, str) else d) for d in dims]
        self.blk = tuple(blk) if blk else (False, ) * len(self.dims)
        DIMS.extend(a for d in self.dims for a in d.all_atoms() if a.kind == 'dim' and a not in DIMS)

    @property
    def shape(self):
        return arr.mkshape(self.dims, self.blk)

    def arr(self, prefix=''):
        n = prefix + self.name
        d = self.dims
        return Arr(d, lambda i: rel(n, ravel(i, d)), 'f', self.blk)

    def el(self, *idx):
        return rel(self.name, ravel([norm(i) for i in idx], self.dims))

    def flat(self, p):
        return rel(self.name, norm(p))

    @property
    def size(self):
        return norm(arr.prodI(self.dims))

    def make(self, via='input'):
        m = ot().load('omtools.api')
        val = self.arr('val:')
        val.store.ro = 'declared value of ' + self.name
        if via == 'input':
            # a declared input whose shape is taken from its value
            return m.Input(self.name, shape=self.shape, val=val) if hasattr(m, 'Input') else \
                ot().load('omtools.core.input').Input(self.name, shape=self.shape, val=val)


def same_dims(d1, b1, d2, b2):
    b1, b2 = b1 or (False, ) * len(d1), b2 or (False, ) * len(d2)
    if len(d1) != len(d2):
        # a shape of unknown rank may be known to have one axis
        return False
    for x, y in zip(d1, d2):
        if norm(x) != norm(y) and not ints.prove_eq(norm(x), norm(y)):
            if not differ(norm(x) - norm(y)):
                return None
            return False
    n1 = ints.FACTS.blk1
    for x, y, p, q in zip(d1, d2, b1, b2):
        if p != q and not {x, y, norm(x)} & n1:
            return False
    return True


def differ(d):
    """certainly not zero for some sizes of this path"""
    for k in range(6):
        e = small_env([d], random.Random(40 + k), top=5)
        if e is not None and ints.ieval(d, e) != 0:
            return True
    return False


def connectable(d1, b1, d2, b2):
    """OpenMDAO connects a source to an input of another shape when only axes
    of size 1 differ (the storage order is then unambiguous)"""
    if same_dims(d1, b1, d2, b2):
        return True
    if any(b1) or any(b2):
        return False
    d1, d2 = ([norm(x) for x in d if norm(x) != const(1)] for d in (d1, d2))
    return same_dims(d1, (False, ) * len(d1), d2, (False, ) * len(d2))


def shape_is(shape, dims, blk=None):
    try:
        d, b = arr.parse_shape(shape)
    except Exception:
        return False
    return same_dims(d, b, list(dims), blk or (False, ) * len(dims))


def elem(fn, dims):
    """fn at generic indices of an array"""
    idx = tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in dims)
    return idx, fn(idx)


# ------------------------------------------------------------ components
def jac_form(j, hints):
    """sum_k val_k w[row_k] v[col_k] over a suitable index shape"""
    st = j['store'].fn
    if j['n'] is not None:
        hs = list(hints)
        best = None
        for comp in arr.factorizations(j['n'], hs):
            idx = tuple(fresh_idx(d) if d != const(1) else const(0) for d in comp)
            k = (norm(ravel(idx, comp)), )
            r, c = j['rows'](k), j['cols'](k)
            if hasops(r) or hasops(c):
                if best is None:
                    best = comp
                continue
            v = st(k)
            bad = any(hasops(p) for p in r_ints(v))
            if not bad:
                best = comp
                break
        comp = best
        idx = tuple(fresh_idx(d) if d != const(1) else const(0) for d in comp)
        k = (norm(ravel(idx, comp)), )
        r, c, v = j['rows'](k), j['cols'](k), st(k)
        bs, f = symnp.expand_rows([a for i in idx for a in i.atoms()], v * rel('~w', r) * rel('~v', c))
        return rsum(bs, f), (r, c)
    best = None
    los, his = hints
    for co in los:
        for ci in his:
            o = tuple(fresh_idx(d) if d != const(1) else const(0) for d in co)
            i = tuple(fresh_idx(d) if d != const(1) else const(0) for d in ci)
            ko, ki = norm(ravel(o, co)), norm(ravel(i, ci))
            v = st((ko, ki))
            if best is None or not any(hasops(p) for p in r_ints(v)):
                best = (o, i, ko, ki, v)
                if not any(hasops(p) for p in r_ints(v)):
                    break
        else:
            continue
        break
    o, i, ko, ki, v = best
    bs = [a for x in o + i for a in x.atoms()]
    return rsum(bs, v * rel('~w', ko) * rel('~v', ki)), None


def hasops(p):
    return any(a.kind == 'op' and a.name in ('div', 'mod') for a in lift_(p).all_atoms())


def error_check(ctx, err, e):
    """e: the exception raised (or None); err: formula of the inputs that
    must be rejected, with the types of the exceptions"""
    f, types = err
    d = path.decide_formula(f)
    if e is not None:
        if not isinstance(e, types):
            return False
        if d is None and path._intonly(f):
            d = True if path.unsat([path.fnot(f)]) else False if path.unsat([f]) else None
        if d is True:
            ctx.ok('rejects')
        elif d is False:
            ctx.fail('accepts', '%s for admissible inputs: %s' % (type(e).__name__, str(e)[:200]))
        else:
            ctx.open('rejects', 'condition of %s not decided' % type(e).__name__)
        return True
    if d is True:
        ctx.fail('rejects', 'inputs that must be rejected are accepted')
    elif d is False:
        ctx.ok('rejects')
    else:
        # not examined by the code on this path: split
        gap = any(isinstance(g, tuple) and 'any' in repr(g) for g in ints.FACTS.conds)
        if path.branch(f):
            (ctx.open if gap else ctx.fail)('rejects', 'inputs that must be rejected are accepted')
        else:
            ctx.ok('rejects')
    return True


def watched(ctx, f):
    if not ctx.watch:
        return f()
    arr.EXPLOG = []
    try:
        f()
    finally:
        log, arr.EXPLOG = arr.EXPLOG, None
    ctx.watch(ctx, log)


def defined(ctx, run, outs):
    """run() with the obligation that no element of an input is divided by,
    or raised to a power that is negative for powers in {0} and [1, oo)"""
    terms.POLES = []
    try:
        run()
    finally:
        log, terms.POLES = terms.POLES, None
    seen = {}
    for b, e in log:
        if any(x.kind == 'el' for x in _rbases(b)) and not _positive(b):
            seen.setdefault(canon(e).key(), e)
    conds = [f if isinstance(f, Cond) else f[1] for f in ints.FACTS.conds if isinstance(f, Cond) or f[0] == 'c']
    facts = [f for f in conds if not f.isint()]
    bad = [e for e in seen.values() if not terms.nonneg(e, facts)]
    if not bad:
        ctx.ok('defined at zero')
    elif ctx.poles == 'always' or not any(_has_pole(dims, spec) for dims, blk, spec in outs.values()):
        ctx.open('defined at zero', 'an input is raised to %r' % (canon(bad[0]), ))


def _has_pole(dims, spec):
    """the specified function itself divides"""
    r = canon(rlift(spec(tuple(fresh_idx(d) for d in dims))))
    return _negexp(r)


def _negexp(r):
    for (bs, cs, fs), c in r.t.items():
        for b, e in fs:
            if not isinstance(e, Fraction) or e < 0 or e.denominator != 1 or b.kind == 'f' and b.args[0] not in (
                    'sin', 'cos', 'sinh', 'cosh', 'exp', 'tanh', 'arctan'):
                return True
            if any(_negexp(a) for a in b.args if isinstance(a, terms.R)):
                return True
    return False


def _positive(r):
    """an element that is positive whatever the inputs are"""
    def pos(b):
        return b.kind == 'e' or b.kind == 'q' and b.args[0] > 0 or b.kind == 'f' and b.args[0] == 'cosh' or \
            b.kind == 's' and _positive(b.args[0])
    some = False
    for (bs, cs, fs), c in canon(rlift(r)).t.items():
        strict = all(pos(b) for b, _ in fs) and not cs and all(
            prove_ge(norm(x.size) - 1) for x in bs)
        if c < 0 or not (strict or all(pos(b) or isinstance(e, Fraction) and e.denominator == 1 and e > 0 and e % 2 == 0
                                       for b, e in fs)):
            return False
        some = some or strict
    return some


def _rbases(r):
    out = []
    for (bs, cs, fs), c in rlift(r).t.items():
        for b, _ in fs:
            out.append(b)
            for a in b.args:
                if isinstance(a, terms.R):
                    out += _rbases(a)
    return out


def run_component(c, ctx, ops, outs, **kw):
    go = lambda: _run_component(c, ctx, ops, outs, **kw)
    if ctx.mode is None and ctx.poles:
        return defined(ctx, go, outs)
    return go()


def _run_component(c, ctx, ops, outs, twice=True, jac=True, check_defaults=True, hints=(), err=None, shapes=None):
    """obligations of a built component.
    ops: {input name: Opd}; outs: {output name: (dims, blk, spec)} with
    spec(idx) -> term over the operands' elements."""
    try:
        c.setup()
        c._resolve()
    except (Unsupported, path.Infeasible):
        raise
    except Exception as e:
        ctx.exc('setup', e, 'setup raises ')
        return
    ctx.ok('setup')
    if ctx.mode == 'shape':
        for n, y in (shapes or {}).items():
            m = c._out.get(n)
            if m is None:
                ctx.fail('declared shape', 'no output %s' % n)
                continue
            d, b = arr.parse_shape(y)
            ctx.check('declared shape', same_dims(m['dims'], m['blk'], d, b),
                      'the expression declares shape %r and its component %r' % (y, arr.mkshape(m['dims'], m['blk'])))
        return
    if ctx.mode == 'purity':
        from . import purity
        purity.component(c, ctx, hints)
        return
    ctx.check('inputs', set(c._inp) == set(ops), 'inputs %s instead of %s' % (sorted(c._inp), sorted(ops)))
    ctx.check('outputs', set(c._out) == set(outs), 'outputs %s instead of %s' % (sorted(c._out), sorted(outs)))
    if set(c._inp) != set(ops) or set(c._out) != set(outs) or ctx.mode == 'edges':
        return
    for n, o in ops.items():
        m = c._inp[n]
        ctx.check('input shape', connectable(m['dims'], m['blk'], o.dims, o.blk),
                  'input %s declared with shape %r' % (n, arr.mkshape(m['dims'], m['blk'])))
        ctx.check('units', m.get('units') is None, 'units')
        if check_defaults and connectable(m['dims'], m['blk'], o.dims, o.blk):
            idx, e = elem(m['val'].snap(), m['dims'])
            ctx.equal('default', e, rel('val:' + n, ravel(idx, m['dims'])), idx, 'default of input ' + n)
    if ctx.mode == 'default':
        return
    for n, (dims, blk, spec) in outs.items():
        m = c._out[n]
        if not ctx.check('output shape', same_dims(m['dims'], m['blk'], dims, blk),
                         'output %s declared with shape %r' % (n, arr.mkshape(m['dims'], m['blk']))):
            return

    def vec(prefix):
        return symom.Vec(c._inp, lambda n, dims: (lambda i: rel(prefix + n, ravel(i, dims))), 'input')
    garbage = [0]

    def outv():
        garbage[0] += 1
        g = 'old%d:' % garbage[0]
        return symom.Vec(c._out, lambda n, dims: (lambda i: rel(g + n, ravel(i, dims))))
    if twice:
        try:
            c.compute(vec('pre:'), outv())
        except (Unsupported, path.Infeasible):
            raise
        except Exception:
            pass
    try:
        o = outv()
        watched(ctx, lambda: c.compute(vec(''), o))
        if err:
            error_check(ctx, err, None)
    except (Unsupported, path.Infeasible):
        raise
    except symom.FrameError as e:
        ctx.fail('frame', 'writes to %s' % e)
        return
    except Exception as e:
        if err and error_check(ctx, err, e):
            return
        ctx.exc('value', e, 'compute raises ')
        return
    ctx.ok('frame')
    for n, (dims, blk, spec) in outs.items():
        idx, e = elem(o._s[n].fn, c._out[n]['dims'])
        if getattr(spec, 'old', False):     # elements the code leaves alone
            od = c._out[n]['dims']
            want = spec(idx, lambda i, g='old%d:' % garbage[0], od=od: rel(g + n, ravel(i, od)))
        else:
            want = spec(idx)
        ctx.equal('value', e, want, idx, 'value of ' + n)
    if not jac:
        return
    P = symom.Partials(c, True)
    try:
        watched(ctx, lambda: c.compute_partials(vec(''), P))
    except (Unsupported, path.Infeasible):
        raise
    except symom.FrameError as e:
        ctx.fail('frame', 'partials: writes to %s' % e)
        return
    except Exception as e:
        ctx.exc('partial', e, 'compute_partials raises ')
        return
    for n, (dims, blk, spec) in outs.items():
        for x, op in ops.items():
            jacobian(c, ctx, n, x, op, dims, spec, hints)
            

def jacobian(c, ctx, n, x, op, dims, spec, hints, what='partial'):
    oidx = tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in dims)
    want = rsum([a for i in oidx for a in norm(i).atoms()],
                rel('~w', ravel(oidx, dims)) * deriv(spec(oidx), {op.name: '~v'}))
    j = c._jac.get((n, x))
    if j is None:
        got = ZERO
    elif j['n'] is not None:
        hs = [dims, op.dims, list(dims) + list(op.dims), list(op.dims) + list(dims)] + list(hints)
        f = jac_form(j, hs)
        if f == ZERO:
            got = ZERO
        else:
            got, (r, cc) = f
            for p, lim, nm in ((r, j['no'], 'rows'), (cc, j['nw'], 'cols')):
                p = norm(p)
                if prove_ge(p) and prove_ge(norm(lim) - 1 - p):
                    ctx.ok('pattern')
                else:
                    ctx.open('pattern', '%s of (%s, %s) not shown in range: %s < %s' % (nm, n, x, p, lim))
    else:
        los = list(arr.factorizations(j['no'], [dims]))[:6]
        his = list(arr.factorizations(j['nw'], [op.dims]))[:6]
        f = jac_form(j, (los, his))
        got = f if f == ZERO else f[0]
    ctx.equal(what, got, want, (), 'derivative of %s with respect to %s' % (n, x))


# ------------------------------------------------------------ op cases
def dep_check(ctx, out, xs):
    want = []
    for x in xs:
        if not any(x is y for y in want):
            want.append(x)
    got = list(out.dependencies)
    ctx.check('deps', len(got) == len(want) and all(any(g is w for g in got) for w in want),
              'the dependencies are not exactly the operands')
    # nothing else of the graph changes: the operands are inputs without dependencies
    ctx.check('deps', all(not list(x.dependencies) for x in want) and not any(
        list(x.dependents) or x.times_visited for x in want + [out]),
              'an operand has dependencies now')


NAMED = 'nameOfAnOperand'


def made(ys, xs):
    """the expressions below ys that an operation has made"""
    out, todo = [], list(ys)
    while todo:
        n = todo.pop()
        if any(n is q for q in out) or any(n is q for q in xs):
            continue
        out.append(n)
        todo.extend(n.dependencies)
    return out


def same_name(xs, replay):
    """all operands get one name, also another than their automatic one; the
    replay writes the program twice over inputs declared twice"""
    for x in xs:
        x.name = NAMED

    def twice(env):
        r = replay(env)
        if r is None or r.get('kind') != 'prog':
            return None
        n = copy.deepcopy(r)
        p = n['prog']
        k, m = len(p['inputs']), len(p['nodes'])
        at = lambda i: i if i < k else i + k
        for d in p['nodes']:
            d['args'] = [at(a) for a in d['args']]
        again = copy.deepcopy(p['nodes'])
        for d in again:
            d['args'] = [a + k if a < k else a + m for a in d['args']]
        p['outs'] = [[o, at(i)] for o, i in p['outs']] + [[o + '_again', at(i) + m] for o, i in p['outs']]
        p['inputs'], p['nodes'], p['via'] = p['inputs'] * 2, p['nodes'] + again, 'input'
        n.update(single=True, noderiv=True)
        return n
    return twice if replay else None


def name_check(ctx, ys, xs):
    """the names of what an operation makes come from identifiers, one each,
    not from the names of the operands"""
    new = made(ys, xs)
    ok = ctx.check('names', all(type(n.name) is str and NAMED not in n.name for n in new),
                   'a name is made of the name of an operand')
    rest = set()
    for n in new:
        own = [q for q in [n] + list(xs) if q._id in n.name]
        ok = ok and ctx.check('names', len(own) == 1 and n.name.count(own[0]._id) == 1,
                              'the name %r is not made of one identifier' % n.name)
        if ok:
            pre, post = n.name.split(own[0]._id)
            ctx.check('names', own[0] is n or pre != '' or post != '', 'the name of an operand')
            ctx.check('names', (own[0]._id, pre, post) not in rest, 'one name for two expressions')
            rest.add((own[0]._id, pre, post))
            ctx.check('names', re.fullmatch('([a-zA-Z_][_a-zA-Z0-9]*)?', pre) is not None
                      and re.fullmatch('[_a-zA-Z0-9]*', post) is not None, 'no valid name: %r' % n.name)


def op_case(ctx, mk, call, spec, raises=None, err=None, pre=None, late=None, jac=True, hints=None, dom=None, replay=None, twice=True, limit=None):
    """contract of a constructor function.
    mk() -> list of Opd;  call(ot module, xs, opds) -> expression;
    spec(opds) -> (dims, blk, fn)."""
    ctx.dom = dom or {}

    def run():
        DIMS[:] = []
        terms.POSITIVE.clear()
        ops = mk()
        if isinstance(ops, tuple):
            ops, extra = ops
        ctx.replay = (lambda env: replay(ops, env)) if replay else None
        if pre:
            path.assume(pre(ops))
        M = ot().load('omtools.api')
        xs = [o.make() for o in ops]
        for x, o in zip(xs, ops):
            ctx.check('operand', shape_is(x.shape, o.dims, o.blk), 'declared operand has shape %r' % (x.shape, ))
        if ctx.mode == 'names':
            ctx.replay = same_name(xs, ctx.replay)
        try:
            y = call(M, xs)
        except (Unsupported, path.Infeasible):
            raise
        except Exception as e:
            if err and error_check(ctx, err(ops), e):
                pass
            elif raises and isinstance(e, raises):
                ctx.ok('raises')
            else:
                ctx.exc('accepts', e)
            return
        if raises:
            ctx.fail('raises', 'no error is raised')
            return
        ctx.ok('accepts')
        if err:
            error_check(ctx, err(ops), None)
        if ctx.mode == 'names':
            return name_check(ctx, [y, call(M, xs)], xs)
        dims, blk, fn = spec(ops)
        blk = blk or (False, ) * len(dims)
        if not ctx.check('shape', shape_is(y.shape, dims, blk), 'shape %r' % (y.shape, )):
            return
        new = made([y], xs)
        if len(new) > 1 and all(type(n).__module__ == 'omtools.core.variable' for n in new):
            # written with other operations: each of them has a contract of its own, but their composition is not computed here
            ctx.check('deps', all(any(d is x for n in new for d in n.dependencies) for x in xs), 'an operand is not among the dependencies')
            ctx.open('composition', 'the expression is made of %d others' % (len(new) - 1))
            return
        dep_check(ctx, y, xs)
        if not ctx.check('builds', y.build is not None, 'the expression has no component'):
            return
        try:
            c = y.build()
        except (Unsupported, path.Infeasible):
            raise
        except Exception as e:
            ctx.exc('builds', e)
            return
        run_component(c, ctx, {o.name: o for o in ops}, {y.name: (dims, blk, fn)}, jac=jac,
                      hints=[h for h in (hints(ops) if hints else [])], twice=twice,
                      err=late(ops) if late else None, shapes={y.name: y.shape})
    explore_case(ctx, run, limit)


def explore_case(ctx, run, limit=None):
    try:
        path.explore(run, limit)
    except path.Infeasible:
        pass
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = [f for f in tb if '/omtools/' in f.filename]
        ctx.open('execution', 'outside the verifier: %s%s' % (
            e, ' at %s:%d' % (where[-1].filename, where[-1].lineno) if where else ''))
    except RecursionError:
        ctx.open('execution', 'recursion limit of the verifier')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        ctx.open('execution', 'verifier error %s: %s at %s' % (type(e).__name__, e, [(f.name, f.lineno) for f in tb[-3:]]))
    if not ctx.obls and not ctx.hidden:
        ctx.obl('execution').add('other', 'no feasible path: vacuous contract')
