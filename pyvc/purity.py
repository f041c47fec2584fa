"""History contracts of components (C21).

A component evaluated at x from its state after setup (S0), and from its state
after evaluations at other points, gives the same outputs and partials and is
left in the same state.  As the other point is symbolic, induction over the
history extends this to every sequence of evaluations: the states reached are
S0 and the states 'after x', and from each of them an evaluation at x gives the
outputs O(x), the partials J(x) and the state 'after x'."""
import types

from . import arr, ints, path, symom, terms, vc
from .ints import Unsupported, const, fresh_idx, norm, ravel
from .terms import rel

SKIP = {'_inp', '_out', '_raw', '_jac', '_events', 'options', 'name', 'pathname'}


def idx_of(dims):
    return tuple(fresh_idx(d) if norm(d) != const(1) else const(0) for d in dims)


def content(v, seen=(), depth=0):
    """a comparable picture of a value: nested tuples; arrays as ('arr',
    dims, element function)"""
    if id(v) in seen or depth > 6:
        return ('again', )
    seen = seen + (id(v), )
    if isinstance(v, arr.Arr):
        return ('arr', tuple(norm(d) for d in v.dims), v.snap(), v.kind)
    if isinstance(v, arr.SymShape):
        return ('shape', repr(v.parts()))
    if isinstance(v, arr.SymReal):
        return ('real', v.r)
    if isinstance(v, arr.SymInt):
        return ('int', norm(arr.to_I(v)))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, ) + tuple(content(x, seen, depth + 1) for x in v)
    if isinstance(v, dict):
        return ('dict', ) + tuple((k if isinstance(k, (str, int, tuple)) else id(k), content(x, seen, depth + 1))
                                  for k, x in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set', frozenset(x if isinstance(x, (str, int, tuple)) else id(x) for x in v))
    if v is None or isinstance(v, (str, bytes, bool, int, float)):
        return ('const', type(v), v)
    return ('object', id(v))


def state(c):
    return {k: content(v) for k, v in c.__dict__.items() if k not in SKIP}


def same(ctx, what, a, b, detail):
    """True: proved equal; None/False: reported"""
    if a is b:
        ctx.ok(what)
        return
    if a[0] != b[0] or len(a) != len(b):
        ctx.fail(what, detail)
        return
    k = a[0]
    if k == 'arr':
        if a[2] is b[2]:
            ctx.ok(what)
            return
        if len(a[1]) != len(b[1]) or any(norm(x - y) != const(0) and not ints.prove_eq(x, y) for x, y in zip(a[1], b[1])):
            ctx.fail(what, detail + ': another shape')
            return
        i = idx_of(a[1])
        x, y = a[2](i), b[2](i)
        if isinstance(x, tuple) and not isinstance(x, terms.R):
            (ctx.ok if repr(x) == repr(y) else lambda w: ctx.open(w, detail))(what)
            return
        ctx.equal(what, arr.conv(a[2], a[3], 'f')(i), arr.conv(b[2], b[3], 'f')(i), i, detail)
    elif k == 'real':
        ctx.equal(what, a[1], b[1], (), detail)
    elif k in ('list', 'tuple', 'dict'):
        for x, y in zip(a[1:], b[1:]):
            if k == 'dict':
                if x[0] != y[0]:
                    ctx.fail(what, detail)
                    return
                x, y = x[1], y[1]
            same(ctx, what, x, y, detail)
    elif k == 'int':
        if norm(a[1] - b[1]) == const(0) or ints.prove_eq(a[1], b[1]):
            ctx.ok(what)
        else:
            ctx.open(what, detail)
    elif k == 'object':
        # another object of unknown content
        if a == b:
            ctx.ok(what)
        else:
            ctx.open(what, detail + ': another object')
    else:
        (ctx.ok(what) if a == b else ctx.fail(what, detail))


def saver(c):
    """a function that puts the component back into its present state"""
    acts, seen = [], set()

    def save(v, depth=0):
        if id(v) in seen or depth > 6:
            return
        seen.add(id(v))
        if isinstance(v, arr.Arr):
            st, fn = v.store, v.store.fn
            acts.append(lambda: setattr(st, 'fn', fn))
        elif isinstance(v, list):
            old = list(v)
            acts.append(lambda: v.__setitem__(slice(None), old))
            for x in old:
                save(x, depth + 1)
        elif isinstance(v, dict):
            old = dict(v)
            acts.append(lambda: (v.clear(), v.update(old)))
            for x in old.values():
                save(x, depth + 1)
        elif isinstance(v, set):
            old = set(v)
            acts.append(lambda: (v.clear(), v.update(old)))
        elif isinstance(v, tuple) and not isinstance(v, arr.SymShape):
            for x in v:
                save(x, depth + 1)
        elif isinstance(v, symom.OptionsDictionary):
            save(v.__dict__, depth)
    d = dict(c.__dict__)
    for k, v in d.items():
        if k not in ('_inp', '_out', '_raw', '_jac', '_events'):
            save(v)

    def restore():
        c.__dict__.clear()
        c.__dict__.update(d)
        for a in acts:
            a()
    return restore


def same_state(ctx, a, b, when):
    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            ctx.fail('state', 'attribute %s exists only %s' % (k, when))
        else:
            same(ctx, 'state', a[k], b[k], 'attribute %s differs %s' % (k, when))


def shared(loader):
    """data of modules, classes and default arguments: nothing of it may be
    changed by a model"""
    r = {}
    for mn, m in list(loader.mods.items()):
        for k, v in list(vars(m).items()):
            if k.startswith('__') or isinstance(v, types.ModuleType):
                continue
            owner = getattr(v, '__module__', None)
            if isinstance(v, type) and owner == mn:
                for a, w in list(vars(v).items()):
                    if a.startswith('__') and a != '__defaults__' or (v.__name__, a) == ('Variable', '_count'):
                        continue
                    f = getattr(w, '__func__', w)
                    if isinstance(f, types.FunctionType):
                        r[mn, v.__name__, a] = content((f.__defaults__, f.__kwdefaults__))
                    elif not isinstance(w, property):
                        r[mn, v.__name__, a] = content(w)
            elif isinstance(v, types.FunctionType):
                if owner == mn:
                    r[mn, k] = content((v.__defaults__, v.__kwdefaults__))
            elif not isinstance(v, (types.ModuleType, type)):
                r[mn, k] = content(v)
    return r


def check_shared(ctx, a, b):
    for k in a:
        if k not in b:
            ctx.fail('shared', 'module data %s removed' % '.'.join(k))
        elif a[k] is not b[k]:
            same(ctx, 'shared', a[k], b[k], '%s is changed by building or evaluating a model' % '.'.join(k))
    for k in b:
        if k not in a and k[0] in {x[0] for x in a}:
            ctx.fail('shared', 'module data %s appears' % '.'.join(k))
    ctx.ok('shared')


def component(c, ctx, hints):
    n = [0]

    def vec(pre):
        return symom.Vec(c._inp, lambda nm, dims: (lambda i: rel(pre + nm, ravel(i, dims))), 'input')

    def fresh():
        # the output vector at the start; it then persists, so elements a
        # component never writes keep their value
        return symom.Vec(c._out, lambda nm, dims: (lambda i: rel('old:' + nm, ravel(i, dims))))
    vecs = []

    def compute(pre):
        c.compute(vec(pre), vecs[-1])
        return vecs[-1]

    def partials(pre):
        P = symom.Partials(c, False)
        for k, j in P._j.items():
            if not j['const']:
                d = j['dims']
                n[0] += 1
                g = 'stale%d:%s:%s' % ((n[0], ) + k)
                j['store'] = arr.Store(d, lambda i, g=g, d=d: rel(g, ravel(i, d)), 'f')
            else:
                j['store'] = arr.Store(j['dims'], j['fn'], 'f')
        c.compute_partials(vec(pre), P)
        return {k: (j['dims'], j['store'].fn) for k, j in P._j.items()}

    def attempt(f, *a):
        try:
            f(*a)
        except (Unsupported, path.Infeasible, symom.FrameError):
            raise
        except Exception:
            pass
    s0 = state(c)
    err = [None, None]
    res = []
    states = []
    try:
        back = saver(c)
        for hist in ((), ('c', ), ('c', 'p'), ('p', )):
            back()
            vecs.append(fresh())
            for h in hist:
                attempt(compute if h == 'c' else partials, 'pre:')
            try:
                o = compute('')
                st1 = state(c)
                p1 = partials('')
                st2 = state(c)
                p2 = partials('')
                st3 = state(c)
            except (Unsupported, path.Infeasible, symom.FrameError):
                raise
            except Exception as e:
                res.append((hist, type(e)))
                continue
            res.append((hist, {k: (c._out[k]['dims'], o._s[k].fn) for k in o._s}, p1, p2, st1, st2, st3))
    except symom.FrameError as e:
        ctx.fail('frame', 'writes to %s' % e)
        return
    ctx.ok('frame')
    first = res[0]
    if isinstance(first[1], type):
        # the point is rejected: after every history
        ctx.check('value', all(r[1] == first[1] for r in res), 'an error is raised or not depending on the history')
        return
    for r in res:
        if isinstance(r[1], type):
            ctx.fail('value', 'an error (%s) is raised only after evaluations at other points' % r[1].__name__)
            continue
        for k, (dims, fn) in r[1].items():
            if r is first:
                # independent of the old output: compared with the others
                continue
            i = idx_of(dims)
            ctx.equal('value', fn(i), first[1][k][1](i), i, 'output %s after other evaluations %s' % (k, r[0]))
        for p in r[2:4]:
            if p is first[2]:
                continue
            for k, (dims, fn) in p.items():
                i = idx_of(dims)
                ctx.equal('partial', fn(i), first[2][k][1](i), i, 'partial %s after other evaluations %s' % (k, r[0]))
        if not r[4] == s0:
            same_state(ctx, first[4], r[4], 'after other evaluations')
            same_state(ctx, first[5], r[5], 'after other evaluations')
            same_state(ctx, r[5], r[6], 'after computing the derivatives again')
        else:
            ctx.ok('state')
    # a difference in the state alone is not a violation
    o = ctx.obl('state')
    if o.status == 'refuted':
        o.status = 'other'
