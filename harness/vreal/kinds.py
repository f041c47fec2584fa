"""Kinds of cases that need more than one model evaluation: execution order,
graph, names, implicit and cyclic outputs, options dictionaries, declarations,
purity, misuse, placement of subsystems, combination components."""
import re

import numpy as np

from . import prog as P
from .runner import (Bad, build_model, check, close, kind, new_problem, ot,
                     points, quiet, run_prog, short, used)


# --- structure of a built model ---------------------------------------------
def leaf_systems(group, out=None, path=()):
    """components in execution order"""
    from openmdao.core.group import Group as G
    out = [] if out is None else out
    for s in group.system_iter(recurse=False):
        if isinstance(s, G):
            leaf_systems(s, out, path + (s.name, ))
        else:
            out.append(s)
    return out


def prom(sys_, io):
    """promoted names (at the model level) of a system's variables"""
    m = sys_._var_allprocs_prom2abs_list[io]
    res = set()
    for absn in [a for l in m.values() for a in l]:
        res.add(absn)
    return res


def abs2prom(model, io, absn):
    try:
        return model._resolver.abs2prom(absn, io)
    except AttributeError:
        return model._var_allprocs_abs2prom[io][absn]


def io_names(model, s, io):
    """model-level promoted names of the inputs/outputs of s"""
    pre = s.pathname + '.'
    names = model._var_allprocs_abs2meta[io]
    return [abs2prom(model, io, a) for a in names if a.startswith(pre)]


def check_order(model, skip_auto=True):
    """every component follows all components computing its inputs, and every
    promoted output is computed exactly once"""
    comps = [s for s in leaf_systems(model) if s.name != '_auto_ivc']
    made = {}
    for k, s in enumerate(comps):
        for o in io_names(model, s, 'output'):
            check(o not in made, 'output %s is computed twice' % o)
            made[o] = k
    for k, s in enumerate(comps):
        for i in io_names(model, s, 'input'):
            if i in made:
                check(made[i] < k,
                      'component %s runs before %s, which computes its input '
                      '%s' % (s.pathname, comps[made[i]].pathname, i))
    return comps, made


def setups(api, setup, case):
    """the problem, each time it has been set up: by default once; with
    'again', more often; with 'outside', the expressions are made on the group
    object before the problem is there, instead of in its setup method"""
    from openmdao.api import Problem
    with quiet():
        if case.get('outside'):
            g = api.Group()
            setup(g)
            prob = Problem()
            prob.model = g
            prob.setup(force_alloc_complex=False)
        else:
            prob = new_problem(type('M', (api.Group, ), {'setup': setup}))
    yield prob
    for _ in range(case.get('again', 0)):
        with quiet():
            prob.setup(force_alloc_complex=False)
        yield prob


@kind('dag')
def run_dag(case):
    prog = case['prog']
    pts = points(prog, case['seed'], 2)
    cap = {}
    order = case.get('order')
    api = ot()

    def setup(self):
        vals = []
        for inp in prog['inputs']:
            v = np.array(pts[0][inp['name']], dtype=float)
            f = (self.create_indep_var
                 if inp.get('indep') else self.declare_input)
            vals.append(f(inp['name'], shape=tuple(inp['shape']), val=v))
        pend = {}
        # explicit outputs may be created before anything else and defined
        # by indexed assignment when their operands exist
        for o, i in prog['outs']:
            pend.setdefault(i, []).append(o)
        n = len(prog['inputs'])
        pre = {}
        for k in case.get('early', []):
            nd = prog['nodes'][k]
            pre[k] = self.create_output(nd['kw']['name'],
                                        shape=tuple(nd['kw']['shape']))
        for j, nd in enumerate(prog['nodes']):
            if nd['op'] == 'assign':
                o = pre.get(j)
                if o is None:
                    o = self.create_output(nd['kw']['name'],
                                           shape=tuple(nd['kw']['shape']))
                for k, a in nd['kw']['keys']:
                    o[P.dekey(k)] = vals[a]
                vals.append(o)
            else:
                vals.append(P.SPEC[nd['op']][0](
                    api, [vals[a] for a in nd['args']], nd.get('kw', {})))
            if order is None:
                for o in pend.get(n + j, []):
                    if nd['op'] != 'assign':
                        self.register_output(o, vals[-1])
        if order is not None:
            for q in order:
                o, i = prog['outs'][q]
                if i < n or prog['nodes'][i - n]['op'] != 'assign':
                    self.register_output(o, vals[i])
        self.reverse_branch_sorting = bool(prog.get('reverse'))
        cap['vals'] = vals

    for prob in setups(api, setup, case):
        check_dag(prog, pts, prob, cap)


def check_dag(prog, pts, prob, cap):
    with quiet():
        prob.final_setup()
    model = prob.model
    comps, made = check_order(model)
    use = used(prog)
    n = len(prog['inputs'])
    want = set()
    for i, v in enumerate(cap['vals']):
        if i < n:
            if prog['inputs'][i].get('indep'):
                want.add(v.name)
        elif i in use:
            want.add(v.name)
    check(set(made) == want,
          'components compute %s, needed expressions are %s' %
          (sorted(made), sorted(want)))
    check(len(comps) == len(want), '%d components for %d expressions' %
          (len(comps), len(want)))
    inps = [
        p['name'] for k, p in enumerate(prog['inputs'])
        if p.get('indep') or k in use
    ]
    for pt in pts:
        with quiet():
            for m in inps:
                prob[m] = pt[m]
            prob.run_model()
        val = P.oracle(prog, pt)
        for o, i in prog['outs']:
            check(
                close(np.array(prob[o]), val[i]),
                'after one pass %s is %s, expected %s' %
                (o, short(prob[o]), short(val[i])))


# --- graph simplification ----------------------------------------------------
def reach(nodes, deps):
    r = {}

    def go(n):
        if n not in r:
            s = set()
            for d in deps[n]:
                s.add(d)
                s |= go(d)
            r[n] = s
        return r[n]

    for n in nodes:
        go(n)
    return r


@kind('graph')
def run_graph(case):
    """the simplification pass on an arbitrary acyclic graph"""
    try:
        from omtools.core.graph import remove_indirect_dependencies as f
        from omtools.core.variable import Variable
        Variable().dependencies
    except (ImportError, AttributeError):
        return
    deps = case['deps']  # deps[i] : list of nodes < i, in list order
    V = [Variable() for _ in deps]
    for v, k in zip(V, case.get('names', [])):
        v.name = 'x%d' % k
    for i, d in enumerate(deps):
        V[i].dependencies = [V[j] for j in d]
    idx = {id(v): i for i, v in enumerate(V)}
    before = reach(range(len(deps)), deps)
    for i in case['order']:
        f(V[i])
        now = [[idx[id(w)] for w in v.dependencies] for v in V]
        for k in range(len(V)):
            check(
                set(now[k]) <= set(deps[k]),
                'new dependency %s of node %d' %
                (sorted(set(now[k]) - set(deps[k])), k))
        after = reach(range(len(deps)), now)
        check(after == before,
              'after simplifying node %d: node reaches %s instead of %s' %
              (i, [sorted(after[k]) for k in range(len(V))
                   if after[k] != before[k]][:1],
               [sorted(before[k]) for k in range(len(V))
                if after[k] != before[k]][:1]))


# --- names -------------------------------------------------------------------
NAME_OK = re.compile(r'^[a-zA-Z_][a-zA-Z0-9_]*$')


@kind('hexnames')
def run_hexnames(case):
    try:
        from omtools.utils.gen_hex_name import gen_hex_name as f
    except ImportError:
        return
    seen = {}
    for a, b in case['ranges']:
        for k in range(a, b):
            s = f(k)
            check(isinstance(s, str) and NAME_OK.match(s),
                  'automatic name %r of number %d is not valid' % (s, k))
            check(seen.setdefault(s, k) == k,
                  'numbers %d and %d have the same name %r' % (seen[s], k, s))


@kind('autonames')
def run_autonames(case):
    from omtools.core.variable import Variable
    api = ot()
    try:
        Variable._count
    except AttributeError:
        return
    old = Variable._count
    try:
        Variable._count = max(old, case['start'])
        vs = [Variable() for _ in range(case['n'])]
        # other ways to make nodes
        x = api.Group().declare_input('x', shape=(2, ))
        y = (x + 1) * x
        vs += [y, api.sin(y), y[0:1], api.expand(y, (2, 2), 'i->ij')]
    finally:
        Variable._count = max(old, Variable._count)
    names = [v.name for v in vs]
    check(len(set(names)) == len(names), 'automatic names collide')
    for s in names:
        check(bool(NAME_OK.match(s)), 'automatic name %r is not valid' % s)
    ids = [id(v) for v in vs]
    check(len(set(ids)) == len(ids), 'nodes are shared')


@kind('manymodels')
def run_manymodels(case):
    """many models, written in different ways, made in one process: every
    expression has a name and an identity of its own"""
    import random
    from openmdao.api import Problem
    from omtools.core.variable import Variable
    api = ot()
    made, seen = [], set()
    orig = Variable.__init__

    def init(self, *a, **k):
        if id(self) not in seen:
            seen.add(id(self))
            made.append(self)
        orig(self, *a, **k)

    r = random.Random(case['seed'])

    def write(g, pre):
        x = g.declare_input(pre + 'x', shape=(2, ), val=np.array([.3, .4]))
        y = g.create_indep_var(pre + 'y', shape=(2, ), val=2.)
        z = api.sin(x) * y + x[0:2] - y**2
        w = g.create_output(pre + 'w', shape=(4, ))
        w[0:2] = z
        w[2:4] = -z
        g.register_output(pre + 'z2', z + 1)
        return z

    class Opt(api.Group):
        def initialize(self):
            self.options.declare('n', default=1)

        def setup(self):
            for k in range(self.options['n']):
                write(self, 'o%d_' % k)

    class Plain(api.Group):
        def setup(self):
            write(self, 'p_')
            with self.create_group('inner') as g:
                write(g, 'q_')
            self.add_subsystem('sub', Opt(n=2), promotes=['*'])
            write(self, 'r_')

    class Impl(api.ImplicitComponent):
        def setup(self):
            g = self.group
            a = g.declare_input('a', val=2.)
            s = g.create_implicit_output('s', val=.5)
            s.define_residual_bracketed(s**2 - a, x1=0., x2=2.)

    class Fails(api.Group):
        def setup(self):
            write(self, 'f_')
            raise RuntimeError('on purpose')

    def by_hand():
        g = api.Group()
        write(g, 'h_')
        return g

    hold = []

    def build(m, again=True):
        p = Problem()
        p.model = m
        hold.append(p)
        with quiet():
            p.setup()
            if again and r.random() < .5:
                p.setup()

    ways = [lambda: build(Opt()), lambda: build(Opt(n=r.randint(1, 2))),
            lambda: build(Plain()), lambda: hold.append(Opt(n=1)),
            lambda: hold.append(Plain()),
            lambda: build(by_hand()), lambda: hold.append(by_hand()),
            lambda: hold.append(Impl(maxiter=3)),
            lambda: hold.append(Impl(maxiter=3, n2=False)),
            lambda: hold.append(Variable() + 1), 'implicit', 'fails']
    Variable.__init__ = init
    try:
        for q, w in enumerate(case['ways']):
            for _ in range(case.get('fill', 0) if q == 0 else 20):
                Variable()
            w = ways[w % len(ways)]
            if w == 'implicit':
                g = api.Group()
                g.add_subsystem('c', Impl(maxiter=3), promotes=['*'])
                build(g, again=False)
            elif w == 'fails':
                try:
                    build(Fails())
                    raise Bad('an exception in setup disappeared')
                except RuntimeError:
                    pass
            else:
                w()
    finally:
        Variable.__init__ = orig
    keys = {}
    for v in made:
        i = getattr(v, '_id', None)
        if i is None:
            continue
        check(keys.setdefault(i, v) is v,
              'two expressions made in one process have the same automatic '
              'name %r' % i)
        check(bool(NAME_OK.match(str(i))), 'automatic name %r is not valid' % i)
    check(len(made) > 0, 'nothing was made')


@kind('rename')
def run_rename(case):
    """registering (renaming) expressions changes no other expression"""
    api = ot()
    got = {}

    def setup(self):
        x = self.declare_input('x', shape=(2, ), val=np.array([.3, -.8]))
        es = [api.sin(x) * float(k + 1) for k in range(case['n'])]
        fs = [e + x for e in es]
        before = [(e, e.name) for e in es + fs]
        for k in case['reg']:
            # names that other expressions have, or had, included
            self.register_output('n%d' % k, (es + fs)[k])
            for j, (e, nm) in enumerate(before):
                want = 'n%d' % j if j in case['reg'][:case['reg'].index(k) +
                                                    1] else nm
                check(e.name == want, 'registering renamed another expression')
        got['e'] = es + fs

    with quiet():
        prob = new_problem(type('M', (api.Group, ), {'setup': setup}))
        prob.run_model()
    x = np.array([.3, -.8])
    n = case['n']
    for k in case['reg']:
        w = np.sin(x) * (k % n + 1)
        if k >= n:
            w = w + x
        check(close(np.array(prob['n%d' % k]), w),
              'output n%d: got %s expected %s' % (k, short(prob['n%d' % k]),
                                                  short(w)))


@kind('samename')
def run_samename(case):
    """different nodes of one name are not merged: either every one of them
    counts, or the clash is an error"""
    api = ot()
    how, n = case['how'], case['n']
    rng = np.random.RandomState(case['seed'] % 2**31)
    a, b = rng.uniform(.5, 1.5, 2)

    class Sub(api.Group):
        def setup(self):
            t = self.declare_input('t')
            self.register_output('x', t * 3.)

    def setup(self):
        u = self.declare_input('u', val=.7)
        for k in range(n):
            self.register_output('p%d' % k, api.sin(u) * (k + 1.))
        if how in ('two outputs', 'two outputs used'):
            e = self.register_output('f', u * a)
            g = self.register_output('f', u * b)
            if how == 'two outputs used':
                self.register_output('h', e + g)
        elif how == 'created twice':
            e = self.create_output('f')
            e[0] = u * a
            g = self.create_output('f')
            g[0] = u * b
        elif how == 'declared twice':
            x, y = self.declare_input('x'), self.declare_input('x')
            self.register_output('f', x * a + y * b)
        else:
            t = self.create_indep_var('t', val=2.)
            x = self.declare_input('x')
            self.add_subsystem('sub', Sub(), promotes=['*'])
            y = self.declare_input('x')
            z = (x + y) if n % 2 else (y + x)
            self.register_output('f', z * a)
            self.register_output('k', y * b)

    cls = type('M', (api.Group, ), {'setup': setup})
    clash = how in ('two outputs', 'two outputs used', 'created twice')
    try:
        with quiet():
            prob = new_problem(cls)
            prob.run_model()
    except Exception as e:
        check(clash, '%s: rejected (%s)' % (how, short(e)))
        return
    check(not clash, '%s: two outputs of one name are accepted' % how)
    if how == 'declared twice':
        with quiet():
            prob['x'] = 4.
            prob.run_model()
        check(close(prob['f'], [4 * (a + b)]), '%s: f is %s, expected %s' %
              (how, short(prob['f']), 4 * (a + b)))
    else:
        check_order(prob.model)
        check(close(prob['f'], [12 * a]) and close(prob['k'], [6 * b]),
              '%s: f, k are %s, %s; expected %s, %s' %
              (how, short(prob['f']), short(prob['k']), 12 * a, 6 * b))


# --- implicit outputs --------------------------------------------------------
MONO = {
    'lin': (lambda ot, x, c: x - c, lambda x, c: x - c),
    'cub': (lambda ot, x, c: (x - c)**3, lambda x, c: (x - c)**3),
    'exp': (lambda ot, x, c: ot.exp(x) - ot.exp(c),
            lambda x, c: np.exp(x) - np.exp(c)),
    'tanh': (lambda ot, x, c: ot.tanh(x - c), lambda x, c: np.tanh(x - c)),
    'mul': (lambda ot, x, c: (x - c) * (x * x + 1.),
            lambda x, c: (x - c) * (x * x + 1.)),
    # several roots
    'sin': (lambda ot, x, c: ot.sin((x - c) * 4.),
            lambda x, c: np.sin((x - c) * 4.)),
    'quad': (lambda ot, x, c: (x - c) * (x - c - 1.),
             lambda x, c: (x - c) * (x - c - 1.)),
}


@kind('bracket')
def run_bracket(case):
    from openmdao.api import IndepVarComp, Problem
    from openmdao.api import Group as OMG
    api = ot()
    outs = case['outs']
    arr = [{
        k: (np.array(v, dtype=float) if isinstance(v, list) else v)
        for k, v in o.items()
    } for o in outs]

    def setup(self):
        g = self.group
        for o, q in zip(arr, outs):
            sh = tuple(q['shape'])
            c = g.declare_input('c_' + q['name'], shape=sh)
            s = g.declare_input('s_' + q['name'], shape=sh)
            x = g.create_implicit_output(q['name'], shape=sh)
            r = s * MONO[q['fam']][0](api, x, c)
            x.define_residual_bracketed(r, x1=o['x1'], x2=o['x2'])

    kw = {}
    if case.get('maxiter') is not None:
        kw['maxiter'] = case['maxiter']
    with quiet():
        comp = type('I', (api.ImplicitComponent, ), {'setup': setup})(**kw)
        prob = Problem()
        prob.model = OMG()
        iv = IndepVarComp()
        for o, q in zip(arr, outs):
            iv.add_output('c_' + q['name'], val=o['c'])
            iv.add_output('s_' + q['name'], val=o['s'])
        prob.model.add_subsystem('iv', iv, promotes=['*'])
        prob.model.add_subsystem('I', comp, promotes=['*'])
        prob.setup()
        mi = case.get('maxiter') or 100
        for rep in range(2):
            for o, q in zip(arr, outs):
                if 'start' in q:
                    prob[q['name']] = o['start'] * (rep + 1)
            prob.run_model()
            for o, q in zip(arr, outs):
                sh = tuple(q['shape'])
                x = np.array(prob[q['name']])
                check(x.shape == sh, 'shape of %s' % q['name'])
                lo = np.minimum(o['x1'], o['x2']) * np.ones(sh)
                hi = np.maximum(o['x1'], o['x2']) * np.ones(sh)
                eps = 1e-12 * (1 + np.maximum(abs(lo), abs(hi)))
                check(np.all((x >= lo - eps) & (x <= hi + eps)),
                      '%s = %s is not inside the bracket [%s, %s]' %
                      (q['name'], short(x), short(lo), short(hi)))
                d = (hi - lo) / 2.**mi
                f = MONO[q['fam']][1]
                # rounding near the value
                e2 = np.minimum(eps, 1e-12 * (1 + abs(x) + abs(o['c'])))
                a = np.maximum(x - d - e2, lo - e2)
                b = np.minimum(x + d + e2, hi + e2)
                # a sign change within [a, b]
                t = np.linspace(0, 1, 33).reshape((-1, ) + (1, ) * len(sh))
                v = o['s'] * f(a + (b - a) * t, o['c'])
                ok = (np.min(v, axis=0) <= 0) & (np.max(v, axis=0) >= 0)
                check(np.all(ok),
                      'maxiter %d: no sign change of the residual of %s within '
                      'width/2^maxiter of %s (elements %s)' %
                      (mi, q['name'], short(x), np.argwhere(~ok).tolist()))


RES = {
    # residual families: (build(ot, x, a, b), value)
    'quad': (lambda ot, x, a, b: x**2 * 1. + a * x - b * b - 1.,
             lambda x, a, b: x**2 + a * x - b * b - 1.),
    'sin': (lambda ot, x, a, b: x * 3. + ot.sin(x * a) - b,
            lambda x, a, b: 3. * x + np.sin(x * a) - b),
    'exp': (lambda ot, x, a, b: ot.exp(x) + x * a * a - b * b - 2.,
            lambda x, a, b: np.exp(x) + x * a * a - b * b - 2.),
    'cub': (lambda ot, x, a, b: x**3 + (a * a + 1.) * x - b,
            lambda x, a, b: x**3 + (a * a + 1.) * x - b),
    'noa': (lambda ot, x, a, b: x * 2. + ot.tanh(x) - b,
            lambda x, a, b: 2. * x + np.tanh(x) - b),
    'inter': (lambda ot, x, a, b: ot.sin(x) * .3 + x - ot.cos(a * b),
              lambda x, a, b: np.sin(x) * .3 + x - np.cos(a * b)),
    # couples the elements of x
    'mat': (lambda ot, x, a, b: x * 4. + ot.expand(ot.sum(x), x.shape) * a - b,
            lambda x, a, b: 4. * x + np.sum(x) * a - b),
    'matsin': (lambda ot, x, a, b: x * 5. + ot.expand(ot.sum(ot.sin(x)),
                                                     x.shape) * a - b * b,
               lambda x, a, b: 5. * x + np.sum(np.sin(x)) * a - b * b),
}


def cjac(f, args, k):
    h = 1e-40
    x = np.array(args[k], dtype=complex)
    cols = []
    for j in range(x.size):
        y = x.copy()
        y.reshape(-1)[j] += 1j * h
        q = [np.array(v, dtype=complex) for v in args]
        q[k] = y
        cols.append(np.imag(f(*q)).reshape(-1) / h)
    return np.array(cols).T


@kind('implicit')
def run_implicit(case):
    from openmdao.api import (DirectSolver, IndepVarComp, NewtonSolver,
                              Problem)
    from openmdao.api import Group as OMG
    api = ot()
    outs = case['outs']
    rng = np.random.default_rng(case['seed'])

    def newton():
        return NewtonSolver(solve_subsystems=False, maxiter=60, iprint=0,
                            atol=1e-12, rtol=1e-12)

    def setup(self):
        g = self.group
        xs = []
        for q in outs:
            sh = tuple(q['shape'])
            n = q['name']
            ins = []
            for l in ('a', 'b'):
                ins.append(g.declare_input(l + '_' + n, shape=sh))
            x = g.create_implicit_output(n, shape=sh, val=q.get('val', 1.))
            xs.append((x, RES[q['fam']][0](api, x, *ins)))
        for k in case.get('deforder', range(len(xs))):
            xs[k][0].define_residual(xs[k][1])
        if case.get('newton') and case.get('direct'):
            self.nonlinear_solver = newton()
            self.linear_solver = DirectSolver()

    with quiet():
        comp = type('I', (api.ImplicitComponent, ), {'setup': setup})()
        prob = Problem()
        prob.model = OMG()
        if case.get('newton') and not case.get('direct'):
            # uses the component's own linear solve
            prob.model.nonlinear_solver = newton()
        iv = IndepVarComp()
        for q in outs:
            for l in ('a', 'b'):
                iv.add_output(l + '_' + q['name'], shape=tuple(q['shape']))
        prob.model.add_subsystem('iv', iv, promotes=['*'])
        prob.model.add_subsystem('I', comp, promotes=['*'])
        prob.setup(mode=case.get('mode', 'auto'))
        prob.final_setup()
    for q in outs:
        check(close(prob[q['name']],
                    np.ones(tuple(q['shape'])) * q.get('val', 1.)),
              'initial value of %s' % q['name'])
    def partials(V, q):
        n = q['name']
        f = RES[q['fam']][1]
        J = [cjac(f, V[n], k) for k in range(3)]
        used_ = {'noa': (0, 2)}.get(q['fam'], (0, 1, 2))
        for k, m in enumerate((n, 'a_' + n, 'b_' + n)):
            if k not in used_:
                continue
            got = np.asarray(comp._jacobian[n, m])
            check(
                close(got, J[k]),
                'partial of the residual of %s with respect to %s: got %s '
                'expected %s' % (n, m, short(got), short(J[k])))

    for rep in range(2):
        V = {}
        for q in outs:
            sh = tuple(q['shape'])
            V[q['name']] = [
                rng.uniform(-1, 1, size=sh),
                rng.uniform(.2, .9, size=sh),
                rng.uniform(-1, 1, size=sh)
            ]
        with quiet():
            for q in outs:
                n = q['name']
                prob['a_' + n], prob['b_' + n] = V[n][1], V[n][2]
                prob[n] = V[n][0]
            if case.get('newton'):
                prob.run_model()
                for q in outs:
                    V[q['name']][0] = np.array(prob[q['name']])
            else:
                # feed the inputs of the component
                prob.model.iv.run_solve_nonlinear()
                prob.model._transfer('nonlinear', 'fwd')
            prob.model.run_apply_nonlinear()
            prob.model.run_linearize()
        for q in outs:
            n = q['name']
            f = RES[q['fam']][1]
            got = np.array(comp._residuals[n])
            want = f(*V[n])
            check(
                close(got, want),
                'residual of %s: got %s expected %s' %
                (n, short(got), short(want)))
            if case.get('newton'):
                check(np.max(abs(want)) < 1e-8, 'not converged')
            partials(V, q)
        if case.get('newton'):
            wrt = [l + '_' + q['name'] for q in outs for l in 'ab'
                   if not (l == 'a' and q['fam'] == 'noa')]
            with quiet():
                T = prob.compute_totals(of=[q['name'] for q in outs], wrt=wrt)
            for q in outs:
                n = q['name']
                f = RES[q['fam']][1]
                A = cjac(f, V[n], 0)
                for w in wrt:
                    o = w[2:]
                    if o == n:
                        want = -np.linalg.solve(
                            A, cjac(f, V[n], 1 if w[0] == 'a' else 2))
                    else:
                        want = np.zeros_like(T[n, w])
                    check(
                        close(T[n, w], want, 1e-6),
                        'total derivative d%s/d%s: got %s expected %s' %
                        (n, w, short(T[n, w]), short(want)))
        # the linear solves on their own
        for mode in ('fwd', 'rev'):
            do, dr, want = {}, {}, {}
            for q in outs:
                n = q['name']
                A = cjac(RES[q['fam']][1], V[n], 0)
                rhs = rng.normal(size=tuple(q['shape']))
                z = np.zeros(tuple(q['shape']))
                s = np.linalg.solve(A if mode == 'fwd' else A.T,
                                    rhs.reshape(-1)).reshape(z.shape)
                if mode == 'fwd':
                    dr[n], do[n] = rhs.copy(), z
                else:
                    do[n], dr[n] = rhs.copy(), z
                want[n] = (s, rhs)
            comp.solve_linear(do, dr, mode)
            for n, (s, rhs) in want.items():
                g, h = (do, dr) if mode == 'fwd' else (dr, do)
                check(
                    close(g[n], s, 1e-6),
                    '%s linear solve of %s: got %s expected %s' %
                    (mode, n, short(g[n]), short(s)))
                check(np.array_equal(h[n], rhs),
                      'linear solve modified its right-hand side')
        # the partials at a point at which nothing else has been evaluated
        with quiet():
            W = {}
            for q in outs:
                n = q['name']
                W[n] = [rng.uniform(.2, .9, size=tuple(q['shape']))
                        for _ in range(3)]
                prob['a_' + n], prob['b_' + n], prob[n] = W[n][1:] + W[n][:1]
            prob.model.iv.run_solve_nonlinear()
            prob.model._transfer('nonlinear', 'fwd')
            prob.model.run_linearize()
        for q in outs:
            partials(W, q)


def _cf(ot, case, x, y, a, b):
    """residuals of coupled outputs, written for omtools or for numpy"""
    sin = ot.sin if ot else np.sin
    tot = (lambda v: ot.expand(ot.sum(v), v.shape)) if ot else (
        lambda v: np.sum(v) * np.ones(np.shape(v)))
    f = case['fam']
    if f == 'both':
        return x * 3. + y * .5 - a, y * 2. + sin(x) * .2 - b
    if f == 'one':
        return x * 3. + y * .5 - a, y * 2. + b * .2 - b
    if f == 'shared':
        s = sin(x) * .3 + y * .2
        return x * 3. + s * a - b, y * 2. + s * s - b
    if f == 'mix':
        return x * 4. + tot(y) * .3 - a, y * 5. + tot(sin(x)) * a - b
    if f == 'input':
        return x * 3. + sin(a) - b, y * 2. + a * b - sin(y) * .1
    raise ValueError(f)


@kind('coupled')
def run_coupled(case):
    """residuals of two outputs of one component, depending on both, and with
    inputs in common"""
    from openmdao.api import DirectSolver, IndepVarComp, NewtonSolver, Problem
    from openmdao.api import Group as OMG
    api = ot()
    sh = tuple(case['shape'])
    n = int(np.prod(sh))
    rng = np.random.default_rng(case['seed'])

    def newton():
        return NewtonSolver(solve_subsystems=False, maxiter=100, iprint=0,
                            atol=1e-12, rtol=1e-12)

    def setup(self):
        g = self.group
        a = g.declare_input('a', shape=sh)
        b = g.declare_input('b', shape=sh)
        o = {}
        for q in case['create']:
            o[q] = g.create_implicit_output(q, shape=sh)
        r = dict(zip('xy', _cf(api, case, o['x'], o['y'], a, b)))
        for q in case['define']:
            o[q].define_residual(r[q])
        if case['direct']:
            self.nonlinear_solver = newton()
            self.linear_solver = DirectSolver()

    with quiet():
        prob = Problem()
        prob.model = OMG()
        if not case['direct']:
            prob.model.nonlinear_solver = newton()
        iv = IndepVarComp()
        iv.add_output('a', shape=sh)
        iv.add_output('b', shape=sh)
        prob.model.add_subsystem('iv', iv, promotes=['*'])
        prob.model.add_subsystem(
            'I', type('I', (api.ImplicitComponent, ), {'setup': setup})(),
            promotes=['*'])
        prob.setup(mode=case['mode'])

    def F(z):
        x, y, a, b = [z[k * n:(k + 1) * n].reshape(sh) for k in range(4)]
        return np.concatenate([q.reshape(-1)
                               for q in _cf(None, case, x, y, a, b)])

    for rep in range(2):
        with quiet():
            for q in 'ab':
                prob[q] = rng.uniform(-1, 1, size=sh)
            prob.run_model()
            T = prob.compute_totals(of=['x', 'y'], wrt=['a', 'b'])
        z = np.concatenate([np.array(prob[q]).reshape(-1) for q in 'xyab'])
        check(np.max(abs(F(z))) < 1e-8, 'not converged: residual %s' %
              short(F(z)))
        J = cjac(F, [z], 0)
        want = -np.linalg.solve(J[:, :2 * n], J[:, 2 * n:])
        got = np.block([[T[o, i] for i in 'ab'] for o in 'xy'])
        check(close(got, want, 1e-6),
              'total derivatives %s, implicit function theorem %s' %
              (short(got), short(want)))


# --- cyclic outputs ----------------------------------------------------------
CYC = {
    'plain': (lambda ot, y, a: ot.cos(y) * .5 + a,
              lambda y, a: np.cos(y) * .5 + a),
    'twice': (lambda ot, y, a: (y * y + a * y) * .1 + a,
              lambda y, a: (y * y + a * y) * .1 + a),
    'deep': (lambda ot, y, a: ot.sin(ot.cos(ot.sin(y * .5) + a) * y * .3),
             lambda y, a: np.sin(np.cos(np.sin(y * .5) + a) * y * .3)),
    'root': (lambda ot, y, a: (a * a + y * y * .3 + 2.)**.5,
             lambda y, a: (a * a + y * y * .3 + 2.)**.5),
    'direct': (lambda ot, y, a: y * .5, lambda y, a: y * .5),
    'sub': (lambda ot, y, a: (a - y) * .4, lambda y, a: (a - y) * .4),
    'sum': (lambda ot, y, a: ot.sum(y * .1, a, ot.sin(y) * .2),
            lambda y, a: y * .1 + a + np.sin(y) * .2),
    'sum3': (lambda ot, y, a: ot.sum(y * .1, a, a * .5, ot.sin(y) * .2) +
             ot.average(y, a, ot.cos(y), a * a),
             lambda y, a: y * .1 + a * 1.5 + np.sin(y) * .2 +
             (y + a + np.cos(y) + a * a) / 4),
    'raw3': (lambda ot, y, a: ot.sum(y, a, ot.sin(y), a * a) * .2,
             lambda y, a: (y + a + np.sin(y) + a * a) * .2),
    'cond': (lambda ot, y, a: ot.if_else(
        ot.sum(a) - 100., y * .1, ot.sin(y) * .3 + a) + ot.max(
            y * .1, a, y * .2),
             lambda y, a: np.sin(y) * .3 + a + np.log(
                 np.exp(20 * .1 * y) + np.exp(20. * a) + np.exp(
                     20 * .2 * y)) / 20.),
    'shared': (lambda ot, y, a: (lambda s: s * a + s * .3 + s**2 * .1)
               (ot.sin(y) * .4),
               lambda y, a: (lambda s: s * a + s * .3 + s**2 * .1)
               (np.sin(y) * .4)),
    'avg': (lambda ot, y, a: ot.expand(ot.average(y), y.shape) * .5 + a,
            lambda y, a: np.ones(np.shape(y)) * (np.sum(y) / y.size) * .5 + a),
    'index': (lambda ot, y, a: ot.expand(y[0:1], y.shape) * .5 + y * .2 + a,
              lambda y, a: y[0] * .5 + y * .2 + a),
}


@kind('cyclic')
def run_cyclic(case):
    from openmdao.api import DirectSolver, NonlinearBlockGS
    api = ot()
    sh = tuple(case['shape'])
    f = CYC[case['fam']][1]
    cap = {}
    rng = np.random.default_rng(case['seed'])

    def setup(self):
        a = self.create_indep_var('a', shape=sh, val=.3)
        if case.get('order') == 'late':
            z = None
        y = self.create_output('y', shape=sh, val=case.get('val', 1.))
        e = CYC[case['fam']][0](api, y, a)
        if case.get('regexpr'):
            self.register_output('e', e)
        if case.get('pre'):
            # outside use written before the definition
            self.register_output('zpre', y * 2. + a)
        y.define(e)
        if case.get('post'):
            self.register_output('z', api.sin(y) + y)
        cap['y'] = y
        if case.get('gs'):
            self.nonlinear_solver = NonlinearBlockGS(iprint=0, maxiter=200,
                                                     atol=1e-13, rtol=1e-13)
            self.linear_solver = DirectSolver()

    with quiet():
        prob = new_problem(type('M', (api.Group, ), {'setup': setup}))
        prob.final_setup()
    y0 = np.ones(sh) * case.get('val', 1.)
    check(close(prob['y'], y0), 'initial value of the output')
    a = rng.uniform(-.5, .9, size=sh)
    y = y0.copy()
    if case.get('start'):
        y = rng.uniform(-1., 1., size=sh)
        prob['y'] = y
    prob['a'] = a

    def outside(y):
        if case.get('pre'):
            check(close(prob['zpre'], 2 * y + a),
                  'expression outside the definition: got %s expected %s' %
                  (short(prob['zpre']), short(2 * y + a)))
        if case.get('post'):
            check(close(prob['z'], np.sin(y) + y),
                  'expression using the output: got %s expected %s' %
                  (short(prob['z']), short(np.sin(y) + y)))
        if case.get('regexpr'):
            check(close(prob['e'], y), 'defining expression: %s, output %s' %
                  (short(prob['e']), short(y)))

    if not case.get('gs'):
        for step in range(6):
            with quiet():
                prob.run_model()
            y = f(y, a)
            check(
                close(prob['y'], y), 'step %d of the iteration gives %s, '
                'defining expression of the previous value is %s' %
                (step, short(prob['y']), short(y)))
            outside(y)
    else:
        with quiet():
            prob.run_model()
        y = np.array(prob['y'])
        check(close(y, f(y, a), 1e-9), 'output %s, its defining expression %s' %
              (short(y), short(f(y, a))))
        outside(y)
        of = ['y'] + (['z'] if case.get('post') else []) + (
            ['zpre'] if case.get('pre') else [])
        with quiet():
            T = prob.compute_totals(of=of, wrt=['a'])
        Jy = cjac(f, [y, a], 0)
        Ja = cjac(f, [y, a], 1)
        D = np.linalg.solve(np.eye(y.size) - Jy, Ja)
        want = {
            'y': D,
            'z': ((np.cos(y) + 1).reshape(-1, 1)) * D,
            'zpre': 2 * D + np.eye(y.size)
        }
        for o in of:
            check(close(T[o, 'a'], want[o], 1e-6),
                  'derivative d%s/da: got %s expected %s' %
                  (o, short(T[o, 'a']), short(want[o])))


# --- options dictionary ------------------------------------------------------
def TYPES(t):
    m = {'int': int, 'float': float, 'str': str, 'list': list, 'bool': bool}
    return None if t is None else (m[t] if isinstance(t, str) else tuple(
        m[q] for q in t))


def pos_check(name, value):
    if value is not None and not (isinstance(value, (int, float))
                                  and value > 0):
        raise ValueError('not positive')


def admissible(d, v):
    if not (v is None and d.get('allow_none')):
        if d.get('values') is not None:
            if v not in d['values']:
                return False
        elif d.get('types') is not None:
            if not isinstance(v, TYPES(d['types'])):
                return False
        for b, s in (('upper', 1), ('lower', -1)):
            if d.get(b) is not None:
                if not isinstance(v, (int, float)):
                    return False
                if s * v > s * d[b]:
                    return False
    if d.get('check'):
        try:
            pos_check('', v)
        except ValueError:
            return False
    return True


@kind('options')
def run_options(case):
    from omtools.utils.options_dictionary import OptionsDictionary
    ro = case.get('read_only', False)
    ref = {}     # name -> [decl, set?, value]

    def keywords(d):
        kw = {}
        for key in ('values', 'upper', 'lower', 'allow_none', 'default'):
            if key in d:
                kw[key] = d[key]
        if d.get('types') is not None:
            kw['types'] = TYPES(d['types'])
        if d.get('check'):
            kw['check_valid'] = pos_check
        return kw

    if 'init' in case:
        # a subclass that declares its options, made with some of them given
        def initialize(self):
            for n, d in case['init']:
                self.declare(n, **keywords(d))

        cls = type('D', (OptionsDictionary, ), {'initialize': initialize})
        for n, d in case['init']:
            ref[n] = [d, 'default' in d, d.get('default')]
        bad = [n for n, v in case['given'].items()
               if ro or n not in ref or not admissible(ref[n][0], v)]
        other = OptionsDictionary()
        try:
            with quiet():
                od = cls(ro, **case['given'])
        except Exception as e:
            check(bad, 'options %s given at creation are rejected (%r)' %
                  (case['given'], e))
            return
        check(not bad, 'options %s given at creation are not rejected' % bad)
        check(not list(other), 'a dictionary shares options with another')
        for n, v in case['given'].items():
            ref[n][1:] = [True, v]
    else:
        with quiet():
            od = OptionsDictionary(ro)

    def state(step):
        for n in case['names']:
            try:
                g = ('v', od[n])
            except KeyError:
                g = ('undeclared', )
            except RuntimeError:
                g = ('required', )
            if n not in ref:
                w = ('undeclared', )
            elif not ref[n][1]:
                w = ('required', )
            else:
                w = ('v', ref[n][2])
            check(type(g[-1]) is type(w[-1]) and g == w,
                  'after step %d (%s): option %s is %s, expected %s' %
                  (step, case['ops'][step] if step >= 0 else '', n, g, w))
            check((n in od) == (n in ref), 'containment of %s' % n)
        check(sorted(od) == sorted(ref), 'iteration over the options')

    state(-1)
    for k, op in enumerate(case['ops']):
        kindo, n = op[0], op[1]
        err = None
        want_err = False
        try:
            if kindo == 'declare':
                d = op[2]
                kw = keywords(d)
                want_err = d.get('values') is not None and d.get(
                    'types') is not None
                if not want_err and 'default' in d:
                    want_err = not admissible(d, d['default'])
                if not want_err:
                    ref2 = [d, 'default' in d, d.get('default')]
                od.declare(n, **kw)
            elif kindo == 'set':
                want_err = (n not in ref or case.get('read_only', False)
                            or not admissible(ref[n][0], op[2]))
                od[n] = op[2]
            elif kindo == 'update':
                od.update({n: op[2]})
            elif kindo == 'undeclare':
                od.undeclare(n)
        except Exception as e:
            err = e
        if kindo == 'update':
            want_err = (n not in ref or case.get('read_only', False)
                        or not admissible(ref[n][0], op[2]))
        check((err is not None) == want_err,
              'step %d %s: %s' % (k, op, 'rejected (%r)' % err
                                  if err is not None else 'not rejected'))
        if not want_err:
            if kindo == 'declare':
                ref[n] = ref2
            elif kindo in ('set', 'update'):
                ref[n][1:] = [True, op[2]]
            elif kindo == 'undeclare':
                ref.pop(n, None)
        state(k)


# --- declarations ------------------------------------------------------------
def mkval(v):
    if isinstance(v, dict):
        a = np.array(v['a'], dtype=v.get('t', 'float'))
        return a
    return v


def close_(a, b):
    """values that are only passed on"""
    return close(a, b, tol=1e-14)


@kind('decl')
def run_decl(case):
    """shape and value of a declared input / independent variable / output"""
    api = ot()
    kw = {}
    if 'shape' in case:
        kw['shape'] = tuple(case['shape'])
    if 'val' in case:
        kw['val'] = mkval(case['val'])
    src = np.array(kw['val']) if 'val' in kw else None
    sh = kw.get('shape', (1, ))
    v = kw.get('val', 1)
    if isinstance(v, (list, np.ndarray)):
        v = np.array(v, dtype=float)
        bad = 'shape' in kw and sh != (1, ) and v.shape != sh
        want = v
    else:
        bad = False
        want = np.ones(sh) * v
    cap = {}
    fn = case['fn']

    def setup(self):
        try:
            if fn == 'implicit':
                e = self.create_implicit_output('d', **kw)
            else:
                e = getattr(self, fn)('d', **kw)
        except ValueError as err:
            cap['err'] = err
            return
        cap['e'] = e
        check(tuple(e.shape) == want.shape, 'declared shape %s instead of %s' %
              (e.shape, want.shape))
        check(close_(np.array(e.val, dtype=float) * np.ones(want.shape), want),
              'declared value %s instead of %s' % (short(e.val), short(want)))
        if fn in ('declare_input', 'create_indep_var'):
            self.register_output('f', e * 2.)
            self.register_output('g', api.reshape(e, (int(want.size), )))
            self.register_output('h', api.sum(e))
        elif fn == 'create_output':
            if case.get('cyc'):
                e.define(e * 2.)
            else:
                x = self.create_indep_var('x', shape=tuple(e.shape))
                e[tuple(slice(0, s) for s in e.shape)] = x + 1.

    with quiet():
        if fn == 'implicit':
            from openmdao.api import Group as OMG

            def isetup(self):
                setup(self.group)
                if 'e' in cap:
                    e = cap['e']
                    a = self.group.declare_input('a', shape=tuple(e.shape),
                                                 val=.5)
                    e.define_residual(e * 2. - a)

            from openmdao.api import Problem
            prob = Problem()
            prob.model = OMG()
            prob.model.add_subsystem(
                'I', type('I', (api.ImplicitComponent, ),
                          {'setup': isetup})(), promotes=['*'])
            if bad:
                try:
                    prob.setup()
                except Exception:
                    pass
            else:
                prob.setup()
        else:
            prob = new_problem(type('M', (api.Group, ), {'setup': setup}))
        if not bad:
            prob.final_setup()
    if bad:
        check('err' in cap, 'value of another shape was not rejected')
        return
    check('err' not in cap, 'rejected: %r' % cap.get('err'))
    if src is not None:
        check(np.array_equal(np.array(kw['val']), src),
              "the user's value was modified")
    if fn in ('declare_input', 'create_indep_var', 'implicit') or case.get(
            'cyc'):
        check(np.array(prob['d']).shape == want.shape,
              'shape in the model %s instead of %s' %
              (np.array(prob['d']).shape, want.shape))
        check(close_(prob['d'], want), 'initial value in the model %s instead '
              'of %s' % (short(prob['d']), short(want)))
    if fn in ('declare_input', 'create_indep_var'):
        with quiet():
            prob.run_model()
        check(close_(prob['d'], want), 'value in the model %s instead of %s' %
              (short(prob['d']), short(want)))
        check(close_(prob['f'], 2 * want), 'supplied to an expression: %s' %
              short(prob['f']))
        check(close_(prob['g'], want.reshape(-1)), 'supplied to an expression')
        check(close_(prob['h'], np.array([want.sum()])),
              'supplied to an expression')


# --- purity ------------------------------------------------------------------
@kind('pure')
def run_pure(case):
    """evaluation and derivatives depend on the point only"""
    prog = case['prog']
    tracked = []
    old = P.const

    def const(kw):
        v = old(kw)
        if isinstance(v, np.ndarray):
            tracked.append((v, v.copy()))
        return v

    pts = points(prog, case['seed'], 3)
    if case.get('points'):
        for q, r in zip(pts, case['points']):
            for k, v in r.items():
                q[k] = np.array(v, dtype=float)
    outs = [o for o, _ in prog['outs']]
    use = used(prog)
    wrt = [i['name'] for k, i in enumerate(prog['inputs'])
           if prog.get('via', 'indep') == 'indep' or k in use]
    nod = case.get('noderiv')

    def put(prob, pt):
        for n in wrt:
            prob[n] = pt[n]

    def ev(prob, pt, der=True):
        with quiet():
            put(prob, pt)
            prob.run_model()
            v = {o: np.array(prob[o]) for o in outs}
            d = None
            if der and not nod:
                J = prob.compute_totals(of=outs, wrt=wrt)
                d = {(o, n): np.array(J[o, n]) for o in outs for n in wrt}
        for n in wrt:
            check(np.array_equal(prob[n], pt[n]),
                  'evaluation changed input %s' % n)
        return v, d

    def same(a, b, what):
        for x, y in zip(a, b):
            if x is None or y is None:
                continue
            for k in y:
                check(
                    np.array_equal(x[k], y[k], equal_nan=True)
                    or close(x[k], y[k], 1e-13), '%s: %s is %s instead of %s' %
                    (what, k, short(x[k]), short(y[k])))

    P.const = const
    try:
        ref = []
        for k in range(len(pts)):
            with quiet():
                pr = new_problem(build_model(prog, pts[0]))
            ref.append(ev(pr, pts[k]))
        cap = {}
        with quiet():
            A = new_problem(build_model(prog, pts[0], cap))
        same(ev(A, pts[0]), ref[0], 'first evaluation')
        vals0 = [np.array(v.val) for v in cap['vals']]
        with quiet():
            B = new_problem(build_model(prog, pts[1]))
        same(ev(A, pts[1], False), ref[1], 'value at another point')
        same(ev(A, pts[0]), ref[0], 'evaluation of a point again')
        same(ev(A, pts[0]), ref[0], 'evaluation of the same point twice')
        if not nod:
            with quiet():
                J = A.compute_totals(of=outs, wrt=wrt)
                J = A.compute_totals(of=outs, wrt=wrt)
            same((ref[0][0], {(o, n): np.array(J[o, n])
                              for o in outs for n in wrt}), ref[0],
                 'repeated derivatives')
        same(ev(B, pts[2]), ref[2], 'a model built later')
        same(ev(A, pts[2]), ref[2], 'after another model was evaluated')
        same(ev(B, pts[0]), ref[0], 'a model built later')
        same(ev(A, pts[1]), ref[1], 'derivatives at another point')
        for v, v0 in zip(cap['vals'], vals0):
            check(np.array_equal(np.array(v.val), v0),
                  'evaluation changed a declared value')
        for v, v0 in tracked:
            check(np.array_equal(v, v0), "the user's array was modified")
    finally:
        P.const = old


@kind('purecomp')
def run_purecomp(case):
    """implicit and cyclic models evaluated at several points in turn"""
    from openmdao.api import DirectSolver, IndepVarComp, Problem
    from openmdao.api import Group as OMG
    api = ot()
    lo = np.array(case['x1'])
    hi = np.array(case['x2'])
    lo0, hi0 = lo.copy(), hi.copy()
    sh = lo.shape

    def setup(self):
        g = self.group
        c = g.declare_input('c', shape=sh)
        x = g.create_implicit_output('x', shape=sh)
        x.define_residual_bracketed(x**3 + x - c, x1=lo, x2=hi)

    def mk():
        prob = Problem()
        prob.model = OMG()
        prob.model.add_subsystem('iv', IndepVarComp('c', shape=sh),
                                 promotes=['*'])
        prob.model.add_subsystem(
            'I', type('I', (api.ImplicitComponent, ), {'setup': setup})(),
            promotes=['*'])
        prob.model.I  # noqa
        prob.setup()
        return prob

    rng = np.random.default_rng(case['seed'])
    cs = [rng.uniform(-1, 1, size=sh) for _ in range(3)]
    with quiet():
        def ev(prob, c):
            prob['c'] = c
            prob.run_model()
            J = prob.compute_totals(of=['x'], wrt=['c'])
            return np.array(prob['x']), np.array(J['x', 'c'])
        ref = [ev(mk(), c) for c in cs]
        A, B = mk(), mk()
        for prob, k in ((A, 0), (B, 1), (A, 1), (A, 0), (A, 0), (B, 2),
                        (A, 2), (B, 0)):
            v, d = ev(prob, cs[k])
            check(close(v, ref[k][0], 1e-12), 'value depends on the history')
            check(close(d, ref[k][1], 1e-10),
                  'derivative depends on the history')
    for k in range(3):
        check(close(ref[k][1], np.diag(1. / (3 * ref[k][0].reshape(-1)**2 + 1)
                                       ), 1e-8), 'derivative')
    check(np.array_equal(lo, lo0) and np.array_equal(hi, hi0),
          "the user's brackets were modified")


# --- misuse ------------------------------------------------------------------
class Ref:
    """legal sequences of calls on explicit outputs (reference state machine)"""
    def __init__(self):
        self.st = {}       # output -> 'new' | 'defined' | set of positions
        self.reg = set()
        self.used = {}

    def step(self, op):
        """True if the call is legal"""
        k = op[0]
        if k == 'create':
            self.st[op[1]] = 'new'
            self.reg.add(op[1])
            self.used[op[1]] = set()
            return True
        if k == 'register':
            if op[1][0] == 'x':
                return False
            if op[1] in self.reg:
                return False
            self.reg.add(op[1])
            return True
        if k == 'define':
            if op[1] == op[2]:
                return False
            if self.st[op[1]] != 'new':
                return False
            self.st[op[1]] = 'defined'
            return True
        if k == 'assign':
            s = self.st[op[1]]
            if s == 'defined':
                return False
            pos = set(range(op[2], op[2] + op[3]))
            if s == 'new':
                s = set()
            if s & pos or max(pos) >= 4 or op[4] in self.used[op[1]]:
                return False
            self.st[op[1]] = s | pos
            self.used[op[1]].add(op[4])
            return True
        raise ValueError(k)

    def complete(self):
        return all(s != 'new' for s in self.st.values())


@kind('calls')
def run_calls(case):
    api = ot()
    cap = {}

    def setup(self):
        x = self.declare_input('x', shape=(4, ))
        e = {'x': x}
        for k in range(6):
            e['e%d' % k] = x * float(k + 2)
            e['s%d' % k] = (x * float(k + 2))[0:1]
            e['d%d' % k] = (x * float(k + 9))[1:3]
        ref = Ref()
        for j, op in enumerate(case['ops']):
            legal = ref.step(op)
            try:
                if op[0] == 'create':
                    e[op[1]] = self.create_output(op[1], shape=(4, ))
                elif op[0] == 'register':
                    self.register_output('r_' + op[1], e[op[1]])
                elif op[0] == 'define':
                    e[op[1]].define(e[op[2]])
                elif op[0] == 'assign':
                    e[op[1]][op[2]:op[2] + op[3]] = e[op[4]]
            except Exception as err:
                cap['raised'] = (j, op, err)
                check(not legal, 'legal call %s (number %d) was rejected: %r' %
                      (op, j, err))
                cap['done'] = True
                raise
            check(legal, 'call %s (number %d) was not rejected' % (op, j))
        cap['complete'] = ref.complete()

    with quiet():
        try:
            prob = new_problem(type('M', (api.Group, ), {'setup': setup}))
        except Bad:
            raise
        except Exception as err:
            if cap.get('done'):
                return
            check('complete' in cap, 'raised %r' % err)
            check(not cap['complete'], 'legal model was rejected: %r' % err)
            return
        check(cap.get('complete', False),
              'an output was left undefined and this was not rejected')
        prob.run_model()


@kind('icalls')
def run_icalls(case):
    """calls on implicit outputs"""
    from openmdao.api import Group as OMG, Problem
    api = ot()
    cap = {}

    def setup(self):
        g = self.group
        xs = {}
        res = {}
        st = {}
        usedr = set()
        for n in ('x', 'y'):
            a = g.declare_input('a_' + n, shape=(2, ), val=.4)
            xs[n] = g.create_implicit_output(n, shape=(2, ))
            for k in range(3):
                res[n + str(k)] = xs[n] * float(k + 2) - a
            st[n] = False
        for j, op in enumerate(case['ops']):
            n, r = op[1], op[2]
            legal = not st[n] and r != n and r not in usedr
            ex = xs[n] if r == n else res[r]
            try:
                if op[0] == 'res':
                    xs[n].define_residual(ex)
                else:
                    xs[n].define_residual_bracketed(ex, x1=-5., x2=5.)
            except Exception as err:
                check(not legal, 'legal call %s was rejected: %r' % (op, err))
                cap['done'] = True
                raise
            check(legal, 'call %s was not rejected' % (op, ))
            st[n] = True
            usedr.add(r)
        cap['complete'] = True

    with quiet():
        prob = Problem()
        prob.model = OMG()
        prob.model.add_subsystem(
            'I', type('I', (api.ImplicitComponent, ), {'setup': setup})(),
            promotes=['*'])
        try:
            prob.setup()
        except Bad:
            raise
        except Exception as err:
            check(bool(cap.get('done')), 'raised %r' % err)
            return
        prob.final_setup()
        prob.model.run_apply_nonlinear()


@kind('undefined')
def run_undefined(case):
    """an implicit output used in a residual but never given one, and an
    explicit output created and never defined"""
    from openmdao.api import Group as OMG, Problem
    api = ot()

    def isetup(self):
        g = self.group
        a = g.declare_input('a')
        x = g.create_implicit_output('x')
        y = g.create_implicit_output('y')
        x.define_residual(x * 2. + y - a)

    def gsetup(self):
        a = self.declare_input('a')
        y = self.create_output('y')
        if case['use']:
            self.register_output('z', y + a)
        else:
            self.register_output('z', a * 2.)

    with quiet():
        try:
            if case['implicit']:
                prob = Problem()
                prob.model = OMG()
                prob.model.add_subsystem(
                    'I', type('I', (api.ImplicitComponent, ),
                              {'setup': isetup})(), promotes=['*'])
                prob.setup()
                prob.final_setup()
                prob.run_model()
            else:
                prob = new_problem(type('M', (api.Group, ),
                                        {'setup': gsetup}))
        except Exception:
            return
    raise Bad('an output was left undefined and this was not rejected')


# --- subsystems --------------------------------------------------------------
@kind('place')
def run_place(case):
    from openmdao.api import ExecComp, Group as OMG, IndepVarComp
    api = ot()
    cap = {'order': []}

    def sub_om(nin, nout, pro):
        g = OMG()
        g.add_subsystem(
            'c', ExecComp('%s = %s' % (nout, ' + '.join(
                '2*' + n for n in nin) or '7.')), promotes=['*'])
        return g

    def sub_ot(nin, nout, pro):
        def setup(self):
            ins = [self.declare_input(n) for n in nin]
            if not ins:
                ins = [self.create_indep_var('k_' + nout, val=3.5)]
            e = ins[0] * 2.
            for i in ins[1:]:
                e = e + i * 2.
            self.register_output(nout, e)
        return type('S', (api.Group, ), {'setup': setup})()

    def sub_comp(nin, nout, pro):
        return ExecComp('%s = %s' % (nout, ' + '.join('2*' + n
                                                      for n in nin) or '7.'))

    recs = []
    val = {}

    def setup(self):
        ex = {}
        subs = []
        del recs[:]
        val.clear()
        for k, st in enumerate(case['steps']):
            if st[0] == 'indep':
                kw = {'dv': st[3]} if len(st) > 3 else {}
                ex[st[1]] = self.create_indep_var(st[1], val=st[2], **kw)
                val[st[1]] = st[2]
                recs.append(('indep', st[1], bool(kw.get('dv'))))
            elif st[0] == 'expr':
                e = None
                for a in st[2]:
                    t = api.sin(ex[a])
                    e = t if e is None else e + t
                e = e * 2.
                ex[st[1]] = self.register_output(st[1], e)
                val[st[1]] = 2 * sum(np.sin(val[a]) for a in st[2])
                recs.append(('expr', st[1], list(st[2])))
            elif st[0] == 'sub':
                _, n, knd, nin, nout, pro = st
                if knd == 'with':
                    with self.create_group(n) as s:
                        ins = [s.declare_input(q) for q in nin]
                        if not ins:
                            ins = [s.create_indep_var('k_' + nout, val=3.5)]
                        e = ins[0] * 2.
                        if len(ins) > 1:
                            with s.create_group('in_' + n) as s2:
                                i2 = s2.declare_input(nin[1])
                                s2.register_output('t_' + nout, i2 * 2.)
                            for q in ins[2:]:
                                e = e + q * 2.
                            e = e + s.declare_input('t_' + nout)
                        s.register_output(nout, e)
                    val[nout] = 2 * sum(val[a] for a in nin) if nin else 7.
                    subs.append(n)
                    recs.append(('sub', n, list(nin), nout,
                                 [q[1] for q in recs]))
                    continue
                f = {'om': sub_om, 'ot': sub_ot, 'comp': sub_comp}[knd]
                s = f(nin, nout, pro)
                kw = {}
                if pro == 'all':
                    kw = {'promotes': ['*']}
                elif pro == 'io':
                    kw = {'promotes_inputs': ['*'],
                          'promotes_outputs': [nout]}
                elif pro == 'names':
                    kw = {'promotes': list(nin) + [nout]}
                r = self.add_subsystem(n, s, **kw)
                check(r is s, 'add_subsystem does not return the subsystem')
                val[nout] = 2 * sum(val[a] for a in nin) if nin else (
                    7. if knd != 'ot' else 7.)
                subs.append(n)
                recs.append(('sub', n, list(nin), nout,
                             [q[1] for q in recs]))
            elif st[0] == 'input':
                ex[st[1]] = self.declare_input(st[1])
                recs.append(('input', st[1], list(subs)))
        self.reverse_branch_sorting = bool(case.get('reverse'))

    for prob in setups(api, setup, case):
        check_place(prob, recs, val)


def check_place(prob, recs, val):
    with quiet():
        prob.run_model()
    m = prob.model
    names = [s.name for s in m.system_iter(recurse=False)
             if s.name != '_auto_ivc']
    check(len(set(names)) == len(names), 'duplicated: %s' % names)
    pos = {}
    for k, s in enumerate(s for s in m.system_iter(recurse=False)
                          if s.name != '_auto_ivc'):
        for o in io_names(m, s, 'output'):
            pos[o] = k
        pos['sys:' + s.name] = k
    # subsystems appear once, under their own name
    inds = [r[1] for r in recs if r[0] == 'indep']
    for r in recs:
        if r[0] == 'sub':
            check(names.count(r[1]) == 1, 'subsystem %s appears %d times in %s'
                  % (r[1], names.count(r[1]), names))
            k = pos['sys:' + r[1]]
            check(r[3] in pos and pos[r[3]] == k,
                  'output %s of subsystem %s is not promoted' % (r[3], r[1]))
            for n in r[4]:
                q = pos.get(n, pos.get('sys:' + n))
                if q is not None and n != r[3]:
                    check(q < k, '%s, registered before subsystem %s was added,'
                          ' runs after it: %s' % (n, r[1], names))
    other = [k for o, k in pos.items() if o not in inds and 'sys:comp_' + o
             not in ()]
    for n in inds:
        check(n in pos, 'independent variable %s is missing' % n)
        rest = [k for k in range(len(names))
                if k not in [pos[i] for i in inds]]
        check(not rest or pos[n] < min(rest),
              'independent variable %s is not at the top: %s' % (n, names))
    dvs = sorted(n.split('.')[-1] for n in m.get_design_vars(recurse=False))
    want = sorted(r[1] for r in recs if r[0] == 'indep' and r[2])
    check(dvs == want, 'design variables %s, declared %s' % (dvs, want))
    check_order(m)
    ins = {r[1]: r[2] for r in recs if r[0] == 'input'}
    for r in recs:
        if r[0] == 'expr':
            for a in r[2]:
                for s in ins.get(a, []):
                    check(pos[r[1]] > pos['sys:' + s],
                          '%s uses an input declared after subsystem %s and '
                          'runs before it: %s' % (r[1], s, names))
    for n, v in val.items():
        check(close(np.array(prob[n]), np.array([v])),
              '%s is %s, expected %s' % (n, short(prob[n]), v))


# --- combination components --------------------------------------------------
def unj(v):
    if isinstance(v, dict) and 'a' in v:
        return np.array(v['a'], dtype=v.get('t', 'float'))
    if isinstance(v, list):
        return [unj(q) for q in v]
    if isinstance(v, dict):
        return {k: unj(q) for k, q in v.items()}
    return v


@kind('comb')
def run_comb(case):
    from openmdao.api import IndepVarComp, Problem
    from openmdao.api import Group as OMG
    from omtools.comps.arithmetic_comps.power_combination_comp import \
        PowerCombinationComp
    from omtools.comps.linearcombination_comp import LinearCombinationComp
    from omtools.comps.linearpowercombination import LinearPowerCombinationComp
    cls = {'lin': LinearCombinationComp, 'pow': PowerCombinationComp,
           'linpow': LinearPowerCombinationComp}[case['comp']]
    sh = tuple(case['shape'])
    opts = unj(case['opts'])
    names = case['names']
    if case['comp'] != 'linpow':
        opts['in_vals'] = [np.ones(sh) for _ in case['raw_names']]
    if 'terms_list' in opts:
        opts['terms_list'] = [tuple(t) for t in opts['terms_list']]
    rng = np.random.default_rng(case['seed'])
    sem = unj(case['sem'])

    def f(*xs):
        x = dict(zip(names, xs))
        if case['comp'] == 'lin':
            r = np.zeros(sh) + sem['constant']
            for n, c in sem['terms']:
                r = r + c * x[n]
            return r
        if case['comp'] == 'pow':
            r = np.ones(sh) * sem['coeff']
            for n, p in sem['terms']:
                r = r * P.cpow(x[n], p)
            return r
        r = np.zeros(sh) + sem['constant']
        for c, d in sem['terms']:
            t = np.ones(sh) * c
            for n, p in d.items():
                t = t * P.cpow(x[n], p)
            r = r + t
        return r

    with quiet():
        prob = Problem()
        prob.model = OMG()
        iv = IndepVarComp()
        for n in names:
            iv.add_output(n, shape=sh)
        prob.model.add_subsystem('iv', iv, promotes=['*'])
        prob.model.add_subsystem('c', cls(shape=sh, out_name='out', **opts),
                                 promotes=['*'])
        prob.setup()
    for rep in range(3):
        rng2 = np.random.default_rng([case['seed'], rep % 2])
        xs = [P.sample(case.get('dom', 'pos'), sh, rng2) for _ in names]
        if rep == 1:              # zero elements where no power forbids them
            for n, x in zip(names, xs):
                ps = [] if case['comp'] == 'lin' else [
                    p for t in sem['terms'] for m, p in
                    (t[1].items() if case['comp'] == 'linpow' else [t])
                    if m == n]
                if all(p == 0 or p >= 1 for p in ps):
                    x[rng2.random(x.shape) < .5] = 0.
        with quiet():
            for n, x in zip(names, xs):
                prob[n] = x
            prob.run_model()
            J = prob.compute_totals(of=['out'], wrt=names)
        w = f(*xs)
        check(close(prob['out'], w), 'value: got %s expected %s' %
              (short(prob['out']), short(w)))
        for k, n in enumerate(names):
            e = cjac(f, xs, k)
            check(close(J['out', n], e),
                  'derivative with respect to %s: got %s expected %s' %
                  (n, short(J['out', n]), short(e)))


# --- unconnected inputs keep their declared value ----------------------------
@kind('defaults')
def run_defaults(case):
    from .runner import build_model
    prog = dict(case['prog'], via='input')
    pt = points(prog, case.get('seed', 0), 1)[0]
    with quiet():
        prob = new_problem(build_model(prog, pt))
        prob.run_model()
    vals = [np.array(pt[i['name']], dtype=float) for i in prog['inputs']]
    for nd in prog['nodes']:
        if nd['op'] == 'assign':
            return
        vals.append(P.arr1(P.SPEC[nd['op']][1]([vals[a] for a in nd['args']],
                                               nd.get('kw', {}))))
    for o, i in prog['outs']:
        check(close(prob[o], vals[i]),
              'unconnected inputs at their declared values: %s is %s expected '
              '%s' % (o, short(prob[o]), short(vals[i])))


# --- acceptance when an expression is written --------------------------------
@kind('write')
def run_write(case):
    """the text (of ot, operands of given shapes, arrays and num) must be
    accepted / rejected when it is evaluated, before any model exists"""
    o = ot()
    from omtools.core.input import Input

    class Part:
        def __init__(self, n, dims):
            self.shape = tuple(case['vars'][n])
    ns = {'ot': o, 'np': np, 'num': 2.5, 'Part': Part}
    for n, s in case['vars'].items():
        ns[n] = Input(n, shape=tuple(s), val=np.ones(s) * 1.5)
    for n, s in case.get('arrays', {}).items():
        ns[n] = np.arange(1, 1 + int(np.prod(s))).reshape(s) * .5
    try:
        with quiet():
            y = eval(case['text'], ns)
    except Exception as e:
        if case.get('accept'):
            raise Bad('%s with %r rejected: %s: %s' % (
                case['text'], case['vars'], type(e).__name__, str(e)[:200]))
        return
    if not case.get('accept'):
        raise Bad('%s with %r and arrays %r accepted with shape %r' % (
            case['text'], case['vars'], case.get('arrays', {}),
            getattr(y, 'shape', None)))
