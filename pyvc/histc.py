"""Every history of calls leaves a graph without cycles (C12, C13, C23, C24).

The contract of the user's setup (graphc.model, graphc.ready) is not assumed of
all code: it is proved by induction over the calls the user makes.  An invariant
INV holds for a new group, is preserved by every method of Group and of the
outputs and by every operation, and implies the model.  Each step is a lemma
over the contracts that groupc, consc and sysc discharge; no code is executed
here."""
import z3

from . import consc, graphc, groupc, leafc
from .wp import Heap, State, VC, Obj, Int, Bool, none, Contract, isa, fresh, VL, Unsup
from .graphc import A, MP, E, distinct_all, reach, rank, R, mine, par, tv, dep
from .groupc import root, last, T, FIELDS as GF, dependencies_ok

x, y = z3.Const('x', Obj), z3.Const('y', Obj)
RK = z3.Function('order before', Obj, Int)
B = z3.Const('bound', Int)
es, a, b = z3.Const('es', leafc.OO), z3.Const('ra', Obj), z3.Const('rb', Obj)
Indep, Subsystem, Input = isa('Indep'), isa('Subsystem'), isa('Input')
KINDS_APART = [A([x], z3.And(*[z3.Not(z3.And(isa(p)(x), isa(q)(x))) for i, p in enumerate(groupc.KINDS)
                               for q in groupc.KINDS[:i]]), isa(groupc.KINDS[0])(x), isa('Indep')(x), isa('Subsystem')(x))]
FIELDS = dict(GF)


def nothing(l):
    return A([y], z3.Not(l.st[y]), l.st[y])


def inv(h, g, rk, bound, processed=False):
    r, la = root(h, g), last(h, g)
    L, sb = h.get(g, '_registered_before_setup'), h.get(g, '_subsystem_before_setup')
    return [
        ('its own expressions', A([x, y], z3.Implies(E(h, x, y), mine(y)), E(h, x, y))),
        ('the root is none of them', z3.Not(mine(r))),
        ('registered before the setup', A([x], z3.Implies(L.st[x], z3.And(h.get(x, 'alive'), mine(x))), L.st[x])),
        ('registered once before the setup', L.distinct()),
        ('subsystem before the setup', z3.Implies(z3.And(h.get(g, '_restarts'), sb != none), z3.And(
            h.get(sb, 'alive'), Subsystem(sb), L.st[sb]))),
        ('the root', z3.And(r != none, h.get(r, 'alive'), r != la, z3.Not(Indep(r)), z3.Not(h.get(none, 'alive')))),
        ('the last subsystem', z3.Implies(la != none, z3.And(h.get(la, 'alive'), Subsystem(la), E(h, r, la)))),
        ('nothing depends on the root', A([x], z3.Not(E(h, x, r)), E(h, x, r)))] + dependencies_ok(h) + [
        ('independent variables have no dependencies', A([x, y], z3.Implies(Indep(x), z3.Not(E(h, x, y))), E(h, x, y))),
        ('no cycles', A([x, y], z3.Implies(z3.And(E(h, x, y), x != r), rk(y) < rk(x)), E(h, x, y))),
        ('finite', A([x], z3.Implies(h.get(x, 'alive'), z3.And(-bound < rk(x), rk(x) < bound)), h.get(x, 'alive'))),
    ] + ([] if processed else [
        ('not processed', A([x], z3.Implies(z3.And(h.get(x, 'alive'), mine(x)), z3.And(
            tv(h, x) == 0, nothing(h.get(x, 'dependents')))), tv(h, x), h.get(x, 'alive'))),
        ('root not processed', z3.And(tv(h, r) == 0, nothing(h.get(r, 'dependents'))))]) + [
        ('dependents once', distinct_all(h, 'dependents')),
        ('brackets', z3.Or(h.get(g, 'brackets_map') == none, h.get(h.get(g, 'brackets_map'), 'alive')))]



class Lemma:
    def __init__(self, ctx, name, axioms=()):
        self.V = VC(Contract('', name, {}), {}, FIELDS, ctx, list(axioms) + KINDS_APART)
        self.ctx = ctx
        self.s = State({}, Heap(FIELDS), [], {})

    def assume(self, fs):
        self.s.assume([f for _, f in fs])

    def possible(self):
        self.ctx.obl('the premises are satisfiable').add('proved' if self.V.feasible(self.s) else 'other', 'contradictory premises')

    def oblige(self, name, fs):
        """one after the other: what is proved may be used"""
        for n, f in fs:
            self.V.oblige('%s: %s' % (name, n), self.s, f)


def grown(s, o):
    """all that exists goes on existing"""
    return ('what exists goes on existing', A([x], z3.Implies(o.heap.get(x, 'alive'), s.heap.get(x, 'alive')), s.heap.get(x, 'alive')))


def step(ctx, k, group, args, witness, before=(), given=()):
    """one call: k is the contract, group(state) the group"""
    L = Lemma(ctx, k.qual, leafc.AX)
    loc = {p: fresh(t, p) for p, t in k.params.items()}
    loc.setdefault('group', fresh(Obj, 'group'))
    pre = State(loc, L.s.heap, L.s.facts, {})
    g = group(pre)
    h0 = pre.heap
    if 'self' in loc and k.qual.startswith('Group'):
        L.s.assume(h0.get(loc['self'], 'alive'))
    L.assume(inv(h0, g, RK, B))
    L.s.assume([z3.And(h0.get(loc[p], 'alive'), loc[p] != root(h0, g)) for p in args])
    L.s.assume([f(pre) for f in given])
    L.s.assume([mine(loc[p]) for p in args])
    if 'M' in before:
        # the graph that the contract speaks of, and a rank of it
        me, e = loc['self'], loc.get('expr')
        edge = [z3.And(x == me, y == e)] if e is not None else []
        L.s.assume(A([x, y], leafc.M[x][y] == z3.And(z3.Or(E(h0, x, y), *edge), y != me), leafc.M[x][y], E(h0, x, y)))
        low = lambda q: z3.If(z3.Not(h0.get(q, 'alive')), 0, z3.If(q == root(h0, g), 9 * B, z3.If(q == me, 5 * B, RK(q) + 2 * B)))
        if e is None:
            low = lambda q: z3.If(z3.Not(h0.get(q, 'alive')), 0, z3.If(q == root(h0, g), 9 * B, RK(q) + 2 * B))
        L.s.assume(A([x], rank(x) == low(x), rank(x)))
        L.s.assume(B > 0)
        L.oblige('assumed of the graph', [('no other cycles', leafc.acyclic())])
        if e is None:
            L.oblige('assumed of the graph', [(n, f) for n, f in k.facts(pre) if n in ('root', )])
    L.s.assume(B > 0)
    L.oblige('it may be called', k.requires(pre))
    pre = State(dict(loc), h0.copy(), L.s.facts, {})
    pre.heap = h0.copy()
    for e, c in () if k.may_raise else k.raises.items():
        L.s.assume(z3.Not(c(pre)))
    for f in k.modifies:
        L.s.heap.havoc(f)
    L.s.assume(graphc.wf_all(L.s.heap))
    L.s.assume(graphc.wf_all(L.s.heap, 'dependents'))
    r = fresh(k.returns, 'ret') if k.returns is not None else None
    L.assume(k.ensures(State(dict(loc), L.s.heap, L.s.facts, {}), pre, r))
    s = State(dict(loc), L.s.heap, L.s.facts, {})
    # what is made are expressions of this group
    for q in ([r] if k.returns is not None and k.qual != 'Group.create_group' and 'subsys' not in loc else []) + (
            [last(L.s.heap, g)] if 'subsys' in loc or k is GROUP_AT_YIELD else []):
        L.s.assume(mine(q))
    if 'residual' in k.qual or k is groupc.CUT:
        L.s.assume(A([x], z3.Implies(z3.And(L.s.heap.get(x, 'alive'), z3.Not(pre.heap.get(x, 'alive')), Input(x)), mine(x)), mine(x), Input(x)))
    # neither groups nor tables are expressions; a root is no expression of the user's
    L.s.assume(z3.Not(mine(L.s.heap.get(g, 'brackets_map'))))
    if k is GROUP_AT_YIELD:
        L.s.assume(z3.Not(mine(r)), z3.Not(mine(root(L.s.heap, r))))
    L.possible()
    rk, bound = witness(s, pre, r)
    L.oblige('afterwards', [grown(s, pre)] + inv(L.s.heap, g, rk, bound))


OWN = lambda s: s['self']
OF = lambda s: s.heap.get(s['self'], 'group')


OUTPUT = lambda s: isa('Output')(s['self'])


def at(q, v):
    """the order is the old one but for q"""
    return lambda z: z3.If(z == q, v, RK(z))


# an operation makes an expression of existing ones (sysc.c12: for the listed programs)
OP = Contract('core/variable.py', 'operation', {'group': Obj}, returns=Obj, modifies=groupc.NODE, ensures=lambda s, o, r: [
    ('new', z3.And(r != none, z3.Not(o.heap.get(r, 'alive')), s.heap.get(r, 'alive'), z3.Not(Indep(r)), mine(r))),
    ('of existing expressions', A([x], z3.Implies(E(s.heap, r, x), z3.And(o.heap.get(x, 'alive'), mine(x), x != root(o.heap, o['group']))),
                                  E(s.heap, r, x))),
    ('not processed', z3.And(tv(s.heap, r) == 0, s.heap.get(r, 'dependents').n == 0)),
    ('each once', s.heap.get(r, 'dependencies').distinct()),
    ] + [('frame ' + f, s.heap.frame(o.heap, f, [r])) for f in groupc.NODE])

# y[...] = e (C11; sysc.c12): y depends on e now
ASSIGN = Contract('core/explicit_output.py', 'ExplicitOutput.__setitem__', {'self': Obj, 'expr': Obj, 'group': Obj},
                  modifies=groupc.NODE, ensures=lambda s, o, r: [
    ('y depends on e', groupc.adds(s, o, o['self'], o['expr'])),
    ('each once', s.heap.get(o['self'], 'dependencies').distinct()),
    groupc.deps_except(s, o, o['self'])] + [('frame ' + f, s.heap.frame(o.heap, f)) for f in (
        'alive', 'times_visited', 'dependents')])

GROUP_AT_YIELD = Contract('core/group.py', 'Group.create_group', {'self': Obj, 'name': graphc.Name}, returns=Obj,
                          modifies=list(GF), requires=T['create_group'].requires,
                          ensures=lambda s, o, r: groupc.in_context(s, o, r))


def below(s, p, r):
    """a cut definition: what the output depends on comes before everything else"""
    g, me = p.heap, p['self']
    m = lambda z: z3.If(z == me, B, RK(z))
    return (lambda z: z3.If(z3.Not(g.get(z, 'alive')), -9 * B, z3.If(reach(leafc.M, me, z), m(z), m(z) + 4 * B))), 10 * B


def residual(s, p, r):
    return (lambda z: z3.If(z3.Not(p.heap.get(z, 'alive')), -B, RK(z))), B + 1


def reaches(s, p, r):
    e = p.heap.set('dependencies')
    return (lambda z: z3.If(reach(e, z, p['self']), RK(z) + 3 * B, RK(z))), 5 * B


def model(ctx):
    """the invariant implies what the construction of the components requires"""
    L = Lemma(ctx, 'model', leafc.AX)
    h, g = L.s.heap, fresh(Obj, 'group')
    r = root(h, g)
    L.assume(inv(h, g, RK, B))
    e = h.set('dependencies')
    L.s.assume(graphc.wf_all(h), graphc.wf_all(h, 'dependents'), B > 0)
    # what the model speaks of
    L.s.assume(A([x], R[x] == reach(e, r, x), R[x], reach(e, r, x)), A([x], par(x) == leafc.pred(e, r, x), par(x)),
               A([x], rank(x) == z3.If(x == r, 9 * B, z3.If(Indep(x), 0, RK(x) + 2 * B)), rank(x)),
               # each expression belongs to the group; identifiers differ (C14)
               A([x], z3.Implies(z3.And(h.get(x, 'alive'), x != r), mine(x)), R[x]), z3.Not(mine(r)), graphc.ids(h),
               h.get(g, 'nodes').keys.n == 0, h.get(g, 'nodes').wf())
    L.possible()
    L.oblige('the model', [('what is needed exists', A([x], z3.Implies(R[x], h.get(x, 'alive')), R[x]))]
             + graphc.model(h, g))


def start(ctx):
    """a new group; of what exists nothing but its own expressions matters"""
    L = Lemma(ctx, 'start')
    h, k = L.s.heap, consc.GROUP
    g = fresh(Obj, 'group')
    L.s.assume(g != none, z3.Not(mine(g)), A([x], h.get(x, 'alive') == (x == g), h.get(x, 'alive')),
               A([x], z3.And(h.get(x, 'dependencies').n == 0, h.get(x, 'dependents').n == 0), h.get(x, 'dependencies').n,
                 h.get(x, 'dependents').n), h.get(g, 'setups') == 0, *graphc.wf_all(h), *graphc.wf_all(h, 'dependents'))
    pre = State({'self': g}, h.copy(), [], {})
    L.oblige('it may be made', k.requires(pre))
    for f in k.modifies:
        if f in FIELDS:
            h.havoc(f)
    L.s.assume(*graphc.wf_all(h), *graphc.wf_all(h, 'dependents'))
    L.assume(k.ensures(State({'self': g}, h, [], {}), pre, none))
    # the root is no expression of the user's
    L.s.assume(z3.Not(mine(root(h, g))), *graphc.wf_all(h, '_registered_before_setup'))
    L.possible()
    L.oblige('at the start', inv(h, g, lambda z: z3.IntVal(0), 1) + [('nothing is recorded', h.get(g, 'nodes').keys.n == 0)])


def processed(ctx):
    """what the construction of the components leaves"""
    L = Lemma(ctx, 'processed', leafc.AX)
    h, g = L.s.heap, fresh(Obj, 'group')
    L.assume(inv(h, g, RK, B))
    L.s.assume(B > 0, *graphc.wf_all(h), *graphc.wf_all(h, 'dependents'))
    L.assume(graphc.model(h, g))
    k = graphc.T['_sort_expressions_and_build_components']
    old = h.copy()
    graphc.S0.clear()
    graphc.S0.update(setup=old, full=Heap(FIELDS))
    for f in k.modifies:
        h.havoc(f)
    L.s.assume(*graphc.wf_all(h), *graphc.wf_all(h, 'dependents'))
    pre = State({'self': g}, old, [], {})
    post = State({'self': g}, h, [], {'added': VL.new(Obj), 'dvs': VL.new(Obj)})
    L.assume(k.ensures(post, pre, none))
    L.s.assume(h.frame(old, 'defined'))
    L.possible()
    L.oblige('afterwards', inv(h, g, lambda z: z3.If(Indep(z), -B, RK(z)), B + 1, True))


def restart(ctx):
    """the next setup starts like the first"""
    L = Lemma(ctx, 'restart', leafc.AX)
    h, g = L.s.heap, fresh(Obj, 'group')
    k = graphc.T['_restart']
    L.s.assume(B > 0, *graphc.wf_all(h), *graphc.wf_all(h, 'dependents'))
    L.assume(inv(h, g, RK, B, True))
    L.assume([p for p in k.requires(State({'self': g}, h, [], {}))])
    L.s.assume(z3.Not(h.get(g, '_static_mode')),
               # not a group that create_group has set up
               z3.Or(h.get(g, '_restarts'), h.get(g, 'nodes').keys.n == 0))
    old = h.copy()
    for f in k.modifies:
        h.havoc(f)
    L.s.assume(*graphc.wf_all(h), *graphc.wf_all(h, 'dependents'))
    L.assume(k.ensures(State({'self': g}, h, [], {}), State({'self': g}, old, [], {}), none))
    r = root(h, g)
    # the new root is a Variable of its own (consc)
    L.s.assume(h.get(r, 'alive'), z3.Not(Indep(r)), z3.Not(Subsystem(r)), z3.Not(h.get(none, 'alive')))
    L.possible()
    was = root(old, g)
    L.oblige('afterwards', inv(h, g, lambda z: z3.If(z == was, B, RK(z)), B + 1))


CALLS = {
    'declare_input': (T['declare_input'], OWN, [], lambda s, p, r: (at(r, B), B + 1)),
    'create_output': (T['create_output'], OWN, [], lambda s, p, r: (at(r, 0), B + 1)),
    'create_implicit_output': (T['create_implicit_output'], OWN, [], lambda s, p, r: (at(r, 0), B + 1)),
    'create_indep_var': (T['create_indep_var'], OWN, [], lambda s, p, r: (at(r, -B), B + 1)),
    'add_subsystem': (T['add_subsystem'], OWN, [], lambda s, p, r: (at(last(s.heap, s['self']), B), B + 1)),
    'create_group': (GROUP_AT_YIELD, OWN, [], lambda s, p, r: (lambda z: z3.If(z3.Or(z == r, z == root(s.heap, r)), 0, at(last(s.heap, s['self']), B)(z)), B + 1)),
    'register_output': (T['register_output'], OWN, ['expr'], lambda s, p, r: (RK, B)),
    'operation': (OP, lambda s: s['group'], [], lambda s, p, r: (at(r, B), B + 1)),
    'define': (groupc.CUT, lambda s: s['group'], ['self', 'expr'], below, ['M'], [OUTPUT]),
    'define_residual': (T['define_residual'], OF, ['self', 'residual_expr'], residual, ['M'], [OUTPUT]),
    'define_residual_bracketed': (T['define_residual_bracketed'], OF, ['self', 'residual_expr'], residual, ['M'], [OUTPUT]),
    'assign': (ASSIGN, lambda s: s['group'], ['self', 'expr'], reaches, (), [
        OUTPUT, lambda s: z3.Not(reach(s.heap.set('dependencies'), s['expr'], s['self']))]),
}


def lemma(f, *a):
    def run(ctx):
        ctx.backend = 'wp + z3'
        f(ctx, *a)
    return run


def cases():
    for n, c in CALLS.items():
        yield 'history:%s' % n, lemma(step, *c)
    for f in (start, model, processed, restart):
        yield 'history:%s' % f.__name__, lemma(f)
