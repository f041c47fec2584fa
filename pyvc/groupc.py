"""Contracts of the methods of Group and of the outputs (C23, C24, C14, C12)."""
import ast

import z3

from .wp import (VL, VD, Obj, Name, Int, Bool, none, Contract, isa, VC, Unsup, fresh, lit, cat, tupleof)
from .graphc import A, MP, E, distinct_all, reach, run_contract, T as GT, FIELDS as GF, WP, USER
from .ops import reg
from . import leafc

FIELDS = dict(GF)
FIELDS.update({
    'alive': ('s', Bool), 'group': ('s', Obj), 'res_out_map': ('dict', Name, Name), 'out_vals': ('dict', Name, Obj),
    'brackets_map': ('s', Obj), 'k:0': ('dict', Name, Obj), 'k:1': ('dict', Name, Obj), 'is_residual': ('s', Bool),
    'indexed_assignment': ('s', Bool), 'setups': ('s', Int)})
x, y = z3.Const('x', Obj), z3.Const('y', Obj)
key = z3.Const('key', Name)
T = {k: GT[k] for k in ('add_dependency_node', 'remove_dependency_node', 'get_dependency_index', '_dedup_dependencies')}
MINE = []
NODE = ('dependencies', 'dependents', 'times_visited', '_id', 'name', 'build', '_dag_cost', 'defined', 'promotes',
        'promotes_inputs', 'promotes_outputs', 'dv', 'shape', 'val', 'alive', 'group', 'is_residual', 'indexed_assignment')
LAST = '_most_recently_added_subsystem'
KINDS = ('Input', 'Indep', 'Output', 'Subsystem')


thunk = z3.Function('function returning', Obj, Obj)      # what `lambda: v` makes


def new(s, o, r, kind=None, out=()):
    """r is an expression made by the call; nothing else changes by making it"""
    h = s.heap
    out = [('new', z3.And(r != none, z3.Not(o.heap.get(r, 'alive')), h.get(r, 'alive'))),
           ('no dependencies yet', z3.And(h.get(r, 'dependencies').n == 0,
                                          A([x], z3.Not(E(h, r, x)), E(h, r, x)))),
           ('not visited', z3.And(h.get(r, 'times_visited') == 0, h.get(r, 'dependents').n == 0)),
           ('not defined', z3.And(True, *[z3.Not(h.get(r, f)) for f in out]))]
    out += [('kind', z3.And(*[isa(k)(r) == z3.BoolVal(k == kind) for k in KINDS]))]
    return out + [('frame ' + f, h.frame(o.heap, f, [r])) for f in NODE]


def constructor(cls, params, kind, fields=(), out=()):
    """discharged in consc.py"""
    T[cls] = Contract('core/%s.py' % cls.lower(), cls, params, returns=Obj, modifies=NODE,
                      ensures=lambda s, o, r: new(s, o, r, kind, out) + [
                          (f, s.heap.get(r, f) == s[p]) for f, p in fields] + built(s, r, cls))


def built(s, r, cls):
    return [('build returns the subsystem', s.heap.get(r, 'build') == thunk(s['subsys']))] if cls == 'Subsystem' else []


constructor('Input', {'name': Name, 'shape': Obj, 'val': Obj}, 'Input', [('name', 'name')])
constructor('Indep', {'name': Name, 'shape': Obj, 'val': Obj, 'dv': Bool}, 'Indep', [('name', 'name'), ('dv', 'dv')])
constructor('ExplicitOutput', {'name': Name, 'shape': Obj, 'val': Obj}, 'Output', [('name', 'name')],
            ('defined', 'indexed_assignment'))
constructor('ImplicitOutput', {'group': Obj, 'name': Name, 'shape': Obj, 'val': Obj}, 'Output',
            [('name', 'name'), ('group', 'group')], ('defined', ))
constructor('Subsystem', {'name': Name, 'subsys': Obj, 'promotes': Obj, 'promotes_inputs': Obj, 'promotes_outputs': Obj},
            'Subsystem', [(f, f) for f in ('name', 'promotes', 'promotes_inputs', 'promotes_outputs')])


def root(h, g):
    return h.get(g, '_root')


def last(h, g):
    return h.get(g, LAST)


def registered(h, g, a):
    return E(h, root(h, g), a)


def group_ok(h, g):
    """a group's root and what is registered exist; the last subsystem is registered"""
    r = root(h, g)
    return [('group', z3.And(r != none, h.get(r, 'alive'), r != last(h, g), z3.Not(h.get(none, 'alive')),
                             z3.Implies(last(h, g) != none, z3.And(h.get(last(h, g), 'alive'), registered(h, g, last(h, g)))))),
            ('each once', h.get(r, 'dependencies').distinct()),
            ('registered exist', A([x], z3.Implies(registered(h, g, x), h.get(x, 'alive')), registered(h, g, x)))]


def gc(file, qual, params, own=True, **k):
    c = Contract(file, qual, params, **k)
    T[c.qual.split('.')[-1]] = c
    if own:
        MINE.append(c.qual.split('.')[-1])


def deps_except(s, o, *but):
    return ('other dependencies', s.heap.frame(o.heap, 'dependencies', list(but)))


def adds(s, o, a, b):
    """a's dependencies are the old ones and b"""
    return A([x], E(s.heap, a, x) == z3.Or(E(o.heap, a, x), x == b), E(s.heap, a, x))


def stays(s, o):
    """nothing but dependencies changes in what exists"""
    return [('what exists stays (%s)' % f, A([x], z3.Implies(o.heap.get(x, 'alive'), s.heap.get(x, f) == o.heap.get(x, f)),
                                             s.heap.get(x, f))) for f in NODE if f not in ('dependencies', 'dependents')]


def kept(s, o, *made):
    """what is made is new and not processed; nothing else is made; dependencies are listed once"""
    h, g = s.heap, o.heap
    return [
        ('made', z3.And(True, *[z3.And(q != none, z3.Not(g.get(q, 'alive')), h.get(q, 'alive'), h.get(q, 'times_visited') == 0,
                                       h.get(q, 'dependents').n == 0) for q in made])),
        ('nothing else is made', A([x], z3.Implies(z3.And(True, *[x != q for q in made]), h.get(x, 'alive') == g.get(x, 'alive')),
                                   h.get(x, 'alive'))),
        ('nothing is processed', z3.And(*[A([x], z3.Implies(h.get(x, 'alive') == g.get(x, 'alive'), z3.And(*[
            p[x] == q[x] for p, q in zip(h.f[f], g.f[f])])), *[p[x] for p in h.f[f]]) for f in ('times_visited', 'dependents')])),
        ('dependencies are listed once', z3.Implies(distinct_all(g), distinct_all(h)))]


def kept_some(s, o, *but):
    """the same when some stand-ins are made"""
    h, g = s.heap, o.heap
    return [
        ('what exists goes on existing', A([x], z3.Implies(g.get(x, 'alive'), h.get(x, 'alive')), h.get(x, 'alive'))),
        ('what is made is not processed', A([x], z3.Implies(z3.And(h.get(x, 'alive'), z3.Not(g.get(x, 'alive')), *[x != q for q in but]), z3.And(
            x != none, h.get(x, 'times_visited') == 0, h.get(x, 'dependents').n == 0)), h.get(x, 'alive'), h.get(x, 'times_visited'))),
        ('dependencies exist', A([x, y], z3.Implies(E(h, x, y), z3.And(g.get(x, 'alive'), h.get(y, 'alive'))), E(h, x, y)))
        ] + [('tables are no expressions', z3.And(*[p[q] == r[q] for q in but for p, r in zip(h.f['dependents'], g.f['dependents'])]))
             ] * bool(but) + kept(s, o)[2:]


GRP = 'core/group.py'
SHAPE = {'shape': None}

gc(GRP, 'Group.register_output', {'self': Obj, 'name': Name, 'expr': Obj}, returns=Obj, modifies=['dependencies', 'name'],
   requires=lambda s: [('root', s['expr'] != root(s.heap, s['self']))],
   raises={'TypeError': lambda o: isa('Input')(o['expr']),
           'ValueError': lambda o: z3.And(z3.Not(isa('Input')(o['expr'])), registered(o.heap, o['self'], o['expr']))},
   exsures=lambda s, o: [('nothing changes', z3.And(s.heap.frame(o.heap, 'dependencies'), s.heap.frame(o.heap, 'name')))],
   ensures=lambda s, o, r: [
       ('returned', r == o['expr']),
       ('registered', adds(s, o, root(o.heap, o['self']), o['expr'])),
       ('named', s.heap.get(o['expr'], 'name') == o['name']),
       ('other names', s.heap.frame(o.heap, 'name', [o['expr']])),
       deps_except(s, o, root(o.heap, o['self']))] + kept(s, o))

gc(GRP, 'Group.declare_input', {'self': Obj, 'name': Name, 'shape': Obj, 'val': Obj}, returns=Obj, modifies=NODE,
   requires=lambda s: group_ok(s.heap, s['self']),
   ensures=lambda s, o, r: [
       ('an input', z3.And(isa('Input')(r), z3.Not(o.heap.get(r, 'alive')), r != none, s.heap.get(r, 'name') == o['name'])),
       ('it follows the last subsystem', A([x], E(s.heap, r, x) == z3.And(x == last(o.heap, o['self']), x != none), E(s.heap, r, x))),
       deps_except(s, o, r)] + stays(s, o) + kept(s, o, r))

gc(GRP, 'Group.create_output', {'self': Obj, 'name': Name, 'shape': Obj, 'val': Obj}, returns=Obj, modifies=NODE,
   requires=lambda s: group_ok(s.heap, s['self']),
   ensures=lambda s, o, r: [
       ('an output', z3.And(isa('Output')(r), z3.Not(o.heap.get(r, 'alive')), s.heap.get(r, 'name') == o['name'],
                            z3.Not(s.heap.get(r, 'defined')))),
       ('it has no dependencies', A([x], z3.Not(E(s.heap, r, x)), E(s.heap, r, x))),
       ('registered', adds(s, o, root(o.heap, o['self']), r)),
       deps_except(s, o, root(o.heap, o['self']), r)] + stays(s, o) + kept(s, o, r))

gc(GRP, 'Group.create_implicit_output', {'self': Obj, 'name': Name, 'shape': Obj, 'val': Obj}, returns=Obj, modifies=NODE,
   requires=lambda s: group_ok(s.heap, s['self']),
   ensures=lambda s, o, r: [
       ('an output', z3.And(isa('Output')(r), z3.Not(o.heap.get(r, 'alive')), s.heap.get(r, 'name') == o['name'],
                            s.heap.get(r, 'group') == o['self'], z3.Not(s.heap.get(r, 'defined')))),
       ('it has no dependencies', A([x], z3.Not(E(s.heap, r, x)), E(s.heap, r, x))),
       deps_except(s, o, r)] + stays(s, o) + kept(s, o, r))

gc(GRP, 'Group.create_indep_var', {'self': Obj, 'name': Name, 'shape': Obj, 'val': Obj, 'dv': Bool}, returns=Obj,
   modifies=NODE, defaults={'dv': False}, requires=lambda s: group_ok(s.heap, s['self']),
   ensures=lambda s, o, r: [
       ('an independent variable', z3.And(isa('Indep')(r), z3.Not(o.heap.get(r, 'alive')), r != none,
                                          s.heap.get(r, 'name') == o['name'], s.heap.get(r, 'dv') == o['dv'])),
       ('it has no dependencies', A([x], z3.Not(E(s.heap, r, x)), E(s.heap, r, x))),
       ('registered', adds(s, o, root(o.heap, o['self']), r)),
       ('the last subsystem follows it', z3.Implies(last(o.heap, o['self']) != none, adds(s, o, last(o.heap, o['self']), r))),
       deps_except(s, o, root(o.heap, o['self']), z3.If(last(o.heap, o['self']) == none, r, last(o.heap, o['self'])), r)] + stays(s, o) + kept(s, o, r))

gc(GRP, 'Group.add_subsystem', {'self': Obj, 'name': Name, 'subsys': Obj, 'promotes': Obj, 'promotes_inputs': Obj,
                                'promotes_outputs': Obj}, returns=Obj, modifies=NODE + (LAST, ),
   defaults={'promotes': None, 'promotes_inputs': None, 'promotes_outputs': None},
   requires=lambda s: group_ok(s.heap, s['self']) + [('group exists', s.heap.get(s['self'], 'alive'))],
   loops={0: lambda s, k, q, e, o: [
       ('so far', A([x], E(s.heap, last(s.heap, o['self']), x) == z3.And(
           E(e.heap, root(o.heap, o['self']), x), e.heap.get(root(o.heap, o['self']), 'dependencies').pos[x] < k),
           E(s.heap, last(s.heap, o['self']), x))),
       ('frame', s.heap.frame(e.heap, 'dependencies', [last(e.heap, o['self'])])),
       ('each once', s.heap.get(last(e.heap, o['self']), 'dependencies').distinct())]},
   ensures=lambda s, o, r: [
       ('returned', r == o['subsys']),
       ('a new subsystem', (lambda m: z3.And(
           m != none, isa('Subsystem')(m), z3.Not(o.heap.get(m, 'alive')), s.heap.get(m, 'name') == o['name'],
           s.heap.get(m, 'build') == thunk(o['subsys']), *[s.heap.get(m, f) == o[f] for f in ('promotes', 'promotes_inputs', 'promotes_outputs')]))(last(s.heap, o['self']))),
       ('it follows everything registered before', A([x], E(s.heap, last(s.heap, o['self']), x) == registered(
           o.heap, o['self'], x), E(s.heap, last(s.heap, o['self']), x), registered(o.heap, o['self'], x))),
       ('registered', adds(s, o, root(o.heap, o['self']), last(s.heap, o['self']))),
       ('other groups', s.heap.frame(o.heap, LAST, [o['self']])),
       deps_except(s, o, root(o.heap, o['self']), last(s.heap, o['self']))] + stays(s, o) + kept(s, o, last(s.heap, o['self'])))

T['Group'] = Contract(GRP, 'Group', {}, returns=Obj, modifies=NODE + (LAST, '_root', 'setups'),
                      ensures=lambda s, o, r: [
    ('new', z3.And(r != none, z3.Not(o.heap.get(r, 'alive')), s.heap.get(r, 'alive'), s.heap.get(r, 'setups') == 0)),
    ('its root', (lambda h, q: z3.And(
        q != none, q != r, z3.Not(o.heap.get(q, 'alive')), h.get(q, 'alive'), h.get(q, 'times_visited') == 0,
        h.get(q, 'dependencies').n == 0, h.get(q, 'dependents').n == 0))(s.heap, root(s.heap, r)))] + [
        ('frame ' + f, s.heap.frame(o.heap, f, [root(s.heap, r)] + [r] * (f == 'alive'))) for f in NODE] + [
        ('frame ' + f, s.heap.frame(o.heap, f, [r])) for f in (LAST, '_root', 'setups')])
T['setup'] = Contract(GRP, 'Group.setup', {'self': Obj}, modifies=NODE + ('setups', ), ensures=lambda s, o, r: [
    ('setups', s.heap.get(o['self'], 'setups') == o.heap.get(o['self'], 'setups') + 1),
    ('frame', s.heap.frame(o.heap, 'setups', [o['self']]))])


def in_context(s, o, v):
    """what holds inside `with g.create_group(name) as v`"""
    h, m = s.heap, last(s.heap, o['self'])
    return [
        ('a new group', z3.And(v != none, z3.Not(o.heap.get(v, 'alive')), h.get(v, 'alive'), h.get(v, 'setups') == 0)),
        ('a new subsystem', z3.And(
            m != none, isa('Subsystem')(m), z3.Not(o.heap.get(m, 'alive')), h.get(m, 'name') == o['name'],
            h.get(m, 'build') == thunk(v), h.get(m, 'promotes') == z3.Const("list ['*']", Obj),
            h.get(m, 'promotes_inputs') == none, h.get(m, 'promotes_outputs') == none)),
        ('it follows everything registered before', A([x], E(h, m, x) == registered(o.heap, o['self'], x), E(h, m, x),
                                                      registered(o.heap, o['self'], x))),
        ('registered', adds(s, o, root(o.heap, o['self']), m)),
        ('other groups', A([x], z3.Implies(o.heap.get(x, 'alive'), z3.And(
            h.get(x, 'setups') == o.heap.get(x, 'setups'), root(h, x) == root(o.heap, x),
            z3.Or(x == o['self'], last(h, x) == last(o.heap, x)))), h.get(x, 'setups'), root(h, x), last(h, x))),
        ('other dependencies', A([x], z3.Implies(
            z3.And(o.heap.get(x, 'alive'), x != root(o.heap, o['self'])),
            z3.And(*[a[x] == b[x] for a, b in zip(h.f['dependencies'], o.heap.f['dependencies'])])), h.f['dependencies'][0][x])),
        ('the new group', z3.And(root(h, v) != m, root(h, v) != v, m != v, *[z3.And(
            q != none, z3.Not(o.heap.get(q, 'alive')), h.get(q, 'alive')) for q in (m, v, root(h, v))])),
        ('nothing else is made', A([x], z3.Implies(z3.And(x != m, x != v, x != root(h, v)), h.get(x, 'alive') == o.heap.get(x, 'alive')),
                                   h.get(x, 'alive'))),
        ('the new subsystem is not processed', z3.And(h.get(m, 'times_visited') == 0, h.get(m, 'dependents').n == 0)),
        ('nothing else changes', z3.And(*[h.frame(o.heap, f, [m, root(h, v)]) for f in ('times_visited', 'dependents')], *[
            h.frame(o.heap, 'dependencies', [m, root(h, v), root(h, o['self'])])])),
        ('the new root', z3.And(h.get(root(h, v), 'dependencies').n == 0, h.get(root(h, v), 'dependents').n == 0)),
        ('bracket tables', h.frame(o.heap, 'brackets_map')),
        ('before the setup', z3.And(*[h.frame(o.heap, f) for f in ('_restarts', '_registered_before_setup', '_subsystem_before_setup')])),
        ('dependencies are listed once', z3.Implies(distinct_all(o.heap), distinct_all(h)))]


gc(GRP, 'Group.create_group', {'self': Obj, 'name': Name}, modifies=list(FIELDS),
   requires=lambda s: group_ok(s.heap, s['self']) + [('group exists', s.heap.get(s['self'], 'alive'))],
   ghost={'g': lambda: z3.Const('the group', Obj), 'n': lambda: z3.Const('set up before', z3.ArraySort(Obj, Int))},
   at_yield=(in_context, lambda s, y, v: [('which', z3.And(s.ghost['g'] == v, s.heap.f['setups'][0] == s.ghost['n']))]),
   ensures=lambda s, o, r: [('no other group is set up', A([x], z3.Implies(
       x != s.ghost['g'], s.heap.get(x, 'setups') == s.ghost['n'][x]), s.heap.get(x, 'setups')))])

# ---------------------------------------------------------------- outputs
EO, IO = 'core/explicit_output.py', 'core/implicit_output.py'

# proved in leafc.py, here without the ghost state
T['replace_output_leaf_nodes'] = Contract(
    'utils/replace_output_leaf_nodes.py', 'replace_output_leaf_nodes', {'root': Obj, 'node': Obj, 'leaf': Obj},
    modifies=['dependencies'], requires=leafc.R.requires,
    ensures=lambda s, o, r: leafc.replaced(s.heap, o.heap, o['root'], o['node'], o['leaf'], ghosts=False) + leafc.cycle(s, o))


def dependencies_ok(h):
    """dependencies are among what exists; each is listed once"""
    return [('dependencies exist', A([x, y], z3.Implies(E(h, x, y), z3.And(h.get(x, 'alive'), h.get(y, 'alive'))), E(h, x, y))),
            ('each dependency once', distinct_all(h))]


def without_self(s, *edge):
    """M: the edges that do not lead to the output; without them there are no cycles"""
    h, me = s.heap, s['self']
    e = [z3.And(x == edge[0], y == edge[1])] if edge else []
    return [('M', A([x, y], leafc.M[x][y] == z3.And(z3.Or(E(h, x, y), *e), y != me), leafc.M[x][y], E(h, x, y))),
            ('no other cycles', leafc.acyclic())]


shape_differs = lambda o: tupleof(o.heap.get(o['expr'], 'shape')) != tupleof(o.heap.get(o['self'], 'shape'))

gc(EO, 'ExplicitOutput.define', {'self': Obj, 'expr': Obj}, modifies=NODE,
   requires=lambda s: [('exists', z3.And(s.heap.get(s['self'], 'alive'), s.heap.get(s['expr'], 'alive')))] + dependencies_ok(s.heap),
   facts=lambda s: without_self(s, s['self'], s['expr']),
   raises={'ValueError': lambda o: z3.Or(o['expr'] == o['self'], o.heap.get(o['self'], 'defined'), shape_differs(o))},
   exsures=lambda s, o: [('nothing changes', z3.And(*[s.heap.frame(o.heap, f) for f in NODE]))],
   ensures=lambda s, o, r: [
       ('defined', s.heap.get(o['self'], 'defined')),
       ('not by indices', s.heap.get(o['self'], 'indexed_assignment') == o.heap.get(o['self'], 'indexed_assignment')),
       ('computed', s.heap.get(o['self'], 'build') != none),
       ('other outputs', z3.And(*[A([x], z3.Implies(z3.And(x != o['self'], o.heap.get(x, 'alive')), s.heap.get(x, f) == o.heap.get(x, f)),
                                    s.heap.get(x, f)) for f in ('defined', 'indexed_assignment', 'build', 'name', '_id')]))])


def no_way_back(s, o, r):
    """below the output every use of it is a new input of its name; other dependencies stay"""
    h, g, me = s.heap, o.heap, o['self']
    below = lambda a: reach(leafc.M, me, a)
    stand_in = lambda a: z3.And(isa('Input')(a), z3.Not(g.get(a, 'alive')), h.get(a, 'name') == g.get(me, 'name'),
                                h.get(a, 'dependencies').n == 0)
    was = lambda a, b: z3.Or(E(g, a, b), z3.And(a == me, b == o['expr']))
    return [
        ('the definition', E(h, me, o['expr'])),
        ('nothing below depends on it', A([x], z3.Implies(below(x), z3.Not(E(h, x, me))), below(x))),
        ('below are its dependencies and its stand-in', A([x, y], z3.Implies(
            z3.And(below(x), E(h, x, y)), z3.Or(below(y), stand_in(y))), MP(below(x), E(h, x, y)))),
        ('the stand-in takes its place', A([x], z3.Implies(z3.And(below(x), was(x, me)), z3.Exists(
            [y], z3.And(E(h, x, y), stand_in(y)), patterns=[E(h, x, y)])), below(x))),
        ('other dependencies are kept', A([x, y], z3.Implies(z3.And(was(x, y), y != me), E(h, x, y)), E(g, x, y), E(h, x, y))),
        ('no other dependency', A([x, y], z3.Implies(E(h, x, y), z3.Or(was(x, y), z3.And(stand_in(y), was(x, me), below(x)))), E(h, x, y)))
        ] + kept_some(s, o)


CUT = Contract(EO, 'ExplicitOutput.define', {'self': Obj, 'expr': Obj}, modifies=NODE, raises={'ValueError': lambda o: z3.BoolVal(True)},
               may_raise=True, requires=T['define'].requires, facts=T['define'].facts, ensures=no_way_back)


def residual(bracketed):
    def ensures(s, o, r):
        g, n = o.heap.get(o['self'], 'group'), o.heap.get(o['self'], 'name')
        res = o['residual_expr']
        m = s.heap.get(g, 'res_out_map')
        m0 = o.heap.get(g, 'res_out_map')
        rn = o.heap.get(res, 'name')
        out = [
            ('defined', s.heap.get(o['self'], 'defined')),
            ('registered', E(s.heap, root(o.heap, g), res)),
            ('name kept', s.heap.get(res, 'name') == rn),
            ('paired with its own output', z3.And(m.keys.st[rn], m.m[rn] == n)),
            ('other pairs', A([key], z3.Implies(z3.And(m0.keys.st[key], key != rn), z3.And(m.keys.st[key], m.m[key] == m0.m[key])),
                              m0.keys.st[key])),
            ('no other pair', A([key], z3.Implies(m.keys.st[key], z3.Or(m0.keys.st[key], key == rn)), m.keys.st[key])),
            ('start value', (lambda v: z3.And(v.keys.st[n], v.m[n] == o.heap.get(o['self'], 'val')))(s.heap.get(g, 'out_vals'))),
            ('other outputs', A([x], z3.Implies(z3.And(x != o['self'], o.heap.get(x, 'alive')),
                                                s.heap.get(x, 'defined') == o.heap.get(x, 'defined')), s.heap.get(x, 'defined'))),
            ('no other dependency', A([x, y], z3.Implies(E(s.heap, x, y), z3.Or(
                E(o.heap, x, y), z3.And(x == root(o.heap, g), y == res), z3.And(
                    z3.Not(o.heap.get(y, 'alive')), isa('Input')(y), E(o.heap, x, o['self'])))), E(s.heap, x, y))),
            ('dependencies of the root', A([x], z3.Implies(E(o.heap, root(o.heap, g), x), E(s.heap, root(o.heap, g), x)),
                                           E(o.heap, root(o.heap, g), x)))] + kept_some(s, o, *[s.heap.get(g, 'brackets_map')] * bracketed)
        if bracketed:
            b = s.heap.get(g, 'brackets_map')
            b0 = o.heap.get(g, 'brackets_map')
            out.append(('bracket tables', z3.And(b != none, s.heap.get(b, 'alive'), z3.Implies(b0 != none, b == b0))))
            for k, p in (('k:0', 'x1'), ('k:1', 'x2')):
                d = s.heap.get(b, k)
                d0 = o.heap.get(b0, k)
                out += [('bracket ' + p, z3.And(d.keys.st[n], d.m[n] == o[p])),
                        ('other brackets ' + p, z3.Implies(b0 != none, A([key], z3.Implies(
                            z3.And(d0.keys.st[key], key != n), z3.And(d.keys.st[key], d.m[key] == d0.m[key])), d0.keys.st[key])))]
        return out

    def bad(o):
        g = o.heap.get(o['self'], 'group')
        res = o['residual_expr']
        return z3.And(res != o['self'], z3.Not(o.heap.get(o['self'], 'defined')))
    return dict(
        returns=None, modifies=NODE + ('res_out_map', 'out_vals') + (('brackets_map', 'k:0', 'k:1') if bracketed else ()),
        requires=lambda s: group_ok(s.heap, s.heap.get(s['self'], 'group')) + [
            ('exists', z3.And(s.heap.get(s['self'], 'alive'), s.heap.get(s['residual_expr'], 'alive'),
                              s['residual_expr'] != root(s.heap, s.heap.get(s['self'], 'group')))),
            ('brackets', (lambda b: z3.Or(b == none, s.heap.get(b, 'alive')))(
                s.heap.get(s.heap.get(s['self'], 'group'), 'brackets_map')))] + dependencies_ok(s.heap),
        raises={'ValueError': lambda o: z3.Or(
            o['residual_expr'] == o['self'], o.heap.get(o['self'], 'defined'),
            z3.And(bad(o), z3.Not(isa('Input')(o['residual_expr'])),
                   registered(o.heap, o.heap.get(o['self'], 'group'), o['residual_expr']))),
            'TypeError': lambda o: z3.And(bad(o), isa('Input')(o['residual_expr']))},
        exsures=lambda s, o: [
            ('no pair is added', z3.And(*[s.heap.frame(o.heap, f) for f in ('res_out_map', 'out_vals')])),
            ('still undefined', A([x], z3.Implies(o.heap.get(x, 'alive'), s.heap.get(x, 'defined') == o.heap.get(x, 'defined')),
                                  s.heap.get(x, 'defined')))],
        ensures=ensures)


def ROOTS(s):
    """nothing depends on the root of the group"""
    r = root(s.heap, s.heap.get(s['self'], 'group'))
    return without_self(s) + [('root', z3.And(r != s['self'], A([x], z3.Not(E(s.heap, x, r)), E(s.heap, x, r))))]


AXIOMS = leafc.AX
for b in (False, True):
    p = {'self': Obj, 'residual_expr': Obj}
    if b:
        p.update(x1=Obj, x2=Obj)
    gc(IO, 'ImplicitOutput.define_residual' + ('_bracketed' if b else ''), p, facts=ROOTS, **residual(b))


def identity(ctx):
    """expressions are told apart by identity: no class of theirs defines == or hash"""
    from .wp import source
    for f in ('core/variable.py', 'core/output.py', 'core/explicit_output.py', 'core/implicit_output.py', 'core/input.py',
              'core/indep.py', 'core/subsystem.py'):
        t = ast.parse(source(f))
        bad = [n.name for n in ast.walk(t) if isinstance(n, ast.FunctionDef) and n.name in ('__eq__', '__hash__', '__bool__', '__len__')]
        if bad:
            ctx.open('expressions are compared by identity', '%s defines %s' % (f, bad))
        else:
            ctx.ok('expressions are compared by identity (%s)' % f)


OWNED = {'dependents': ('Variable.__init__', 'Variable.add_dependent_node', 'Group._restart'),
         'times_visited': ('Variable.__init__', 'Variable.incr_times_visited', 'Group._restart'),
         '_dag_cost': ('Variable.__init__', 'Variable.compute_dag_cost', 'Group._restart'),
         '_root': ('Group.__init__', 'Group._restart', 'ConditionalComponent.setup'),
         'nodes': ('Group.__init__', 'Group._restart', '_post_setup'),
         '_restarts': ('Group.__init__', 'Group._restart'), '_registered_before_setup': ('Group.__init__', 'Group._restart'),
         '_subsystem_before_setup': ('Group.__init__', 'Group._restart')}


NAMED = {'_count': ('Variable.__init__', ), '_id': ('Variable.__init__', 'replace_input_leaf_nodes')}


def owned(ctx, OWNED=OWNED):
    """the fields the order is computed with are written by the functions under
    contract only (so that neither the user's setup nor an expression's
    initialize changes them)"""
    import glob
    import os
    from .wp import REPO, MUT
    bad = {f: [] for f in OWNED}
    for d in ('core', 'comps', 'comps/arithmetic_comps', 'std', 'utils'):
        for file in sorted(glob.glob(os.path.join(REPO, 'omtools', d, '*.py'))):
            with open(file) as g:
                t = ast.parse(g.read())

            def go(n, qual):
                if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and len(qual) < 2 and not qual[:1] == ['_post_setup']:
                    qual = qual + [n.name]
                f = None
                if isinstance(n, ast.Attribute) and n.attr in OWNED and not isinstance(n.ctx, ast.Load):
                    f = n.attr
                if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Attribute):
                    f = n.value.attr
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and isinstance(
                        n.func.value, ast.Attribute):
                    f = n.func.value.attr
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr', 'vars', 'exec', 'eval'):
                    if '_dict__' not in ast.unparse(n) and len(n.args) > 1 and not isinstance(n.args[1], ast.Constant):
                        for q in OWNED:
                            bad[q].append('%s in %s' % (n.func.id, '.'.join(qual)))
                if f in OWNED and '.'.join(qual) not in OWNED[f]:
                    bad[f].append('.'.join(qual))
                for c in ast.iter_child_nodes(n):
                    go(c, qual)
            go(t, [])
    for f, b in bad.items():
        if b:
            ctx.open('only the functions under contract write %s' % f, 'also written by %s' % ', '.join(sorted(set(b))))
        else:
            ctx.ok('only the functions under contract write %s' % f)


def case(n):
    return T[n].name, lambda ctx: run_contract(ctx, T[n], T, FIELDS, AXIOMS if n.startswith('define') else [])


@reg('C24')
def c24(tier):
    from . import graphc
    for n in ('declare_input', 'create_indep_var', 'add_subsystem', 'create_group', 'register_output', 'create_output'):
        yield case(n)
    for n in ('_sort_expressions_and_build_components', 'topological_sort', 'register_nodes', 'add_fwd_edges', 'add_dependency_node'):
        yield GT[n].name, lambda ctx, n=n: graphc.run(ctx, n)
    yield 'core:identity', identity
    from . import consc
    yield from consc.cases()


@reg('C23')
def c23(tier):
    from . import graphc
    for n in ('register_output', 'define', 'define_residual', 'define_residual_bracketed', 'create_output', 'create_implicit_output'):
        yield case(n)
    n = '_sort_expressions_and_build_components'
    yield GT[n].name, lambda ctx: graphc.run(ctx, n)
    yield 'core:identity', identity


@reg('C18')
def c18(tier):
    for n in ('get_dependency_index', 'remove_dependency_by_index', '_dedup_dependencies', 'remove_dependency_node', 'add_dependency_node',
              'replace_output_leaf_nodes'):
        yield leafc.T[n].name, lambda ctx, n=n: leafc.run(ctx, n)
    yield CUT.name, lambda ctx: run_contract(ctx, CUT, T, FIELDS, AXIOMS)


@reg('C17')
def c17(tier):
    for n in ('collect_input_exprs', '_collect_implicit_outputs', '_remove_nonresiduals'):
        yield leafc.X[n].name, lambda ctx, n=n: leafc.xrun(ctx, n)


for _c in (c23, c24):
    _c.info = {'assumptions': WP + USER}
for _c in (c17, c18):
    _c.info = {'assumptions': WP + ['fewer than 63**4 expressions exist (C14)']}
