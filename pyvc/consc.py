"""The constructors that the contracts of Group call (C24, C23, C14): what `new`
and the fields of groupc.constructor state, proved from Variable.__init__ and the
initialize of each class (groupc states it at the call, here it is discharged)."""
import ast
import glob
import os

import z3

from . import wp, groupc, utilc
from .wp import Obj, Name, Int, Bool, none, Contract, isa, Unsup, fresh, VEmpty
from .graphc import A, run_contract, distinct_all
from .groupc import NODE, KINDS, new, x, thunk

OPAQUE = ('_tgt_indices', 'checked_indices', 'overlapping_indices', '_tgt_vals')
FIELDS = {k: t for k, t in groupc.FIELDS.items() if not k.startswith('k:')}
FIELDS.update(utilc.VFIELDS)
FIELDS.update({k: ('s', Obj) for k in OPAQUE})
shapeof = z3.Function('shape of', Obj, Obj, Obj)
valof = z3.Function('value of', Obj, Obj, Obj)
OUT = ('defined', 'indexed_assignment')

# class -> (file, parameters, ancestor among KINDS, fields set, which of OUT it sets)
C = {}


def cons(cls, params, kind, fields=(), out=(), extra=()):
    C[cls] = ('core/%s.py' % dict(ExplicitOutput='explicit_output', ImplicitOutput='implicit_output').get(cls, cls.lower()),
              params, kind, fields, out, extra)


cons('Variable', {}, None)
SV = {'shape': Obj, 'val': Obj}
cons('Input', {'name': Name, **SV}, 'Input', [('name', 'name')])
cons('Indep', {'name': Name, **SV, 'dv': Bool}, 'Indep', [('name', 'name'), ('dv', 'dv')], extra=('build', ))
cons('ExplicitOutput', {'name': Name, **SV}, 'Output', [('name', 'name')], OUT, OPAQUE)
cons('ImplicitOutput', {'group': Obj, 'name': Name, **SV}, 'Output', [('name', 'name'), ('group', 'group')], ('defined', ))
cons('Subsystem', {'name': Name, 'subsys': Obj, 'promotes': Obj, 'promotes_inputs': Obj, 'promotes_outputs': Obj,
                   'min_procs': Int, 'max_procs': Obj, 'proc_weight': Obj}, 'Subsystem',
     [(f, f) for f in ('name', 'promotes', 'promotes_inputs', 'promotes_outputs')], extra=('build', ))


def shape_val(V, s, x_):
    """get_shape_val: a shape and a value that depend on the arguments alone (or
    an error, which the caller gets)"""
    if len(x_.args) != 2 or x_.keywords:
        raise Unsup('arguments of get_shape_val')
    s, (a, b) = V.args(s, x_)
    return [(s, (shapeof(a, b), valof(a, b)))]


def empty_set(V, s, x_):
    if x_.args or x_.keywords:
        raise Unsup('arguments of %s' % ast.unparse(x_.func))
    return [(s, fresh(Obj, 'empty'))]


def closure(V, s, x_):
    """lambda: name -- a function returning the value, when the name is bound once"""
    v = fresh(Obj, 'lambda')
    s.assume(v != none)
    fn = wp.find(V.c.file, V.c.qual)
    b = x_.body
    if isinstance(b, ast.Name) and not x_.args.args and b.id in s.loc and not any(
            isinstance(q, ast.Name) and q.id == b.id and not isinstance(q.ctx, ast.Load) for q in ast.walk(fn)):
        w = s.loc[b.id]
        if z3.is_expr(w) and w.sort() == Obj:
            s.assume(v == thunk(w))
    return [(s, v)]


def settled(s, o, cls):
    """what initialize of the class does"""
    _, params, kind, fields, out, extra = C[cls]
    a, h = s['self'], s.heap
    written = [p for p, _ in fields] + list(out) + list(extra) + (['shape', 'val'] if 'shape' in params else [])
    f = [('field ' + p, h.get(a, p) == o[q]) for p, q in fields] + [(p, z3.Not(h.get(a, p))) for p in out]
    if 'shape' in params:
        f += [('shape', h.get(a, 'shape') == shapeof(o['shape'], o['val'])), ('val', h.get(a, 'val') == valof(o['shape'], o['val']))]
    if cls == 'Subsystem':
        f.append(('build returns the subsystem', h.get(a, 'build') == thunk(o['subsys'])))
    if cls == 'Indep':
        f.append(('is built', h.get(a, 'build') != none))
    return f + [('frame ' + k, h.frame(o.heap, k, [a])) for k in written]


def written(cls):
    _, params, kind, fields, out, extra = C[cls]
    return [p for p, _ in fields] + list(out) + list(extra) + (['shape', 'val'] if 'shape' in params else [])


INIT = {'Variable': Contract(
    'core/variable.py', 'Variable.initialize', {'self': Obj, 'kwargs': ('dict', Name, Obj)},
    requires=lambda s: [('no arguments', s['kwargs'].keys.n == 0)], never=(0, ))}
for _c, (_f, _p, *_r) in list(C.items())[1:]:
    INIT[_c] = Contract(_f, _c + '.initialize', {'self': Obj, **_p}, modifies=written(_c),
                        requires=lambda s: [('self', s['self'] != none)],
                        hooks={'get_shape_val': ([], shape_val, None), 'set': ([], empty_set, None), 'dict': ([], empty_set, None),
                               'lambda': closure},
                        ensures=lambda s, o, r, c=_c: settled(s, o, c))


def kinds(cls, src):
    """the ancestors of the class among KINDS, from the source"""
    bases = {}
    for f in glob.glob(os.path.join(wp.REPO, 'omtools', 'core', '*.py')):
        with open(f) as g:
            t = ast.parse(g.read())
        for n in t.body:
            if isinstance(n, ast.ClassDef):
                bases[n.name] = [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
                                 for b in n.bases]
                if n.name in C and n.name != 'Variable' and (n.keywords or n.decorator_list or any(isinstance(m, ast.FunctionDef) and m.name in (
                        '__new__', '__init__', '__setattr__', '__getattribute__', '__init_subclass__')
                        for m in n.body)):
                    raise Unsup('%s has a constructor of its own' % n.name)
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        if c in bases and c not in out:
            out.append(c)
            todo += bases[c]
    return out


def make(cls):
    """Variable.__init__ of a new object of the class, which is there from the
    moment it is initialized"""
    file, params, kind, fields, out, extra = C[cls]

    def init(V, s, x_):
        ok = (len(x_.args) == 1 and isinstance(x_.args[0], ast.Starred) and len(x_.keywords) == 1 and x_.keywords[0].arg is None
              and ast.unparse(x_.args[0].value) == 'args' and ast.unparse(x_.keywords[0].value) == 'kwargs')
        if not ok:
            raise Unsup('initialize does not get the arguments of the constructor')
        a = s['self']
        s.heap.put(a, 'alive', True)
        V.namefield(s, 'alive')
        if cls == 'Variable':
            return V.call_values(s, INIT[cls], [a, wp.VD(wp.VL.empty(Name), fresh(z3.ArraySort(Name, Obj), 'm'))])
        return V.call_values(s, INIT[cls], [a] + [s[p] for p in params])

    def ensures(s, o, r):
        a = s['self']
        f = new(s, o, a, kind, out) + [(p, s.heap.get(a, p) == o[q]) for p, q in fields]
        if cls == 'Variable':
            f.append(('not built', s.heap.get(a, 'build') == none))
        if cls == 'Subsystem':
            f.append(('subsys', s.heap.get(a, 'build') == thunk(o['subsys'])))
        f.append(('identifier of its own', A([x], z3.Implies(o.heap.get(x, 'alive'), s.heap.get(x, '_id') != s.heap.get(a, '_id')),
                                             s.heap.get(x, '_id'))))
        return f

    return Contract('core/variable.py', 'Variable.__init__', {'self': Obj, **params}, modifies=list(FIELDS),
                    requires=lambda s: utilc.numbered(s.heap, utilc.count(s.heap)) + [
                        ('new', z3.And(s['self'] != none, z3.Not(s.heap.get(s['self'], 'alive')))),
                        ('count', z3.And(utilc.count(s.heap) >= -1, utilc.count(s.heap) + 1 < utilc.LIMIT)),
                        ('class', z3.And(*[isa(k)(s['self']) == z3.BoolVal(k == kind) for k in KINDS]))],
                    hooks={('self', 'initialize'): ([], init, None), ('np', 'array'): ([], utilc.box, None)},
                    ensures=ensures)


AX = [utilc.INJ, A([x], thunk(x) != none, thunk(x))]
T = {'Variable': Contract('core/variable.py', 'Variable', {}, returns=Obj, modifies=NODE,
                          ensures=lambda s, o, r: new(s, o, r, None) + [('not built', s.heap.get(r, 'build') == none)])}
for _c in ('Input', 'Indep', 'ExplicitOutput', 'ImplicitOutput', 'Subsystem'):
    T[_c] = groupc.T[_c]


def super_init(V, s, x_):
    """OpenMDAO's Group.__init__: sets none of the fields of omtools (assumed)"""
    if [ast.unparse(q) for q in x_.args] or len(x_.keywords) != 1 or x_.keywords[0].arg is not None:
        raise Unsup('arguments of super().__init__')
    return [(s, none)]


GF = dict(groupc.FIELDS)
GF.update({'nodes': ('dict', Name, Obj), 'input_vals': ('dict', Name, Obj), 'sorted_builders': ('s', Obj),
           'reverse_branch_sorting': ('s', Bool)})
GROUP = Contract(
    'core/group.py', 'Group.__init__', {'self': Obj}, modifies=list(GF),
    requires=lambda s: [('new', z3.And(s['self'] != none, s.heap.get(s['self'], 'alive'), s.heap.get(s['self'], 'setups') == 0))],
    hooks={('*', '__init__'): ([], super_init, None)},
    ensures=lambda s, o, r: [
        ('its root', (lambda q: z3.And(q != none, q != s['self'], z3.Not(o.heap.get(q, 'alive')), s.heap.get(q, 'alive'),
                                       s.heap.get(q, 'dependencies').n == 0))(groupc.root(s.heap, s['self']))),
        ('never set up', (lambda h, a: z3.And(
            z3.Not(h.get(a, '_restarts')), h.get(a, 'nodes').keys.n == 0, h.get(a, '_registered_before_setup').n == 0,
            h.get(groupc.root(h, a), 'times_visited') == 0, h.get(groupc.root(h, a), 'dependents').n == 0))(s.heap, s['self'])),
        ('nothing before', s.heap.get(s['self'], '_subsystem_before_setup') == none),
        ('no brackets', s.heap.get(s['self'], 'brackets_map') == none),
        ('not visited', z3.And(s.heap.get(groupc.root(s.heap, s['self']), 'times_visited') == 0, *[z3.Not(isa(q)(groupc.root(s.heap, s['self']))) for q in KINDS])),
        ('no subsystem', groupc.last(s.heap, s['self']) == none),
        ('nothing set up', s.heap.get(s['self'], 'setups') == 0)] + [
            ('frame ' + f, s.heap.frame(o.heap, f, [groupc.root(s.heap, s['self'])])) for f in NODE] + [
                ('frame ' + f, s.heap.frame(o.heap, f, [s['self']])) for f in (groupc.LAST, '_root', 'setups')])
MAKE = {c: make(c) for c in C}


def classes(ctx, cls):
    k = kinds(cls, None)
    ctx.check('%s is a Variable' % cls, 'Variable' in k, str(k))
    ctx.check('kind of %s' % cls, [q for q in KINDS if q in k] == ([C[cls][2]] if C[cls][2] else []), str(k))


def case(cls):
    def run(ctx):
        classes(ctx, cls)
        run_contract(ctx, MAKE[cls], utilc.G, FIELDS, AX)
    return run


def cases():
    for c in C:
        yield INIT[c].name, lambda ctx, c=c: run_contract(ctx, INIT[c], {}, FIELDS, AX)
        yield 'core/variable.py:Variable.__init__ (%s)' % c, case(c)
    yield GROUP.name, lambda ctx: run_contract(ctx, GROUP, T, GF, AX)


X = {}
for _c in C:
    X['init' + _c], X['make' + _c] = INIT[_c], MAKE[_c]
OFIELDS, OAXIOMS = FIELDS, AX
