"""Contracts of the utilities: options dictionaries (C19), names (C14)."""
import z3

from . import wp
from .wp import (VL, VD, VStr, Obj, Name, Int, Bool, none, Contract, isa, VC, Unsup, fresh, memb, less, greater,
                 isinstv, objof)
from .graphc import A, MP, run_contract
from .ops import reg

# ---------------------------------------------------------------- C19
F = 'utils/options_dictionary.py'
META = ('value', 'values', 'types', 'desc', 'upper', 'lower', 'check_valid')
OFIELDS = dict([('children', ('list', Obj)), ('_dict', ('dict', Name, Obj)), ('_read_only', ('s', Bool)), ('alive', ('s', Bool)),
                ('k:has_been_set', ('s', Bool)), ('k:allow_none', ('s', Bool))] +
               [('k:' + f, ('s', Obj)) for f in META])
UNDEF = z3.Const('_undefined', Obj)
rejects = z3.Function('rejects', Obj, Name, Obj, Bool)  # the validity check raises
x, y = z3.Const('x', Obj), z3.Const('y', Obj)
key, key2 = z3.Const('key', Name), z3.Const('key2', Name)
T = {}


def oc(qual, params, **k):
    k.setdefault('globs', {'_undefined': UNDEF})
    c = Contract(F, 'OptionsDictionary.' + qual, dict({'self': Obj}, **params), **k)
    T[qual] = c


def m(h, o, f):
    return h.get(o, 'k:' + f)


def admissible(values, types, upper, lower, check, allow, name, v):
    """what the declaration of an option admits"""
    return z3.And(
        z3.Or(z3.And(v == none, allow), z3.And(
            z3.Implies(values != none, memb(v, values)),
            z3.Implies(z3.And(values == none, types != none), isinstv(v, types)),
            z3.Implies(upper != none, z3.Not(greater(v, upper))),
            z3.Implies(lower != none, z3.Not(less(v, lower))))),
        z3.Implies(check != none, z3.Not(rejects(check, name, v))))


def adm(h, o, name, v):
    return admissible(*[m(h, o, f) for f in ('values', 'types', 'upper', 'lower', 'check_valid', 'allow_none')], name, v)


def inv(h, d, D=None):
    """every value held is admissible; options do not share their record"""
    D = D or h.get(d, '_dict')
    return [
        ('held values are admissible', A([key], z3.Implies(z3.And(D.keys.st[key], m(h, D.m[key], 'has_been_set')),
                                                           adm(h, D.m[key], key, m(h, D.m[key], 'value'))), D.keys.st[key])),
        ('records', A([key], z3.Implies(D.keys.st[key], z3.And(D.m[key] != none, h.get(D.m[key], 'alive'))), D.keys.st[key])),
        ('records differ', A([key, key2], z3.Implies(z3.And(D.keys.st[key], D.keys.st[key2], D.m[key] == D.m[key2]),
                                                     key == key2), MP(D.keys.st[key], D.keys.st[key2])))]


def same_record(h, h0, o):
    return z3.And(*[m(h, o, f) == m(h0, o, f) for f in META + ('has_been_set', 'allow_none')])


def same_options(s, o, but=None, but_dict=None):
    """every option (except `but`) is the same as before"""
    d = o['self']
    D, D0 = s.heap.get(d, '_dict'), o.heap.get(d, '_dict')
    g = lambda f: z3.Implies(key != but, f) if but is not None else f
    return ('other options' if but is not None else 'options', A([key], g(z3.And(
        D.keys.st[key] == D0.keys.st[key], z3.Implies(D.keys.st[key], z3.And(
            D.m[key] == D0.m[key], same_record(s.heap, o.heap, D.m[key]))))), D.keys.st[key], D0.keys.st[key]))


def others(s, o):
    """other dictionaries are untouched"""
    d = o['self']
    return [('other dictionaries', s.heap.frame(o.heap, '_dict', [d])), ('read only', s.heap.frame(o.heap, '_read_only'))]


def call_check(V, s, x_):
    """meta['check_valid'](name, value): raises if the check rejects the value,
    and changes nothing (assumed)"""
    (s, f), = V.expr(s, x_.func)
    vs = []
    for a in x_.args:
        (s, v), = V.expr(s, a)
        vs.append(v)
    r = rejects(f, vs[0], vs[1])
    t = s.fork()
    t.assume(r)
    s.assume(z3.Not(r))
    out = [(s, none)]
    if V.feasible(t):
        t.out = ('raise', 'any exception')
        out.append((t, none))
    return out


def present(s):
    return s.heap.get(s['self'], '_dict').keys.st[s['name']]


def record(s):
    return s.heap.get(s['self'], '_dict').m[s['name']]


oc('_assert_valid', {'name': Name, 'value': Obj},
   requires=lambda s: [('declared', present(s))],
   raises={'*': lambda o: z3.Not(adm(o.heap, record(o), o['name'], o['value']))},
   exsures=lambda s, o: [], hooks={'[]': call_check})

SETS = ['k:value', 'k:has_been_set']
oc('__setitem__', {'name': Name, 'value': Obj}, modifies=SETS,
   requires=lambda s: inv(s.heap, s['self']),
   raises={'*': lambda o: z3.Or(z3.Not(present(o)), o.heap.get(o['self'], '_read_only'),
                                z3.Not(adm(o.heap, record(o), o['name'], o['value'])))},
   exsures=lambda s, o: [same_options(s, o)],
   ensures=lambda s, o, r: [
       ('value', z3.And(present(s), m(s.heap, record(s), 'value') == o['value'], m(s.heap, record(s), 'has_been_set'))),
       ('declaration kept', z3.And(*[m(s.heap, record(s), f) == m(o.heap, record(o), f)
                                     for f in META[1:] + ('allow_none', )])),
       same_options(s, o, o['name'])] + inv(s.heap, s['self']))

oc('__getitem__', {'name': Name}, returns=Obj,
   raises={'KeyError': lambda o: z3.Not(present(o)),
           'RuntimeError': lambda o: z3.And(present(o), z3.Not(m(o.heap, record(o), 'has_been_set')))},
   ensures=lambda s, o, r: [('value', r == m(o.heap, record(o), 'value'))])

oc('__contains__', {'key': Name}, returns=Bool,
   ensures=lambda s, o, r: [('declared', r == o.heap.get(o['self'], '_dict').keys.st[o['key']])])

oc('undeclare', {'name': Name}, modifies=['_dict'],
   requires=lambda s: inv(s.heap, s['self']),
   ensures=lambda s, o, r: [('gone', z3.Not(present(s))), same_options(s, o, o['name'])] + inv(s.heap, s['self']) + others(s, o))


def bad_arguments(o):
    t = lambda v, *cs: z3.And(v != none, z3.Not(z3.Or(*[isa(c)(v) for c in cs])))
    return z3.Or(t(o['values'], 'set', 'list', 'tuple'), t(o['types'], 'type', 'set', 'list', 'tuple'),
                 z3.And(o['types'] != none, o['values'] != none))


def declared_adm(o):
    return admissible(*[o[f] for f in ('values', 'types', 'upper', 'lower', 'check_valid', 'allow_none')], o['name'],
                      o['default'])


oc('declare', {'name': Name, 'default': Obj, 'values': Obj, 'types': Obj, 'desc': Obj, 'upper': Obj, 'lower': Obj,
               'check_valid': Obj, 'allow_none': Bool},
   modifies=list(OFIELDS),
   defaults={'default': '_undefined', 'values': None, 'types': None, 'upper': None, 'lower': None, 'check_valid': None,
             'allow_none': False},
   requires=lambda s: inv(s.heap, s['self']),
   raises={'*': lambda o: z3.Or(bad_arguments(o), z3.And(o['default'] != UNDEF, z3.Not(declared_adm(o))))},
   exsures=lambda s, o: [same_options(s, o)] + others(s, o),
   ensures=lambda s, o, r: [
       ('declared', present(s)),
       ('record', z3.And(*[m(s.heap, record(s), f) == o[f] for f in META[1:] + ('allow_none', )])),
       ('default', z3.And(m(s.heap, record(s), 'value') == o['default'],
                          m(s.heap, record(s), 'has_been_set') == (o['default'] != UNDEF))),
       same_options(s, o, o['name'])] + inv(s.heap, s['self']) + others(s, o))

oc('update', {'in_dict': ('dict', Name, Obj)}, modifies=SETS,
   requires=lambda s: inv(s.heap, s['self']),
   raises={'*': lambda o: z3.Not(A([key], z3.Implies(o['in_dict'].keys.st[key], z3.And(
       o.heap.get(o['self'], '_dict').keys.st[key], z3.Not(o.heap.get(o['self'], '_read_only')),
       adm(o.heap, o.heap.get(o['self'], '_dict').m[key], key, o['in_dict'].m[key]))), o['in_dict'].keys.st[key]))},
   loops={0: lambda s, k, q, e, o: inv(s.heap, o['self']) + [
       ('same declarations', A([key], z3.Implies(o.heap.get(o['self'], '_dict').keys.st[key], z3.And(*[
           m(s.heap, o.heap.get(o['self'], '_dict').m[key], f) == m(o.heap, o.heap.get(o['self'], '_dict').m[key], f)
           for f in META[1:] + ('allow_none', )])), o.heap.get(o['self'], '_dict').keys.st[key])),
       ('set so far', A([key], z3.Implies(
           z3.And(o['in_dict'].keys.st[key], o['in_dict'].keys.pos[key] < k), z3.And(
               o.heap.get(o['self'], '_dict').keys.st[key], z3.Not(o.heap.get(o['self'], '_read_only')),
               adm(o.heap, o.heap.get(o['self'], '_dict').m[key], key, o['in_dict'].m[key]),
               m(s.heap, o.heap.get(o['self'], '_dict').m[key], 'value') == o['in_dict'].m[key],
               m(s.heap, o.heap.get(o['self'], '_dict').m[key], 'has_been_set'))), o['in_dict'].keys.st[key])),
       ('not yet set', A([key], z3.Implies(
           z3.And(o.heap.get(o['self'], '_dict').keys.st[key],
                  z3.Not(z3.And(o['in_dict'].keys.st[key], o['in_dict'].keys.pos[key] < k))),
           same_record(s.heap, o.heap, o.heap.get(o['self'], '_dict').m[key])), o.heap.get(o['self'], '_dict').keys.st[key]))]},
   ensures=lambda s, o, r: [
       ('all set', A([key], z3.Implies(o['in_dict'].keys.st[key], z3.And(
           m(s.heap, s.heap.get(s['self'], '_dict').m[key], 'value') == o['in_dict'].m[key],
           m(s.heap, s.heap.get(s['self'], '_dict').m[key], 'has_been_set'))), o['in_dict'].keys.st[key])),
       ('other options', A([key], z3.Implies(z3.And(s.heap.get(s['self'], '_dict').keys.st[key], z3.Not(o['in_dict'].keys.st[key])),
                                             same_record(s.heap, o.heap, s.heap.get(s['self'], '_dict').m[key])),
                           s.heap.get(s['self'], '_dict').keys.st[key]))] + inv(s.heap, s['self']))


SUB = 'a subclass may declare options here; like declare, it keeps the invariant (assumed)'
for n in ('initialize', 'pre_setup'):
    oc(n, {}, modifies=list(OFIELDS), requires=lambda s: inv(s.heap, s['self']),
       ensures=lambda s, o, r: inv(s.heap, s['self']) + others(s, o))
    T[n].assumed = SUB

oc('__init__', {'read_only': Bool, 'kwargs': ('dict', Name, Obj)}, modifies=list(OFIELDS), defaults={'read_only': False},
   raises={'*': lambda o: z3.BoolVal(True)}, may_raise=True,
   ensures=lambda s, o, r: inv(s.heap, s['self']) + [
       ('read only', s.heap.get(s['self'], '_read_only') == o['read_only'])])



def hook(n):
    return Contract(F, 'OptionsDictionary.' + n, {'self': Obj}, ensures=lambda s, o, r: [])


def making(hooks, raises, ensures, may_raise=True):
    """the constructor with the class's own (empty) hooks"""
    t = dict(T, **{n: hook(n) for n in hooks})
    t['__init__'] = Contract(
        F, 'OptionsDictionary.__init__', {'self': Obj, 'read_only': Bool, 'kwargs': ('dict', Name, Obj)},
        modifies=list(OFIELDS), defaults={'read_only': False}, raises=raises, may_raise=may_raise, ensures=ensures)
    return t


def given(o, f):
    return A([key], z3.Implies(o['kwargs'].keys.st[key], f(key)), o['kwargs'].keys.st[key])


# a dictionary of the class itself has no options when it is made
OWN = making(('initialize', 'pre_setup'), {'*': lambda o: z3.Not(given(o, lambda k: z3.BoolVal(False)))},
             lambda s, o, r: inv(s.heap, s['self']) + [
                 ('no options', A([key], z3.Not(s.heap.get(s['self'], '_dict').keys.st[key]),
                                  s.heap.get(s['self'], '_dict').keys.st[key])),
                 ('read only', s.heap.get(s['self'], '_read_only') == o['read_only'])], False)
# a subclass declares its options in initialize: what is given is set
SUBCLASS = making(('pre_setup', ), {'*': lambda o: z3.BoolVal(True)}, lambda s, o, r: inv(s.heap, s['self']) + [
    ('given options are set', given(o, lambda k: z3.And(
        s.heap.get(s['self'], '_dict').keys.st[k],
        m(s.heap, s.heap.get(s['self'], '_dict').m[k], 'value') == o['kwargs'].m[k],
        m(s.heap, s.heap.get(s['self'], '_dict').m[k], 'has_been_set'))))])


@reg('C19')
def c19(tier):
    for n in T:
        if hasattr(T[n], 'assumed'):
            continue
        yield T[n].name, lambda ctx, n=n: run_contract(ctx, T[n], T, OFIELDS, [])
    for n in ('initialize', 'pre_setup'):
        yield OWN[n].name, lambda ctx, n=n: run_contract(ctx, OWN[n], OWN, OFIELDS, [])
    for t, w in ((OWN, 'of the class itself'), (SUBCLASS, 'of a subclass with initialize')):
        yield t['__init__'].name + ' (%s)' % w, lambda ctx, t=t: run_contract(ctx, t['__init__'], t, OFIELDS, [])


# ---------------------------------------------------------------- C14
LIMIT = 63**4


def hex_ensures(s, o, r):
    cs = [c.as_long() for c in s['char_set'].cs]
    base = len(cs)
    valid = all(chr(c).isascii() and (chr(c).isalnum() or chr(c) == '_') for c in cs)
    digit = wp.position_in(s['char_set'])
    facts = [digit(z3.IntVal(c)) == i for i, c in enumerate(cs)]
    n = len(r.cs)
    member = lambda c: z3.Or(*[c == q for q in cs])
    dec = z3.IntVal(0)
    for c in r.cs[1:]:
        dec = dec * base + digit(c)
    F_ = lambda f: z3.Implies(z3.And(*facts), f)
    return [
        ('characters differ', z3.BoolVal(len(set(cs)) == len(cs))),
        ('characters are allowed in a name', z3.BoolVal(valid)),
        ('length', z3.BoolVal(n == 5)),
        ('begins with an underscore', r.cs[0] == ord('_')),
        ('only these characters', z3.And(*[member(c) for c in r.cs[1:]])),
        # the number can be read back from the name: different numbers have different names
        ('the number is encoded', F_(dec == o['num']))]


H = {}
H['gen_hex_name'] = Contract(
    'utils/gen_hex_name.py', 'gen_hex_name', {'num': Int}, returns='text',
    requires=lambda s: [('range', z3.And(0 <= s['num'], s['num'] < LIMIT))], unroll={0: 4}, ensures=hex_ensures)

VFIELDS = {'_count': ('s', Int), 'Variable._count': ('s', Int), '_id': ('s', Name), 'name': ('s', Name), 'shape': ('s', Obj),
           'val': ('s', Obj), 'units': ('s', Obj), 'dependencies': ('list', Obj), 'dependents': ('list', Obj),
           'build': ('s', Obj), 'times_visited': ('s', Int), '_dag_cost': ('s', Int), '_getitem_called': ('s', Bool),
           '_decomp': ('s', Obj), 'indexed_exprs': ('dict', Obj, Obj), 'src_indices': ('dict', Obj, Obj),
           'is_residual': ('s', Bool), 'alive': ('s', Bool)}
hexname = z3.Function('hexname', Int, Name)     # what gen_hex_name returns
i_, j_ = z3.Const('i', Int), z3.Const('j', Int)
G = {}
G['gen_hex_name'] = Contract('utils/gen_hex_name.py', 'gen_hex_name', {'num': Int}, returns=Name,
                             requires=H['gen_hex_name'].requires,
                             ensures=lambda s, o, r: [('name', r == hexname(s['num']))])
INJ = A([i_, j_], z3.Implies(z3.And(0 <= i_, i_ < LIMIT, 0 <= j_, j_ < LIMIT, hexname(i_) == hexname(j_)), i_ == j_),
        MP(hexname(i_), hexname(j_)))


def numbered(h, count):
    """every expression made so far carries the name of a number of its own"""
    n = h.f['_id'][0]
    return [
        ('numbered', A([x], z3.Implies(h.get(x, 'alive'), z3.And(
            0 <= num_(x), num_(x) <= count, n[x] == hexname(num_(x)))), n[x])),
        ('own number', A([x, y], z3.Implies(z3.And(h.get(x, 'alive'), h.get(y, 'alive'), num_(x) == num_(y)), x == y),
                         MP(num_(x), num_(y))))]


num_ = z3.Function('number_of', Obj, Int)


def count(h):
    return h.get(none, 'Variable._count')


def user_initialize(V, s, x_):
    """self.initialize: an expression's own initialize may set anything of the
    new expression but its identifier (no initialize in the repository does)"""
    a = s['self']
    for f in VFIELDS:
        if f in ('_id', 'Variable._count', 'alive', '_count'):
            continue
        old = s.heap.copy()
        s.heap.havoc(f)
        s.assume(s.heap.frame(old, f, [a]))
    return [(s, none)]


def box(V, s, x_):
    for q in x_.args:
        if not isinstance(q, __import__('ast').List):
            V.expr(s, q)
    return [(s, fresh(Obj, 'array'))]


G['__init__'] = Contract(
    'core/variable.py', 'Variable.__init__', {'self': Obj}, modifies=list(VFIELDS),
    requires=lambda s: numbered(s.heap, count(s.heap)) + [
        ('new', z3.And(s['self'] != none, z3.Not(s.heap.get(s['self'], 'alive')))),
        ('count', z3.And(count(s.heap) >= -1, count(s.heap) + 1 < LIMIT))],
    hooks={('self', 'initialize'): ([], user_initialize, None), ('np', 'array'): ([], box, None)},
    ensures=lambda s, o, r: [
        ('counted', count(s.heap) == count(o.heap) + 1),
        ('identifier', s.heap.get(s['self'], '_id') == hexname(count(s.heap))),
        ('of its own', A([x], z3.Implies(o.heap.get(x, 'alive'), s.heap.get(x, '_id') != s.heap.get(s['self'], '_id')),
                         s.heap.get(x, '_id'))),
        ('other identifiers', s.heap.frame(o.heap, '_id', [s['self']])),
        ('other names', s.heap.frame(o.heap, 'name', [s['self']])),
        ('other dependencies', s.heap.frame(o.heap, 'dependencies', [s['self']]))])


@reg('C14')
def c14(tier):
    yield H['gen_hex_name'].name, lambda ctx: run_contract(ctx, H['gen_hex_name'], {}, {}, [])
    yield G['__init__'].name, lambda ctx: run_contract(ctx, G['__init__'], G, VFIELDS, [INJ])
    # nodes are never confused with others of the same name
    from . import graphc, groupc
    for n in ('_dedup_dependencies', 'add_dependency_node', 'get_dependency_index', 'remove_dependency_by_index',
              'remove_dependency_node', 'register_nodes'):
        yield graphc.T[n].name, lambda ctx, n=n: graphc.run(ctx, n)
    yield groupc.case('register_output')
    yield 'core:identity', groupc.identity
    # the counter and the identifiers change nowhere else
    yield 'core:fields', lambda ctx: groupc.owned(ctx, groupc.NAMED)


c19.info = {'assumptions': ['check_valid of an option is a pure function', 'a > b of two option values means b < a',
                             'messages of exceptions are not modelled']}
c14.info = {'assumptions': ['a process makes fewer than 63**4 expressions']}
