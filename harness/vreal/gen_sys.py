"""Case generators for the model-level properties (C12-C25)."""
import itertools
import json

import numpy as np

from .gen_ops import GEN as OPS
from .gen_ops import N, R, assign_case, one, tile_keys

GEN = {}


def gen(pid):
    def deco(f):
        GEN[pid] = f
        return f
    return deco


UN = ['sin', 'cos', 'arctan', 'tanh', 'neg', 'exp']
BI = ['add', 'sub', 'mul']


def dag_case(r, nin, nn, depth=6, width=None, assign=True, dup=True):
    """random acyclic program; every value has shape (3,) or, rarely, (1,)"""
    inputs = [{'name': 'x%d' % i, 'shape': [3], 'dom': 'unit',
               'indep': bool(r.i(0, 1))} for i in range(nin)]
    nodes = []
    lev = [0] * nin
    k = 0
    while len(nodes) < nn:
        cand = [j for j in range(nin + len(nodes)) if lev[j] < depth]
        # prefer recent values, so that chains and diamonds appear
        def pick():
            if r.i(0, 2) and len(cand) > 3:
                return cand[-r.i(1, 3)]
            return r.pick(cand)
        t = r.i(0, 9)
        if t < 3:
            a = [pick()]
            nodes.append({'op': r.pick(UN if r.i(0, 3) else ['neg', 'sin']),
                          'args': a, 'kw': {}})
            if nodes[-1]['op'] == 'exp':
                nodes[-1]['op'] = 'tanh'
        elif t < 7:
            a = [pick(), pick()]
            if not dup and a[0] == a[1]:
                continue
            nodes.append({'op': r.pick(BI), 'args': a, 'kw': {}})
        elif t < 9:
            m = min(len(cand), r.i(2, 4))
            a = [cand[q] for q in r.perm(len(cand))[:m]]
            if len(a) < 2:
                continue
            nodes.append({'op': r.pick(['sum', 'average']), 'args': a,
                          'kw': {}})
        elif assign:
            cand2 = [c for c in cand]
            a = [cand2[q] for q in r.perm(len(cand2))[:r.i(1, 2)]]
            k += 1
            nodes.append({
                'op': 'assign', 'args': [],
                'kw': {'name': 'asg%d' % k, 'shape': [3 * len(a)],
                       'keys': [[['s', 3 * i, 3 * i + 3, None], b]
                                for i, b in enumerate(a)]}
            })
            # keep the value usable: reshape it back by a product of slices
            a0 = nin + len(nodes) - 1
            lev.append(max(lev[b] for b in a) + 1)
            if len(a) > 1:
                nodes.append({'op': 'average',
                              'args': [a0], 'kw': {}})
                lev.append(lev[-1] + 1)
                nodes.append({'op': 'expand', 'args': [a0 + 1],
                              'kw': {'shape': [3], 'idx': None}})
                lev.append(lev[-1] + 1)
            lev[a0] = depth if len(a) > 1 else lev[a0]
            if len(a) > 1:
                lev[a0 + 1] = depth
            continue
        lev.append(1 + max(lev[b] for b in a))
    nodes = nodes[:]
    ok = [j for j in range(nin, nin + len(nodes))]
    outs = []
    for j in ok:
        nd = nodes[j - nin]
        if nd['op'] == 'assign':
            outs.append([nd['kw']['name'], j])
        elif r.i(0, 3) == 0 or j == ok[-1]:
            outs.append(['o%d' % j, j])
    prog = {'inputs': inputs, 'nodes': nodes, 'outs': outs,
            'reverse': bool(r.i(0, 1))}
    c = {'kind': 'dag', 'prog': prog, 'seed': r.seed()}
    if r.i(0, 2):
        c['order'] = r.perm(len(outs))
    c['early'] = [k for k, nd in enumerate(nodes)
                  if nd['op'] == 'assign' and r.i(0, 1)]
    return c


def fixed_dags():
    def nd(op, *a):
        return {'op': op, 'args': list(a), 'kw': {}}

    shapes = {
        # several operands one of which computes the other
        'c=a+b(a)': (1, [nd('sin', 0), nd('add', 0, 1)]),
        'chain+all': (1, [nd('sin', 0), nd('cos', 1), nd('tanh', 2),
                          nd('sum', 0, 1, 2, 3)]),
        'four': (1, [nd('sin', 0), nd('cos', 1), nd('mul', 1, 2),
                     nd('add', 2, 3), nd('sum', 1, 2, 3, 4)]),
        'diamond': (1, [nd('sin', 0), nd('cos', 1), nd('tanh', 1),
                        nd('mul', 2, 3), nd('sub', 4, 1)]),
        'same': (1, [nd('sin', 0), nd('mul', 1, 1), nd('add', 2, 1)]),
        'unused': (2, [nd('sin', 0), nd('cos', 1), nd('tanh', 0)]),
        'wide': (3, [nd('sin', 0), nd('sin', 1), nd('sin', 2),
                     nd('sum', 3, 4, 5), nd('sum', 0, 4, 6),
                     nd('sum', 1, 6, 7, 3)]),
        'ladder': (1, [nd('sin', 0), nd('add', 0, 1), nd('add', 1, 2),
                       nd('add', 2, 3), nd('add', 3, 4), nd('add', 4, 5),
                       nd('add', 5, 6)]),
    }
    for k, (nin, nodes) in shapes.items():
        for outsel in ('last', 'all', 'some'):
            n = len(nodes)
            sel = {'last': [n - 1], 'all': range(n),
                   'some': [0, n - 1]}[outsel]
            sel = list(dict.fromkeys(sel))
            for indep in (True, False):
                for rev in (True, False):
                    prog = {
                        'inputs': [{'name': 'x%d' % i, 'shape': [3],
                                    'dom': 'unit', 'indep': indep}
                                   for i in range(nin)],
                        'nodes': nodes,
                        'outs': [['o%d' % j, nin + j] for j in sel],
                        'reverse': rev
                    }
                    yield prog


def hub_case(r, k, chain=2):
    """values used by k others, with a chain of values before them"""
    nodes = []

    def nd(op, *a):
        nodes.append({'op': op, 'args': list(a), 'kw': {}})
        return len(nodes)

    h = 0
    for _ in range(chain):
        h = nd(r.pick(['sin', 'cos', 'tanh']), h)
    users = []
    for q in range(k):
        t = r.i(0, 3)
        if t == 0 and users:
            users.append(nd(r.pick(['add', 'sub']), h, r.pick(users)))
        elif t == 1 and chain:
            users.append(nd('add', h, r.i(0, h - 1)))
        else:
            users.append(nd(r.pick(['sin', 'cos', 'tanh', 'neg']), h))
    outs = [['o%d' % j, j] for j in users if r.i(0, 1)]
    outs = outs or [['o%d' % users[-1], users[-1]]]
    last = users[0]
    for q in users[1:]:
        last = nd('add', last, q)
    outs.append(['olast', last])
    return {'kind': 'dag', 'seed': r.seed(), 'prog': {
        'inputs': [{'name': 'x0', 'shape': [3], 'dom': 'unit',
                    'indep': bool(r.i(0, 1))}],
        'nodes': nodes, 'outs': outs, 'reverse': bool(r.i(0, 1))}}


@gen('C12')
def g12(rng, tier):
    r = R(rng)
    for k in list(range(3, N(tier, 17, 40))) + [33, 40]:
        for c in (0, 2, 3):
            yield hub_case(r, k, c)
    for prog in fixed_dags():
        c = {'kind': 'dag', 'prog': prog, 'seed': r.seed()}
        yield c
        yield dict(c, order=list(range(len(prog['outs'])))[::-1], again=1)
        yield dict(c, outside=True, again=1)
    for k in range(N(tier, 150, 2500)):
        c = dag_case(r, r.i(1, 3), r.i(2, 10))
        if k % 3 == 1:
            c['again'] = 1 + k % 2
        if k % 6 > 3:
            c['outside'] = True
        yield c
    # every operation, its operands computed by components of their own
    from .main import wrap
    for pid in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09',
                'C22'):
        seen = {}
        for c in OPS[pid](rng, 'quick'):
            if c['kind'] != 'prog' or any(nd['op'] == 'getitem' for nd in
                                          c['prog']['nodes']):
                continue
            key = tuple(nd['op'] for nd in c['prog']['nodes'])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= N(tier, 3, 12):
                c = wrap(c)
                yield {'kind': 'dag', 'prog': c['prog'], 'seed': r.seed()}
    # the same, nested in a group with subsystems
    for c in itertools.islice(g24(rng, 'quick'), 20):
        yield c


@gen('C13')
def g13(rng, tier):
    r = R(rng)
    # all graphs with up to 4 nodes and one or two list orders
    for n in (2, 3, 4):
        pairs = [(i, j) for i in range(n) for j in range(i)]
        for m in range(2**len(pairs)):
            deps = [[] for _ in range(n)]
            for b, (i, j) in enumerate(pairs):
                if m >> b & 1:
                    deps[i].append(j)
            yield {'kind': 'graph', 'deps': deps, 'order': list(range(n))}
            yield {'kind': 'graph', 'deps': [d[::-1] for d in deps],
                   'order': list(range(n))[::-1]}
    for k in range(N(tier, 300, 6000)):
        n = r.i(4, 11)
        p = r.pick([.2, .4, .7, 1.])
        deps = []
        for i in range(n):
            d = [j for j in range(i) if rng.random() < p]
            deps.append([d[q] for q in r.perm(len(d))])
        c = {'kind': 'graph', 'deps': deps, 'order': r.perm(n)}
        if k % 2:
            # different nodes may have one name
            c['names'] = [r.i(0, 2) for _ in range(n)]
        yield c
    for k in range(N(tier, 40, 600)):
        yield dag_case(r, r.i(1, 3), r.i(3, 10))


def twins(case, name=None):
    """the program written twice in one group, over inputs that are declared
    twice (under one name)"""
    p = case['prog']
    n, m = len(p['inputs']), len(p['nodes'])
    at = lambda c: (lambda i: i + c * n if i < n else i + n + c * m)
    nodes, outs = [], []
    for c in (0, 1):
        t = lambda o: o + '_again' if c else o
        for d in p['nodes']:
            d = dict(d, args=[at(c)(a) for a in d['args']])
            if d['op'] == 'assign':
                d['kw'] = dict(d['kw'], name=t(d['kw']['name']),
                               keys=[[k, at(c)(a)] for k, a in d['kw']['keys']])
            nodes.append(d)
        outs += [[t(o), at(c)(i)] for o, i in p['outs']]
    ins = [dict(i, name=i['name'] if name is None else name + i['name'])
           for i in p['inputs']]
    return dict(case, single=True, noderiv=True, prog=dict(
        p, inputs=ins * 2, nodes=nodes, outs=outs, via='input'))


@gen('C14')
def g14(rng, tier):
    r = R(rng)
    B = 63
    # names made by operations do not depend on the names of their operands
    for pid in sorted(OPS):
        good = [c for c in OPS[pid](rng, 'quick') if c['kind'] == 'prog']
        for q in r.perm(len(good))[:N(tier, 12, 200)]:
            if any(i.get('dom', 'any') == 'fixed' for i in good[q]['prog']['inputs']):
                continue
            yield twins(good[q], r.pick([None, 'model:']))
    for a in range(12):
        for b in range(12):
            if tier == 'thorough' or (a + b) % 3 == 0 or a == b:
                yield {'kind': 'manymodels', 'ways': [a, b, a],
                       'seed': 12 * a + b}
        # after many expressions
        for n in (150, 1500, 9000):
            yield {'kind': 'manymodels', 'ways': [a, r.i(0, 11), a],
                   'fill': n, 'seed': 12 * a + n}
    for n in (40000, N(tier, 70000, 280000)):
        yield {'kind': 'manymodels', 'ways': list(range(12)), 'fill': n,
               'seed': n}
    yield {'kind': 'hexnames', 'ranges': [[0, 70000]]}
    rs = []
    for k in (1, 2, 3, 4):
        for m in (1, 2, 5, 31, 62):
            c = m * B**k
            if c < B**4:
                rs.append([max(0, c - 200), min(B**4, c + 200)])
    rs.append([B**4 - 1000, B**4])
    rs.sort()
    mg = []
    for a, b in rs:
        if mg and a <= mg[-1][1]:
            mg[-1][1] = max(b, mg[-1][1])
        else:
            mg.append([a, b])
    yield {'kind': 'hexnames', 'ranges': mg}
    for k in range(N(tier, 6, 30)):
        a = r.i(0, B**4 - 60000)
        yield {'kind': 'hexnames', 'ranges': [[a, a + 50000]]}
    for s in (0, 60, 63 * 63 - 3, 63**3 - 5, 300000, 63**4 - 60):
        yield {'kind': 'autonames', 'start': s, 'n': 40}
    for t in ('two outputs', 'two outputs used', 'declared twice',
              'created twice', 'declared again'):
        for k in range(N(tier, 4, 20)):
            yield {'kind': 'samename', 'how': t, 'n': r.i(0, 3),
                   'seed': r.seed()}
    for k in range(10):
        n = r.i(1, 4)
        yield {'kind': 'rename', 'n': n,
               'reg': r.perm(2 * n)[:r.i(1, 2 * n)]}


@gen('C15')
def g15(rng, tier):
    r = R(rng)
    every = {}
    for pid in sorted(OPS):
        cs = list(OPS[pid](rng, 'quick'))
        bad = [c for c in cs if c['kind'] == 'raises']
        good = [c for c in cs if c['kind'] == 'prog']
        yield from bad
        k = N(tier, 25, 1000)
        for q in r.perm(len(good))[:k]:
            c = dict(good[q], noderiv=True, single=True)
            yield c

    def bad(op, shapes, kw=None, **e):
        return dict(one(op, shapes, kw, seed=r.seed(), **e), kind='raises')

    # shapes that NumPy would broadcast
    for op in ('add', 'sub', 'mul', 'div'):
        for a, b in (([3], [1]), ([1], [3]), ([2, 3], [3]), ([2, 3], [2, 1]),
                     ([2, 3], [1, 3]), ([3], [4]), ([2, 3], [3, 2]),
                     ([1, 1], [1]), ([4], [2, 2])):
            yield bad(op, [a, b])
    for op in ('sum', 'average', 'max', 'min'):
        for a, b in (([3], [1]), ([1], [3]), ([2, 3], [3]), ([2, 3], [2, 1]),
                     ([3], [4]), ([2, 2], [4])):
            yield bad(op, [a, b], via=r.via())
            yield bad(op, [a, a, b])
    for op in ('sum', 'average'):
        for a, b in (([2, 3], [2, 1]), ([2, 3], [1, 3]), ([2, 3], [2, 3, 1])):
            yield bad(op, [a, b], {'axes': [0]})
            yield bad(op, [a, b], {'axes': [1]})
    for op in ('einsum', 'einsum_new'):
        for shapes, sub in (
            ([[3], [1]], 'i,i->'), ([[1], [3]], 'i,i->i'),
            ([[2, 3], [1]], 'ij,j->i'), ([[2, 3]], 'ii->i'),
            ([[2, 3]], 'i->i'), ([[2]], 'ij->i'), ([[2, 3]], 'ij->ik'),
            ([[2], [3]], 'i->i'), ([[2]], 'i,j->ij'),
            ([[2, 3], [3, 4]], 'ij,ik->jk')):
            yield bad(op, shapes, {'sub': sub})
    for a, b in (([3], [1]), ([1], [3]), ([3], [4])):
        yield bad('inner', [a, b], via=r.via())
        yield bad('dot', [a, b])
    for a, b, ax in (([2, 3], [2, 1], [[1], [1]]), ([2, 1], [2, 3], [[1], [1]]),
                     ([2, 3], [3, 2], [[0], [0]])):
        yield bad('inner', [a, b], {'axes': ax})
    for a, t in (([2, 3], [5]), ([2, 3], [3, 3]), ([1], [2]), ([4], [2, 1])):
        yield bad('reshape', [a], {'shape': t})
    # operands that are no expressions and inadmissible arguments
    def write(text, vars={}, arrays={}, accept=False):
        return {'kind': 'write', 'text': text, 'vars': vars, 'arrays': arrays,
                'accept': accept}
    A = {'A': [3]}
    no = ['num', '2', 'None', "'a'", '[1., 2.]', '(1., 2.)', 'A']
    for t in no:
        for fn in ('sin cos tan arcsin arccos arctan sec cosec cotan sinh '
                   'cosh tanh sech cosech cotanh exp log log10 transpose sum '
                   'average max min pnorm').split():
            yield write('ot.%s(%s)' % (fn, t), {}, A)
        for a in ("expand(%s, (2, 3))", 'reshape(%s, (3, 1))',
                  "reorder_axes(%s, 'i->i')", "rotmat(%s, 'x')",
                  "einsum(%s, subscripts='i->i')", 'max(%s, axis=0)',
                  'einsum_new_api(%s, operation=[(0, ), (0, )])',
                  'min(%s, axis=0)', 'pnorm(%s, axis=0)'):
            yield write('ot.' + a % t, {}, A)
        for fn in ('inner outer dot sum average max min'.split()):
            yield write('ot.%s(%s, y)' % (fn, t), {'y': [3]}, A)
            yield write('ot.%s(y, %s)' % (fn, t), {'y': [3]}, A)
        for fn in ('sum', 'average'):
            yield write('ot.%s(y, %s, axes=(0, ))' % (fn, t), {'y': [3, 2]},
                        {'A': [3, 2]})
        yield write('ot.cross(%s, y, 0)' % t, {'y': [3]}, A)
        yield write('ot.cross(y, %s, 0)' % t, {'y': [3]}, A)
        for fn in ('matmat', 'matvec'):
            yield write('ot.%s(y, %s)' % (fn, t), {'y': [2, 3]}, A)
            yield write('ot.%s(%s, y)' % (fn, t), {'y': [3]}, {'A': [2, 3]})
        yield write('ot.if_else(%s, y, y)' % t, {'y': [3]}, {'A': [1]})
        yield write('ot.if_else(z, %s, y)' % t, {'y': [3], 'z': [1]}, A)
        yield write('ot.if_else(z, y, %s)' % t, {'y': [3], 'z': [1]}, A)
    for t in no[2:6]:
        for op in '+-*/':
            yield write('x %s %s' % (op, t), {'x': [2]})
            yield write('%s %s x' % (t, op), {'x': [2]})
        yield write('x ** %s' % t, {'x': [2]})
    yield write('x ** y', {'x': [2], 'y': [2]})
    for op in ('+', '-', '*', '/', '**'):
        for a, b in (([3], [1]), ([1], [3]), ([2, 3], [3]), ([2, 3], [2, 1]),
                     ([2, 3], [1, 3]), ([3], [4]), ([2, 3], [3, 2]),
                     ([1, 1], [1]), ([4], [2, 2])):
            yield write('x %s A' % op, {'x': a}, {'A': b})
        yield write('x %s A' % op, {'x': [2, 3]}, {'A': [2, 3]}, True)
    for sh in ([2], [1, 2], [3, 3], [2, 1, 1]):
        yield write('ot.if_else(x, y, y)', {'x': sh, 'y': [2]})
    for sh in ([3], [3, 3, 2], [2, 2], [3, 2]):
        yield write('ot.matmat(x, y)', {'x': sh, 'y': [3, 2]})
        yield write('ot.matvec(x, y)', {'x': sh, 'y': [3]})
    for sh in ([3, 2, 2], [2, 3], [1]):
        yield write('ot.matmat(x, y)', {'x': [3, 3], 'y': sh})
        yield write('ot.matvec(x, y)', {'x': [3, 3], 'y': sh})
    for p in (-4, -2, -1, 0, 1, 3, 5, 7, 2.5, .5):
        yield write('ot.pnorm(x, %s)' % p, {'x': [2, 3]})
        yield write('ot.pnorm(x, %s, axis=0)' % p, {'x': [2, 3]})
    for ax in ("'0'", '[0]', '.5', '2', '-3', '(0, 2)'):
        yield write('ot.pnorm(x, 2, axis=%s)' % ax, {'x': [2, 3]})
    for fn in ('max', 'min'):
        for ax in (0, 1):
            yield write('ot.%s(x, y, axis=%d)' % (fn, ax),
                        {'x': [2, 3], 'y': [2, 3]})
        for ax in (2, -3):
            yield write('ot.%s(x, axis=%d)' % (fn, ax), {'x': [2, 3]})
    for sh in ([3, 2], [2, 3], [3, 4], [1, 3], [3, 1], [3, 2, 3], [2, 3, 4],
               [4, 3, 3], [3], [2], [1]):
        v = {'x': sh, 'y': sh}
        for ax in range(len(sh)):
            yield write('ot.cross(x, y, %d)' % ax, v, accept=sh[ax] == 3)
            yield write('ot.cross(x, y, %d)' % (ax - len(sh)), v,
                        accept=sh[ax] == 3)
            if len(sh) > 1:
                yield write('ot.dot(x, y, axis=%d)' % ax, v,
                            accept=sh[ax] == 3)
        if len(sh) > 1:
            yield write('ot.dot(x, y)', v)
        w = {'x': sh, 'y': sh[:-1] + [1] if sh[-1] != 1 else sh + [1]}
        for ax in range(len(sh)):
            yield write('ot.cross(x, y, %d)' % ax, w)
            yield write('ot.dot(x, y, axis=%d)' % ax, w)
    for f in ("'x'", "''", "'DENSE'", 'None'):
        yield write("ot.einsum(x, subscripts='ij->ji', partial_format=%s)" % f,
                    {'x': [2, 3]})
        yield write("ot.einsum_new_api(x, operation=[(0, 1), (1, 0)], "
                    "partial_format=%s)" % f, {'x': [2, 3]})
    for sh, t, sub, ok in (
        ([3], [3, 2], 'i->ij', 1), ([3], [2, 3], 'i->ij', 0),
        ([3], [3, 2], 'i->ji', 0), ([2, 3], [2, 3, 4], 'ij->ijk', 1),
        ([2, 3], [3, 2, 4], 'ij->jik', 0), ([3], [2, 4], 'i->jk', 0),
        ([2, 2], [2, 2], 'ij->ijk', 0), ([2, 2], [2, 3, 2], 'i->ij', 0),
        ([3], [3, 2, 4], 'i->ij', 0), ([3], [3, 3], 'i->ii', 0),
        ([3, 3], [3, 2], 'ii->ij', 0), ([3], [3, 2], 'ij', 0),
        ([1], [2, 3], 'i->ij', 0), ([1], [1, 3], 'i->ij', 1),
        ([1], [2, 3], '->ij', 1), ([1], [2, 3], '->i', 0),
        ([1], [2, 3], 'ij->ij', 0), ([2, 3], [2, 3], 'ij->ji', 0),
        ([2, 2], [2, 2], 'ij->ji', 0)):
        yield write("ot.expand(x, %r, '%s')" % (tuple(t), sub), {'x': sh},
                    accept=bool(ok))
    for sh in ([2], [2, 1], [1, 1]):
        yield write('ot.expand(x, (2, 3))', {'x': sh})
    for a in ('1', '[0]', '(0, )'):
        yield write('ot.expand(x, (2, 3), %s)' % a, {'x': [2]})
    for a, t in (([2, 3], 'ij->i'), ([2, 3], 'ij->ii'), ([2, 2], 'ij->jj'),
                 ([2, 3, 4], 'ijk->kj')):
        yield bad('reorder_axes', [a], {'sub': t})


@gen('C16')
def g16(rng, tier):
    r = R(rng)
    for k in range(N(tier, 70, 900)):
        outs = []
        for q in range(r.i(1, 2) if k % 4 else 3):
            sh = r.pick([[1], [3], [2, 2], [1, 3], [2, 1, 2]])
            n = int(np.prod(sh))
            fam = r.pick(['lin', 'cub', 'exp', 'tanh', 'mul', 'sin', 'quad'])
            c = rng.uniform(-1, 1, size=n)
            if fam == 'sin':
                lo = c - rng.uniform(.05, .7, size=n)
                hi = c + rng.uniform(.05, .7, size=n)
            elif fam == 'quad':
                lo = c - rng.uniform(.05, 2., size=n)
                hi = c + rng.uniform(.05, .9, size=n)
            else:
                lo = c - rng.uniform(.05, 3., size=n)
                hi = c + rng.uniform(.05, 3., size=n)
            s = rng.choice([-1., 1., 2.5, -.3], size=n)
            sw = rng.random(n) < .5
            x1, x2 = np.where(sw, hi, lo), np.where(sw, lo, hi)
            R_ = lambda v: np.round(v, 6).reshape(sh).tolist()
            o = {'name': 'xyz'[q], 'shape': sh, 'fam': fam, 'c': R_(c),
                 's': R_(s), 'x1': R_(x1), 'x2': R_(x2)}
            if r.i(0, 2) == 0:
                # one bracket for all elements
                o['x1'], o['x2'] = (-4., 4.) if fam not in (
                    'sin', 'quad') else (o['x1'], o['x2'])
                if isinstance(o['x1'], float) and r.i(0, 1):
                    o['x1'], o['x2'] = o['x2'], o['x1']
            if r.i(0, 1):
                o['start'] = R_(rng.uniform(-9, 9, size=n))
            outs.append(o)
        c = {'kind': 'bracket', 'outs': outs}
        m = r.pick([None, None, 1, 3, 8, 20, 50])
        if m:
            c['maxiter'] = m
        yield c
    # wide brackets: many iterations are needed
    for w, m in ((1e12, 70), (1e18, 95), (1e24, 110), (1e6, 60)):
        for s in (1., -1.):
            for a, b in ((-w, .5 * w), (3., w), (w, -w / 3)):
                yield {'kind': 'bracket', 'maxiter': m, 'outs': [
                    {'name': 'x', 'shape': [2], 'fam': 'lin', 'c': [3.7, 11.3],
                     's': [s, -s], 'x1': a, 'x2': b}]}
    # roots at bracket ends and at midpoints
    for s in (1., -1.):
        for x1, x2 in ((0., 1.), (1., 0.), (-1., 1.), (-2., 0.), (-3., 1.)):
            yield {'kind': 'bracket', 'outs': [
                {'name': 'x', 'shape': [2], 'fam': 'lin', 'c': [0., 0.],
                 's': [s, -s], 'x1': x1, 'x2': x2}]}


@gen('C17')
def g17(rng, tier):
    r = R(rng)
    fams = ['quad', 'sin', 'exp', 'cub', 'noa', 'inter', 'mat', 'matsin']
    for f in fams:
        for sh in ([1], [3], [2, 2], [2, 1, 3]):
            yield {'kind': 'implicit', 'seed': r.seed(),
                   'outs': [{'name': 'x', 'shape': sh, 'fam': f}]}
            yield {'kind': 'implicit', 'seed': r.seed(), 'newton': True,
                   'direct': bool(r.i(0, 1)), 'mode': r.pick(['fwd', 'rev']),
                   'outs': [{'name': 'x', 'shape': sh,
                             'fam': f if f not in ('quad', 'exp') else 'cub'
                             }]}
    for k in range(N(tier, 30, 400)):
        n = r.i(2, 3)
        newton = bool(r.i(0, 1))
        pool = [f for f in fams if not newton or f not in ('quad', 'exp')]
        outs = [{'name': 'xyz'[q], 'shape': r.shape(1, 3, 3, 8),
                 'fam': r.pick(pool), 'val': float(r.i(1, 3))}
                for q in range(n)]
        yield {'kind': 'implicit', 'seed': r.seed(), 'newton': newton,
               'direct': bool(r.i(0, 1)), 'mode': r.pick(['fwd', 'rev']),
               'deforder': r.perm(n), 'outs': outs}
    for f in ('both', 'one', 'shared', 'mix', 'input'):
        for sh in ([1], [2], [2, 2]):
            for d in (True, False):
                yield {'kind': 'coupled', 'fam': f, 'shape': sh, 'direct': d,
                       'mode': r.pick(['fwd', 'rev']), 'seed': r.seed(),
                       'create': r.pick(['xy', 'yx']),
                       'define': r.pick(['xy', 'yx'])}


@gen('C18')
def g18(rng, tier):
    r = R(rng)
    from .kinds import CYC
    for f in CYC:
        for sh in ([1], [3], [2, 2]):
            if f == 'index' and sh == [2, 2]:
                continue
            for gs in (False, True):
                for pre, post, reg in ((0, 0, 0), (1, 1, 0), (0, 1, 1)):
                    if f == 'direct' and reg and False:
                        continue
                    yield {'kind': 'cyclic', 'fam': f, 'shape': sh, 'gs': gs,
                           'pre': bool(pre), 'post': bool(post),
                           'regexpr': bool(reg), 'seed': r.seed(),
                           'start': bool(r.i(0, 1)),
                           'val': r.pick([1., .5, -2.])}


@gen('C19')
def g19(rng, tier):
    r = R(rng)
    vals = [0, 1, 5, -3, 2.5, 'a', 'b', None, True, [1], 10, 4.0, '']

    def decl():
        d = {}
        k = r.i(0, 5)
        if k == 0:
            d['values'] = r.pick([[1, 5, 'a'], ['a', 'b'], [None, 1],
                                  [2.5, 10]])
        elif k == 1:
            d['types'] = r.pick(['int', 'float', 'str', ['int', 'float'],
                                 'list', 'bool'])
        elif k == 2:
            d['types'] = r.pick(['int', ['int', 'float']])
            d[r.pick(['upper', 'lower'])] = r.pick([0, 1, 4])
        elif k == 3:
            d['types'] = ['int', 'float']
            d['lower'], d['upper'] = r.pick([(0, 5), (-3, 2.5), (1, 1)])
        elif k == 4:
            d['check'] = True
            if r.i(0, 1):
                d['types'] = ['int', 'float']
        if r.i(0, 3) == 0:
            d['allow_none'] = True
        if r.i(0, 9) == 0:
            d['values'], d['types'] = [1, 2], 'int'
        if r.i(0, 1):
            d['default'] = r.pick(vals)
        return d

    for k in range(N(tier, 400, 8000)):
        names = ['p', 'q', 'r'][:r.i(1, 3)]
        ops = []
        for _ in range(r.i(3, 14)):
            t = r.i(0, 9)
            n = r.pick(names)
            if t < 4:
                ops.append(['declare', n, decl()])
            elif t < 8:
                ops.append(['set', n, r.pick(vals)])
            elif t < 9:
                ops.append(['update', n, r.pick(vals)])
            else:
                ops.append(['undeclare', n])
        c = {'kind': 'options', 'names': names, 'ops': ops,
             'read_only': r.i(0, 5) == 0}
        if k % 4 == 3:
            c['init'] = []
            for n in names:
                d = decl()
                if d.get('values') is not None and d.get('types') is not None:
                    d.pop('types')
                d.pop('default', None)
                c['init'].append([n, d])
            c['given'] = {n: r.pick(vals) for n in
                          (names + ['other'])[:r.i(0, len(names) + 1)]}
            c['read_only'] = c['read_only'] and k % 8 == 3
        yield c


@gen('C20')
def g20(rng, tier):
    r = R(rng)
    # every operation with inputs nobody connects
    seen = {}
    for pid in sorted(OPS):
        for c in OPS[pid](np.random.default_rng([3, int(pid[1:])]), 'quick'):
            if c.get('kind') != 'prog' or 'points' in c:
                continue
            nd = c['prog']['nodes']
            if len(nd) != 1 or nd[0]['op'] == 'assign':
                continue
            k = (nd[0]['op'], len(nd[0]['args']), tuple(sorted(
                nd[0].get('kw') or {})), len(c['prog']['inputs'][0]['shape']))
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= (2 if tier == 'quick' else 12):
                yield {'kind': 'defaults', 'prog': c['prog'],
                       'seed': c.get('seed', 0)}
    for fn in ('declare_input', 'create_indep_var', 'create_output',
               'implicit'):
        for v in ([1, .5, -2.5], [[0, .25], [1.5, 2]], [2, 3], [True, .5],
                  [[1.5], [2]], [1e-3, 4]):
            base = {'kind': 'decl', 'fn': fn, 'val': v}
            yield base
            yield dict(base, shape=list(np.shape(v)))
    for fn in ('declare_input', 'create_indep_var', 'create_output',
               'implicit'):
        cy = [False, True] if fn == 'create_output' else [False]
        for cyc in cy:
            base = {'kind': 'decl', 'fn': fn}
            if cyc:
                base['cyc'] = True
            yield base
            for v in (3, 2.5, -1, 0):
                yield dict(base, val=v)
                for s in ([1], [4], [2, 3], [1, 1], [2, 1, 3]):
                    yield dict(base, val=v, shape=s)
            for s in ([1], [3], [2, 3], [1, 4], [4, 1], [1, 1], [2, 1, 2],
                      [1, 1, 1]):
                a = np.round(rng.normal(size=s), 4).tolist()
                for v in (a, {'a': a},
                          {'a': np.round(np.array(a) * 4).tolist(),
                           't': 'int'}):
                    yield dict(base, val=v)
                    yield dict(base, val=v, shape=s)
            for s, t in (([3], [2]), ([2, 3], [3, 2]), ([2, 3], [6]),
                         ([6], [2, 3]), ([1, 3], [3]), ([3], [3, 1]),
                         ([1], [3]), ([2], [2, 2]), ([1, 1], [2])):
                a = np.round(rng.normal(size=s), 4).tolist()
                yield dict(base, val=r.pick([a, {'a': a}]), shape=t)


    # many elements
    for fn in ('declare_input', 'create_indep_var', 'create_output',
               'implicit'):
        for s in ([150], [12, 11], [3, 1, 70]):
            a = rng.normal(size=s).tolist()
            yield {'kind': 'decl', 'fn': fn, 'val': {'a': a}}
            yield {'kind': 'decl', 'fn': fn, 'val': .1, 'shape': s}
            yield {'kind': 'decl', 'fn': fn, 'val': a, 'shape': s}


@gen('C21')
def g21(rng, tier):
    r = R(rng)
    for pid in sorted(OPS):
        cs = [c for c in OPS[pid](rng, 'quick') if c['kind'] == 'prog']
        for q in r.perm(len(cs))[:N(tier, 18, 300)]:
            yield dict(cs[q], kind='pure')
    for k in range(N(tier, 25, 400)):
        c = dag_case(r, r.i(1, 3), r.i(2, 7))
        c.pop('order', None)
        c.pop('early', None)
        c['kind'] = 'pure'
        yield c
    for k in range(N(tier, 6, 60)):
        n = r.i(1, 3)
        yield {'kind': 'purecomp', 'seed': r.seed(),
               'x1': (-2. - rng.random(n)).tolist(),
               'x2': (2. + rng.random(n)).tolist()}


@gen('C23')
def g23(rng, tier):
    r = R(rng)

    def ops_for(y):
        return ([['define', y, 'e0'], ['define', y, 'e1'], ['define', y, y],
                 ['register', y], ['assign', y, 0, 1, 's0'],
                 ['assign', y, 1, 2, 'd0'], ['assign', y, 1, 2, 'd1'],
                 ['assign', y, 3, 1, 's1'], ['assign', y, 2, 2, 'd2'],
                 ['assign', y, 3, 2, 'd3'], ['assign', y, 0, 4, 'e0']])

    gen_ = [['register', 'x'], ['register', 'e0'], ['register', 'e2']]
    pool = ops_for('y') + gen_
    for k in (0, 1, 2):
        for seq in itertools.product(pool, repeat=k):
            yield {'kind': 'calls', 'ops': [['create', 'y']] + list(seq)}
    for k in range(N(tier, 250, 5000)):
        ops = [['create', 'y']]
        pl = list(pool)
        if r.i(0, 1):
            ops.append(['create', 'z'])
            pl += ops_for('z')
        for _ in range(r.i(2, 5)):
            ops.append(r.pick(pl))
        yield {'kind': 'calls', 'ops': ops}
    ip = []
    for n in 'xy':
        for k in ('res', 'bra'):
            ip += [[k, n, n + '0'], [k, n, n + '1'], [k, n, n]]
    for seq in itertools.product(ip, repeat=2):
        kinds_ = {o[0] for o in seq}
        # one bracketed and one plain output in a component is not supported
        if len(kinds_) > 1 and seq[0][1] != seq[1][1]:
            continue
        yield {'kind': 'icalls', 'ops': list(seq)}
    for u in (True, False):
        yield {'kind': 'undefined', 'implicit': False, 'use': u}
    yield {'kind': 'undefined', 'implicit': True, 'use': True}


@gen('C24')
def g24(rng, tier):
    r = R(rng)
    for k in range(N(tier, 160, 2500)):
        steps = []
        have = []        # usable expressions (indep, expr, declared inputs)
        reg = []         # registered names (indeps, exprs): usable by subs
        m = r.i(3, 9)
        c = {'i': 0, 'e': 0, 's': 0}
        pend = []
        for _ in range(m):
            t = r.i(0, 9)
            if t < 3 or not have:
                c['i'] += 1
                n = 'v%d' % c['i']
                steps.append(['indep', n, round(float(rng.uniform(-1, 1)),
                                                3)])
                have.append(n)
                reg.append(n)
            elif t < 6:
                c['e'] += 1
                n = 'e%d' % c['e']
                a = [have[q] for q in r.perm(len(have))[:r.i(1, 3)]]
                steps.append(['expr', n, a])
                have.append(n)
                reg.append(n)
            else:
                c['s'] += 1
                n = 'S%d' % c['s']
                nin = [reg[q] for q in r.perm(len(reg))[:r.i(0, 2)]]
                knd = r.pick(['om', 'ot', 'comp', 'with'])
                pro = r.pick(['all', 'io', 'names']) if knd != 'with' else 'all'
                o = 'y%d' % c['s']
                steps.append(['sub', n, knd, nin, o, pro])
                if r.i(0, 3):
                    steps.append(['input', o])
                    have.append(o)
        for q, st in enumerate(steps):
            if st[0] == 'indep' and (k + q) % 3:
                st.append((k + q) % 3 == 1)
        c = {'kind': 'place', 'steps': steps, 'reverse': bool(r.i(0, 1))}
        if k % 3 == 1:
            c['again'] = 1 + k % 2
        if k % 6 > 3:
            c['outside'] = True
        yield c


@gen('C25')
def g25(rng, tier):
    r = R(rng)
    f = lambda *s: np.round(rng.uniform(.5, 2.5, size=s) * rng.choice(
        [-1., 1.], size=s), 3)
    for k in range(N(tier, 140, 2000)):
        sh = r.shape(1, 3, 3, 12)
        n = r.i(1, 3)
        names = r.pick([['x', 'y', 'z'], ['x', 'x1', 'x12'],
                        ['be', 'b', 'beta'], ['y', 'X', 'x']])[:n]
        raw = list(names)
        comp = ['lin', 'pow', 'linpow'][k % 3]
        style = r.i(0, 4)
        cst = r.pick([0., 2, -1.5, {'a': f(*sh).tolist()}])
        if comp in ('lin', 'pow'):
            word = 'coeffs' if comp == 'lin' else 'powers'
            num = (lambda: float(r.pick([f(1)[0], f(1)[0], 0., 1]))
                   ) if comp == 'lin' else (
                lambda: r.pick([2, -1, 3., .5, -.5, 1, 1.5, 0]))
            opts = {}
            if style == 0:            # one number for all
                v = num()
                opts = {'in_names': raw if n > 1 or r.i(0, 1) else raw[0],
                        word: v}
                terms = [[m, v] for m in raw]
            elif style == 1:          # list
                if r.i(0, 2) == 0:    # a repeated name
                    raw = raw + [r.pick(names)]
                vs = [num() for _ in raw]
                opts = {'in_names': raw, word: vs}
                terms = [[m, v] for m, v in zip(raw, vs)]
            elif style == 2:          # array
                vs = [float(num()) for _ in raw]
                opts = {'in_names': raw, word: {'a': vs}}
                terms = [[m, v] for m, v in zip(raw, vs)]
            elif style == 3:          # dictionary
                vs = {m: num() for m in raw}
                opts = {word + '_dict': vs}
                terms = [[m, v] for m, v in vs.items()]
            else:                     # default
                opts = {'in_names': raw}
                terms = [[m, 1.] for m in raw]
            # repeated names: terms add up / multiply
            if comp == 'lin':
                opts['constant'] = cst
                sem = {'constant': cst, 'terms': terms}
            else:
                opts['coeff'] = cst
                sem = {'coeff': cst, 'terms': terms}
        else:
            nt = r.i(1, 3)
            pw = lambda: float(r.pick([2, 1, 0, -1, 3., .5, 1.5]))
            if style < 3:
                terms = []
                used = set()
                for _ in range(nt):
                    ks = [m for m in names if r.i(0, 2)] or [names[0]]
                    used |= set(ks)
                    terms.append([float(r.pick([f(1)[0], f(1)[0], 0., 1])),
                                  {m: pw() for m in ks}])
                for m in names:
                    if m not in used:
                        terms[-1][1][m] = pw()
                opts = {'terms_list': terms}
            else:
                P_ = [[pw() for _ in names] for _ in range(nt)]
                cs = [float(v) for v in f(nt)]
                opts = {'in_names': raw, 'powers': {'a': P_},
                        'coeffs': cs if r.i(0, 1) else {'a': cs}}
                terms = [[c, dict(zip(names, p))] for c, p in zip(cs, P_)]
            opts['constant'] = cst
            sem = {'constant': cst, 'terms': terms}
        yield {'kind': 'comb', 'comp': comp, 'shape': sh, 'names': names,
               'raw_names': raw if 'in_names' in opts else names,
               'opts': opts, 'sem': sem, 'seed': r.seed()}
