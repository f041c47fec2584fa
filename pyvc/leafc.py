"""Contracts of the functions that cut cycles: replace_output_leaf_nodes (C18, C12)."""
import z3

from .wp import Obj, Bool, Int, Name, none, isa, Contract
from .graphc import A, MP, E, rank, unfold_first, OB, OO, reach, via, AX_REACH, distinct_all, run_contract, T as GT, FIELDS as GF

D = 'dependencies'
EV, TO = 'ever ' + D, 'touched ' + D
FIELDS = dict(GF)
FIELDS.update({EV: ('s', OB), TO: ('s', Bool)})
x, y, m = (z3.Const(n, Obj) for n in 'xym')
pred = z3.Function('pred', OO, Obj, Obj, Obj)       # the last node before the end of a path
es, a, b, c = z3.Const('es', OO), z3.Const('ra', Obj), z3.Const('rb', Obj), z3.Const('rc', Obj)
i = z3.Const('i', Int)

# the edges that are never changed: those that lead neither to the output nor to the leaf
M = z3.Const('M', OO)

AX = AX_REACH(es) + [
    A([es, a, b, c], z3.Implies(z3.And(reach(es, a, b), reach(es, b, c)), reach(es, a, c)), MP(reach(es, a, b), reach(es, b, c))),
    A([es, a, b], z3.Implies(reach(es, a, b), z3.Or(b == a, z3.And(es[a][via(es, a, b)], reach(es, via(es, a, b), b)))),
      reach(es, a, b)),
    A([es, a, b], z3.Implies(reach(es, a, b), z3.Or(b == a, z3.And(es[pred(es, a, b)][b], reach(es, a, pred(es, a, b))))),
      reach(es, a, b))]


def ever(h):
    return h.f[EV][0]


def touched(h, a):
    return h.f[TO][0][a]


def same(h, g, a):
    return z3.And(*[p[a] == q[a] for p, q in zip(h.f[D], g.f[D])])


def only(s, o, me, *extra):
    """what the list objects of `me` held during the call; nobody else's list is touched"""
    h, g = s.heap, o.heap
    return [
        ('held', A([x], z3.Implies(ever(h)[me][x], z3.Or(ever(g)[me][x], E(g, me, x), *[x == t for t in extra])), ever(h)[me][x])),
        ('others held', A([x], z3.Implies(x != me, z3.And(ever(h)[x] == ever(g)[x], touched(h, x) == touched(g, x))),
                          ever(h)[x], touched(h, x))),
        ('a changed list is touched', z3.Or(touched(h, me), same(h, g, me))),
        ('touched stays', z3.Implies(touched(g, me), touched(h, me)))]


def ghosted(n, *extra):
    k = GT[n]
    return Contract(k.file, k.qual, k.params, modifies=k.modifies + (EV, TO), returns=k.returns, requires=k.requires,
                    loops=k.loops, ensures=lambda s, o, r: k.ensures(s, o, r) + only(s, o, o['self'], *[o[t] for t in extra]))


T = {n: ghosted(n) for n in ('remove_dependency_by_index', '_dedup_dependencies', 'remove_dependency_node')}
T['add_dependency_node'] = ghosted('add_dependency_node', 'dependency')
T['get_dependency_index'] = GT['get_dependency_index']


def cut(h, root, a):
    """nothing that `a` depends on (not through the output or the leaf) depends on the output"""
    return A([x], z3.Implies(reach(M, a, x), z3.Not(E(h, x, root))), reach(M, a, x))


def acyclic():
    return A([x, y], z3.Implies(M[x][y], z3.And(rank(y) < rank(x), rank(y) >= 0)), M[x][y])


def basics(h, root, leaf):
    return [('fixed edges', A([x, y], M[x][y] == z3.And(E(h, x, y), y != root, y != leaf), M[x][y], E(h, x, y))),
            ('acyclic', acyclic()),
            ('leaf', z3.And(leaf != root, A([x], z3.Not(E(h, leaf, x)), E(h, leaf, x)))),
            ('each once', distinct_all(h))]


def history(h, g, root, leaf):
    return [
        ('a changed list is touched', A([x], z3.Or(touched(h, x), same(h, g, x)), h.f[D][0][x], h.f[D][1][x], h.f[D][2][x], h.f[D][3][x])),
        ('only what changes is touched', A([x], z3.Implies(touched(h, x), z3.Or(touched(g, x), E(g, x, root))), touched(h, x))),
        ('touched stays', A([x], z3.Implies(touched(g, x), touched(h, x)), touched(h, x), touched(g, x))),
        ('a change cuts everything', z3.Or(cut(h, root, root), A([x], z3.Implies(touched(h, x), touched(g, x)), touched(h, x)))),
        ('held', A([x, y], z3.Implies(ever(h)[x][y], z3.Or(ever(g)[x][y], E(g, x, y), y == leaf)), ever(h)[x][y]))]


def replaced(h, g, root, node, leaf, ghosts=True):
    """from g to h only edges to root are replaced by edges to leaf"""
    return basics(h, root, leaf) + [
        ('edges kept', A([x, y], z3.Implies(z3.And(E(g, x, y), y != root), E(h, x, y)), E(g, x, y), E(h, x, y))),
        ('no other edge', A([x, y], z3.Implies(E(h, x, y), z3.Or(E(g, x, y), z3.And(y == leaf, E(g, x, root)))), E(h, x, y))),
        ('the leaf takes the place', A([x], z3.Implies(E(g, x, root), z3.Or(E(h, x, root), E(h, x, leaf))), E(g, x, root))),
        ('only below', A([x], z3.Or(
            z3.And(E(g, x, root), z3.Or(reach(M, node, x), reach(M, root, x))), same(h, g, x)), h.f[D][0][x], h.f[D][1][x], h.f[D][2][x], h.f[D][3][x]))] + (history(h, g, root, leaf) if ghosts else [])


def cycle(s, o):
    return [('the cycle is cut', z3.Implies(reach(M, o['root'], o['node']), cut(s.heap, o['root'], o['node'])))]


def loop(s, k, q, e, o):
    h, root, node, leaf = s.heap, o['root'], o['node'], o['leaf']
    L = o.heap.get(node, D)
    return replaced(h, e.heap, root, node, leaf) + [
        ('same until touched', z3.Or(touched(h, node), same(h, o.heap, node))),
        ('done so far', z3.Or(z3.Not(reach(M, root, node)), touched(h, node), A([i, x], z3.Implies(
            z3.And(0 <= i, i < k), z3.And(L.at[i] != root, z3.Implies(reach(M, L.at[i], x), z3.Not(E(h, x, root))))),
            MP(L.at[i], reach(M, L.at[i], x)))))]


def smaller(s, o):
    """lexicographic: the leaf is last; below the output or not; whether everything is cut;
    the (finite) set of edges to the output; the rank in the graph without those edges"""
    h, g, root, leaf, n = s.heap, o.heap, o['root'], o['leaf'], o['node']
    below, was = reach(M, root, s['node']), reach(M, root, n)
    done, did = cut(h, root, root), cut(g, root, root)
    sub = A([x], z3.Implies(E(h, x, root), E(g, x, root)), E(h, x, root))
    return z3.And(n != leaf, z3.Or(
        s['node'] == leaf, z3.And(below, z3.Not(was)), z3.And(z3.Implies(was, below), z3.Or(
            z3.And(done, z3.Not(did)), z3.And(z3.Implies(did, done), sub, z3.Or(
                z3.And(E(g, n, root), z3.Not(E(h, n, root))), z3.And(rank(s['node']) < rank(n), rank(s['node']) >= 0)))))))


R = T['replace_output_leaf_nodes'] = Contract(
    'utils/replace_output_leaf_nodes.py', 'replace_output_leaf_nodes', {'root': Obj, 'node': Obj, 'leaf': Obj},
    modifies=[D, EV, TO], mutated=[0],
    requires=lambda s: basics(s.heap, s['root'], s['leaf']),
    loops={0: loop}, smaller=smaller,
    ensures=lambda s, o, r: replaced(s.heap, o.heap, o['root'], o['node'], o['leaf']) + cycle(s, o))


def run(ctx, n):
    run_contract(ctx, T[n], T, FIELDS, AX)


AXIOMS = AX

# ---------------------------------------------------------------- what an implicit component collects (C17)
OAXIOMS = AX_REACH(es)[:2] + [A([es, a, b], z3.Implies(es[a][b], reach(es, a, b)), es[a][b])]
OFIELDS = dict(GF)
OFIELDS.update({'is_residual': ('s', Bool)})
Inp, Imp = isa('Input'), isa('ImplicitOutput')
N = z3.Const('N', OO)      # the edges that are followed
# by induction over the path
DOWN = ('paths lead down', A([x, y], z3.Implies(reach(N, x, y), rank(y) <= rank(x)), reach(N, x, y)))
name = lambda h, t: h.f['name'][0][t]
X = {'remove_dependency_node': GT['remove_dependency_node']}


def contract(file, qual, params, **k):
    X[qual.split('.')[-1]] = Contract(file, qual, params, **k)


def followed(h, but=None):
    return [('N', A([x, y], N[x][y] == z3.And(E(h, x, y), *([name(h, y) != name(h, but)] if but is not None else [])), N[x][y], E(h, x, y))),
            ('acyclic', A([x, y], z3.Implies(N[x][y], z3.And(rank(y) < rank(x), rank(y) >= 0)), N[x][y]))]


def leaf(h, t):
    return z3.And(Inp(t), h.f[D][0][t] == 0)


def collected(res, had, test, a, sofar=None):
    """res: what was there, and what satisfies the test below a (below the dependencies seen so far)"""
    below = lambda t: z3.And(t != a, reach(N, a, t)) if sofar is None else None
    return [('kept', A([x], z3.Implies(had[x], res[x]), had[x], res[x])),
            ('only those', A([x], z3.Implies(res[x], z3.Or(had[x], z3.And(test(x), x != a, reach(N, a, x)))), res[x]))] + (
        [('all', A([x], z3.Implies(z3.And(test(x), x != a, reach(N, a, x)), res[x]), reach(N, a, x)))] if sofar is None else
        [('all so far', A([i, x], z3.Implies(z3.And(0 <= i, i < sofar[1], N[a][sofar[0].at[i]], test(x),
                                                    reach(N, sofar[0].at[i], x)), res[x]),
                          MP(sofar[0].at[i], reach(N, sofar[0].at[i], x))))])


contract('utils/collect_input_exprs.py', 'collect_input_exprs', {'inputs': ('list', Obj), 'root': Obj, 'expr': Obj},
         returns=('list', Obj), types={'inputs': Obj},
         requires=lambda s: followed(s.heap, s['root']) + [('rank', rank(s['expr']) >= 0)],
         facts=lambda s: [('paths', unfold_first(N, s['expr'])), DOWN],
         decreases=lambda s: rank(s['expr']),
         loops={0: lambda s, k, q, e, o: collected(s['inputs'].st, o['inputs'].st, lambda t: leaf(o.heap, t), o['expr'],
                                                   (o.heap.get(o['expr'], D), k))},
         ensures=lambda s, o, r: collected(r.st, o['inputs'].st, lambda t: leaf(o.heap, t), o['expr']))

IC = 'comps/implicit_component.py'


def names_of(res, had, h, a, sofar=None):
    """names of the implicit outputs below a"""
    nm, t = z3.Const('nm', Name), z3.Const('t', Obj)
    under = lambda t: z3.And(Imp(t), t != a, reach(N, a, t))
    return [('kept', A([nm], z3.Implies(had[nm], res[nm]), had[nm], res[nm])),
            ('only those', A([nm], z3.Implies(z3.And(res[nm], z3.Not(had[nm])), z3.Exists([t], z3.And(
                under(t), name(h, t) == nm), patterns=[reach(N, a, t)])), res[nm]))] + (
        [('all', A([x], z3.Implies(under(x), res[name(h, x)]), reach(N, a, x)))] if sofar is None else
        [('all so far', A([i, x], z3.Implies(z3.And(0 <= i, i < sofar[1], Imp(x), reach(N, sofar[0].at[i], x)), res[name(h, x)]),
                          MP(sofar[0].at[i], reach(N, sofar[0].at[i], x))))])


contract(IC, '_collect_implicit_outputs', {'outputs': ('set', Name), 'expr': Obj}, byref=['outputs'],
         requires=lambda s: followed(s.heap) + [('rank', rank(s['expr']) >= 0)],
         facts=lambda s: [('paths', unfold_first(N, s['expr'])), DOWN],
         decreases=lambda s: rank(s['expr']),
         loops={0: lambda s, k, q, e, o: names_of(s['outputs'].st, o['outputs'].st, o.heap, o['expr'], (o.heap.get(o['expr'], D), k))},
         ensures=lambda s, o, r: names_of(s['outputs'].st, o['outputs'].st, o.heap, o['expr']))

res_ = lambda h, t: h.f['is_residual'][0][t]
contract(IC, '_remove_nonresiduals', {'root': Obj}, modifies=[D], types={'remove': Obj},
         requires=lambda s: [('each once', s.heap.get(s['root'], D).distinct())],
         loops={0: lambda s, k, q, e, o: [('marked', A([x], s['remove'].st[x] == z3.And(
             E(o.heap, o['root'], x), o.heap.get(o['root'], D).pos[x] < k, z3.Not(res_(o.heap, x))), s['remove'].st[x], E(o.heap, o['root'], x)))],
             1: lambda s, k, q, e, o: [
                 ('so far', A([x], E(s.heap, o['root'], x) == z3.And(E(o.heap, o['root'], x), z3.Not(z3.And(
                     e['remove'].st[x], z3.Exists([i], z3.And(0 <= i, i < k, e['remove'].at[i] == x), patterns=[e['remove'].at[i]])))),
                     E(s.heap, o['root'], x))),
                 ('each once', s.heap.get(o['root'], D).distinct()),
                 ('others', s.heap.frame(o.heap, D, [o['root']]))]},
         ensures=lambda s, o, r: [
             ('only residuals are left', A([x], E(s.heap, o['root'], x) == z3.And(E(o.heap, o['root'], x), res_(o.heap, x)),
                                           E(s.heap, o['root'], x))),
             ('others', s.heap.frame(o.heap, D, [o['root']]))])


def xrun(ctx, n):
    run_contract(ctx, X[n], X, OFIELDS, OAXIOMS)
