"""Contracts of the dependency graph (C12, C13, C14, C24)."""
import z3

from . import vc
from .wp import (VL, VD, VO, Obj, Name, Int, Bool, none, Contract, Heap, isa, VC, Unsup, fresh, lit, cat, havoc_val)
from .ops import reg

FIELDS = {
    'dependencies': ('list', Obj), 'dependents': ('list', Obj), 'times_visited': ('s', Int), '_id': ('s', Name),
    'name': ('s', Name), 'build': ('s', Obj), '_dag_cost': ('s', Int), 'defined': ('s', Bool), '_root': ('s', Obj),
    'nodes': ('dict', Name, Obj), 'reverse_branch_sorting': ('s', Bool), 'sorted_expressions': ('list', Obj),
    'promotes': ('s', Obj), 'promotes_inputs': ('s', Obj), 'promotes_outputs': ('s', Obj), 'dv': ('s', Bool),
    '_most_recently_added_subsystem': ('s', Obj), 'shape': ('s', Obj), 'val': ('s', Obj),
    '_static_mode': ('s', Bool), '_restarts': ('s', Bool), '_registered_before_setup': ('list', Obj),
    '_subsystem_before_setup': ('s', Obj),
}

x, y, u, v, w = (z3.Const(n, Obj) for n in 'xyuvw')
i, j = z3.Const('i', Int), z3.Const('j', Int)
key = z3.Const('key', Name)
OB = z3.ArraySort(Obj, Bool)
OO = z3.ArraySort(Obj, OB)
rank = z3.Function('rank', Obj, Int)
card = z3.Function('card', OB, Int)


def A(vs, f, *pats):
    return z3.ForAll(vs, f, patterns=list(pats)) if pats else z3.ForAll(vs, f)


def MP(*t):
    return z3.MultiPattern(*t)


def E(h, a, b):
    """b is a dependency of a"""
    return h.set('dependencies')[a][b]


def distinct_all(h, k='dependencies'):
    n, at, st, pos = h.f[k]
    return A([x, i], z3.Implies(z3.And(0 <= i, i < n[x]), pos[x][at[x][i]] == i), at[x][i])


def wf_all(h, k='dependencies'):
    n, at, st, pos = h.f[k]
    return [A([x], n[x] >= 0, n[x]),
            A([x, i], z3.Implies(z3.And(0 <= i, i < n[x]), st[x][at[x][i]]), at[x][i]),
            A([x, y], z3.Implies(st[x][y], z3.And(0 <= pos[x][y], pos[x][y] < n[x], at[x][pos[x][y]] == y)), st[x][y])]


R = z3.Const('R', OB)               # the nodes the root depends on, and itself


def closed(h):
    return A([x, y], z3.Implies(z3.And(R[x], E(h, x, y)), R[y]), E(h, x, y))


def acyclic(h):
    return A([x, y], z3.Implies(z3.And(R[x], E(h, x, y)), z3.And(rank(y) < rank(x), rank(y) >= 0)), E(h, x, y))


def needed_pre(h, a):
    """a is one of the nodes the root depends on, and these have no cycles"""
    return [('acyclic', acyclic(h)), ('closed', closed(h)), ('needed', z3.And(R[a], rank(a) >= 0))]


T = {}


def contract(*a, **k):
    c = Contract(*a, **k)
    T[c.qual.split('.')[-1]] = c
    return c


V = 'core/variable.py'

contract(V, 'Variable.get_dependency_index', {'self': Obj, 'candidate': Obj}, returns='opt',
         ensures=lambda s, o, r: [
             ('none', r.isnone == z3.Not(E(s.heap, s['self'], s['candidate']))),
             ('index', z3.Or(r.isnone, z3.And(0 <= r.v, r.v < s.heap.f['dependencies'][0][s['self']],
                                              s.heap.f['dependencies'][1][s['self']][r.v] == s['candidate'])))],
         loops={0: lambda s, k, q, e, o: [('not before', A([i], z3.Implies(
             z3.And(0 <= i, i < k), s.heap.f['dependencies'][1][s['self']][i] != s['candidate']),
             s.heap.f['dependencies'][1][s['self']][i]))]})


def removed(s, o, me, index):
    """list `me`.dependencies without the element at index"""
    N, D = s.heap.get(me, 'dependencies'), o.heap.get(me, 'dependencies')
    return [
        ('length', N.n == D.n - 1),
        ('before', A([i], z3.Implies(z3.And(0 <= i, i < index), N.at[i] == D.at[i]), N.at[i])),
        ('elements', A([x], N.st[x] == z3.And(D.st[x], x != D.at[index]), N.st[x], D.st[x])),
        ('distinct', N.distinct())]


contract(V, 'Variable.remove_dependency_by_index', {'self': Obj, 'index': Int}, modifies=['dependencies'],
         requires=lambda s: [('index', s['index'] >= 0), ('distinct', s.heap.get(s['self'], 'dependencies').distinct())],
         ensures=lambda s, o, r: [
             (n, z3.Implies(s['index'] < o.heap.get(s['self'], 'dependencies').n, f))
             for n, f in removed(s, o, s['self'], s['index'])] + [
             ('beyond', z3.Implies(s['index'] >= o.heap.get(s['self'], 'dependencies').n,
                                   s.heap.get(s['self'], 'dependencies').same(o.heap.get(s['self'], 'dependencies')))),
             ('frame', s.heap.frame(o.heap, 'dependencies', [s['self']]))])

contract(V, 'Variable.remove_dependency_node', {'self': Obj, 'candidate': Obj}, modifies=['dependencies'],
         requires=lambda s: [('distinct', s.heap.get(s['self'], 'dependencies').distinct())],
         ensures=lambda s, o, r: [
             ('elements', A([x], E(s.heap, s['self'], x) == z3.And(E(o.heap, s['self'], x), x != s['candidate']),
                            E(s.heap, s['self'], x))),
             ('distinct', s.heap.get(s['self'], 'dependencies').distinct()),
             ('frame', s.heap.frame(o.heap, 'dependencies', [s['self']]))])

contract(V, 'Variable._dedup_dependencies', {'self': Obj}, modifies=['dependencies'],
         ensures=lambda s, o, r: [
             ('elements', A([x], E(s.heap, s['self'], x) == E(o.heap, s['self'], x), E(s.heap, s['self'], x))),
             ('distinct', s.heap.get(s['self'], 'dependencies').distinct()),
             ('frame', s.heap.frame(o.heap, 'dependencies', [s['self']]))])

contract(V, 'Variable.add_dependency_node', {'self': Obj, 'dependency': Obj}, modifies=['dependencies'],
         ensures=lambda s, o, r: [
             ('elements', A([x], E(s.heap, s['self'], x) == z3.Or(E(o.heap, s['self'], x), x == s['dependency']),
                            E(s.heap, s['self'], x))),
             ('distinct', z3.Implies(o.heap.get(s['self'], 'dependencies').distinct(),
                                     s.heap.get(s['self'], 'dependencies').distinct())),
             ('frame', s.heap.frame(o.heap, 'dependencies', [s['self']]))])

contract(V, 'Variable.add_dependent_node', {'self': Obj, 'dependent': Obj}, modifies=['dependents'],
         ensures=lambda s, o, r: [
             ('elements', A([x], s.heap.set('dependents')[s['self']][x] == z3.Or(
                 o.heap.set('dependents')[s['self']][x], x == s['dependent']), s.heap.set('dependents')[s['self']][x])),
             ('distinct', z3.Implies(o.heap.get(s['self'], 'dependents').distinct(),
                                     s.heap.get(s['self'], 'dependents').distinct())),
             ('frame', s.heap.frame(o.heap, 'dependents', [s['self']]))])

contract(V, 'Variable.get_num_dependents', {'self': Obj}, returns=Int,
         ensures=lambda s, o, r: [('count', r == s.heap.get(s['self'], 'dependents').n)])

contract(V, 'Variable.incr_times_visited', {'self': Obj}, modifies=['times_visited'],
         ensures=lambda s, o, r: [
             ('count', s.heap.get(s['self'], 'times_visited') == o.heap.get(s['self'], 'times_visited') + 1),
             ('frame', s.heap.frame(o.heap, 'times_visited', [s['self']]))])

contract(V, 'Variable.sort_dependency_branches', {'self': Obj, 'reverse_branch_sorting': Bool},
         modifies=['dependencies'],
         requires=lambda s: [('distinct', s.heap.get(s['self'], 'dependencies').distinct())],
         ensures=lambda s, o, r: [
             ('elements', A([x], E(s.heap, s['self'], x) == E(o.heap, s['self'], x), E(s.heap, s['self'], x))),
             ('distinct', s.heap.get(s['self'], 'dependencies').distinct()),
             ('frame', s.heap.frame(o.heap, 'dependencies', [s['self']]))])

contract(V, 'Variable.compute_dag_cost', {'self': Obj}, modifies=['_dag_cost'], returns=Int,
         requires=lambda s: needed_pre(s.heap, s['self']),
         decreases=lambda s: rank(s['self']),
         loops={0: lambda s, k, q, e, o: []})

# ---------------------------------------------------------------- register_nodes, add_fwd_edges
reach = z3.Function('reach', OO, Obj, Obj, Bool)       # reflexive transitive closure of a relation
via = z3.Function('via', OO, Obj, Obj, Obj)            # first step of a path
last = z3.Function('last', OO, Obj, Obj, Obj)          # last node before the end of a path


def AX_REACH(es_):
    return [A([es_, x], reach(es_, x, x), reach(es_, x, x)),
            A([es_, x, y, u], z3.Implies(z3.And(es_[x][y], reach(es_, y, u)), reach(es_, x, u)),
              MP(es_[x][y], reach(es_, y, u))),
            A([es_, x, y, u], z3.Implies(z3.And(reach(es_, u, x), es_[x][y]), reach(es_, u, y)),
              MP(reach(es_, u, x), es_[x][y]))]


def unfold_first(es_, a):
    """a path from a is empty or begins with a step"""
    return A([x], z3.Implies(reach(es_, a, x), z3.Or(x == a, z3.And(
        es_[a][via(es_, a, x)], reach(es_, via(es_, a, x), x)))), reach(es_, a, x))


def ids(h):
    i_ = h.f['_id'][0]
    return A([x, y], z3.Implies(z3.And(R[x], R[y], i_[x] == i_[y]), x == y), MP(R[x], R[y]))


def idof(h, a):
    return h.f['_id'][0][a]


def nodes_ok(h, N):
    """the dictionary holds needed nodes under their identifiers"""
    return A([key], z3.Implies(N.keys.st[key], z3.And(R[N.m[key]], idof(h, N.m[key]) == key, N.m[key] != none)),
             N.keys.st[key])


def mem(h, N, a):
    return N.keys.st[idof(h, a)]


def new(h, N, M, a):
    return z3.And(mem(h, N, a), z3.Not(mem(h, M, a)))


def rn_grown(h, N, M):
    return [('kept', A([key], z3.Implies(M.keys.st[key], z3.And(N.keys.st[key], N.m[key] == M.m[key])), N.keys.st[key],
                       M.keys.st[key])),
            ('nodes', nodes_ok(h, N))]


def rn_new_closed(h, N, M):
    return ('new nodes are closed', A([x, y], z3.Implies(
        z3.And(R[x], new(h, N, M, x), E(h, x, y)), mem(h, N, y)), E(h, x, y)))


def rn_new_reached(h, N, M, a):
    return ('new nodes are needed', A([key], z3.Implies(
        z3.And(N.keys.st[key], z3.Not(M.keys.st[key])), z3.And(
            reach(h.set('dependencies'), a, N.m[key]), rank(N.m[key]) < rank(a))), N.keys.st[key]))


contract(V, 'Variable.register_nodes', {'self': Obj, 'nodes': ('dict', Name, Obj)}, byref=['nodes'],
         requires=lambda s: needed_pre(s.heap, s['self']) + [
             ('identifiers differ', ids(s.heap)), ('nodes', nodes_ok(s.heap, s['nodes'])), ('no None', z3.Not(R[none]))],
         decreases=lambda s: rank(s['self']),
         loops={0: lambda s, k, q, e, o: rn_grown(s.heap, s['nodes'], o['nodes']) + [
             ('dependencies', A([i], z3.Implies(z3.And(0 <= i, i < k), mem(
                 s.heap, s['nodes'], s.heap.get(o['self'], 'dependencies').at[i])),
                 s.heap.get(o['self'], 'dependencies').at[i])),
             rn_new_closed(s.heap, s['nodes'], o['nodes']),
             rn_new_reached(s.heap, s['nodes'], o['nodes'], o['self'])]},
         ensures=lambda s, o, r: rn_grown(s.heap, s['nodes'], o['nodes']) + [
             ('dependencies', A([y], z3.Implies(E(s.heap, o['self'], y), mem(s.heap, s['nodes'], y)),
                                E(s.heap, o['self'], y))),
             rn_new_closed(s.heap, s['nodes'], o['nodes']),
             rn_new_reached(s.heap, s['nodes'], o['nodes'], o['self'])])


def fwd_sound(s, o):
    e = o.heap.set('dependencies')
    D0, D1 = o.heap.set('dependents'), s.heap.set('dependents')
    return ('only users', A([x, y], z3.Implies(D1[y][x], z3.Or(D0[y][x], z3.And(e[x][y], reach(e, o['self'], x)))), D1[y][x]))


def fwd_kept(s, o):
    D0, D1 = o.heap.set('dependents'), s.heap.set('dependents')
    return ('kept', A([x, y], z3.Implies(D0[y][x], D1[y][x]), D0[y][x], D1[y][x]))


def fwd_distinct(s, o):
    return ('distinct', z3.Implies(distinct_all(o.heap, 'dependents'), distinct_all(s.heap, 'dependents')))


contract(V, 'Variable.add_fwd_edges', {'self': Obj}, modifies=['dependents'],
         requires=lambda s: needed_pre(s.heap, s['self']),
         facts=lambda s: [('paths', unfold_first(s.heap.set('dependencies'), s['self']))],
         decreases=lambda s: rank(s['self']),
         loops={0: lambda s, k, q, e, o: [
             fwd_sound(s, o), fwd_kept(s, o), fwd_distinct(s, o),
             ('own', A([y], z3.Implies(z3.And(E(o.heap, o['self'], y), o.heap.get(o['self'], 'dependencies').pos[y] < k),
                                       s.heap.set('dependents')[y][o['self']]), E(o.heap, o['self'], y))),
             ('below', A([w, x, y], z3.Implies(z3.And(
                 E(o.heap, o['self'], w), o.heap.get(o['self'], 'dependencies').pos[w] < k,
                 reach(o.heap.set('dependencies'), w, x), E(o.heap, x, y)), s.heap.set('dependents')[y][x]),
                 MP(E(o.heap, o['self'], w), reach(o.heap.set('dependencies'), w, x), E(o.heap, x, y))))]},
         ensures=lambda s, o, r: [
             fwd_sound(s, o), fwd_kept(s, o), fwd_distinct(s, o),
             ('all users', A([x, y], z3.Implies(z3.And(E(o.heap, x, y), reach(o.heap.set('dependencies'), o['self'], x)),
                                                s.heap.set('dependents')[y][x]),
                             MP(E(o.heap, x, y), reach(o.heap.set('dependencies'), o['self'], x))))])

# ---------------------------------------------------------------- remove_indirect_dependencies
indirect = z3.Function('indirect', OB, z3.ArraySort(Obj, OB), Obj, Bool)
witness = z3.Function('witness', OB, z3.ArraySort(Obj, OB), Obj, Obj)
ds, es = z3.Const('ds', OB), z3.Const('es', z3.ArraySort(Obj, OB))

# indirect(D, E, x): some c in D has x among its dependencies (skolemised)
AX_IND = [
    A([ds, es, x, y], z3.Implies(z3.And(ds[y], es[y][x]), indirect(ds, es, x)), MP(indirect(ds, es, x), es[y][x])),
    A([ds, es, x], z3.Implies(indirect(ds, es, x), z3.And(ds[witness(ds, es, x)], es[witness(ds, es, x)][x])),
      indirect(ds, es, x))]


def rid_marks(s, o):
    """the indices collected so far are those of indirect dependencies"""
    D = o.heap.get(o['node'], 'dependencies')
    e = o.heap.set('dependencies')
    R = s['remove']
    return ('indirect', A([i], z3.Implies(R.st[i], z3.And(0 <= i, i < D.n, D.st[D.at[i]], indirect(D.st, e, D.at[i]))),
                          R.st[i]))


def rid_remove(s, k, q, e, o):
    D, N = o.heap.get(o['node'], 'dependencies'), s.heap.get(s['node'], 'dependencies')
    R, t = e['remove'], e['terminal_index']
    b = z3.If(k == 0, D.n, R.at[R.n - k])
    return [
        ('terminal', z3.Or(t == 0, t == 1)),
        ('same list', s['remove'].same(R)),
        ('bound', z3.And(N.n >= b, b >= 0, b <= D.n)),
        ('distinct', N.distinct()),
        ('untouched', A([i], z3.Implies(z3.And(0 <= i, i < b), N.at[i] == D.at[i]), N.at[i])),
        ('elements', A([x], N.st[x] == z3.And(D.st[x], z3.Not(z3.And(R.st[D.pos[x]], D.pos[x] >= b, D.pos[x] >= t))),
                       N.st[x], D.st[x])),
        ('frame', s.heap.frame(o.heap, 'dependencies', [s['node']]))]


contract('core/graph.py', 'remove_indirect_dependencies', {'node': Obj}, modifies=['dependencies'],
         requires=lambda s: [('distinct', s.heap.get(s['node'], 'dependencies').distinct())],
         ensures=lambda s, o, r: [
             ('no new dependency', A([x], z3.Implies(E(s.heap, s['node'], x), E(o.heap, s['node'], x)),
                                     E(s.heap, s['node'], x))),
             ('only indirect ones are removed', A([x], z3.Implies(
                 z3.And(E(o.heap, s['node'], x), z3.Not(E(s.heap, s['node'], x))),
                 indirect(o.heap.set('dependencies')[s['node']], o.heap.set('dependencies'), x)),
                 E(o.heap, s['node'], x))),
             ('distinct', s.heap.get(s['node'], 'dependencies').distinct()),
             ('frame', s.heap.frame(o.heap, 'dependencies', [s['node']]))],
         types={'remove': Int},
         loops={0: lambda s, k, q, e, o: [rid_marks(s, o)],
                1: lambda s, k, q, e, o: [rid_marks(s, o)],
                2: rid_remove})


# ---------------------------------------------------------------- topological_sort
PairS = z3.DeclareSort('Pair')
pr = z3.Function('pr', Obj, Obj, PairS)
PB = z3.ArraySort(PairS, Bool)
cardp = z3.Function('cardp', PB, Int)
ALL = z3.Const('ALL', PB)           # the pairs (user, dependency) in R, and (none, root)
fst, snd = z3.Function('fst', PairS, Obj), z3.Function('snd', PairS, Obj)
ROOT = z3.Const('ROOT', Obj)
EMPTY = z3.K(Obj, z3.BoolVal(False))


def ndep(h, a):
    return h.f['dependents'][0][a]


def dep(h, a):
    return h.set('dependents')[a]


def tv(h, a):
    return h.f['times_visited'][0][a]


def graph_pre(h, root):
    """the graph topological_sort works on"""
    return [
        ('root in R', z3.And(R[root], z3.Not(R[none]), root != none)),
        ('closed', closed(h)),
        ('acyclic', acyclic(h)),
        ('root first', A([x], z3.Implies(z3.And(R[x], x != root), z3.And(rank(x) < rank(root), rank(x) >= 0)), R[x])),
        ('distinct', distinct_all(h)),
        ('dependents', A([x, y], z3.Implies(R[x], dep(h, x)[y] == z3.And(R[y], E(h, y, x))), dep(h, x)[y], E(h, y, x))),
        ('dependents distinct', A([x], z3.Implies(R[x], z3.And(ndep(h, x) <= card(dep(h, x)), ndep(h, x) >= card(dep(h, x)))), card(dep(h, x)))),
        ('needed', A([x], z3.Implies(z3.And(R[x], x != root), ndep(h, x) >= 1), ndep(h, x))),
        ('not needed by others', ndep(h, root) == 0),
        ('not visited', A([x], z3.Implies(R[x], tv(h, x) == 0), tv(h, x))),
    ]


def expanded(s, o, a):
    return z3.If(a == o['node'], tv(s.heap, a) >= 1, s['sorted_nodes'].st[a])


def topo_inv(s, k, q, e, o):
    """Pd[x][y]: the edge x -> y is on the stack, at position px[x][y]; C[y][x]:
    it has been taken off; g1, g2: the ends of the edge at a position"""
    h = s.heap
    root = o['node']
    st, em = s['stack'], s['sorted_nodes']
    g1, g2, C, Pd, px, P = (s.ghost[n] for n in ('g1', 'g2', 'C', 'Pd', 'px', 'P'))
    X = lambda a: expanded(s, o, a)
    return [
        ('stack', A([i], z3.Implies(z3.And(0 <= i, i < st.n), z3.And(
            st.at[i] == g2[i], Pd[g1[i]][g2[i]], px[g1[i]][g2[i]] == i)), st.at[i])),
        ('positions', A([x, y], z3.Implies(Pd[x][y], z3.And(
            0 <= px[x][y], px[x][y] < st.n, g1[px[x][y]] == x, g2[px[x][y]] == y)), Pd[x][y])),
        ('edges', A([x, y], z3.Implies(Pd[x][y], z3.And(R[y], z3.Not(C[y][x]), z3.If(
            x == none, z3.And(y == root, tv(h, root) == 0), z3.And(R[x], X(x), E(h, x, y))))), Pd[x][y])),
        ('pending', A([x, y], z3.Implies(z3.And(R[x], X(x), E(h, x, y)), z3.Or(C[y][x], Pd[x][y])), E(h, x, y))),
        ('consumed', A([x, y], z3.Implies(z3.And(C[y][x], y != root), z3.And(R[x], X(x), E(h, x, y), x != none)), C[y][x])),
        ('visits', A([x], z3.Implies(z3.And(R[x], x != root), tv(h, x) == card(C[x])), tv(h, x))),
        ('root', z3.And(z3.Or(tv(h, root) == 0, tv(h, root) == 1), z3.Implies(tv(h, root) == 0, z3.And(
            Pd[none][root], st.n == 1, em.n == 0)), z3.Not(em.st[root]))),
        ('emitted', A([x], em.st[x] == z3.And(R[x], x != root, tv(h, x) == ndep(h, x)), em.st[x])),
        ('once', em.distinct()),
        ('order', A([x, y], z3.Implies(z3.And(em.st[y], R[x], x != root, E(h, x, y)),
                                       z3.And(em.st[x], em.pos[x] < em.pos[y])), E(h, x, y))),
        ('pairs', A([x, y], z3.Implies(P[pr(x, y)], C[y][x]), P[pr(x, y)])),
        ('pairs finite', subset_p(P)),
        ('frame', z3.And(*[h.frame(o.heap, f) for f in ('dependencies', 'dependents')])),
        ('frame of visits', A([x], z3.Implies(z3.Not(R[x]), tv(h, x) == tv(o.heap, x)), tv(h, x))),
    ]


pp = z3.Const('pp', PairS)


def subset_p(P):
    return A([pp], z3.Implies(P[pp], ALL[pp]), P[pp])


def topo_pop(V, s, x, val):
    """ghost: the edge of the popped entry is consumed"""
    g1, C, P, Pd = (s.ghost[n] for n in ('g1', 'C', 'P', 'Pd'))
    a = g1[s['stack'].n]
    V.oblige('the popped edge', s, z3.And(Pd[a][val], R[val]))
    s.assume(R[val], Pd[a][val])
    s.ghost['Pd'] = z3.Store(Pd, a, z3.Store(Pd[a], val, False))
    c0, c1 = C[val], z3.Store(C[val], a, True)
    s.ghost['C'] = z3.Store(C, val, c1)
    p1 = z3.Store(P, pr(a, val), True)
    s.ghost['P'] = p1
    d = dep(s.heap, val)
    # finite sets: adding an element; subsets
    s.assume(card(c1) == card(c0) + z3.If(c0[a], 0, 1), card(c0) >= 0,
             z3.Or(z3.Not(A([x_], z3.Implies(c1[x_], d[x_]), c1[x_])),
                   z3.And(card(c1) <= card(d), z3.Implies(card(c1) == card(d), A([x_], c1[x_] == d[x_], c1[x_], d[x_])))),
             cardp(p1) == cardp(P) + z3.If(P[pr(a, val)], 0, 1),
             z3.Implies(subset_p(P), cardp(P) <= cardp(ALL)), z3.Implies(subset_p(p1), cardp(p1) <= cardp(ALL)))


x_ = z3.Const('x_', Obj)


def topo_push(V, s, x, val):
    """ghost: the entry stands for an edge of v"""
    g1, g2, Pd, px, st = s.ghost['g1'], s.ghost['g2'], s.ghost['Pd'], s.ghost['px'], s['stack']
    a, b, n = s['v'], st.at[st.n - 1], st.n - 1
    s.ghost['g1'], s.ghost['g2'] = z3.Store(g1, n, a), z3.Store(g2, n, b)
    s.ghost['Pd'] = z3.Store(Pd, a, z3.Store(Pd[a], b, True))
    s.ghost['px'] = z3.Store(px, a, z3.Store(px[a], b, n))


def topo_pushes(s, k, q, e, o):
    st, g1, g2, Pd, px = s['stack'], s.ghost['g1'], s.ghost['g2'], s.ghost['Pd'], s.ghost['px']
    st0, h1, h2, Pd0, px0 = e['stack'], e.ghost['g1'], e.ghost['g2'], e.ghost['Pd'], e.ghost['px']
    D = e.heap.get(e['v'], 'dependencies')
    a = s['v']
    return [
        ('length', st.n == st0.n + k),
        ('kept', A([i], z3.Implies(z3.And(0 <= i, i < st0.n), st.at[i] == st0.at[i]), st.at[i])),
        ('ends kept', A([i], z3.Implies(i < st0.n, z3.And(g1[i] == h1[i], g2[i] == h2[i])), g1[i], g2[i])),
        ('pushed', A([i], z3.Implies(z3.And(st0.n <= i, i < st.n), z3.And(
            st.at[i] == D.at[i - st0.n], g2[i] == D.at[i - st0.n], g1[i] == a)), st.at[i], g1[i], g2[i])),
        ('pending', A([y], Pd[a][y] == z3.Or(Pd0[a][y], z3.And(D.st[y], D.pos[y] < k)), Pd[a][y], D.st[y])),
        ('positions', A([y], px[a][y] == z3.If(z3.And(D.st[y], D.pos[y] < k), st0.n + D.pos[y], px0[a][y]), px[a][y])),
        ('others', A([x, y], z3.Implies(x != a, z3.And(px[x][y] == px0[x][y], Pd[x][y] == Pd0[x][y])),
                     px[x][y], Pd[x][y]))]


def topo_lemma(s, o):
    """by well-founded induction on the rank: every node of R is emitted"""
    h, root, C, em = s.heap, o['node'], s.ghost['C'], s['sorted_nodes']
    a = z3.Const('a', Obj)
    X = lambda b: expanded(s, o, b)
    d, c = dep(h, a), C[a]
    yield ('root expanded', [], tv(h, root) == 1)
    yield ('induction step', [
        R[a], a != root, A([x], z3.Implies(z3.And(R[x], rank(x) > rank(a)), X(x)), R[x]),
        # finite sets: equal sets have equal size
        z3.Implies(A([x], c[x] == d[x], c[x], d[x]), card(c) == card(d)),
    ], (z3.And(em.st[a], X(a)), A([x], z3.Implies(z3.And(R[x], x != root), z3.And(em.st[x], X(x))), R[x])))


contract('core/graph.py', 'topological_sort', {'node': Obj}, modifies=['times_visited'], returns=('list', Obj),
         requires=lambda s: graph_pre(s.heap, s['node']),
         types={'sorted_nodes': Obj, 'stack': Obj},
         ghost={'g1': lambda: z3.K(Int, none), 'g2': lambda: z3.K(Int, ROOT), 'C': lambda: z3.K(Obj, EMPTY),
                'Pd': lambda: z3.Store(z3.K(Obj, EMPTY), none, z3.Store(EMPTY, ROOT, True)),
                'px': lambda: z3.K(Obj, z3.K(Obj, z3.IntVal(0))), 'P': lambda: z3.K(PairS, z3.BoolVal(False))},
         facts=lambda s: [
             ('root', ROOT == s['node']),
             ('pairs differ', A([x, y], z3.And(fst(pr(x, y)) == x, snd(pr(x, y)) == y), pr(x, y))),
             ('pairs', A([x, y], z3.Implies(z3.And(R[x], E(s.heap, x, y)), ALL[pr(x, y)]), E(s.heap, x, y))),
             ('pair of the root', ALL[pr(none, s['node'])]),
             ('empty set', z3.And(card(z3.K(Obj, z3.BoolVal(False))) == 0, cardp(z3.K(PairS, z3.BoolVal(False))) == 0))],
         hooks={('stack', 'pop'): (['C', 'P', 'Pd'], None, topo_pop),
                ('stack', 'append'): (['g1', 'g2', 'Pd', 'px'], None, topo_push)},
         loops={0: topo_inv, 1: topo_pushes},
         decreases={0: lambda s, o: cardp(ALL) - cardp(s.ghost['P'])},
         lemma=topo_lemma,
         ensures=lambda s, o, r: [
             ('each once', r.distinct()),
             ('exactly the needed ones', A([x], r.st[x] == z3.And(R[x], x != o['node']), r.st[x], R[x])),
             ('others are not visited', A([x], z3.Implies(z3.Not(R[x]), tv(s.heap, x) == tv(o.heap, x)), tv(s.heap, x))),
             ('dependencies later', A([x, y], z3.Implies(z3.And(R[x], x != o['node'], E(o.heap, x, y)),
                                                         r.pos[x] < r.pos[y]), E(o.heap, x, y)))])


# ---------------------------------------------------------------- the group
Indep, Output, Subsystem, OMGroup = isa('Indep'), isa('Output'), isa('Subsystem'), isa('OMGroup')
par = z3.Function('par', Obj, Obj)      # a user of a needed node
uf = z3.Function('uf', Obj, Obj)        # a remaining user of a needed node
built = z3.Function('built', Obj, Obj)  # the component an expression's build makes
STAR = lit('*')


def root_of(h, g):
    return h.get(g, '_root')


mine = z3.Function('expression of the group', Obj, Bool)     # every expression ever made for the group but its roots


def unvisited(h, a):
    return z3.And(tv(h, a) == 0, z3.Not(z3.Exists([y], dep(h, a)[y])))


def not_visited(h, g):
    return [('not visited', A([x], z3.Implies(mine(x), tv(h, x) == 0), tv(h, x))),
            ('no dependents', A([x, y], z3.Implies(mine(x), z3.Not(dep(h, x)[y])), dep(h, x)[y]))]


def ready(h, g):
    """no expression of the group has been processed"""
    r, N = root_of(h, g), h.get(g, 'nodes')
    return not_visited(h, g) + [
        ('root not visited', tv(h, r) == 0), ('root without dependents', A([y], z3.Not(dep(h, r)[y]), dep(h, r)[y])),
        ('fresh', N.keys.n == 0), ('fresh nodes', A([key], z3.Not(N.keys.st[key]), N.keys.st[key]))]


def restartable(h, g):
    """what has been processed is recorded"""
    N = h.get(g, 'nodes')
    return [('visited ones are recorded', A([x], z3.Implies(z3.And(mine(x), tv(h, x) != 0), member(N, h, x)), tv(h, x))),
            ('used ones are recorded', A([x, y], z3.Implies(z3.And(mine(x), dep(h, x)[y]), member(N, h, x)), dep(h, x)[y]))]


def new_variable(V, s, x_):
    """Variable(): discharged in consc.py"""
    if x_.args or x_.keywords:
        raise Unsup('arguments of Variable')
    r = fresh(Obj, 'variable')
    old = s.heap.copy()
    for f in ('dependencies', 'dependents', 'times_visited', '_dag_cost', '_id', 'name', 'build', 'shape', 'val'):
        s.heap.havoc(f)
        s.assume(s.heap.frame(old, f, [r]))
    a = s.heap.get(r, 'dependencies')
    s.assume(r != none, z3.Not(mine(r)), a.n == 0, A([y], z3.Not(a.st[y]), a.st[y]), tv(s.heap, r) == 0, a.distinct(),
             s.heap.get(r, 'dependents').n == 0, A([y], z3.Not(dep(s.heap, r)[y]), dep(s.heap, r)[y]))
    s.ghost['root'] = r
    return [(s, r)]


def dependents_once(s, o):
    return ('dependents once', z3.Implies(distinct_all(o.heap, 'dependents'), distinct_all(s.heap, 'dependents')))


def rs_nodes(s, k, q, e, o):
    h, h0, g = s.heap, o.heap, o['self']
    N = h0.get(g, 'nodes')
    done = z3.And(N.keys.st[key], N.keys.pos[key] < k)
    return [
        ('done', A([key], z3.Implies(done, tv(h, N.m[key]) == 0), N.m[key])),
        ('done dependents', A([key, y], z3.Implies(done, z3.Not(dep(h, N.m[key])[y])), MP(N.m[key], dep(h, N.m[key])[y]))),
        ('others', A([x], z3.Or(tv(h, x) == tv(h0, x), tv(h, x) == 0), tv(h, x))),
        ('other dependents', A([x, y], z3.Implies(dep(h, x)[y], dep(h0, x)[y]), dep(h, x)[y])), dependents_once(s, o)]


def rs_root(s, k, q, e, o):
    h, g = s.heap, o['self']
    r, L = root_of(h, g), h.get(g, '_registered_before_setup')
    D = h.get(r, 'dependencies')
    return [('registered', A([y], D.st[y] == z3.And(L.st[y], L.pos[y] < k), D.st[y], L.st[y])),
            ('first', A([y], z3.Implies(L.st[y], z3.And(0 <= L.pos[y], L.pos[y] < L.n, L.at[L.pos[y]] == y)), L.st[y])),
            ('each once', z3.And(D.distinct(), L.distinct())),
            ('other dependencies', h.frame(e.heap, 'dependencies', [r]))]


def first_setup(o):
    """what was registered before the first setup"""
    h, g = o.heap, o['self']
    return z3.And(z3.Not(h.get(g, '_restarts')), h.get(g, 'nodes').keys.n == 0)


def restarted(s, o):
    h, h0, g = s.heap, o.heap, o['self']
    st, first = h0.get(g, '_static_mode'), z3.Not(h0.get(g, '_restarts'))
    r, L = root_of(h, g), h.get(g, '_registered_before_setup')
    L0 = h0.get(g, '_registered_before_setup')
    D, D0 = h.get(r, 'dependencies'), h0.get(root_of(h0, g), 'dependencies')
    live = z3.Not(st)
    same = [('set up while created: ' + f, z3.Implies(st, z3.And(*[a == b for a, b in zip(h.f[f], h0.f[f])]))) for f in RESTART]
    return same + [(n, z3.Implies(live, f)) for n, f in [
        ('root', z3.And(r != none, z3.Not(mine(r)), D.distinct())), dependents_once(s, o)] + ready(h, g) + [
        ('registered again', A([y], D.st[y] == L.st[y], D.st[y], L.st[y])),
        ('remembered', A([y], L.st[y] == z3.If(first_setup(o), D0.st[y], L0.st[y]), L.st[y])),
        ('once', L.distinct()),
        ('marked', h.get(g, '_restarts')),
        ('subsystem', h.get(g, LAST) == z3.If(first, h0.get(g, LAST), h0.get(g, '_subsystem_before_setup'))),
        ('subsystem remembered', h.get(g, '_subsystem_before_setup') == h.get(g, LAST)),
        ('other dependencies', h.frame(h0, 'dependencies', [r])),
        ('identifiers', h.frame(h0, '_id', [r])), ('builds', h.frame(h0, 'build', [r])),
    ]] + [('other groups: ' + f, h.frame(h0, f, [g])) for f in (
        'nodes', '_root', '_restarts', '_registered_before_setup', '_subsystem_before_setup', LAST)]


LAST = '_most_recently_added_subsystem'
RESTART = ('dependencies', 'dependents', 'times_visited', '_dag_cost', '_id', 'name', 'build', 'shape', 'val', 'nodes', '_root',
           '_restarts', '_registered_before_setup', '_subsystem_before_setup', LAST)
contract('core/group.py', 'Group._restart', {'self': Obj}, modifies=RESTART,
         requires=lambda s: restartable(s.heap, s['self']) + [
             ('registered once', s.heap.get(s['self'], '_registered_before_setup').distinct()),
             ('root', s.heap.get(root_of(s.heap, s['self']), 'dependencies').distinct())],
         hooks={'Variable': (['root'], new_variable, None)}, loops={0: rs_nodes, 1: rs_root},
         ensures=lambda s, o, r: restarted(s, o))


def model(h, g):
    """what the user's setup leaves behind: a graph without cycles, not yet
    processed (assumed; the methods of Group and Variable establish it)"""
    r = root_of(h, g)
    return [
        ('its own expressions', A([x], z3.Implies(R[x], z3.Or(x == r, mine(x))), R[x])), ('a root', z3.Not(mine(r))),
        ('needed', A([x], R[x] == reach(h.set('dependencies'), r, x), R[x])),
        ('paths end', A([x], z3.Implies(z3.And(R[x], x != r), z3.And(R[par(x)], E(h, par(x), x))), par(x))),
        ('closed', closed(h)), ('acyclic', acyclic(h)),
        ('root', z3.And(R[r], r != none, z3.Not(R[none]), rank(r) >= 1, z3.Not(Indep(r)))),
        ('root first', A([x], z3.Implies(z3.And(R[x], x != r), z3.And(rank(x) < rank(r), rank(x) >= 0)), R[x])),
        ('independent variables', A([x, y], z3.Implies(Indep(x), z3.Not(E(h, x, y))), E(h, x, y))),
        ('independent variables rank', A([x], z3.Implies(R[x], z3.If(Indep(x), rank(x) == 0, rank(x) >= 1)), R[x])),
        ('identifiers differ', ids(h)),
        ('distinct', distinct_all(h)), ('dependents distinct', distinct_all(h, 'dependents')),
    ]


contract('core/group.py', 'func', {'self': Obj}, modifies=list(FIELDS),
         requires=lambda s: ready(s.heap, s['self']),
         ensures=lambda s, o, r: model(s.heap, s['self']) + ready(s.heap, s['self']) + [
             ('what was registered before', s.heap.frame(o.heap, '_registered_before_setup'))])

S0 = {}     # the states after the user's setup, and before and after the simplification


def member(N, h, a):
    return z3.And(N.keys.st[idof(h, a)], N.m[idof(h, a)] == a)


def ps_common(s, e, g):
    """what never changes while the group is built"""
    h, h0 = s.heap, S0['setup']
    return [
        ('root kept', h.get(root_of(h0, g), 'dependencies').same(h0.get(root_of(h0, g), 'dependencies'))),
        ('distinct', distinct_all(h))]


def ps_indep(s, k, e, g, N, node=None, j=None):
    h, h0 = s.heap, S0['setup']
    r = root_of(h0, g)
    D = h0.get(r, 'dependencies')
    done = lambda a, b: N.keys.pos[idof(h0, a)] < k if node is None else z3.Or(
        N.keys.pos[idof(h0, a)] < k, z3.And(a == node, D.pos[b] < j))
    return ps_common(s, e, g) + [
        ('kept', A([x, y], z3.Implies(E(h0, x, y), E(h, x, y)), E(h0, x, y), E(h, x, y))),
        ('only independent variables are added', A([x, y], z3.Implies(z3.And(E(h, x, y), z3.Not(E(h0, x, y))), z3.And(
            E(h0, r, y), Indep(y), z3.Not(Indep(x)), R[x], x != r)), E(h, x, y))),
        ('independent variables first', A([x, y], z3.Implies(z3.And(
            R[x], x != r, z3.Not(Indep(x)), E(h0, r, y), Indep(y), done(x, y)), E(h, x, y)),
            MP(R[x], E(h0, r, y)), E(h, x, y)))]


def ps0(s, k, q, e, o):
    g = o['self']
    return ps_indep(s, k, e, g, e.heap.get(g, 'nodes'))


def ps1(s, k, q, e, o):
    g = o['self']
    N = e.heap.get(g, 'nodes')
    return ps_indep(s, N.keys.pos[idof(S0['setup'], s['node'])], e, g, N, s['node'], k)


def subgraph(h, h1, g):
    """E is E1 without redundant edges"""
    e1 = h1.set('dependencies')
    return [
        ('no new dependency', A([x, y], z3.Implies(E(h, x, y), E(h1, x, y)), E(h, x, y))),
        ('removed ones are indirect', A([x, y], z3.Implies(z3.And(E(h1, x, y), z3.Not(E(h, x, y))),
                                                           indirect(e1[x], e1, y)), E(h1, x, y)))]


def ps2(s, k, q, e, o):
    return ps_common(s, e, o['self']) + subgraph(s.heap, e.heap, o['self'])


def after_setup(V, s, x_, v_):
    S0['setup'] = s.heap.copy()
    s.assume(wf_all(s.heap))


def after_register(V, s, x_, v_):
    g = V.old['self']
    h = S0['setup']
    N, r = s.heap.get(g, 'nodes'), root_of(h, g)
    a = z3.Const('a', Obj)
    P = A([x], z3.Implies(z3.And(R[x], x != r), member(N, h, x)), R[x])
    # every needed node is registered: by induction on the rank, downwards
    t = s.fork()
    t.assume(R[a], a != r, A([x], z3.Implies(z3.And(R[x], x != r, rank(x) > rank(a)), member(N, h, x)), R[x]),
             R[par(a)], E(h, par(a), a))
    V.oblige('every needed node is registered', t, member(N, h, a))
    s.assume(P)
    Q = A([key], z3.Implies(N.keys.st[key], z3.And(R[N.m[key]], N.m[key] != r, idof(h, N.m[key]) == key)), N.keys.st[key])
    V.oblige('only needed nodes are registered', s, Q)
    s.assume(Q)
    S0['nodes'] = N


def before_fwd(V, s, x_):
    S0['final'] = s.heap.copy()
    g = V.old['self']
    V.oblige('simplified', s, subgraph(s.heap, S0['full'], g))
    return NotImplemented


def mark_full(V, s, x_):
    if 'full' not in S0 or S0.get('fullid') is not None:
        pass
    return NotImplemented


def after_fwd(V, s, x_, v_):
    g = V.old['self']
    h0, h1, h = S0['setup'], S0['full'], S0['final']
    r = root_of(h0, g)
    ef = h.set('dependencies')
    e1 = h1.set('dependencies')
    a, b = z3.Const('a', Obj), z3.Const('b', Obj)
    hu = lambda c: z3.And(R[uf(c)], E(h, uf(c), c))
    choice = A([x, y], z3.Implies(z3.And(R[x], E(h, x, y)), hu(y)), E(h, x, y))
    t = s.fork()
    t.assume(choice, R[a], E(h1, a, b), A([x, y], z3.Implies(z3.And(rank(x) < rank(a), R[x], E(h1, x, y)), hu(y)), E(h1, x, y)))
    V.oblige('a user remains', t, hu(b))
    s.assume(choice, A([x, y], z3.Implies(z3.And(R[x], E(h1, x, y)), hu(y)), E(h1, x, y)))
    # downwards from the root
    t = s.fork()
    t.assume(R[a], A([x], z3.Implies(z3.And(R[x], rank(x) > rank(a)), reach(ef, r, x)), R[x]),
             z3.Implies(a != r, z3.And(R[par(a)], E(h0, par(a), a))))
    V.oblige('every node is still needed', t, reach(ef, r, a))
    s.assume(A([x], z3.Implies(R[x], reach(ef, r, x)), R[x]))
    # induction principle of the closure
    V.oblige('closed', s, closed(h))
    s.assume(A([x], z3.Implies(reach(ef, r, x), R[x]), reach(ef, r, x)))
    k = s.heap
    s.assume(wf_all(k, 'dependents'))
    for nm, f in (
            ('dependents', A([x, y], z3.Implies(R[x], dep(k, x)[y] == z3.And(R[y], E(h, y, x))), dep(k, x)[y], E(h, y, x))),
            ('needed', A([x], z3.Implies(z3.And(R[x], x != r), ndep(k, x) >= 1), ndep(k, x)))):
        t = s.fork()
        if nm == 'needed':
            t.assume(z3.Implies(z3.And(R[a], a != r), z3.And(R[par(a)], E(h0, par(a), a))))
            V.oblige('a needed node has dependents', t, z3.Implies(z3.And(R[a], a != r), z3.And(dep(k, a)[uf(a)], ndep(k, a) >= 1)))
        else:
            V.oblige(nm, t, f)
        s.assume(f)
    first = k.get(r, 'dependents').at[0]
    V.oblige('first dependent', s, z3.Or(ndep(k, r) <= 0, dep(k, r)[first]))
    s.assume(z3.Or(ndep(k, r) <= 0, dep(k, r)[first]))
    V.oblige('nobody depends on the root', s, ndep(k, r) == 0)
    s.assume(ndep(k, r) == 0)
    # a list without duplicates is as long as its set is large
    s.assume(A([x], z3.Implies(R[x], z3.And(ndep(k, x) <= card(dep(k, x)), ndep(k, x) >= card(dep(k, x)))), card(dep(k, x))))


def after_topo(V, s, x_, L):
    g = V.old['self']
    h0, h1, h = S0['setup'], S0['full'], S0['final']
    r = root_of(h0, g)
    a, b = z3.Const('a', Obj), z3.Const('b', Obj)
    ok = lambda c, d: L.pos[c] < L.pos[d]
    t = s.fork()
    t.assume(R[a], a != r, E(h1, a, b), A([x, y], z3.Implies(z3.And(
        R[x], x != r, E(h1, x, y), rank(x) - rank(y) < rank(a) - rank(b)), ok(x, y)), E(h1, x, y)))
    V.oblige('order despite removed dependencies', t, ok(a, b))
    s.assume(A([x, y], z3.Implies(z3.And(R[x], x != r, E(h1, x, y)), ok(x, y)), E(h1, x, y)))


def add_component(V, s, x_):
    """OMGroup.add_subsystem(group, name, system, promotes...)"""
    g, e = V.old['self'], s['expr']
    h = s.heap
    kw = {}
    for q in x_.keywords:
        (s, v), = V.expr(s, q.value)
        kw[q.arg] = v
    vs = []
    for q in x_.args:
        (s, v), = V.expr(s, q)
        vs.append(v)
    if len(vs) != 3 or set(kw) != {'promotes', 'promotes_inputs', 'promotes_outputs'}:
        raise Unsup('arguments of add_subsystem')
    sub = Subsystem(e)
    nm = h.get(e, 'name')
    V.oblige('component of the group', s, vs[0] == g)
    V.oblige('name of the component', s, vs[1] == z3.If(sub, nm, cat(lit('comp_'), nm)))
    V.oblige('system of the component', s, vs[2] == built(e))
    star = lambda v: z3.And(v.n == 1, v.at[0] == STAR) if isinstance(v, VL) else z3.BoolVal(False)
    isnone = lambda v: v == none if z3.is_expr(v) else z3.BoolVal(False)
    P, PI, PO = (h.get(e, f) for f in ('promotes', 'promotes_inputs', 'promotes_outputs'))
    given = z3.Or(OMGroup(built(e)), P != none, PI != none, PO != none)
    p = kw['promotes']
    same = lambda v, w_: v == w_ if z3.is_expr(v) and v.sort() == Obj else z3.BoolVal(False)
    V.oblige('promotions', s, z3.If(z3.And(sub, given), same(p, P), star(p)))
    V.oblige('promoted inputs', s, z3.If(sub, same(kw['promotes_inputs'], PI), isnone(kw['promotes_inputs'])))
    V.oblige('promoted outputs', s, z3.If(sub, same(kw['promotes_outputs'], PO), isnone(kw['promotes_outputs'])))
    s.ghost['added'] = V.named(s, s.ghost['added'].append(e))
    return [(s, none)]


def do_build(V, s, x_):
    e = s['expr']
    V.oblige('it can be built', s, s.heap.get(e, 'build') != none)
    return [(s, built(e))]


def add_dv(V, s, x_):
    """OMGroup.add_design_var(name)"""
    e = s['expr']
    if len(x_.args) != 1 or x_.keywords:
        raise Unsup('arguments of add_design_var')
    (s, v), = V.expr(s, x_.args[0])
    V.oblige('name of the design variable', s, v == s.heap.get(e, 'name'))
    s.ghost['dvs'] = V.named(s, s.ghost['dvs'].append(e))
    return [(s, none)]


def ps6(s, k, q, e, o):
    h, L, M = s.heap, e.heap.get(o['self'], 'sorted_expressions'), s.ghost['added']
    W = s.ghost['dvs']
    return [
        ('design variables', A([x], W.st[x] == z3.And(L.st[x], L.pos[x] >= L.n - k, Indep(x), h.get(x, 'dv')), W.st[x])),
        ('design variables once', W.distinct()),
        ('components', A([x], M.st[x] == z3.And(L.st[x], L.pos[x] >= L.n - k, h.get(x, 'build') != none), M.st[x])),
        ('once', M.distinct()),
        ('order', A([x, y], z3.Implies(z3.And(M.st[x], M.st[y], L.pos[x] > L.pos[y]), M.pos[x] < M.pos[y]),
                    MP(M.pos[x], M.pos[y]))),
        ('defined', A([x], z3.Implies(z3.And(L.st[x], L.pos[x] >= L.n - k, Output(x)), h.get(x, 'defined')), L.st[x]))]


def keep_full(V, s, x_, v_):
    pass


def ps_ensures(s, o, r):
    h0, h1 = S0['setup'], S0['full']
    g = o['self']
    rt = root_of(h0, g)
    M, W = s.ghost['added'], s.ghost['dvs']
    has = lambda a: h0.get(a, 'build') != none
    return [
        ('exactly the needed components', A([x], M.st[x] == z3.And(R[x], x != rt, has(x)), M.st[x])),
        ('each component once', M.distinct()),
        ('no other dependency', A([x, y], z3.Implies(E(s.heap, x, y), z3.Or(E(h0, x, y), z3.And(
            R[x], Indep(y), z3.Not(Indep(x)), E(h0, rt, y)))), E(s.heap, x, y))),
        ('dependencies once', distinct_all(s.heap)), ('dependents once', distinct_all(s.heap, 'dependents')), ('root kept', s.heap.get(g, '_root') == rt),
        ('registered ones kept', A([x], E(s.heap, rt, x) == E(h0, rt, x), E(s.heap, rt, x), E(h0, rt, x))),
        ('what was there before kept', z3.And(*[s.heap.frame(h0, f) for f in (
            LAST, '_registered_before_setup', '_subsystem_before_setup', '_restarts')])),
        ('exactly the declared design variables', A([x], W.st[x] == z3.And(R[x], x != rt, Indep(x), h0.get(x, 'dv')), W.st[x])),
        ('each design variable once', W.distinct()),
        ('after what it depends on', A([x, y], z3.Implies(z3.And(M.st[x], has(y), E(h0, x, y)), M.pos[y] < M.pos[x]), E(h0, x, y))),
        ('independent variables first', A([x, y], z3.Implies(z3.And(
            M.st[x], z3.Not(Indep(x)), E(h0, rt, y), Indep(y), has(y)), M.pos[y] < M.pos[x]), MP(M.st[x], E(h0, rt, y))))] + [
                ('it can be set up again: ' + n, f) for n, f in T['_restart'].requires(s)]


def undefined_output(o):
    h0 = S0['setup']
    rt = root_of(h0, o['self'])
    return z3.Not(A([x], z3.Implies(z3.And(R[x], x != rt, Output(x)), h0.get(x, 'defined')), R[x]))


def ps2_entry(s, k, q, e, o):
    S0['full'] = e.heap
    return ps2(s, k, q, e, o)


contract('core/group.py', '_post_setup._sort_expressions_and_build_components', {'self': Obj}, modifies=list(FIELDS),
         requires=lambda s: T['_restart'].requires(s) + [
             (n, z3.Implies(s.heap.get(s['self'], '_static_mode'), f)) for n, f in ready(s.heap, s['self'])],
         ghost={'added': lambda: VL.empty(Obj), 'dvs': lambda: VL.empty(Obj)}, types={'keys': Name},
         facts=lambda s: [('empty prefix', A([key], cat(lit(''), key) == key, cat(lit(''), key)))],
         hooks={'func': ([], None, after_setup), ('*', 'register_nodes'): ([], None, after_register),
                ('*', 'add_fwd_edges'): ([], before_fwd, after_fwd), 'topological_sort': ([], None, after_topo),
                ('OMGroup', 'add_subsystem'): (['added'], add_component, None), ('expr', 'build'): ([], do_build, None),
                ('self', 'add_design_var'): (['dvs'], add_dv, None), 'delete': True},
         raises={'ValueError': undefined_output},
         loops={0: ps0, 1: ps1, 2: ps2_entry,
                3: lambda s, k, q, e, o: [('no node to drop', s['keys'].n == 0)], 4: lambda s, k, q, e, o: [],
                5: lambda s, k, q, e, o: [
                    ('same dependencies', A([x, y], E(s.heap, x, y) == E(e.heap, x, y), E(s.heap, x, y), E(e.heap, x, y))),
                    ('distinct', distinct_all(s.heap))],
                6: ps6},
         ensures=ps_ensures)


def run(ctx, name):
    S0.clear()
    run_contract(ctx, T[name], T, FIELDS, AXIOMS)


def run_contract(ctx, c, table, fields, axioms):
    vcx = VC(c, table, fields, ctx, axioms)
    ctx.backend = 'wp + z3'
    try:
        vcx.run()
    except Unsup as e:
        ctx.open('execution', 'outside the verifier: %s' % e)
    except Exception as e:
        ctx.open('execution', 'the contract does not fit the code: %s: %s' % (type(e).__name__, e))
    vcx.settle()


AXIOMS = AX_IND + AX_REACH(es)


WP = ['objects are compared and hashed by identity (the syntactic check groupc.identity)',
      'a rank exists for the acyclic graph (induction over it and over reflexive-transitive closure is applied by '
      'PyVC, each step an obligation); facts about lengths of duplicate-free lists and of finite sets',
      'the user changes the graph only through the API: no attribute of an expression or group is written from outside']
USER = ['what the user calls: operations on, and registration and definition by, existing expressions of the same '
        'group; an indexed assignment does not use the output itself (omtools raises RecursionError); a setup method '
        'uses the API only (that every such history satisfies graphc.model is proved: history lemmas of C12)',
        'an operation makes one expression that depends on exactly its operands (obligations deps of sysc.c12: for '
        'the listed programs); expr.build() changes no expression',
        'openmdao.Group.__init__ sets no attribute that the contracts speak of']


@reg('C13')
def c13(tier):
    for n in ('get_dependency_index', 'remove_dependency_by_index', 'remove_dependency_node', '_dedup_dependencies',
              'add_dependency_node', 'remove_indirect_dependencies'):
        yield T[n].name, lambda ctx, n=n: run(ctx, n)


@reg('C12')
def c12(tier):
    for n in ('_sort_expressions_and_build_components', '_restart', 'get_num_dependents', 'incr_times_visited', 'topological_sort', 'register_nodes', 'add_dependent_node',
              'add_fwd_edges', 'compute_dag_cost', 'sort_dependency_branches'):
        yield T[n].name, lambda ctx, n=n: run(ctx, n)
    from . import groupc, histc
    yield 'core:ownership', groupc.owned
    yield from histc.cases()


c13.info = {'assumptions': WP}
c12.info = {'assumptions': WP + USER}
