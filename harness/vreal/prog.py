"""Programs: a JSON description of a model, built both with omtools and with
a NumPy oracle (complex-safe, so the oracle's Jacobian is obtained by the
complex step).

A program is a dict
  inputs : [{"name", "shape", "dom"}...]          (dom: value domain)
  nodes  : [{"op", "args":[int...], "kw":{...}}]   args index the value list
           (inputs first, then the nodes in order)
  outs   : [[name, value index]...]                registration order
  via    : "indep" | "input"
"""
import numpy as np

SPEC = {}      # op -> (build(ot, xs, kw), oracle(xs, kw))


def spec(name):
    def deco(cls):
        SPEC[name] = cls
        return cls
    return deco


def dekey(k):
    """JSON -> indexing key: int | ["s",a,b,c] | ["t", k...] """
    if isinstance(k, int):
        return k
    if k[0] == 's':
        return slice(k[1], k[2], k[3])
    return tuple(dekey(q) for q in k[1:])


def npkey(k, shape):
    """key with integer indices kept as size-one axes"""
    k = dekey(k)
    if not isinstance(k, tuple):
        k = (k, )
    return tuple(slice(q, q + 1) if isinstance(q, int) else q for q in k)


def arr1(v):
    v = np.asarray(v)
    return v.reshape((1, )) if v.shape == () else v


# --- elementwise functions -------------------------------------------------
EW = {
    'sin': (np.sin, 'any'),
    'cos': (np.cos, 'any'),
    'tan': (np.tan, 'unit'),
    'arcsin': (np.arcsin, 'unit'),
    'arccos': (np.arccos, 'unit'),
    'arctan': (np.arctan, 'any'),
    'sec': (lambda x: 1 / np.cos(x), 'unit'),
    'cosec': (lambda x: 1 / np.sin(x), 'sinok'),
    'cotan': (lambda x: np.cos(x) / np.sin(x), 'sinok'),
    'sinh': (np.sinh, 'any'),
    'cosh': (np.cosh, 'any'),
    'tanh': (np.tanh, 'any'),
    'sech': (lambda x: 1 / np.cosh(x), 'any'),
    'cosech': (lambda x: 1 / np.sinh(x), 'nonzero'),
    'cotanh': (lambda x: np.cosh(x) / np.sinh(x), 'nonzero'),
    'exp': (np.exp, 'any'),
    'log': (np.log, 'pos'),
    'log10': (lambda x: np.log(x) / np.log(10.), 'pos'),
}
for _n, (_f, _d) in EW.items():
    SPEC[_n] = (lambda ot, xs, kw, _n=_n: getattr(ot, _n)(xs[0]),
                lambda xs, kw, _f=_f: _f(xs[0]))


def const(kw):
    c, t = kw['c'], kw.get('t')
    if isinstance(c, list):
        return np.array(c, dtype=t or float)
    return np.dtype(t).type(c) if t else c


def exact(kw):
    c = const(kw)
    return c.astype(float) if hasattr(c, 'dtype') else c


BIN = {
    'add': (lambda a, b: a + b),
    'sub': (lambda a, b: a - b),
    'mul': (lambda a, b: a * b),
    'div': (lambda a, b: a / b),
}
for _n, _f in BIN.items():
    SPEC[_n] = (lambda ot, xs, kw, _f=_f: _f(xs[0], xs[1]),
                lambda xs, kw, _f=_f: _f(xs[0], xs[1]))
    # expression op constant, constant op expression
    SPEC[_n + '_c'] = (lambda ot, xs, kw, _f=_f: _f(xs[0], const(kw)),
                       lambda xs, kw, _f=_f: _f(xs[0], exact(kw)))
    SPEC['c_' + _n] = (lambda ot, xs, kw, _f=_f: _f(const(kw), xs[0]),
                       lambda xs, kw, _f=_f: _f(exact(kw), xs[0]))
SPEC['pow_c'] = (lambda ot, xs, kw: xs[0]**const(kw),
                 lambda xs, kw: cpow(xs[0], const(kw)))
SPEC['neg'] = (lambda ot, xs, kw: -xs[0], lambda xs, kw: -xs[0])
SPEC['pos'] = (lambda ot, xs, kw: +xs[0], lambda xs, kw: xs[0])


def cpow(x, p):
    """x**p, elementwise, complex safe for integral p and negative x"""
    p = np.broadcast_to(np.asarray(p, dtype=float), np.shape(x))
    out = np.empty(np.shape(x), dtype=np.asarray(x).dtype)
    it = np.nditer(np.asarray(x), flags=['multi_index'])
    for v in it:
        i = it.multi_index
        v = v[()]
        q = p[i]
        if q == int(q):
            q = int(q)
            r = v * 0 + 1
            for _ in range(abs(q)):
                r = r * v
            out[i] = r if q >= 0 else 1. / r
        else:
            out[i] = v**q
    return out


# --- reductions -------------------------------------------------------------
def _axes(kw):
    a = kw.get('axes')
    return None if a is None else tuple(a)


def o_sum(xs, kw):
    a = _axes(kw)
    if a is None:
        if len(xs) == 1:
            return arr1(np.sum(xs[0]))
        return sum(xs[1:], xs[0])
    return sum(np.sum(x, axis=a) for x in xs)


def o_avg(xs, kw):
    a = _axes(kw)
    if a is None:
        if len(xs) == 1:
            return arr1(np.sum(xs[0]) / xs[0].size)
        return sum(xs[1:], xs[0]) / len(xs)
    n = 1
    for i in a:
        n *= xs[0].shape[i]
    return sum(np.sum(x, axis=a) for x in xs) / (n * len(xs))


SPEC['sum'] = (lambda ot, xs, kw: ot.sum(*xs, axes=_axes(kw)), o_sum)
SPEC['average'] = (lambda ot, xs, kw: ot.average(*xs, axes=_axes(kw)), o_avg)


# --- products ---------------------------------------------------------------
def o_dot(xs, kw):
    if xs[0].ndim == 1:
        return arr1(np.sum(xs[0] * xs[1]))
    return np.sum(xs[0] * xs[1], axis=kw['axis'])


def o_inner(xs, kw):
    a, b = xs
    if a.ndim == 1 and b.ndim == 1:
        return arr1(np.sum(a * b))
    ax0, ax1 = kw['axes']
    # by definition: explicit sum over the paired axes
    r0 = [i for i in range(a.ndim) if i not in ax0]
    r1 = [i for i in range(b.ndim) if i not in ax1]
    out = np.zeros([a.shape[i] for i in r0] + [b.shape[i] for i in r1],
                   dtype=np.result_type(a, b))
    ap = np.transpose(a, r0 + list(ax0)).reshape(
        [a.shape[i] for i in r0] + [-1])
    bp = np.transpose(b, r1 + list(ax1)).reshape(
        [b.shape[i] for i in r1] + [-1])
    for k in range(ap.shape[-1]):
        out = out + np.multiply.outer(ap[..., k], bp[..., k])
    return out


def o_cross(xs, kw):
    a, b = xs
    ax = kw['axis']
    a = np.moveaxis(a, ax, 0)
    b = np.moveaxis(b, ax, 0)
    c = np.stack([
        a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0]
    ])
    return np.moveaxis(c, 0, ax)


def b_dot(ot, xs, kw):
    import contextlib, io
    with contextlib.redirect_stdout(io.StringIO()):
        return ot.dot(xs[0], xs[1], axis=kw.get('axis'))


SPEC['dot'] = (b_dot, o_dot)
SPEC['inner'] = (lambda ot, xs, kw: ot.inner(
    xs[0], xs[1], axes=tuple(tuple(a) if kw.get('tup') else list(a)
                             for a in kw['axes'])
    if kw.get('axes') is not None else None), o_inner)
SPEC['outer'] = (lambda ot, xs, kw: ot.outer(xs[0], xs[1]),
                 lambda xs, kw: np.multiply.outer(xs[0], xs[1]))
SPEC['matmat'] = (lambda ot, xs, kw: ot.matmat(xs[0], xs[1]),
                  lambda xs, kw: np.tensordot(xs[0], xs[1], axes=(1, 0)))
SPEC['matvec'] = (lambda ot, xs, kw: ot.matvec(xs[0], xs[1]),
                  lambda xs, kw: np.tensordot(xs[0], xs[1], axes=(1, 0)))
SPEC['cross'] = (lambda ot, xs, kw: ot.cross(xs[0], xs[1], axis=kw['axis']),
                 o_cross)


def o_einsum(xs, kw):
    """contraction by definition (broadcasting every operand to all labels)"""
    s = kw['sub'].replace(' ', '')
    ins, out = s.split('->')
    ins = ins.split(',')
    labels = []
    for c in ''.join(ins):
        if c not in labels:
            labels.append(c)
    dims = {}
    for t, x in zip(ins, xs):
        for c, n in zip(t, x.shape):
            assert dims.setdefault(c, n) == n
    prod = 1.
    for t, x in zip(ins, xs):
        order = sorted(range(len(t)), key=lambda i: labels.index(t[i]))
        y = np.transpose(x, order)
        y = y.reshape([dims[c] if c in t else 1 for c in labels])
        prod = prod * y
    prod = np.broadcast_to(prod, [dims[c] for c in labels])
    red = tuple(i for i, c in enumerate(labels) if c not in out)
    r = np.sum(prod, axis=red) if red else prod
    kept = [c for c in labels if c in out]
    r = np.transpose(r, [kept.index(c) for c in out])
    return arr1(r)


def b_einsum(ot, xs, kw):
    return ot.einsum(*xs, subscripts=kw['sub'], partial_format=kw.get(
        'fmt', 'dense'))


def b_einsum_new(ot, xs, kw):
    s = kw['sub']
    ins, out = s.split('->')
    nm = kw.get('names') or {}
    op = [tuple(nm.get(c, c) for c in t) for t in ins.split(',')]
    if out or not kw.get('omit', True):
        op.append(tuple(nm.get(c, c) for c in out))
    return ot.einsum_new_api(*xs, operation=op,
                             partial_format=kw.get('fmt', 'dense'))


SPEC['einsum'] = (b_einsum, o_einsum)
SPEC['einsum_new'] = (b_einsum_new, o_einsum)

# --- rearrangement ----------------------------------------------------------
SPEC['reshape'] = (lambda ot, xs, kw: ot.reshape(xs[0], tuple(kw['shape'])),
                   lambda xs, kw: xs[0].reshape(kw['shape']))
SPEC['transpose'] = (lambda ot, xs, kw: ot.transpose(xs[0]),
                     lambda xs, kw: np.transpose(
                         xs[0], list(range(xs[0].ndim))[::-1]))


def o_reorder(xs, kw):
    i, o = kw['sub'].replace(' ', '').split('->')
    return np.transpose(xs[0], [i.index(c) for c in o])


SPEC['reorder_axes'] = (lambda ot, xs, kw: ot.reorder_axes(xs[0], kw['sub']),
                        o_reorder)


def o_expand(xs, kw):
    x = xs[0]
    shape = tuple(kw['shape'])
    if x.shape == (1, ):
        return np.zeros(shape) + x[0]
    i, o = kw['sub'].split('->')
    y = x.reshape([x.shape[i.index(c)] if c in i else 1 for c in o])
    return np.zeros(shape) + y


SPEC['expand'] = (lambda ot, xs, kw: ot.expand(xs[0], tuple(kw['shape']), kw[
    'sub']) if kw.get('sub') else ot.expand(xs[0], tuple(kw['shape'])),
                  o_expand)


# --- KS ----------------------------------------------------------------------
def ks(x, rho, axis):
    m = np.max(np.real(x), axis=axis, keepdims=True)
    s = np.log(np.sum(np.exp(rho * (x - m)), axis=axis)) / rho
    return s + m.reshape(s.shape)


def o_ext(sign):
    def f(xs, kw):
        rho = kw.get('rho') or 20.
        ax = kw.get('axis')
        if len(xs) > 1:
            return sign * ks(sign * np.stack(xs), rho, 0)
        if ax is None:
            return arr1(sign * ks(sign * xs[0].reshape(-1), rho, 0))
        return sign * ks(sign * xs[0], rho, ax)

    return f


def b_ext(n):
    def f(ot, xs, kw):
        k = {}
        if kw.get('axis') is not None:
            k['axis'] = kw['axis']
        if kw.get('rho') is not None:
            k['rho'] = kw['rho']
        return getattr(ot, n)(*xs, **k)

    return f


SPEC['max'] = (b_ext('max'), o_ext(1.))
SPEC['min'] = (b_ext('min'), o_ext(-1.))


def o_pnorm(xs, kw):
    p = kw.get('p') or 2
    a = kw.get('axis')
    if a is None:
        return arr1(np.sum(cpow(xs[0], p))**(1. / p))
    a = tuple(a) if isinstance(a, list) else (a, )
    return np.sum(cpow(xs[0], p), axis=a)**(1. / p)


def b_pnorm(ot, xs, kw):
    k = {}
    if kw.get('p') is not None:
        k['pnorm_type'] = kw['p']
    a = kw.get('axis')
    if a is not None:
        k['axis'] = tuple(a) if isinstance(a, list) else a
    return ot.pnorm(xs[0], **k)


SPEC['pnorm'] = (b_pnorm, o_pnorm)


def o_rotmat(xs, kw):
    a = xs[0]
    c, s = np.cos(a), np.sin(a)
    o, z = np.ones(a.shape), np.zeros(a.shape)
    M = {
        'x': [[o, z, z], [z, c, -s], [z, s, c]],
        'y': [[c, z, s], [z, o, z], [-s, z, c]],
        'z': [[c, -s, z], [s, c, z], [z, z, o]]
    }[kw['axis']]
    r = np.stack([np.stack(row, axis=-1) for row in M], axis=-2)
    return r[0] if a.shape == (1, ) else r


SPEC['rotmat'] = (lambda ot, xs, kw: ot.rotmat(xs[0], kw['axis']), o_rotmat)

SPEC['getitem'] = (lambda ot, xs, kw: xs[0][dekey(kw['key'])],
                   lambda xs, kw: xs[0][npkey(kw['key'], xs[0].shape)])


def o_ifelse(xs, kw):
    c = np.real(xs[0]).reshape(-1)[0]
    return (xs[2] if c < 0 else xs[1]) + 0 * np.imag(0)


SPEC['if_else'] = (lambda ot, xs, kw: ot.if_else(xs[0], xs[1], xs[2]),
                   o_ifelse)


# --- evaluation ---------------------------------------------------------------
def oracle(prog, point):
    vals = [np.array(point[i['name']]) for i in prog['inputs']]
    for nd in prog['nodes']:
        if nd['op'] == 'assign':      # indexed assignment, see runner
            out = np.zeros(nd['kw']['shape'], dtype=complex)
            out[...] = np.nan
            for k, a in nd['kw']['keys']:
                out[npkey(k, out.shape)] = vals[a]
            vals.append(out)
            continue
        vals.append(
            SPEC[nd['op']][1]([vals[a] for a in nd['args']], nd.get('kw', {})))
    return vals


def sample(dom, shape, rng):
    n = tuple(shape)
    if dom == 'any':
        return rng.normal(size=n) * 1.5
    if dom == 'unit':
        return rng.uniform(-.9, .9, size=n)
    if dom == 'pos':
        return rng.uniform(.3, 3., size=n)
    if dom == 'nonzero':
        return rng.uniform(.4, 2.5, size=n) * rng.choice([-1., 1.], size=n)
    if dom == 'sinok':
        return rng.uniform(.4, 2.7, size=n) * rng.choice([-1., 1.], size=n)
    if dom == 'neg':
        return -rng.uniform(.3, 3., size=n)
    if dom == 'big':
        return rng.normal(size=n) * 10.**rng.integers(2, 6)
    if dom == 'tie':
        return rng.integers(-2, 3, size=n).astype(float)
    if dom == 'zero':
        return np.zeros(n)
    if dom == 'angle':
        return rng.uniform(-7., 7., size=n)
    raise ValueError(dom)


def jacobian(prog, point, outs):
    """complex-step Jacobian of the oracle: {(out, in): 2-D array}"""
    base = oracle(prog, point)
    jac = {}
    h = 1e-40
    for inp in prog['inputs']:
        n = inp['name']
        x = np.array(point[n], dtype=complex)
        cols = {o: [] for o, _ in outs}
        for k in range(x.size):
            y = x.copy()
            y.reshape(-1)[k] += 1j * h
            q = dict(point)
            q[n] = y
            with np.errstate(all='ignore'):
                v = oracle(prog, q)
            for o, i in outs:
                cols[o].append(np.imag(np.asarray(v[i]) + 0j).reshape(-1) / h)
        for o, i in outs:
            jac[o, n] = np.array(cols[o]).T
    return base, jac
