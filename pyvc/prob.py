"""The contract of openmdao.api.Problem as far as omtools' implicit components
use it: a model of explicit components, promoted to one name space, run in
the order in which they were added; exact total derivatives."""
from . import ints, terms, path
from .symom import Known
from .ints import I, const, norm, ravel, fresh_idx, Unsupported
from .terms import R, Cond, rel, rbase, rexp, rint, rpow, rcond, ONE, ZERO
from .terms import Base, atom
from .arr import Arr, Store, asarray, prodI

SOLVES = []
RUNS = []


def elsub(r, f):
    """replace the elements of arrays: f(name) is None or a function of the
    flat index"""
    out = ZERO
    for (bs, cs, fs), c in r.t.items():
        nc = frozenset(x if x.isint() else Cond(x.op, elsub(x.a, f)) for x in cs)
        t = R({(bs, nc, ()): c})
        for b, e in fs:
            if isinstance(e, R):
                e = elsub(e, f)
            g = f(b.args[0]) if b.kind == 'el' else None
            if g is not None:
                nb = g(b.args[1])
            elif b.kind in ('el', 'p', 'd', 'q'):
                nb = rbase(b)
            elif b.kind == 'e':
                nb = rexp(elsub(b.args[0], f))
            elif b.kind == 's':
                nb = rbase(Base('s', elsub(b.args[0], f)))
            elif b.kind == 'f':
                nb = terms.rfun(b.args[0], elsub(b.args[1], f))
            elif b.kind == 'g':
                nb = terms.rfun2(b.args[0], elsub(b.args[1], f), elsub(b.args[2], f))
            elif b.kind == 'm':
                nb = terms.rmax(b.args[0], b.args[1], elsub(b.args[2], f))
            else:
                raise Unsupported('substitution in ' + b.kind)
            t = t * (nb if e == 1 else rpow(nb, e))
        out = out + t
    return out


class Problem(Known):
    real = 'Problem'

    def __init__(self, model=None, **k):
        self.model = model
        self._val = None

    def setup(self, **k):
        from . import symom
        self._leaf, self._comps, self._val, self._last = {}, [], {}, None
        self._meta, self._fun = {}, None

        def flat(g):
            g._static_mode = False
            try:
                g.setup()
            finally:
                g._static_mode = True
            for name, sub, pr, pi, po in g._subs:
                if pr != ['*'] or pi is not None or po is not None:
                    raise Unsupported('promotions %r' % (pr, ))
                if isinstance(sub, symom.Group_):
                    flat(sub)
                elif isinstance(sub, symom.ExplicitComponent):
                    sub.setup()
                    sub._resolve()
                    self._comps.append(sub)
                else:
                    raise Unsupported('subsystem of type %s' % type(sub).__name__)
        flat(self.model)
        for c in self._comps:
            for n, m in c._out.items():
                if n in self._meta:
                    raise RuntimeError('output %s is promoted twice' % n)
                self._meta[n] = m
                self._val[n] = Store(m['dims'], m['val'].snap(), 'f')
        for c in self._comps:
            for n, m in c._inp.items():
                if n in self._val and n not in self._leaf:
                    continue
                if n in self._leaf:
                    continue
                self._leaf[n] = m
                self._meta[n] = m
                self._val[n] = Store(m['dims'], m['val'].snap(), 'f')
        return self

    def final_setup(self):
        pass

    def _arr(self, n):
        m = self._meta[n]
        return Arr(m['dims'], None, 'f', m['blk'], store=self._val[n])

    def __getitem__(self, n):
        if self._val is None:
            raise RuntimeError('setup has not been called')
        if n not in self._val:
            raise KeyError('Variable %r not found.' % n)
        return self._arr(n)

    get_val = __getitem__

    def __contains__(self, n):
        return n in self._val

    def __setitem__(self, n, v):
        from . import symom
        if self._val is None:
            raise RuntimeError('setup has not been called')
        if n not in self._val:
            raise KeyError('Variable %r not found.' % n)
        vec = symom.Vec({n: self._meta[n]}, lambda *a: None)
        vec._s[n] = self._val[n]
        vec[n] = v

    set_val = __setitem__

    _cyc = False

    def _eval(self, leaf):
        """values of all variables when the leaves have the given values"""
        from . import symom
        cur = dict(leaf)
        for c in self._comps:
            if isinstance(c, symom.IndepVarComp):
                for n in c._out:
                    cur.setdefault(n, self._val[n].fn)
                continue
            for n in c._inp:
                if n not in cur:
                    if not self._cyc:
                        raise Unsupported('component runs before its input %s is computed' % n)
                    cur[n] = self._val[n].fn    # of the previous iteration

            def inp(n, dims):
                f, sd = cur[n], [norm(d) for d in self._meta[n]['dims']]
                if sd == [norm(d) for d in dims]:
                    return f
                return lambda i: f(ints.unravel(ravel(i, dims), sd))
            iv = symom.Vec(c._inp, inp, 'input of a component')
            ov = symom.Vec(c._out, lambda n, dims: self._val[n].fn)
            c.compute(iv, ov)
            for n in c._out:
                cur[n] = ov._s[n].fn
        return cur

    def run_model(self, *a, **k):
        leaf = {n: self._val[n].fn for n in self._leaf}
        cur = self._eval(leaf)
        for n in cur:
            if n not in leaf:
                self._val[n].write(cur[n])
        self._last = leaf
        RUNS.append(self)

    def compute_totals(self, of=None, wrt=None, **k):
        """exact derivatives of the model at the point it was last run at"""
        if of is None or wrt is None:
            raise Unsupported('totals of the declared responses')
        of, wrt = list(of), list(wrt)
        last = self._last
        if last is None:
            last = {n: (lambda i, n=n: rel('unset:' + n, ravel(i, self._meta[n]['dims'])))
                    for n in self._leaf}
        if self._fun is None:
            self._fun = self._eval({
                n: (lambda i, n=n: rel('@' + n, ravel(i, self._meta[n]['dims']))) for n in self._leaf})
        res = {}
        for o in of:
            if o not in self._meta:
                raise KeyError('%r not found' % o)
            od = self._meta[o]['dims']
            for w in wrt:
                if w not in self._meta:
                    raise KeyError('%r not found' % w)
                if w not in self._leaf:
                    raise Unsupported('totals with respect to a computed variable')
                wd = self._meta[w]['dims']
                res[o, w] = Arr([norm(prodI(od)), norm(prodI(wd))], self._total(o, od, w, last), 'f')
        return res

    def _total(self, o, od, w, last):
        def val(n):
            if n[:1] == '@':
                n = n[1:]
                return lambda k: last[n](tuple(ints.unravel(k, self._meta[n]['dims'])))

        def fn(i):
            e = self._fun[o](tuple(ints.unravel(i[0], od)))
            d = terms.deriv(e, {'@' + w: '~e'})
            q = i[1]

            def sub(n):
                if n == '~e':
                    return lambda k: rcond(Cond('eq', k - q))
                return val(n)
            return elsub(d, sub)
        return fn
