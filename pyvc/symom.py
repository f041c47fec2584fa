"""Stubs of the OpenMDAO interface: their behaviour is the assumed contract of
OpenMDAO (see DESIGN.md)."""
import fnmatch
import json
import os
import types

from . import ints, terms, path
from .arr import *
from .arr import Arr, _int, Unsupported, FrameError, SymShape

_NONE = object()


with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'om_attrs.json')) as _f:
    REAL = {k: frozenset(v) for k, v in json.load(_f).items()}
# looked up with a default by the code under test
OVERRIDES = ('apply_linear', 'apply_multi_linear', 'solve_multi_linear')


class Known:
    """an attribute the real class has and the stub lacks is outside the verifier,
    any other missing attribute is an error of the code"""

    def __getattr__(self, name):
        for c in type(self).__mro__ if not name.startswith('__') else ():
            k = getattr(c, '__dict__', {}).get('real')
            if k and name in REAL[k] and name not in OVERRIDES:
                raise Unsupported('%s.%s of OpenMDAO' % (k, name))
        raise AttributeError('%r object has no attribute %r' % (type(self).__name__, name))


class OptionsDictionary(Known):
    """openmdao.utils.options_dictionary.OptionsDictionary"""
    real = 'OptionsDictionary'

    def __init__(self, parent_name=None, read_only=False):
        self._d = {}

    def declare(self, name, default=_NONE, values=None, types=None, desc='',
                upper=None, lower=None, check_valid=None, allow_none=False,
                recordable=True, set_function=None, deprecation=None):
        self._d[name] = dict(values=values, types=types, upper=upper,
                             lower=lower, check_valid=check_valid,
                             allow_none=allow_none, val=default,
                             set=default is not _NONE)
        if default is None:
            self._d[name]['allow_none'] = True

    def undeclare(self, name):
        self._d.pop(name, None)

    def _valid(self, name, m, v):
        if v is None and m['allow_none']:
            return
        if m['values'] is not None:
            if v not in m['values']:
                raise ValueError('Value of option %s is not one of %r' % (name, m['values']))
        elif m['types'] is not None:
            t = m['types'] if isinstance(m['types'], (list, tuple)) else (m['types'], )
            if not any(isinstance(v, x) for x in t):
                raise TypeError('Value (%r) of option %r has type %r, but one of %r was expected' % (v, name, type(v), t))
        if m['upper'] is not None and v > m['upper']:
            raise ValueError('option %s exceeds its upper bound' % name)
        if m['lower'] is not None and v < m['lower']:
            raise ValueError('option %s below its lower bound' % name)
        if m['check_valid'] is not None:
            m['check_valid'](name, v)

    def __setitem__(self, name, v):
        if name not in self._d:
            raise KeyError('Option %r cannot be set because it has not been declared.' % name)
        m = self._d[name]
        self._valid(name, m, v)
        m['val'], m['set'] = v, True

    def __getitem__(self, name):
        m = self._d[name]
        if not m['set']:
            raise RuntimeError('Option %r is required but has not been set.' % name)
        return m['val']

    def __contains__(self, name):
        return name in self._d

    def update(self, d):
        for k in d:
            self[k] = d[k]


class Comp(Known):
    """System / Component part shared by explicit and implicit components"""

    def __init__(self, **kw):
        self.options = OptionsDictionary()
        self.options.declare('distributed', default=False)
        self.options.declare('derivs_method', default=None, allow_none=True)
        self.options.declare('assembled_jac_type', default='csc')
        self._inp, self._out = {}, {}
        self._raw = []
        self._jac = {}
        self._events = []
        self.name = ''
        self.pathname = ''
        self.initialize()
        for k, v in kw.items():
            self.options[k] = v

    def initialize(self):
        pass

    def setup(self):
        pass

    def compute(self, inputs, outputs):
        raise NotImplementedError()

    def compute_partials(self, inputs, partials):
        pass

    def set_check_partial_options(self, *a, **k):
        pass

    def _meta(self, name, val, shape, what):
        if not isinstance(name, str):
            raise TypeError('The name argument should be a string.')
        if name in self._inp or name in self._out:
            raise ValueError('Variable name %r already exists.' % name)
        if isinstance(val, (list, tuple)):
            val = asarray(val)
        if shape is not None:
            if isinstance(shape, Arr):
                shape = tuple(shape)
            if isinstance(shape, (_int, SymInt)):
                shape = (shape, )
            if not isinstance(shape, tuple):
                shape = tuple(shape)
            dims, blk = parse_shape(shape)
            if isinstance(val, Arr) and len(val.dims) > 0:
                # ensure_compatible: broadcast to the shape, or equal size
                try:
                    f = bcast_to(val, dims, blk, 'f')
                    v = Arr(dims, f, 'f', blk)
                except ValueError:
                    raise ValueError('Incompatible shape for %r' % name)
            else:
                v = Arr(dims, bcast_to(val, dims, blk, 'f'), 'f', blk)
        else:
            v = asarray(val)
            v = v.reshape(1) if not v.dims else v
            v = v.astype(float)
            dims, blk = v.dims, v.blk
        return dict(dims=dims, blk=blk, val=v, given=val)

    def add_input(self, name, val=1.0, shape=None, src_indices=None, flat_src_indices=None,
                  units=None, desc='', **k):
        self._inp[name] = self._meta(name, val, shape, 'in')
        self._inp[name]['units'] = units

    def add_output(self, name, val=1.0, shape=None, units=None, res_units=None, desc='',
                   lower=None, upper=None, **k):
        self._out[name] = self._meta(name, val, shape, 'out')
        self._out[name]['units'] = units

    def declare_partials(self, of, wrt, dependent=True, rows=None, cols=None, val=None,
                         method='exact', step=None, form=None, step_calc=None):
        if method != 'exact':
            raise Unsupported('approximated partial derivatives')
        self._raw.append((of, wrt, dependent, rows, cols, val))

    def _resolve(self):
        """patterns of the declarations, as OpenMDAO resolves them"""
        for of, wrt, dep, rows, cols, val in self._raw:
            ofs = [of] if isinstance(of, str) else list(of)
            wrts = [wrt] if isinstance(wrt, str) else list(wrt)
            om = [n for p in ofs for n in self._out if fnmatch.fnmatchcase(n, p)]
            wm = [n for p in wrts for n in list(self._inp) + list(self._out if self.implicit else []) if fnmatch.fnmatchcase(n, p)]
            for p in ofs:
                if not any(fnmatch.fnmatchcase(n, p) for n in self._out):
                    raise ValueError('No matches were found for of=%r' % p)
            for p in wrts:
                if not any(fnmatch.fnmatchcase(n, p) for n in list(self._inp) + list(self._out)):
                    raise ValueError('No matches were found for wrt=%r' % p)
            if not dep:
                continue
            for o in om:
                for w in wm:
                    self._jac[o, w] = self._subjac(o, w, rows, cols, val)

    implicit = False

    def _subjac(self, o, w, rows, cols, val):
        no = prodI(self._out[o]['dims'])
        nw = prodI((self._inp.get(w) or self._out[w])['dims'])
        j = {'of': o, 'wrt': w, 'no': norm(no), 'nw': norm(nw)}
        if (rows is None) != (cols is None):
            raise ValueError('rows and cols must both be given')
        if rows is not None:
            r, c = asarray(rows), asarray(cols)
            if len(r.dims) != 1 or len(c.dims) != 1:
                raise ValueError('rows and cols must be one-dimensional')
            if norm(r.dims[0]) != norm(c.dims[0]) and not path.branch(('c', Cond('eq', r.dims[0] - c.dims[0]))):
                raise ValueError('rows and cols must have the same size')
            j.update(rows=r.snap(), cols=c.snap(), n=norm(r.dims[0]))
            if r.kind != 'i' or c.kind != 'i':
                raise ValueError('rows and cols must be integers')
            dims = [j['n']]
        else:
            j['n'] = None
            dims = [norm(no), norm(nw)]
        j['const'] = val is not None
        j['dims'] = dims
        if val is not None:
            v = asarray(val)
            if not v.dims or all(norm(d) == const(1) for d in v.dims):
                f = bcast_to(v if not v.dims else v.reshape(1), dims, None, 'f')
            else:
                if norm(prodI(v.dims)) != norm(prodI(dims)):
                    raise ValueError('Partial derivative value of wrong size')
                f = v.astype(float).reshape(tuple(mkint(d) for d in dims)).snap()
            j['fn'] = f
        else:
            j['fn'] = lambda i: terms.ZERO
        j['store'] = Store(dims, j['fn'], 'f')
        j['set'] = val is not None
        return j


class Group_(Comp):
    real = 'Group'
    _static_mode = True


class ExplicitComponent(Comp):
    real = 'ExplicitComponent'
    _static_mode = True


class IndepVarComp(ExplicitComponent):
    def __init__(self, name=None, val=1.0, **kw):
        self._ind = []
        Comp.__init__(self)
        if isinstance(name, str):
            self.add_output(name, val, **kw)


class ImplicitComponent(Comp):
    implicit = True
    real = 'ImplicitComponent'
    _static_mode = True

    def apply_nonlinear(self, inputs, outputs, residuals):
        pass

    def solve_nonlinear(self, inputs, outputs):
        pass

    def linearize(self, inputs, outputs, partials):
        pass


class Vec(Known):
    real = 'Vec'

    """inputs or outputs as the component sees them"""

    def __init__(self, metas, names, ro=None):
        self._m = metas
        self._s = {}
        for n, m in metas.items():
            dims = m['dims']
            self._s[n] = Store(dims, names(n, dims), 'f', ro and ro + ' ' + n)

    def __getitem__(self, n):
        if n not in self._s:
            raise KeyError('Variable name %r not found.' % n)
        m = self._m[n]
        return Arr(m['dims'], None, 'f', m['blk'], store=self._s[n])

    def __contains__(self, n):
        return n in self._s

    def __iter__(self):
        return iter(list(self._s))

    def keys(self):
        return list(self._s)

    def items(self):
        return [(n, self[n]) for n in self._s]

    def values(self):
        return [self[n] for n in self._s]

    def __len__(self):
        return len(self._s)

    def __setitem__(self, n, v):
        if n not in self._s:
            raise KeyError('Variable name %r not found.' % n)
        m = self._m[n]
        tgt = self[n]
        v = asarray(v)
        if v.kind == 'b':
            raise Unsupported('assignment of conditions')
        if v.dims and norm(prodI(v.dims)) == norm(prodI(m['dims'])):
            # equal sizes: broadcasting (if possible) and reshaping agree
            f = conv(v.snap(), v.kind, 'f')
            vd, td = v.dims, m['dims']
            if [norm(x) for x in vd] == [norm(x) for x in td] and tuple(v.blk) == tuple(m['blk']):
                g = f
            else:
                g = lambda i: f(ints.unravel(ints.ravel(i, td), vd))
            if tgt.store.ro:
                raise FrameError('assignment destination is read-only: ' + tgt.store.ro)
            tgt.store.write(g)
            return
        try:
            tgt[...] = v
        except FrameError:
            raise
        except ValueError:
            raise ValueError('Incompatible shape for %r' % n)


class Partials(Known):
    real = 'Partials'

    def __init__(self, comp, stale):
        self._j = comp._jac
        self._c = comp
        for k, j in self._j.items():
            if stale and not j['const']:
                d = j['dims']
                nm = 'stale:%s:%s' % k
                j['store'] = Store(d, lambda i, nm=nm, d=d: terms.rel(nm, ints.ravel(i, d)), 'f')
            else:
                j['store'] = Store(j['dims'], j['fn'], 'f')

    def _get(self, k):
        if not isinstance(k, tuple) or len(k) != 2:
            raise KeyError(k)
        if k not in self._j:
            raise KeyError('Variable name pair %r not found or not declared.' % (k, ))
        return self._j[k]

    def __contains__(self, k):
        return k in self._j

    def __iter__(self):
        return iter(list(self._j))

    def keys(self):
        return list(self._j)

    def __getitem__(self, k):
        j = self._get(k)
        return Arr(j['dims'], None, 'f', store=j['store'])

    def __setitem__(self, k, v):
        j = self._get(k)
        tgt = self[k]
        v = asarray(v)
        if v.kind == 'b':
            raise Unsupported('assignment of conditions')
        if j['n'] is None:
            if not v.dims or all(norm(x) == const(1) for x in v.dims):
                tgt[...] = v if not v.dims else v.reshape(1)
                return
            if norm(prodI(v.dims)) != norm(prodI(j['dims'])) and not path.branch(
                    ('c', Cond('eq', prodI(v.dims) - prodI(j['dims'])))):
                raise ValueError('cannot reshape the partial derivative %r' % (k, ))
            tgt[...] = v.astype(float)._flat(True).reshape(tuple(mkint(x) for x in j['dims']))
            return
        tgt[...] = v


# ---------------------------------------------------------------- modules
def modules():
    api = types.ModuleType('openmdao.api')

    from .prob import Problem

    class Group(Group_):
        """records what is added, in order"""

        def __init__(self, **kw):
            self._subs = []
            self._connections = []
            self._design_vars, self._static_design_vars = {}, {}
            self._responses = {}
            Comp.__init__(self, **kw)

        def add_design_var(self, name, **k):
            if name in self._design_vars:
                raise RuntimeError('design variable %r already exists' % name)
            self._design_vars[name] = k

        def add_constraint(self, name, **k):
            if name in self._responses:
                raise RuntimeError('response %r already exists' % name)
            self._responses[name] = k

        add_objective = add_constraint

        def add_subsystem(self, name, sub, promotes=None, promotes_inputs=None, promotes_outputs=None, **k):
            if name in [s[0] for s in self._subs]:
                raise RuntimeError('Subsystem name %r is already used.' % name)
            self._subs.append((name, sub, promotes, promotes_inputs, promotes_outputs))
            return sub

        def connect(self, src, tgt, *a, **k):
            self._connections.append((src, tgt))

        def set_order(self, order):
            self._order = list(order)

        def _promote(self, *a, **k):
            pass

    for n, v in dict(ExplicitComponent=ExplicitComponent, ImplicitComponent=ImplicitComponent,
                     Problem=Problem, Group=Group, IndepVarComp=IndepVarComp,
                     OptionsDictionary=OptionsDictionary).items():
        setattr(api, n, v)

    def anyattr(name):
        if name.startswith('__'):
            raise AttributeError(name)
        c = type(name, (), {'__init__': lambda self, *a, **k: None})
        setattr(api, name, c)
        return c
    api.__getattr__ = anyattr
    return {'openmdao.api': api, 'openmdao.core.explicitcomponent': api,
            'openmdao.core.implicitcomponent': api, 'openmdao.core.group': api,
            'openmdao.core.problem': api, 'openmdao.core.indepvarcomp': api}
