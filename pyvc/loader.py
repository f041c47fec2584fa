"""Executes the unchanged source text of /repo/omtools with symbolic
builtins, NumPy and OpenMDAO.  Nothing of the text is dropped or rewritten;
print, exit and guppy are replaced."""
import ast
import builtins
import hashlib
import os
import sys
import types

from . import symnp, symom, arr, seqs
from .arr import SymInt, SymReal, Unsupported

REPO = os.environ.get('VERIF_REPO', '/repo')


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.int, SymInt))

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.int)

    def __call__(cls, *a, **k):
        if a and builtins.isinstance(a[0], SymInt):
            return a[0]
        if a and builtins.isinstance(a[0], SymReal):
            return arr.mkint(arr.r2i(a[0].r))
        if a and builtins.isinstance(a[0], arr.Arr):
            return cls(a[0].item())
        return builtins.int(*a, **k)

    def __repr__(cls):
        return "<class 'int'>"

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class _FloatMeta(_IntMeta):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (builtins.float, SymReal))

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.float)

    def __call__(cls, *a):
        if a and builtins.isinstance(a[0], (SymInt, SymReal)):
            return arr.mkreal(arr.to_R(a[0]))
        if a and builtins.isinstance(a[0], arr.Arr):
            return cls(a[0].item())
        return builtins.float(*a)

    def __repr__(cls):
        return "<class 'float'>"

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class _TupleMeta(_IntMeta):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, builtins.tuple)

    def __subclasscheck__(cls, c):
        return builtins.issubclass(c, builtins.tuple)

    def __call__(cls, *a):
        if a and builtins.isinstance(a[0], arr.SymShape) and a[0].resolved() is None:
            return a[0]
        return builtins.tuple(*a)

    def __repr__(cls):
        return "<class 'tuple'>"

    def __eq__(cls, o):
        return o is cls or o is builtins.tuple

    def __hash__(cls):
        return hash(builtins.tuple)


_Tuple = _TupleMeta('tuple', (), {})
_Int = _IntMeta('int', (), {})
_Float = _FloatMeta('float', (), {})


class Exited(Exception):
    """the code called exit()"""


def _exit(*a):
    raise Exited('exit() called')


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.sources = {}
        self.ext = symom.modules()
        self.ext['numpy'] = symnp.mod
        self.ext['numpy.linalg'] = symnp.mod.linalg
        g = types.ModuleType('guppy')
        g.hpy = lambda *a: None
        self.ext['guppy'] = g
        self.bi = dict(vars(builtins))
        self.bi.update(int=_Int, float=_Float, tuple=_Tuple, print=lambda *a, **k: None,
                       range=seqs.sym_range, len=seqs.sym_len, list=seqs.sym_list,
                       set=seqs.sym_set, exit=_exit, quit=_exit, input=_exit,
                       __import__=self._import)

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            raise Unsupported('relative import')
        top = name.split('.')[0]
        if top == 'omtools':
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            setattr(m, f, self.load(name + '.' + f))
                        except FileNotFoundError:
                            raise ImportError('cannot import name %r from %r' % (f, name))
                return m
            return self.load(top)
        if name in self.ext:
            m = self.ext[name]
            return m if fromlist or '.' not in name else self._pkg(name)
        if top in ('numpy', 'openmdao', 'scipy', 'matplotlib', 'networkx', 'guppy'):
            if top == 'openmdao':
                m = self.ext['openmdao.api']
                return m if fromlist else self._pkg('openmdao.api')
            m = types.ModuleType(name)

            def ga(n, name=name):
                if n.startswith('__'):
                    raise AttributeError(n)

                def f(*a, **k):
                    raise Unsupported('%s.%s' % (name, n))
                return f
            m.__getattr__ = ga
            self.ext[name] = m
            return m
        return builtins.__import__(name, globals, locals, fromlist, level)

    def _pkg(self, name):
        top, rest = name.split('.', 1)
        p = types.ModuleType(top)
        setattr(p, rest, self.ext[name])
        return p

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(self.repo, *name.split('.'))
        pkg = os.path.isdir(base)
        fn = os.path.join(base, '__init__.py') if pkg else base + '.py'
        m = types.ModuleType(name)
        m.__file__ = fn
        m.__dict__['__builtins__'] = self.bi
        if pkg:
            m.__path__ = [base]
            self.mods[name] = m
            if not os.path.exists(fn):
                return m
        if not os.path.exists(fn):
            raise FileNotFoundError(fn)
        src = open(fn, encoding='utf-8').read()
        self.sources[os.path.relpath(fn, self.repo)] = hashlib.sha256(src.encode()).hexdigest()
        self.mods[name] = m
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            setattr(self.load(par), leaf, m)
        try:
            exec(compile(src, fn, 'exec'), m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        return m
