"""Load tti's current source from /repo/tti against the symbolic numpy/pandas."""
import builtins
import importlib
import os
import sys
import types

import numpy as np

from . import astmerge, core, strict, symnp, sympd
from .core import Sym, SymBool, SymError, lift, smax, ssum

REPO = os.environ.get('SYMX_REPO', '/repo')


class _SymFloat(float):
    _symkind = 'f'


def _isinstance(x, cls):
    if isinstance(x, (Sym, SymBool)):
        if isinstance(cls, tuple):
            return any(_isinstance(x, c) for c in cls)
        import numbers
        if isinstance(x, SymBool):
            return cls in (bool, int, object)
        if x.ty == 'int':
            return cls in (int, object, numbers.Number, numbers.Integral, numbers.Real)
        if x.ty == 'bool':
            return cls in (bool, int, object, numbers.Number, numbers.Integral, numbers.Real)
        return cls in (float, object, np.floating, numbers.Number, numbers.Real) or \
            (isinstance(cls, type) and (issubclass(cls, np.float64)))
    if hasattr(cls, '__args__') and not isinstance(cls, type):
        return any(_isinstance(x, c) for c in cls.__args__)
    if isinstance(cls, tuple):
        return any(_isinstance(x, c) for c in cls)
    if isinstance(cls, type) and hasattr(cls, '_symkind') and cls.__mro__[1] in (np.float64, np.int64):
        cls = cls.__mro__[1]
    return isinstance(x, cls)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return _isinstance(x, float)


class TypeProxy:
    pass


def _type(*a):
    if len(a) == 1 and isinstance(a[0], Sym):
        return {'int': int, 'bool': bool}.get(a[0].ty, float)
    if len(a) == 1 and isinstance(a[0], SymBool):
        return bool
    return type(*a)


def mk_builtins(imp):
    d = dict(builtins.__dict__)
    rf, ri, rb = float, int, bool

    # float()/int()/bool() must stay usable as types; calls on Sym are redirected by
    # metaclass tricks only when the argument is symbolic.
    class FM(type):
        def __call__(cls, *a, **k):
            if a and isinstance(a[0], (Sym, SymBool)):
                x = lift(a[0])
                return core.Sym(x.p, x.nan, x.pi, x.ni) if x.ty == 'int' or type(x) is core.Raw else x
            if a and isinstance(a[0], np.ndarray) and a[0].dtype == object and a[0].size == 1:
                return cls(a[0].flat[0])
            return rf(*a, **k)

        def __instancecheck__(cls, x):
            return _isinstance(x, rf)

        def __subclasscheck__(cls, c):
            return issubclass(c, rf)

        def __eq__(cls, o):
            return o is rf or type.__eq__(cls, o) is True

        def __hash__(cls):
            return hash(rf)

        def __repr__(cls):
            return repr(rf)

    class IM(type):
        def __call__(cls, *a, **k):
            if a and isinstance(a[0], (Sym, SymBool)):
                if isinstance(a[0], Sym) and a[0].ty == 'int':
                    return a[0]
                return symnp.astype_cell(a[0], 'i')
            return ri(*a, **k)

        def __instancecheck__(cls, x):
            return _isinstance(x, ri)

        def __subclasscheck__(cls, c):
            return issubclass(c, ri)

        def __eq__(cls, o):
            return o is ri or type.__eq__(cls, o) is True

        def __hash__(cls):
            return hash(ri)

        def __repr__(cls):
            return repr(ri)

    class xfloat(metaclass=FM):
        _symkind = 'f'
        __name__ = 'float'
        fromhex = float.fromhex

    class xint(metaclass=IM):
        _symkind = 'i'
        __name__ = 'int'
        from_bytes = int.from_bytes
    xfloat.__name__ = 'float'
    xint.__name__ = 'int'
    xfloat.__qualname__ = 'float'
    xint.__qualname__ = 'int'

    def real_type(c):
        return rf if c is xfloat else (ri if c is xint else c)

    def isinst(x, cls):
        if isinstance(cls, tuple):
            return any(isinst(x, c) for c in cls)
        return _isinstance(x, real_type(cls))

    def xabs(x):
        return abs(x)

    def xsum(it, start=0):
        xs = list(it)
        if any(isinstance(x, (Sym, SymBool)) for x in xs):
            return ssum([lift(x) for x in xs] + [lift(start)])
        return sum(xs, start)

    def xmm(which, real):
        def f(*a, **k):
            xs = list(a[0]) if len(a) == 1 else list(a)
            if any(isinstance(x, Sym) for x in xs) and 'key' not in k:
                # python max(): first wins on ties; NaN order-dependent
                if any(core.isnan(x) is not False for x in xs):
                    best = xs[0]
                    for x in xs[1:]:
                        c = (lift(x) > lift(best)) if which == 'max' else (lift(x) < lift(best))
                        best = core.ite(c, lift(x), lift(best))
                    return best
                r = smax(xs, which)
                if all(lift(x).ty == 'int' for x in xs):
                    r.ty = 'int'
                return r
            return real(*a, **k)
        return f

    def xround(x, nd=None):
        if isinstance(x, Sym):
            return x.__round__(nd)
        return round(x, nd) if nd is not None else round(x)

    def xrange(*a):
        return range(*[x.__index__() if isinstance(x, Sym) else x for x in a])

    def xlen(x):
        if isinstance(x, symnp.Guarded):
            return x.size
        return len(x)

    def xany(it):
        xs = list(it)
        if any(isinstance(x, SymBool) for x in xs):
            return SymBool(core.bor(*[core.bool_b(symnp._truth(x)) for x in xs]))
        return any(xs)

    def xall(it):
        xs = list(it)
        if any(isinstance(x, SymBool) for x in xs):
            return SymBool(core.band(*[core.bool_b(symnp._truth(x)) for x in xs]))
        return all(xs)

    d.update(astmerge.BUILTINS)
    d.update(__import__=imp, isinstance=isinst, type=_type_factory(), sum=xsum, max=xmm('max', max),
             min=xmm('min', min), round=xround, range=xrange, any=xany, all=xall, float=xfloat, int=xint, len=xlen)
    return d


def _type_factory():
    class TM(type):
        def __call__(cls, *a, **k):
            return _type(*a)

        def __instancecheck__(cls, x):
            return isinstance(x, type)

    class xtype(metaclass=TM):
        pass
    return xtype


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__('math')

    def __getattr__(self, n):
        import math
        real = getattr(math, n)
        if not callable(real):
            return real

        def f(*a, **k):
            if any(isinstance(x, Sym) for x in a):
                x = lift(a[0])
                if n == 'sqrt':
                    if bool(x < 0):
                        raise ValueError('math domain error')
                    return x.sqrt()
                if n == 'fabs':
                    return abs(x)
                if n == 'pow':
                    return x ** a[1]
                if n in ('floor', 'ceil', 'trunc'):
                    r = getattr(x, n)()
                    r.ty = 'int'
                    return r
                if n == 'isnan':
                    return SymBool(x.nan)
                if n == 'isinf':
                    return SymBool(x.inf)
                if n == 'isfinite':
                    return SymBool(x.fin)
                if n in ('exp', 'log'):
                    return getattr(x, n)()
                if n == 'isclose':
                    d = abs(x - a[1])
                    rel_tol = k.get('rel_tol', 1e-9)
                    return SymBool(core.bor((d <= k.get('abs_tol', 0.0)).b,
                                            (d <= smax([abs(x), abs(lift(a[1]))]) * rel_tol).b))
                raise SymError('math.' + n)
            if n in ('fsum', 'prod'):
                xs = list(a[0])
                if any(isinstance(x, Sym) for x in xs):
                    if n == 'fsum':
                        return ssum(xs)
                    r = core.ONE
                    for x in xs:
                        r = r * x
                    return r
                return real(xs)
            return real(*a, **k)
        return f


# ------------------------------------------------------------- statsmodels
class _OLSRes:
    def __init__(self, params, **k):
        self.params = params
        self.__dict__.update(k)


def _solve2(n, sx, sxx, sy, sxy):
    det = lift(n) * sxx - sx * sx
    slope = (lift(n) * sxy - sx * sy) / det
    return (sy - slope * sx) / n, slope


class RollingOLS:
    """Ordinary least squares on each window of exog with one or two columns."""

    def __init__(self, endog, exog, window=None, min_nobs=None, missing='drop', expanding=False):
        import pandas as pd
        self.endog, self.exog = endog, exog
        self.window = window.__index__() if isinstance(window, Sym) else window
        nobs = len(endog)
        k = np.asarray(exog).shape[1] if np.asarray(exog).ndim == 2 else 1
        self.k = k
        if self.window > nobs:
            raise ValueError('nobs must be at least as large as window')
        mn = self.k if min_nobs is None else min_nobs
        if self.window < k or mn < k:
            raise ValueError('min_nobs must be larger than the number of regressors in the model')
        if k > 2:
            raise SymError('RollingOLS with %d regressors' % k)
        if min_nobs is not None or expanding:
            raise SymError('RollingOLS min_nobs/expanding')

    def fit(self, *a, **kw):
        import pandas as pd
        y = [lift(v) for v in (self.endog.to_numpy().reshape(-1) if hasattr(self.endog, 'to_numpy') else
                               np.asarray(self.endog).reshape(-1))]
        X = np.asarray(self.exog.to_numpy() if hasattr(self.exog, 'to_numpy') else self.exog, dtype=object)
        if X.ndim == 1:
            X = X.reshape(-1, 1)
        X = [[lift(v) for v in r] for r in X]
        w = self.window
        out = []
        for i in range(len(y)):
            if i + 1 < w:
                out.append([np.nan] * self.k)
                continue
            ys, xs = y[i + 1 - w:i + 1], X[i + 1 - w:i + 1]
            keep = [j for j in range(w) if not core.isnan(ys[j]) and not any(core.isnan(v) for v in xs[j])]
            if len(keep) < w:
                out.append([np.nan] * self.k)
                continue
            if self.k == 1:
                out.append([ssum([x[0] * v for x, v in zip(xs, ys)]) / ssum([x[0] * x[0] for x in xs])])
                continue
            a = ssum([x[0] * x[0] for x in xs])
            b = ssum([x[0] * x[1] for x in xs])
            d = ssum([x[1] * x[1] for x in xs])
            p = ssum([x[0] * v for x, v in zip(xs, ys)])
            q = ssum([x[1] * v for x, v in zip(xs, ys)])
            det = a * d - b * b
            if det.is_const() and det.p.const() == 0:
                # singular design: minimum-norm least squares (pseudo-inverse)
                tr = a + d
                # X'X = tr * vv' for unit eigenvector v; pinv = vv'/tr
                out.append([symnp.norm((a * p + b * q) / (tr * tr)), symnp.norm((b * p + d * q) / (tr * tr))])
                continue
            out.append([symnp.norm((d * p - b * q) / det), symnp.norm((a * q - b * p) / det)])
        cols = list(self.exog.columns) if hasattr(self.exog, 'columns') else ['x%d' % (i + 1) for i in range(self.k)]
        import pandas as pd
        pdt = (pd.Series, pd.DataFrame)
        if isinstance(self.endog, pdt) or isinstance(self.exog, pdt):
            idx = self.endog.index if isinstance(self.endog, pdt) else self.exog.index
            arr = np.empty((len(out), self.k), dtype=object)
            for i, r in enumerate(out):
                for j, v in enumerate(r):
                    arr[i, j] = v
            return _OLSRes(pd.DataFrame(arr, index=idx, columns=cols))
        return _OLSRes(symnp.obj([v for r in out for v in r], (len(out), self.k)))


class OLS:
    def __init__(self, endog, exog=None, **k):
        self.endog, self.exog = endog, exog

    def fit(self, *a, **k):
        n = len(self.endog)
        r = RollingOLS(self.endog, self.exog, window=n).fit()
        p = r.params
        return _OLSRes(p.iloc[-1] if hasattr(p, 'iloc') else p[-1])


def add_constant(data, prepend=True, has_constant='skip'):
    import pandas as pd
    if isinstance(data, (pd.DataFrame, pd.Series)):
        df = data.to_frame() if isinstance(data, pd.Series) else data.copy()
        # 'skip': a column that is already constant (non-zero) suppresses the constant
        df.insert(0 if prepend else df.shape[1], 'const', 1.0) if not _const_col(df) else None
        return df
    a = np.asarray(symnp.to_arr(data))
    if a.ndim == 1:
        a = a.reshape(-1, 1)
    if any(_const_list(list(a[:, j])) for j in range(a.shape[1])):
        return a.view(symnp.SArr) if a.dtype == object else a
    one = np.ones((a.shape[0], 1))
    r = np.concatenate([one, a] if prepend else [a, one], axis=1) if a.dtype != object else \
        np.concatenate([one.astype(object), a] if prepend else [a, one.astype(object)], axis=1)
    return r.view(symnp.SArr) if r.dtype == object else r


def _const_list(v):
    if not v:
        return False
    if any(isinstance(x, Sym) and not x.is_const() for x in v):
        return False
    v = [float(x) for x in v]
    return all(x == v[0] for x in v) and v[0] != 0


def _const_col(df):
    return any(_const_list(list(df.iloc[:, j])) for j in range(df.shape[1]))


class Recorder:
    """Records every call made on it (plotting stand-in)."""

    def __init__(self, path='plt', log=None, ret=None):
        object.__setattr__(self, '_path', path)
        object.__setattr__(self, '_log', log if log is not None else [])

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Recorder(self._path + '.' + n, self._log)

    def __setattr__(self, n, v):
        self._log.append((self._path + '.' + n, ('=', v), {}))

    def __call__(self, *a, **k):
        self._log.append((self._path, a, k))
        if self._path.endswith('fig.subplots'):
            return Recorder('subplots', self._log)(*a, **k)[1]
        if self._path.endswith('subplots'):
            nr, nc = k.get('nrows', a[0] if a else 1), k.get('ncols', a[1] if len(a) > 1 else 1)
            n, fig = nr * nc, Recorder('fig', self._log)
            arr = np.empty(n, dtype=object)
            for i in range(n):
                arr[i] = Recorder('ax%d' % i, self._log)
            if k.get('squeeze', True):
                return fig, arr[0] if n == 1 else arr if 1 in (nr, nc) else arr.reshape(nr, nc)
            return fig, arr.reshape(nr, nc)
        if self._path.endswith('get_legend_handles_labels'):
            return [], []
        if self._path.endswith('.plot'):
            return [Recorder('line', self._log)]
        if self._path.endswith('.add_subplot') or self._path.endswith('.subplot'):
            k2 = sum(1 for x in self._log if x[0].endswith('add_subplot') or x[0].endswith('.subplot'))
            return Recorder('ax%d' % (k2 - 1), self._log)
        return Recorder(self._path + '()', self._log)

    def __iter__(self):
        return iter([Recorder(self._path + '[%d]' % i, self._log) for i in range(4)])

    def __getitem__(self, i):
        return Recorder('%s[%s]' % (self._path, i), self._log)

    def __setitem__(self, i, v):
        pass

    def __add__(self, o):
        return 0.0

    __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __add__

    def __float__(self):
        return 0.0


_codes = {}       # of the source just read: a second private copy in this process need not be transformed again


class SymTTI:
    """A private copy of the tti package bound to the symbolic libraries."""

    def __init__(self, root=None):
        sympd.install()
        strict.install()
        self.root = root or REPO
        self.mods = {}
        self.np = symnp.build()
        import pandas as pd
        self.pd = pd
        self.plotlog = []
        self.plt = Recorder('plt', self.plotlog)
        self.math = MathShim()
        self.files = []
        self.bi = mk_builtins(self._import)
        self.stubs = {}

    def _ext(self, name):
        top = name.split('.')[0]
        if top == 'numpy':
            return self.np
        if top == 'pandas':
            return importlib.import_module(name)
        if top == 'math':
            return self.math
        if top == 'matplotlib':
            m = types.ModuleType(name)
            m.pyplot = self.plt
            m.__getattr__ = lambda n: getattr(self.plt, n) if not n.startswith('__') else (_ for _ in ()).throw(
                AttributeError(n))
            return m
        if top == 'statsmodels':
            m = types.ModuleType(name)
            m.RollingOLS = RollingOLS
            m.OLS = OLS
            m.add_constant = add_constant
            m.api = m
            m.regression = types.SimpleNamespace(rolling=types.SimpleNamespace(RollingOLS=RollingOLS))
            m.tools = types.SimpleNamespace(tools=types.SimpleNamespace(add_constant=add_constant),
                                            add_constant=add_constant)
            return m
        return importlib.import_module(name)

    def _find(self, name):
        p = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        return None, False

    def load(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path, pkg = self._find(name)
        if path is None:
            raise ModuleNotFoundError(name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__builtins__ = self.bi
        self.mods[name] = m
        with open(path) as f:
            src = f.read()
        self.files.append(path)
        code = _codes.get((path, src))
        if code is None:
            code = _codes[path, src] = astmerge.transform(src, path)
        m.__dict__['__builtins__'] = self.bi
        exec(code, m.__dict__)
        if parent:
            setattr(self.mods[parent], name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level > 0:
            pkg = globals.get('__package__') or globals['__name__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            full = pkg + ('.' + name if name else '')
        else:
            full = name
        if full == 'tti' or full.startswith('tti.'):
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        if self._find(full + '.' + f)[0]:
                            self.load(full + '.' + f)
                return m
            return self.mods[full.split('.')[0]]
        m = self._ext(full)
        if fromlist:
            return m
        if full.split('.')[0] == 'matplotlib':
            # `import matplotlib.pyplot as plt` resolves attribute by attribute
            return self._ext('matplotlib')
        return self._ext(full.split('.')[0])
