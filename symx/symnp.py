"""numpy stand-in: object arrays of Sym/SymBool with numpy's semantics."""
import builtins
import sys
import types

import numpy as np

from . import core
from .core import (NAN, ONE, ZERO, Sym, SymBool, SymError, bool_b, ite, lift, smax, ssum, SymBool as SB, bor, band,
                   bnot, TRUE, FALSE)


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def has_sym(a):
    if not isinstance(a, np.ndarray) or a.dtype != object:
        return False
    allnan = core.CTX.active and a.size > 0
    for x in a.flat:
        if isinstance(x, (Sym, SymBool)):
            return True
        if allnan and not (isinstance(x, float) and x != x):
            allnan = False
    # inside an exploration a float column is kept boxed: all missing so far
    return allnan


def boxed(a):
    """float array -> object array of constant Syms (NaN stays a float nan)"""
    out = np.empty(a.shape, dtype=object)
    of, af = out.reshape(-1), np.asarray(a).reshape(-1)
    for i, v in enumerate(af):
        v = float(v)
        of[i] = np.nan if v != v else lift(v)
    return of.reshape(a.shape)


def norm(x):
    """Cell normal form: NaN is a float nan."""
    if isinstance(x, Sym) and x.nan is TRUE:
        return np.nan
    if x is None:
        return np.nan
    return x


def mask_arr(vals, shape=None):
    """array of truth values; real bool array when all are decided"""
    out = np.empty(len(vals), dtype=object)
    const = True
    for i, v in enumerate(vals):
        if isinstance(v, SymBool) and not v.is_const():
            const = False
        out[i] = v
    if const:
        r = np.array([builtins.bool(v) if not isinstance(v, SymBool) else v.b is TRUE for v in vals], dtype=bool)
    else:
        r = np.empty(len(vals), dtype=object)
        for i, v in enumerate(vals):
            r[i] = v if isinstance(v, SymBool) else SymBool(TRUE if v else FALSE)
        r = r.view(SArr)
    return r.reshape(shape) if shape is not None else r


def is_symmask(a):
    if isinstance(a, np.ndarray) and a.dtype == object and a.size:
        return all(isinstance(x, (SymBool, builtins.bool, np.bool_)) for x in a.flat)
    return False


def obj(vals, shape=None):
    r = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        r[i] = v
    r = r.view(SArr)
    return r.reshape(shape) if shape is not None else r


def num_cell(x):
    """Lift a plain number so that IEEE rules (x/0) apply."""
    if isinstance(x, (Sym, SymBool)):
        return x
    if isinstance(x, (builtins.bool, np.bool_)):
        return x
    if isinstance(x, (builtins.int, builtins.float, np.integer, np.floating)) or x is None:
        return lift(x)
    return x


def _truth(x):
    if isinstance(x, SymBool):
        return x
    if isinstance(x, Sym):
        return x != 0
    return builtins.bool(x)


def _and(a, b):
    a, b = _truth(a), _truth(b)
    return SymBool(band(bool_b(a), bool_b(b)))


def _or(a, b):
    a, b = _truth(a), _truth(b)
    return SymBool(bor(bool_b(a), bool_b(b)))


def _not(a):
    return SymBool(bnot(bool_b(_truth(a))))


def _bitand(a, b):
    return _and(a, b)


def _isnan(x):
    return core.isnan(x)


def _cmp(op):
    import operator
    f = getattr(operator, op)

    def g(a, b):
        if isinstance(a, str) or isinstance(b, str):
            return f(a, b)
        a, b = num_cell(a), num_cell(b)
        return f(a, b)
    return g


def _ar(op):
    import operator
    f = getattr(operator, op)

    def g(a, b):
        return f(num_cell(a), num_cell(b))
    return g


def _fmax(which):
    return lambda a, b: smax([a, b], which, skipna=True)


def _m2(which):
    return lambda a, b: smax([a, b], which)


UF = {
    'add': _ar('add'), 'subtract': _ar('sub'), 'multiply': _ar('mul'), 'divide': _ar('truediv'),
    'true_divide': _ar('truediv'), 'floor_divide': _ar('floordiv'), 'remainder': _ar('mod'), 'mod': _ar('mod'),
    'power': lambda a, b: lift(a) ** b, 'float_power': lambda a, b: lift(a) ** b,
    'less': _cmp('lt'), 'less_equal': _cmp('le'), 'greater': _cmp('gt'), 'greater_equal': _cmp('ge'),
    'equal': _cmp('eq'), 'not_equal': _cmp('ne'),
    'logical_and': _and, 'logical_or': _or, 'logical_not': _not, 'bitwise_and': _and, 'bitwise_or': _or,
    'invert': _not, 'logical_xor': lambda a, b: SymBool(bool_b(_truth(a))) ^ _truth(b),
    'bitwise_xor': lambda a, b: SymBool(bool_b(_truth(a))) ^ _truth(b),
    'maximum': _m2('max'), 'minimum': _m2('min'), 'fmax': _fmax('max'), 'fmin': _fmax('min'),
    'absolute': lambda a: abs(lift(a)), 'fabs': lambda a: abs(lift(a)), 'negative': lambda a: -lift(a),
    'positive': lambda a: a, 'sqrt': lambda a: lift(a).sqrt(), 'square': lambda a: lift(a) * lift(a),
    'sign': lambda a: lift(a).sign(), 'isnan': _isnan, 'isfinite': lambda a: lift(a).isfinite(),
    'isinf': lambda a: lift(a).isinf(), 'floor': lambda a: lift(a).floor(), 'ceil': lambda a: lift(a).ceil(),
    'trunc': lambda a: lift(a).trunc(), 'rint': lambda a: lift(a).round(0), 'conjugate': lambda a: a,
    'log': lambda a: lift(a).log(), 'exp': lambda a: lift(a).exp(), 'reciprocal': lambda a: ONE / lift(a),
    'heaviside': lambda a, b: ite(lift(a) < 0, ZERO, ite(lift(a) == 0, lift(b), ONE)),
}
BOOLF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
         'logical_not', 'bitwise_and', 'bitwise_or', 'invert', 'isnan', 'isfinite', 'isinf', 'logical_xor',
         'bitwise_xor'}


def elementwise(name, *args):
    f = UF[name]
    arrs = [np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a for a in map(_box, args)]
    b = np.broadcast_arrays(*[np.asarray(a) for a in arrs]) if len(arrs) > 1 else [np.asarray(arrs[0])]
    shape = b[0].shape
    vals = [f(*xs) for xs in zip(*[x.flat for x in b])]
    if shape == ():
        v = vals[0]
        if isinstance(v, SymBool) and v.is_const():
            return v.b is TRUE
        return v
    if name in BOOLF:
        return mask_arr(vals, shape)
    return obj(vals, shape)


def _box(x):
    if isinstance(x, np.ndarray):
        return x
    if is_sym(x) or x is None:
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, (list, tuple)):
        return to_arr(x)
    if hasattr(x, 'to_numpy'):
        return np.asarray(x.to_numpy())
    return np.asarray(x)


class Guarded:
    """Selection arr[mask] with a symbolic mask: values with presence guards."""

    def __init__(self, vals, guards):
        self.vals = vals
        self.guards = guards

    def _concrete(self):
        return obj([v for v, g in zip(self.vals, self.guards) if builtins.bool(SymBool(g))])

    def count_nonzero(self):
        return ssum([ite(SymBool(band(g, bool_b(_truth(v)))), ONE, ZERO) for v, g in zip(self.vals, self.guards)])

    def sum(self, *a, **k):
        return ssum([ite(SymBool(g), lift(v), ZERO) for v, g in zip(self.vals, self.guards)])

    @property
    def size(self):
        return ssum([Sym(core.ind(g)) for g in self.guards])

    def __len__(self):
        return len(self._concrete())

    def any(self, *a, **k):
        return SymBool(bor(*[band(g, bool_b(_truth(v))) for v, g in zip(self.vals, self.guards)]))

    def all(self, *a, **k):
        return SymBool(band(*[bor(bnot(g), bool_b(_truth(v))) for v, g in zip(self.vals, self.guards)]))

    def _map(self, name, o, rev=False):
        if isinstance(o, (np.ndarray, list, Guarded)):
            a = self._concrete()
            b = o._concrete() if isinstance(o, Guarded) else o
            return elementwise(name, b, a) if rev else elementwise(name, a, b)
        f = UF[name]
        return Guarded([f(o, v) if rev else f(v, o) for v in self.vals], self.guards)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return getattr(self._concrete(), n)

    def __iter__(self):
        return iter(self._concrete())

    def __getitem__(self, i):
        return self._concrete()[i]

    def __array__(self, *a, **k):
        return np.asarray(self._concrete())


for _n, _o in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'), ('lt', 'less'),
               ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal'), ('eq', 'equal'),
               ('ne', 'not_equal')):
    setattr(Guarded, '__%s__' % _n, (lambda o: lambda self, x: self._map(o, x))(_o))
    if _n in ('add', 'sub', 'mul', 'truediv'):
        setattr(Guarded, '__r%s__' % _n, (lambda o: lambda self, x: self._map(o, x, True))(_o))


def concretize_mask(m):
    m = np.asarray(m)
    return np.array([builtins.bool(x) for x in m.flat], dtype=bool).reshape(m.shape)


class SArr(np.ndarray):
    """object ndarray whose ufuncs understand Sym."""
    __array_priority__ = 60

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        name = ufunc.__name__
        if method == '__call__' and name in UF:
            r = elementwise(name, *inputs)
            if where is not True:
                base = out[0] if out is not None else obj([np.nan] * np.size(r), np.shape(r))
                r = where_(where, r, base)
            if out is not None and out[0] is not None:
                out[0][...] = r
                return out[0]
            return r
        if method == 'reduce' and name in ('add', 'maximum', 'minimum', 'logical_and', 'logical_or', 'multiply'):
            a = inputs[0]
            fn = {'add': sum_, 'maximum': max_, 'minimum': min_, 'logical_and': all_, 'logical_or': any_,
                  'multiply': prod_}[name]
            return fn(a, axis=kw.get('axis', 0))
        if method == 'accumulate' and name in ('add', 'maximum', 'minimum', 'multiply'):
            a = inputs[0]
            return {'add': cumsum_, 'maximum': lambda a: accum_(a, 'max'), 'minimum': lambda a: accum_(a, 'min'),
                    'multiply': cumprod_}[name](a)
        ins = [np.asarray(x) if isinstance(x, SArr) else x for x in inputs]
        r = getattr(ufunc, method)(*ins, **kw)
        return r.view(SArr) if isinstance(r, np.ndarray) and r.dtype == object else r

    def __getitem__(self, k):
        if isinstance(k, np.ndarray) and k.dtype == object and is_symmask(k):
            if not has_unknown(k):
                k = concretize_mask(k)
            elif k.ndim == 1 and self.ndim == 1:
                return Guarded(list(self), [bool_b(x) for x in k])
            else:
                k = concretize_mask(k)
        elif isinstance(k, tuple) and builtins.any(isinstance(x, np.ndarray) and x.dtype == object for x in k):
            if (len(k) == 2 and is_symmask(k[0]) and isinstance(k[1], (builtins.int, np.integer))
                    and has_unknown(k[0]) and self.ndim == 2):
                return Guarded(list(np.ndarray.__getitem__(self, (slice(None), k[1]))), [bool_b(x) for x in k[0]])
            k = tuple(concretize_mask(x) if isinstance(x, np.ndarray) and x.dtype == object and is_symmask(x) else x
                      for x in k)
        else:
            k = _idx(k)
        r = np.ndarray.__getitem__(self, k)
        return r

    def __setitem__(self, k, v):
        if isinstance(k, np.ndarray) and k.dtype == object and is_symmask(k):
            if has_unknown(k) and k.shape == self.shape:
                self._maskset(self, k, v)
                return
            k = concretize_mask(k)
        elif isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], np.ndarray) and k[0].dtype == object \
                and is_symmask(k[0]):
            if has_unknown(k[0]) and isinstance(k[1], (builtins.int, np.integer)) and self.ndim == 2:
                self._maskset(np.ndarray.__getitem__(self, (slice(None), k[1])), k[0], v)
                return
            k = (concretize_mask(k[0]), k[1])
        else:
            k = _idx(k)
        if isinstance(v, Guarded):
            v = v._concrete()
        if isinstance(v, (list, tuple)) and not isinstance(v, np.ndarray):
            v = to_arr(v)
        if isinstance(v, Sym):
            v = norm(v)
        np.ndarray.__setitem__(self, k, v)

    @staticmethod
    def _maskset(view, mask, v):
        if isinstance(v, Guarded) or (isinstance(v, np.ndarray) and v.shape != view.shape and v.size != 1):
            m = concretize_mask(mask)
            np.ndarray.__setitem__(view, m, v._concrete() if isinstance(v, Guarded) else v)
            return
        vs = list(v.flat) if isinstance(v, np.ndarray) and v.shape == view.shape else None
        it = [(idx, m) for idx, m in zip(np.ndindex(view.shape), mask.flat)]
        for n, (idx, m) in enumerate(it):
            new = vs[n] if vs is not None else v
            np.ndarray.__setitem__(view, idx, norm(ite(SymBool(bool_b(m)), new, np.ndarray.__getitem__(view, idx))))

    def sum(self, axis=None, **k):
        return sum_(self, axis)

    def mean(self, axis=None, **k):
        return mean_(self, axis)

    def max(self, axis=None, **k):
        return max_(self, axis)

    def min(self, axis=None, **k):
        return min_(self, axis)

    def std(self, axis=None, ddof=0, **k):
        return std_(self, axis, ddof=ddof)

    def var(self, axis=None, ddof=0, **k):
        return var_(self, axis, ddof=ddof)

    def any(self, axis=None, **k):
        return any_(self, axis)

    def all(self, axis=None, **k):
        return all_(self, axis)

    def cumsum(self, axis=None, **k):
        return cumsum_(self, axis)

    def prod(self, axis=None, **k):
        return prod_(self, axis)

    def argmax(self, axis=None, **k):
        return arg_(self, 'max', axis)

    def argmin(self, axis=None, **k):
        return arg_(self, 'min', axis)

    def round(self, decimals=0, **k):
        return round_(self, decimals)

    def clip(self, a_min=None, a_max=None, **k):
        return clip_(self, a_min, a_max)

    def astype(self, t, *a, **k):
        return astype_arr(self, t)

    def dot(self, o):
        return dot_(self, o)

    def cumprod(self, axis=None, **k):
        return cumprod_(self, axis) if axis else cumprod_(self)

    def argsort(self, axis=-1, *a, **k):
        if self.ndim != 1:
            raise SymError('argsort')
        return np.array(order(list(self)), dtype=int)

    def sort(self, axis=-1, **k):
        if self.ndim != 1:
            raise SymError('sort')
        self[:] = obj(msort(list(self)))

    def _no(self, *a, **k):
        raise SymError('unmodelled ndarray method')
    argpartition = partition = searchsorted = choose = trace = compress = _no

    def nonzero(self):
        return np.asarray(concretize_mask(self)).nonzero()

    def tolist(self):
        return np.asarray(self).tolist()

    def item(self, *a):
        return np.asarray(self).item(*a)


def _idx(k):
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, tuple):
        return tuple(x.__index__() if isinstance(x, Sym) else x for x in k)
    return k


def has_unknown(m):
    return builtins.any(isinstance(x, SymBool) and not x.is_const() for x in np.asarray(m).flat)


def astype_arr(a, t):
    kind = dtype_kind(t)
    if kind == 'i':
        return obj([astype_cell(x, 'i') for x in a.flat], a.shape)
    if kind == 'b':
        return mask_arr([_truth(x) for x in a.flat], a.shape)
    return obj([norm(core.plain(lift(x))) if core._num(x) else x for x in a.flat], a.shape)


def has_raw(a):
    return builtins.any(type(x) is core.Raw for x in a.flat)


def astype_cell(x, kind):
    if kind == 'i':
        x = lift(x)
        if builtins.bool(SymBool(bor(x.nan, x.inf))):
            raise ValueError('cannot convert float NaN to integer')
        r = x.trunc()
        r.ty = 'int'
        return r
    return norm(core.plain(lift(x)))


NARROW = {'float32', 'float16', 'f4', 'f2', 'f', 'e', 'int32', 'int16', 'int8', 'uint8', 'uint16', 'uint32', 'i4', 'i2', 'i1'}


def by_library():
    """called from library code (rather than from a check which makes its input)"""
    f = sys._getframe(2)
    while f is not None:
        m = (f.f_globals.get('__name__') or '').split('.')[0]
        if m in ('tti', 'checks'):
            return m == 'tti'
        f = f.f_back
    return False


def dtype_kind(t):
    if getattr(t, '_narrow', False) or isinstance(t, str) and t in NARROW or \
            (isinstance(t, type) and issubclass(t, np.generic) or isinstance(t, np.dtype)) and np.dtype(t).kind in 'fiu' and np.dtype(t).itemsize < 8:
        if by_library():
            raise SymError('numbers with less than 64 bits')
    if t in (builtins.float, 'float', 'float64', 'float32') or (isinstance(t, type) and issubclass(t, np.floating)):
        return 'f'
    if t in (builtins.int, 'int', 'int64', 'int32') or (isinstance(t, type) and issubclass(t, np.integer)):
        return 'i'
    if t in (builtins.bool, 'bool', np.bool_):
        return 'b'
    if t in (object, 'object', 'O'):
        return 'O'
    try:
        return np.dtype(t).kind
    except TypeError:
        return getattr(t, '_symkind', 'O')


def to_arr(x, dtype=None):
    if isinstance(x, Guarded):
        return x._concrete()
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(SArr)
        return x
    if hasattr(x, 'to_numpy'):
        v = x.to_numpy()
        return v.view(SArr) if v.dtype == object else v
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a.view(SArr)
    if isinstance(x, (list, tuple)):
        if not len(x):
            return np.array(x)
        if builtins.any(is_sym(v) for v in x):
            return obj([norm(v) if not isinstance(v, SymBool) else v for v in x])
        if builtins.any(isinstance(v, (list, tuple, np.ndarray)) or hasattr(v, 'to_numpy') for v in x):
            rows = [to_arr(v) for v in x]
            if builtins.any(r.dtype == object for r in rows):
                return np.stack([np.asarray(r, dtype=object) for r in rows]).view(SArr)
        return np.array(x)
    return np.array(x)


def _along(a, axis, f):
    a = np.asarray(to_arr(a))
    if axis is None:
        return f(list(a.flat))
    if isinstance(axis, tuple):
        raise SymError('tuple axis')
    axis = axis % a.ndim
    if a.ndim == 1:
        return f(list(a))
    m = np.moveaxis(a, axis, -1)
    vals = [f(list(m[i])) for i in np.ndindex(m.shape[:-1])]
    if all(isinstance(v, (builtins.bool, np.bool_, SymBool)) for v in vals):
        return mask_arr(vals, m.shape[:-1])
    return obj(vals, m.shape[:-1])


def guard_or(method):
    def deco(f):
        def g(a, *args, **k):
            if isinstance(a, Guarded):
                if method is not None:
                    return getattr(a, method)()
                a = a._concrete()
            return f(a, *args, **k)
        return g
    return deco


def _passthrough(a):
    """no symbols: use numpy itself"""
    if isinstance(a, Guarded):
        return False
    if is_sym(a):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype != object
    if isinstance(a, (list, tuple)):
        return _passthrough(to_arr(a)) if len(a) else True
    if hasattr(a, 'to_numpy'):
        return _passthrough(np.asarray(a.to_numpy()))
    return True


def sum_(a, axis=None, **k):
    if isinstance(a, Guarded):
        return a.sum()
    if is_pandas(a):
        return a.sum(axis=0 if axis is None else axis)
    return _along(a, axis, lambda v: ssum(v))


def prod_(a, axis=None, **k):
    def f(v):
        r = ONE
        for x in v:
            r = r * lift(x)
        return r
    return _along(a, axis, f)


def mean_(a, axis=None, **k):
    if is_pandas(a):
        return a.mean(axis=0 if axis is None else axis)
    if isinstance(a, Guarded):
        return a.sum() / a.size
    return _along(a, axis, lambda v: ssum(v) / len(v) if v else np.nan)


def var_list(v, ddof=0):
    n = len(v)
    if n - ddof <= 0:
        return NAN
    v = [lift(x) for x in v]
    m = ssum(v) / n
    r = ssum([(x - m) * (x - m) for x in v]) / (n - ddof)
    if r.p.t and not r.p.is_const():
        core._nonneg.add(r.p.key)
        r.p._sg = 0
    return r


def var_(a, axis=None, dtype=None, out=None, ddof=0, **k):
    if is_pandas(a):
        return a.var(ddof=ddof)
    return _along(a, axis, lambda v: var_list(v, ddof))


def std_(a, axis=None, dtype=None, out=None, ddof=0, **k):
    if is_pandas(a):
        return a.std(ddof=ddof)
    return _along(a, axis, lambda v: lift(var_list(v, ddof)).sqrt())


def max_(a, axis=None, **k):
    if is_pandas(a):
        return a.max(axis=0 if axis is None else axis)
    return _along(a, axis, lambda v: smax(v))


def min_(a, axis=None, **k):
    if is_pandas(a):
        return a.min(axis=0 if axis is None else axis)
    return _along(a, axis, lambda v: smax(v, 'min'))


def any_(a, axis=None, **k):
    if isinstance(a, Guarded):
        return a.any()
    if is_pandas(a):
        return a.any()
    return _along(a, axis, lambda v: const_bool(SymBool(bor(*[bool_b(_truth(x)) for x in v]))))


def all_(a, axis=None, **k):
    if isinstance(a, Guarded):
        return a.all()
    if is_pandas(a):
        return a.all()
    return _along(a, axis, lambda v: const_bool(SymBool(band(*[bool_b(_truth(x)) for x in v]))))


def const_bool(b):
    if isinstance(b, SymBool) and b.is_const():
        return b.b is TRUE
    return b


def cumsum_(a, axis=None, **k):
    if is_pandas(a):
        return a.cumsum()

    def f(v):
        r, s = [], ZERO
        for x in v:
            s = s + lift(x)
            r.append(norm(s))
        return r
    return _scan(a, axis, f)


def _scan(a, axis, f):
    a = np.asarray(to_arr(a))
    if axis is None or a.ndim == 1:
        return obj(f(list(a.flat)))
    m = np.moveaxis(a, axis, -1)
    out = np.empty(m.shape, dtype=object)
    for i in np.ndindex(m.shape[:-1]):
        out[i] = f(list(m[i]))
    return np.moveaxis(out, -1, axis).view(SArr)


def cumprod_(a, axis=None, **k):
    def f(v):
        r, s = [], ONE
        for x in v:
            s = s * lift(x)
            r.append(norm(s))
        return r
    return _scan(a, axis, f)


def accum_(a, which, axis=None):
    def f(v):
        r = []
        for i in range(len(v)):
            r.append(norm(smax(v[:i + 1], which)))
        return r
    return _scan(a, axis, f)


def arg_list(v, which):
    best = 0
    for i in range(1, len(v)):
        if core.isnan(v[best]):
            return best
        if core.isnan(v[i]):
            return i
        if builtins.bool(lift(v[i]) > lift(v[best]) if which == 'max' else lift(v[i]) < lift(v[best])):
            best = i
    return best


def arg_(a, which, axis=None, **k):
    return _along_int(a, axis, lambda v: arg_list(v, which))


def _along_int(a, axis, f):
    a = np.asarray(to_arr(a))
    if axis is None or a.ndim == 1:
        return f(list(a.flat))
    m = np.moveaxis(a, axis, -1)
    return np.array([f(list(m[i])) for i in np.ndindex(m.shape[:-1])]).reshape(m.shape[:-1])


def round_(a, decimals=0, **k):
    if is_sym(a):
        return lift(a).round(decimals)
    if is_pandas(a):
        return a.round(decimals)
    a = to_arr(a)
    return obj([norm(lift(x).round(decimals)) for x in a.flat], a.shape)


def clip_(a, a_min=None, a_max=None, **k):
    if is_pandas(a):
        return a.clip(a_min, a_max)
    r = to_arr(a)
    if a_min is not None:
        r = elementwise('maximum', r, a_min)
    if a_max is not None:
        r = elementwise('minimum', r, a_max)
    return r


def dot_(a, b):
    a, b = np.asarray(to_arr(a)), np.asarray(to_arr(b))
    if a.ndim == 1 and b.ndim == 1:
        return ssum([lift(x) * lift(y) for x, y in zip(a, b)])
    if a.ndim == 2 and b.ndim == 1:
        return obj([dot_(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return obj([dot_(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        return obj([dot_(a[i], b[:, j]) for i in range(a.shape[0]) for j in range(b.shape[1])],
                   (a.shape[0], b.shape[1]))
    raise SymError('dot')


def where_(c, *xy):
    if not xy:
        if is_pandas(c):
            c = c.to_numpy()
        return np.where(concretize_mask(np.asarray(to_arr(c))))
    x, y = xy
    if is_sym(c) and not isinstance(x, np.ndarray) and not isinstance(y, np.ndarray):
        return ite(_truth(c), x, y)
    args = [_box(c), _box(x), _box(y)]
    c, x, y = np.broadcast_arrays(*[np.asarray(a) for a in args])
    if c.dtype != object and x.dtype != object and y.dtype != object:
        return np.where(c, x, y)
    return obj([norm2(ite(_truth(cc), num_or(xx), num_or(yy))) for cc, xx, yy in zip(c.flat, x.flat, y.flat)], c.shape)


def norm2(v):
    return norm(v) if not isinstance(v, SymBool) else v


def num_or(x):
    if isinstance(x, (builtins.bool, np.bool_)) or is_sym(x) or isinstance(x, str):
        return x
    if core._num(x):
        return lift(x)
    return x


def is_pandas(a):
    return type(a).__module__.startswith('pandas')


def wrap_like(ref, arr):
    import pandas as pd
    if isinstance(ref, pd.Series):
        return pd.Series(np.asarray(arr), index=ref.index, name=ref.name)
    if isinstance(ref, pd.DataFrame):
        return pd.DataFrame(np.asarray(arr), index=ref.index, columns=ref.columns)
    return arr


def ufunc_shim(name):
    real = getattr(np, name)

    def f(*args, **kw):
        if all(_passthrough(a) for a in args) and all(_passthrough(v) for v in kw.values()):
            return real(*args, **kw)
        out = kw.pop('out', None)
        where = kw.pop('where', True)
        import pandas as pd
        pds = [a for a in args if isinstance(a, (pd.Series, pd.DataFrame))]
        if len(pds) > 1 and all(isinstance(a, pd.Series) for a in pds):
            # align on index like pandas does
            idx = pds[0].index
            if not all(a.index.equals(idx) for a in pds[1:]):
                al = pds[0].align(pds[1])
                args = al
                pds = list(al)
        r = elementwise(name, *args)
        if where is not True:
            r = where_(where, r, out if out is not None else np.nan)
        if out is not None:
            out[...] = r
            return out
        if pds and isinstance(r, np.ndarray):
            return wrap_like(pds[0], r)
        return r
    f.__name__ = name
    f.reduce = lambda a, axis=0, **k: {'maximum': max_, 'minimum': min_, 'add': sum_, 'logical_and': all_,
                                       'logical_or': any_, 'multiply': prod_}[name](a, axis=axis)
    f.accumulate = lambda a, axis=0, **k: {'maximum': lambda a: accum_(a, 'max'), 'minimum': lambda a: accum_(a, 'min'),
                                           'add': cumsum_, 'multiply': cumprod_}[name](a)
    return f


class F64(float):
    _symkind = 'f'


def _mk_scalar_type(real, kind):
    class T(real):
        _symkind = kind
        _narrow = False

        def __new__(cls, x=0, *a):
            if is_sym(x):
                if cls._narrow:
                    raise SymError('numbers with less than 64 bits')
                return core.plain(x) if kind == 'f' and type(x) is core.Raw else x if kind == 'f' else astype_cell(x, 'i')
            return real(x, *a)
    T.__name__ = real.__name__
    return T


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__('numpy')
        self._cache = {}

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        v = getattr(np, n)
        if callable(v) and not isinstance(v, type) and n not in STRUCT:
            c = self._cache.get(n)
            if c is None:
                c = self._cache[n] = _closed_np(n, v)
            return c
        return v


# numpy functions which only move cells (object arrays included)
STRUCT = set('''reshape ravel transpose squeeze expand_dims flip fliplr flipud split array_split hsplit vsplit tile repeat
take delete insert atleast_1d atleast_2d broadcast_to broadcast_arrays copy swapaxes moveaxis rot90 tril triu diag
diagonal resize ndenumerate ndindex errstate seterr geterr warnings iinfo finfo issubdtype dtype isscalar result_type
shares_memory may_share_memory meshgrid ix_ r_ c_ s_ iterable set_printoptions printoptions'''.split())


def _closed_np(name, real):
    def f(*a, **k):
        if builtins.any(_holds(x) for x in a) or builtins.any(_holds(x) for x in k.values()):
            raise SymError('unmodelled numpy.' + name)
        return real(*a, **k)
    f.__name__ = name
    return f


def _holds(x):
    if isinstance(x, (Guarded, Sym, SymBool)):
        return True
    if isinstance(x, np.ndarray):
        return has_sym(x)
    if isinstance(x, (list, tuple)):
        return builtins.any(_holds(y) for y in x)
    if hasattr(x, 'dtypes') and hasattr(x, 'to_numpy'):
        return has_sym(np.asarray(x.to_numpy()))
    return False


def build():
    m = NumpyShim()
    for n in UF:
        if hasattr(np, n):
            setattr(m, n, ufunc_shim(n))
    m.abs = m.absolute
    m.ndarray = np.ndarray

    def dual(name, fn):
        real = getattr(np, name)

        def f(*args, **kw):
            if args and all(_passthrough(a) for a in args) and not builtins.any(is_sym(v) for v in kw.values()):
                kw = {k: (norm_dtype(v) if k == 'dtype' else v) for k, v in kw.items()}
                return real(*args, **kw)
            return fn(*args, **kw)
        f.__name__ = name
        setattr(m, name, f)

    def norm_dtype(t):
        k = dtype_kind(t)
        return {'f': np.float64, 'i': np.int64, 'b': np.bool_}.get(k, t)

    for n, fn in (('sum', sum_), ('prod', prod_), ('mean', mean_), ('average', None), ('var', var_), ('std', std_),
                  ('max', max_), ('amax', max_), ('min', min_), ('amin', min_), ('any', any_), ('all', all_),
                  ('cumsum', cumsum_), ('cumprod', cumprod_), ('round', round_), ('around', round_), ('clip', clip_),
                  ('dot', dot_), ('matmul', dot_), ('where', where_)):
        if fn is not None:
            dual(n, fn)
    dual('argmax', lambda a, axis=None, **k: arg_(a, 'max', axis))
    dual('argmin', lambda a, axis=None, **k: arg_(a, 'min', axis))

    def average(a, axis=None, weights=None, **k):
        if weights is None:
            return mean_(a, axis)
        w = np.asarray(to_arr(weights))
        if axis is None or np.asarray(to_arr(a)).ndim == 1:
            v = list(np.asarray(to_arr(a)).flat)
            return ssum([lift(x) * lift(y) for x, y in zip(v, w.flat)]) / ssum(list(w.flat))
        return _along(a, axis, lambda v: ssum([lift(x) * lift(y) for x, y in zip(v, w)]) / ssum(list(w)))
    dual('average', average)

    def count_nonzero(a, axis=None, **k):
        if isinstance(a, Guarded):
            return a.count_nonzero()
        f = lambda v: ssum([Sym(core.ind(bool_b(_truth(x)))) for x in v])
        r = _along(a, axis, f)
        if isinstance(r, Sym) and r.is_const():
            return int(r.p.const())
        return r
    dual('count_nonzero', count_nonzero)

    def _skip(v):
        return [x for x in v if not (isinstance(core.isnan(x), bool) and core.isnan(x))]

    def nanred(f):
        def g(a, axis=None, **k):
            def h(v):
                w = []
                for x in _skip(v):
                    if builtins.bool(core.isnan(x)):
                        continue
                    w.append(x)
                return f(w)
            return _along(a, axis, h)
        return g
    dual('nansum', nanred(lambda v: ssum(v)))
    dual('nanmean', nanred(lambda v: ssum(v) / len(v) if v else np.nan))
    dual('nanmax', nanred(lambda v: smax(v)))
    dual('nanmin', nanred(lambda v: smax(v, 'min')))
    dual('nanstd', nanred(lambda v: lift(var_list(v, 0)).sqrt()))
    dual('nancumsum', lambda a, axis=None: cumsum_(obj([0.0 if core.isnan(x) is True else x for x in to_arr(a).flat])))

    def diff(a, n=1, axis=-1, **k):
        r = to_arr(a)
        for _ in range(n):
            if r.ndim == 1:
                r = elementwise('subtract', r[1:], r[:-1])
            else:
                ax = axis % r.ndim
                sl1 = [slice(None)] * r.ndim
                sl2 = [slice(None)] * r.ndim
                sl1[ax] = slice(1, None)
                sl2[ax] = slice(None, -1)
                r = elementwise('subtract', r[tuple(sl1)], r[tuple(sl2)])
        return r
    dual('diff', diff)

    def creation(name, fill):
        real = getattr(np, name)

        def f(shape, *args, **kw):
            if isinstance(shape, Sym):
                shape = shape.__index__()
            elif isinstance(shape, tuple):
                shape = tuple(x.__index__() if isinstance(x, Sym) else x for x in shape)
            dtype = kw.pop('dtype', args[-1] if args and name != 'full' else (args[1] if len(args) > 1 else float))
            k = dtype_kind(dtype) if dtype is not None else 'f'
            val = fill
            if name == 'full':
                val = args[0] if args else kw.pop('fill_value')
            if k == 'b' and name != 'full':
                r = np.zeros(shape, dtype=object)
                r[...] = (fill == 1.0)
                return r.view(SArr)
            r = np.empty(shape, dtype=object)
            if isinstance(val, (builtins.int, builtins.float)) and not isinstance(val, builtins.bool):
                if name == 'empty':
                    val = np.nan
            r[...] = val if isinstance(val, (builtins.bool, str)) else (lift(val) if core._num(val) and not (
                isinstance(val, float) and val != val) else val)
            return r.view(SArr)
        setattr(m, name, f)
    creation('zeros', 0.0)
    creation('ones', 1.0)
    creation('empty', 0.0)
    creation('full', None)

    def like(name):
        def f(a, *args, **kw):
            shape = np.shape(a) if not is_pandas(a) else a.shape
            kw.pop('shape', None)
            r = getattr(m, name[:-5])(shape, *args, **{k: v for k, v in kw.items() if k == 'fill_value'
                                                        or (k == 'dtype' and v is not None)})
            return wrap_like(a, r) if is_pandas(a) else r
        setattr(m, name, f)
    for n in ('zeros_like', 'ones_like', 'empty_like', 'full_like'):
        like(n)

    def array(x, dtype=None, copy=True, **k):
        a = to_arr(x)
        if a.dtype == object:
            if dtype is not None and dtype_kind(dtype) != 'O':
                return astype_arr(a, dtype)
            return a.copy() if copy else a
        if dtype is not None:
            kind = dtype_kind(dtype)
            if kind == 'f':
                return obj([norm(lift(v)) for v in np.array(a, dtype=np.float64).flat], a.shape)
            return np.array(a, dtype=norm_dtype(dtype))
        if a.dtype.kind == 'f':
            return obj([norm(lift(v)) for v in a.flat], a.shape)
        return np.array(a)
    m.array = array

    def asarray(x, dtype=None, **k):
        if isinstance(x, np.ndarray) and x.dtype == object and (dtype is None or dtype_kind(dtype) in 'Of'):
            return astype_arr(x, dtype) if dtype is not None and dtype_kind(dtype) == 'f' and has_raw(x) else x.view(SArr)
        return array(x, dtype, copy=False)
    m.asarray = asarray
    m.asanyarray = asarray
    m.ascontiguousarray = asarray

    def stackers(name):
        real = getattr(np, name)

        def f(arrs, *a, **k):
            arrs = [to_arr(x) for x in arrs]
            if builtins.any(x.dtype == object for x in arrs):
                arrs = [np.asarray(x, dtype=object) for x in arrs]
                return real(arrs, *a, **k).view(SArr)
            return real(arrs, *a, **k)
        setattr(m, name, f)
    for n in ('concatenate', 'stack', 'vstack', 'hstack', 'column_stack', 'dstack'):
        stackers(n)

    def append(a, v, axis=None):
        a, v = to_arr(a), to_arr(v)
        if a.dtype == object or v.dtype == object:
            return np.append(np.asarray(a, dtype=object), np.asarray(v, dtype=object), axis).view(SArr)
        return np.append(a, v, axis)
    m.append = append

    def roll(a, shift, axis=None):
        a = to_arr(a)
        r = np.roll(np.asarray(a), shift, axis)
        return r.view(SArr) if r.dtype == object else r
    m.roll = roll

    def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
        if _passthrough(x):
            return np.nan_to_num(x, copy, nan, posinf, neginf)

        def f(v):
            v = lift(v)
            big = float(np.finfo(float).max)
            r = ite(SymBool(v.nan), lift(nan), Sym(v.p))
            r = ite(SymBool(v.pi), lift(big if posinf is None else posinf), r)
            return ite(SymBool(v.ni), lift(-big if neginf is None else neginf), r)
        if is_sym(x):
            return f(x)
        a = to_arr(x)
        r = obj([f(v) for v in a.flat], a.shape)
        return wrap_like(x, r) if is_pandas(x) else r
    m.nan_to_num = nan_to_num

    def select(conds, choices, default=0):
        r = None
        first = choices[0]
        shape = np.shape(np.asarray(to_arr(conds[0])))
        r = obj([lift(default) if core._num(default) else default] * int(np.prod(shape)), shape)
        for c, v in reversed(list(zip(conds, choices))):
            r = where_(np.asarray(to_arr(c)), v, r)
        return r
    m.select = select

    def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        if _passthrough(a) and _passthrough(b):
            return np.isclose(a, b, rtol, atol, equal_nan)
        return elementwise('less_equal', elementwise('absolute', elementwise('subtract', a, b)),
                           elementwise('add', lift(atol), elementwise('multiply', lift(rtol),
                                                                     elementwise('absolute', b))))
    m.isclose = isclose

    def convolve(a, v, mode='full'):
        if _passthrough(a) and _passthrough(v):
            return np.convolve(a, v, mode)
        a, v = list(to_arr(a)), list(to_arr(v))
        n, k = len(a), len(v)
        full = [ssum([lift(a[i]) * lift(v[j - i]) for i in range(n) if 0 <= j - i < k]) for j in range(n + k - 1)]
        if mode == 'full':
            return obj(full)
        if mode == 'valid':
            return obj(full[min(n, k) - 1: max(n, k)])
        s = (min(n, k) - 1) // 2
        return obj(full[s: s + max(n, k)])
    m.convolve = convolve

    def median(a, axis=None, **k):
        def f(v):
            v = msort(v)
            n = len(v)
            return v[n // 2] if n % 2 else (lift(v[n // 2 - 1]) + v[n // 2]) / 2
        return _along(a, axis, f)
    dual('median', median)

    def sort(a, axis=-1, **k):
        return _scan(a, axis if np.ndim(a) > 1 else None, msort)
    dual('sort', sort)

    def polyfit(x, y, deg, **k):
        if deg != 1:
            raise SymError('polyfit degree')
        x, y = [lift(v) for v in to_arr(x)], [lift(v) for v in to_arr(y)]
        n = len(x)
        sx, sy = ssum(x), ssum(y)
        sxx, sxy = ssum([v * v for v in x]), ssum([a * b for a, b in zip(x, y)])
        sl = (sxy * n - sx * sy) / (sxx * n - sx * sx)
        return obj([sl, (sy - sl * sx) / n])
    dual('polyfit', polyfit)
    dual('polyval', lambda p, x: elementwise('add', elementwise('multiply', p[0], x), p[1]) if len(p) == 2 else _bad())
    dual('cov', lambda *a, **k: _bad())

    def argsort(a, *x, **k):
        return np.array(order(list(to_arr(a))), dtype=int)
    dual('argsort', argsort)
    dual('flatnonzero', lambda a: np.flatnonzero(concretize_mask(np.asarray(to_arr(a)).ravel())))
    dual('nonzero', lambda a: np.nonzero(concretize_mask(np.asarray(to_arr(a)))))
    dual('ptp', lambda a, axis=None: elementwise('subtract', max_(a, axis), min_(a, axis)))
    dual('array_equal', lambda a, b: all_(elementwise('equal', a, b)))
    dual('allclose', lambda a, b, **k: all_(isclose(a, b, **k)))
    m.isscalar = lambda x: True if is_sym(x) else np.isscalar(x)
    m.shape = lambda a: a.shape if hasattr(a, 'shape') else np.shape(to_arr(a))
    m.ndim = lambda a: np.ndim(to_arr(a)) if not is_sym(a) else 0
    m.size = lambda a: np.size(np.asarray(to_arr(a)))

    def lin(name):
        real = getattr(np, name)

        def f(*a, **k):
            a = [x.__index__() if isinstance(x, Sym) and x.ty == 'int' else x for x in a]
            if builtins.any(is_sym(x) for x in a):
                if name == 'linspace':
                    s, e, n = a[0], a[1], (a[2] if len(a) > 2 else k.get('num', 50))
                    return obj([lift(s) + (lift(e) - s) * core.F(i, n - 1) for i in range(n)])
                raise SymError(name)
            r = real(*a, **k)
            return obj([lift(v) for v in r]) if r.dtype.kind == 'f' else r
        setattr(m, name, f)
    lin('linspace')
    lin('arange')

    def lsw(a, w, axis=None, **k):
        a = to_arr(a)
        r = np.lib.stride_tricks.sliding_window_view(np.asarray(a), w, axis=axis)
        return r.view(SArr) if r.dtype == object else r
    lib = types.SimpleNamespace(stride_tricks=types.SimpleNamespace(sliding_window_view=lsw))
    m.lib = lib
    m.float64 = _mk_scalar_type(np.float64, 'f')
    m.float32 = _mk_scalar_type(np.float32, 'f')
    m.float32._narrow = True
    m.int64 = _mk_scalar_type(np.int64, 'i')
    m.linalg = types.SimpleNamespace(lstsq=lambda *a, **k: _bad(), norm=lambda v: lift(
        ssum([lift(x) * lift(x) for x in to_arr(v)])).sqrt())
    m.vectorize = lambda f, *a, **k: (lambda *xs: elementwise_py(f, *xs))
    m.apply_along_axis = lambda f, axis, a, *r, **k: _along(a, axis, lambda v: f(obj(v), *r, **k))
    m.fromiter = lambda it, dtype=None, count=-1: to_arr(list(it))
    return m


def elementwise_py(f, *xs):
    b = np.broadcast_arrays(*[np.asarray(_box(x)) for x in xs])
    return obj([f(*v) for v in zip(*[x.flat for x in b])], b[0].shape)


def order(v, ascending=True):
    """stable order of the cells, missing ones last; the comparisons fork"""
    idx, nans = [], []
    for i, c in enumerate(v):
        if builtins.bool(core.isnan(c)):
            nans.append(i)
            continue
        k = len(idx)
        while k and builtins.bool((lift(v[idx[k - 1]]) > lift(c)) if ascending else (lift(v[idx[k - 1]]) < lift(c))):
            k -= 1
        idx.insert(k, i)
    return idx + nans


def msort(v):
    v = list(v)
    return [v[i] for i in order(v)]


def _bad():
    raise SymError('numpy function not modelled')
