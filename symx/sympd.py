"""Teach the installed pandas about Sym cells.

pandas keeps columns of Sym in object arrays.  Index handling, alignment,
slicing, concatenation ... stay pandas' own code; the numeric kernels (which
are C for floats) are replaced, for object data holding Sym cells only, by the
definitions in this file.  Data without Sym cells goes to the original code.
"""
import builtins
import math
import operator
import sys

import numpy as np
import pandas as pd
import pandas.core.common as com
from pandas.core import algorithms, nanops, ops, roperator
from pandas.core.dtypes import missing
from pandas.core.generic import NDFrame
from pandas.core.ops import array_ops

from . import core, symnp
from .core import (FALSE, NAN, ONE, TRUE, Sym, SymBool, SymError, ZERO, band, bnot, bool_b, bor, ite, lift, smax,
                   ssum)
from .symnp import SArr, elementwise, has_sym, has_unknown, is_sym, is_symmask, mask_arr, norm, obj

F = core.F
_OPN = {}
for _n, _u in (('add', 'add'), ('sub', 'subtract'), ('mul', 'multiply'), ('truediv', 'divide'),
               ('floordiv', 'floor_divide'), ('mod', 'mod'), ('pow', 'power')):
    _OPN[getattr(operator, _n)] = (_u, False)
    _OPN[getattr(roperator, 'r' + _n)] = (_u, True)
for _n, _u in (('lt', 'less'), ('le', 'less_equal'), ('gt', 'greater'), ('ge', 'greater_equal'), ('eq', 'equal'),
               ('ne', 'not_equal')):
    _OPN[getattr(operator, _n)] = (_u, False)
for _n, _u in (('and_', 'logical_and'), ('or_', 'logical_or'), ('xor', 'logical_xor')):
    _OPN[getattr(operator, _n)] = (_u, False)
    _OPN[getattr(roperator, {'and_': 'rand_', 'or_': 'ror_', 'xor': 'rxor'}[_n])] = (_u, True)

_done = False


def any_sym(x):
    if isinstance(x, np.ndarray):
        return has_sym(x)
    if isinstance(x, (pd.Series, pd.Index)):
        return x.dtype == object and has_sym(np.asarray(x._values))
    if isinstance(x, pd.DataFrame):
        return builtins.any(b.dtype == object and has_sym(b) for b in (np.asarray(a) for a in x._mgr.arrays))
    return is_sym(x)


def _raw(a):
    return np.asarray(a) if isinstance(a, np.ndarray) else a


def _apply(op, left, right):
    nm, rev = _OPN[op]
    r = elementwise(nm, right, left) if rev else elementwise(nm, left, right)
    if isinstance(r, np.ndarray) and r.dtype == object and nm not in symnp.BOOLF:
        for i, v in enumerate(r.flat):
            if isinstance(v, Sym) and v.nan is TRUE:
                np.ndarray.__setitem__(r, np.unravel_index(i, r.shape), np.nan)
    return np.asarray(r)


def _wrap2(orig):
    def f(left, right, op):
        l, r = left, right
        if (isinstance(l, np.ndarray) and has_sym(l)) or is_sym(r) or (isinstance(r, np.ndarray) and has_sym(r)):
            if op in _OPN:
                return _apply(op, l, r)
        return orig(left, right, op)
    f._orig = orig
    return f


def o_to_obj(o):
    return np.asarray([list(o.iloc[:, j]._values) for j in range(o.shape[1])], dtype=object) \
        if isinstance(o, pd.DataFrame) else o._values


def cells(s):
    return list(np.asarray(s._values))


# --------------------------------------------------------------- reductions
def _split(v):
    """drop certain NaNs; returns list of (Sym, nanformula)"""
    out = []
    for x in v:
        n = core.isnan(x)
        if n is True:
            continue
        x = lift(x)
        out.append((x, x.nan))
    return out


def red(name, v, skipna=True, ddof=1, min_count=0, **k):
    if name in ('any', 'all'):
        bs = [bool_b(symnp._truth(x)) if core.isnan(x) is not True else (FALSE if name == 'any' else TRUE) for x in v]
        return symnp.const_bool(SymBool(bor(*bs) if name == 'any' else band(*bs)))
    xs = _split(v)
    nanc = len(v) - len(xs)
    if not skipna and nanc:
        return np.nan
    unk = builtins.any(n is not FALSE for _, n in xs)
    if unk and name not in ('sum', 'mean', 'max', 'min', 'count'):
        xs = [(x, n) for x, n in xs if not builtins.bool(SymBool(n))]
        unk = False
    if name == 'count':
        return ssum([Sym(core.ind(bnot(n))) for _, n in xs]) if unk else len(xs)
    if unk and skipna:
        if name == 'sum':
            return ssum([ite(SymBool(n), ZERO, Sym(x.p, FALSE, x.pi, x.ni)) for x, n in xs])
        if name == 'mean':
            s = ssum([ite(SymBool(n), ZERO, Sym(x.p, FALSE, x.pi, x.ni)) for x, n in xs])
            return s / ssum([Sym(core.ind(bnot(n))) for _, n in xs])
        return norm(smax([x for x, _ in xs], name, skipna=True))
    vs = [x for x, _ in xs]
    if name == 'sum':
        if len(vs) < min_count:
            return np.nan
        return norm(ssum(vs))
    if name == 'prod':
        r = ONE
        for x in vs:
            r = r * x
        return r
    if not vs:
        return np.nan
    if name == 'mean':
        return norm(ssum(vs) / len(vs))
    if name in ('max', 'min'):
        return norm(smax(vs, name))
    if name == 'var':
        return norm(symnp.var_list(vs, ddof))
    if name == 'std':
        return norm(lift(symnp.var_list(vs, ddof)).sqrt())
    if name == 'sem':
        return norm(lift(symnp.var_list(vs, ddof)).sqrt() / lift(len(vs)).sqrt())
    if name == 'median':
        w = symnp.msort(vs)
        n = len(w)
        return w[n // 2] if n % 2 else (w[n // 2 - 1] + w[n // 2]) / 2
    raise SymError('reduction ' + name)


def accum(name, v, skipna=True):
    out = []
    acc = None
    for x in v:
        n = core.isnan(x)
        if n is True and skipna:
            out.append(np.nan)
            continue
        x = lift(x)
        if isinstance(n, SymBool) and skipna:
            # NaN cells are skipped by the running total and stay NaN
            z = Sym(x.p, FALSE, x.pi, x.ni)
            if name == 'cumsum':
                acc = ite(n, ZERO, z) if acc is None else acc + ite(n, ZERO, z)
                out.append(norm(ite(n, NAN, acc)))
                continue
            if builtins.bool(n):
                out.append(np.nan)
                continue
            x = z
        if acc is None:
            acc = x
        elif name == 'cumsum':
            acc = acc + x
        elif name == 'cumprod':
            acc = acc * x
        elif name == 'cummax':
            acc = smax([acc, x])
        elif name == 'cummin':
            acc = smax([acc, x], 'min')
        else:
            raise SymError(name)
        out.append(norm(acc))
    return out


def map_cols(df, f):
    """apply f(list)->list per column"""
    if isinstance(df, pd.Series):
        return pd.Series(mk(f(cells(df))), index=df.index, name=df.name)
    cols = [mk(f(list(np.asarray(df.iloc[:, j]._values)))) for j in range(df.shape[1])]
    a = np.empty(df.shape, dtype=object)
    for j, c in enumerate(cols):
        a[:, j] = c
    return pd.DataFrame(a, index=df.index, columns=df.columns)


def mk(vals):
    if builtins.all(isinstance(v, (SymBool, builtins.bool, np.bool_)) for v in vals) and len(vals):
        return np.asarray(mask_arr(vals))
    r = np.empty(len(vals), dtype=object)
    for i, v in enumerate(vals):
        r[i] = norm(v)
    return r


# ------------------------------------------------------------------ windows
def prep(x):
    """rolling/ewm treat +-inf as missing"""
    if core.isnan(x) is True:
        return NAN
    x = lift(x)
    if x.inf is not FALSE:
        n = bor(x.nan, x.inf)
        return NAN if n is TRUE else Sym(x.p, n)
    return x


class Win:
    def __init__(self, o, window=None, min_periods=None, center=False, win_type=None, closed=None, expanding=False,
                 step=None):
        self.obj = o
        self.expanding = expanding
        if expanding:
            self.minp = 1 if min_periods is None else builtins.int(min_periods)
        else:
            if isinstance(window, Sym):
                window = window.__index__()
            if isinstance(window, (float, str)) or not isinstance(window, (builtins.int, np.integer)):
                raise ValueError('window must be an integer 0 or greater')
            if window < 0:
                raise ValueError('window must be an integer 0 or greater')
            self.window = builtins.int(window)
            if isinstance(min_periods, Sym):
                min_periods = min_periods.__index__()
            self.minp = self.window if min_periods is None else builtins.int(min_periods)
            if self.minp > self.window:
                raise ValueError('min_periods %d must be <= window %d' % (self.minp, self.window))
        self.center = center
        self.win_type = win_type
        self.closed = closed
        self.step = step
        if step not in (None, 1):
            raise SymError('rolling step')
        if closed not in (None, 'right', 'left', 'both', 'neither'):
            raise ValueError('closed')

    def __getitem__(self, k):
        w = Win.__new__(Win)
        w.__dict__.update(self.__dict__)
        w.obj = self.obj[k]
        return w

    def bounds(self, n):
        out = []
        for i in range(n):
            if self.expanding:
                out.append((0, i + 1))
                continue
            e = i + 1 + ((self.window - 1) // 2 if self.center else 0)
            s = e - self.window
            if self.closed in ('left', 'both'):
                s -= 1
            if self.closed in ('left', 'neither'):
                e -= 1
            out.append((builtins.max(0, s), builtins.max(0, builtins.min(e, n))))
        return out

    def run(self, f, weights=None):
        minp = self.minp

        def col(v):
            v = [prep(x) for x in v]
            out = []
            for s, e in self.bounds(len(v)):
                w = v[s:e]
                out.append(self.one(w, f, minp))
            return out
        return map_cols(self.obj, col)

    @staticmethod
    def one(w, f, minp):
        """f(list of finite Syms) -> Sym"""
        good = [x for x in w if x.nan is not TRUE]
        if len(good) < builtins.max(minp, 0):
            return np.nan
        unk = [x for x in good if x.nan is not FALSE]
        if not unk:
            if len(good) < minp:
                return np.nan
            return f(good)
        if len(good) == minp:
            r = lift(f([Sym(x.p) for x in good]))
            nn = bor(*[x.nan for x in unk])
            return Sym(r.p, bor(r.nan, nn), band(r.pi, bnot(nn)), band(r.ni, bnot(nn)))
        keep = []
        for x in good:
            if x.nan is FALSE or not builtins.bool(SymBool(x.nan)):
                keep.append(Sym(x.p))
        if len(keep) < minp:
            return np.nan
        return f(keep)

    def count(self, *a, **k):
        return self.run_count()

    def run_count(self):
        def col(v):
            v = [prep(x) for x in v]
            out = []
            for s, e in self.bounds(len(v)):
                out.append(ssum([Sym(core.ind(bnot(x.nan))) for x in v[s:e]]))
            return out
        return map_cols(self.obj, col)

    def weights(self, n, **kw):
        import scipy.signal
        return [core.rat(float(x)) for x in scipy.signal.get_window(self._wt(kw), n, False)] if False else \
            [F(float(x)) for x in getattr(scipy.signal.windows, self.win_type)(n, **kw)]

    def sum(self, *a, **k):
        if self.win_type:
            w = self.weights(self.window, **{x: y for x, y in k.items() if x != 'numeric_only'})
            return self.run(lambda v: ssum([x * lift(c) for x, c in zip(v, w[-len(v):])]))
        return self.run(lambda v: ssum(v) if v else ZERO)

    def mean(self, *a, **k):
        if self.win_type:
            w = self.weights(self.window, **{x: y for x, y in k.items() if x != 'numeric_only'})
            return self.run(lambda v: ssum([x * lift(c) for x, c in zip(v, w[-len(v):])])
                            / lift(builtins.sum(w[-len(v):])))
        return self.run(lambda v: ssum(v) / len(v) if v else NAN)

    def max(self, *a, **k):
        return self.run(lambda v: smax(v))

    def min(self, *a, **k):
        return self.run(lambda v: smax(v, 'min'))

    def var(self, ddof=1, *a, **k):
        return self.run(lambda v: symnp.var_list(v, ddof))

    def std(self, ddof=1, *a, **k):
        return self.run(lambda v: lift(symnp.var_list(v, ddof)).sqrt())

    def sem(self, ddof=1, *a, **k):
        return self.run(lambda v: lift(symnp.var_list(v, ddof)).sqrt() / lift(len(v)).sqrt())

    def median(self, *a, **k):
        return self.run(lambda v: red('median', v))

    def quantile(self, q, interpolation='linear', **k):
        def f(v):
            v = symnp.msort(v)
            if q == 0:
                return v[0]
            if q == 1:
                return v[-1]
            pos = core.rat(q) * (len(v) - 1)
            i = math.floor(pos)
            fr = pos - i
            return v[i] if not fr else v[i] + (v[i + 1] - v[i]) * fr
        return self.run(f)

    def apply(self, func, raw=False, engine=None, engine_kwargs=None, args=None, kwargs=None):
        args, kwargs = args or (), kwargs or {}

        def col(series_index):
            def g(v):
                v = [prep(x) for x in v]
                out = []
                for s, e in self.bounds(len(v)):
                    w = v[s:e]
                    cnt = 0
                    for x in w:
                        if x.nan is TRUE:
                            continue
                        if x.nan is not FALSE and builtins.bool(SymBool(x.nan)):
                            continue
                        cnt += 1
                    if cnt < builtins.max(self.minp, 1):
                        out.append(np.nan)
                        continue
                    arr = obj([norm(x) for x in w])
                    out.append(func(arr if raw else pd.Series(np.asarray(arr), index=series_index[s:e]),
                                    *args, **kwargs))
                return out
            return g
        return map_cols(self.obj, col(self.obj.index))

    def agg(self, f, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)(*a, **k)
        if isinstance(f, (list, dict)):
            raise SymError('rolling.agg')
        return self.apply(f)

    aggregate = agg

    def __iter__(self):
        n = len(self.obj)
        for s, e in self.bounds(n):
            yield self.obj.iloc[s:e]

    def cov(self, other=None, ddof=1, **k):
        return self._pair(other, lambda a, b: _cov(a, b, ddof))

    def corr(self, other=None, **k):
        return self._pair(other, lambda a, b: _cov(a, b, 1) / (lift(symnp.var_list(a, 1)).sqrt()
                                                               * lift(symnp.var_list(b, 1)).sqrt()))

    def _pair(self, other, f):
        if not isinstance(self.obj, pd.Series) or not isinstance(other, pd.Series):
            raise SymError('rolling pairwise')
        a, b = [prep(x) for x in cells(self.obj)], [prep(x) for x in cells(other)]
        out = []
        for s, e in self.bounds(len(a)):
            pa = [(x, y) for x, y in zip(a[s:e], b[s:e]) if x.nan is not TRUE and y.nan is not TRUE]
            if len(pa) < self.minp:
                out.append(np.nan)
            else:
                out.append(f([x for x, _ in pa], [y for _, y in pa]))
        return pd.Series(mk(out), index=self.obj.index)


def _cov(a, b, ddof):
    n = len(a)
    if n - ddof <= 0:
        return NAN
    ma, mb = ssum(a) / n, ssum(b) / n
    return ssum([(x - ma) * (y - mb) for x, y in zip(a, b)]) / (n - ddof)


class Ewm:
    def __init__(self, o, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False):
        self.obj = o
        given = [x for x in (com, span, halflife, alpha) if x is not None]
        if len(given) != 1:
            raise ValueError('com, span, halflife, and alpha are mutually exclusive')
        c = lambda x: core.rat(x) if not isinstance(x, Sym) else core.rat(x.__index__())
        if com is not None:
            if c(com) < 0:
                raise ValueError('com must satisfy: comass >= 0')
            self.alpha = 1 / (1 + c(com))
        elif span is not None:
            if c(span) < 1:
                raise ValueError('span must satisfy: span >= 1')
            self.alpha = 2 / (1 + c(span))
        elif alpha is not None:
            if not 0 < c(alpha) <= 1:
                raise ValueError('alpha must satisfy: 0 < alpha <= 1')
            self.alpha = c(alpha)
        else:
            self.alpha = core.rat(1 - math.exp(math.log(0.5) / float(halflife)))
        self.minp = builtins.max(builtins.int(min_periods or 0), 1)
        self.adjust = adjust
        self.ignore_na = ignore_na

    def __getitem__(self, k):
        w = Ewm.__new__(Ewm)
        w.__dict__.update(self.__dict__)
        w.obj = self.obj[k]
        return w

    def _col(self, v):
        a = self.alpha
        v = [prep(x) for x in v]
        out = []
        num = None
        nobs = 0
        old = F(1)
        for x in v:
            nn = x.nan
            isn = True if nn is TRUE else (False if nn is FALSE else builtins.bool(SymBool(nn)))
            if num is None:
                if not isn:
                    num = Sym(x.p)
                    nobs = 1
                    old = F(1)
            else:
                if isn:
                    if not self.ignore_na:
                        old *= (1 - a)
                else:
                    nobs += 1
                    old *= (1 - a)
                    nw = F(1) if self.adjust else a
                    tot = old + nw
                    num = num * (old / tot) + Sym(x.p) * (nw / tot)
                    old = tot if self.adjust else F(1)
            out.append(num if (num is not None and nobs >= self.minp) else np.nan)
        return out

    def mean(self, *a, **k):
        return map_cols(self.obj, self._col)

    def sum(self, *a, **k):
        raise SymError('ewm sum')

    def std(self, *a, **k):
        raise SymError('ewm std')

    var = std

    def agg(self, f, *a, **k):
        return getattr(self, f)(*a, **k)

    aggregate = agg


# ------------------------------------------------------------------- masks
def _is_unknown_mask(k):
    if isinstance(k, pd.Series):
        k = k._values
    if isinstance(k, list):
        if not builtins.any(isinstance(x, SymBool) for x in k):
            return False
        k = obj(k)
    if isinstance(k, pd.DataFrame):
        return False
    return isinstance(k, np.ndarray) and k.dtype == object and k.size and is_symmask(np.asarray(k)) and \
        builtins.any(isinstance(x, SymBool) for x in k.flat)


def _concrete(k):
    if isinstance(k, pd.Series):
        return pd.Series(symnp.concretize_mask(k._values), index=k.index)
    if isinstance(k, list):
        k = obj(k)
    return symnp.concretize_mask(k)


def _fixkey(k):
    if _is_unknown_mask(k):
        return _concrete(k)
    if isinstance(k, tuple):
        return tuple(_fixkey(x) for x in k)
    if isinstance(k, Sym):
        return k.__index__()
    if isinstance(k, slice):
        f = lambda x: x.__index__() if isinstance(x, Sym) else x
        return slice(f(k.start), f(k.stop), f(k.step))
    return k


def where_impl(self, cond, other, invert):
    """Series/DataFrame.where with Sym anywhere"""
    if callable(cond):
        cond = cond(self)
    if callable(other):
        other = other(self)
    if isinstance(self, pd.Series):
        c = cond.reindex(self.index)._values if isinstance(cond, pd.Series) else np.asarray(symnp.to_arr(cond))
        o = other.reindex(self.index)._values if isinstance(other, pd.Series) else other
        c, o, s = np.broadcast_arrays(np.asarray(c), np.asarray(symnp._box(o)), np.asarray(self._values))
        out = []
        for cc, oo, ss in zip(c, o, s):
            t = symnp._truth(cc)
            if invert:
                t = symnp._not(t)
            out.append(ite(t, symnp.num_or(ss), symnp.num_or(oo)))
        return pd.Series(mk(out), index=self.index, name=self.name)
    c = cond.reindex(index=self.index, columns=self.columns).to_numpy() if isinstance(cond, pd.DataFrame) else \
        np.asarray(symnp.to_arr(cond))
    if isinstance(other, pd.DataFrame):
        o = other.reindex(index=self.index, columns=self.columns).to_numpy()
    elif isinstance(other, pd.Series):
        raise SymError('where with Series other')
    else:
        o = symnp._box(other)
    c, o, s = np.broadcast_arrays(np.asarray(c), np.asarray(o), np.asarray(self.to_numpy()))
    out = np.empty(s.shape, dtype=object)
    for i in np.ndindex(s.shape):
        t = symnp._truth(c[i])
        if invert:
            t = symnp._not(t)
        out[i] = norm(ite(t, symnp.num_or(s[i]), symnp.num_or(o[i])))
    return pd.DataFrame(out, index=self.index, columns=self.columns)


def _boxval(v, n):
    """float data stored as a column during an exploration is boxed"""
    if isinstance(v, (float, np.floating)):
        return boxed_const(v, n)
    if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size:
        return symnp.boxed(v)
    if isinstance(v, pd.Series) and v.dtype.kind == 'f' and len(v):
        return pd.Series(symnp.boxed(np.asarray(v._values)), index=v.index, name=v.name, dtype=object)
    if isinstance(v, list) and v and builtins.all(isinstance(x, (float, np.floating)) for x in v):
        return symnp.boxed(np.array(v))
    return v


def boxed_const(v, n):
    a = np.empty(n, dtype=object)
    a[:] = np.nan if v != v else lift(float(v))
    return a


def install():
    global _done
    if _done:
        return
    _done = True
    iget = pd.Index.__getitem__

    def index_getitem(self, k):
        return iget(self, _fixkey(k) if isinstance(k, (Sym, slice)) else k)
    pd.Index.__getitem__ = index_getitem
    for nm in ('arithmetic_op', 'comparison_op', 'logical_op'):
        w = _wrap2(getattr(array_ops, nm))
        setattr(array_ops, nm, w)
        setattr(ops, nm, w)

    # unary minus / abs / invert on object blocks
    def unary(cls, name, un):
        orig = getattr(cls, name)

        def f(self, *a):
            if any_sym(self):
                return map_cols(self, lambda v: [norm(symnp.UF[un](x)) if not (core.isnan(x) is True) else np.nan
                                                 for x in v])
            return orig(self, *a)
        setattr(cls, name, f)
    for cls in (pd.Series, pd.DataFrame):
        unary(cls, '__neg__', 'negative')
        unary(cls, '__abs__', 'absolute')
        unary(cls, 'abs', 'absolute')
        unary(cls, '__invert__', 'invert')

    # missing values
    o_isna_array = missing._isna_array

    def isna_array(values, inf_as_na=False):
        if isinstance(values, np.ndarray) and has_sym(values):
            out = np.zeros(values.shape, dtype=bool)
            for i in np.ndindex(values.shape):
                out[i] = builtins.bool(core.isnan(values[i]))
            return out
        return o_isna_array(values, inf_as_na)
    missing._isna_array = isna_array
    o_isna = missing._isna

    def _isna(o, inf_as_na=False):
        if isinstance(o, Sym):
            r = core.isnan(o)
            return r
        if isinstance(o, SymBool):
            return False
        return o_isna(o, inf_as_na)
    missing._isna = _isna

    # public isna/notna/fillna: keep symbolic
    for cls in (pd.Series, pd.DataFrame):
        for nm, neg in (('isna', False), ('isnull', False), ('notna', True), ('notnull', True)):
            def mkf(orig, neg):
                def f(self):
                    if any_sym(self):
                        return map_cols(self, lambda v: [symnp._not(symnp._isnan(x)) if neg else
                                                         (lambda q: q if isinstance(q, SymBool) else builtins.bool(q))(
                                                             symnp._isnan(x)) for x in v]).pipe(_boolify)
                    return orig(self)
                return f
            setattr(cls, nm, mkf(getattr(cls, nm), neg))

    def _boolify(df):
        if isinstance(df, pd.Series):
            return df
        a = df.to_numpy()
        if not has_unknown(a):
            return pd.DataFrame(np.array([[builtins.bool(x) if not isinstance(x, SymBool) else x.b is TRUE for x in r]
                                          for r in a], dtype=bool).reshape(a.shape),
                                index=df.index, columns=df.columns)
        return df

    o_fillna = NDFrame.fillna

    def fillna(self, value=None, *, method=None, axis=None, inplace=False, limit=None, downcast=pd.api.extensions.no_default):
        if any_sym(self) and method is None and limit is None and not isinstance(value, (dict, pd.Series, pd.DataFrame)):
            r = map_cols(self, lambda v: [value if core.isnan(x) is True else
                                          (ite(core.isnan(x), lift(value), x) if isinstance(core.isnan(x), SymBool)
                                           else x) for x in v])
            if inplace:
                self._update_inplace(r)
                return None
            return r
        return o_fillna(self, value, method=method, axis=axis, inplace=inplace, limit=limit, downcast=downcast)
    NDFrame.fillna = fillna
    for cls in (pd.Series, pd.DataFrame):
        if 'fillna' in cls.__dict__:
            cls.fillna = fillna

    # reductions
    for cls in (pd.Series, pd.DataFrame):
        o = cls._reduce

        def mkr(o, cls):
            def _reduce(self, op, name, *, axis=0, skipna=True, numeric_only=False, filter_type=None, **kw):
                if any_sym(self):
                    ddof = kw.get('ddof', 1)
                    mc = kw.get('min_count', 0)
                    if isinstance(self, pd.Series):
                        return red(name, cells(self), skipna, ddof, builtins.max(mc, 0))
                    ax = 0 if axis is None else self._get_axis_number(axis)
                    a = np.asarray(self.to_numpy())
                    if ax == 1:
                        return pd.Series(mk([red(name, list(r), skipna, ddof, builtins.max(mc, 0)) for r in a]),
                                         index=self.index)
                    return pd.Series(mk([red(name, list(a[:, j]), skipna, ddof, builtins.max(mc, 0))
                                         for j in range(a.shape[1])]), index=self.columns)
                return o(self, op, name, axis=axis, skipna=skipna, numeric_only=numeric_only,
                         filter_type=filter_type, **kw)
            return _reduce
        cls._reduce = mkr(o, cls)
        oc = cls.count

        def mkc(oc):
            def count(self, *a, **k):
                if any_sym(self):
                    if isinstance(self, pd.Series):
                        return red('count', cells(self))
                    axis = k.get('axis', a[0] if a else 0)
                    m = np.asarray(self.to_numpy())
                    if axis in (1, 'columns'):
                        return pd.Series([red('count', list(r)) for r in m], index=self.index)
                    return pd.Series([red('count', list(m[:, j])) for j in range(m.shape[1])], index=self.columns)
                return oc(self, *a, **k)
            return count
        cls.count = mkc(oc)
    o_log = NDFrame._logical_func

    def _logical_func(self, name, func, axis=0, bool_only=False, skipna=True, **k):
        if any_sym(self):
            if isinstance(self, pd.Series):
                return red(name, cells(self))
            if axis is None:
                return red(name, list(self.to_numpy().flat))
            return self._reduce(func, name=name, axis=axis, skipna=skipna, filter_type='bool')
        return o_log(self, name, func, axis, bool_only, skipna, **k)
    NDFrame._logical_func = _logical_func

    # DataFrame.sum(axis=None)/min_count path goes through NDFrame._min_count_stat_function -> _reduce
    o_acc = NDFrame._accum_func

    def _accum_func(self, name, func, axis=None, skipna=True, *a, **k):
        if any_sym(self):
            ax = 0 if axis is None else self._get_axis_number(axis)
            if ax == 1:
                return self.T._accum_func(name, func, 0, skipna).T
            return map_cols(self, lambda v: accum(name, v, skipna))
        return o_acc(self, name, func, axis, skipna, *a, **k)
    NDFrame._accum_func = _accum_func

    # windows
    o_roll, o_exp, o_ewm = NDFrame.rolling, NDFrame.expanding, NDFrame.ewm

    def rolling(self, window, min_periods=None, center=False, win_type=None, on=None, axis=pd.api.extensions.no_default,
                closed=None, step=None, method='single'):
        if any_sym(self) or isinstance(window, Sym):
            if on is not None or axis not in (pd.api.extensions.no_default, 0, 'index'):
                raise SymError('rolling on/axis')
            return Win(self, window, min_periods, center, win_type, closed, step=step)
        return o_roll(self, window, min_periods=min_periods, center=center, win_type=win_type, on=on, axis=axis,
                      closed=closed, step=step, method=method)

    def expanding(self, min_periods=1, axis=pd.api.extensions.no_default, method='single'):
        if any_sym(self):
            return Win(self, min_periods=min_periods, expanding=True)
        return o_exp(self, min_periods, axis, method)

    def ewm(self, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False,
            axis=pd.api.extensions.no_default, times=None, method='single'):
        if any_sym(self) or builtins.any(isinstance(x, Sym) for x in (com, span, alpha)):
            if times is not None:
                raise SymError('ewm times')
            return Ewm(self, com, span, halflife, alpha, min_periods, adjust, ignore_na)
        return o_ewm(self, com, span, halflife, alpha, min_periods, adjust, ignore_na, axis, times, method)
    for cls in (NDFrame, pd.Series, pd.DataFrame):
        for nm, fn in (('rolling', rolling), ('expanding', expanding), ('ewm', ewm)):
            if nm in cls.__dict__:
                setattr(cls, nm, fn)

    # elementwise methods
    for cls in (pd.Series, pd.DataFrame):
        def mkround(orig):
            def round(self, decimals=0, *a, **k):
                if any_sym(self):
                    if isinstance(decimals, dict):
                        r = self.copy()
                        for c, d in decimals.items():
                            if c in r.columns:
                                r[c] = r[c].round(d)
                        return r
                    return map_cols(self, lambda v: [x if core.isnan(x) is True or isinstance(x, (SymBool, str))
                                                     else lift(x).round(decimals) for x in v])
                return orig(self, decimals, *a, **k)
            return round
        cls.round = mkround(cls.round)

        def mkdiff(orig):
            def diff(self, periods=1, axis=0):
                if any_sym(self) and axis in (0, 'index'):
                    return self - self.shift(periods)
                return orig(self, periods) if isinstance(self, pd.Series) else orig(self, periods, axis)
            return diff
        cls.diff = mkdiff(cls.diff)

        def mkastype(orig):
            def astype(self, dtype, *a, **k):
                if any_sym(self):
                    if isinstance(dtype, dict):
                        r = self.copy()
                        for c, d in dtype.items():
                            r[c] = r[c].astype(d)
                        return r
                    kind = symnp.dtype_kind(dtype)
                    if kind == 'i':
                        if k.get('errors') == 'ignore':
                            bad = core.FALSE
                            for x in np.asarray(o_to_obj(self)).flat:
                                x = lift(x)
                                bad = core.bor(bad, x.nan, x.inf)
                            if builtins.bool(SymBool(bad)):
                                return self.copy()
                        return map_cols(self, lambda v: [symnp.astype_cell(x, 'i') for x in v])
                    if kind == 'f':
                        return map_cols(self, lambda v: [x if core.isnan(x) is True else core.plain(lift(x)) for x in v])
                    if kind == 'b':
                        return map_cols(self, lambda v: [symnp._truth(x) for x in v])
                    return self.copy()
                if isinstance(dtype, type) and hasattr(dtype, '_symkind'):
                    dtype = {'f': 'float64', 'i': 'int64'}[symnp.dtype_kind(dtype)]
                return orig(self, dtype, *a, **k)
            return astype
        cls.astype = mkastype(cls.astype)

        def mkclip(orig):
            def clip(self, lower=None, upper=None, *, axis=None, inplace=False, **k):
                if any_sym(self) or is_sym(lower) or is_sym(upper) or any_sym(lower) or any_sym(upper):
                    r = self
                    for bnd, w in ((lower, 'max'), (upper, 'min')):
                        if bnd is None:
                            continue
                        if isinstance(bnd, (pd.Series, np.ndarray)) and isinstance(r, pd.DataFrame):
                            raise SymError('clip frame by series')
                        bb = bnd.reindex(r.index)._values if isinstance(bnd, pd.Series) else (
                            bnd.to_numpy() if isinstance(bnd, pd.DataFrame) else bnd)

                        def one(x, b):
                            if core.isnan(x) is True or core.isnan(b) is True:
                                return x
                            x, b = lift(x), lift(b)
                            m = smax([x, b], w)
                            return ite(SymBool(b.nan), x, m) if b.nan is not FALSE else m
                        a = np.asarray(r.to_numpy())
                        ba = np.broadcast_to(np.asarray(symnp._box(bb)), a.shape)
                        out = np.empty(a.shape, dtype=object)
                        for i in np.ndindex(a.shape):
                            out[i] = norm(one(a[i], ba[i]))
                        r = symnp.wrap_like(r, out)
                    if inplace:
                        self._update_inplace(r)
                        return None
                    return r
                return orig(self, lower, upper, axis=axis, inplace=inplace, **k)
            return clip
        cls.clip = mkclip(cls.clip)

        def mkwhere(orig, inv):
            def where(self, cond, other=np.nan, *, inplace=False, axis=None, level=None):
                if any_sym(self) or any_sym(cond) or any_sym(other) or callable(cond):
                    if callable(cond):
                        cond = cond(self)
                    if any_sym(self) or any_sym(cond) or any_sym(other):
                        r = where_impl(self, cond, other, inv)
                        if inplace:
                            self._update_inplace(r)
                            return None
                        return r
                return orig(self, cond, other, inplace=inplace, axis=axis, level=level)
            return where
        cls.where = mkwhere(cls.where, False)
        cls.mask = mkwhere(cls.mask, True)

        def mkget(orig):
            def __getitem__(self, k):
                if isinstance(k, pd.DataFrame) and any_sym(k):
                    return where_impl(self, k, np.nan, False)
                return orig(self, _fixkey(k))
            return __getitem__
        cls.__getitem__ = mkget(cls.__getitem__)

        def mkset(orig):
            def __setitem__(self, k, v):
                if isinstance(v, symnp.Guarded):
                    v = v._concrete()
                if isinstance(v, Sym):
                    v = norm(v)
                if core.CTX.active and isinstance(self, pd.DataFrame) and not isinstance(k, (pd.DataFrame, np.ndarray)):
                    v = _boxval(v, len(self))
                if _is_unknown_mask(k) and isinstance(self, pd.Series) and (
                        not isinstance(v, (list, np.ndarray, pd.Series)) or isinstance(v, pd.Series)):
                    new = where_impl(self, k, v, True)
                    orig(self, slice(None), new._values)
                    return
                if isinstance(k, pd.DataFrame) and any_sym(k):
                    new = where_impl(self, k, v, True)
                    self.iloc[:, :] = new.to_numpy()
                    return
                orig(self, _fixkey(k), v)
            return __setitem__
        cls.__setitem__ = mkset(cls.__setitem__)

        def mkvalues(orig):
            def values(self):
                v = orig.fget(self)
                if isinstance(v, np.ndarray) and v.dtype == object and not isinstance(v, SArr) and has_sym(v):
                    return v.view(SArr)
                return v
            return property(values)
        cls.values = mkvalues(cls.values)

    o_tn_s = pd.Series.to_numpy
    o_tn_d = pd.DataFrame.to_numpy

    def tn_s(self, dtype=None, copy=False, na_value=pd.api.extensions.no_default, **k):
        if any_sym(self):
            a = np.array(self._values, copy=True) if copy else self._values
            a = a.view(SArr)
            if dtype is not None and symnp.dtype_kind(dtype) == 'i':
                return symnp.astype_arr(a, dtype)
            if dtype is not None and symnp.dtype_kind(dtype) == 'f' and symnp.has_raw(a):
                return symnp.astype_arr(a, dtype)
            return a
        if isinstance(dtype, type) and hasattr(dtype, '_symkind'):
            dtype = {'f': np.float64, 'i': np.int64}.get(dtype._symkind)
        return o_tn_s(self, dtype, copy, na_value, **k)
    pd.Series.to_numpy = tn_s

    def tn_d(self, dtype=None, copy=False, na_value=pd.api.extensions.no_default):
        if any_sym(self):
            a = o_tn_d(self, None, copy)
            a = a.astype(object).view(SArr) if a.dtype != object else a.view(SArr)
            if dtype is not None and symnp.dtype_kind(dtype) == 'i':
                return symnp.astype_arr(a, dtype)
            if dtype is not None and symnp.dtype_kind(dtype) == 'f' and symnp.has_raw(a):
                return symnp.astype_arr(a, dtype)
            return a
        if isinstance(dtype, type) and hasattr(dtype, '_symkind'):
            dtype = {'f': np.float64, 'i': np.int64}.get(dtype._symkind)
        return o_tn_d(self, dtype, copy, na_value)
    pd.DataFrame.to_numpy = tn_d

    # argmax & friends
    def arg(which):
        def f(self, axis=None, skipna=True, *a, **k):
            v = cells(self)
            idx = [i for i, x in enumerate(v) if not builtins.bool(core.isnan(x))]
            if not idx:
                return -1
            best = idx[0]
            for i in idx[1:]:
                c = lift(v[i]) > lift(v[best]) if which == 'max' else lift(v[i]) < lift(v[best])
                if builtins.bool(c):
                    best = i
            return best
        return f
    for which in ('max', 'min'):
        def mkarg(orig, which):
            def f(self, *a, **k):
                if any_sym(self):
                    return arg(which)(self, *a, **k)
                return orig(self, *a, **k)
            return f

        def mkidx(orig, which):
            def f(self, *a, **k):
                if any_sym(self):
                    if isinstance(self, pd.DataFrame):
                        axis = k.get('axis', a[0] if a else 0)
                        if axis in (1, 'columns'):
                            return pd.Series([self.columns[arg(which)(pd.Series(list(r)))] for r in
                                              np.asarray(self.to_numpy())], index=self.index)
                        return pd.Series([self.index[arg(which)(self.iloc[:, j])] for j in range(self.shape[1])],
                                         index=self.columns)
                    i = arg(which)(self)
                    return np.nan if i < 0 else self.index[i]
                return orig(self, *a, **k)
            return f
        pd.Series.__dict__.get('arg' + which)
        setattr(pd.Series, 'arg' + which, mkarg(getattr(pd.Series, 'arg' + which), which))
        setattr(pd.Series, 'idx' + which, mkidx(getattr(pd.Series, 'idx' + which), which))
        setattr(pd.DataFrame, 'idx' + which, mkidx(getattr(pd.DataFrame, 'idx' + which), which))

    # loc / iloc with symbolic masks
    from pandas.core.indexing import _iLocIndexer, _LocIndexer
    for cls in (_LocIndexer, _iLocIndexer):
        def mkg(orig):
            def __getitem__(self, k):
                return orig(self, _fixkey(k))
            return __getitem__

        def mks(orig, isloc):
            def __setitem__(self, k, v):
                if isinstance(v, symnp.Guarded):
                    v = v._concrete()
                if isinstance(v, Sym):
                    v = norm(v)
                m = k[0] if isinstance(k, tuple) else k
                if _is_unknown_mask(m) and not isinstance(v, (list, tuple)):
                    o = self.obj
                    if isloc and isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], (list, pd.Index)) and \
                            len(k[1]) >= 1 and isinstance(o, pd.DataFrame) and \
                            builtins.all(isinstance(c, str) for c in k[1]) and not isinstance(v, (np.ndarray, pd.Series, pd.DataFrame)):
                        for c in k[1]:
                            self.__setitem__((m, c), v)
                        return
                    if isinstance(o, pd.Series) and not isinstance(k, tuple):
                        o[m] = v if not isinstance(v, np.ndarray) or v.shape == o.shape else v
                        return
                    if isinstance(o, pd.DataFrame) and isinstance(k, tuple) and len(k) == 2 and isloc and \
                            isinstance(k[1], str) and k[1] in o.columns and not isinstance(v, np.ndarray):
                        o[k[1]] = where_impl(o[k[1]], m, v, True)
                        return
                    if isinstance(o, pd.DataFrame) and isinstance(k, tuple) and len(k) == 2 and isloc and \
                            isinstance(k[1], str) and k[1] not in o.columns:
                        o[k[1]] = where_impl(pd.Series([np.nan] * len(o), index=o.index, dtype=object), m, v, True)
                        return
                if is_sym(v) or any_sym(v) or (isinstance(v, (list, tuple)) and builtins.any(is_sym(x) for x in v)):
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        if isinstance(v, (list, tuple)):
                            v = [norm(x) for x in v]
                        return orig(self, _fixkey(k), v)
                return orig(self, _fixkey(k), v)
            return __setitem__
        cls.__getitem__ = mkg(cls.__getitem__)
        cls.__setitem__ = mks(cls.__setitem__, cls is _LocIndexer)
    # _iLocIndexer / _LocIndexer inherit __getitem__/__setitem__ from _LocationIndexer
    from pandas.core.indexing import _ScalarAccessIndexer
    o_sset = _ScalarAccessIndexer.__setitem__
    o_sget = _ScalarAccessIndexer.__getitem__

    def sset(self, k, v):
        import warnings
        if isinstance(v, Sym):
            v = norm(v)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            return o_sset(self, _fixkey(k), v)
    _ScalarAccessIndexer.__setitem__ = sset
    for cls in _ScalarAccessIndexer.__subclasses__():
        for nm in ('__getitem__', '__setitem__'):
            if nm in cls.__dict__:
                def mkx(orig, nm):
                    if nm == '__getitem__':
                        return lambda self, k: orig(self, _fixkey(k))

                    def s(self, k, v):
                        if isinstance(v, Sym):
                            v = norm(v)
                        return orig(self, _fixkey(k), v)
                    return s
                setattr(cls, nm, mkx(cls.__dict__[nm], nm))
    _ScalarAccessIndexer.__getitem__ = lambda self, k: o_sget(self, _fixkey(k))

    # shift with symbolic int
    o_shift_s, o_shift_d = pd.Series.shift, pd.DataFrame.shift

    def fix_periods(p):
        return p.__index__() if isinstance(p, Sym) else p

    def mkshift(orig):
        def shift(self, periods=1, *a, **k):
            return orig(self, fix_periods(periods), *a, **k)
        return shift
    pd.Series.shift = mkshift(o_shift_s)
    pd.DataFrame.shift = mkshift(o_shift_d)

    # pct_change
    def mkpct(orig):
        def pct_change(self, periods=1, *a, **k):
            if any_sym(self):
                fm = k.get('fill_method', a[0] if a else 'pad')
                if a[1:] or set(k) - {'fill_method'}:
                    raise SymError('pct_change arguments')
                s = self if fm is None else self.ffill()
                return s / s.shift(periods) - 1
            return orig(self, periods, *a, **k)
        return pct_change
    for cls in (pd.Series, pd.DataFrame):
        cls.pct_change = mkpct(cls.pct_change)

    # dropna / ffill / bfill work through isna on object blocks
    # ffill/bfill on object blocks: drop downcast warnings, keep object
    def mkfill(orig, fwd):
        def f(self, *, axis=None, inplace=False, limit=None, limit_area=None, downcast=pd.api.extensions.no_default):
            if any_sym(self) and axis in (None, 0, 'index') and limit_area is None:
                if limit is not None and not (isinstance(limit, (int, np.integer)) and not isinstance(limit, bool) and limit > 0):
                    raise ValueError('Limit must be greater than 0')

                def col(v):
                    v = list(v)
                    if limit is not None and limit < len(v) - 1:
                        return far(v)
                    rng = range(1, len(v)) if fwd else range(len(v) - 2, -1, -1)
                    for i in rng:
                        n = core.isnan(v[i])
                        if n is True:
                            v[i] = v[i - 1 if fwd else i + 1]
                        elif isinstance(n, SymBool):
                            src = v[i - 1 if fwd else i + 1]
                            x = lift(v[i])
                            v[i] = norm(ite(n, lift(src), Sym(x.p, FALSE, x.pi, x.ni)))
                    return v

                def far(v):
                    # after d rounds a missing cell has the latest known one at most d rows away
                    miss = [core.isnan(x) for x in v]
                    cur, st = v, -1 if fwd else 1
                    for _ in range(limit):
                        new = list(v)
                        for i, m in enumerate(miss):
                            if m is False or not 0 <= i + st < len(v):
                                continue
                            new[i] = cur[i + st] if m is True else norm(ite(m, lift(cur[i + st]), Sym(lift(v[i]).p, FALSE, lift(v[i]).pi, lift(v[i]).ni)))
                        if all(a is b for a, b in zip(new, cur)):
                            break
                        cur = new
                    return cur
                r = map_cols(self, col)
                if inplace:
                    self._update_inplace(r)
                    return None
                return r
            if limit_area is not None:
                raise SymError('fill limit_area')
            return orig(self, axis=axis, inplace=inplace, limit=limit, downcast=downcast)
        return f
    for nm, fwd in (('ffill', True), ('bfill', False), ('pad', True), ('backfill', False)):
        if nm in NDFrame.__dict__:
            setattr(NDFrame, nm, mkfill(NDFrame.__dict__[nm], fwd))

    # replace: scalars only (to_replace, value) e.g. inf -> nan
    def mkrep(orig):
        def replace(self, to_replace=None, value=pd.api.extensions.no_default, *, inplace=False, **k):
            if any_sym(self):
                if k or value is None or value is pd.api.extensions.no_default and not isinstance(to_replace, dict):
                    raise SymError('replace arguments')
                if isinstance(to_replace, dict) and value is pd.api.extensions.no_default:
                    pairs = list(to_replace.items())
                elif isinstance(to_replace, (list, tuple)):
                    vs = value if isinstance(value, (list, tuple)) else [value] * len(to_replace)
                    pairs = list(zip(to_replace, vs))
                else:
                    pairs = [(to_replace, value)]

                def one(x):
                    r = x
                    for a, b in pairs:
                        if isinstance(a, str) or isinstance(x, str):
                            if isinstance(a, str) and isinstance(x, str) and a == x:
                                r = b
                            continue
                        if core.isnan(a) is True:
                            c = symnp._isnan(x)
                        else:
                            if core.isnan(x) is True:
                                continue
                            c = lift(x) == lift(a)
                        if c is False:
                            continue
                        r = ite(c if isinstance(c, SymBool) else builtins.bool(c), lift(b), lift(r))
                    return norm(r) if not isinstance(r, (SymBool, str)) else r
                res = map_cols(self, lambda v: [one(x) for x in v])
                if inplace:
                    self._update_inplace(res)
                    return None
                return res
            return orig(self, to_replace, value, inplace=inplace, **k)
        return replace
    for cls in (pd.Series, pd.DataFrame, NDFrame):
        if 'replace' in cls.__dict__:
            cls.replace = mkrep(cls.__dict__['replace'])

    # the type of symbolic columns, asked by the library: floats (columns whose type is the question have none)
    F64 = np.dtype('float64')

    def asks():
        return (sys._getframe(2).f_globals.get('__name__') or '').split('.')[0] == 'tti'

    def raw_type(s):
        if not any(isinstance(x, core.Raw) for x in s._values):
            return F64
        if core.RAWTYPE is None:
            raise core.SymError('type of a column of unknown numeric type')
        return core.RAWTYPE

    def mkdtype(orig):
        def dtype(self):
            r = orig.fget(self)
            if r == object and asks() and any_sym(self):
                return raw_type(self)
            return r
        return property(dtype)
    pd.Series.dtype = mkdtype(pd.Series.dtype)
    pd.Series.dtypes = mkdtype(pd.Series.dtypes)
    o_dts = pd.DataFrame.dtypes

    def dtypes(self):
        r = o_dts.fget(self)
        if asks() and any_sym(self):
            out = r.astype(object)
            for j in range(self.shape[1]):
                c = self.iloc[:, j]
                if any_sym(c):
                    out.iloc[j] = raw_type(c)
            return out
        return r
    pd.DataFrame.dtypes = property(dtypes)

    # numeric dtype tests
    import pandas.api.types as pat
    import pandas.core.dtypes.common as dcommon
    o_num = pat.is_numeric_dtype

    def is_numeric_dtype(x):
        if isinstance(x, (pd.Series, pd.DataFrame)) and any_sym(x):
            return True
        return o_num(x)
    pat.is_numeric_dtype = is_numeric_dtype
    pd.api.types.is_numeric_dtype = is_numeric_dtype
    dcommon.is_numeric_dtype_public = is_numeric_dtype
    import pandas.core.dtypes.api as dapi
    dapi.is_numeric_dtype = is_numeric_dtype
    o_sel = pd.DataFrame.select_dtypes

    def select_dtypes(self, include=None, exclude=None):
        if any_sym(self):
            incs = include if isinstance(include, (list, tuple, set)) else [include]
            isnum = [any_sym(self.iloc[:, j]) or o_num(self.iloc[:, j]) for j in range(self.shape[1])]
            if include is not None:
                return self.iloc[:, [j for j, b in enumerate(isnum) if b]]
            return self.iloc[:, [j for j, b in enumerate(isnum) if not b]]
        return o_sel(self, include, exclude)
    pd.DataFrame.select_dtypes = select_dtypes
    o_tonum = pd.to_numeric

    def to_numeric(arg, *a, **k):
        if any_sym(arg):
            return arg
        return o_tonum(arg, *a, **k)
    pd.to_numeric = to_numeric

    # equality of frames
    o_eq = NDFrame.equals

    def equals(self, other):
        if any_sym(self) or any_sym(other):
            if not isinstance(other, type(self)) or self.shape != other.shape or not self.index.equals(other.index):
                return False
            if isinstance(self, pd.DataFrame) and not self.columns.equals(other.columns):
                return False
            bs = []
            for x, y in zip(np.asarray(self.to_numpy()).flat, np.asarray(other.to_numpy()).flat):
                nx, ny = bool_b(symnp._isnan(x)), bool_b(symnp._isnan(y))
                e = bool_b(symnp.UF['equal'](x, y)) if not (nx is TRUE or ny is TRUE) else FALSE
                bs.append(bor(e, band(nx, ny)))
            return builtins.bool(SymBool(band(*bs)))
        return o_eq(self, other)
    NDFrame.equals = equals

    # combine ufuncs called on Series/DataFrame directly
    o_uf_s = NDFrame.__array_ufunc__

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if builtins.any(any_sym(i) for i in inputs) and method == '__call__' and ufunc.__name__ in symnp.UF:
            pds = [i for i in inputs if isinstance(i, (pd.Series, pd.DataFrame))]
            if len(pds) == 2 and builtins.all(isinstance(i, pd.Series) for i in pds) and \
                    not pds[0].index.equals(pds[1].index):
                inputs = pds = list(pds[0].align(pds[1]))
            r = elementwise(ufunc.__name__, *inputs)
            return symnp.wrap_like(pds[0], r)
        return o_uf_s(self, ufunc, method, *inputs, **kw)
    for cls in (NDFrame, pd.Series, pd.DataFrame):
        if '__array_ufunc__' in cls.__dict__:
            cls.__array_ufunc__ = __array_ufunc__

    # Series(None...) -> NaN when numeric symbols are present
    o_init = pd.Series.__init__

    def s_init(self, data=None, *a, **k):
        if isinstance(data, (list, tuple)) and builtins.any(is_sym(x) for x in data):
            if builtins.any(isinstance(x, Sym) for x in data):
                data = [norm(x) if not isinstance(x, (SymBool, str)) else x for x in data]
            arr = np.empty(len(data), dtype=object)
            for i, x in enumerate(data):
                arr[i] = x
            data = arr
            k['dtype'] = object
        elif isinstance(data, SArr):
            data = np.asarray(data)
            if has_sym(data) and 'dtype' in k and k['dtype'] is not None and symnp.dtype_kind(k['dtype']) == 'f':
                k['dtype'] = object
            if data.dtype == object and has_sym(data) and builtins.any(x is None for x in data.flat):
                data = np.array([norm(x) if x is None else x for x in data.flat], dtype=object)
        elif isinstance(data, symnp.Guarded):
            data = np.asarray(data._concrete())
        elif is_sym(data):
            idx = k.get('index', a[0] if a else None)
            n = 1 if idx is None else len(idx)
            arr = np.empty(n, dtype=object)
            for i in range(n):
                arr[i] = norm(data) if isinstance(data, Sym) else data
            data = arr
            k['dtype'] = object
        if isinstance(k.get('dtype'), type) and hasattr(k.get('dtype'), '_symkind'):
            k['dtype'] = {'f': 'float64', 'i': 'int64'}[k['dtype']._symkind]
        if k.get('dtype') is not None and symnp.dtype_kind(k['dtype']) in 'fi' and any_sym(data):
            k['dtype'] = object
        o_init(self, data, *a, **k)
        if core.CTX.active and self._mgr is not None and len(self) and self.dtype.kind == 'f':
            o_init(self, symnp.boxed(np.asarray(self._values)), index=self.index, name=self.name, dtype=object)
    pd.Series.__init__ = s_init
    o_dinit = pd.DataFrame.__init__

    def d_init(self, data=None, *a, **k):
        if isinstance(data, SArr):
            data = np.asarray(data)
        elif isinstance(data, dict):
            data = {c: (np.asarray(v) if isinstance(v, SArr) else (v._concrete() if isinstance(v, symnp.Guarded) else v))
                    for c, v in data.items()}
        if k.get('dtype') is not None and not isinstance(k['dtype'], str):
            if isinstance(k['dtype'], type) and hasattr(k['dtype'], '_symkind'):
                k['dtype'] = {'f': 'float64', 'i': 'int64'}[k['dtype']._symkind]
        if k.get('dtype') is not None and symnp.dtype_kind(k['dtype']) in 'fi' and (
                any_sym(data) or (isinstance(data, dict) and builtins.any(
                    any_sym(v) or (isinstance(v, list) and builtins.any(is_sym(x) for x in v)) for v in data.values()))
                or (isinstance(data, list) and builtins.any(
                    is_sym(x) or (isinstance(x, (list, tuple)) and builtins.any(is_sym(y) for y in x)) for x in data))):
            k['dtype'] = object
        o_dinit(self, data, *a, **k)
        if core.CTX.active and self.shape[0] and self.shape[1] and builtins.any(
                getattr(x, 'dtype', None) is not None and x.dtype.kind == 'f' for x in self._mgr.arrays):
            if builtins.all(x.dtype.kind == 'f' or x.dtype == object for x in self._mgr.arrays):
                v = np.empty(self.shape, dtype=object)
                for j in range(self.shape[1]):
                    c = np.asarray(self._mgr.iget_values(j))
                    v[:, j] = symnp.boxed(c) if c.dtype.kind == 'f' else c
                o_dinit(self, v, index=self.index, columns=self.columns)
            else:
                d = [np.asarray(self._mgr.iget_values(j)) for j in range(self.shape[1])]
                d = [symnp.boxed(c) if c.dtype.kind == 'f' else c for c in d]
                cols = self.columns
                o_dinit(self, dict(enumerate(d)), index=self.index)
                self.columns = cols
    pd.DataFrame.__init__ = d_init
