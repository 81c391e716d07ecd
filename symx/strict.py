"""Nothing symbolic passes unmodelled code.

pandas and numpy keep Sym cells in object arrays and have their own meaning for object data (a method may ignore,
hash, compare or drop such cells without failing).  Every public method and function which is neither modelled in
sympd/symnp nor purely structural is therefore closed for data holding Sym cells: it raises SymError, and the
obligation is undecided instead of being decided on a wrong reading.  Some of the methods are modelled here.
"""
import builtins
import functools

import numpy as np
import pandas as pd

from . import core, symnp
from .core import NAN, FALSE, TRUE, Sym, SymBool, SymError, lift
from .symnp import is_sym, norm, order
from .sympd import any_sym, cells, map_cols, mk

# pandas' own code is right for object cells: it moves cells, or it is built on operators, isna, reductions and
# indexing, which sympd models
SAFE = set('''T add add_prefix add_suffix agg aggregate align all any apply applymap array asfreq assign at attrs axes
between between_time at_time bool case_when combine combine_first copy cummax cummin cumprod cumsum div divide drop
droplevel dropna dt dtype dtypes empty eq explode filter first first_valid_index last last_valid_index flags floordiv
ge get gt head iat iloc index insert isetitem item items iterrows itertuples join keys kurt kurtosis last le list loc lt
map max mean median min mod mul multiply name ndim ne pipe pop pow prod product radd ravel rdiv reindex
reindex_like rename rename_axis reorder_levels repeat reset_index rfloordiv rmod rmul rpow rsub rtruediv
sem set_axis set_flags set_index shape size skew sort_index squeeze stack std sub subtract sum
swapaxes swaplevel tail take to_dict to_frame to_list to_period to_string to_timestamp tolist transpose truediv truncate
tz_convert tz_localize unstack update var xs values columns transform str plot nbytes memory_usage info
infer_objects sort_values to_csv style sparse struct cat divmod rdivmod'''.split())
# names modelled in sympd (or here) are recognised by not being pandas' own function any more


def _sym_args(a, k):
    return builtins.any(_sv(x) for x in a) or builtins.any(_sv(x) for x in k.values())


def _sv(x):
    if isinstance(x, (pd.Series, pd.DataFrame, pd.Index, np.ndarray)):
        return any_sym(x)
    if isinstance(x, (list, tuple, set)):
        return builtins.any(_sv(y) for y in x)
    if isinstance(x, dict):
        return builtins.any(_sv(y) for y in x.values())
    return is_sym(x)


def _closed(what, orig):
    @functools.wraps(orig)
    def f(self, *a, **k):
        if any_sym(self):
            raise SymError('unmodelled ' + what)
        return orig(self, *a, **k)
    return f


def _closed_fn(what, orig):
    @functools.wraps(orig)
    def f(*a, **k):
        if _sym_args(a, k):
            raise SymError('unmodelled ' + what)
        return orig(*a, **k)
    return f


def nanb(x):
    """is the cell missing?  decided by a fork where it is open"""
    return builtins.bool(core.isnan(x))


def same(x, y):
    if nanb(x) or nanb(y):
        return nanb(x) and nanb(y)
    return builtins.bool(lift(x) == lift(y))


def interpolate_col(v, x, method, limit, direction, area):
    n = len(v)
    miss = [nanb(c) for c in v]
    ok = [i for i in range(n) if not miss[i]]
    out = list(v)
    if not ok:
        return out
    # pandas limits how many consecutive missing cells are filled, counted from the valid cell(s)
    def keep(i):
        before = [j for j in ok if j < i]
        after = [j for j in ok if j > i]
        fwd = builtins.bool(before) and direction in ('forward', 'both') and (limit is None or i - before[-1] <= limit)
        bwd = builtins.bool(after) and direction in ('backward', 'both') and (limit is None or after[0] - i <= limit)
        inside = builtins.bool(before) and builtins.bool(after)
        if area == 'inside' and not inside or area == 'outside' and inside:
            return False
        return fwd or bwd
    for i in range(n):
        if not miss[i] or not keep(i):
            continue
        before = [j for j in ok if j < i]
        after = [j for j in ok if j > i]
        if before and after:
            a, b = before[-1], after[0]
            if method == 'nearest':
                out[i] = v[a] if x[i] - x[a] <= x[b] - x[i] else v[b]
            else:
                out[i] = norm(lift(v[a]) + (lift(v[b]) - lift(v[a])) * core.rat(core.F(x[i] - x[a]) / core.F(x[b] - x[a])))
        elif method != 'nearest':
            out[i] = v[before[-1]] if before else v[after[0]]
    return out


def rank_col(v, method, ascending, na_option, pct):
    vals = [(i, c) for i, c in enumerate(v) if not nanb(c)]
    if na_option != 'keep':
        raise SymError('rank na_option')
    out = [np.nan] * len(v)
    if method == 'dense':
        raise SymError('rank dense')
    for i, c in vals:
        less = [1 for _, d in vals if builtins.bool((lift(d) < lift(c)) if ascending else (lift(d) > lift(c)))]
        eq = [j for j, d in vals if same(d, c)]
        lo, hi = len(less) + 1, len(less) + len(eq)
        r = {'average': (lo + hi) / 2, 'min': lo, 'max': hi, 'first': lo + len([j for j in eq if j < i])}[method]
        out[i] = r / len(vals) if pct else float(r)
    return out


def dup_mask(rows, keep='first'):
    n = len(rows)
    eq = lambda i, j: builtins.all(same_any(a, b) for a, b in zip(rows[i], rows[j]))
    out = []
    for i in range(n):
        if keep == 'first':
            out.append(builtins.any(eq(j, i) for j in range(i)))
        elif keep == 'last':
            out.append(builtins.any(eq(j, i) for j in range(i + 1, n)))
        else:
            out.append(builtins.any(eq(j, i) for j in range(n) if j != i))
    return np.array(out, dtype=bool)


def same_any(a, b):
    if is_sym(a) or is_sym(b):
        if isinstance(a, str) or isinstance(b, str):
            return False
        return same(a, b)
    if isinstance(a, float) and a != a:
        return isinstance(b, float) and b != b
    return builtins.bool(a == b)


def distinct(v):
    out = []
    for c in v:
        if not builtins.any(same_any(c, d) for d in out):
            out.append(c)
    return out


def quant(v, q, interpolation='linear'):
    v = [c for c in v if not nanb(c)]
    if not v:
        return np.nan
    if interpolation != 'linear':
        raise SymError('quantile interpolation')
    v = symnp.msort([lift(c) for c in v])
    pos = core.F(str(q)) * (len(v) - 1) if not is_sym(q) else (_ for _ in ()).throw(SymError('quantile'))
    i = int(pos // 1)
    fr = pos - i
    return v[i] if not fr else v[i] + (v[i + 1] - v[i]) * core.rat(fr)


class Groups:
    """groupby / resample of data with Sym cells: the groups are taken by pandas from row numbers"""

    def __init__(self, o, make, what):
        self._o = o
        pos = pd.Series(np.arange(len(o)), index=o.index)
        g = make(pos)
        self._keys, self._idx = [], []
        for k, s in g:
            self._keys.append(k)
            self._idx.append([int(i) for i in np.asarray(s)])
        names = getattr(g, 'keys', None)
        self._index = g.size().index
        if len(self._index) != len(self._keys):
            raise SymError(what)

    def __iter__(self):
        for k, i in zip(self._keys, self._idx):
            yield k, self._o.iloc[i]

    def __getitem__(self, k):
        r = object.__new__(Groups)
        r.__dict__ = dict(self.__dict__)
        r._o = self._o[k]
        return r

    def __len__(self):
        return len(self._keys)

    @property
    def ngroups(self):
        return len(self._keys)

    def _red(self, f):
        rs = [f(self._o.iloc[i]) for i in self._idx]
        if isinstance(self._o, pd.Series):
            r = pd.Series(mk(rs), index=self._index, name=self._o.name) if rs else self._o.iloc[:0]
            return r
        a = np.empty((len(rs), self._o.shape[1]), dtype=object)
        for j, r in enumerate(rs):
            a[j, :] = list(r)
        return pd.DataFrame(a, index=self._index, columns=self._o.columns)

    def _each(self, f):
        parts = [f(self._o.iloc[i]) for i in self._idx]
        return pd.concat(parts).iloc[np.argsort([j for i in self._idx for j in i], kind='stable')]

    def agg(self, f, *a, **k):
        if isinstance(f, str):
            return getattr(self, f)(*a, **k)
        if isinstance(f, dict):
            return pd.DataFrame({c: self[c].agg(g) for c, g in f.items()})
        if isinstance(f, list):
            raise SymError('groupby agg list')
        return self._red(lambda s: s.agg(f, *a, **k))
    aggregate = agg

    def size(self):
        return pd.Series([len(i) for i in self._idx], index=self._index)

    def cumcount(self):
        return self._each(lambda s: pd.Series(range(len(s)), index=s.index))

    def apply(self, f, *a, **k):
        return self._red(lambda s: f(s, *a, **k))

    def transform(self, f, *a, **k):
        def g(s):
            r = getattr(s, f)(*a, **k) if isinstance(f, str) else f(s, *a, **k)
            if isinstance(r, (pd.Series, pd.DataFrame)) and r.shape == s.shape:
                return r
            return pd.Series(mk([r] * len(s)), index=s.index) if isinstance(s, pd.Series) else (_ for _ in ()).throw(
                SymError('groupby transform'))
        return self._each(g)

    def _pick(self, n, first):
        def one(v):
            w = [c for c in (v if first else v[::-1]) if not nanb(c)]
            return w[0] if w else np.nan

        def f(s):
            if isinstance(s, pd.Series):
                return one(cells(s))
            return [one(cells(s.iloc[:, j])) for j in range(s.shape[1])]
        return self._red(f)

    def first(self, *a, **k):
        return self._pick(0, True)

    def last(self, *a, **k):
        return self._pick(0, False)

    def nth(self, n):
        return pd.concat([self._o.iloc[[i[n]]] for i in self._idx if -len(i) <= n < len(i)])

    def head(self, n=5):
        return self._o.iloc[sorted(j for i in self._idx for j in i[:n])]

    def tail(self, n=5):
        return self._o.iloc[sorted(j for i in self._idx for j in i[len(i) - n if n < len(i) else 0:])]

    def __getattr__(self, n):
        if n in ('sum', 'mean', 'max', 'min', 'std', 'var', 'median', 'count', 'prod', 'any', 'all', 'sem'):
            return lambda *a, **k: self._red(lambda s: getattr(s, n)(*a, **k))
        if n in ('cumsum', 'cumprod', 'cummax', 'cummin', 'shift', 'diff', 'ffill', 'bfill', 'pct_change', 'fillna'):
            return lambda *a, **k: self._each(lambda s: getattr(s, n)(*a, **k))
        raise SymError('groupby ' + n)


_done = False


def install():
    global _done
    if _done:
        return
    _done = True
    nd = pd.api.extensions.no_default
    import pandas.core.generic as gen

    # ---- modelled
    o_int = {c: c.interpolate for c in (pd.Series, pd.DataFrame)}

    def mkint(orig):
        def interpolate(self, method='linear', *, axis=0, limit=None, inplace=False, limit_direction=None,
                        limit_area=None, downcast=nd, **kw):
            if not any_sym(self):
                return orig(self, method=method, axis=axis, limit=limit, inplace=inplace,
                            limit_direction=limit_direction, limit_area=limit_area, downcast=downcast, **kw)
            if axis in (1, 'columns'):
                return self.T.interpolate(method, limit=limit, limit_direction=limit_direction, limit_area=limit_area).T
            n = len(self)
            if method in ('pad', 'ffill', 'bfill', 'backfill'):
                r = self.ffill(limit=limit) if method in ('pad', 'ffill') else self.bfill(limit=limit)
            else:
                if method in ('linear',):
                    x = list(range(n))
                elif method in ('time', 'index', 'values', 'nearest'):
                    x = [int(t) for t in self.index.asi8] if isinstance(self.index, pd.DatetimeIndex) \
                        else [core.F(float(t)) for t in self.index]
                else:
                    raise SymError('interpolate ' + str(method))
                d = limit_direction or 'forward'
                r = map_cols(self, lambda v: interpolate_col(v, x, method, limit, d, limit_area))
            if inplace:
                self._update_inplace(r)
                return None
            return r
        return interpolate
    for c in (pd.Series, pd.DataFrame):
        c.interpolate = mkint(o_int[c])

    o_rank = gen.NDFrame.rank

    def rank(self, axis=0, method='average', numeric_only=False, na_option='keep', ascending=True, pct=False):
        if any_sym(self):
            if axis in (1, 'columns'):
                return self.T.rank(0, method, numeric_only, na_option, ascending, pct).T
            return map_cols(self, lambda v: rank_col(v, method, ascending, na_option, pct))
        return o_rank(self, axis, method, numeric_only, na_option, ascending, pct)
    gen.NDFrame.rank = rank

    S, D = pd.Series, pd.DataFrame
    o_un, o_nun, o_dup, o_dd = S.unique, S.nunique, S.duplicated, S.drop_duplicates

    def unique(self):
        return np.asarray(mk(distinct(cells(self)))) if any_sym(self) else o_un(self)
    S.unique = unique

    def nunique(self, dropna=True):
        if any_sym(self):
            return len([c for c in distinct(cells(self)) if not (dropna and nanb(c))])
        return o_nun(self, dropna)
    S.nunique = nunique

    def s_dup(self, keep='first'):
        if any_sym(self):
            return S(dup_mask([[c] for c in cells(self)], keep), index=self.index, name=self.name)
        return o_dup(self, keep)
    S.duplicated = s_dup

    def s_dd(self, *, keep='first', inplace=False, ignore_index=False):
        if any_sym(self) and not inplace:
            r = self[~dup_mask([[c] for c in cells(self)], keep)]
            return r.reset_index(drop=True) if ignore_index else r
        return o_dd(self, keep=keep, inplace=inplace, ignore_index=ignore_index)
    S.drop_duplicates = s_dd
    d_dup, d_dd, d_nun = D.duplicated, D.drop_duplicates, D.nunique

    def fd(self, subset=None, keep='first'):
        o = self if subset is None else self[[subset] if isinstance(subset, str) else list(subset)]
        if any_sym(o):
            return S(dup_mask([list(r) for r in np.asarray(o.to_numpy())], keep), index=self.index)
        return d_dup(self, subset, keep)
    D.duplicated = fd

    def fdd(self, subset=None, *, keep='first', inplace=False, ignore_index=False):
        if any_sym(self):
            r = self[~np.asarray(fd(self, subset, keep))]
            if ignore_index:
                r = r.reset_index(drop=True)
            if inplace:
                self._update_inplace(r)
                return None
            return r
        return d_dd(self, subset, keep=keep, inplace=inplace, ignore_index=ignore_index)
    D.drop_duplicates = fdd

    def fnun(self, axis=0, dropna=True):
        if any_sym(self):
            return self.apply(lambda s: s.nunique(dropna), axis=axis)
        return d_nun(self, axis, dropna)
    D.nunique = fnun

    o_vc = S.value_counts

    def value_counts(self, normalize=False, sort=True, ascending=False, bins=None, dropna=True):
        if any_sym(self):
            vs = [c for c in cells(self) if not nanb(c)]
            ds = distinct(vs)
            n = [builtins.sum(1 for c in vs if same_any(c, d)) for d in ds]
            raise SymError('value_counts') if builtins.len(ds) else None
        return o_vc(self, normalize, sort, ascending, bins, dropna)
    S.value_counts = value_counts

    def mkisin(orig):
        def isin(self, values):
            if any_sym(self) or _sv(values):
                if isinstance(values, (dict, D)) or isinstance(values, S) and isinstance(self, D):
                    raise SymError('isin')
                vs = list(values)
                return map_cols(self, lambda v: [builtins.any(same_any(c, w) for w in vs) for c in v])
            return orig(self, values)
        return isin
    S.isin, D.isin = mkisin(S.isin), mkisin(D.isin)

    o_q, d_q = S.quantile, D.quantile

    def s_q(self, q=0.5, interpolation='linear'):
        if any_sym(self):
            if isinstance(q, (list, tuple, np.ndarray)):
                return S(mk([quant(cells(self), x, interpolation) for x in q]), index=list(q))
            return quant(cells(self), q, interpolation)
        return o_q(self, q, interpolation)
    S.quantile = s_q

    def d_quant(self, q=0.5, axis=0, numeric_only=False, interpolation='linear', method='single'):
        if any_sym(self):
            if isinstance(q, (list, tuple)):
                raise SymError('quantile')
            return self.apply(lambda s: s_q(s, q, interpolation), axis=axis)
        return d_q(self, q, axis, numeric_only, interpolation, method)
    D.quantile = d_quant

    o_as = S.argsort

    def argsort(self, axis=0, kind='quicksort', order_=None, **k):
        if any_sym(self):
            return S(order(cells(self)), index=self.index)
        return o_as(self, axis, kind)
    S.argsort = argsort

    o_sv, d_sv = S.sort_values, D.sort_values

    def s_sv(self, *, axis=0, ascending=True, inplace=False, kind='quicksort', na_position='last', ignore_index=False,
             key=None):
        if any_sym(self) and key is None and na_position == 'last' and isinstance(ascending, builtins.bool):
            r = self.iloc[order(cells(self), ascending)]
            if ignore_index:
                r = r.reset_index(drop=True)
            if inplace:
                self._update_inplace(r)
                return None
            return r
        if any_sym(self):
            raise SymError('sort_values')
        return o_sv(self, axis=axis, ascending=ascending, inplace=inplace, kind=kind, na_position=na_position,
                    ignore_index=ignore_index, key=key)
    S.sort_values = s_sv

    def d_svf(self, by, *, axis=0, ascending=True, inplace=False, kind='quicksort', na_position='last',
              ignore_index=False, key=None):
        one = by[0] if isinstance(by, (list, tuple)) and len(by) == 1 else by
        asc = ascending[0] if isinstance(ascending, (list, tuple)) and len(ascending) == 1 else ascending
        if axis in (0, 'index') and isinstance(one, str) and one in self.columns and any_sym(self[one]):
            if key is not None or na_position != 'last':
                raise SymError('sort_values')
            r = self.iloc[order(cells(self[one]), builtins.bool(asc))]
            if ignore_index:
                r = r.reset_index(drop=True)
            if inplace:
                self._update_inplace(r)
                return None
            return r
        if any_sym(self) and (axis not in (0, 'index') or not isinstance(one, str) and builtins.any(
                b in self.columns and any_sym(self[b]) for b in by)):
            raise SymError('sort_values')
        return d_sv(self, by, axis=axis, ascending=ascending, inplace=inplace, kind=kind, na_position=na_position,
                    ignore_index=ignore_index, key=key)
    D.sort_values = d_svf

    def mknl(orig, big):
        def f(self, n=5, keep='first'):
            if any_sym(self):
                if keep != 'first':
                    raise SymError('nlargest')
                v = cells(self)
                idx = [i for i in order(v, not big) if not nanb(v[i])]
                return self.iloc[idx[:n]]
            return orig(self, n, keep)
        return f
    S.nlargest, S.nsmallest = mknl(S.nlargest, True), mknl(S.nsmallest, False)

    for nm in ('is_monotonic_increasing', 'is_monotonic_decreasing', 'is_unique'):
        def mkp(orig, nm):
            def f(self):
                if any_sym(self):
                    v = cells(self)
                    if nm == 'is_unique':
                        return not dup_mask([[c] for c in v]).any()
                    if builtins.any(nanb(c) for c in v):
                        return False
                    up = nm.endswith('increasing')
                    return builtins.all(builtins.bool(lift(a) <= lift(b) if up else lift(a) >= lift(b))
                                        for a, b in zip(v, v[1:]))
                return orig.fget(self)
            return property(f)
        setattr(S, nm, mkp(getattr(S, nm), nm))
    o_hn = S.hasnans
    S.hasnans = property(lambda self: builtins.any(nanb(c) for c in cells(self)) if any_sym(self) else o_hn.fget(self))

    from .sympd import _cov

    def pairup(a, b):
        a, b = a.align(b, join='inner')
        v = [(lift(x), lift(y)) for x, y in zip(cells(a), cells(b)) if not nanb(x) and not nanb(y)]
        return [x for x, _ in v], [y for _, y in v]
    o_cov, o_corr = S.cov, S.corr

    def s_cov(self, other, min_periods=None, ddof=1):
        if any_sym(self) or any_sym(other):
            x, y = pairup(self, other)
            return _cov(x, y, ddof) if len(x) > ddof else np.nan
        return o_cov(self, other, min_periods, ddof)
    S.cov = s_cov

    def s_corr(self, other, method='pearson', min_periods=None):
        if any_sym(self) or any_sym(other):
            if method != 'pearson':
                raise SymError('corr')
            x, y = pairup(self, other)
            if len(x) < 2:
                return np.nan
            return _cov(x, y, 1) / (_cov(x, x, 1) * _cov(y, y, 1)).sqrt()
        return o_corr(self, other, method, min_periods)
    S.corr = s_corr
    S.autocorr = lambda self, lag=1: self.corr(self.shift(lag))

    for c in (S, D):
        def mkg(orig):
            def groupby(self, by=None, axis=nd, level=None, as_index=True, sort=True, group_keys=True, observed=nd,
                        dropna=True):
                if any_sym(self):
                    if axis not in (nd, 0, 'index') or not as_index or _sv(by):
                        raise SymError('groupby')
                    if isinstance(by, str) and isinstance(self, D) and by in self.columns:
                        if any_sym(self[by]):
                            raise SymError('groupby on symbolic cells')
                        key = np.asarray(self[by])
                        return Groups(self.drop(columns=by), lambda p: p.groupby(key, sort=sort), 'groupby')
                    if isinstance(by, list) and builtins.any(isinstance(b, str) for b in by):
                        raise SymError('groupby')
                    return Groups(self, lambda p: p.groupby(by, level=level, sort=sort), 'groupby')
                kw = {n: v for n, v in (('axis', axis), ('observed', observed)) if v is not nd}
                return orig(self, by, level=level, as_index=as_index, sort=sort, group_keys=group_keys, dropna=dropna,
                            **kw)
            return groupby
        c.groupby = mkg(c.groupby)
    o_rs = gen.NDFrame.resample

    def resample(self, rule, *a, **k):
        if any_sym(self):
            return Groups(self, lambda p: p.resample(rule, *a, **k), 'resample')
        return o_rs(self, rule, *a, **k)
    gen.NDFrame.resample = resample
    for c in (S, D):
        if 'resample' in c.__dict__:
            c.resample = resample
        if 'rank' in c.__dict__:
            c.rank = rank

    # ---- closed
    mod = ('symx.', 'pandas.')
    for c in (S, D):
        for nm in dir(c):
            if nm.startswith('_') or nm in SAFE:
                continue
            v = None
            for b in c.__mro__:
                if nm in b.__dict__:
                    v = b.__dict__[nm]
                    break
            if isinstance(v, property):
                g = v.fget
                if g is None or (getattr(g, '__module__', '') or '').startswith('symx'):
                    continue
                setattr(c, nm, property(_closed('%s.%s' % (c.__name__, nm), g), v.fset, v.fdel))
            elif callable(v) and not isinstance(v, type) and not (getattr(v, '__module__', '') or '').startswith('symx'):
                setattr(c, nm, _closed('%s.%s' % (c.__name__, nm), v))
    for nm in ('cut', 'qcut', 'unique', 'factorize', 'get_dummies', 'melt', 'pivot', 'pivot_table', 'crosstab', 'merge_asof',
               'merge_ordered', 'eval', 'to_datetime', 'to_timedelta', 'value_counts', 'wide_to_long', 'lreshape',
               'from_dummies', 'array', 'infer_freq'):
        if hasattr(pd, nm):
            setattr(pd, nm, _closed_fn('pd.' + nm, getattr(pd, nm)))
