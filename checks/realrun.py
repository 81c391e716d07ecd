"""Concrete runs of the real code, compared with an expectation.  No symbolic code is imported here."""
import importlib
import math
import sys

import numpy as np
import pandas as pd

import matplotlib.pyplot as plt
import tti.indicators as IND

from checks import layout
from checks.layout import calendar, construct, related
from tti.utils.constants import TRADE_SIGNALS


def dates(n, start='2020-01-01'):
    return pd.date_range(start, periods=n, freq='D')


def num(v):
    return np.nan if v is None or v == 'nan' else float(v)


def frame(data, index=None):
    n = len(next(iter(data.values())))
    return pd.DataFrame({c: [num(v) for v in vs] for c, vs in data.items()}, index=dates(n) if index is None else index)


KEEP = []


def build(spec):
    cls = getattr(IND, spec['indicator'])
    idx = lambda d: calendar(spec.get('cal'), len(next(iter(d.values()))))
    if spec.get('decoy'):
        ti = cls(frame(spec['decoy'], idx(spec['decoy'])), **spec.get('decoy_kw', spec['kwargs']))
        ti.getTiData(), ti.getTiSignal(), ti.getTiValue()
        KEEP[:] = [ti]
    return construct(cls, frame(spec['data'], idx(spec['data'])), spec['kwargs'], spec.get('how'))


def run(spec):
    return KINDS[spec['kind']](spec)


def blame(e):
    """an error which does not come from the library (or from calling it) is one of this program"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_globals.get('__name__', '').split('.')[0] == 'tti':
            return
        tb = tb.tb_next
    if not (isinstance(e, TypeError) and ('__init__()' in str(e) or 'getTi' in str(e))):
        raise e


def bad(msg):
    return dict(reproduced=True, detail=msg)


OK = dict(reproduced=False, detail='real code agrees')


def values(spec):
    name = '%s(%s)' % (spec['indicator'], spec['kwargs'])
    try:
        t = build(spec).getTiData()
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    exp = spec['expect']
    if list(t.columns) != list(exp):
        return bad('%s columns %s, expected %s' % (name, list(t.columns), list(exp)))
    for c, vs in exp.items():
        if len(vs) != len(t):
            return bad('%s has %d rows, expected %d' % (name, len(t), len(vs)))
        for i, v in enumerate(vs):
            a = t[c].iloc[i]
            if v is None:
                continue
            if v == 'nan':
                if not (a is None or math.isnan(a)):
                    return bad('%s %s[%d] = %r, expected no value yet' % (name, c, i, a))
            elif a is None or not math.isfinite(a) or abs(a - v) > spec['tol'] + 1e-9 * abs(v):
                return bad('%s %s[%d] = %r, expected %r' % (name, c, i, a, v))
    return OK


def same_frames(a, b):
    return list(a.columns) == list(b.columns) and a.index.equals(b.index) and a.equals(b)


def signal(spec):
    name = '%s(%s)' % (spec['indicator'], spec['kwargs'])
    try:
        ti = build(spec)
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    if spec.get('ti') is not None:
        t = ti.getTiData()
        ti._ti_data = pd.DataFrame({c: [num(v) for v in vs] for c, vs in spec['ti'].items()}, index=t.index)
    cols = list(spec['data'])
    i0, t0 = ti._input_data[cols].copy(), ti._ti_data.copy()
    legal = [('buy', -1), ('hold', 0), ('sell', 1)]
    ctx = '%s, values %s' % (name, {c: vs[-5:] for c, vs in (spec.get('ti') or {}).items()})
    try:
        r = ti.getTiSignal()
        if spec['mode'] != 'rule':
            ti.getTiValue()
            ti.getTiValue('2020-01-01')
            ti.getTiValue('1999-01-01')
        r2 = ti.getTiSignal()
    except Exception as e:
        blame(e)
        return bad('%s: getTiSignal raises %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    if type(r) is not tuple or r not in legal:
        return bad('%s: signal %r' % (ctx, r))
    if spec['mode'] == 'rule':
        if r[0] != spec['expect']:
            return bad('%s: signal %r, expected %s' % (ctx, r, spec['expect']))
        return OK
    if r != r2:
        return bad('%s: signal %r, then %r' % (ctx, r, r2))
    if not same_frames(i0, ti._input_data[cols]) or not same_frames(t0, ti._ti_data):
        return bad('%s: the query changed the data' % ctx)
    return OK


SIG = {'buy': ('buy', -1), 'hold': ('hold', 0), 'sell': ('sell', 1)}
COLS = ['signal', 'open_trading_action', 'stock_value', 'exposure', 'portfolio_value', 'earnings', 'balance']
ROUNDED = ('last_stock_value', 'last_exposure', 'last_portfolio_value', 'last_earnings', 'final_balance')


def near(a, b, t=1e-6):
    try:
        return math.isfinite(float(a)) and abs(float(a) - float(b)) <= t + 1e-9 * abs(float(b))
    except (TypeError, ValueError):
        return False


def ledger(spec):
    from tti.utils.trading_simulation import TradingSimulation
    p, n = spec['prices'], spec['n']
    idx = calendar(spec.get('cal'), n)
    if spec.get('decoy'):
        ix = calendar('gaps', 4)
        keep = TradingSimulation(ix, pd.DataFrame({'close': [7., 5., 6., 4.]}, index=ix), None, 2.0)
        for i, s in enumerate(('buy', 'sell', 'buy')):
            keep.runSimulationRound(i_index=i, signal=SIG[s])
    ctx = 'prices %s, cap %s, factor %s, signals %s' % (p, spec['cap'], spec['factor'], spec['signals'])
    try:
        sim = TradingSimulation(idx, pd.DataFrame({'close': p}, index=idx), spec['cap'], spec['factor'])
        for i, s in enumerate(spec['signals']):
            sim.runSimulationRound(i_index=i, signal=SIG[s])
        t, st = sim.closeSimulation()
    except Exception as e:
        blame(e)
        return bad('%s: %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    what = spec['what']
    if list(t.columns) != COLS or list(t.index) != list(idx):
        return bad('%s: columns %s' % (ctx, list(t.columns)))
    for i, r in enumerate(spec['rows']):
        for j, c in enumerate(COLS):
            if what == 'cap' and c != 'open_trading_action' or what == 'stats':
                continue
            a = t[c].iloc[i]
            if (a != r[j] if j < 2 else not near(a, r[j])):
                return bad('%s: day %d %s = %r, expected %r' % (ctx, i, c, a, r[j]))
        if what == 'cap' and spec['cap'] is not None and t['exposure'].iloc[i] > spec['cap'] + 1e-9:
            return bad('%s: day %d exposure %r above the cap' % (ctx, i, t['exposure'].iloc[i]))
    if what == 'stats':
        if set(st) != set(spec['stats']):
            return bad('%s: statistics %s' % (ctx, sorted(st)))
        for k, v in spec['stats'].items():
            if not (near(st[k], v, 0.00501) if k in ROUNDED else st[k] == v):
                return bad('%s: %s = %r, expected %r' % (ctx, k, st[k], v))
            if k in ROUNDED and not near(st[k] * 100, round(float(st[k]) * 100), 1e-4):
                return bad('%s: %s = %r is not rounded to 2 decimals' % (ctx, k, st[k]))
    return OK


def cut(ti, t, i, k):
    ti._input_data, ti._ti_data = i.iloc[:k + 1], t[t.index <= i.index[k]]


def replaysim(spec):
    name = '%s(%s)' % (spec['indicator'], spec['kwargs'])
    cls = getattr(IND, spec['indicator'])
    close = [num(x) for x in spec['close']]
    n = len(close)
    od = spec['order'] or list(range(n))
    idx = calendar(spec.get('cal'), n)
    cf = pd.DataFrame({'close': [close[i] for i in od]}, index=idx[od])
    try:
        ti = build(spec)
        t0, i0 = ti._ti_data.copy(), ti._input_data.copy()
        m = len(t0)
        seen = []
        if spec['stub']:
            def stub(self):
                seen.append((self._input_data.copy(), self._ti_data.copy()))
                return SIG[(spec['stub'] + ['hold'] * 9999)[len(seen) - 1]]
            ti.__class__ = type(spec['indicator'], (cls,), dict(getTiSignal=stub))
            want = spec['stub']
        else:
            t2 = build(spec)
            ft, fi = t2._ti_data, t2._input_data
            want = []
            for k in range(m):
                cut(t2, ft, fi, k)
                want.append(t2.getTiSignal()[0])
        t = ti.getTiSimulation(cf, None, 1.5)[0]
    except Exception as e:
        blame(e)
        return bad('%s simulation raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    if list(t.columns) != COLS or list(t.index) != list(idx):
        return bad('%s: table rows/columns differ' % name)
    for i in range(m):
        if t['signal'].iloc[i] != want[i]:
            return bad('%s: signal[%d] = %r, expected %r' % (name, i, t['signal'].iloc[i], want[i]))
        if not near(t['stock_value'].iloc[i], close[i]):
            return bad('%s: price[%d] = %r, expected %r' % (name, i, t['stock_value'].iloc[i], close[i]))
    if spec['stub']:
        if len(seen) != m:
            return bad('%s: %d signals asked, expected %d' % (name, len(seen), m))
        for k, (a, b) in enumerate(seen):
            if not a[list(spec['data'])].equals(i0.iloc[:k + 1][list(spec['data'])]) or not b.equals(t0[t0.index <= i0.index[k]]):
                return bad('%s: on day %d the signal is not asked on the data up to that day' % (name, k))
    c = list(spec['data'])
    if not ti._ti_data.equals(t0) or not ti._input_data[c].equals(i0[c]):
        return bad('%s: values or input not restored after the simulation' % name)
    return OK


class _Never:
    pass


def sim_arg(kind, v):
    return {'real': v, 'int': None if v is None else int(v), 'nan': float('nan'), 'none': None, 'str': '10', 'list': [10.0], 'true': True,
            'false': False, 'obj': _Never(), 'tuple': (1.0,), 'inf': float('inf')}[kind]


def sim_close(kind, p):
    n = len(p)
    idx = dates(n)
    rev = list(range(n))[::-1]
    mk = lambda v, i, c='close': pd.DataFrame({c: list(v)}, index=i)
    nanp = [np.nan, p[1], np.nan] + list(p[3:])
    if kind == 'ok':
        return mk(p, idx)
    if kind.startswith('gap:'):
        return mk(layout.hidden(kind, p, np.nan)[0], idx)
    if kind.startswith('at:'):
        return mk(p, layout.off_by(kind, idx))
    if kind == 'shuffled':
        od = rev[1:] + rev[:1]
        return mk([p[i] for i in od], idx[od])
    if kind == 'upper':
        return mk(p, idx, 'CLOSE')
    if kind == 'extra':
        d = mk(p, idx)
        d.insert(0, 'Other', [1.0] * n)
        d['text'] = ['x'] * n
        return d
    if kind == 'nan':
        return mk(nanp, idx)
    if kind == 'nan_shuffled':
        return mk([nanp[i] for i in rev], idx[rev])
    if kind == 'short':
        return mk(p[:-1], idx[:-1])
    if kind == 'long':
        return mk(list(p) + [p[0]], dates(n + 1))
    if kind == 'moved':
        return mk(p, dates(n, '2020-01-02'))
    if kind == 'one_date':
        return mk(p, pd.DatetimeIndex(list(idx[:-1]) + [pd.Timestamp('2021-05-05')]))
    if kind == 'no_close':
        return mk(p, idx, 'open')
    if kind == 'text':
        return pd.DataFrame({'close': ['x'] * n}, index=idx)
    if kind == 'empty':
        return pd.DataFrame({'close': []}, index=pd.DatetimeIndex([]))
    if kind == 'series':
        return pd.Series(list(p), index=idx)
    if kind == 'list':
        return list(p)
    if kind == 'none':
        return None
    if kind == 'int_index':
        return pd.DataFrame({'close': list(p)})
    raise KeyError(kind)


def simargs(spec):
    p = spec['prices']
    n = len(p)
    D = frame(dict(close=[50.0 + i for i in range(n)], volume=[1000.0] * n))
    ti = IND.OnBalanceVolume(D)
    asked = []

    def stub(self):
        asked.append(1)
        return SIG['hold']
    ti.__class__ = type('OnBalanceVolume', (IND.OnBalanceVolume,), dict(getTiSignal=stub))
    cap, fac = sim_arg(*spec['cap']), sim_arg(*spec['factor'])
    ctx = 'close_values kind %s, max_exposure=%r, short_exposure_factor=%r' % (spec['close'], cap, fac)
    try:
        t = ti.getTiSimulation(sim_close(spec['close'], p), max_exposure=cap, short_exposure_factor=fac)[0]
    except Exception as e:
        blame(e)
        if spec['want'] == 'ok':
            return bad('%s: refused with %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
        if type(e).__name__ not in spec['want']:
            return bad('%s: %s raised, expected %s' % (ctx, type(e).__name__, spec['want']))
        if asked:
            return bad('%s: refused after %d rounds' % (ctx, len(asked)))
        return OK
    if spec['want'] != 'ok':
        return bad('%s: accepted, expected %s' % (ctx, spec['want']))
    for i, v in enumerate(spec['used']):
        if not near(t['stock_value'].iloc[i], v):
            return bad('%s: price[%d] = %r, expected %r' % (ctx, i, t['stock_value'].iloc[i], v))
    return OK


def fseries(v, idx):
    return pd.Series([num(x) for x in v], index=idx)


def cells_differ(a, b, t=1e-6):
    return not (pd.isna(a) and pd.isna(b) or (not pd.isna(a) and not pd.isna(b) and
                                              (a == b or abs(a - b) <= t + 1e-9 * abs(b))))


def relation(spec):
    from checks import layout
    name = '%s(%s)' % (spec['indicator'], spec['kwargs'])
    cls = getattr(IND, spec['indicator'])
    data = spec['data']
    n = len(next(iter(data.values())))
    idx = calendar(spec.get('cal'), n)
    what = spec['what']
    try:
        a = cls(frame(data, idx), **spec['kwargs'])
        if what == 'prefix':
            b = cls(frame(data, idx).iloc[:spec['m']], **spec['kwargs'])
        else:
            b = cls(layout.frame(data, spec['lay'], idx, fseries), **spec['kwargs'])
        ta, tb = a.getTiData(), b.getTiData()
        sa = sb = None
        if spec.get('signal'):
            sa, sb = a.getTiSignal(), b.getTiSignal()
        if spec.get('sim'):
            cl = [60.0 + (3 * i) % 7 for i in range(n)]
            sa, sb = [x.getTiSimulation(pd.DataFrame({'close': cl}, index=idx), 150.0)[0] for x in (a, b)]
            sa, sb = [(list(x['signal']), list(x['balance'])) for x in (sa, sb)]
    except Exception as e:
        blame(e)
        return bad('%s %s raises %s: %s' % (name, spec.get('lay', ''), type(e).__name__, str(e)[:150]))
    k = spec['m'] if what == 'prefix' else len(ta)
    ctx = '%s, first %s of %d rows' % (name, k, n) if what == 'prefix' else '%s, layout %s' % (name, spec['lay'])
    if list(ta.columns) != list(tb.columns) or list(ta.index[:k]) != list(tb.index):
        return bad('%s: columns or dates differ' % ctx)
    for c in ta.columns:
        for i in range(k):
            if cells_differ(ta[c].iloc[i], tb[c].iloc[i]):
                return bad('%s: %s[%d] = %r and %r' % (ctx, c, i, ta[c].iloc[i], tb[c].iloc[i]))
    if what != 'prefix':
        for d in ('2020-01-01', '2020-01-02', None):
            x, y = a.getTiValue(d), b.getTiValue(d)
            if (x is None) != (y is None) or (x is not None and (len(x) != len(y) or any(cells_differ(u, v) for u, v in zip(x, y)))):
                return bad('%s: look-up %s gives %s and %s' % (ctx, d, x, y))
    if sa != sb:
        return bad('%s: signals %r and %r' % (ctx, sa, sb))
    return OK


def alone(name):
    """the class of another import of the library, which shares nothing with the first one"""
    old = {k: sys.modules.pop(k) for k in list(sys.modules) if k == 'tti' or k.startswith('tti.')}
    try:
        return getattr(importlib.import_module('tti.indicators'), name)
    finally:
        for k in list(sys.modules):
            if k == 'tti' or k.startswith('tti.'):
                del sys.modules[k]
        sys.modules.update(old)


def twin(spec):
    name = '%s(%s)' % (spec['indicator'], spec['kwargs'])
    cls, kw = getattr(IND, spec['indicator']), spec['kwargs']
    n = len(next(iter(spec['data'].values())))
    ia, ib = calendar(spec.get('cal0'), n), calendar(spec.get('cal'), n)

    def snap(t):
        return [list(t[c]) for c in t.columns], list(t.index), list(t.columns)

    def sim(ti, idx):
        t, s, _ = ti.getTiSimulation(pd.DataFrame({'close': [60.0 + (3 * i) % 7 - (i % 4) for i in range(len(idx))]}, index=idx), 150.0)
        plt.close('all')
        return [list(t[c]) for c in t.columns] + [list(s.values())]
    again = spec['mode'] == 'again'
    xa = xb = xa2 = ta2 = sa2 = None
    try:
        a = cls(frame(spec['data'], ia), **kw)
        sa, ta = a.getTiSignal(), snap(a.getTiData())
        if spec.get('sim'):
            xa = sim(a, ia)
        if again:
            data = {c: [num(x) for x in v] for c, v in spec['data'].items()}
            rows, kd = related(spec.get('rel', 'other'), data, kw, spec.get('kw2'), spec['decoy'])
            nd = len(next(iter(rows.values())))
            ic = ib if rows is spec['decoy'] else ia[:nd]
            d = cls(frame(rows, ic), **kd)
            sd, td, xd = d.getTiSignal(), snap(d.getTiData()), sim(d, ic)
            d.getTiValue(), d.getTiValue(str(ib[-1])), d.getTiGraph(), a.getTiGraph()
            plt.close('all')
            a.getTiValue(str(ia[0]))
            xa2, sa2, ta2 = sim(a, ia) if spec.get('sim') else None, a.getTiSignal(), snap(a.getTiData())
            d0 = alone(spec['indicator'])(frame(rows, ic), **kd)
            se, te, xe = d0.getTiSignal(), snap(d0.getTiData()), sim(d0, ic)
            ib = ia
        b = cls(frame(spec['data'], ib), **kw)
        tb, sb = snap(b.getTiData()), b.getTiSignal()
        if spec.get('sim'):
            xb = sim(b, ib)
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    ctx = '%s, the same data %s' % (name, 'again, after other uses' if again else 'on calendars %s and %s' % (spec.get('cal0') or 'days', spec.get('cal')))

    def cols(lab, u, v):
        for c, (x, y) in enumerate(zip(u, v)):
            for i, (p, q) in enumerate(zip(x, y)):
                if p != q if isinstance(p, str) or isinstance(q, str) else cells_differ(p, q):
                    return bad('%s: %s [%d, column %d] = %r and %r' % (ctx, lab, i, c, p, q))
    pos = lambda t, idx: [list(idx).index(x) if x in idx else None for x in t[1]]
    if ta[2] != tb[2] or pos(ta, ia) != pos(tb, ib):
        return bad('%s: columns or dates differ' % ctx)
    r = cols('value', ta[0], tb[0]) or (cols('value', ta[0], ta2[0]) if again else None)
    if r is None and (sa != sb or again and sa2 != sa):
        return bad('%s: signals %r, %r, %r' % (ctx, sa, sa2, sb))
    if r is None and xa is not None:
        r = cols('simulation', xa, xb) or (cols('second simulation', xa, xa2) if again else None)
    if r is None and again:
        ctx = '%s, %s next to the first one' % (name, spec.get('rel', 'other'))
        if td[1:] != te[1:] or sd != se:
            return bad('%s: columns, dates or signal %r and alone %r' % (ctx, sd, se))
        r = cols('value', te[0], td[0]) or cols('simulation', xe, xd)
    return r or OK


def rounding(spec):
    d, name = spec['decimals'], '%s(%s)' % (spec['indicator'], spec['kwargs'])
    try:
        t = getattr(IND, spec['indicator'])(frame(spec['data']), **spec['kwargs']).getTiData()
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    for c in t.columns:
        for i, v in enumerate(t[c].astype(float)):
            # a double this large has no room for that many decimals
            if v == v and abs(v) * 10 ** d < 2 ** 50 and round(v, d) != v:
                return bad('%s: %s on row %d is %r, which is not rounded to %d decimals' % (name, c, i, v, d))
    return OK


def numtype(spec):
    cls, kw, ty, odd = getattr(IND, spec['indicator']), spec['kwargs'], spec['type'], spec['odd']
    f = frame(spec['data'])
    if ty.lower() == 'uint16' and f.to_numpy().max() > 60000:
        ty = {'uint16': 'uint64', 'UInt16': 'UInt64'}[ty]
    if ty == 'int32' and f.to_numpy().max() > 2e9:
        ty = 'int64'
    g = f.astype({c: ty for c in odd})
    name = '%s(%s) with %s of type %s' % (spec['indicator'], kw, ', '.join(odd), ty)
    n = len(f)
    cl = pd.DataFrame({'close': [60 + (3 * i) % 7 - (i % 4) for i in range(n)]}, index=f.index)
    t = 1e-6 if ty != 'float32' else 1e-3
    far = lambda x, y: x != y if isinstance(x, str) else cells_differ(x, y, t + (t if ty == 'float32' else 0) * (abs(y) if y == y else 0))
    try:
        a, b = cls(f, **kw), cls(g, **kw)
        ta, tb = a.getTiData(), b.getTiData()
        sa, sb = (a.getTiSignal(), b.getTiSignal()) if spec.get('signal') else (None, None)
        va, vb = a.getTiValue(), b.getTiValue()
        if spec.get('sim'):
            xa, xb = a.getTiSimulation(cl.astype(float), 150.0), b.getTiSimulation(cl.astype(ty), 150.0)
            plt.close('all')
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    if list(ta.columns) != list(tb.columns) or list(ta.index) != list(tb.index):
        return bad('%s: columns or dates differ' % name)
    for c in ta.columns:
        for i in range(len(ta)):
            if far(ta[c].iloc[i], tb[c].iloc[i]):
                return bad('%s: %s[%d] = %r, with floats %r' % (name, c, i, tb[c].iloc[i], ta[c].iloc[i]))
    if sa != sb:
        return bad('%s: signal %r, with floats %r' % (name, sb, sa))
    if len(va) != len(vb) or any(far(x, y) for x, y in zip(va, vb)):
        return bad('%s: look-up %r, with floats %r' % (name, vb, va))
    if spec.get('sim'):
        for c in xa[0].columns:
            for i in range(n):
                if far(xa[0][c].iloc[i], xb[0][c].iloc[i]):
                    return bad('%s: simulation %s[%d] = %r, with floats %r' % (name, c, i, xb[0][c].iloc[i], xa[0][c].iloc[i]))
        if any(far(xa[1][k], xb[1][k]) for k in xa[1]):
            return bad('%s: statistics %r, with floats %r' % (name, xb[1], xa[1]))
    return OK


def scale(spec):
    name = '%s(%s)' % (spec['indicator'], spec['kwargs'])
    cls = getattr(IND, spec['indicator'])
    k, by, deg = spec['k'], spec['by'], spec['deg']
    a = frame(spec['data'])
    b = a.copy()
    for c in b.columns:
        if (c != 'volume') == (by == 'price'):
            b[c] = b[c] * k
    try:
        x, y = cls(a, **spec['kwargs']), cls(b, **spec['kwargs'])
        ta, tb = x.getTiData(), y.getTiData()
        sx, sy = (x.getTiSignal(), y.getTiSignal()) if spec.get('signal') else (None, None)
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    ctx = '%s, %ss times %r' % (name, by, k)
    if list(ta.columns) != list(tb.columns) or len(ta) != len(tb):
        return bad('%s: columns or dates differ' % ctx)
    f = float(k) ** deg
    t = (6e-5 if spec['indicator'] not in ('AccumulationDistributionLine', 'ChaikinOscillator') else 0.51) * (1 + f) * (1 + len(ta) / 50)
    if spec['indicator'] in ('RelativeStrengthIndex',):
        t = 1.01
    t *= {'TimeSeriesForecast': 4, 'BollingerBands': 4, 'ForecastOscillator': 60 * max(1, 1 / k)}.get(spec['indicator'], 1)
    for c in ta.columns:
        for i in range(len(ta)):
            if cells_differ(ta[c].iloc[i] * f, tb[c].iloc[i], t):
                return bad('%s: %s[%d] = %r and %r, expected factor %r' % (ctx, c, i, ta[c].iloc[i], tb[c].iloc[i], f))
    if sx != sy:
        return bad('%s: signals %r and %r' % (ctx, sx, sy))
    return OK


def ranges(spec):
    from checks.ranges import CELL, ORDER, WITHIN
    nm, kw = spec['indicator'], spec['kwargs']
    name = '%s(%s)' % (nm, kw)
    D = frame(spec['data'])
    try:
        t = getattr(IND, nm)(D, **kw).getTiData()
    except Exception as e:
        blame(e)
        return bad('%s raises %s: %s' % (name, type(e).__name__, str(e)[:150]))
    eps = 6e-5 if nm != 'ProjectionOscillator' else 0.05

    def out(x, lo, hi):
        return x is not None and math.isfinite(x) and (lo is not None and math.isfinite(lo) and x < lo - eps - 1e-9 * abs(lo) or
                                                       hi is not None and math.isfinite(hi) and x > hi + eps + 1e-9 * abs(hi))
    col = lambda c: list(D[c]) if c in D.columns else list(t[c])
    for c in t.columns:
        r = CELL.get((nm, c)) or CELL.get(nm)
        for i, x in enumerate(t[c]):
            if r and out(x, *r):
                return bad('%s: %s[%d] = %r, range %s' % (name, c, i, x, list(r)))
    for lo, hi in ORDER.get(nm, ()):
        for i, (a, b) in enumerate(zip(col(lo), col(hi))):
            if a is not None and out(b, a, None):
                return bad('%s: %s = %r above %s = %r at %d' % (name, lo, a, hi, b, i))
    w = WITHIN.get(nm)
    if w:
        k = w[0](kw)
        for c in t.columns:
            for i, x in enumerate(t[c]):
                a = max(0, i - k + 1) if k else 0
                if out(x, min(D[w[1]].iloc[a:i + 1]), max(D[w[2]].iloc[a:i + 1])):
                    return bad('%s: %s[%d] = %r outside the extremes' % (name, c, i, x))
    return OK


def recorder(cls, rec):
    def _calculateTi(self):
        rec.append(self._input_data)
        return pd.DataFrame(index=self._input_data.index)
    return type(cls.__name__, (cls,), dict(_calculateTi=_calculateTi))


def fill_by_hand(v, fwd=True):
    v, last = list(v), np.nan
    for i in range(len(v)):
        last = v[i] if not pd.isna(v[i]) else last
        v[i] = last
    nxt = np.nan
    for i in range(len(v) - 1, -1, -1):
        nxt = v[i] if not pd.isna(v[i]) else nxt
        v[i] = nxt
    return v


def fill(spec):
    from checks import layout
    from symx.specs import IND as S
    nm, data, od = spec['indicator'], spec['data'], spec['order']
    cols = list(data)
    n = len(data[cols[0]])
    idx = layout.calendar(spec.get('cal'), n)
    df = layout.frame(data, dict(order=od, cols=[[c, c] for c in cols]), idx, fseries)
    rec = []
    ctx = '%s, fill=%s, order %s, input %s' % (nm or 'fillMissingValues', spec['fill'], od, data)
    try:
        if nm:
            kw = dict(S[nm][2])
            if spec['fill'] is not None:
                kw['fill_missing_values'] = spec['fill']
            recorder(getattr(IND, nm), rec)(df, **kw)
        else:
            from tti.utils.data_preprocessing import fillMissingValues
            rec.append(fillMissingValues(df))
    except Exception as e:
        blame(e)
        return bad('%s: raises %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    if len(rec) != 1 or sorted(rec[0].columns) != sorted(cols) or list(rec[0].index) != list(idx):
        return bad('%s: columns or dates differ' % ctx)
    for c in cols:
        v = [num(x) for x in data[c]]
        v = fill_by_hand(v) if spec['fill'] is not False else v
        for i in range(n):
            if cells_differ(rec[0][c].iloc[i], v[i]):
                return bad('%s: %s[%d] = %r, expected %r' % (ctx, c, i, rec[0][c].iloc[i], v[i]))
    return OK


def filledvalues(spec):
    from checks import layout
    nm, data, od, kw = spec['indicator'], spec['data'], spec['order'], spec['kwargs']
    n = len(next(iter(data.values())))
    idx = dates(n)
    cls = getattr(IND, nm)
    ctx = '%s(%s), order %s' % (nm, kw, od)
    try:
        a = cls(layout.frame(data, dict(order=od, cols=[[c, c] for c in data]), idx, fseries), **kw)
        b = cls(pd.DataFrame({c: fill_by_hand([num(x) for x in v]) for c, v in data.items()}, index=idx), fill_missing_values=False, **kw)
        ta, tb = a.getTiData(), b.getTiData()
        sa, sb = a.getTiSignal(), b.getTiSignal()
    except Exception as e:
        blame(e)
        return bad('%s: raises %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    if list(ta.columns) != list(tb.columns) or list(ta.index) != list(tb.index):
        return bad('%s: columns or dates differ' % ctx)
    for c in ta.columns:
        for i in range(len(ta)):
            if cells_differ(ta[c].iloc[i], tb[c].iloc[i]):
                return bad('%s: %s[%d] = %r with gaps, %r filled by hand' % (ctx, c, i, ta[c].iloc[i], tb[c].iloc[i]))
    return OK if sa == sb else bad('%s: signals %r and %r' % (ctx, sa, sb))


def accept(spec):
    from checks import layout
    from symx.specs import IND as S
    nm, rec = spec['indicator'], []
    ch = spec['choice']
    try:
        recorder(getattr(IND, nm), rec)(layout.make_input(spec['cols'], *ch), **S[nm][2])
    except Exception as e:
        blame(e)
        if type(e).__name__ in spec['want'] and not rec:
            return OK
        return bad('%s, input %s: %s: %s, expected %s' % (nm, ch, type(e).__name__, str(e)[:150], spec['want'] or 'success'))
    if spec['want']:
        return bad('%s, input %s: accepted, expected %s' % (nm, ch, spec['want']))
    if sorted(map(str, rec[0].columns)) != sorted(spec['cols']) or len(rec[0]) != ch[2]:
        return bad('%s, input %s: works on columns %s' % (nm, ch, list(rec[0].columns)))
    return OK


def params(spec):
    nm, rec = spec['indicator'], []
    from symx.specs import IND as S
    from checks.layout import par_plain
    kw = {p: par_plain(k, v) for p, k, v in spec['args']}
    D = frame({c: [50.0 + i for i in range(3)] for c in S[nm][0]})
    ctx = '%s(%s)' % (nm, kw)
    try:
        recorder(getattr(IND, nm), rec)(D, **kw)
    except Exception as e:
        blame(e)
        if spec['want'] == 'ok' or type(e).__name__ not in spec['want'] or rec:
            return bad('%s: %s: %s, expected %s' % (ctx, type(e).__name__, str(e)[:150], spec['want']))
        return OK
    return OK if spec['want'] == 'ok' else bad('%s: accepted, expected %s' % (ctx, spec['want']))


def rows(spec):
    from checks import layout
    nm, kw, od = spec['indicator'], spec['kwargs'], spec['order']
    n = len(next(iter(spec['data'].values())))
    idx = dates(n)
    ctx = '%s(%s) on %d rows' % (nm, kw, n)
    try:
        t = getattr(IND, nm)(layout.frame(spec['data'], dict(order=od, cols=[[c, c] for c in spec['data']]), idx, fseries), **kw).getTiData()
    except Exception as e:
        blame(e)
        if not spec['enough'] and type(e).__name__ == 'NotEnoughInputData':
            return OK
        return bad('%s: %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    if not spec['enough']:
        return bad('%s: constructed, expected NotEnoughInputData' % ctx)
    if list(t.columns) != spec['columns']:
        return bad('%s: columns %s, expected %s' % (ctx, list(t.columns), spec['columns']))
    if spec['all'] and list(t.index) != list(idx) or list(t.index) != sorted(set(t.index)) or not set(t.index) <= set(idx):
        return bad('%s: dates %s' % (ctx, [str(x)[:10] for x in t.index][:40]))
    return OK


def lookup(spec):
    from checks import layout
    nm, kw, od = spec['indicator'], spec['kwargs'], spec['order']
    idx = pd.DatetimeIndex(spec['days'])
    ti = getattr(IND, nm)(layout.frame(spec['data'], dict(order=od, cols=[[c, c] for c in spec['data']]), idx, fseries), **kw)
    t0 = ti.getTiData()
    ti._ti_data = t = pd.DataFrame({c: [num(x) for x in v] for c, v in spec['values'].items()}, index=t0.index)
    ask = spec['ask'] if spec['form'] is None else layout.ask_value(spec['ask'], spec['form'])
    ctx = '%s(%s), look-up of %r in %s' % (nm, kw, ask, spec['days'])
    try:
        got = [ti.getTiValue(ask)] + ([ti.getTiValue()] if ask is None else [])
    except Exception as e:
        blame(e)
        return bad('%s: raises %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    if spec['form'] is None:
        row = len(t) - 1 if ask is None else None
    else:
        d = layout.asked(spec['ask'], spec['form'])
        row = list(t.index).index(d) if d in list(t.index) else None
    for x in got:
        if row is None:
            if x is not None:
                return bad('%s: %r, expected nothing' % (ctx, x))
        elif not isinstance(x, list) or len(x) != t.shape[1] or any(cells_differ(u, v) for u, v in zip(x, t.iloc[row])):
            return bad('%s: %r, expected %r' % (ctx, x, list(t.iloc[row])))
    return OK


def _lines(plt):
    out = []
    for i, ax in enumerate(plt.gcf().axes):
        for ln in ax.get_lines():
            out.append((i, ln.get_label(), list(ln.get_xdata(orig=True)), [float(x) for x in ln.get_ydata(orig=True)]))
    return out


def graph(spec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    nm, kw = spec['indicator'], spec['kwargs']
    ctx = '%s(%s) graph' % (nm, kw)
    try:
        ti = build(spec)
        t0 = ti.getTiData()
        ti._ti_data = t = pd.DataFrame({c: [num(x) for x in v] for c, v in spec['values'].items()}, index=t0.index)
        g = ti.getTiGraph()
        lines = _lines(g)
        areas = [c for ax in g.gcf().axes for c in ax.collections]
        g.close('all')
    except Exception as e:
        blame(e)
        plt.close('all')
        return bad('%s: raises %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    inp = ti._input_data
    exp = [(0, c, [num(x) for x in spec['data'][c]] if c in spec['data'] else list(inp[c]), list(inp.index)) for c in spec['inputs']]
    exp += [(1 if spec['sub'] else 0, c, list(t[c]), list(t.index)) for c in t.columns]
    if len(lines) != len(exp):
        return bad('%s: %d lines %s, expected %d' % (ctx, len(lines), [x[1] for x in lines], len(exp)))
    for a, b in zip(lines, exp):
        if a[0] != b[0] or a[1] != b[1]:
            return bad('%s: line %r in plot %d, expected %r in plot %d' % (ctx, a[1], a[0], b[1], b[0]))
        x = [pd.Timestamp(v) for v in a[2]]
        y = dict(zip(x, a[3]))
        if not set(b[3]) <= set(x) or any(not pd.isna(y[d]) for d in x if d not in b[3]) or any(
                cells_differ(y[d], v) for d, v in zip(b[3], b[2])):
            return bad('%s: line %r shows %s, expected %s' % (ctx, a[1], a[3][:12], b[2][:12]))
    if nm == 'IchimokuCloud' and len(areas) != 1:
        return bad('%s: %d shaded areas' % (ctx, len(areas)))
    return OK


def simgraph(spec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    n = len(spec['prices'])
    ti = IND.OnBalanceVolume(frame(dict(close=[50.0 + i for i in range(n)], volume=[1000.0] * n)))
    k = []

    def stub(self):
        k.append(1)
        return SIG[spec['signals'][len(k) - 1]]
    ti.__class__ = type('OnBalanceVolume', (IND.OnBalanceVolume,), dict(getTiSignal=stub))
    ctx = 'simulation graph, prices %s, signals %s' % (spec['prices'], spec['signals'])
    try:
        t, _, g = ti.getTiSimulation(frame(dict(close=spec['prices'])), None, 1.5)
        lines = _lines(g)
        g.close('all')
    except Exception as e:
        blame(e)
        plt.close('all')
        return bad('%s: raises %s: %s' % (ctx, type(e).__name__, str(e)[:150]))
    exp = [(0, 'close_price', 'stock_value'), (1, 'exposure', 'exposure'), (2, 'balance', 'balance')]
    if len(lines) != 3:
        return bad('%s: %d lines' % (ctx, len(lines)))
    for a, b in zip(lines, exp):
        if a[:2] != b[:2] or [float(x) for x in a[2]] != [float(x) for x in range(1, n + 1)] or any(
                not near(u, v) for u, v in zip(a[3], t[b[2]])) or len(a[3]) != n:
            return bad('%s: line %r shows %s, expected %s' % (ctx, a[1], a[3], list(t[b[2]])))
    return OK


def caller(spec):
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from checks import layout
    nm, kw, lay, data = spec['indicator'], spec['kwargs'], spec['lay'], spec['data']
    n = len(next(iter(data.values())))
    idx = dates(n)
    od = lay.get('order') or list(range(n))
    df = layout.frame(data, lay, idx, fseries)
    cf = pd.DataFrame({'Close': [60.0 + (3 * i) % 7 if i != 1 else np.nan for i in od], 'note': ['x'] * n}, index=idx[od])
    snap = lambda d: (d.copy(deep=True), list(d.columns), list(d.index), [str(x) for x in d.dtypes])

    def same(s, d):
        return s[1] == list(d.columns) and s[2] == list(d.index) and s[3] == [str(x) for x in d.dtypes] and all(
            not cells_differ2(u, v) for j in range(d.shape[1]) for u, v in zip(s[0].iloc[:, j], d.iloc[:, j]))
    s0, c0 = snap(df), snap(cf)
    ctx = '%s(%s), layout %s' % (nm, kw, lay)
    stage = 'constructor'
    try:
        ti = getattr(IND, nm)(df, **kw)
        steps = [('constructor', lambda: None), ('getTiData', lambda: ti.getTiData()),
                 ('getTiValue', lambda: (ti.getTiValue(), ti.getTiValue('2020-01-02'))), ('getTiGraph', lambda: ti.getTiGraph()),
                 ('getTiSignal', lambda: ti.getTiSignal()),
                 ('getTiSimulation', lambda: ti.getTiSimulation(cf, 150.0) if spec['sim'] else None)]
        for stage, f in steps:
            f()
            plt.close('all')
            if not same(s0, df):
                return bad('%s: %s changed the input frame (columns %s, before %s)' % (ctx, stage, list(df.columns), s0[1]))
            if not same(c0, cf):
                return bad('%s: %s changed the close prices' % (ctx, stage))
        i0, t0 = snap(ti._input_data), snap(ti._ti_data)
        for j in range(df.shape[1]):
            if str(df.dtypes.iloc[j]).startswith('float'):
                df.iloc[0, j] = 1.0
        df['close'] = 1.0
        df.columns = ['z%d' % j for j in range(df.shape[1])]
        df.drop(columns=[df.columns[0]], inplace=True)
        if not same(i0, ti._input_data) or not same(t0, ti._ti_data):
            return bad('%s: the indicator changes when the caller changes the frame' % ctx)
    except Exception as e:
        blame(e)
        plt.close('all')
        return bad('%s: %s raises %s: %s' % (ctx, stage, type(e).__name__, str(e)[:150]))
    return OK


def cells_differ2(u, v):
    if isinstance(u, float) and isinstance(v, float):
        return not (u == v or (u != u and v != v))
    return not (u is v or u == v or (pd.isna(u) and pd.isna(v)))


KINDS = dict(rounding=rounding, numtype=numtype, twin=twin, fill=fill, filledvalues=filledvalues, accept=accept, params=params, rows=rows, lookup=lookup, graph=graph, simgraph=simgraph,
             caller=caller, ranges=ranges, scale=scale, relation=relation, values=values, signal=signal, ledger=ledger, replaysim=replaysim, simargs=simargs)
