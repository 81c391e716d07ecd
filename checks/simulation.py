"""Trading simulation: ledger, exposure cap, statistics (C01..C03), replay of the indicator (C04), arguments (C22)."""
import itertools
import time

from symx.core import ite, bvar

from . import layout
from .common import *

SIGS = {'buy': ('buy', -1), 'hold': ('hold', 0), 'sell': ('sell', 1)}
COLS = ['signal', 'open_trading_action', 'stock_value', 'exposure', 'portfolio_value', 'earnings', 'balance']


def ledger(p, cap, f, sigs):
    """The documented accounting, position by position.  -> rows, statistics (before rounding)"""
    pos = []                   # (kind, entry price, still open)
    rows, earned, refused = [], core.ZERO, dict(buy=0, sell=0)
    longs = shorts = core.ZERO
    exposure = core.ZERO
    for k, s in enumerate(sigs):
        act = 'none'
        if k:
            nxt = []
            for kind, e, o in pos:
                gain = (e < p[k]) if kind == 'long' else (p[k] < e)
                c = SymBool(band(o, gain.b))
                earned = earned + ite(c, (p[k] - e) if kind == 'long' else (e - p[k]), core.ZERO)
                nxt.append((kind, e, band(o, bnot(gain.b))))
            pos = nxt
            exposure = ssum_([ite(SymBool(o), e if kind == 'long' else f * e, core.ZERO) for kind, e, o in pos])
            if s != 'hold':
                new = p[k] if s == 'buy' else f * p[k]
                if cap is None or not bool(cap < exposure + new):
                    act = 'long' if s == 'buy' else 'short'
                    pos.append((act, p[k], TRUE))
                    exposure = exposure + new
            longs = ssum_([ite(SymBool(o), core.ONE, core.ZERO) for kind, e, o in pos if kind == 'long'])
            shorts = ssum_([ite(SymBool(o), core.ONE, core.ZERO) for kind, e, o in pos if kind == 'short'])
        if act == 'none' and s != 'hold':
            refused[s] += 1
        pv = p[k] * (longs - shorts)
        rows.append([s, act, p[k], exposure, pv, earned, pv + earned])
    n = len(sigs)
    st = dict(number_of_trading_days=n, number_of_buy_signals=sigs.count('buy'),
              number_of_ignored_buy_signals=refused['buy'], number_of_sell_signals=sigs.count('sell'),
              number_of_ignored_sell_signals=refused['sell'], last_open_long_positions=longs, last_open_short_positions=shorts)
    last = rows[-1] if rows else [None, None] + [core.ZERO] * 5
    for key, j in (('last_stock_value', 2), ('last_exposure', 3), ('last_portfolio_value', 4), ('last_earnings', 5),
                   ('final_balance', 6)):
        st[key] = last[j]
    return rows, st


ROUNDED = ('last_stock_value', 'last_exposure', 'last_portfolio_value', 'last_earnings', 'final_balance')


def ssum_(xs):
    return core.ssum(xs) if xs else core.ZERO


def eq_claim(label, a, r, spec, t=1e-6):
    a, r = lift(a), lift(r)
    d = psub(a.p, r.p)
    tt = pconst(F(t).limit_denominator(10 ** 12))
    far = bor(rel('<', padd(tt, d)), rel('<', psub(tt, d)))
    return Claim(label, band(a.fin, rel('==', d)), spec, bor(bnot(a.fin), far))


def same_text(a, b):
    return isinstance(a, str) and a == b


def run(ob):
    """one signal history (its first signals given, the rest forked), symbolic prices, cap and factor"""
    T = tti()
    n, head, cap_kind, what, rounds = ob['n'], ob['head'], ob['cap'], ob['what'], ob.get('rounds')
    rounds = n if rounds is None else rounds
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    cal, pre = ob.get('cal'), ob.get('pre', 0)
    idx = calendar(cal, n)
    past = walk(n, rng('sim', ob.get('seed', 0)), ob.get('style', 4))['close'] if pre else []

    def fn():
        if ob.get('decoy'):
            decoy(T.sim.TradingSimulation)
        p = [lift(past[i]) if i < pre else core.var('p%d' % i, ob.get('sign', '+')) for i in range(n)]
        f = core.ONE + core.var('g', '0+') if ob.get('factor') is None else lift(F(ob['factor']))
        cap = None if cap_kind == 'none' else core.var('cap', '+') if cap_kind == 'sym' else lift(F(cap_kind))
        sigs = list(head)
        while len(sigs) < rounds:
            i = len(sigs)
            sigs.append('buy' if bool(SymBool(bvar('b%d' % i))) else 'sell' if bool(SymBool(bvar('s%d' % i))) else 'hold')
        df = pd.DataFrame({'close': pd.Series(p, index=idx, dtype=object)}, index=idx)
        res = err = None
        try:
            sim = T.sim.TradingSimulation(idx, df, cap, f)
            for i, s in enumerate(sigs):
                sim.runSimulationRound(i_index=i, signal=SIGS[s])
            res = sim.closeSimulation()
        except core.SymError:
            raise
        except Exception as e:
            err = e
        rows, st = ledger(p, cap, f, sigs)
        return p, f, cap, sigs, res, err, rows, st

    for p, f, cap, sigs, res, err, rows, st in ctx.explore(fn):
        out.paths += 1

        def spec(vals, bools, p=p, f=f, cap=cap, sigs=sigs):
            e = core.Env(vals, bools)
            pv = [fl(e, x) for x in p]
            fv, cv = fl(e, f), None if cap is None else fl(e, cap)
            r, s = ledger([lift(F(x)) for x in pv], None if cv is None else lift(F(cv)), lift(F(fv)), sigs)
            num = lambda x: x if isinstance(x, (str, int)) else float(lift(x).p.const())
            return dict(kind='ledger', prices=pv, cap=cv, factor=fv, signals=sigs, n=n, what=what,
                        rows=[[num(x) for x in q] for q in r], stats={k: num(v) for k, v in s.items()}, cal=cal, decoy=ob.get('decoy'))
        claims = []
        if err is not None:
            claims.append(Claim('%s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec))
        else:
            claims += table_claims(what, res, rows, st, sigs, cap, spec, idx, rounds)
        lim = ([] if f.is_const() else [(f <= 4).b]) + ([] if cap is None or cap.is_const() else [(cap >= 1).b, (cap <= 10000).b])
        bounds = Bounds([b for x in p if not x.is_const() for b in ((x >= 1).b, (x <= 1000).b)] + lim)
        bounds.wide = Bounds([b for x in p if not x.is_const() for b in ((x >= 0).b, (x <= 1000).b)] + lim)
        decide(out, ctx, claims, extra=bounds, qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if out.paths % 16 == 1:
            v, m = ctx.query(ctx.assume + ctx.pc + bounds, timeout=1000)
            if v == 'sat':
                vb = ctx.model_vals(m)
                if stable(ctx.pc, *vb) and run_real(out, spec(*vb), 'witness of path %d' % out.paths):
                    break
    return out.result()


def decoy(cls):
    """another simulation, with other data, run before: nothing of it may show"""
    idx = calendar_(4)
    sim = cls(idx, pd.DataFrame({'close': pd.Series([lift(F(x)) for x in (7, 5, 6, 4)], index=idx, dtype=object)}, index=idx), None, lift(F(2)))
    for i, s in enumerate(('buy', 'sell', 'buy')):
        sim.runSimulationRound(i_index=i, signal=SIGS[s])
    return sim


def calendar_(n):
    return calendar('gaps', n)


def table_claims(what, res, rows, st, sigs, cap, spec, idx, rounds):
    table, stats = res
    cl = []
    if what in ('ledger', 'all'):
        cl.append(Claim('columns, dates', TRUE if list(table.columns) == COLS and list(table.index) == list(idx) else FALSE, spec))
        if cl[-1].f is FALSE:
            return cl
        for i, r in enumerate(rows):
            for j, c in enumerate(COLS):
                v = table[c]._values[i]
                if j < 2:
                    cl.append(Claim('%s[%d] = %r' % (c, i, v), TRUE if same_text(v, r[j]) else FALSE, spec))
                else:
                    cl.append(eq_claim('%s[%d]' % (c, i), v, r[j], spec))
    if what in ('cap', 'all'):
        for i, r in enumerate(rows):
            v = table['open_trading_action']._values[i]
            cl.append(Claim('day %d action %r' % (i, v), TRUE if same_text(v, r[1]) else FALSE, spec))
            if cap is not None:
                e = lift(table['exposure']._values[i])
                cl.append(Claim('exposure[%d] within the cap' % i, (e <= cap).b, spec, (e > cap + lift(F(1, 10 ** 6))).b))
    if what in ('stats', 'all'):
        cl.append(Claim('keys %s' % sorted(stats), TRUE if set(stats) == set(st) else FALSE, spec))
        if cl[-1].f is FALSE:
            return cl
        for k, v in st.items():
            a = stats[k]
            if k in ROUNDED:
                # both the reported value and, independently, the last row of the table
                ref = lift(v)
                cl.append(eq_claim(k, a, ref.__round__(2), spec, 0.006))
            else:
                cl.append(eq_claim(k, a, v, spec, 0.01))
    return cl


# ------------------------------------------------------------------ C04: replay of the indicator
def run_replay(ob):
    """getTiSimulation of a real indicator: which data its signal is asked on, prices, rows, state afterwards"""
    T = tti()
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    mode = ob['mode']
    cls = getattr(T.ind, name)
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    from .values import cols_of
    order, cal = ob.get('order'), ob.get('cal')

    def fn():
        D = Data(cols_of(name), n, **opt)
        ti = cls(D.frame(index=calendar(cal, n)), **kw)
        close = [lift(F(40 * 4 + (i * 7) % 23 - i % 5, 4)) if i < n - 2 and ob.get('fixed') else core.var('q%d' % i, '+') for i in range(n)]
        od = order or list(range(n))
        idx = calendar(cal, n)
        cf = pd.DataFrame({'close': pd.Series([close[i] for i in od], index=idx[od], dtype=object)}, index=idx[od])
        t0, i0 = ti._ti_data, ti._input_data
        icols = list(i0.columns)
        snap = snapshot_(t0), snapshot_(i0)
        calls, sigs = [], []
        m = len(t0)
        if mode == 'stub':
            def stub(self):
                i = len(calls)
                calls.append((list(self._input_data.index), [list(self._input_data[c]._values) for c in icols if c in self._input_data.columns],
                              list(self._ti_data.index), [list(self._ti_data[c]._values) for c in t0.columns]))
                s = ('buy', 'hold', 'sell')[(i * i + i // 3) % 3] if ob.get('fixed') else 'buy' if bool(SymBool(bvar('b%d' % i))) else 'sell' if bool(SymBool(bvar('s%d' % i))) else 'hold'
                sigs.append(s)
                return SIGS[s]
            sub = type(name, (cls,), dict(getTiSignal=stub))
            ti.__class__ = sub
        err = res = None
        try:
            res = ti.getTiSimulation(cf, None, 1.5)
        except core.SymError:
            raise
        except Exception as e:
            err = e
        after = snapshot_(ti._ti_data), snapshot_(ti._input_data)
        exp = None
        if mode != 'stub' and err is None:
            # an independent instance, cut off by hand
            t2 = cls(D.frame(index=calendar(cal, n)), **kw)
            ft, fi = t2._ti_data, t2._input_data
            exp = []
            for i in range(m):
                t2._input_data, t2._ti_data = fi.iloc[:i + 1], ft[ft.index <= fi.index[i]]
                exp.append(t2.getTiSignal()[0])
        return D, close, ti, res, err, calls, sigs, snap, after, m, exp, icols, t0, i0

    for D, close, ti, res, err, calls, sigs, snap, after, m, exp, icols, t0, i0 in ctx.explore(fn):
        out.paths += 1

        def spec(vals, bools):
            e = core.Env(vals, bools)
            return dict(kind='replaysim', indicator=name, kwargs=kw, data=D.concrete(vals, bools), close=[fl(e, x) for x in close],
                        order=order, stub=sigs if mode == 'stub' else None, cal=cal)
        cl = []
        if err is not None:
            cl.append(Claim('getTiSimulation raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec))
        else:
            table = res[0]
            idx = list(calendar(cal, n))
            if not (list(table.index) == idx and list(table.columns) == COLS):
                cl.append(Claim('table rows/columns', FALSE, spec))
            else:
                sg = list(table['signal']._values[:m])
                want = sigs if mode == 'stub' else exp
                for i in range(m):
                    cl.append(Claim('signal[%d] = %r' % (i, sg[i]), TRUE if i < len(want) and same_text(sg[i], want[i]) else FALSE, spec))
                    cl.append(eq_claim('price[%d]' % i, table['stock_value']._values[i], close[i], spec))
            if mode == 'stub':
                cl.append(Claim('%d signals asked' % len(calls), TRUE if len(calls) == m else FALSE, spec))
                for i, (ii, iv, tidx, tv) in enumerate(calls):
                    w = [x for x in list(t0.index) if x <= idx[i]]
                    ok = ii == idx[:i + 1] and tidx == w and len(iv) == len(icols) and \
                        all(all(a is b for a, b in zip(x, y)) for x, y in zip(iv, snap[1][0])) and \
                        all(all(a is b for a, b in zip(x, y)) for x, y in zip(tv, snap[0][0]))
                    cl.append(Claim('day %d sees the data up to that day' % i, TRUE if ok else FALSE, spec))
        from .signals import same
        cl.append(Claim('values and input restored', TRUE if same(snap[0], after[0]) and same(snap[1], after[1]) else FALSE, spec))
        decide(out, ctx, cl, extra=D.bounds() + [b for x in close for b in ((x >= 1).b, (x <= 1000).b)], qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if out.paths in (1, 7, 30):
            v, mm = ctx.query(ctx.assume + ctx.pc + D.bounds(), timeout=1000)
            if v == 'sat':
                vb = ctx.model_vals(mm)
                if stable(ctx.pc, *vb) and run_real(out, spec(*vb), 'witness of path %d' % out.paths):
                    break
    return out.result()


def snapshot_(df):
    return [list(df[c]._values) for c in df.columns], list(df.index), list(df.columns)


def fallback(ob):
    """witness inputs for code that cannot be encoded"""
    import random
    if ob['fn'] != 'checks.simulation:run' or ob.get('rounds') is not None:
        return
    r = random.Random(str(ob['id']))
    for scale, digits in ((97.0, 5), (163841.0, 6), (3.0, 3)):
        n = ob['n'] + 3
        pv = [round(scale * (0.7 + r.random()), digits) for _ in range(n)]
        pv[2] = pv[1] if n > 2 else pv[-1]
        sigs = (list(ob['head']) + [r.choice(('buy', 'sell', 'hold', 'buy', 'sell')) for _ in range(n)])[:n]
        cv, fv = None if ob['cap'] == 'none' else round(scale * 2.7, 3), 1.375
        rows, st = ledger([lift(F(x)) for x in pv], None if cv is None else lift(F(cv)), lift(F(fv)), sigs)
        num = lambda x: x if isinstance(x, (str, int)) else float(lift(x).p.const())
        yield dict(kind='ledger', prices=pv, cap=cv, factor=fv, signals=sigs, n=n, what=ob['what'], rows=[[num(x) for x in q] for q in rows],
                   stats={k: num(v) for k, v in st.items()}, cal=ob.get('cal'), decoy=ob.get('decoy'))


# ------------------------------------------------------------------ C22: arguments
class _Never:
    pass


def arg_value(kind, name):
    """(value, the formula that it is acceptable)"""
    return {
        'real': lambda: core.var(name),
        'int': lambda: core.var(name, integer=True),
        'nan': lambda: float('nan'),
        'none': lambda: None,
        'str': lambda: '10',
        'list': lambda: [10.0],
        'true': lambda: True,
        'false': lambda: False,
        'obj': lambda: _Never(),
        'tuple': lambda: (1.0,),
        'inf': lambda: float('inf'),
    }[kind]()


def close_frame(kind, n, p, idx):
    """-> (argument, accepted, the closes the simulation must use)"""
    ser = lambda v, i: pd.Series(list(v), index=i, dtype=object)
    mk = lambda v, i, c='close': pd.DataFrame({c: ser(v, i)}, index=i)
    rev = list(range(n))[::-1]
    if kind == 'ok':
        return mk(p, idx), True, p
    if kind.startswith('gap:'):
        a, b = layout.hidden(kind, p, NAN)
        return mk(a, idx), True, b
    if kind.startswith('at:'):
        return mk(p, layout.off_by(kind, idx)), False, None
    if kind == 'shuffled':
        od = rev[1:] + rev[:1]
        return mk([p[i] for i in od], idx[od]), True, p
    if kind == 'upper':
        return mk(p, idx, 'CLOSE'), True, p
    if kind == 'extra':
        d = mk(p, idx)
        d.insert(0, 'Other', [1.0] * n)
        d['text'] = ['x'] * n
        return d, True, p
    if kind == 'nan':       # a gap, and a missing first price
        q = list(p)
        q[0], q[2] = NAN, NAN
        return mk(q, idx), True, [p[1], p[1], p[1]] + p[3:]
    if kind == 'nan_shuffled':
        q = list(p)
        q[0], q[2] = NAN, NAN
        return mk([q[i] for i in rev], idx[rev]), True, [p[1], p[1], p[1]] + p[3:]
    if kind == 'short':
        return mk(p[:-1], idx[:-1]), False, None
    if kind == 'long':
        i2 = dates(n + 1)
        return mk(p + [p[0]], i2), False, None
    if kind == 'moved':
        return mk(p, dates(n, '2020-01-02')), False, None
    if kind == 'one_date':
        return mk(p, pd.DatetimeIndex(list(idx[:-1]) + [pd.Timestamp('2021-05-05')])), False, None
    if kind == 'no_close':
        return mk(p, idx, 'open'), False, None
    if kind == 'text':
        return pd.DataFrame({'close': ['x'] * n}, index=idx), False, None
    if kind == 'empty':
        return pd.DataFrame({'close': []}, index=pd.DatetimeIndex([])), False, None
    if kind == 'series':
        return ser(p, idx), False, None
    if kind == 'list':
        return list(p), False, None
    if kind == 'none':
        return None, False, None
    if kind == 'int_index':
        return pd.DataFrame({'close': ser(p, range(n))}), False, None
    raise KeyError(kind)


def run_args(ob):
    T = tti()
    n = ob.get('n', 4)
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    idx = dates(n)
    E = T.exc

    def fn():
        p = [core.var('p%d' % i, '+') for i in range(n)]
        cf, okf, used = close_frame(ob['close'], n, p, idx)
        cap, fac = arg_value(ob['cap'], 'cap'), arg_value(ob['factor'], 'fac')
        D = Data(('close', 'volume'), n, conc=n)
        ti = T.ind.OnBalanceVolume(D.frame())
        asked = []

        def stub(self):
            asked.append(1)
            return SIGS['hold']
        ti.__class__ = type('OnBalanceVolume', (T.ind.OnBalanceVolume,), dict(getTiSignal=stub))
        err = res = None
        try:
            res = ti.getTiSimulation(cf, max_exposure=cap, short_exposure_factor=fac)
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return p, cap, fac, okf, used, err, res, len(asked)

    for p, cap, fac, okf, used, err, res, asked in ctx.explore(fn):
        out.paths += 1
        num = ('real', 'int', 'nan', 'true', 'false', 'inf')
        okc = TRUE if ob['cap'] == 'none' else ((lift(cap) > 0).b if ob['cap'] in num else None)
        okx = (lift(fac) >= 1).b if ob['factor'] in num else None

        def spec(vals, bools):
            e = core.Env(vals, bools)
            v = lambda x: fl(e, x) if isinstance(x, Sym) else x
            c, x = v(cap) if ob['cap'] in ('real', 'int') else None, v(fac) if ob['factor'] in ('real', 'int') else None
            oc = ob['cap'] == 'none' or (ob['cap'] in num and float(c if c is not None else cap) > 0)
            ox = ob['factor'] in num and float(x if x is not None else fac) >= 1
            want = 'ok' if okf and oc and ox else errs(okf, oc, ox, ob, num)
            return dict(kind='simargs', close=ob['close'], cap=[ob['cap'], c], factor=[ob['factor'], x], want=want,
                        prices=[fl(e, q) for q in p], used=None if used is None else [fl(e, q) for q in used])
        cl = []
        ok = band(TRUE if okf else FALSE, okc if okc is not None else FALSE, okx if okx is not None else FALSE)
        if err is None:
            cl.append(Claim('accepted', ok, spec))
            if okf:
                t = res[0]
                for i in range(n):
                    cl.append(eq_claim('price[%d]' % i, t['stock_value']._values[i], used[i], spec))
        else:
            cl.append(Claim('refused (%s)' % type(err).__name__, bnot(ok), spec))
            cl.append(Claim('refused before any round', TRUE if asked == 0 else FALSE, spec))
            # the documented kind of error for (one of) the wrong argument(s)
            kinds = {E.NotValidInputDataForSimulation: TRUE if not okf else FALSE,
                     E.WrongTypeForInputParameter: TRUE if okc is None or okx is None else FALSE,
                     E.WrongValueForInputParameter: bor(bnot(okc) if okc is not None else FALSE, bnot(okx) if okx is not None else FALSE)}
            cl.append(Claim('error %s' % type(err).__name__, kinds.get(type(err), FALSE), spec))
        decide(out, ctx, cl, qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        v, m = ctx.query(ctx.assume + ctx.pc, timeout=1000)
        if v == 'sat':
            vb = ctx.model_vals(m)
            if stable(ctx.pc, *vb) and run_real(out, spec(*vb), 'witness of path %d' % out.paths):
                break
    return out.result()


def errs(okf, oc, ox, ob, num):
    r = []
    if not okf:
        r.append('NotValidInputDataForSimulation')
    for o, k in ((oc, ob['cap']), (ox, ob['factor'])):
        if not o:
            r.append('WrongValueForInputParameter' if k in num else 'WrongTypeForInputParameter')
    return r
