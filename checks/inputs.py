"""Input frames, parameters, row counts, look-ups, graphs and the caller's frames (C06..C09, C20, C21, C23)."""
import time

from . import layout
from .common import *
from .layout import ask_value, make_input
from symx.core import ite

from .params import GREATER, KINDS, PARAMS
from .relation import eqv, series
from .values import cols_of

OKFILL = (True, False, None)


def fresh_class(cls, rec):
    """the class with its calculation replaced by a recorder of the input it would work on"""
    def _calculateTi(self):
        rec.append(self._input_data)
        return pd.DataFrame(index=self._input_data.index)
    return type(cls.__name__, (cls,), dict(_calculateTi=_calculateTi))


def explore(ob, fn, judge, out=None, wit=3):
    """run fn on every path; judge(result) -> claims, spec(vals, bools), bounds"""
    out = out or Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    k = 0
    for r in ctx.explore(lambda: fn(ctx)):
        out.paths += 1
        claims, spec, bounds = judge(r)
        decide(out, ctx, claims, extra=bounds, qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if k < wit or out.paths % ob.get('every', 40) == 0:
            k += 1
            v, m = ctx.query(ctx.assume + ctx.pc + bounds, timeout=800)
            if v == 'sat':
                vb = ctx.model_vals(m)
                if stable(ctx.pc, *vb):
                    s = spec(*vb)
                    if s is not None and run_real(out, s, 'witness of path %d' % out.paths):
                        break
    return out.result()


# ------------------------------------------------------------------ C06: missing values
def filled(vals):
    """forward, then backward"""
    out, last = [], NAN
    for v in vals:
        v = lift(v)
        last = ite(SymBool(v.nan), last, v)
        out.append(last)
    nxt = NAN
    for i in range(len(out) - 1, -1, -1):
        nxt = ite(SymBool(lift(out[i]).nan), nxt, out[i])
        out[i] = nxt
    return out


def gap_cell(name, gap=True, inf=False):
    """any number, or missing, or (inf) without bound"""
    x = core.var(name)
    if not gap:
        return x
    miss = core.bvar(name + '?')
    if not inf:
        return Sym(x.p, miss)
    up, down = core.bvar(name + '^'), core.bvar(name + 'v')
    return Sym(x.p, miss, band(bnot(miss), up), band(bnot(miss), bnot(up), down))


def choose_order(perm, n):
    """one row order per path"""
    from .relation import anyorder
    if perm == 'any':
        return anyorder(dict(order='any'), n)['order']
    fam = layout.family(n)
    for i, x in enumerate(fam[:-1]):
        if bool(SymBool(core.bvar('order%d' % i))):
            return x
    return fam[-1]


def run_fill(ob):
    """every pattern of missing cells; what the calculation is given"""
    name, n, fill = ob['ind'], ob['n'], ob['fill']
    T = tti()
    idx = layout.calendar(ob.get('cal'), n)

    def fn(ctx):
        cols = list(cols_of(name)) if name else ['close', 'a', 'b']
        od = choose_order(ob['perm'], n) if 'perm' in ob else ob['order']
        D = {c: [gap_cell('%s%d' % (c, i), ob.get('gap', True), ob.get('inf')) for i in range(n)] for c in cols}
        if 'gone' in ob:         # a long gap: every row but each column's first, last or none of the outside
            a, b = ob['gone']
            D = {c: [NAN if a + j <= i < b else core.var('%s%d' % (c, i)) for i in range(n)] for j, c in enumerate(cols)}
        df = layout.frame(D, dict(order=od, cols=[[c, c] for c in cols]), idx, series)
        rec, err = [], None
        try:
            if name:
                kw = dict(specs.IND[name][2])
                if fill is not None:
                    kw['fill_missing_values'] = fill
                fresh_class(getattr(T.ind, name), rec)(df, **kw)
            else:
                rec.append(T.load('tti.utils.data_preprocessing').fillMissingValues(df))
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return D, cols, rec, err, od

    def judge(r):
        D, cols, rec, err, od = r

        def spec(vals, bools):
            e = core.Env(vals, bools)
            return dict(kind='fill', indicator=name, fill=fill, order=od, cal=ob.get('cal'), data={c: [fl(e, x) for x in D[c]] for c in cols})
        if err is not None or len(rec) != 1:
            return [Claim('raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec)], spec, []
        t = rec[0]
        if sorted(map(str, t.columns)) != sorted(cols) or list(t.index) != list(idx):
            return [Claim('columns %s, dates' % list(t.columns), FALSE, spec)], spec, []
        cl = []
        for c in cols:
            exp = filled(D[c]) if fill is not False else D[c]
            cl += [eqv('%s[%d]' % (c, i), a, b, spec) for i, (a, b) in enumerate(zip(t[c]._values, exp))]
        return cl, spec, [b for c in cols for x in D[c] for b in ((Sym(x.p) >= -500).b, (Sym(x.p) <= 500).b)]
    return explore(ob, fn, judge)


def run_filled_values(ob):
    """values and signal on input with gaps equal those on the input filled by hand"""
    name, kw, n, holes, od = ob['ind'], ob['kwargs'], ob['n'], ob['holes'], ob['order']
    T = tti()
    cls = getattr(T.ind, name)
    idx = dates(n)

    def fn(ctx):
        D = Data(cols_of(name), n, **ob.get('opt', {}))
        gap = {c: [NAN if [c, i] in holes else x for i, x in enumerate(v)] for c, v in D.d.items()}
        hand = {c: filled(v) for c, v in gap.items()}
        lay = dict(order=od, cols=[[c, c] for c in D.cols])
        try:
            a = cls(layout.frame(gap, lay, idx, series), **kw)
            b = cls(pd.DataFrame({c: series(hand[c], idx) for c in D.cols}, index=idx), **dict(kw, fill_missing_values=False))
            return D, gap, a.getTiData(), b.getTiData(), (a.getTiSignal(), b.getTiSignal()), None
        except core.SymError:
            raise
        except Exception as e:
            return D, gap, None, None, None, e

    def judge(r):
        from .relation import tables
        D, gap, ta, tb, sig, err = r

        def spec(vals, bools):
            e = core.Env(vals, bools)
            return dict(kind='filledvalues', indicator=name, kwargs=kw, order=od, data={c: [fl(e, x) for x in v] for c, v in gap.items()})
        if err is not None:
            return [Claim('raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec)], spec, []
        cl = tables(ta, tb, spec=spec)
        cl.append(Claim('signals %r and %r' % sig, TRUE if sig[0] == sig[1] else FALSE, spec))
        return cl, spec, D.bounds()
    return explore(ob, fn, judge)


# ------------------------------------------------------------------ C07: which frames are accepted
BOX = ('frame', 'none', 'list', 'dict', 'series', 'array', 'text', 'class')
INDEX = ('asc', 'desc', 'tz', 'range', 'text', 'period', 'objects', 'timedelta', 'daytext', 'multi')
ROWS = (3, 1, 0)
STATE = ('float', 'int', 'float32', 'flags', 'gaps', 'mixed', 'absent', 'text', 'objects', 'dates', 'category',
         'levels', 'decimals', 'fractions', 'whole objects', 'figures', 'strings', 'spans', 'nullable', 'nullable gaps', 'nullable float', 'unsigned')
USABLE = ('float', 'int', 'float32', 'flags', 'gaps', 'mixed', 'nullable', 'nullable gaps', 'nullable float', 'unsigned')
EXTRAS = ('none', 'text', 'many')


def wanted(cols, box, index, rows, state, bad, extras):
    """-> [] (acceptable) or the names of the documented errors that apply"""
    if box != 'frame':
        return ['WrongTypeForInputParameter']
    w = []
    if index not in ('asc', 'desc', 'tz'):
        w.append('TypeError')
    ncols = len(cols) - (state == 'absent') + {'none': 0, 'text': 1, 'many': 4}[extras]
    if rows == 0 or ncols == 0:
        w.append('ValueError')
    if state not in USABLE:
        w.append('ValueError')
    return w


def run_accept(ob):
    name = ob['ind']
    T = tti()
    cols = list(cols_of(name))

    def choose(tag, items):
        for i, x in enumerate(items[:-1]):
            if bool(SymBool(core.bvar('%s=%s' % (tag, x)))):
                return x
        return items[-1]

    def fn(ctx):
        box = choose('box', BOX)
        if box not in ('frame', 'series'):
            ch = (box, 'asc', 3, 'float', cols[0], 'none')
        else:
            index = choose('index', INDEX)
            rows = choose('rows', ROWS)
            state = choose('state', STATE if box == 'frame' else STATE[:1])
            bad = choose('column', cols) if state != 'float' and index in ('asc', 'desc') else cols[-1]
            extras = choose('extras', EXTRAS) if box == 'frame' and index in ('asc', 'desc', 'range') else 'none'
            ch = (box, index, rows, state, bad, extras)
        rec = []
        err = None
        try:
            fresh_class(getattr(T.ind, name), rec)(make_input(cols, *ch), **specs.IND[name][2])
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return ch, rec, err

    def judge(r):
        ch, rec, err = r
        want = wanted(cols, *ch)

        def spec(vals, bools):
            return dict(kind='accept', indicator=name, cols=cols, choice=list(ch), want=want)
        if err is None:
            good = not want and len(rec) == 1 and sorted(map(str, rec[0].columns)) == sorted(cols) and len(rec[0]) == ch[2]
            cl = [Claim('%s accepted' % (ch,), TRUE if good else FALSE, spec)]
        else:
            cl = [Claim('%s: %s: %s' % (ch, type(err).__name__, str(err)[:80]),
                        TRUE if type(err).__name__ in want and not rec else FALSE, spec)]
        return cl, spec, []
    return explore(ob, fn, judge)


# ------------------------------------------------------------------ C08: parameters


def par_value(kind, nm):
    return {'int': lambda: core.var(nm, integer=True), 'real': lambda: core.var(nm), 'true': lambda: True, 'false': lambda: False,
            'none': lambda: None, 'str': lambda: '3', 'list': lambda: [3], 'nan': lambda: float('nan'), 'npint': lambda: np.int64(3),
            'complex': lambda: 3j, 'inf': lambda: float('inf')}[kind]()


ISINT, ISNUM = ('int', 'true', 'false'), ('int', 'real', 'true', 'false', 'nan', 'inf')


def par_ok(kind, rule, lo, v):
    """-> formula that the value is acceptable, or None when it has the wrong type"""
    if rule in ('int', 'slow'):
        if kind not in ISINT:
            return None
        v = lift(int(v)) if isinstance(v, bool) else v
        return (v >= lo).b if rule == 'int' else bor((v == 1).b, (v == 3).b)
    if kind == 'nan':
        return FALSE
    if rule == 'frac' and kind == 'inf':
        return FALSE
    if rule == 'pos':
        if kind not in ISNUM:
            return None
        return (lift(v) > 0).b if kind != 'inf' else TRUE
    if rule == 'frac':
        if kind != 'real':
            return None
        return band((v > 0).b, (v < 1).b)
    raise KeyError(rule)


def run_params(ob):
    name, kinds = ob['ind'], ob['kinds']          # parameter -> kind, or ['=', value]
    T = tti()
    ps = PARAMS[name]

    def fn(ctx):
        D = Data(cols_of(name), 3, conc=3)
        vals, kw = {}, {}
        for p, rule, lo in ps:
            k = kinds.get(p, 'int' if rule in ('int', 'slow') else 'real' if rule in ('pos', 'frac', 'target') else ['=', lo[0]])
            vals[p] = (k if isinstance(k, str) else '=', k[1] if not isinstance(k, str) else par_value(k, p))
            if k != 'default':
                kw[p] = vals[p][1]
        if 'fill_missing_values' in kinds:
            k = kinds['fill_missing_values']
            kw['fill_missing_values'] = k[1] if not isinstance(k, str) else par_value(k, 'fill_missing_values')
        rec, err = [], None
        try:
            fresh_class(getattr(T.ind, name), rec)(D.frame(), **kw)
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return vals, kw, rec, err

    def rules(vals):
        """-> list of formula | None per requirement"""
        out = []
        for p, rule, lo in ps:
            k, v = vals[p]
            if rule == 'choice':
                out.append(None if not isinstance(v, str) else TRUE if v in lo else FALSE)
            elif rule == 'target':
                mode = vals['mode'][1]
                if k not in ISNUM:
                    out.append(None)
                elif k == 'nan' or not isinstance(mode, str):
                    out.append(FALSE)
                elif k == 'inf':
                    out.append(TRUE if mode == 'LONG' else FALSE)
                else:
                    v = lift(int(v)) if isinstance(v, bool) else v
                    out.append((v >= 0).b if mode == 'LONG' else (v <= 0).b if mode == 'SHORT' else FALSE)
            else:
                out.append(par_ok(k, rule, lo, v))
                if name == 'MovingAverage' and vals['ma_type'][1] == 'time_series' and out[-1] is not None:
                    out.append(par_ok(k, rule, 2, v))
        if name in GREATER:
            a, b = (vals[p] for p in GREATER[name])
            if a[0] in ISINT and b[0] in ISINT:
                x, y = (lift(int(v)) if isinstance(v, bool) else v for v in (a[1], b[1]))
                out.append((x > y).b)
        if 'fill_missing_values' in kinds:
            k = kinds['fill_missing_values']
            out.append(TRUE if k in ('true', 'false') else None)
        return out

    def judge(r):
        vals, kw, rec, err = r
        rs = rules(vals)
        ok = band(*[x if x is not None else FALSE for x in rs])

        def spec(v, b):
            e = core.Env(v, b)
            conc = {p: (k, x if not isinstance(x, Sym) else fl(e, x)) for p, (k, x) in vals.items()}
            o = [None if x is None else e.b(x) for x in rs]
            args = []
            for p, x in kw.items():
                k = vals[p][0] if p in vals else kinds[p] if isinstance(kinds[p], str) else '='
                c = conc[p][1] if p in conc else fl(e, x) if isinstance(x, Sym) else x
                args.append([p, k, c if k in ('int', 'real', '=') else None])
            want = 'ok' if all(o) else sorted({'WrongTypeForInputParameter' if x is None else 'WrongValueForInputParameter' for x in o if not x})
            return dict(kind='params', indicator=name, args=args, want=want)
        if err is None:
            return [Claim('accepted', ok if len(rec) == 1 else FALSE, spec)], spec, []
        E = type(err).__name__
        kind = {'WrongTypeForInputParameter': TRUE if None in rs else FALSE,
                'WrongValueForInputParameter': bor(*[bnot(x) for x in rs if x is not None])}.get(E, FALSE)
        return [Claim('refused: %s' % E, bnot(ok), spec), Claim('kind of error: %s: %s' % (E, str(err)[:60]), kind, spec),
                Claim('refused before the calculation', TRUE if not rec else FALSE, spec)], spec, []
    return explore(ob, fn, judge, wit=5)


# ------------------------------------------------------------------ C09: rows
def need(name, kw):
    from .rows import MINROWS, NOMIN
    mx = lambda *a: core.smax([lift(x) for x in a], 'max')
    if name in MINROWS:
        return lift(MINROWS[name])
    if name in NOMIN:
        return lift(1)
    k = kw.get
    return {'EaseOfMovement': lambda: mx(k('period'), 2), 'RelativeStrengthIndex': lambda: lift(k('period')) + 1,
            'RelativeMomentumIndex': lambda: lift(k('period')) + k('momentum_period'),
            'RelativeVolatilityIndex': lambda: lift(k('period')) + 10,
            'RangeIndicator': lambda: mx(k('range_period'), k('smoothing_period')),
            'VolatilityChaikins': lambda: mx(k('ema_period'), k('change_period')), 'VolumeOscillator': lambda: lift(k('long_period')),
            'PriceOscillator': lambda: lift(k('long_ma')), 'StochasticOscillator': lambda: lift(k('k_periods')),
            'MovingAverage': lambda: lift(22) if k('ma_type') == 'variable' else lift(k('period'))
            }.get(name, lambda: lift(k('period')))()


def columns(name, kw):
    """documented columns in order (from the reference definitions on a small sample)"""
    key = name, tuple(sorted(kw.items()))
    if key not in _COL:
        small = dict(specs.IND[name][2], **{k: v for k, v in kw.items() if isinstance(v, str)})
        n = 60 if name == 'KlingerOscillator' else 40
        D = Data(cols_of(name), n, conc=n)
        _COL[key] = list(refs.REF[name](D.d, **small))
    return _COL[key]


_COL = {}


def rows_of(name, n, kw):
    """positions of the input rows that have a row of values"""
    if name == 'DetrendedPriceOscillator':
        return None
    return list(range(n))


def run_rows(ob):
    """whole-number parameters symbolic (unbounded), n rows"""
    name, n, style = ob['ind'], ob['n'], ob.get('style', 0)
    T = tti()
    cls = getattr(T.ind, name)
    od = ob.get('order')
    idx = dates(n)

    def fn(ctx):
        D = Data(cols_of(name), n, **dict(dict(conc=ob.get('conc', n), style=style), **ob.get('opt', {})))
        kw = dict(ob['kwargs'])
        if 'fill' in ob:
            kw['fill_missing_values'] = ob['fill']
        for p, rule, lo in PARAMS.get(name, ()):
            if rule == 'int' and p not in ob.get('fixed', ()):
                kw[p] = core.var(p, integer=True)
                ctx.add_assume((kw[p] >= lo).b)
                if p in ob.get('cap', {}):
                    ctx.add_assume((kw[p] <= ob['cap'][p]).b)
        if name == 'MovingAverage' and kw['ma_type'] == 'time_series' and isinstance(kw['period'], Sym):
            ctx.add_assume((kw['period'] >= 2).b)
        if name in GREATER:
            a, b = GREATER[name]
            ctx.add_assume((lift(kw[a]) > kw[b]).b)
        err = t = None
        try:
            t = cls(layout.frame(D.d, dict(order=od, cols=[[c, c] for c in D.cols]), idx, series), **kw).getTiData()
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return D, kw, t, err

    def judge(r):
        D, kw, t, err = r
        m = need(name, {p: v for p, v in kw.items() if p != 'fill_missing_values'})
        enough = (m <= n).b

        def spec(vals, bools):
            e = core.Env(vals, bools)
            k2 = {p: int(e.p(v.p)) if isinstance(v, Sym) else v for p, v in kw.items()}
            return dict(kind='rows', indicator=name, kwargs=k2, data=D.concrete(vals, bools), order=od,
                        enough=bool(lift(need(name, {p: v for p, v in k2.items() if p != 'fill_missing_values'})).p.const() <= n), columns=columns(name, ob['kwargs']),
                        all=name != 'DetrendedPriceOscillator')
        if err is not None:
            cl = [Claim('%s: %s' % (type(err).__name__, str(err)[:60]),
                        bnot(enough) if type(err).__name__ == 'NotEnoughInputData' else FALSE, spec)]
        else:
            cl = [Claim('constructed', enough, spec),
                  Claim('columns %s' % list(t.columns), TRUE if list(t.columns) == columns(name, ob['kwargs']) else FALSE, spec)]
            if name == 'DetrendedPriceOscillator':
                good = list(t.index) == sorted(set(t.index)) and set(t.index) <= set(idx)
            else:
                good = list(t.index) == list(idx)
            cl.append(Claim('dates of the input, ascending, one row each', TRUE if good else FALSE, spec))
        return cl, spec, [(v <= 60).b for v in kw.values() if isinstance(v, Sym)]
    return explore(ob, fn, judge, wit=3)


# ------------------------------------------------------------------ C20: look-ups
DAYS = ('2020-03-02', '2020-03-03', '2020-03-06', '2020-03-09')         # with a gap
ASK = (('text', 'text'), ('slashed', 'slashed'), ('stamp', 'stamp'), ('date', 'date'), ('dt64', 'dt64'), ('datetime', 'datetime'),
       ('noon', 'noon'), ('compact', 'compact'))
RARE = ('midnight', 'words', 'aware') + tuple(layout.NEAR)
NODATE = ('', 'abc', '2020-13-45', 'close', '03', None, 5, -1, 1.5, True, 'NaT', 'nan')


def run_lookup(ob):
    name, kw, n = ob['ind'], ob['kwargs'], ob['n']
    T = tti()
    cls = getattr(T.ind, name)
    od = ob['order']
    # business-day like index: every third day missing
    idx = pd.DatetimeIndex([pd.Timestamp('2020-03-02') + pd.Timedelta(days=i + i // 2) for i in range(n)])
    span = [str((idx[0] + pd.Timedelta(days=k)).date()) for k in range(-2, (idx[-1] - idx[0]).days + 3)]
    few = [str(x.date()) for x in (idx[0], idx[-1], idx[1] + pd.Timedelta(days=1))]
    span += ['2019-03-02', '2021-03-03', '1999-12-31', '2200-01-01']

    def choose(tag, items):
        for i, x in enumerate(items[:-1]):
            if bool(SymBool(core.bvar('%s=%s' % (tag, x)))):
                return x
        return items[-1]

    def fn(ctx):
        D = Data(cols_of(name), n, conc=n)
        ti = cls(layout.frame(D.d, dict(order=od, cols=[[c, c] for c in D.cols]), idx, series), **kw)
        t0 = ti.getTiData()
        vals = {c: [gap_cell_any('t%d_%d' % (j, i)) for i in range(len(t0))] for j, c in enumerate(t0.columns)}
        ti._ti_data = pd.DataFrame({c: series(v, t0.index) for c, v in vals.items()}, index=t0.index)
        if bool(SymBool(core.bvar('nodate'))):
            ask = choose('what', NODATE)
            form = None
        else:
            ask = choose('day', span)
            form = choose('form', [f for f, _ in ASK] + (list(RARE) if ask in few else []))
        err = r = None
        try:
            r = ti.getTiValue(ask if form is None else ask_value(ask, form))
            if ask is None and form is None:
                r = (r, ti.getTiValue())
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return D, t0, vals, ask, form, r, err

    def judge(q):
        D, t0, vals, ask, form, r, err = q

        def spec(v, b):
            e = core.Env(v, b)
            return dict(kind='lookup', indicator=name, kwargs=kw, data=D.concrete(v, b), days=[str(x.date()) for x in idx], order=od,
                        values={c: [fl(e, x) for x in xs] for c, xs in vals.items()}, ask=ask, form=form)
        if err is not None:
            return [Claim('look-up of %r raises %s' % (ask, type(err).__name__), FALSE, spec)], spec, []
        both = [r]
        if form is None:
            row = len(t0) - 1 if ask is None else None
            if ask is None:
                both = list(r)
        else:
            t = layout.asked(ask, form)
            row = list(t0.index).index(t) if t in list(t0.index) else None
        cl = []
        for x in both:
            if row is None:
                cl.append(Claim('look-up of %r (%s) gives %s' % (ask, form, x), TRUE if x is None else FALSE, spec))
            elif not isinstance(x, list) or len(x) != len(vals):
                cl.append(Claim('look-up of %r (%s) gives %r' % (ask, form, x), FALSE, spec))
            else:
                cl += [eqv('look-up of %r (%s), %s' % (ask, form, c), u, vals[c][row], spec) for u, c in zip(x, vals)]
        return cl, spec, [b for xs in vals.values() for x in xs for b in ((Sym(x.p) >= -500).b, (Sym(x.p) <= 500).b)]
    return explore(dict(ob, every=12), fn, judge)


def gap_cell_any(name):
    x = core.var(name)
    return Sym(x.p, core.bvar(name + '?'))


# ------------------------------------------------------------------ C21: graphs
GRAPH = {'BollingerBands': (('close',), False), 'DoubleExponentialMovingAverage': (('close',), False), 'EaseOfMovement': ((), False),
         'Envelopes': (('close',), False), 'FibonacciRetracement': (('close',), False), 'IchimokuCloud': (('close',), False),
         'LinearRegressionIndicator': (('close',), False), 'MarketFacilitationIndex': (('volume',), True),
         'MassIndex': (('close', '9_ema'), True), 'MedianPrice': (('close_ema',), False), 'MovingAverage': (('close',), False),
         'ParabolicSAR': (('close',), False), 'PriceChannel': (('close',), False), 'ProjectionBands': (('close',), False),
         'RelativeVolatilityIndex': (('high', 'low'), True), 'TimeSeriesForecast': (('close',), False),
         'TripleExponentialMovingAverage': (('close',), False), 'TypicalPrice': (('close',), False), 'VolatilityChaikins': ((), False),
         'VolumeOscillator': (('volume',), True), 'VolumeRateOfChange': (('volume',), True), 'WeightedClose': (('close',), False),
         'WildersSmoothing': (('close',), False)}


def plotted(log):
    """calls ax.plot(x, y, label=...) -> [(axis number, x, y, label)]"""
    out = []
    for path, a, k in log:
        if path.startswith('ax') and path.endswith('.plot'):
            out.append((int(path[2:].split('.')[0].split('[')[0]), list(a[0]), a[1], k.get('label')))
    return out


def run_graph(ob):
    name, kw, n = ob['ind'], ob['kwargs'], ob['n']
    T = tti()
    cls = getattr(T.ind, name)
    inp, sub = GRAPH.get(name, (('close',), True))

    def fn(ctx):
        D = Data(cols_of(name), n, conc=ob.get('conc', 0))
        ti = cls(D.frame(), **kw)
        t0 = ti.getTiData()
        vals = {c: [gap_cell_any('t%d_%d' % (j, i)) for i in range(len(t0))] for j, c in enumerate(t0.columns)}
        ti._ti_data = pd.DataFrame({c: series(v, t0.index) for c, v in vals.items()}, index=t0.index)
        del T.plotlog[:]
        err = g = None
        try:
            g = ti.getTiGraph()
        except core.SymError:
            raise
        except Exception as e:
            err = e
        side = {c: list(ti._input_data[c]._values) for c in inp if c not in D.d}
        return D, t0, vals, side, err, g, list(T.plotlog)

    def judge(q):
        D, t0, vals, side, err, g, log = q

        def spec(v, b):
            e = core.Env(v, b)
            return dict(kind='graph', indicator=name, kwargs=kw, data=D.concrete(v, b), inputs=list(inp), sub=sub,
                        values={c: [fl(e, x) for x in xs] for c, xs in vals.items()})
        if err is not None:
            return [Claim('raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec)], spec, []
        idx = list(dates(n))
        exp = [(0, idx, D.d.get(c, side.get(c)), c) for c in inp] + [(1 if sub else 0, list(t0.index), v, c) for c, v in vals.items()]
        got = plotted(log)
        cl = [Claim('%d lines drawn' % len(got), TRUE if len(got) == len(exp) else FALSE, spec)]
        if cl[0].f is TRUE:
            for i, (a, b) in enumerate(zip(got, exp)):
                cl.append(Claim('line %d: plot %s, label %s' % (i, a[0], a[3]), TRUE if a[0] == b[0] and a[3] == b[3] else FALSE, spec))
                y = dict(zip(a[1], list(a[2])))
                miss = [d for d in a[1] if d not in b[1]]
                ok = set(b[1]) <= set(a[1]) and len(list(a[2])) == len(a[1]) and all(lift(y[d]).is_nan_const() for d in miss)
                cl.append(Claim('line %s: dates' % a[3], TRUE if ok else FALSE, spec))
                if ok:
                    cl += [eqv('line %s at %d' % (a[3], k), y[d], v, spec) for k, (d, v) in enumerate(zip(b[1], b[2]))]
        if name == 'IchimokuCloud':
            fills = [(a, k) for p, a, k in log if p.endswith('.fill_between')]
            cl.append(Claim('one shaded area', TRUE if len(fills) == 1 else FALSE, spec))
            if len(fills) == 1:
                k = dict(zip(('x', 'y1', 'y2', 'where'), fills[0][0]), **fills[0][1])
                for key, c in (('y1', 'senkou_a'), ('y2', 'senkou_b')):
                    y = list(k[key])
                    cl.append(Claim('area %s' % key, TRUE if len(y) == len(vals[c]) and list(k['x']) == list(t0.index) else FALSE, spec))
                    cl += [eqv('area %s[%d]' % (key, i), u, v, spec) for i, (u, v) in enumerate(zip(y, vals[c]))]
        return cl, spec, D.bounds()
    return explore(ob, fn, judge)


def run_simgraph(ob):
    n, stubbed = ob['n'], ob['signals']
    T = tti()

    def fn(ctx):
        D = Data(('close', 'volume'), n, conc=n)
        p = [core.var('p%d' % i, '+') if n < 20 or i >= n - 2 else lift(core.F(160 + (i * 7) % 23 - i % 5, 4)) for i in range(n)]
        ti = T.ind.OnBalanceVolume(D.frame())
        k = []

        def stub(self):
            k.append(1)
            return SIGS[stubbed[len(k) - 1]]
        ti.__class__ = type('OnBalanceVolume', (T.ind.OnBalanceVolume,), dict(getTiSignal=stub))
        del T.plotlog[:]
        err = r = None
        try:
            r = ti.getTiSimulation(pd.DataFrame({'close': series(p, dates(n))}, index=dates(n)), None, 1.5)
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return p, err, r, list(T.plotlog)

    def judge(q):
        p, err, r, log = q

        def spec(v, b):
            e = core.Env(v, b)
            return dict(kind='simgraph', prices=[fl(e, x) for x in p], signals=stubbed)
        if err is not None:
            return [Claim('raises %s: %s' % (type(err).__name__, str(err)[:80]), FALSE, spec)], spec, []
        t = r[0]
        got = plotted(log)
        exp = [(0, 'stock_value', 'close_price'), (1, 'exposure', 'exposure'), (2, 'balance', 'balance')]
        cl = [Claim('%d lines drawn' % len(got), TRUE if len(got) == 3 else FALSE, spec)]
        if len(got) == 3:
            for a, (ax, c, lab) in zip(got, exp):
                y = list(a[2])
                cl.append(Claim('%s: plot, label, days' % lab, TRUE if a[0] == ax and a[3] == lab and len(y) == n and
                                a[1] == list(range(1, n + 1)) else FALSE, spec))
                cl += [eqv('%s[%d]' % (lab, i), u, v, spec) for i, (u, v) in enumerate(zip(y, t[c]._values))]
        return cl, spec, [b for x in p for b in ((x >= 1).b, (x <= 500).b)]
    return explore(ob, fn, judge)


SIGS = {'buy': ('buy', -1), 'hold': ('hold', 0), 'sell': ('sell', 1)}


# ------------------------------------------------------------------ C23: the caller's frames
def snap(df):
    return ([list(df.iloc[:, j]._values) for j in range(df.shape[1])], list(df.index), list(df.columns), str(df.index.dtype), df.index.name,
            list(df.columns.names))


def unchanged(a, b):
    return a[1:] == b[1:] and len(a[0]) == len(b[0]) and all(
        len(x) == len(y) and all(u is v or (not isinstance(u, (Sym, SymBool)) and not isinstance(v, (Sym, SymBool)) and
                                            (u == v or (u != u and v != v))) or
                                 (isinstance(u, Sym) and isinstance(v, Sym) and u.p == v.p and u.nan is v.nan)
                                 for u, v in zip(x, y)) for x, y in zip(a[0], b[0]))


def run_caller(ob):
    name, kw, n, lay, holes = ob['ind'], dict(ob['kwargs']), ob['n'], ob['lay'], ob['holes']
    T = tti()
    cls = getattr(T.ind, name)
    idx = dates(n)
    if ob['fill'] is not None:
        kw['fill_missing_values'] = ob['fill']

    def fn(ctx):
        D = Data(cols_of(name), n, **ob.get('opt', {}))
        gap = {c: [NAN if [c, i] in holes else x for i, x in enumerate(v)] for c, v in D.d.items()}
        df = layout.frame(gap, lay, idx, series)
        od = lay.get('order') or list(range(n))
        cf = pd.DataFrame({'Close': [60.0 + (3 * i) % 7 if i != 1 else float('nan') for i in od], 'note': ['x'] * n}, index=idx[od])
        s0, c0 = snap(df), snap(cf)
        stage, bad_, err = 'constructor', [], None

        def look(st):
            if not unchanged(s0, snap(df)):
                bad_.append('input after ' + st)
            if not unchanged(c0, snap(cf)):
                bad_.append('close prices after ' + st)
        try:
            ti = cls(df, **kw)
            look('constructor')
            for stage, f in (('getTiData', lambda: ti.getTiData()), ('getTiValue', lambda: (ti.getTiValue(), ti.getTiValue('2020-01-02'))),
                             ('getTiGraph', lambda: ti.getTiGraph()), ('getTiSignal', lambda: ti.getTiSignal()),
                             ('getTiSimulation', lambda: ti.getTiSimulation(cf, 150.0) if ob['sim'] else None)):
                f()
                look(stage)
            # the caller changes the frame afterwards
            i0, t0 = snap(ti._input_data), snap(ti._ti_data)
            for j in range(df.shape[1]):
                df.iloc[0, j] = 1.0
            df['close'] = 1.0
            df.columns = ['z%d' % j for j in range(df.shape[1])]
            df.drop(columns=[df.columns[0]], inplace=True)
            if not unchanged(i0, snap(ti._input_data)) or not unchanged(t0, snap(ti._ti_data)):
                bad_.append('the indicator, when the caller changes the frame')
        except core.SymError:
            raise
        except Exception as e:
            err = e
        return D, gap, bad_, err, stage

    def judge(q):
        D, gap, bad_, err, stage = q

        def spec(v, b):
            e = core.Env(v, b)
            return dict(kind='caller', indicator=name, kwargs=kw, lay=lay, data={c: [fl(e, x) for x in xs] for c, xs in gap.items()}, sim=ob['sim'])
        cl = [Claim('%s raises %s: %s' % (stage, type(err).__name__, str(err)[:80]) if err is not None else 'changed: %s' % bad_,
                    TRUE if err is None and not bad_ else FALSE, spec)]
        return cl, spec, D.bounds()
    return explore(ob, fn, judge, wit=2)
