"""Two runs of the real code on related inputs, compared cell by cell (C05, C10, C24)."""
import time

from . import layout
from .common import *
from .values import cols_of


def series(v, idx):
    return pd.Series(list(v), index=idx, dtype=object)


def eqv(label, a, b, spec, t=1e-6):
    """both missing, or both the same number"""
    a, b = lift(a), lift(b)
    d = psub(a.p, b.p)
    f = bor(band(a.nan, b.nan), band(a.pi, b.pi), band(a.ni, b.ni), band(a.fin, b.fin, rel('==', d)))
    tt = pconst(F(t).limit_denominator(10 ** 12))
    rob = bnot(bor(band(bnot(a.fin), bnot(b.fin)), band(a.fin, b.fin, bnot(rel('<', padd(tt, d))), bnot(rel('<', psub(tt, d))))))
    return Claim(label, f, spec, rob)


def tables(a, b, rows=None, scale=None, spec=None, t=1e-6):
    """claims that frame a (its first rows) equals frame b"""
    if list(a.columns) != list(b.columns):
        return [Claim('columns %s and %s' % (list(a.columns), list(b.columns)), FALSE, spec)]
    n = len(b) if rows is None else rows
    if list(a.index[:n]) != list(b.index[:n]) or (rows is None and len(a) != len(b)):
        return [Claim('dates differ', FALSE, spec)]
    out = []
    for j, c in enumerate(b.columns):
        x, y = a.iloc[:, j]._values, b.iloc[:, j]._values
        for i in range(n):
            out.append(eqv('%s[%d]' % (c, i), x[i], y[i] if scale is None else scale(c, lift(y[i])), spec, t))
    return out


def anyorder(lay, n):
    """'any': every order of the rows / columns, one per path"""
    def pick(tag, items):
        left, r = list(items), []
        while len(left) > 1:
            i = 0
            while i < len(left) - 1 and not bool(SymBool(core.bvar('%s%d_%d' % (tag, len(r), i)))):
                i += 1
            r.append(left.pop(i))
        return r + left
    lay = dict(lay)
    if lay.get('order') == 'any':
        lay['order'] = pick('r', range(n))
    if lay.get('anycols'):
        lay['cols'] = pick('c', lay['cols'])
    return lay


def run(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    T = tti()
    cls = getattr(T.ind, name)
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    what = ob['what']
    used = {}
    cal = opt.pop('cal', None)

    def fn():
        D = Data(cols_of(name), n, **opt)
        idx = calendar(cal, n)
        if what != 'prefix':
            used['lay'] = ob['lay'] if isinstance(ob['lay'].get('order') or [], list) else dict(ob['lay'], order=list(range(n))[::-1])
        try:
            a = cls(D.frame(index=idx), **kw)
            ta = a.getTiData()
            if what == 'prefix':
                m = ob['m']
                b = cls(pd.DataFrame({c: pd.Series(D.d[c][:m], index=idx[:m], dtype=object) for c in D.cols}, index=idx[:m]), **kw)
                return D, a, b, ta, b.getTiData(), None, None
            lay = anyorder(ob['lay'], n)
            used['lay'] = lay
            b = cls(layout.frame(D.d, lay, idx, series), **kw)
            extra = None
            if ob.get('signal'):
                extra = a.getTiSignal(), b.getTiSignal()
            if ob.get('sim'):
                cl = [60.0 + (3 * i) % 7 for i in range(n)]
                sa, sb = [x.getTiSimulation(pd.DataFrame({'close': cl}, index=idx), 150.0)[0] for x in (a, b)]
                extra = (list(sa['signal']), list(sa['balance'])), (list(sb['signal']), list(sb['balance']))
            return D, a, b, ta, b.getTiData(), None, extra
        except core.SymError:
            raise
        except Exception as e:
            return D, None, None, None, None, e, None

    wit = 0
    for D, a, b, ta, tb, err, extra in ctx.explore(fn):
        out.paths += 1
        lay = used.get('lay')

        def spec(vals, bools, lay=lay):
            s = dict(kind='relation', lay=lay, what=what, indicator=name, kwargs=kw, data=D.concrete(vals, bools), cal=cal)
            for k in ('m', 'signal', 'sim'):
                if k in ob:
                    s[k] = ob[k]
            return s
        if err is not None:
            cl = [Claim('raises %s: %s' % (type(err).__name__, str(err)[:100]), FALSE, spec)]
        elif what == 'prefix':
            cl = tables(ta, tb, ob['m'], spec=spec, t=1.01e-4)
        else:
            cl = tables(tb, ta, spec=spec)
            for d in ('2020-01-01', '2020-01-02', None):
                x, y = a.getTiValue(d), b.getTiValue(d)
                cl.append(Claim('look-up %s' % d, TRUE if (x is None) == (y is None) and (x is None or len(x) == len(y)) else FALSE, spec))
                if x is not None and y is not None and len(x) == len(y):
                    cl += [eqv('look-up %s' % d, u, v, spec) for u, v in zip(x, y)]
            if extra is not None:
                cl.append(Claim('signals %r and %r' % extra, TRUE if extra[0] == extra[1] else FALSE, spec))
        decide(out, ctx, cl, heur=lambda c: D.heuristics(k=8, seed=name), extra=D.bounds(), qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if wit < 2:
            wit += 1
            v, m = ctx.query(ctx.assume + ctx.pc + D.bounds(), timeout=800)
            if v == 'sat':
                vb = ctx.model_vals(m)
                if stable(ctx.pc, *vb) and run_real(out, spec(*vb), 'witness of path %d' % out.paths):
                    break
    return out.result()


PRICE = ('open', 'high', 'low', 'close')
K, Q = 'scale_p', 'scale_v'


def run_scale(ob):
    """prices times a symbolic positive factor (or volumes): values scale with their known degree, signals stay"""
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    T = tti()
    cls = getattr(T.ind, name)
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8
    by, deg = ob['by'], ob['deg']

    def fn():
        D = Data(cols_of(name), n, **opt)
        idx = dates(n)
        k = core.var(K if by == 'price' else Q, '+') if ob.get('const') is None else lift(F(ob['const']))
        d2 = {c: [x * k for x in v] if (c in PRICE) == (by == 'price') else v for c, v in D.d.items()}
        try:
            a = cls(D.frame(), **kw)
            b = cls(pd.DataFrame({c: pd.Series(list(d2[c]), index=idx, dtype=object) for c in D.cols}, index=idx), **kw)
            sig = None
            if ob.get('signal'):
                sig = a.getTiSignal(), b.getTiSignal()
            return D, k, a.getTiData(), b.getTiData(), sig, None
        except core.SymError:
            raise
        except Exception as e:
            return D, k, None, None, None, e

    wit = 0
    for D, k, ta, tb, sig, err in ctx.explore(fn):
        out.paths += 1

        def spec(vals, bools):
            e = core.Env(vals, bools)
            return dict(kind='scale', indicator=name, kwargs=kw, data=D.concrete(vals, bools), by=by, k=fl(e, k), deg=deg,
                        signal=ob.get('signal'))
        if err is not None:
            cl = [Claim('raises %s: %s' % (type(err).__name__, str(err)[:100]), FALSE, spec)]
        else:
            f = lambda c, y: y if deg == 0 else y * k if deg == 1 else y * k * k if deg == 2 else y / k
            cl = tables(tb, ta, scale=f, spec=spec, t=1e-3)
            if sig is not None:
                cl.append(Claim('signals %r and %r' % sig, TRUE if sig[0] == sig[1] else FALSE, spec))
        bounds = list(D.bounds())
        if not k.is_const():
            bounds += [(k >= lift(F(1, 8))).b, (k <= 8).b]
        decide(out, ctx, cl, heur=lambda c: ((dict(v, **{K: F(2), Q: F(2)}), b) for v, b in D.heuristics(k=8, seed=name)), extra=bounds,
               qbudget=ob.get('budget', 60) / 2)
        if out.violations:
            break
        if wit < 2:
            wit += 1
            v, m = ctx.query(ctx.assume + ctx.pc + bounds, timeout=800)
            if v == 'sat':
                vb = ctx.model_vals(m)
                if stable(ctx.pc, *vb) and run_real(out, spec(*vb), 'witness of path %d' % out.paths):
                    break
    return out.result()


# ------------------------------------------------------------------ C15: ranges and order
def coherent(D, ctx):
    """low <= open, close <= high in the symbolic rows, by construction where possible"""
    for i in range(D.conc, D.n):
        lo = D.d['low'][i] if 'low' in D.d else None
        if lo is None:
            continue
        cl = lo + core.var('cb%d' % i, '0+')
        hi = cl + core.var('ch%d' % i, '0+')
        if 'close' in D.d:
            D.d['close'][i] = cl
        if 'high' in D.d:
            D.d['high'][i] = hi
        if 'open' in D.d:
            D.d['open'][i] = lo + core.var('co%d' % i, '0+')
            ctx.add_assume((D.d['open'][i] <= hi).b)


def between(label, x, lo, hi, spec, t=1e-3):
    """a finite value is within [lo, hi]"""
    x = lift(x)
    bad, far = [], []
    for lim, up in ((lo, False), (hi, True)):
        if lim is None:
            continue
        lim = lift(lim)
        d = psub(x.p, lim.p)
        tt = pconst(F(t).limit_denominator(10 ** 9))
        ok = lim.fin
        if up:
            bad.append(band(ok, rel('<', core.pneg(d))))
            far.append(band(ok, rel('<', psub(tt, d))))
        else:
            bad.append(band(ok, rel('<', d)))
            far.append(band(ok, rel('<', padd(tt, d))))
    return Claim(label, bor(bnot(x.fin), bnot(bor(*bad))), spec, band(x.fin, bor(*far)))


def lims(name, ta, D, kw):
    """(label, cell, lower, upper) for every reported cell"""
    from .ranges import CELL, ORDER, WITHIN
    out = []
    n = len(ta)
    col = {c: ta.iloc[:, j]._values for j, c in enumerate(ta.columns)}
    for c in ta.columns:
        r = CELL.get((name, c)) or CELL.get(name)
        if r:
            for i in range(n):
                out.append(('%s[%d] in %s' % (c, i, list(r)), col[c][i], r[0], r[1]))
    for lo, hi in ORDER.get(name, ()):
        for i in range(n):
            b = D.d[hi][i] if hi in D.d else col[hi][i]
            a = D.d[lo][i] if lo in D.d else col[lo][i]
            out.append(('%s <= %s at %d' % (lo, hi, i), b, a, None))
    w = WITHIN.get(name)
    if w:
        win, lc, hc = w
        k = win(kw)
        for c in ta.columns:
            for i in range(n):
                a = max(0, i - k + 1) if k else 0
                lo, hi = core.smax(D.d[lc][a:i + 1], 'min'), core.smax(D.d[hc][a:i + 1], 'max')
                out.append(('%s[%d] between the extremes' % (c, i), col[c][i], lo, hi))
    return out


def run_range(ob):
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    T = tti()
    cls = getattr(T.ind, name)
    out = Outcome()
    ctx = core.Ctx()
    ctx.deadline = time.time() + ob.get('budget', 60) * 0.8

    def fn():
        ctx.assume.clear()
        D = Data(cols_of(name), n, **opt)
        coherent(D, ctx)
        try:
            return D, cls(D.frame(), **kw).getTiData(), None
        except core.SymError:
            raise
        except Exception as e:
            return D, None, e

    for D, ta, err in ctx.explore(fn):
        out.paths += 1

        def spec(vals, bools):
            return dict(kind='ranges', indicator=name, kwargs=kw, data=D.concrete(vals, bools))
        if err is not None:
            cl = [Claim('raises %s: %s' % (type(err).__name__, str(err)[:100]), FALSE, spec)]
        else:
            cl = [between(l, x, a, b, spec, 0.1 if name == 'ProjectionOscillator' else 1e-3) for l, x, a, b in lims(name, ta, D, kw)]
        decide(out, ctx, cl, extra=D.bounds(), qbudget=ob.get('budget', 60) * .7)
        if out.violations:
            break
        if out.paths <= 2:
            v, m = ctx.query(ctx.assume + ctx.pc + D.bounds(), timeout=800)
            if v == 'sat' and run_real(out, spec(*ctx.model_vals(m)), 'witness of path %d' % out.paths):
                break
    return out.result()


def fallback(ob):
    """witness inputs for code that cannot be encoded"""
    name, kw, n, opt = ob['ind'], ob['kwargs'], ob['n'], dict(ob.get('opt', {}))
    cal = opt.pop('cal', None)
    D = Data(cols_of(name), n, **opt)
    for vals, bools in D.heuristics(k=6, seed=(name, n)):
        s = dict(indicator=name, kwargs=kw, data=D.concrete(vals, bools))
        if ob['fn'].endswith(':run'):
            if ob['what'] != 'prefix' and (ob['lay'].get('order') == 'any' or ob['lay'].get('anycols')):
                return
            s.update(kind='relation', lay=ob.get('lay'), what=ob['what'], cal=cal, **{k: ob[k] for k in ('m', 'signal', 'sim') if k in ob})
        elif ob['fn'].endswith(':run_scale'):
            s.update(kind='scale', by=ob['by'], k=2.0, deg=ob['deg'], signal=ob.get('signal'))
        else:
            s.update(kind='ranges')
        yield s
